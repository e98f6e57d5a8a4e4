package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Iterations over maps, and over lists that were filled while iterating over
// one, run in an order that differs from run to run. ordering decides for each
// of them that the order has no effect on what the function computes.
type ordering struct {
	c     *Ctx
	e     *effects
	loops map[*ssa.Function][]*uloop
	// unordered lists
	list   map[ssa.Value]string // value -> where it comes from
	retU   map[*ssa.Function][]string
	paramU map[*ssa.Parameter]string
	accMap map[string]string // map types whose lists are accumulated without order
	sorts  map[*ssa.Parameter]bool
	change bool
	found  map[string]finding
}

// uloop is a loop over an unordered collection.
type uloop struct {
	o      *ordering
	f      *ssa.Function
	s      *fnEff
	over   ssa.Value
	what   string
	head   *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool
	elem   map[ssa.Value]bool // identify the element
	pos    token.Pos
	webs   map[*ssa.Phi]*web
	once   map[*ssa.BasicBlock]bool
	writes map[string]string // map types updated: how
	wlocs  map[string]locSet // which maps
	stores map[string]ssa.Value
	oncePh map[*ssa.Phi]bool
	acc    []cellAcc
	effect bool // on memory that outlives the iteration
	out    bool // on memory that outlives the call
	seen   map[string]bool
	reads  []pendingRead
	listPh []*ssa.Phi
}

type pendingRead struct {
	sc   *oscope
	in   ssa.Instruction
	m, k ssa.Value
}

type cellAcc struct {
	base  ssa.Value
	field int // -1: the variable itself
}

// web is one accumulator: a variable carried from one iteration to the next.
type web struct {
	kind  string
	nodes map[ssa.Value]bool
	cnst  constant.Value
}

func (l *uloop) bad(pos token.Pos, format string, args ...any) {
	l.o.report(l.f, pos, l.what+": "+format, args...)
}

func (o *ordering) report(f *ssa.Function, pos token.Pos, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	key := relName(f) + ": " + msg
	if _, ok := o.found[key]; !ok {
		o.found[key] = finding{f, pos, msg}
	}
}

type finding struct {
	f   *ssa.Function
	pos token.Pos
	msg string
}

// natural returns the loop headed by h: the blocks that reach a back edge.
func natural(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	in[h] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// same strips conversions that keep the identity of a value.
func ident(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			a, ok1 := x.X.Type().Underlying().(*types.Basic)
			b, ok2 := x.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 || a.Info()&types.IsString == 0 || b.Info()&types.IsString == 0 {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

func (o *ordering) find(f *ssa.Function) {
	s := o.e.fns[f]
	o.loops[f] = nil
	for _, b := range f.Blocks {
		if !s.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next:
				r, ok := in.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				l := o.newLoop(f, r.X, b, "iteration over a map", r.Pos())
				if l == nil {
					continue
				}
				for _, u := range *in.Referrers() {
					if x, ok := u.(*ssa.Extract); ok && x.Index > 0 {
						l.elem[x] = true
					}
				}
			case *ssa.IndexAddr:
				if why := o.list[in.X]; why != "" && !o.sorted(in.X, in) {
					o.indexLoop(f, in, in.X, in.Index, why)
				}
			case *ssa.Index:
				if why := o.list[in.X]; why != "" && !o.sorted(in.X, in) {
					o.indexLoop(f, in, in.X, in.Index, why)
				}
			}
		}
	}
}

func (o *ordering) newLoop(f *ssa.Function, over ssa.Value, h *ssa.BasicBlock, what string, pos token.Pos) *uloop {
	in := natural(h)
	if in == nil {
		// the body leaves in the first iteration
		in = map[*ssa.BasicBlock]bool{h: true}
	}
	l := &uloop{o: o, f: f, s: o.e.fns[f], over: over, what: what, head: h, in: in, elem: map[ssa.Value]bool{}, pos: pos,
		webs: map[*ssa.Phi]*web{}, once: map[*ssa.BasicBlock]bool{}, writes: map[string]string{}, wlocs: map[string]locSet{}, stores: map[string]ssa.Value{}, oncePh: map[*ssa.Phi]bool{}, seen: map[string]bool{}}
	o.loops[f] = append(o.loops[f], l)
	return l
}

// indexLoop: l[i] where i runs over all of l.
func (o *ordering) indexLoop(f *ssa.Function, at ssa.Instruction, list, index ssa.Value, why string) {
	if oneLong(at.Block(), list) {
		return
	}
	h := counterHead(index)
	if h == nil {
		o.report(f, at.Pos(), "an element of %s is picked by its position", why)
		return
	}
	var l *uloop
	for _, x := range o.loops[f] {
		if x.head == h && x.over == list {
			l = x
		}
	}
	if l == nil {
		l = o.newLoop(f, list, h, "iteration over "+why, at.Pos())
	}
	if v, ok := at.(*ssa.Index); ok {
		l.elem[v] = true
		return
	}
	for _, u := range *at.(ssa.Value).Referrers() {
		if x, ok := u.(*ssa.UnOp); ok && x.Op == token.MUL {
			l.elem[x] = true
		}
	}
}

// counterHead returns the header of the loop a counter belongs to.
func counterHead(v ssa.Value) *ssa.BasicBlock {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
			v = b.X
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok || natural(p.Block()) == nil {
		return nil
	}
	for i, pred := range p.Block().Preds {
		x := p.Edges[i]
		if p.Block().Dominates(pred) {
			b, ok := x.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != p {
				return nil
			}
		} else if _, ok := x.(*ssa.Const); !ok {
			return nil
		}
	}
	return p.Block()
}

// oneLong: the block runs only if the collection has exactly one element.
func oneLong(b *ssa.BasicBlock, coll ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.EQL && cond.Op != token.NEQ {
			continue
		}
		want := 0
		if cond.Op == token.NEQ {
			want = 1
		}
		if len(d.Preds) != 1 || p.Succs[want] != d {
			continue
		}
		c, ok := cond.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() > 1 {
			continue
		}
		if ln, ok := cond.X.(*ssa.Call); ok {
			if bi, ok := ln.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && ident(ln.Call.Args[0]) == ident(coll) {
				return true
			}
		}
	}
	return false
}

// sorted: a use of a list that a sort of the whole list precedes.
func (o *ordering) sorted(list ssa.Value, at ssa.Instruction) bool {
	for _, s := range o.sortsOf(list) {
		if precedes(s, at) {
			return true
		}
	}
	return false
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// sortsOf lists the calls that put a list in order.
func (o *ordering) sortsOf(list ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if list.Referrers() == nil {
		return nil
	}
	for _, u := range *list.Referrers() {
		switch u := u.(type) {
		case *ssa.ChangeType:
			out = append(out, o.sortsOf(u)...)
		case *ssa.MakeInterface:
			out = append(out, o.sortsOf(u)...)
		case *ssa.Slice:
			if u.Low == nil && u.High == nil {
				out = append(out, o.sortsOf(u)...)
			}
		case ssa.CallInstruction:
			if len(u.Common().Args) > 0 && u.Common().Args[0] == list && o.isSort(u.Common()) {
				out = append(out, u)
			} else if g := u.Common().StaticCallee(); g != nil {
				for i, a := range u.Common().Args {
					if a == list && i < len(g.Params) && o.sorts[g.Params[i]] {
						out = append(out, u)
					}
				}
			}
		}
	}
	return out
}

func (o *ordering) isSort(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil {
		return false
	}
	name := g.RelString(nil)
	if x := g.Origin(); x != nil {
		name = x.RelString(nil)
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return totalOrder(o.fnValue(c.Args[1]), strings.HasPrefix(name, "slices."))
	case "sort.Sort", "sort.Stable":
		mi, ok := c.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		t := mi.X.Type().String()
		return t == "sort.StringSlice" || t == "sort.IntSlice" || t == "sort.Float64Slice" || totalOrder(o.c.P.TypeMethod(mi.X.Type(), "Less"), false)
	}
	return false
}

func (o *ordering) fnValue(v ssa.Value) *ssa.Function {
	switch v := ident(v).(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.UnOp:
		if x := onlyStored1(v.X); x != nil {
			return o.fnValue(x)
		}
	}
	return nil
}

// onlyStored1 returns the one value assigned to a local variable.
func onlyStored1(addr ssa.Value) ssa.Value {
	if fv, ok := addr.(*ssa.FreeVar); ok {
		f := fv.Parent()
		for i, x := range f.FreeVars {
			if x != fv {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						return onlyStored1(mc.Bindings[i])
					}
				}
			}
		}
		return nil
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(al) || out != nil {
				return nil
			}
			out = u.Val
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		default:
			return nil
		}
	}
	return out
}

// totalOrder: the comparison is between the elements themselves, so that
// equal elements cannot be told apart.
func totalOrder(f *ssa.Function, direct bool) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	n := len(f.Params)
	if n < 2 {
		return false
	}
	a, b := f.Params[n-2], f.Params[n-1]
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			var x, y ssa.Value
			switch v := r.Results[0].(type) {
			case *ssa.BinOp:
				if v.Op != token.LSS && v.Op != token.GTR {
					return false
				}
				x, y = v.X, v.Y
				if c, ok := x.(*ssa.Call); ok && zeroInt(y) && len(c.Call.Args) == 2 && compares(c) {
					x, y = c.Call.Args[0], c.Call.Args[1]
				}
			case *ssa.Call:
				g := v.Call.StaticCallee()
				if g == nil || len(v.Call.Args) != 2 {
					return false
				}
				if !compares(v) {
					return false
				}
				x, y = v.Call.Args[0], v.Call.Args[1]
			default:
				return false
			}
			x, y = elementOf(x), elementOf(y)
			if !(x == a && y == b || x == b && y == a) {
				return false
			}
		}
	}
	return true
}

func zeroInt(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func compares(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	name := g.RelString(nil)
	if o := g.Origin(); o != nil {
		name = o.RelString(nil)
	}
	return name == "strings.Compare" || name == "cmp.Compare" || name == "cmp.Less"
}

// elementOf returns the parameter that a compared value is, or is indexed by.
func elementOf(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		v = ident(v)
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.Index
		case *ssa.Index:
			v = x.Index
		case *ssa.Call:
			// k.String() of a string type
			g := x.Call.StaticCallee()
			if g != nil && len(x.Call.Args) == 1 && injective(g) {
				v = x.Call.Args[0]
				continue
			}
			if g == nil || g.Name() != "String" || len(x.Call.Args) != 1 {
				return v
			}
			if b, ok := x.Call.Args[0].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return v
			}
			v = x.Call.Args[0]
		default:
			return v
		}
	}
	return v
}

// injective: a function whose result contains its argument.
func injective(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Params) != 1 {
		return false
	}
	var l *uloop
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				n++
				if len(r.Results) != 1 || !l.exactIn(r.Results[0], func(v ssa.Value) bool { return v == ssa.Value(g.Params[0]) }, 0) {
					return false
				}
			}
		}
	}
	return n > 0
}

// check decides one loop.
func (l *uloop) check() {
	if oneLong(l.head, l.over) || !l.looks() {
		return
	}
	l.findOnce()
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		l.phi(p)
	}
	for _, b := range l.f.Blocks {
		if !l.in[b] || !l.s.live[b] {
			continue
		}
		if l.once[b] {
			continue
		}
		for _, in := range b.Instrs {
			l.instr(in)
		}
	}
	l.checkReads()
	l.exits()
}

// looks: the elements are used.
func (l *uloop) looks() bool {
	for v := range l.elem {
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); !ok {
				return true
			}
		}
	}
	return false
}

// findOnce: blocks that run for at most one element, because a variable that
// they set makes the loop end if another one gets there.
func (l *uloop) findOnce() {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, pred := range l.head.Preds {
			if !l.in[pred] && !zeroConst(p.Edges[i]) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, b := range l.f.Blocks {
			if !l.in[b] || len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			unset := -1
			switch cond := iff.Cond.(type) {
			case *ssa.BinOp:
				if cond.X == ssa.Value(p) && zeroConst(cond.Y) {
					if cond.Op == token.EQL {
						unset = 0
					} else if cond.Op == token.NEQ {
						unset = 1
					}
				}
			case *ssa.Phi:
				if cond == p {
					unset = 1
				}
			case *ssa.UnOp:
				if cond.Op == token.NOT && cond.X == ssa.Value(p) {
					unset = 0
				}
			}
			if unset < 0 {
				continue
			}
			n, set := b.Succs[unset], b.Succs[1-unset]
			if len(n.Preds) != 1 || l.in[set] {
				continue
			}
			// every way back sets the variable
			good := true
			for _, pred := range l.head.Preds {
				if l.in[pred] && n.Dominates(pred) {
					good = good && l.setsOn(p, l.head, pred)
				} else if l.in[pred] && reachesIn(n, pred, l.in, l.head) {
					// merges with the rest of the body: look at the merge
					good = good && l.mergeSets(p, n, pred)
				}
			}
			if !good {
				continue
			}
			l.oncePh[p] = true
			for _, x := range l.f.Blocks {
				if l.in[x] && n.Dominates(x) {
					l.once[x] = true
				}
			}
		}
	}
}

func (l *uloop) setsOn(p *ssa.Phi, h, pred *ssa.BasicBlock) bool {
	for i, q := range h.Preds {
		if q == pred {
			return p.Edges[i] != ssa.Value(p) && !zeroConst(p.Edges[i])
		}
	}
	return false
}

// mergeSets: on the ways from n to the back edge at pred the variable is set.
func (l *uloop) mergeSets(p *ssa.Phi, n, pred *ssa.BasicBlock) bool {
	for i, q := range l.head.Preds {
		if q != pred {
			continue
		}
		v, ok := p.Edges[i].(*ssa.Phi)
		if !ok {
			return false
		}
		for j, r := range v.Block().Preds {
			if n.Dominates(r) || r == n {
				if v.Edges[j] == ssa.Value(p) || zeroConst(v.Edges[j]) {
					return false
				}
			} else if reachesIn(n, r, l.in, l.head) {
				return false
			}
		}
		return true
	}
	return false
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	return c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value)
}

// reachesIn: from a to b inside a loop without another iteration.
func reachesIn(a, b *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] || in != nil && !in[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.Succs {
			if y != head && walk(y) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// phi decides a variable carried from one iteration to the next.
func (l *uloop) phi(p *ssa.Phi) {
	if counterOf(p, l) || l.oncePh[p] {
		return
	}
	w := &web{nodes: map[ssa.Value]bool{p: true}}
	l.webs[p] = w
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	fail := func(pos token.Pos, why string) {
		if pos == token.NoPos {
			pos = l.pos
		}
		l.bad(pos, "%s depends on the order (%s)", name, why)
	}
	var leaves []ssa.Value
	ops := map[ssa.Value]bool{}
	setKind := func(k string) bool {
		if w.kind == "" {
			w.kind = k
		}
		return w.kind == k
	}
	okAll := true
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if w.nodes[v] || ops[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if l.in[x.Block()] && l.feeds(p, x, map[ssa.Value]bool{}) {
				w.nodes[x] = true
				for _, y := range x.Edges {
					grow(y)
				}
				return
			}
		case *ssa.Call:
			if !l.in[x.Block()] {
				break
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if l.feeds(p, x, map[ssa.Value]bool{}) {
						ops[x] = true
						okAll = setKind("list") && okAll
						w.nodes[x] = true
						grow(x.Call.Args[0])
						if l.feeds(p, x.Call.Args[1], map[ssa.Value]bool{}) {
							fail(x.Pos(), "appended to itself")
						}
						return
					}
				case "min", "max":
					if l.feeds(p, x, map[ssa.Value]bool{}) {
						ops[x] = true
						w.nodes[x] = true
						okAll = setKind(b.Name()) && okAll
						for _, a := range x.Call.Args {
							if l.feeds(p, a, map[ssa.Value]bool{}) {
								grow(a)
							}
						}
						return
					}
				}
			} else if k := l.o.commutes(l, x); k != "" && len(x.Call.Args) > 0 && l.feeds(p, x.Call.Args[0], map[ssa.Value]bool{}) {
				ops[x] = true
				w.nodes[x] = true
				okAll = setKind(k) && okAll
				grow(x.Call.Args[0])
				for _, a := range x.Call.Args[1:] {
					if l.feeds(p, a, map[ssa.Value]bool{}) {
						fail(x.Pos(), "combined with itself")
					}
				}
				return
			}
		case *ssa.BinOp:
			if !l.in[x.Block()] {
				break
			}
			b, isNum := x.Type().Underlying().(*types.Basic)
			if isNum && b.Info()&types.IsInteger != 0 {
				k := ""
				switch x.Op {
				case token.ADD, token.SUB:
					k = "sum"
				case token.MUL:
					k = "product"
				case token.OR:
					k = "or"
				case token.AND:
					k = "and"
				case token.XOR:
					k = "xor"
				}
				lx, ly := l.feeds(p, x.X, map[ssa.Value]bool{}), l.feeds(p, x.Y, map[ssa.Value]bool{})
				if k != "" && lx != ly && !(ly && x.Op == token.SUB) {
					ops[x] = true
					w.nodes[x] = true
					okAll = setKind(k) && okAll
					if lx {
						grow(x.X)
					} else {
						grow(x.Y)
					}
					return
				}
			}
		case *ssa.Slice:
			// list[:0] starts afresh
		}
		leaves = append(leaves, v)
	}
	for i, pred := range l.head.Preds {
		if l.in[pred] {
			grow(p.Edges[i])
		}
	}
	if !okAll {
		fail(token.NoPos, "it is changed in several ways")
		return
	}
	for _, v := range leaves {
		if c, ok := v.(*ssa.Const); ok {
			var cv constant.Value = constant.MakeString("nil")
			if c.Value != nil {
				cv = c.Value
			}
			if w.cnst != nil && constant.Compare(w.cnst, token.EQL, cv) != true {
				fail(token.NoPos, "it is set to different values")
				return
			}
			w.cnst = cv
			if w.kind != "" {
				fail(token.NoPos, "it is reset")
				return
			}
			continue
		}
		if l.minMax(p, w, v) {
			continue
		}
		if l.shortCircuit(p, w, v) {
			continue
		}
		if l.feeds(p, v, map[ssa.Value]bool{}) {
			fail(v.Pos(), "it is computed from its previous value")
		} else if l.invariant(v) {
			if w.cnst != nil || w.kind != "" {
				fail(v.Pos(), "it is set to different values")
			}
			continue
		} else {
			fail(v.Pos(), "the value from one of the elements remains")
		}
		return
	}
	// uses inside the loop
	for v := range w.nodes {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if !l.in[u.Block()] || l.webUse(p, w, v, u) {
				continue
			}
			fail(u.Pos(), "its intermediate value is used")
			return
		}
	}
}

// counterOf: the position in the list the loop runs over.
func counterOf(p *ssa.Phi, l *uloop) bool {
	if _, ok := l.over.Type().Underlying().(*types.Map); ok {
		return false
	}
	if counterHead(p) != p.Block() {
		return false
	}
	// used only to index the list and to end the loop
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr:
				if u.X != l.over || u.Index != v {
					return false
				}
			case *ssa.Index:
				if u.X != l.over || u.Index != v {
					return false
				}
			case *ssa.Phi:
				if u != p {
					return false
				}
			case *ssa.BinOp:
				if u.Op == token.ADD {
					if !ok(u) {
						return false
					}
				} else if u.Op != token.LSS {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return ok(p)
}

// feeds: v is computed from the accumulator p inside the loop by copying,
// appending and arithmetic.
func (l *uloop) feeds(p *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(p) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !l.in[in.Block()] {
		return false
	}
	seen[v] = true
	for _, op := range in.Operands(nil) {
		if *op != nil && l.feeds(p, *op, seen) {
			return true
		}
	}
	return false
}

// invariant: the same in every iteration.
func (l *uloop) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.in[in.Block()] {
		return true
	}
	// a variable that the loop leaves alone
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && l.untouched(x.X)
	case *ssa.Field:
		return l.invariant(x.X)
	case *ssa.MakeInterface:
		return l.invariant(x.X)
	case *ssa.ChangeType:
		return l.invariant(x.X)
	}
	return false
}

// untouched: the address of a local variable that is not assigned in the loop.
func (l *uloop) untouched(addr ssa.Value) bool {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return l.untouched(fa.X)
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok || l.in[al.Block()] {
		return false
	}
	var ok2 func(v ssa.Value) bool
	ok2 = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != v || l.in[u.Block()] {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok2(u) {
					return false
				}
			default:
				if l.in[u.Block()] || reachesIn(u.Block(), l.head, nil, nil) {
					return false
				}
			}
		}
		return true
	}
	return ok2(al)
}

func (l *uloop) webUse(p *ssa.Phi, w *web, v ssa.Value, u ssa.Instruction) bool {
	if x, ok := u.(ssa.Value); ok && w.nodes[x] {
		return true
	}
	switch u := u.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		if w.kind == "min" || w.kind == "max" || w.kind == "minmax" {
			return u.Op == token.LSS || u.Op == token.GTR || u.Op == token.LEQ || u.Op == token.GEQ
		}
	case *ssa.If:
		return w.kind == "bool"
	case *ssa.IndexAddr:
		// list[i] = x; i++
		if w.kind == "sum" && u.Index == v {
			if _, ok := u.X.(*ssa.MakeSlice); ok && !l.in[u.X.(ssa.Instruction).Block()] && onlyStored(u) {
				return true
			}
		}
	}
	return false
}

func onlyStored(a *ssa.IndexAddr) bool {
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); !ok || s.Addr != ssa.Value(a) {
			return false
		}
	}
	return true
}

// minMax: v replaces the accumulator only when it is smaller, or larger.
func (l *uloop) minMax(p *ssa.Phi, w *web, v ssa.Value) bool {
	if w.kind != "" && w.kind != "minmax" {
		return false
	}
	if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
		return false
	}
	// every edge carrying v into the web comes from the successful comparison
	found := false
	for n := range w.nodes {
		ph, ok := n.(*ssa.Phi)
		if !ok {
			return false
		}
		for i, x := range ph.Edges {
			if x != v || !l.in[ph.Block().Preds[i]] {
				continue
			}
			b := ph.Block().Preds[i]
			good := false
			for d := b; d != nil && l.in[d]; d = d.Idom() {
				if len(d.Preds) != 1 {
					continue
				}
				pr := d.Preds[0]
				iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
				if !ok || pr.Succs[0] != d {
					continue
				}
				if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.GTR) && (ident(c.X) == ident(v) && w.nodes[c.Y] || ident(c.Y) == ident(v) && w.nodes[c.X]) {
					dir := "<"
					if (c.Op == token.GTR) == (ident(c.X) == ident(v)) {
						dir = ">"
					}
					good = w.cnst == nil || constant.StringVal(w.cnst) == dir
					w.cnst = constant.MakeString(dir)
				}
			}
			if !good {
				return false
			}
			found = true
		}
	}
	if found {
		w.kind = "minmax"
	}
	return found
}

// shortCircuit: x = x || v, x = x && v.
func (l *uloop) shortCircuit(p *ssa.Phi, w *web, v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsBoolean == 0 || w.kind != "" && w.kind != "bool" {
		return false
	}
	for n := range w.nodes {
		ph, ok := n.(*ssa.Phi)
		if !ok {
			return false
		}
		for i, x := range ph.Edges {
			if x != v {
				continue
			}
			// the other edges hold the constant that ends the evaluation
			for j, y := range ph.Edges {
				pr := ph.Block().Preds[j]
				if j == i || ph == p && !l.in[pr] {
					continue // the value before the loop is no part of the step
				}
				c, ok := y.(*ssa.Const)
				if !ok || c.Value == nil {
					return false
				}
				iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
				if !ok || !w.nodes[iff.Cond] {
					return false
				}
				// the side on which v is evaluated has no effects
				side := pr.Succs[0]
				if side == ph.Block() {
					side = pr.Succs[1]
				}
				for _, x := range l.f.Blocks {
					if !side.Dominates(x) || !l.in[x] || x == ph.Block() {
						continue
					}
					for _, in := range x.Instrs {
						switch in.(type) {
						case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
							return false
						}
					}
				}
				cv := c.Value
				if w.cnst != nil && !constant.Compare(w.cnst, token.EQL, cv) {
					return false
				}
				w.cnst = cv
			}
		}
	}
	w.kind = "bool"
	return true
}

// commutes: a library operation on a persistent collection whose repeated
// application gives the same result in any order.
func (o *ordering) commutes(l *uloop, x *ssa.Call) string {
	g := x.Call.StaticCallee()
	if g == nil {
		return ""
	}
	name := frozenOp(g)
	switch name {
	case "Set.With", "Set.Union":
		return "union"
	case "Set.Without", "Set.Difference":
		return "difference"
	case "Set.Intersection", "Set.Intersect":
		return "intersection"
	case "Map.Without":
		return "without"
	case "Map.With":
		if len(x.Call.Args) == 3 && (l.exact(x.Call.Args[1]) || l.invariant(x.Call.Args[2])) {
			return "with"
		}
	case "Map.Merge":
		if len(x.Call.Args) == 3 {
			if f := o.fnValue(x.Call.Args[2]); f != nil && symmetric(f) {
				return "merge"
			}
		}
	}
	return ""
}

// frozenOp names an operation of the frozen package.
func frozenOp(g *ssa.Function) string {
	if x := g.Origin(); x != nil {
		g = x
	}
	name := g.RelString(nil)
	i := strings.Index(name, "github.com/arr-ai/frozen.")
	if i < 0 {
		return ""
	}
	name = name[i+len("github.com/arr-ai/frozen."):]
	if i := strings.Index(name, "["); i >= 0 {
		j := strings.Index(name, "]")
		name = name[:i] + name[j+1:]
	}
	return strings.Replace(name, ").", ".", 1)
}

// symmetric: the function combines its last two parameters by an operation in
// which they may be exchanged.
func symmetric(f *ssa.Function) bool {
	n := len(f.Params)
	if n < 2 || len(f.Blocks) != 1 {
		return false
	}
	b := f.Blocks[0]
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	x, ok := r.Results[0].(*ssa.BinOp)
	if !ok {
		return false
	}
	if t, ok := x.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	switch x.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
	default:
		return false
	}
	p, q := f.Params[n-2], f.Params[n-1]
	return x.X == ssa.Value(p) && x.Y == ssa.Value(q) || x.X == ssa.Value(q) && x.Y == ssa.Value(p)
}

// exact: equal for two elements only if they are the same element.
func (l *uloop) exact(v ssa.Value) bool {
	return l.exactIn(v, func(v ssa.Value) bool { return l.elem[v] && l.isKey(v) }, 0)
}

func (l *uloop) isKey(v ssa.Value) bool {
	if x, ok := v.(*ssa.Extract); ok {
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return x.Index == 1
		}
	}
	return true // an element of an unordered list
}

func (l *uloop) exactIn(v ssa.Value, base func(ssa.Value) bool, depth int) bool {
	if depth > 8 {
		return false
	}
	v = ident(v)
	if base(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch {
		case g.RelString(nil) == "fmt.Sprintf" || g.RelString(nil) == "fmt.Sprint":
			for _, a := range variadic(x.Call.Args[len(x.Call.Args)-1]) {
				if l.exactIn(a, base, depth+1) {
					return true
				}
			}
		case g.Name() == "String" && len(x.Call.Args) == 1:
			if b, ok := x.Call.Args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return l.exactIn(x.Call.Args[0], base, depth+1)
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return l.exactIn(x.X, base, depth+1) || l.exactIn(x.Y, base, depth+1)
			}
		}
	case *ssa.Phi:
		if l != nil && x.Block() == l.head && x.Parent() == l.f {
			return false
		}
		for _, y := range x.Edges {
			if y != ssa.Value(x) && !l.exactIn(y, func(v ssa.Value) bool { return v == ssa.Value(x) || base(v) }, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// variadic lists the arguments of a variadic call.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if s, ok := w.(*ssa.Store); ok {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// scope is the function in which an effect of the loop's body is looked at.
type oscope struct {
	l     *uloop
	f     *ssa.Function
	s     *fnEff
	top   bool
	from  *oscope
	outer func(i int) bool       // the location existed before the iteration
	up    func(i int) locSet     // the location as the loop's function sees it
	exact func(ssa.Value) bool   // values that identify the element
	fixed func(ssa.Value) bool   // values that are the same in every iteration
	own   func(v ssa.Value) bool // found in the element
}

func (l *uloop) topScope() *oscope {
	return &oscope{l: l, f: l.f, s: l.s, top: true,
		outer: func(i int) bool { return l.outerLoc(l.s.locs[i]) },
		up:    oneLoc,
		exact: l.exact, fixed: l.invariant, own: l.throughElem}
}

// outerLoc: not an object made in this iteration.
func (l *uloop) outerLoc(x loc) bool {
	if x.kind != 'F' || x.idx == -1 {
		return true
	}
	for in, i := range l.s.site {
		if i == x.idx {
			return !l.in[in.Block()]
		}
	}
	return true
}

// hits: the value may refer to memory that outlives the iteration.
func (sc *oscope) hits(v ssa.Value) bool {
	if sc.top && !sc.l.direct(v, map[ssa.Value]bool{}) {
		if !sc.s.of(v).empty() {
			return true
		}
	}
	hit := false
	sc.s.of(v).each(func(i int) { hit = hit || sc.outer(i) })
	return hit
}

// direct: the object was made in this iteration, rather than found in memory.
func (l *uloop) direct(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.in[in.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return true
	case *ssa.FieldAddr:
		return l.direct(x.X, seen)
	case *ssa.IndexAddr:
		return l.direct(x.X, seen)
	case *ssa.Field:
		return l.direct(x.X, seen)
	case *ssa.Slice:
		return l.direct(x.X, seen)
	case *ssa.ChangeType:
		return l.direct(x.X, seen)
	case *ssa.MakeInterface:
		return l.direct(x.X, seen) || !hasPtr(x.X.Type())
	case *ssa.ChangeInterface:
		return l.direct(x.X, seen)
	case *ssa.TypeAssert:
		return l.direct(x.X, seen)
	case *ssa.Convert:
		return !hasPtr(x.X.Type()) || l.direct(x.X, seen)
	case *ssa.UnOp:
		return x.Op != token.MUL || l.direct(x.X, seen)
	case *ssa.Phi:
		if x.Block() == l.head {
			return false
		}
		for _, y := range x.Edges {
			if !l.direct(y, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return false
		}
		return l.direct(x.Tuple, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() != "append" || l.direct(x.Call.Args[0], seen)
		}
		args := append([]ssa.Value(nil), x.Call.Args...)
		if x.Call.IsInvoke() {
			args = append([]ssa.Value{x.Call.Value}, args...)
		}
		gs := l.o.e.targets(l.f, &x.Call)
		if len(gs) == 0 {
			for _, a := range args {
				if hasPtr(a.Type()) && !l.direct(a, seen) && !ownData(x.Type()) {
					return false
				}
			}
			return true
		}
		for _, g := range gs {
			gs := l.o.e.fns[g]
			if gs == nil {
				return false
			}
			ok := true
			for _, t := range gs.ret {
				t.each(func(i int) {
					y := gs.locs[i]
					switch y.kind {
					case 'F':
					case 'P', 'C', 'D':
						ok = ok && y.idx < len(args) && l.direct(args[y.idx], seen)
					default:
						ok = false
					}
				})
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

func (l *uloop) instr(in ssa.Instruction) {
	sc := l.topScope()
	sc.instr(in)
	if r, ok := in.(*ssa.Range); ok && r.X == l.over {
		return
	}
	sc.read(in)
}

func (sc *oscope) bad(in ssa.Instruction, format string, args ...any) {
	where := ""
	if debugOrder {
		for x := sc; x != nil; x = x.from {
			fmt.Print(relName(x.f), " < ")
		}
		fmt.Println()
	}
	if !sc.top {
		where = " (in " + relName(sc.f) + ")"
	}
	pos := in.Pos()
	if pos == token.NoPos {
		pos = sc.l.pos
	}
	sc.l.bad(pos, format+where, args...)
}

func (sc *oscope) instr(in ssa.Instruction) {
	l := sc.l
	switch in := in.(type) {
	case *ssa.Store:
		if !sc.hits(in.Addr) || sc.fieldOfOwn(in.Addr) {
			return
		}
		sc.mark(in.Addr)
		if sc.cell(in) {
			return
		}
		if sc.own(in.Addr) {
			if sc.top && l.carried(in.Val) {
				sc.bad(in, "what is stored depends on the order")
			}
			return
		}
		if sc.indexed(in) {
			return
		}
		if c, ok := in.Val.(*ssa.Const); ok {
			key := in.Addr.Type().String()
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
				key = fa.X.Type().String() + fmt.Sprint(fa.Field)
			}
			if old, ok := l.stores[key].(*ssa.Const); ok && old.String() != c.String() {
				sc.bad(in, "different values are stored in one place")
			}
			l.stores[key] = c
			return
		}
		if sc.fixed(in.Val) || sc.lazy(in) {
			return
		}
		sc.bad(in, "what is stored in one place by several elements depends on the order")
	case *ssa.MapUpdate:
		if !sc.hits(in.Map) {
			return
		}
		sc.mark(in.Map)
		sc.mapUpdate(in)
	case *ssa.Send:
		if sc.hits(in.Chan) {
			sc.bad(in, "values are sent in that order")
		}
	case *ssa.Go, *ssa.Defer:
		sc.bad(in, "a call is postponed to run in that order")
	case ssa.CallInstruction:
		sc.call(in)
	}
}

// fieldOfOwn: a variable of this call, not the object it refers to.
func (sc *oscope) fieldOfOwn(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return sc.fieldOfOwn(a.X)
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			return sc.fieldOfOwn(a.X)
		}
	case *ssa.Alloc:
		return !sc.top || sc.l.in[a.Block()]
	}
	return false
}

// cell: x = append(x, ...) where x is a variable in memory.
func (sc *oscope) cell(in *ssa.Store) bool {
	l := sc.l
	base, field := cellAddr(in.Addr)
	if base == nil || !sc.fixed(base) {
		return false
	}
	old := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		b, f := cellAddr(u.X)
		return b == base && f == field
	}
	for _, b := range sc.f.Blocks {
		if sc.top && !l.in[b] {
			continue
		}
		for _, x := range b.Instrs {
			// other uses of the variable inside the loop
			u, ok := x.(*ssa.UnOp)
			if !ok || !old(u) {
				continue
			}
			for _, r := range *u.Referrers() {
				if c, ok := r.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Call.Args[0] == ssa.Value(u) {
						continue
					}
					if l.o.commutes(l, c) != "" && c.Call.Args[0] == ssa.Value(u) {
						continue
					}
				}
				if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.OR || b.Op == token.AND) {
					continue
				}
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				return false
			}
		}
	}
	switch v := in.Val.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && old(v.Call.Args[0]) && !old(v.Call.Args[1]) {
				if !sc.top {
					return false
				}
				l.acc = append(l.acc, cellAcc{base, field})
				return true
			}
			return false
		}
		return l.o.commutes(l, v) != "" && old(v.Call.Args[0])
	case *ssa.BinOp:
		t, ok := v.Type().Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsInteger == 0 {
			return false
		}
		switch v.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			return old(v.X) != old(v.Y)
		case token.SUB:
			return old(v.X) && !old(v.Y)
		}
	}
	return false
}

// lazy: if x == nil { x = ... }, the same whoever comes first.
func (sc *oscope) lazy(in *ssa.Store) bool {
	for d := in.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !zeroConst(b.Y) || b.Op != token.EQL || p.Succs[0] != d {
			continue
		}
		u, ok := b.X.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || !sameRef(u.X, in.Addr) {
			continue
		}
		return sc.fromKey(in.Val, ssa.NewConst(nil, in.Val.Type()), map[ssa.Value]bool{})
	}
	return false
}

// cellAddr names a variable, or a field of one.
func cellAddr(v ssa.Value) (ssa.Value, int) {
	switch a := v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return v, -1
	case *ssa.Parameter:
		return v, -1
	case *ssa.FieldAddr:
		b, f := cellAddr(a.X)
		if b != nil {
			return b, (f+1)*64 + a.Field
		}
	}
	return nil, 0
}

// throughElem: the address was found in the element.
func (l *uloop) throughElem(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && l.throughElem(x.X)
	case *ssa.IndexAddr:
		return l.throughElem(x.X)
	case *ssa.FieldAddr:
		return l.throughElem(x.X)
	case *ssa.TypeAssert:
		return l.throughElem(x.X)
	case *ssa.Field:
		return l.throughElem(x.X)
	case *ssa.ChangeType:
		return l.throughElem(x.X)
	case *ssa.ChangeInterface:
		return l.throughElem(x.X)
	case *ssa.MakeInterface:
		return l.throughElem(x.X)
	case *ssa.Phi:
		// the element, or something found from it
		if x.Block() != l.head && l.in[x.Block()] && hasPtr(x.Type()) {
			for _, y := range x.Edges {
				if y != v && !l.elem[y] {
					return false
				}
			}
			return true
		}
	case *ssa.Extract:
		if l.elem[v] {
			return true
		}
		return l.throughElem(x.Tuple)
	}
	return l.elem[v]
}

// inherited: a fixed entry is copied from another map.
func inherited(in *ssa.MapUpdate) bool {
	if _, ok := in.Key.(*ssa.Const); !ok {
		return false
	}
	v := in.Value
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	x, ok := v.(*ssa.Lookup)
	return ok && sameRef(x.Index, in.Key)
}

// carried: the value is computed from an accumulator.
func (l *uloop) carried(v ssa.Value) bool {
	for p := range l.webs {
		if l.feeds(p, v, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// indexed: list[i] = x where i counts the elements.
func (sc *oscope) indexed(in *ssa.Store) bool {
	if !sc.top {
		return false
	}
	ia, ok := in.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	for _, w := range sc.l.webs {
		if w.kind == "sum" && w.nodes[ia.Index] {
			if _, ok := ia.X.(*ssa.MakeSlice); ok {
				return true
			}
		}
	}
	return false
}

func mapKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (sc *oscope) mapUpdate(in *ssa.MapUpdate) {
	l := sc.l
	t := mapKey(in.Map.Type())
	// m[k] = append(m[k], x)
	if c, ok := in.Value.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && lookupOf(c.Call.Args[0], in) && lookupOf(c.Call.Args[1], in) == false {
			l.writes[t] += "a"
			why := "a list in a map filled by an iteration over a map"
			if l.o.accMap[t] == "" {
				l.o.accMap[t] = why
				l.o.change = true
			}
			return
		}
	}
	if sc.own(in.Map) || inherited(in) && sc.missing(in) {
		if sc.top && l.carried(in.Value) {
			sc.bad(in, "what is entered in a map depends on the order")
		}
		return
	}
	if sc.memo(in) {
		if k, ok := in.Key.(*ssa.Const); ok {
			t += "#" + k.String()
		}
		l.writes[t] += "m"
		return
	}
	if b, ok := in.Value.(*ssa.BinOp); ok {
		if bt, ok := b.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && (b.Op == token.ADD || b.Op == token.OR || b.Op == token.AND || b.Op == token.MUL) {
			if lookupOf(b.X, in) != lookupOf(b.Y, in) {
				l.writes[t] += "s"
				return
			}
		}
	}
	if sc.exact(in.Key) {
		if sc.top && l.carried(in.Value) {
			sc.bad(in, "what is entered in a map depends on the order")
		}
		l.writes[t] += "k"
		if sc.top && l.chase(in) {
			l.writes[t] += "c"
		}
		if sc.top && ident(in.Map) == ident(l.over) && ident(in.Key) != l.key() {
			// entries added while iterating may or may not be visited
			if !l.unaffected(in) {
				sc.bad(in, "entries are added to the map being iterated over")
			}
		}
		return
	}
	if c, ok := in.Value.(*ssa.Const); ok {
		key := t + " entry"
		if old, ok := l.stores[key].(*ssa.Const); ok && old.String() != c.String() {
			sc.bad(in, "different values are entered in a map for what may be one key")
		}
		l.stores[key] = c
		l.writes[t] += "s"
		return
	}
	if sc.fixed(in.Value) && in.Value.Parent() != nil {
		l.writes[t] += "s"
		return
	}
	sc.bad(in, "of several elements entered in a map for the same key the last one remains")
}

func (l *uloop) key() ssa.Value {
	for v := range l.elem {
		if x, ok := v.(*ssa.Extract); ok && x.Index == 1 {
			if _, ok := x.Tuple.(*ssa.Next); ok {
				return v
			}
		}
	}
	return nil
}

// lookupOf: v is m[k] of an update m[k] = ...
func lookupOf(v ssa.Value, in *ssa.MapUpdate) bool {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	x, ok := v.(*ssa.Lookup)
	return ok && sameRef(x.X, in.Map) && sameRef(x.Index, in.Key)
}

// sameRef: two reads of one variable.
func sameRef(a, b ssa.Value) bool {
	a, b = ident(a), ident(b)
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameRef(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameRef(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameRef(x.X, y.X)
	}
	return false
}

// memo: the entry is made only when there is none, and the same whoever comes
// first.
func (sc *oscope) memo(in *ssa.MapUpdate) bool {
	return sc.missing(in) && sc.memoValue(in)
}

// missing: the entry is made only when there is none.
func (sc *oscope) missing(in *ssa.MapUpdate) bool {
	for d := in.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		miss := 1
		cond := iff.Cond
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			cond, miss = n.X, 0
		}
		if b, ok := cond.(*ssa.BinOp); ok && zeroConst(b.Y) {
			// m[k] == nil
			cond = b.X
			miss = 0
			if b.Op == token.NEQ {
				miss = 1
			}
			if x, ok := cond.(*ssa.Lookup); ok && !x.CommaOk && lookupOf(x, in) && p.Succs[miss] == d {
				return true
			}
			continue
		}
		if x, ok := cond.(*ssa.Extract); ok && x.Index == 1 && p.Succs[miss] == d && lookupOf(x, in) {
			return true
		}
	}
	return false
}

// memoValue: what is entered does not depend on who asked first: it is
// computed from the key and from what is the same for all elements.
func (sc *oscope) memoValue(in *ssa.MapUpdate) bool {
	return sc.fromKey(in.Value, in.Key, map[ssa.Value]bool{})
}

func (sc *oscope) fromKey(v, key ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || sameRef(v, key) {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		return sc.fixed(v)
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		// what it is initialized with
		var stored func(a ssa.Value) bool
		stored = func(a ssa.Value) bool {
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == a && !sc.fromKey(u.Val, key, seen) {
						return false
					}
				case *ssa.FieldAddr:
					if !stored(u) {
						return false
					}
				case *ssa.IndexAddr:
					if !stored(u) {
						return false
					}
				}
			}
			return true
		}
		return stored(x)
	case ssa.Instruction:
		if sc.top && !sc.l.in[x.Block()] {
			return true
		}
		if sc.top && sc.l.elem[v] {
			return false
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && !sc.fromKey(*op, key, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// chase: what is entered is found by following entries of the map to the end.
func (l *uloop) chase(in *ssa.MapUpdate) bool {
	p, ok := in.Value.(*ssa.Phi)
	if !ok || p.Block() == l.head || !l.in[p.Block()] {
		return false
	}
	inner := natural(p.Block())
	if inner == nil {
		return false
	}
	follow := false
	for i, pred := range p.Block().Preds {
		v := p.Edges[i]
		if !inner[pred] {
			// starts at the element's own entry
			if !l.elem[v] && !lookupOf(v, in) {
				return false
			}
			continue
		}
		if v == ssa.Value(p) {
			continue
		}
		if x, ok := v.(*ssa.Extract); ok && x.Index == 0 {
			v = x.Tuple
		}
		if x, ok := v.(*ssa.Lookup); !ok || !sameRef(x.X, in.Map) {
			return false
		}
		follow = true
	}
	if !follow {
		return false
	}
	// ends only where there is nothing to follow, or at a cycle
	for _, b := range l.f.Blocks {
		if !inner[b] {
			continue
		}
		for si, s := range b.Succs {
			if inner[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			x, ok := iff.Cond.(*ssa.Extract)
			if !ok || si != 1 {
				return false
			}
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				if t.X != ssa.Value(p) {
					return false
				}
			case *ssa.Lookup:
				if !sameRef(t.X, in.Map) {
					return false
				}
			case *ssa.Next:
				r, ok := t.Iter.(*ssa.Range)
				if !ok || !sameRef(r.X, in.Map) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// unaffected: an iteration that comes across what is entered does nothing,
// because it is not of the type that the body is about.
func (l *uloop) unaffected(in *ssa.MapUpdate) bool {
	for d := in.Block(); d != nil && l.in[d]; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d {
			continue
		}
		x, ok := iff.Cond.(*ssa.Extract)
		if !ok || x.Index != 1 {
			continue
		}
		ta, ok := x.Tuple.(*ssa.TypeAssert)
		if !ok || !l.elem[ta.X] {
			continue
		}
		// all effects of the body are behind the test
		for _, b := range l.f.Blocks {
			if !l.in[b] || d.Dominates(b) {
				continue
			}
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					return false
				}
			}
		}
		if l.o.never(in.Value, ta.AssertedType, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// never: the value is not of the concrete type.
func (o *ordering) never(v ssa.Value, t types.Type, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return !types.Identical(x.X.Type(), t)
	case *ssa.ChangeInterface:
		return o.never(x.X, t, seen)
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !o.never(y, t, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		gs := o.e.targets(x.Parent(), &x.Call)
		if len(gs) == 0 {
			return false
		}
		for _, g := range gs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 && !o.never(r.Results[0], t, seen) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func (sc *oscope) call(in ssa.CallInstruction) {
	l, o := sc.l, sc.l.o
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// a new list, or room nobody else sees yet, if it is the
			// accumulator that is extended
			return
		case "copy":
			if sc.hits(c.Args[0]) {
				sc.bad(in, "elements are copied into a list")
			}
		case "delete":
			if sc.hits(c.Args[0]) {
				sc.mark(c.Args[0])
				l.writes[mapKey(c.Args[0].Type())] += "k"
				if !sc.exact(c.Args[1]) {
					l.writes[mapKey(c.Args[0].Type())] += "d"
				}
			}
		case "clear":
			if sc.hits(c.Args[0]) {
				sc.bad(in, "a collection is cleared")
			}
		}
		return
	}
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	gs := o.e.targets(sc.f, c)
	if clientCallback(c) {
		return
	}
	if len(gs) == 0 {
		sc.external(in, c, args)
		return
	}
	for _, g := range gs {
		s := o.e.fns[g]
		if s == nil {
			continue
		}
		var free []ssa.Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			free = mc.Bindings
		}
		var argLocs, freeLocs []locSet
		for _, a := range args {
			argLocs = append(argLocs, sc.s.of(a))
		}
		for _, a := range free {
			freeLocs = append(freeLocs, sc.s.of(a))
		}
		if free == nil && len(g.FreeVars) > 0 {
			cells := sc.s.load(sc.s.of(c.Value))
			for _, v := range g.FreeVars {
				freeLocs = append(freeLocs, sc.s.narrow(cells, v.Type()))
			}
		}
		m := sc.s.bind(in, argLocs, freeLocs)
		// an argument found in memory may be another iteration's
		found := make([]bool, len(g.Params))
		for i := range g.Params {
			if sc.top && i < len(args) && hasPtr(args[i].Type()) && !l.direct(args[i], map[ssa.Value]bool{}) {
				found[i] = true
			}
		}
		memo := map[int]bool{}
		ups := map[int]locSet{}
		mine := func(i int) (hit bool) {
			if r, ok := memo[i]; ok {
				return r
			}
			defer func() { memo[i] = hit }()
			x := s.locs[i]
			if x.kind == 'F' {
				return false
			}
			if (x.kind == 'P' || x.kind == 'C' || x.kind == 'D') && x.idx < len(found) && found[x.idx] {
				return true
			}
			m(x).each(func(j int) { hit = hit || sc.outer(j) })
			return hit
		}
		owned := make([]bool, len(g.Params))
		for i := range g.Params {
			owned[i] = i < len(args) && hasPtr(args[i].Type()) && sc.own(args[i])
		}
		exact := make([]bool, len(g.Params))
		fixed := make([]bool, len(g.Params))
		sig := ""
		for i := range g.Params {
			if i >= len(args) {
				break
			}
			exact[i] = sc.exact(args[i])
			fixed[i] = sc.fixed(args[i])
			sig += fmt.Sprint(bit(exact[i]), bit(fixed[i]), ";")
		}
		for i, x := range s.locs {
			if x.kind != 'F' && mine(i) {
				sig += fmt.Sprint(string(x.kind), x.idx, ".", x.key, ";")
			}
		}
		for i := range owned {
			sig += fmt.Sprint(bit(owned[i]), ";")
		}
		key := g.RelString(nil) + sig
		if l.seen[key] {
			continue
		}
		l.seen[key] = true
		args := args
		sub := &oscope{l: l, f: g, s: s, from: sc,
			outer: mine,
			up: func(i int) locSet {
				if r, ok := ups[i]; ok {
					return r
				}
				var r locSet
				if s.locs[i].kind != 'F' {
					m(s.locs[i]).each(func(j int) { r.add(sc.up(j)) })
				}
				ups[i] = r
				return r
			},
			fixed: func(v ssa.Value) bool {
				switch x := v.(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function:
					return true
				case *ssa.Parameter:
					for i, p := range g.Params {
						if p == x {
							return i < len(args) && fixed[i]
						}
					}
				case *ssa.FreeVar:
					for i, p := range g.FreeVars {
						if p == x {
							return i < len(free) && sc.fixed(free[i])
						}
					}
				}
				return false
			},
		}
		var own func(v ssa.Value) bool
		own = func(v ssa.Value) bool {
			switch x := v.(type) {
			case *ssa.Parameter:
				for i, p := range g.Params {
					if p == x {
						return owned[i]
					}
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				if al, ok := varOf(x.X); ok {
					// all that is assigned to it
					var all func(a ssa.Value) bool
					all = func(a ssa.Value) bool {
						for _, u := range *a.Referrers() {
							switch u := u.(type) {
							case *ssa.Store:
								if u.Addr == a && hasPtr(u.Val.Type()) && !own(u.Val) && sub.hits(u.Val) {
									return false
								}
							case *ssa.FieldAddr:
								if !all(u) {
									return false
								}
							}
						}
						return true
					}
					return all(al)
				}
				return own(x.X)
			case *ssa.FieldAddr:
				return own(x.X)
			case *ssa.Field:
				return own(x.X)
			case *ssa.IndexAddr:
				return own(x.X)
			case *ssa.TypeAssert:
				return own(x.X)
			case *ssa.MakeInterface:
				return own(x.X)
			case *ssa.ChangeType:
				return own(x.X)
			case *ssa.ChangeInterface:
				return own(x.X)
			case *ssa.Extract:
				switch t := x.Tuple.(type) {
				case *ssa.Next:
					if r, ok := t.Iter.(*ssa.Range); ok {
						return own(r.X)
					}
				case *ssa.TypeAssert:
					return own(t.X)
				}
			}
			return false
		}
		sub.own = own
		params := sub.fixed
		var deep func(v ssa.Value) bool
		deep = func(v ssa.Value) bool {
			switch x := v.(type) {
			case *ssa.UnOp:
				// a parameter kept in memory
				al, ok := varOf(x.X)
				if !ok || x.Op != token.MUL {
					return false
				}
				n := 0
				for _, u := range *al.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr != ssa.Value(al) || !deep(u.Val) {
							return false
						}
						n++
					case *ssa.FieldAddr:
						for _, w := range *u.Referrers() {
							if ld, ok := w.(*ssa.UnOp); !ok || ld.Op != token.MUL {
								return false
							}
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
				return n == 1
			case *ssa.Field:
				return deep(x.X)
			case *ssa.ChangeType:
				return deep(x.X)
			case *ssa.MakeInterface:
				return deep(x.X)
			}
			return params(v)
		}
		sub.fixed = deep
		sub.exact = func(v ssa.Value) bool {
			return l.exactIn(v, func(v ssa.Value) bool {
				for i, p := range g.Params {
					if ssa.Value(p) == v {
						return exact[i]
					}
				}
				return false
			}, 0)
		}
		for _, b := range g.Blocks {
			if !s.live[b] {
				continue
			}
			for _, x := range b.Instrs {
				sub.instr(x)
				sub.read(x)
			}
		}
	}
}

// varOf returns the local variable that an address belongs to.
func varOf(a ssa.Value) (*ssa.Alloc, bool) {
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			break
		}
		a = fa.X
	}
	al, ok := a.(*ssa.Alloc)
	return al, ok
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (sc *oscope) external(in ssa.CallInstruction, c *ssa.CallCommon, args []ssa.Value) {
	l := sc.l
	name, fname := "", ""
	if f := c.StaticCallee(); f != nil {
		name, fname = f.RelString(nil), f.Name()
		if o := f.Origin(); o != nil {
			name = o.RelString(nil)
		}
		if frozenOp(f) == "*MapBuilder.Put" || frozenOp(f) == "(*MapBuilder.Put" {
			name = "frozen.MapBuilder.Put"
		}
	} else if c.IsInvoke() {
		name, fname = c.Method.FullName(), c.Method.Name()
	}
	i := mutates(name, fname, c)
	if i < 0 || i >= len(args) || !sc.hits(args[i]) {
		if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "log.") {
			sc.bad(in, "output is written in that order")
		}
		return
	}
	sc.mark(args[i])
	if strings.Contains(name, "MapBuilder") && fname == "Put" && len(args) == 3 {
		if !sc.exact(args[1]) && !sc.fixed(args[2]) {
			sc.bad(in, "of several elements entered in a map for the same key the last one remains")
		}
		return
	}
	if strings.Contains(name, "SetBuilder") && (fname == "Add" || fname == "Remove") {
		return
	}
	if strings.HasPrefix(name, "(*sync.") {
		return
	}
	if c.StaticCallee() != nil && l.o.isSort(c) {
		return
	}
	sc.bad(in, "call of %s for each element", name)
}

// read notes reads of maps that the iterations change.
func (sc *oscope) read(in ssa.Instruction) {
	var m, k ssa.Value
	switch x := in.(type) {
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		m, k = x.X, x.Index
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		m = x.X
	default:
		return
	}
	if !sc.hits(m) {
		return
	}
	sc.l.reads = append(sc.l.reads, pendingRead{sc, in, m, k})
}

// locsOf: the objects a value may refer to, as the loop's function sees them.
func (sc *oscope) locsOf(v ssa.Value) locSet {
	var r locSet
	sc.s.of(v).each(func(i int) { r.add(sc.up(i)) })
	return r
}

// mark notes an effect on memory that outlives the iteration, or the call.
func (sc *oscope) mark(v ssa.Value) {
	sc.l.effect = true
	if _, ok := v.Type().Underlying().(*types.Map); ok {
		t := mapKey(v.Type())
		w := sc.l.wlocs[t]
		w.add(sc.locsOf(v))
		sc.l.wlocs[t] = w
	}
	if !sc.top {
		sc.l.out = true // decided no closer
		return
	}
	sc.s.of(v).each(func(i int) {
		if l := sc.s.locs[i]; l.kind != 'F' || l.idx == -1 {
			sc.l.out = true
		}
	})
}

// checkReads: no iteration sees what another has changed.
func (l *uloop) checkReads() {
	for _, r := range l.reads {
		t := mapKey(r.m.Type())
		how := l.writes[t]
		if k, ok := r.k.(*ssa.Const); ok {
			how += l.writes[t+"#"+k.String()]
		}
		if how == "" {
			continue
		}
		shared := false
		w := l.wlocs[t]
		r.sc.locsOf(r.m).each(func(i int) { shared = shared || w.has(i) })
		if !shared {
			continue
		}
		if r.k != nil && r.sc.exact(r.k) && !strings.Contains(how, "d") {
			continue
		}
		if ownEntry(r.sc.f, r.m, r.k) {
			continue
		}
		if strings.Contains(how, "c") && r.sc.top {
			continue
		}
		if strings.Trim(how, "m") == "" && memoizes(r.sc, t) {
			continue
		}
		r.sc.bad(r.in, "an iteration reads entries of a %s that others change", t)
	}
}

// ownEntry: the entry is read to be changed.
func ownEntry(f *ssa.Function, m, k ssa.Value) bool {
	if k == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && sameRef(u.Map, m) && sameRef(u.Key, k) {
				return true
			}
		}
	}
	return false
}

func memoizes(sc *oscope, t string) bool {
	for _, b := range sc.f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && mapKey(u.Map.Type()) == t && sc.memo(u) {
				return true
			}
		}
	}
	return false
}

// exits checks what the code after the loop sees of it.
func (l *uloop) exits() {
	type edge struct{ from, to *ssa.BasicBlock }
	var early []edge
	for _, b := range l.f.Blocks {
		if !l.in[b] || !l.s.live[b] {
			continue
		}
		for i, s := range b.Succs {
			if l.in[s] && (b != l.head || i != 0 || len(l.in) > 1) {
				continue
			}
			if b == l.head && i == 1 {
				continue // all elements done
			}
			if !alwaysPanics(s, map[*ssa.BasicBlock]bool{}) {
				early = append(early, edge{b, s})
			}
		}
	}
	// different ways out
	sigs := map[string]bool{}
	plain := true
	for _, e := range early {
		sg := l.outcome(e.from, e.to)
		sigs[sg] = true
		plain = plain && strings.HasPrefix(sg, "return ")
	}
	if len(sigs) > 1 {
		l.bad(l.pos, "how the iteration ends depends on the order")
	}
	if len(early) > 0 && l.effect && (l.out || !plain) {
		l.bad(l.pos, "it ends early, and which elements have been dealt with by then depends on the order")
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] || b == l.head {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, e := range early {
		walk(e.to)
	}
	for _, b := range l.f.Blocks {
		if !l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if _, ok := u.(*ssa.DebugRef); ok || l.in[u.Block()] && !(len(l.in) == 1 && u.Block() != l.head) || !l.s.live[u.Block()] {
					continue
				}
				l.usedAfter(v, u, reach)
			}
		}
	}
	for _, a := range l.acc {
		l.checkCell(a)
	}
}

func (l *uloop) usedAfter(v ssa.Value, u ssa.Instruction, reach map[*ssa.BasicBlock]bool) {
	at := []*ssa.BasicBlock{u.Block()}
	if ph, ok := u.(*ssa.Phi); ok {
		at = nil
		for i, x := range ph.Edges {
			if x == v {
				at = append(at, ph.Block().Preds[i])
			}
		}
	}
	if alwaysPanics(u.Block(), map[*ssa.BasicBlock]bool{}) {
		return
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
		if l.oncePh[p] {
			return
		}
		if w := l.webs[p]; w != nil {
			for _, b := range at {
				if reach[b] || b != l.head && l.in[b] {
					if w.kind != "" || w.cnst == nil {
						l.bad(u.Pos(), "what has been collected when it ends early depends on the order")
					}
				}
			}
			if w.kind == "list" {
				l.o.tag(p, "a list filled by an "+l.what)
			}
			return
		}
	}
	if l.once[v.(ssa.Instruction).Block()] {
		return
	}
	if x, ok := v.(*ssa.Extract); ok && x.Index == 0 {
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Block() == l.head {
		return // the loop condition
	}
	pos := u.Pos()
	if pos == token.NoPos {
		pos = v.Pos()
	}
	l.bad(pos, "something of an arbitrary element is used after it")
}

func alwaysPanics(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if len(b.Instrs) == 0 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return false
	}
	for _, s := range b.Succs {
		if !alwaysPanics(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// outcome describes what leaving the loop by an edge leads to.
func (l *uloop) outcome(from, to *ssa.BasicBlock) string {
	val := map[ssa.Value]string{}
	str := func(v ssa.Value) string {
		if s, ok := val[v]; ok {
			return s
		}
		if c, ok := v.(*ssa.Const); ok {
			return c.String()
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			if c, ok := mi.X.(*ssa.Const); ok {
				return c.String()
			}
		}
		return v.Name()
	}
	for i := 0; i < 20; i++ {
		pi := 0
		for j, p := range to.Preds {
			if p == from {
				pi = j
			}
		}
		simple := true
		phis := ""
		for _, in := range to.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				val[in] = str(in.Edges[pi])
				phis += val[in] + ","
			case *ssa.DebugRef, *ssa.MakeInterface:
			case *ssa.Jump:
			case *ssa.RunDefers:
			case *ssa.Return:
				if simple {
					out := "return "
					for _, r := range in.Results {
						out += str(r) + ","
					}
					return out
				}
			default:
				simple = false
			}
		}
		if !simple {
			return fmt.Sprintf("block %d %s", to.Index, phis)
		}
		if len(to.Succs) != 1 {
			return fmt.Sprintf("block %d %s", to.Index, phis)
		}
		from, to = to, to.Succs[0]
	}
	return "?"
}

// checkCell: a variable in memory to which the loop appends is put in order
// before it is used again.
func (l *uloop) checkCell(a cellAcc) {
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	root := a.base
	local := false
	if al, ok := root.(*ssa.Alloc); ok && a.field == -1 {
		_, local = al.Type().(*types.Pointer).Elem().Underlying().(*types.Slice)
	}
	for _, b := range l.f.Blocks {
		if l.in[b] || !l.s.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				if bs, f := cellAddr(x.X); bs == a.base && f == a.field {
					ss := l.o.sortsOf(x)
					sorts = append(sorts, ss...)
					if len(ss) == 0 {
						uses = append(uses, x)
					}
				} else if bs == a.base && a.field != -1 {
					if x.X == root {
						uses = append(uses, x)
					}
				}
			case *ssa.Return:
				if !local {
					uses = append(uses, x)
				}
			}
		}
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range l.head.Succs {
		if !l.in[s] {
			walk(s)
		}
	}
	for _, u := range uses {
		if !reach[u.Block()] {
			continue
		}
		ok := false
		for _, s := range sorts {
			ok = ok || precedes(s, u)
		}
		if ok {
			continue
		}
		if v, isVal := u.(*ssa.UnOp); isVal {
			if _, isList := v.Type().Underlying().(*types.Slice); isList {
				l.o.tag(v, "a list filled by an "+l.what)
				continue
			}
		}
		l.bad(u.Pos(), "the list it fills is not put in order before it is used")
	}
	// literals that use the variable
	for _, r := range *root.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok || l.in[mc.Block()] {
			continue
		}
		isLess := false
		for _, u := range *mc.Referrers() {
			if c, ok := u.(ssa.CallInstruction); ok && l.o.isSort(c.Common()) {
				isLess = true
			}
		}
		if isLess || !reach[mc.Block()] {
			continue
		}
		ok = false
		for _, s := range sorts {
			ok = ok || precedes(s, mc)
		}
		if !ok {
			fn := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == root {
					l.o.tagLoads(fn, fn.FreeVars[i], "a list filled by an "+l.what)
				}
			}
		}
	}
}

func (o *ordering) tagLoads(f *ssa.Function, v ssa.Value, why string) {
	for _, u := range *v.Referrers() {
		if x, ok := u.(*ssa.UnOp); ok && x.Op == token.MUL {
			o.tag(x, why)
		}
	}
}

func (o *ordering) tag(v ssa.Value, why string) {
	if strings.Count(why, "filled by") > 1 {
		why = "a list without order"
	}
	if o.list[v] == "" {
		o.list[v] = why
		o.change = true
	}
}

// seeds finds the lists without order that a function obtains.
func (o *ordering) seeds(f *ssa.Function) {
	for i, p := range f.Params {
		_ = i
		if why := o.paramU[p]; why != "" {
			o.tag(p, why)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				if o.accMap[mapKey(x.X.Type())] != "" && !x.CommaOk {
					o.tag(x, o.accMap[mapKey(x.X.Type())])
				}
			case *ssa.Extract:
				switch t := x.Tuple.(type) {
				case *ssa.Lookup:
					if why := o.accMap[mapKey(t.X.Type())]; why != "" && x.Index == 0 {
						o.tag(x, why)
					}
				case *ssa.Next:
					if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
						if why := o.accMap[mapKey(r.X.Type())]; why != "" {
							o.tag(x, why)
						}
					}
				case *ssa.Call:
					if why := o.returned(f, t, x.Index); why != "" {
						o.tag(x, why)
					}
				}
			case *ssa.Call:
				if why := o.returned(f, x, 0); why != "" && x.Call.Signature().Results().Len() == 1 {
					o.tag(x, why)
				}
			}
		}
	}
}

func (o *ordering) returned(f *ssa.Function, c *ssa.Call, i int) string {
	for _, g := range o.e.targets(f, &c.Call) {
		if r := o.retU[g]; i < len(r) && r[i] != "" {
			return r[i]
		}
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return ""
	}
	if (frozenOp(g) == "Set.OrderedElements" || frozenOp(g) == "Set.OrderedFirstN") && len(c.Call.Args) > 1 && !totalOrder(o.fnValue(c.Call.Args[len(c.Call.Args)-1]), true) {
		return "elements of a frozen set put in a partial order"
	}
	switch frozenOp(g) {
	case "Set.Elements", "Map.Entries", "Set.Range", "Map.Range":
		return "the elements of a frozen " + strings.ToLower(frozenOp(g)[:3])
	}
	switch g.RelString(nil) {
	case "(reflect.Value).MapKeys":
		return "the keys of a map"
	case "(*os.File).Readdir", "(*os.File).Readdirnames":
		return "the entries of a directory"
	}
	return ""
}

// uses follows a list without order to where its order would matter.
func (o *ordering) uses(v ssa.Value, why string) {
	f := v.Parent()
	if f == nil || v.Referrers() == nil {
		return
	}
	var web *uloop
	if p, ok := v.(*ssa.Phi); ok {
		for _, l := range o.loops[f] {
			if l.webs[p] != nil {
				web = l
			}
		}
	}
	for _, u := range *v.Referrers() {
		if web != nil && web.in[u.Block()] || !o.e.fns[f].live[u.Block()] {
			continue
		}
		if o.sorted(v, u) || alwaysPanics(u.Block(), map[*ssa.BasicBlock]bool{}) {
			continue
		}
		switch u := u.(type) {
		case *ssa.DebugRef, *ssa.IndexAddr, *ssa.Index:
			continue // looked at as a loop
		case *ssa.Phi:
			o.tag(u, why)
			continue
		case *ssa.ChangeType:
			if len(o.sortsOf(u)) > 0 {
				continue
			}
			o.tag(u, why)
			continue
		case *ssa.MakeInterface:
			isSorted := false
			for _, w := range *u.Referrers() {
				if c, ok := w.(ssa.CallInstruction); ok && o.isSort(c.Common()) {
					isSorted = true
				}
			}
			if isSorted {
				continue
			}
		case *ssa.Slice:
			if u.High == nil && u.Low == nil {
				o.tag(u, why)
				continue
			}
			if c, ok := u.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
				continue
			}
		case *ssa.BinOp:
			if zeroConst(u.X) || zeroConst(u.Y) {
				continue
			}
		case *ssa.Return:
			r := o.retU[f]
			if r == nil {
				r = make([]string, len(u.Results))
				o.retU[f] = r
			}
			for i, x := range u.Results {
				if x == v && r[i] == "" {
					r[i] = why
					o.change = true
				}
			}
			continue
		case *ssa.Store:
			if u.Val == v {
				if al, ok := u.Addr.(*ssa.Alloc); ok {
					// another name for it
					done := true
					for _, w := range *al.Referrers() {
						if x, ok := w.(*ssa.UnOp); ok && x.Op == token.MUL {
							if len(o.sortsOf(x)) > 0 {
								continue
							}
							pre := false
							for _, w2 := range *al.Referrers() {
								if y, ok := w2.(*ssa.UnOp); ok {
									for _, s := range o.sortsOf(y) {
										pre = pre || precedes(s, x)
									}
								}
							}
							if !pre {
								o.tag(x, why)
							}
						}
					}
					if done {
						continue
					}
				}
				// part of a variadic call
			}
		case *ssa.MapUpdate:
			if u.Value == v && o.accMap[mapKey(u.Map.Type())] != "" {
				continue
			}
		case *ssa.Range:
			continue
		case ssa.CallInstruction:
			c := u.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					continue
				case "append":
					if x := u.Value(); x != nil {
						o.tag(x, why)
					}
					continue
				}
				break
			}
			if o.isSort(c) {
				continue
			}
			g := c.StaticCallee()
			if g != nil {
				if o.sorterArg(g, c, v) {
					continue
				}
				switch frozenOp(g) {
				case "NewSet", "NewSetFromSlice":
					continue
				}
				if g.RelString(nil) == "github.com/arr-ai/wbnf/parser.MergeScanners" {
					continue // C06 shows that it does not matter
				}
			}
			gs := o.e.targets(f, c)
			if len(gs) > 0 {
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				for _, g := range gs {
					for i, a := range args {
						if a == v && i < len(g.Params) && o.paramU[g.Params[i]] == "" {
							o.paramU[g.Params[i]] = why
							o.change = true
						}
					}
				}
				continue
			}
		}
		pos := u.Pos()
		if pos == token.NoPos {
			pos = v.Pos()
		}
		o.report(f, pos, "%s is used without having been put in order", why)
	}
}

func (o *ordering) sorterArg(g *ssa.Function, c *ssa.CallCommon, v ssa.Value) bool {
	for i, a := range c.Args {
		if a == v && i < len(g.Params) && o.sorts[g.Params[i]] {
			return true
		}
	}
	return false
}

// sorters finds functions that put a list they are given in order.
func (o *ordering) sorters() {
	for changed := true; changed; {
		changed = false
		for _, f := range o.e.order {
			for _, p := range f.Params {
				if o.sorts[p] {
					continue
				}
				if _, ok := p.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				vs := []ssa.Value{p}
				// a parameter captured by the comparison lives in memory
				for _, u := range *p.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Val == ssa.Value(p) {
						if al, ok := s.Addr.(*ssa.Alloc); ok {
							for _, w := range *al.Referrers() {
								if x, ok := w.(*ssa.UnOp); ok && x.Op == token.MUL {
									vs = append(vs, x)
								}
							}
						}
					}
				}
				ok := false
				for _, v := range vs {
					for _, s := range o.sortsOf(v) {
						all := true
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if r, isRet := in.(*ssa.Return); isRet && !precedes(s, r) {
									all = false
								}
							}
						}
						ok = ok || all
					}
				}
				if ok {
					o.sorts[p] = true
					changed = true
				}
			}
		}
	}
}

var debugOrder = os.Getenv("ORDERDBG") != ""
