package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C16", Run: func(c *Ctx) { c.CutPoints() }, Technique: absTechnique, MinObl: 30,
		Covers: "The function that inserts cut points is interpreted on an opaque grammar, and every function it applies to terms on each kind of term with opaque parts (structural induction). Counting has to add up every occurrence the kind's parts hold (twice for lookaheads and for separators that may lead or trail), a literal may only be wrapped on paths on which its count in the whole grammar is known to be one, and everything else has to come back as it was, parts replaced by their rewritten selves in place. Every other place that makes a cut point is looked at, and the literals of the shipped grammar are counted."})
}

// cutModel interprets functions over terms; counts are lists of what was
// counted: strings, and all(t) for every string in t.
type cutModel struct {
	*astModel
	counts map[string]*ssa.Function
	tasks  map[string]*cutTask
	order  []*cutTask
	done   map[*ssa.Function]bool
	seen   map[*Val]int
}

type cutTask struct {
	key   string
	fn    *ssa.Function
	args  []*Val
	binds []*Val
	at    int
	st    *State
	count bool
}

// termParam is the index of the argument that is a term.
func (m *cutModel) termParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if types.Identical(p.Type(), m.termI) {
			return i
		}
	}
	return -1
}

func isCountMap(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "arr-ai/frozen") && n.Obj().Name() == "Map"
}

// knownKind: the dynamic type is settled.
func (m *cutModel) knownKind(x *Exec, st *State, v *Val) bool {
	if v.Op == absint.OIface || v.IsNil() {
		return true
	}
	for _, k := range m.c.Kinds() {
		if x.Known(st, m.u.IsType(v, k), true) {
			return true
		}
	}
	return false
}

func (m *cutModel) exec() *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.MaxDepth = 40
	x.Hooks.Inline = func(f *ssa.Function) bool { return true }
	x.Hooks.Call = m.call
	return x
}

func asCounts(u *absint.Universe, v *Val) *Val {
	if v.Op == absint.OStruct || v.IsNil() {
		return u.List() // the zero map
	}
	return v
}

func (m *cutModel) call(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := x.U
	if c.Fn == nil {
		return nil, false
	}
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	str := types.Typ[types.String]
	boolT := types.Typ[types.Bool]
	switch op := frozenOp(c.Fn); op {
	case "":
	case "NewMap":
		if len(c.Args) == 0 || isNilOrEmpty(x.Reify(st, c.Args[0])) {
			return ret(u.List())
		}
	case "Map.Merge":
		a, b := asCounts(u, c.Args[0]), asCounts(u, c.Args[1])
		if !m.adds(x, st, c.Args[2]) {
			return ret(u.Call("merged otherwise", 0, nil, a, b))
		}
		return ret(m.union(u, a, b))
	case "Map.Get":
		a := asCounts(u, c.Args[0])
		it := types.Typ[types.Int]
		if isEmptyCounts(a) {
			return ret(u.Tuple(u.Int(0), u.Bool(false)))
		}
		return ret(u.Tuple(u.Call("count", 0, it, a, c.Args[1]), u.Call("count", 1, boolT, a, c.Args[1])))
	case "Map.MustGet":
		return ret(u.Call("count", 0, types.Typ[types.Int], asCounts(u, c.Args[0]), c.Args[1]))
	case "Map.GetElse":
		a := asCounts(u, c.Args[0])
		return ret(u.Call("count", 0, types.Typ[types.Int], a, c.Args[1]))
	case "Map.With":
		a := asCounts(u, c.Args[0])
		base := u.Call("count", 0, types.Typ[types.Int], a, c.Args[1])
		if isEmptyCounts(a) {
			base = u.Int(0)
		}
		n, ok := u.Sub(c.Args[2], base).IntConst()
		if !ok {
			n, ok = c.Args[2].IntConst()
			ok = ok && x.Known(st, u.Call("count", 1, boolT, a, c.Args[1]), false)
		}
		if !ok || n < 1 || n > 4 {
			return ret(u.Call("count replaced", 0, nil, a, c.Args[1], c.Args[2]))
		}
		var es []*Val
		for i := int64(0); i < n; i++ {
			es = append(es, u.Tuple(u.Str("one"), c.Args[1]))
		}
		return ret(u.Append(a, u.List(es...)))
	case "Map.Where":
		a := asCounts(u, c.Args[0])
		if m.once(x, st, c.Args[1]) {
			return ret(u.Call("once", 0, nil, a))
		}
		return ret(u.Call("some", 0, nil, a))
	case "Map.Keys":
		return ret(u.Call("keyset", 0, nil, asCounts(u, c.Args[0])))
	case "Map.Has", "Set.Has":
		return ret(u.Call("has", 0, boolT, c.Args[0], u.Call("text", 0, str, c.Args[1])))
	}
	if !x.InModule(c.Fn) {
		return nil, false
	}
	if _, isCut := m.counts[c.Fn.RelString(nil)]; isCut {
		return nil, false
	}
	at := m.termParam(c.Fn)
	if at < 0 || at >= len(c.Args) {
		return nil, false
	}
	t := c.Args[at]
	res := c.Fn.Signature.Results()
	if res.Len() != 1 || m.knownKind(x, st, t) {
		return nil, false
	}
	count := isCountMap(res.At(0).Type())
	if !count && !types.Identical(res.At(0).Type(), m.termI) {
		return nil, false
	}
	k := m.task(x, st, c, at, count)
	if count {
		e := u.Tuple(u.Str("all"), t, u.Str(k))
		m.born(e)
		return ret(u.List(e))
	}
	r := u.Call("rewritten", 0, m.termI, u.Str(k), t)
	return ret(r)
}

// union puts what was counted first in front.
func (m *cutModel) union(u *absint.Universe, a, b *Val) *Val {
	switch {
	case a.Op == absint.OList && b.Op == absint.OList:
		es := append(append([]*Val(nil), a.Args...), b.Args...)
		sort.SliceStable(es, func(i, j int) bool { return m.born(es[i]) < m.born(es[j]) })
		return u.List(es...)
	case a.Op == absint.OList:
		return u.Append(b, a)
	}
	return u.Append(a, b)
}

func (m *cutModel) born(v *Val) int {
	if _, ok := m.seen[v]; !ok {
		m.seen[v] = len(m.seen)
	}
	return m.seen[v]
}

func isEmptyCounts(v *Val) bool { return v.Op == absint.OList && len(v.Args) == 0 }

// task notes a function over terms that has to be looked at.
func (m *cutModel) task(x *Exec, st *State, c *absint.CallInfo, at int, count bool) string {
	var binds []*Val
	if c.FnVal != nil && c.FnVal.Op == absint.OClosure {
		binds = c.FnVal.Args
	}
	key := c.Fn.RelString(nil)
	for i, a := range c.Args {
		if i != at {
			key += "," + shapeOf(x, st, a, 0)
		}
	}
	for _, b := range binds {
		key += "," + shapeOf(x, st, b, 0)
	}
	if m.tasks[key] == nil {
		t := &cutTask{key: key, fn: c.Fn, args: append([]*Val(nil), c.Args...), binds: binds, at: at, st: st.Clone(), count: count}
		m.tasks[key] = t
		m.order = append(m.order, t)
	}
	return key
}

// shapeOf names a value up to the identity of the cells it is kept in.
func shapeOf(x *Exec, st *State, v *Val, d int) string {
	if d > 4 {
		return "…"
	}
	switch v.Op {
	case absint.OClosure, absint.OFunc:
		s := "func"
		if v.Fn != nil {
			s = v.Fn.RelString(nil)
		}
		for _, b := range v.Args {
			s += "[" + shapeOf(x, st, b, d+1) + "]"
		}
		return s
	case absint.OAlloc:
		if w, ok := st.Mem[v]; ok {
			return "&" + shapeOf(x, st, w, d+1)
		}
		return "&"
	}
	return v.String()
}

// adds: the function yields the sum of its last two arguments.
func (m *cutModel) adds(x *Exec, st *State, f *Val) bool {
	u := x.U
	f = x.Reify(st, f)
	if f.Op != absint.OClosure && f.Op != absint.OFunc || f.Fn == nil || len(f.Fn.Params) != 3 {
		return false
	}
	it := types.Typ[types.Int]
	a, b := u.Sym("merge.a", it), u.Sym("merge.b", it)
	y := m.exec()
	s2 := st.Clone()
	s2.Frames = nil
	outs := y.RunClosure(f.Fn, []*Val{u.Sym("merge.k", f.Fn.Params[0].Type()), a, b}, f.Args, s2)
	if len(y.Undecided) > 0 || len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		if o.Panic != nil || u.Sub(o.Res[0], u.Add(a, b)) != u.Int(0) {
			return false
		}
	}
	return true
}

// once: the predicate holds only for counts of one.
func (m *cutModel) once(x *Exec, st *State, f *Val) bool {
	u := x.U
	f = x.Reify(st, f)
	if f.Op != absint.OClosure && f.Op != absint.OFunc || f.Fn == nil || len(f.Fn.Params) != 2 {
		return false
	}
	v := u.Sym("where.v", types.Typ[types.Int])
	y := m.exec()
	s2 := st.Clone()
	s2.Frames = nil
	y.Assume(s2, u.Le(u.Int(1), v), true)
	outs := y.RunClosure(f.Fn, []*Val{u.Sym("where.k", f.Fn.Params[0].Type()), v}, f.Args, s2)
	if len(y.Undecided) > 0 || len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		if o.Panic != nil {
			return false
		}
		if !y.Assume(o.St, o.Res[0], true) {
			continue
		}
		if !y.Known(o.St, u.Le(v, u.Int(1)), true) {
			return false
		}
	}
	return true
}

// CutPoints decides C16.
func (c *Ctx) CutPoints() {
	bm := c.buildModel()
	m := &cutModel{seen: map[*Val]int{}, astModel: c.astModel(), tasks: map[string]*cutTask{}, done: map[*ssa.Function]bool{}, counts: map[string]*ssa.Function{}}
	u := m.u
	if bm.cut == nil {
		panic(missing("the function that inserts cut points"))
	}
	fn := bm.cut
	m.counts[fn.RelString(nil)] = fn
	// the whole grammar
	x := m.exec()
	st := absint.NewState()
	g := u.Sym("g", m.grammarT)
	outs := x.Run(fn, []*Val{g}, st)
	good := 0
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "C16.rewrite", "inserting cut points panics")
			continue
		}
		if why := m.sameGrammar(x, o.St, g, o.Res[0]); why != "" {
			x.Report(o.St, o.Pos, "C16.rewrite", "%s", why)
			continue
		}
		good++
	}
	c.Check("C16.rewrite", "grammar", good > 0, fn.Pos(), "no grammar comes back")
	c.Done(x, "C16.rewrite", "grammar", fn)
	for i := 0; i < len(m.order) && i < 20; i++ {
		m.kinds(m.order[i], g)
	}
	c.Check("C16.rewrite", "functions", len(m.order) > 0 && len(m.order) < 20, fn.Pos(), "no or too many functions over terms (%d)", len(m.order))
	m.makers()
	m.shipped()
	// the grammar it is given is the whole one
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						ci, isCall := in.(ssa.CallInstruction)
						c.Check("C16.whole", "uses of "+fn.Name(), f == bm.fromAst && isCall && ci.Common().StaticCallee() == fn, in.Pos(),
							"cut points are inserted by %s, which does not hold the whole grammar", f.RelString(nil))
					}
				}
			}
		}
	}
	c.Check("C16.whole", "uses of "+fn.Name(), true, fn.Pos(), "")
}

// flat lists the entries and segments of a list.
func flatList(v *Val) (elems, comps []*Val, ok bool) {
	switch v.Op {
	case absint.OList:
		return v.Args, nil, true
	case absint.OAppend:
		e1, c1, ok1 := flatList(v.Args[0])
		e2, c2, ok2 := flatList(v.Args[1])
		return append(append([]*Val(nil), e1...), e2...), append(append([]*Val(nil), c1...), c2...), ok1 && ok2
	case absint.OComp:
		e, c, ok := flatList(v.Args[0])
		return e, append(append([]*Val(nil), c...), v), ok
	}
	if v.IsNil() || v.Op == absint.OStruct { // the zero map
		return nil, nil, true
	}
	return nil, nil, false
}

// sameGrammar: the result holds the rules of g, each term rewritten or as it
// was, and nothing else.
func (m *cutModel) sameGrammar(x *Exec, st *State, g, res *Val) string {
	u := m.u
	if res == g || same(x, st, g, res) {
		return ""
	}
	if res.Op != absint.OMap {
		return "the result is " + show(x.Reify(st, res)) + " instead of a copy of the grammar"
	}
	body := st.Mem[res]
	if body == nil {
		return "the result has no rules"
	}
	body = x.Norm(st, x.Reify(st, body))
	keys := u.Call("keys", 0, nil, g)
	iota := u.Sym("ι0", types.Typ[types.Int])
	el, comps, ok := flatList(body)
	if x.Bounds(st, u.Len(keys)).Hi <= 0 && ok && len(el) == 0 && len(comps) == 0 {
		return ""
	}
	if !ok || len(el) != 0 || len(comps) != 1 {
		return "the result does not hold each rule once: " + show(body)
	}
	cm := comps[0]
	if !x.ProveEq(st, cm.Args[4], u.Len(keys)) || cm.Args[3] != u.Int(0) {
		return "some rules are left out: " + show(body)
	}
	iota = cm.Args[2]
	key := u.Index(keys, iota, nil)
	tmpl := cm.Args[1]
	if tmpl.Op != absint.OList || len(tmpl.Args) != 1 || len(tmpl.Args[0].Args) != 2 {
		return "a rule becomes " + show(tmpl)
	}
	e := tmpl.Args[0]
	if e.Args[0] != u.Index(keys, iota, e.Args[0].Typ) && e.Args[0] != key {
		return "a rule is filed under " + show(e.Args[0])
	}
	was := u.Lookup(g, e.Args[0], 0, m.termI)
	if m.fixed(was, e.Args[1]) {
		return ""
	}
	return "a rule's term becomes " + show(e.Args[1]) + " instead of " + show(was) + " with cut points"
}

// fixed: now is t, or what a function over terms makes of it.
func (m *cutModel) fixed(t, now *Val) bool {
	if t == now {
		return true
	}
	if now.Op == absint.OCall && strings.HasPrefix(now.Aux, "rewritten") && len(now.Args) == 2 && now.Args[1] == t {
		k, ok := now.Args[0].StrConst()
		return ok && m.tasks[k] != nil && !m.tasks[k].count
	}
	return false
}

// kinds runs a function over terms on each kind.
func (m *cutModel) kinds(t *cutTask, g *Val) {
	u := m.u
	name := t.fn.RelString(nil)
	m.done[t.fn] = true
	for _, k := range m.c.Kinds() {
		cons := typeName(k) + " in " + name
		rule := "C16.rewrite"
		if t.count {
			rule = "C16.count"
		}
		x := m.exec()
		st := t.st.Clone()
		st.Frames = nil
		v := u.Iface(k, u.Sym("t", k))
		if s := fieldsOf(k); s != nil {
			var fs []*Val
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, u.Sym("t."+s.Field(i).Name(), s.Field(i).Type()))
			}
			v = u.Iface(k, u.Struct(k, fs...))
		}
		args := append([]*Val(nil), t.args...)
		args[t.at] = v
		good := 0
		for _, o := range x.RunClosure(t.fn, args, t.binds, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, rule, "panics")
				continue
			}
			why := ""
			if t.count {
				why = m.counted(x, o.St, v, o.Res[0])
			} else {
				why = m.kept(x, o.St, g, v, o.Res[0])
			}
			if why != "" {
				x.Report(o.St, o.Pos, rule, "a %s: %s", typeName(k), why)
				continue
			}
			good++
		}
		m.c.Check(rule, cons, good > 0, t.fn.Pos(), "a %s: nothing comes back", typeName(k))
		for f := range x.Inlined {
			m.done[f] = true
		}
		m.c.Done(x, rule, cons, t.fn)
	}
}

type termPart struct {
	name string
	v    *Val
	t    types.Type
}

// parts of a term of known kind.
func (m *cutModel) parts(v *Val) []termPart {
	s := fieldsOf(v.Typ)
	if s == nil {
		return nil
	}
	var out []termPart
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, termPart{s.Field(i).Name(), m.u.Field(v.Args[0], i, s.Field(i).Type()), s.Field(i).Type()})
	}
	return out
}

// counted: the counts hold every string of the term at least once, and those
// that must not be cut points at least twice.
func (m *cutModel) counted(x *Exec, st *State, v, res *Val) string {
	u := m.u
	counts := x.Norm(st, x.Reify(st, asCounts(u, res)))
	el, comps, ok := flatList(counts)
	if !ok {
		return "what is counted is " + show(counts)
	}
	has := func(t *Val) int {
		n := 0
		for _, e := range el {
			if e.Op == absint.OTuple && e.Args[0] == u.Str("all") && e.Args[1] == t {
				n++
			}
		}
		return n
	}
	all := func(list *Val, item func(iota *Val) *Val) int {
		n := 0
		for _, cm := range comps {
			if !x.ProveEq(st, cm.Args[4], u.Len(list)) || cm.Args[3] != u.Int(0) || cm.Args[1].Op != absint.OList {
				continue
			}
			for _, e := range cm.Args[1].Args {
				if e.Op == absint.OTuple && e.Args[0] == u.Str("all") && e.Args[1] == item(cm.Args[2]) {
					n++
				}
			}
		}
		return n
	}
	switch under := v.Typ.Underlying().(type) {
	case *types.Slice:
		list := v.Args[0]
		if x.Bounds(st, u.Len(list)).Hi <= 0 {
			return ""
		}
		if all(list, func(i *Val) *Val { return u.Index(list, i, under.Elem()) }) == 0 {
			return "not every element is counted: " + show(counts)
		}
	case *types.Basic:
		if typeName(v.Typ) != "S" {
			return ""
		}
		for _, e := range el {
			if e.Op == absint.OTuple && e.Args[0] == u.Str("one") && m.sameText(e.Args[1], v.Args[0]) {
				return ""
			}
		}
		return "the string is not counted: " + show(counts)
	case *types.Struct:
		flags := map[string]*Val{}
		ps := m.parts(v)
		for _, p := range ps {
			if b, ok := p.t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				flags[p.name] = p.v
			}
		}
		for _, p := range ps {
			if types.Identical(p.t, m.termI) {
				if x.Known(st, u.Eq(p.v, u.Nil(nil)), true) {
					continue
				}
				want := 1
				switch {
				case typeName(v.Typ) == "LookAhead":
					want = 2
				case typeName(v.Typ) == "Delim" && p.name == "Sep":
					for _, f := range []string{"CanStartWithSep", "CanEndWithSep"} {
						if flags[f] == nil {
							panic(missing("Delim." + f))
						}
						if !x.Known(st, flags[f], false) {
							want = 2
						}
					}
				}
				if n := has(p.v); n < want {
					return fmt.Sprintf("its %s is counted %d times instead of %d: %s", p.name, n, want, show(counts))
				}
			}
			if mt, ok := p.t.Underlying().(*types.Map); ok && types.Identical(mt.Elem(), m.termI) {
				keys := u.Call("keys", 0, nil, p.v)
				if x.Bounds(st, u.Len(keys)).Hi <= 0 || x.Bounds(st, u.Len(p.v)).Hi <= 0 {
					continue
				}
				if all(keys, func(i *Val) *Val {
					return u.Lookup(p.v, u.Index(keys, i, mt.Key()), 0, mt.Elem())
				}) == 0 {
					return "not every rule in its " + p.name + " is counted: " + show(counts)
				}
			}
		}
	}
	return ""
}

// sameText: equal up to conversions between string types.
func (m *cutModel) sameText(a, b *Val) bool {
	strip := func(v *Val) *Val {
		for v.Op == absint.OConv && len(v.Args) == 1 {
			v = v.Args[0]
		}
		return v
	}
	return strip(a) == strip(b)
}

// kept: the result is the term with its parts rewritten in place, or a cut
// point around a string that occurs once in g.
func (m *cutModel) kept(x *Exec, st *State, g, v, res *Val) string {
	u := m.u
	if res == v || same(x, st, v, res) {
		return ""
	}
	r := x.Reify(st, res)
	if r.Op != absint.OIface {
		if m.fixed(v, r) {
			return "" // passed on whole: cannot happen for a known kind
		}
		return "becomes " + show(r)
	}
	if typeName(r.Typ) == "CutPoint" && typeName(v.Typ) != "CutPoint" {
		if typeName(v.Typ) != "S" {
			return "is made a cut point"
		}
		if !same(x, st, u.Field(r.Args[0], 0, m.termI), v) {
			return "becomes " + show(r)
		}
		return m.unique(x, st, g, v.Args[0])
	}
	if !types.Identical(r.Typ, v.Typ) {
		return "becomes a " + typeName(r.Typ)
	}
	switch under := v.Typ.Underlying().(type) {
	case *types.Slice:
		was, now := v.Args[0], x.Norm(st, r.Args[0])
		if x.Bounds(st, u.Len(was)).Hi <= 0 && (isNilOrEmpty(now) || x.Bounds(st, u.Len(now)).Hi <= 0) {
			return ""
		}
		el, comps, ok := flatList(now)
		if !ok || len(el) != 0 || len(comps) != 1 {
			return "its elements become " + show(now)
		}
		cm := comps[0]
		if !x.ProveEq(st, cm.Args[4], u.Len(was)) || cm.Args[3] != u.Int(0) || cm.Args[1].Op != absint.OList || len(cm.Args[1].Args) != 1 {
			return "its elements become " + show(now)
		}
		if !m.fixed(u.Index(was, cm.Args[2], under.Elem()), cm.Args[1].Args[0]) {
			return "its elements become " + show(now)
		}
		return ""
	case *types.Struct:
		ps, qs := m.parts(v), m.parts(r)
		for i, p := range ps {
			q := qs[i]
			if p.v == q.v || same(x, st, p.v, q.v) || types.Identical(p.t, m.termI) && m.fixed(p.v, q.v) {
				continue
			}
			if mt, ok := p.t.Underlying().(*types.Map); ok && types.Identical(mt.Elem(), m.termI) {
				if why := m.sameGrammar(x, st, p.v, q.v); why != "" {
					return "its " + p.name + ": " + why
				}
				continue
			}
			return fmt.Sprintf("its %s becomes %s", p.name, show(q.v))
		}
		return ""
	}
	return "becomes " + show(r)
}

// unique: the path asked whether the string occurs once in the whole of g.
func (m *cutModel) unique(x *Exec, st *State, g, s *Val) string {
	u := m.u
	for _, l := range factAtoms(st) {
		if l.Op != absint.OCall || !strings.HasPrefix(l.Aux, "has") || len(l.Args) != 2 || !x.Known(st, l, true) {
			continue
		}
		if !m.sameText(l.Args[1].Args[0], s) {
			continue
		}
		set := x.Reify(st, l.Args[0])
		if set.Op == absint.OCall && strings.HasPrefix(set.Aux, "keyset") {
			set = set.Args[0]
		}
		if set.Op != absint.OCall || !strings.HasPrefix(set.Aux, "once") {
			return "a string is made a cut point that need not occur only once"
		}
		counts := x.Norm(st, x.Reify(st, set.Args[0]))
		keys := u.Call("keys", 0, nil, g)
		_, comps, ok := flatList(counts)
		if !ok {
			return "a string is made a cut point when it occurs once in " + show(counts)
		}
		if x.Bounds(st, u.Len(keys)).Hi <= 0 {
			return ""
		}
		for _, cm := range comps {
			if !x.ProveEq(st, cm.Args[4], u.Len(keys)) || cm.Args[3] != u.Int(0) || cm.Args[1].Op != absint.OList {
				continue
			}
			for _, e := range cm.Args[1].Args {
				if e.Op != absint.OTuple || e.Args[0] != u.Str("all") {
					continue
				}
				if k := m.tasks[mustStr(e.Args[2])]; k == nil || !k.count {
					continue
				}
				mt := m.grammarT.Underlying().(*types.Map)
				if e.Args[1] == u.Lookup(g, u.Index(keys, cm.Args[2], mt.Key()), 0, mt.Elem()) {
					return ""
				}
			}
		}
		return "a string is made a cut point when it occurs once in " + show(counts)
	}
	return "a string is made a cut point without asking how often it occurs"
}

func mustStr(v *Val) string { s, _ := v.StrConst(); return s }

// makers looks at every place that makes a cut point.
func (m *cutModel) makers() {
	cutT := m.c.Named("parser", "CutPoint")
	n := 0
	for _, f := range m.c.allFuncs() {
		if f.Pkg == nil {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mk, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Identical(mk.X.Type(), cutT) {
					continue
				}
				n++
				own := m.done[f] || copied(mk.X, cutT)
				if r := root.Signature.Recv(); r != nil && types.Identical(derefT(r.Type()), cutT) {
					own = true
				}
				if res := root.Signature.Results(); len(root.Params) == 0 && res.Len() == 1 && typeName(res.At(0).Type()) == "Parsers" {
					own = true // the shipped grammar, counted below
				}
				m.c.Check("C16.makers", f.RelString(nil), own, mk.Pos(), "makes a cut point without counting the string's occurrences")
			}
		}
	}
	m.c.Check("C16.makers", "any", n > 0, token.NoPos, "no place makes cut points")
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// copied: the value comes out of a term that was one already.
func copied(v ssa.Value, t types.Type) bool {
	switch v := v.(type) {
	case *ssa.TypeAssert:
		return true
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.TypeAssert)
		return ok
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			whole := false
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if !copied(s.Val, t) {
						return false
					}
					whole = true
				}
			}
			return whole
		}
		return true // kept somewhere as a cut point
	case *ssa.Field:
		return true
	}
	return false
}

// shipped counts the strings of the grammar that comes with the package.
func (m *cutModel) shipped() {
	fn := m.c.P.Func("wbnf", "Grammar")
	if fn == nil || len(fn.Params) != 0 {
		panic(missing("wbnf.Grammar"))
	}
	x := m.c.Exec()
	x.U = m.u
	u := m.u
	found := 0
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn == nil || c.Fn.Signature.Recv() == nil || c.Fn.Name() != "Compile" || len(c.Args) == 0 {
			return nil, false
		}
		found++
		times := map[string]int{}
		var cut []*Val
		bad := m.literals(x, st, c.Args[0], times, &cut, 1, 0)
		if bad != "" {
			x.Report(st, c.Pos, "C16.shipped", "cannot read the shipped grammar: %s", bad)
		}
		for _, s := range cut {
			k, ok := s.StrConst()
			if !ok || times[k] != 1 {
				x.Report(st, c.Pos, "C16.shipped", "the literal %s is a cut point of the shipped grammar but occurs %d times", show(s), times[k])
			}
		}
		m.c.Check("C16.shipped", "cut points", len(cut) > 0, fn.Pos(), "the shipped grammar has no cut points")
		return []absint.Out{{St: st, Val: u.Sym("parsers", c.Fn.Signature.Results().At(0).Type())}}, true
	}
	x.Run(fn, nil, absint.NewState())
	m.c.Check("C16.shipped", "grammar", found > 0, fn.Pos(), "the shipped grammar is not compiled")
	m.c.Done(x, "C16.shipped", "grammar", fn)
}

// literals counts the strings in a known term or grammar; those under
// lookaheads and optional separators weigh double.
func (m *cutModel) literals(x *Exec, st *State, v *Val, times map[string]int, cut *[]*Val, w, d int) string {
	if d > 40 {
		return "too deep"
	}
	v = x.Reify(st, v)
	if v.IsNil() {
		return ""
	}
	if v.Op == absint.OMap {
		es, ok := x.Entries(st, v)
		if !ok {
			return "rules " + show(v)
		}
		for _, e := range es {
			if why := m.literals(x, st, e.Args[1], times, cut, w, d+1); why != "" {
				return why
			}
		}
		return ""
	}
	if v.Op != absint.OIface {
		return show(v)
	}
	in := v.Args[0]
	switch under := v.Typ.Underlying().(type) {
	case *types.Basic:
		if typeName(v.Typ) == "S" {
			k, ok := in.StrConst()
			if !ok {
				return show(v)
			}
			times[k] += w
		}
	case *types.Slice:
		_ = under
		if isNilOrEmpty(in) {
			return ""
		}
		if in.Op != absint.OList {
			return show(v)
		}
		for _, e := range in.Args {
			if why := m.literals(x, st, e, times, cut, w, d+1); why != "" {
				return why
			}
		}
	case *types.Struct:
		ps := m.parts(v)
		opt := false
		for _, p := range ps {
			if b, ok := p.t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && typeName(v.Typ) == "Delim" && (p.name == "CanStartWithSep" || p.name == "CanEndWithSep") && !p.v.IsFalse() {
				opt = true
			}
		}
		for _, p := range ps {
			wp := w
			if typeName(v.Typ) == "LookAhead" || opt && p.name == "Sep" {
				wp = 2 * w
			}
			_, isMap := p.t.Underlying().(*types.Map)
			if !types.Identical(p.t, m.termI) && !isMap {
				continue
			}
			if typeName(v.Typ) == "CutPoint" {
				s := x.Reify(st, p.v)
				if s.Op != absint.OIface || typeName(s.Typ) != "S" {
					return "a cut point of " + show(s)
				}
				*cut = append(*cut, s.Args[0])
			}
			if why := m.literals(x, st, p.v, times, cut, wp, d+1); why != "" {
				return why
			}
		}
	}
	return ""
}

func factAtoms(st *State) []*Val {
	var out []*Val
	for v, b := range st.Facts {
		if b {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
