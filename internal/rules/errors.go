package rules

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C20", Run: func(c *Ctx) { c.Errors() }, Technique: absTechnique, MinObl: 30,
		Covers: "For every parser a term kind constructs (with concrete lists of three sub-terms and concrete bounds), its Parse method is interpreted on every combination of failing sub-parsers. On each failing path the causes recorded in the error are evaluated in the state the call leaves behind, and again after the caller has overwritten its input and output: they have to yield the same values, none of them nil or the error itself, all attempts' own errors among them, and for a literal or pattern the input where it failed. The rendering functions are interpreted on symbolic causes and trees (every cause asked exactly once and shown, every line and item printed), and the chain of calls on concrete chains."})
}

const errTerms = 3

// Errors decides C20.
func (c *Ctx) Errors() {
	m := c.parseModel()
	for _, k := range c.Kinds() {
		if typeName(k) == "CutPoint" {
			bs, _, _ := m.construct(k, nil)
			for _, b := range bs {
				if b.res.Op == absint.OIface {
					m.cutPtr = b.res.Typ
				}
			}
		}
	}
	termT := c.Named("parser", "Term")
	for _, k := range c.Kinds() {
		role, ok := roles[typeName(k)]
		if !ok {
			continue
		}
		var mks []func(u *absint.Universe) *Val
		terms := func(u *absint.Universe) *Val {
			var ts []*Val
			for i := 0; i < errTerms; i++ {
				ts = append(ts, u.Sym(fmt.Sprintf("term%d", i), termT))
			}
			return u.List(ts...)
		}
		switch role {
		case roleSeq, roleChoice:
			mks = append(mks, terms)
		case roleRep:
			for _, b := range [][2]int64{{2, 0}, {2, 3}} {
				b := b
				mks = append(mks, func(u *absint.Universe) *Val {
					s := fieldsOf(k)
					var fs []*Val
					for i := 0; i < s.NumFields(); i++ {
						switch s.Field(i).Name() {
						case "Term":
							fs = append(fs, u.Sym("term", termT))
						case "Min":
							fs = append(fs, u.Int(b[0]))
						case "Max":
							fs = append(fs, u.Int(b[1]))
						default:
							fs = append(fs, u.Sym("t."+s.Field(i).Name(), s.Field(i).Type()))
						}
					}
					return u.Struct(k, fs...)
				})
			}
		default:
			mks = append(mks, nil)
		}
		for _, mk := range mks {
			m.mkTerm = mk
			bs, x, fn := m.construct(k, nil)
			m.mkTerm = nil
			c.Check("C20.construct", typeName(k), len(bs) > 0, fn.Pos(), "the constructor never returns a parser")
			c.Done(x, "C20", typeName(k), fn)
			for _, b := range bs {
				if b.res.Op != absint.OIface {
					continue
				}
				for _, cutOn := range []bool{false, true} {
					m.causes(b, role, cutOn)
				}
			}
		}
	}
	c.render(m)
}

// causes evaluates what the errors of one parser record.
func (m *parseModel) causes(b *built, role string, cutOn bool) {
	c := m.c
	r, outs := m.parseOutcomes(b, role, cutOn, true, nil)
	x, u := r.x, r.x.U
	var keep []*absint.Report
	if os.Getenv("DBG20") == r.cons {
		x.Debug = true
	}
	x.Reports = nil // the other laws are C01-C04's
	failed, wrapped := 0, 0
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		err := o.Res[0]
		isNil, known := x.Decide(o.St, x.EqVal(err, u.Nil(nil)))
		if known && isNil {
			continue
		}
		failed++
		at := func(rule, f string, args ...any) {
			x.Report(o.St, o.Pos, rule, f, args...)
			keep = append(keep, x.Reports[len(x.Reports)-1])
		}
		if x.SameVal(o.St, err, r.ts(o.St, "lasterr")) {
			continue // handed up as it is
		}
		wrapped++
		causes, ok := m.recorded(x, o.St, err)
		if !ok {
			// no recorded causes: the error itself has to show the failures
			for _, e := range m.failures(r, o.St, at) {
				if !x.Reify(o.St, err).Mentions(e) {
					at("C20.complete", "the error %s of a failed attempt is not part of %s", show(e), show(err))
				}
			}
			continue
		}
		for i, e := range causes {
			if e.Op != absint.OClosure && e.Op != absint.OFunc {
				at("C20.cause", "cause %d is %s, which cannot be evaluated", i, show(e))
			}
		}
		base := o.St.Clone()
		base.TS["keep"] = u.List(append([]*Val{err, b.res}, causes...)...)
		first := m.evaluate(x, base, causes, at)
		// the caller goes on
		later := base.Clone()
		x.Store(later, r.inAddr, r.posVal("moved"), m.scannerT)
		x.Store(later, r.outA, u.Tok("overwritten", m.teT), m.teT)
		second := m.evaluate(x, later, causes, at)
		for i, v := range first {
			if v == nil {
				continue
			}
			if second[i] == nil || !x.SameVal(base, v, second[i]) {
				at("C20.stable", "cause %d is %s when the error is created and %s later", i, show(v), show(orNil(u, second[i])))
			}
			if v.IsNil() || v.Op == absint.OIface && v.Args[0].IsNil() && !isPtr(v.Typ) {
				at("C20.nil", "cause %d is nil", i)
			}
			if d := deepLoad(x, o.St, err, 0); x.SameVal(o.St, v, d) || v.Mentions(d) {
				at("C20.self", "cause %d is the error itself", i)
			}
		}
		for _, e := range m.failures(r, o.St, at) {
			found := false
			for _, v := range first {
				if d := deepLoad(x, o.St, e, 0); v != nil && (x.SameVal(o.St, v, d) || v.Mentions(d)) {
					found = true
				}
			}
			if !found {
				at("C20.complete", "the error %s of a failed attempt is not among the causes", show(e))
			}
		}
		if role == roleLeaf {
			where := false
			for _, v := range first {
				if v != nil && (v.Mentions(r.entry) || mentionsPart(v, r.entry)) {
					where = true
				}
			}
			if !where {
				at("C20.where", "no cause shows the input where the match failed")
			}
		}
	}
	x.Reports = keep
	cons := r.cons
	c.Check("C20.fails", cons, failed > 0, r.fn.Pos(), "no path of %s fails", relName(r.fn))
	if wrapped > 0 {
		for _, rule := range []string{"C20.stable", "C20.self", "C20.nil", "C20.complete"} {
			c.Check(rule, cons, true, r.fn.Pos(), "")
		}
		if role == roleLeaf {
			c.Check("C20.where", cons, true, r.fn.Pos(), "")
		}
	}
	c.Done(x, "C20", cons, r.fn)
}

// failures lists the errors of the failed attempts on a path.
func (m *parseModel) failures(r *parseRun, st *State, at func(rule, f string, args ...any)) []*Val {
	l := r.x.Norm(st, r.ts(st, "errs"))
	if l.Op != absint.OList {
		at("C20.undecided", "cannot tell which attempts failed: %s", show(l))
		return nil
	}
	return l.Args
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func orNil(u *absint.Universe, v *Val) *Val {
	if v == nil {
		return u.Nil(nil)
	}
	return v
}

// mentionsPart: v was computed from a component of the struct s.
func mentionsPart(v, s *Val) bool {
	if s.Op != absint.OStruct {
		return false
	}
	n := 0
	for _, f := range s.Args {
		if v.Mentions(f) {
			n++
		}
	}
	return n > 0
}

// recorded lists the causes in a parse error.
func (m *parseModel) recorded(x *Exec, st *State, err *Val) ([]*Val, bool) {
	if err.Op != absint.OIface {
		return nil, false
	}
	v := err.Args[0]
	for d := 0; d < 4; d++ {
		if v.Op == absint.OAlloc {
			v = x.Load(st, v, nil)
		}
		if v.Op != absint.OStruct {
			return nil, false
		}
		s := fieldsOf(v.Typ)
		var next *Val
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if sg, ok := sl.Elem().Underlying().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 {
					l := x.Norm(st, x.Reify(st, v.Args[i]))
					if l.IsNil() {
						return nil, true
					}
					if l.Op != absint.OList {
						return []*Val{l}, true // reported: cannot be evaluated
					}
					return l.Args, true
				}
			}
			if f.Embedded() && fieldsOf(f.Type()) != nil {
				next = v.Args[i]
			}
		}
		if next == nil {
			return nil, false
		}
		v = next
	}
	return nil, false
}

// evaluate calls each cause twice and yields what it shows. Helpers that
// trim or pad text fork; what is shown is then one of several values.
func (m *parseModel) evaluate(x *Exec, st *State, causes []*Val, at func(rule, f string, args ...any)) []*Val {
	res := make([]*Val, len(causes))
	for i, cl := range causes {
		if cl.Op != absint.OClosure && cl.Op != absint.OFunc {
			continue
		}
		var binds []*Val
		if cl.Op == absint.OClosure {
			binds = cl.Args
		}
		call := func(st *State) []*absint.Outcome {
			var live []*absint.Outcome
			for _, o := range x.RunClosure(cl.Fn, nil, binds, st) {
				if o.Panic != nil {
					at("C20.panic", "evaluating cause %d panics", i)
					continue
				}
				live = append(live, o)
			}
			return live
		}
		outs := call(st)
		if len(outs) == 0 {
			at("C20.cause", "cause %d cannot be evaluated", i)
		}
		for _, o := range outs {
			v := deepLoad(x, o.St, o.Res[0], 0)
			for _, o2 := range call(o.St) {
				if w := deepLoad(x, o2.St, o2.Res[0], 0); !x.SameVal(o2.St, v, w) {
					at("C20.stable", "cause %d is %s when the error is rendered and %s when it is rendered again", i, show(v), show(w))
				}
			}
			if res[i] != nil {
				v = x.U.Call("either", 0, v.Typ, res[i], v)
			}
			res[i] = v
		}
	}
	return res
}

// render decides that a parse error shows all of its causes.
func (c *Ctx) render(m *parseModel) {
	for _, t := range []types.Type{m.perrT, m.fatalT} {
		c.renderError(m, t)
	}
	c.renderTree()
	c.renderChain()
}

func (c *Ctx) renderError(m *parseModel, t types.Type) {
	fn := c.P.TypeMethod(t, "Error")
	if fn == nil {
		panic(missing("Error of " + t.String()))
	}
	x := c.Exec()
	u := x.U
	cons := typeName(t)
	errT := types.Universe.Lookup("error").Type()
	s := fieldsOf(m.perrT)
	var fs []*Val
	var causes []*Val
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if sg, ok := sl.Elem().Underlying().(*types.Signature); ok {
				for j := 0; j < errTerms; j++ {
					causes = append(causes, u.Sym(fmt.Sprintf("cause%d", j), sg))
				}
				fs = append(fs, u.List(causes...))
				continue
			}
		}
		fs = append(fs, u.Sym("p."+f.Name(), f.Type()))
	}
	if len(causes) == 0 {
		panic(missing("recorded causes of " + cons))
	}
	recv := u.Struct(m.perrT, fs...)
	if t == m.fatalT {
		s := fieldsOf(t)
		var fs []*Val
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), m.perrT) {
				fs = append(fs, recv)
			} else {
				fs = append(fs, u.Sym("f."+s.Field(i).Name(), s.Field(i).Type()))
			}
		}
		recv = u.Struct(t, fs...)
	}
	texts := make([]*Val, len(causes))
	errs := make([]*Val, len(causes))
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		if ci.Fn == nil && ci.Method == nil {
			for i, cl := range causes {
				if ci.FnVal == cl {
					k := fmt.Sprintf("asked%d", i)
					if _, ok := st.TS[k]; ok {
						x.Report(st, ci.Pos, "C20.once", "cause %d is evaluated more than once", i)
					}
					st.TS[k] = u.Int(1)
					errs[i] = u.Sym(fmt.Sprintf("err%d", i), errT)
					x.Assume(st, u.Eq(errs[i], u.Nil(nil)), false)
					texts[i] = u.Sym(fmt.Sprintf("text%d", i), types.Typ[types.String])
					return []absint.Out{{St: st, Val: errs[i]}}, true
				}
			}
			return nil, false
		}
		name := ""
		if ci.Fn != nil {
			name = ci.Fn.Name()
		}
		if ci.Method != nil {
			name = ci.Method.Name()
		}
		recv := ci.Recv
		if recv == nil && len(ci.Args) > 0 {
			recv = ci.Args[0]
		}
		idx := func(v *Val) int {
			for i, e := range errs {
				if e != nil && v != nil && (v == e || v.Mentions(e)) {
					return i
				}
			}
			return -1
		}
		// the text of a cause
		if name == "Error" && len(st.Frames) > 0 {
			if i := idx(recv); i >= 0 {
				return []absint.Out{{St: st, Val: texts[i]}}, true
			}
		}
		// a cause that is a parse error itself may add its own subtree
		if ci.Fn != nil && sameFuncOnStack(st, ci.Fn) {
			if i := idx(recv); i >= 0 {
				for _, a := range ci.Args {
					addToTree(x, st, a, texts[i])
				}
				res := ci.Fn.Signature.Results()
				if res.Len() == 0 {
					return []absint.Out{{St: st}}, true
				}
				return []absint.Out{{St: st, Val: u.Call("sub", 0, res.At(0).Type(), texts[i])}}, true
			}
		}
		// printing shows whatever the tree holds: decided separately
		if res := ci.Instr.Common().Signature().Results(); (name == "Print") && res.Len() == 1 {
			return []absint.Out{{St: st, Val: u.Call("printed", 0, res.At(0).Type(), deepLoad(x, st, recv, 0))}}, true
		}
		return nil, false
	}
	st := absint.NewState()
	outs := x.Run(fn, []*Val{recv}, st)
	n := 0
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "C20.panic", "rendering an error panics")
			continue
		}
		n++
		v := x.Reify(o.St, o.Res[0])
		for i := range causes {
			if _, ok := o.St.TS[fmt.Sprintf("asked%d", i)]; !ok {
				x.Report(o.St, o.Pos, "C20.shown", "cause %d is never asked for", i)
			} else if !v.Mentions(texts[i]) {
				x.Report(o.St, o.Pos, "C20.shown", "the text of cause %d is not part of the rendered error", i)
			}
		}
	}
	c.Check("C20.shown", cons, n > 0, fn.Pos(), "rendering has no outcome")
	c.Check("C20.once", cons, true, fn.Pos(), "")
	c.Done(x, "C20", cons+".Error", fn)
}

func sameFuncOnStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.Frames {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// addToTree models "the callee adds text to the tree it is handed".
func addToTree(x *Exec, st *State, tree, text *Val) {
	if tree.Op == absint.OIface {
		tree = tree.Args[0]
	}
	if tree.Op != absint.OAlloc {
		return
	}
	t := tree.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := fieldsOf(t)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			a := x.U.FieldAddr(tree, i, s.Field(i).Type())
			x.Store(st, a, x.U.Append(x.Load(st, a, s.Field(i).Type()), x.U.List(text)), s.Field(i).Type())
		}
	}
}

// deepLoad is the value with everything that its pointers lead to.
func deepLoad(x *Exec, st *State, v *Val, d int) *Val {
	if d > 12 || v == nil {
		return v
	}
	u := x.U
	switch v.Op {
	case absint.OIface:
		return u.Iface(v.Typ, deepLoad(x, st, v.Args[0], d+1))
	case absint.OAlloc:
		return u.Call("at", 0, nil, deepLoad(x, st, x.Load(st, v, nil), d+1))
	case absint.OStruct, absint.OList, absint.OAppend, absint.OTuple:
		as := make([]*Val, len(v.Args))
		for i, a := range v.Args {
			as[i] = deepLoad(x, st, a, d+1)
		}
		return u.Call("parts", 0, nil, as...)
	}
	r := x.Reify(st, v)
	if r != v {
		return deepLoad(x, st, r, d+1)
	}
	return v
}

// renderTree decides that printing a tree shows every item and line.
func (c *Ctx) renderTree() {
	treeI := c.Named("gotree", "Tree")
	var printT types.Type
	sp := c.P.SSA["gotree"]
	for _, mem := range sp.Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		if c.P.TypeMethod(types.NewPointer(t.Type()), "Print") != nil && types.Implements(types.NewPointer(t.Type()), iface(treeI)) {
			printT = types.NewPointer(t.Type())
		}
	}
	if printT == nil {
		panic(missing("implementation of gotree.Tree"))
	}
	fn := c.P.TypeMethod(printT, "Print")
	x := c.Exec()
	u := x.U
	st := absint.NewState()
	str := types.Typ[types.String]
	// a tree with three items, the second of which has items of its own
	items := make([]*Val, 3)
	for i := range items {
		items[i] = u.Sym(fmt.Sprintf("item%d", i), treeI)
		x.Assume(st, u.Eq(items[i], u.Nil(nil)), false)
	}
	sub := []*Val{u.Sym("sub0", treeI), u.Sym("sub1", treeI)}
	for _, s := range sub {
		x.Assume(st, u.Eq(s, u.Nil(nil)), false)
	}
	elem := printT.(*types.Pointer).Elem()
	s := fieldsOf(elem)
	if s == nil {
		panic(missing("fields of " + elem.String()))
	}
	var fs []*Val
	text := u.Sym("text", str)
	for i := 0; i < s.NumFields(); i++ {
		switch ft := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			fs = append(fs, text)
		case *types.Slice:
			_ = ft
			fs = append(fs, u.List(items...))
		default:
			fs = append(fs, u.Sym("tree."+s.Field(i).Name(), s.Field(i).Type()))
		}
	}
	obj := u.AllocTok(absint.OAlloc, "tree", printT)
	x.Store(st, obj, u.Struct(elem, fs...), elem)
	lines := func(t *Val) []*Val {
		return []*Val{u.Call("line", 0, str, t, u.Int(0)), u.Call("line", 0, str, t, u.Int(1))}
	}
	x.UnrollSym = 12
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		if ci.Fn != nil && ci.Method == nil && ci.Fn.RelString(nil) == "strings.Split" && len(ci.Args) == 2 {
			return []absint.Out{{St: st, Val: u.List(lines(ci.Args[0])...)}}, true
		}
		if ci.Method != nil && ci.Recv != nil && ci.Recv.Op == absint.OSym {
			switch ci.Method.Name() {
			case "Text":
				return []absint.Out{{St: st, Val: u.Call("textOf", 0, str, ci.Recv)}}, true
			case "Items":
				l := u.List()
				if ci.Recv == items[1] {
					l = u.List(sub...)
				}
				return []absint.Out{{St: st, Val: l}}, true
			}
		}
		// the recursive call on an item's own items
		if ci.Fn != nil && sameFuncOnStack(st, ci.Fn) && ci.Fn.Signature.Results().Len() == 1 {
			var parts []*Val
			for _, a := range ci.Args {
				parts = append(parts, x.Reify(st, a))
			}
			return []absint.Out{{St: st, Val: u.Call("recursive", 0, str, parts...)}}, true
		}
		return nil, false
	}
	outs := x.Run(fn, []*Val{obj}, st)
	n := 0
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "C20.panic", "printing a tree panics")
			continue
		}
		n++
		v := x.Reify(o.St, o.Res[0])
		need := func(w *Val, what string) {
			if !v.Mentions(w) {
				x.Report(o.St, o.Pos, "C20.print", "%s is not part of the printed tree", what)
			}
		}
		need(text, "the text of the tree")
		for i, it := range items {
			t := u.Call("textOf", 0, str, it)
			if v.Mentions(t) {
				for j, l := range lines(t) {
					if k := u.Call("line", 0, str, t, u.Int(0)); v.Mentions(k) {
						need(l, fmt.Sprintf("line %d of item %d", j, i))
					}
				}
			} else {
				need(t, fmt.Sprintf("item %d", i))
			}
		}
		for i, it := range sub {
			need(it, fmt.Sprintf("item %d of an item", i))
		}
	}
	c.Check("C20.print", "tree", n > 0, fn.Pos(), "printing has no outcome")
	c.Done(x, "C20", "tree", fn)
}

// renderChain decides that the chain of calls recorded in errors is finite,
// immutable and shown.
func (c *Ctx) renderChain() {
	// *call: the pointer type handed to Parse as its last argument
	pi := iface(c.Named("parser", "Parser"))
	var ct *types.Pointer
	for i := 0; i < pi.NumMethods(); i++ {
		if pi.Method(i).Name() == "Parse" {
			ps := pi.Method(i).Type().(*types.Signature).Params()
			ct, _ = ps.At(ps.Len() - 1).Type().(*types.Pointer)
		}
	}
	if ct == nil {
		panic(missing("the call chain parameter of Parse"))
	}
	elem := ct.Elem()
	s := fieldsOf(elem)
	next := -1
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), ct) {
			next = i
		}
	}
	if next < 0 {
		panic(missing("the link of " + elem.String()))
	}
	// methods that return a chain: a new element in front of an unchanged one
	ms := types.NewMethodSet(ct)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		fn := c.P.TypeMethod(ct, ms.At(i).Obj().Name())
		if fn == nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		x := c.Exec()
		u := x.U
		st := absint.NewState()
		var args []*Val
		switch {
		case types.Identical(fn.Signature.Results().At(0).Type(), ct):
			n++
			old := u.AllocTok(absint.OAlloc, "chain", ct)
			var fs []*Val
			for j := 0; j < s.NumFields(); j++ {
				fs = append(fs, u.Sym("old."+s.Field(j).Name(), s.Field(j).Type()))
			}
			was := u.Struct(elem, fs...)
			x.Store(st, old, was, elem)
			args = append(args, old)
			for _, p := range fn.Params[1:] {
				args = append(args, u.Sym(p.Name(), p.Type()))
			}
			for _, o := range x.Run(fn, args, st) {
				if o.Panic != nil {
					continue
				}
				if !x.SameVal(o.St, x.Load(o.St, old, elem), was) {
					x.Report(o.St, o.Pos, "C20.chain", "%s changes the chain that errors have recorded", relName(fn))
				}
				res := o.Res[0]
				if res == old {
					continue
				}
				if res.Op != absint.OAlloc {
					x.Report(o.St, o.Pos, "C20.chain", "%s returns %s instead of a new element", relName(fn), show(res))
					continue
				}
				if l := x.Load(o.St, u.FieldAddr(res, next, ct), ct); l != old {
					x.Report(o.St, o.Pos, "C20.chain", "%s links the new element to %s instead of the chain it was called on", relName(fn), show(l))
				}
			}
			c.Check("C20.chain", relName(fn), true, fn.Pos(), "")
			c.Done(x, "C20", relName(fn), fn)
		case fn.Name() == "Error":
			n++
			for size := 0; size <= 3; size++ {
				x := c.Exec()
				u := x.U
				x.UnrollSym = 12
				st := absint.NewState()
				chain := u.Nil(ct)
				var shown []*Val
				for k := 0; k < size; k++ {
					o := u.AllocTok(absint.OAlloc, fmt.Sprintf("call%d", k), ct)
					var fs []*Val
					for j := 0; j < s.NumFields(); j++ {
						if j == next {
							fs = append(fs, chain)
							continue
						}
						v := u.Sym(fmt.Sprintf("%s%d", s.Field(j).Name(), k), s.Field(j).Type())
						if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							shown = append(shown, v)
						}
						fs = append(fs, v)
					}
					x.Store(st, o, u.Struct(elem, fs...), elem)
					chain = o
				}
				outs := x.Run(fn, []*Val{chain}, st)
				for _, o := range outs {
					if o.Panic != nil {
						x.Report(o.St, o.Pos, "C20.panic", "%s panics on a chain of %d calls", relName(fn), size)
						continue
					}
					v := x.Reify(o.St, o.Res[0])
					for _, w := range shown {
						if !v.Mentions(w) {
							x.Report(o.St, o.Pos, "C20.chain", "%s does not show %s of a chain of %d calls", relName(fn), show(w), size)
						}
					}
				}
				c.Check("C20.chain", relName(fn), len(outs) > 0, fn.Pos(), "no outcome on a chain of %d calls", size)
				c.Done(x, "C20", relName(fn), fn)
			}
		}
	}
	c.Check("C20.chain", "methods", n >= 2, ct.Elem().(*types.Named).Obj().Pos(), "the chain's methods were not found")
	_ = strings.Join
}
