package rules

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

type scanModel struct {
	c               *Ctx
	t               types.Type
	src, start, len int
	text            map[string]int // the field with the text, per kind of source
}

func (m *scanModel) mk(u *absint.Universe, src, st, ln *Val) *Val {
	fs := make([]*Val, 3)
	fs[m.src], fs[m.start], fs[m.len] = src, st, ln
	return u.Struct(m.t, fs...)
}

func (m *scanModel) parts(u *absint.Universe, s *Val) (src, st, ln *Val) {
	f := fieldsOf(m.t)
	return u.Field(s, m.src, f.Field(m.src).Type()), u.Field(s, m.start, types.Typ[types.Int]), u.Field(s, m.len, types.Typ[types.Int])
}

// same compares two scanners field by field.
func (m *scanModel) same(x *Exec, st *State, a, b *Val) bool {
	u := x.U
	s1, o1, l1 := m.parts(u, a)
	s2, o2, l2 := m.parts(u, b)
	return x.SameVal(st, s1, s2) && x.ProveEq(st, o1, o2) && x.ProveEq(st, l1, l2)
}

// Scanner decides C06.
func (c *Ctx) Scanner() {
	m := &scanModel{c: c, t: c.Named("parser", "Scanner"), text: map[string]int{}}
	m.src, m.start, m.len = scannerFields(c)
	pt := types.NewPointer(m.t)
	intT := types.Typ[types.Int]
	strT := types.Typ[types.String]
	method := func(name string) *ssa.Function {
		f := c.P.TypeMethod(pt, name)
		if f == nil {
			f = c.P.TypeMethod(m.t, name)
		}
		if f == nil {
			panic(missing("Scanner." + name))
		}
		return f
	}
	recvOf := func(fn *ssa.Function, x *Exec, st *State, s *Val) *Val {
		if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
			a := x.U.Sym("s", pt)
			x.Store(st, a, s, m.t)
			return a
		}
		return s
	}
	entry := func(x *Exec, st *State) *Val {
		u := x.U
		src := u.Sym("src", fieldsOf(m.t).Field(m.src).Type())
		x.Assume(st, x.EqVal(src, u.Nil(nil)), false)
		return m.mk(u, src, u.Sym("start", intT), u.Sym("length", intT))
	}
	result := func(x *Exec, st *State, v *Val) *Val {
		if v.Typ != nil {
			if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
				return x.Load(st, v, m.t)
			}
		}
		if v.Op == absint.OAlloc {
			return x.Load(st, v, m.t)
		}
		return v
	}
	// Slice and Skip
	for _, name := range []string{"Slice", "Skip"} {
		fn := method(name)
		x := c.Exec()
		u := x.U
		st := absint.NewState()
		s := entry(x, st)
		src, start, ln := m.parts(u, s)
		a, b := u.Sym("a", intT), u.Sym("b", intT)
		args := []*Val{recvOf(fn, x, st, s), a}
		want := m.mk(u, src, u.Add(start, a), u.Sub(ln, a))
		if name == "Slice" {
			args = append(args, b)
			want = m.mk(u, src, u.Add(start, a), u.Sub(b, a))
		}
		x.Assume(st, u.Le(u.Int(0), a), true)
		x.Assume(st, u.Le(a, ln), true)
		if name == "Slice" {
			x.Assume(st, u.Le(a, b), true)
			x.Assume(st, u.Le(b, ln), true)
		}
		outs := x.Run(fn, args, st)
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C06.slice", "panics on a range inside the text")
				continue
			}
			if got := result(x, o.St, o.Res[0]); !m.same(x, o.St, got, want) {
				x.Report(o.St, o.Pos, "C06.slice", "yields %s instead of %s", show(got), show(want))
			}
		}
		c.Check("C06.slice", name, len(outs) > 0, fn.Pos(), "no outcome")
		c.Done(x, "C06", name, fn)
	}
	// Offset
	{
		fn := method("Offset")
		x := c.Exec()
		st := absint.NewState()
		s := entry(x, st)
		_, start, _ := m.parts(x.U, s)
		outs := x.Run(fn, []*Val{recvOf(fn, x, st, s)}, st)
		ok := len(outs) > 0
		for _, o := range outs {
			ok = ok && o.Panic == nil && x.ProveEq(o.St, o.Res[0], start)
		}
		c.Check("C06.offset", "Offset", ok, fn.Pos(), "does not yield the position in the source")
		c.Done(x, "C06", "Offset", fn)
	}
	// Eat
	{
		fn := method("Eat")
		x := c.Exec()
		u := x.U
		st := absint.NewState()
		s := entry(x, st)
		src, start, ln := m.parts(u, s)
		i := u.Sym("i", intT)
		x.Assume(st, u.Le(u.Int(0), i), true)
		x.Assume(st, u.Le(i, ln), true)
		sp, ep := u.Sym("s", pt), u.Sym("eaten", pt)
		x.Store(st, sp, s, m.t)
		outs := x.Run(fn, []*Val{sp, i, ep}, st)
		c.Check("C06.eat", "Eat", len(outs) > 0, fn.Pos(), "no outcome")
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C06.eat", "panics although enough text is left")
				continue
			}
			m.expect(x, o, "C06.eat", "the eaten piece", x.Load(o.St, ep, m.t), m.mk(u, src, start, i))
			m.expect(x, o, "C06.eat", "the rest", x.Load(o.St, sp, m.t), m.mk(u, src, u.Add(start, i), u.Sub(ln, i)))
		}
		c.Done(x, "C06", "Eat", fn)
	}
	// EatString
	{
		fn := method("EatString")
		x := c.Exec()
		u := x.U
		st := absint.NewState()
		s := entry(x, st)
		src, start, ln := m.parts(u, s)
		str := u.Sym("str", strT)
		sp, ep := u.Sym("s", pt), u.Sym("eaten", pt)
		x.Store(st, sp, s, m.t)
		e0 := x.Load(st, ep, m.t)
		view := m.viewKey(x, st, s)
		outs := x.Run(fn, []*Val{sp, str, ep}, st)
		hit, miss := 0, 0
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C06.eatstring", "panics")
				continue
			}
			b, known := x.Decide(o.St, o.Res[0])
			if !known {
				x.Report(o.St, o.Pos, "C06.eatstring", "cannot tell what is returned: %s", show(o.Res[0]))
				continue
			}
			pre, pk := m.prefixKnown(x, o.St, view, str)
			if b {
				hit++
				if !pk || !pre {
					x.Report(o.St, o.Pos, "C06.eatstring", "text is eaten although it may not start with the string")
				}
				n := u.Len(str)
				m.expect(x, o, "C06.eatstring", "the eaten piece", x.Load(o.St, ep, m.t), m.mk(u, src, start, n))
				m.expect(x, o, "C06.eatstring", "the rest", x.Load(o.St, sp, m.t), m.mk(u, src, u.Add(start, n), u.Sub(ln, n)))
			} else {
				miss++
				if !pk || pre {
					x.Report(o.St, o.Pos, "C06.eatstring", "the string is refused although the text may start with it")
				}
				m.expect(x, o, "C06.eatstring", "the input after a failed match", x.Load(o.St, sp, m.t), s)
				m.expect(x, o, "C06.eatstring", "the piece after a failed match", x.Load(o.St, ep, m.t), e0)
			}
		}
		c.Check("C06.eatstring", "EatString", hit > 0 && miss > 0, fn.Pos(), "match and mismatch are not both possible")
		c.Done(x, "C06", "EatString", fn)
	}
	// EatRegexp, by number of groups and of captures wanted
	fn := method("EatRegexp")
	hit, miss := 0, 0
	for groups := 0; groups <= 3; groups++ {
		for wanted := -1; wanted <= 3; wanted++ {
			for _, withMatch := range []bool{false, true} {
				x := c.Exec()
				u := x.U
				st := absint.NewState()
				s := entry(x, st)
				src, start, ln := m.parts(u, s)
				sp := u.Sym("s", pt)
				x.Store(st, sp, s, m.t)
				mp := u.Nil(nil)
				if withMatch {
					mp = u.Sym("match", pt)
					x.Assume(st, x.EqVal(mp, u.Nil(nil)), false)
				}
				caps := u.Nil(nil)
				var arr *Val
				if wanted >= 0 {
					at := types.NewArray(m.t, int64(wanted))
					arr = u.AllocTok(absint.OAlloc, "alloc.caps", types.NewPointer(at))
					x.Store(st, arr, u.Zero(at), at)
					caps = u.Slice(arr, u.Int(0), u.Int(int64(wanted)))
				}
				before := x.Reify(st, caps)
				_ = before
				re := u.Sym("re", fn.Signature.Params().At(0).Type())
				loc := make([]*Val, 2+2*groups)
				for i := range loc {
					loc[i] = u.Sym(fmt.Sprintf("loc%d", i), intT)
				}
				loc[0] = u.Int(0)
				view := m.viewKey(x, st, s)
				x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
					if ci.Fn == nil || ci.Fn.Signature.Recv() == nil || ci.Fn.Signature.Recv().Type().String() != "*regexp.Regexp" {
						return nil, false
					}
					if ci.Fn.Name() != "FindStringSubmatchIndex" {
						x.Report(st, ci.Pos, "C06.eatregexp", "matches by %s, whose result is not modelled", ci.Fn.Name())
						return nil, false
					}
					if !x.SameVal(st, ci.Args[1], view) {
						x.Report(st, ci.Pos, "C06.eatregexp", "the pattern is matched against %s instead of the text left", show(ci.Args[1]))
					}
					n := st.Clone()
					n.TS["!m"] = u.Str("no")
					st.TS["!m"] = u.Str("yes")
					x.Assume(st, u.Le(u.Int(0), loc[1]), true)
					x.Assume(st, u.Le(loc[1], ln), true)
					return []absint.Out{{St: st, Val: u.List(loc...)}, {St: n, Val: u.Nil(nil)}}, true
				}
				outs := x.Run(fn, []*Val{sp, re, mp, caps}, st)
				for _, o := range outs {
					if o.Panic != nil {
						x.Report(o.St, o.Pos, "C06.eatregexp", "panics with %d groups and %d captures wanted", groups, wanted)
						continue
					}
					yes := tsStr(o.St, "!m") == "yes"
					if okv, k := x.Decide(o.St, o.Res[1]); !k || okv != yes {
						x.Report(o.St, o.Pos, "C06.eatregexp", "reports %s when the pattern match is %v", show(o.Res[1]), yes)
						continue
					}
					if !yes {
						miss++
						m.expect(x, o, "C06.eatregexp", "the input after a failed match", x.Load(o.St, sp, m.t), s)
						if withMatch {
							m.expect(x, o, "C06.eatregexp", "the match after a failed match", x.Load(o.St, mp, m.t), u.Init(mp, m.t))
						}
						continue
					}
					hit++
					if !x.ProveEq(o.St, o.Res[0], u.Int(int64(groups))) {
						x.Report(o.St, o.Pos, "C06.eatregexp", "reports %s captures instead of %d", show(o.Res[0]), groups)
					}
					m.expect(x, o, "C06.eatregexp", "the rest", x.Load(o.St, sp, m.t), m.mk(u, src, u.Add(start, loc[1]), u.Sub(ln, loc[1])))
					if withMatch {
						m.expect(x, o, "C06.eatregexp", "the match", x.Load(o.St, mp, m.t), m.mk(u, src, start, loc[1]))
					}
					for i := 0; i < wanted && i < groups; i++ {
						got := x.Load(o.St, u.IndexAddr(arr, u.Int(int64(i)), pt), m.t)
						gs, ge := loc[2+2*i], loc[3+2*i]
						if neg, k := x.Decide(o.St, u.Le(u.Int(0), gs)); k && !neg {
							_, _, l := m.parts(u, got)
							if !x.ProveEq(o.St, l, u.Int(0)) {
								x.Report(o.St, o.Pos, "C06.capture", "a group that took no part is captured as %s", show(got))
							}
							continue
						}
						m.expect(x, o, "C06.capture", fmt.Sprintf("capture %d", i), got, m.mk(u, src, u.Add(start, gs), u.Sub(ge, gs)))
					}
				}
				c.Check("C06.capture", "EatRegexp", true, fn.Pos(), "")
				c.Done(x, "C06", "EatRegexp", fn)
			}
		}
	}
	c.Check("C06.eatregexp", "EatRegexp", hit > 0 && miss > 0, fn.Pos(), "match and mismatch are not both possible")
	m.merge()
	m.view()
	m.constructors()
}

func (m *scanModel) expect(x *Exec, o *absint.Outcome, rule, what string, got, want *Val) {
	if !m.same(x, o.St, got, want) {
		x.Report(o.St, o.Pos, rule, "%s is %s instead of %s", what, show(got), show(want))
	}
}

// viewKey is the text a scanner shows, as the engine sees it.
func (m *scanModel) viewKey(x *Exec, st *State, s *Val) *Val {
	u := x.U
	src, start, ln := m.parts(u, s)
	it := fieldsOf(m.t).Field(m.src).Type()
	meth := m.sliceMethod()
	_ = it
	return u.Call(meth.FullName(), 0, types.Typ[types.String], src, start, ln)
}

// sliceMethod is the source method yielding text for a position and a length.
func (m *scanModel) sliceMethod() *types.Func {
	i := iface(fieldsOf(m.t).Field(m.src).Type())
	for j := 0; j < i.NumMethods(); j++ {
		f := i.Method(j)
		s := f.Type().(*types.Signature)
		if s.Params().Len() == 2 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.String]) {
			return f
		}
	}
	panic(missing("the source method that yields text"))
}

// prefixKnown reports whether st settles that view starts with str.
func (m *scanModel) prefixKnown(x *Exec, st *State, view, str *Val) (bool, bool) {
	for f, v := range st.Facts {
		if !f.Mentions(view) || !f.Mentions(str) {
			continue
		}
		switch {
		case f.Op == absint.OCall && (f.Aux == "strings.HasPrefix" || f.Aux == "strings.CutPrefix"):
			if f.Args[0] == view && f.Args[1] == str {
				return v, true
			}
		case f.Op == absint.OCmp:
			if f.Args[0] == str || f.Args[1] == str {
				return v, true
			}
			z := x.U.Int(0)
			if f.Args[0] == z || f.Args[1] == z {
				return v, true
			}
		}
	}
	// too short
	if iv := x.Bounds(st, x.U.Sub(x.U.Len(view), x.U.Len(str))); iv.Hi < 0 {
		return false, true
	}
	return false, false
}

// merge: the smallest range covering up to four pieces.
func (m *scanModel) merge() {
	c := m.c
	fn := c.P.Func("parser", "MergeScanners")
	if fn == nil {
		panic(missing("MergeScanners"))
	}
	intT := types.Typ[types.Int]
	max := 3
	good, refused := 0, 0
	for n := 0; n <= max; n++ {
		x := c.Exec()
		x.UnrollSym = max + 1
		u := x.U
		st := absint.NewState()
		var items []*Val
		for i := 0; i < n; i++ {
			ln := u.Sym(fmt.Sprintf("len%d", i), intT)
			x.Assume(st, u.Le(u.Int(0), ln), true)
			items = append(items, m.mk(u, u.Sym(fmt.Sprintf("src%d", i), fieldsOf(m.t).Field(m.src).Type()), u.Sym(fmt.Sprintf("start%d", i), intT), ln))
		}
		outs := x.Run(fn, []*Val{u.List(items...)}, st)
		for _, o := range outs {
			bad := func(f string, a ...any) { x.Report(o.St, o.Pos, "C06.merge", f, a...) }
			if o.Panic != nil {
				bad("panics on %d pieces", n)
				continue
			}
			isNil, known := x.Decide(o.St, x.EqVal(o.Res[1], u.Nil(nil)))
			if !known {
				bad("cannot tell whether %s is an error", show(o.Res[1]))
				continue
			}
			// are all the sources the same on this path?
			same, differ := true, false
			for i := 1; i < n; i++ {
				s0, _, _ := m.parts(u, items[0])
				si, _, _ := m.parts(u, items[i])
				v, k := x.Decide(o.St, x.EqVal(s0, si))
				if !k || !v {
					same = false
				}
				if k && !v {
					differ = true
				}
			}
			if !isNil {
				refused++
				if n > 0 && !differ {
					bad("%d pieces are refused although their sources agree", n)
				}
				continue
			}
			good++
			if n == 0 {
				bad("merging nothing succeeds")
				continue
			}
			if !same {
				bad("pieces of different sources are merged")
				continue
			}
			gs, gst, gl := m.parts(u, o.Res[0])
			if s0, _, _ := m.parts(u, items[0]); !x.SameVal(o.St, gs, s0) {
				bad("the result belongs to %s", show(gs))
			}
			end := u.Add(gst, gl)
			atS, atE := false, false
			for _, it := range items {
				_, s, l := m.parts(u, it)
				e := u.Add(s, l)
				if !x.Known(o.St, u.Le(gst, s), true) {
					bad("the result may start after one of the pieces")
				}
				if !x.Known(o.St, u.Le(e, end), true) {
					bad("the result may end before one of the pieces")
				}
				atS = atS || x.ProveEq(o.St, gst, s)
				atE = atE || x.ProveEq(o.St, end, e)
			}
			if !atS || !atE {
				bad("the result is larger than needed")
			}
		}
		c.Done(x, "C06", "MergeScanners", fn)
	}
	c.Check("C06.merge", "MergeScanners", good > 0 && refused > 0, fn.Pos(), "success and refusal are not both possible")
}

// view: the text shown is the one at the position in the source.
func (m *scanModel) view() {
	c := m.c
	fn := c.P.TypeMethod(m.t, "String")
	if fn == nil {
		panic(missing("Scanner.String"))
	}
	x := c.Exec()
	u := x.U
	s := u.Sym("s", m.t)
	src, start, ln := m.parts(u, s)
	st := absint.NewState()
	meth := m.sliceMethod()
	x.Assume(st, x.EqVal(src, u.Nil(nil)), false)
	outs := x.Run(fn, []*Val{s}, st)
	c.Check("C06.view", "Scanner.String", len(outs) > 0, fn.Pos(), "no outcome")
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "C06.view", "panics")
			continue
		}
		want := u.Call(meth.FullName(), 0, types.Typ[types.String], src, start, ln)
		if !x.SameVal(o.St, o.Res[0], want) {
			x.Report(o.St, o.Pos, "C06.view", "shows %s", show(o.Res[0]))
		}
	}
	c.Done(x, "C06", "Scanner.String", fn)
	// every source kind
	sp := c.P.SSA["parser"]
	n := 0
	for _, mem := range sp.Members {
		t, ok := mem.(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) || !types.Implements(t.Type(), iface(fieldsOf(m.t).Field(m.src).Type())) {
			continue
		}
		n++
		f := c.P.TypeMethod(t.Type(), meth.Name())
		x := c.Exec()
		u := x.U
		str := -1
		fs := fieldsOf(t.Type())
		recv := u.Sym("s", t.Type())
		off, l := u.Sym("off", types.Typ[types.Int]), u.Sym("len", types.Typ[types.Int])
		st := absint.NewState()
		// the text is the field whose length the source reports
		if lf := c.P.TypeMethod(t.Type(), "length"); lf != nil {
			for _, o := range x.Run(lf, []*Val{recv}, absint.NewState()) {
				for i := 0; i < fs.NumFields(); i++ {
					if o.Panic == nil && o.Res[0] == u.Len(u.Field(recv, i, fs.Field(i).Type())) {
						str = i
					}
				}
			}
		}
		cons := typeName(t.Type()) + "." + meth.Name()
		if str < 0 {
			c.Fail("C06.view", cons, "cannot find the text of the source")
			continue
		}
		m.text[typeName(t.Type())] = str
		text := u.Field(recv, str, fs.Field(str).Type())
		x.Assume(st, u.Le(u.Int(0), off), true)
		x.Assume(st, u.Le(u.Int(0), l), true)
		x.Assume(st, u.Le(u.Add(off, l), u.Len(text)), true)
		outs := x.Run(f, []*Val{recv, off, l}, st)
		c.Check("C06.view", cons, len(outs) > 0, f.Pos(), "no outcome")
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C06.view", "panics on a range inside the text")
				continue
			}
			if want := u.Slice(text, off, u.Add(off, l)); !x.SameVal(o.St, x.Norm(o.St, o.Res[0]), x.Norm(o.St, want)) {
				x.Report(o.St, o.Pos, "C06.view", "yields %s instead of %s", show(o.Res[0]), show(want))
			}
		}
		c.Done(x, "C06", cons, f)
	}
	c.Check("C06.sources", "parser", n > 0, fn.Pos(), "no kind of source found")
}

func (m *scanModel) constructors() {
	c := m.c
	for _, name := range []string{"NewScanner", "NewScannerWithFilename", "NewScannerAt"} {
		fn := c.P.Func("parser", name)
		if fn == nil {
			panic(missing(name))
		}
		x := c.Exec()
		u := x.U
		text := u.Sym("text", types.Typ[types.String])
		args := []*Val{text}
		wantSt, wantLn := u.Int(0), u.Len(text)
		switch name {
		case "NewScannerWithFilename":
			args = append(args, u.Sym("file", types.Typ[types.String]))
		case "NewScannerAt":
			wantSt, wantLn = u.Sym("offset", types.Typ[types.Int]), u.Sym("size", types.Typ[types.Int])
			args = append(args, wantSt, wantLn)
		}
		outs := x.Run(fn, args, absint.NewState())
		c.Check("C06.new", name, len(outs) > 0, fn.Pos(), "no outcome")
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C06.new", "panics")
				continue
			}
			s := x.Load(o.St, o.Res[0], m.t)
			src, st, ln := m.parts(u, s)
			if !x.ProveEq(o.St, st, wantSt) || !x.ProveEq(o.St, ln, wantLn) || !m.holds(u, src, text) {
				x.Report(o.St, o.Pos, "C06.new", "yields %s, which is not the text asked for", show(s))
			}
		}
		c.Done(x, "C06", name, fn)
	}
}

// holds reports whether the source src holds exactly text.
func (m *scanModel) holds(u *absint.Universe, src, text *Val) bool {
	if src.Op != absint.OIface {
		return false
	}
	i, ok := m.text[typeName(src.Typ)]
	return ok && u.Field(src.Args[0], i, fieldsOf(src.Typ).Field(i).Type()) == text
}
