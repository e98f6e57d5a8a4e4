package rules

import (
	"go/types"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C05", Run: func(c *Ctx) { c.TopLevel() }, Technique: absTechnique, MinObl: 8,
		Covers: "Parsers.ParseWithExternals, Parse and MustParse are interpreted with the start rule's parser replaced by its contract (fails with some error, or succeeds and leaves the input anywhere): the parser run is the one registered for the rule; a nil error is returned only when nothing is left, with exactly the tree produced; left-over input gives an unconsumed-input error holding the tree and the input as the parser left it, and only then; a parser failure is returned as it is with no tree; an unknown rule is an error; MustParse panics exactly when Parse reports an error."})
	register(&Prop{ID: "C06", Run: func(c *Ctx) { c.Scanner() }, Technique: absTechnique, MinObl: 12,
		Covers: "Every Scanner operation that cuts text out of a source (Slice, Skip, Eat, EatString, EatRegexp, String, MergeScanners, the constructors and the string source behind them) is interpreted with symbolic offsets and lengths and compared with the exact slice it stands for. Capture groups and merged pieces are enumerated up to 3 and 4 elements with symbolic positions; everything else is unbounded."})
}

// TopLevel decides C05.
func (c *Ctx) TopLevel() {
	m := c.parseModel()
	parsersT := c.Named("parser", "Parsers")
	errT := c.Named("parser", "UnconsumedInputError")
	pf := -1
	fs := fieldsOf(parsersT)
	for i := 0; i < fs.NumFields(); i++ {
		if mt, ok := fs.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(mt.Elem(), m.parserI) {
			pf = i
		}
	}
	if pf < 0 {
		panic(missing("the rule table of Parsers"))
	}
	for _, name := range []string{"ParseWithExternals", "Parse", "MustParse"} {
		fn := c.P.TypeMethod(parsersT, name)
		if fn == nil {
			panic(missing("Parsers." + name))
		}
		x := c.Exec()
		u := x.U
		p := u.Sym("p", parsersT)
		rule := u.Sym("rule", c.Named("parser", "Rule"))
		input := u.Sym("input", types.NewPointer(m.scannerT))
		tree := u.Tok("tree", m.teT)
		perr := u.Tok("err", nil)
		table := u.Field(p, pf, fs.Field(pf).Type())
		var scannerView = func(st *absint.State, s *Val) (empty, known bool) { // is nothing left of s?
			ln := u.Field(s, scannerLenField(c), types.Typ[types.Int])
			if iv := x.Bounds(st, ln); iv.Hi <= 0 {
				return true, true
			} else if iv.Lo > 0 {
				return false, true
			}
			for f, v := range st.Facts {
				if f.Op == absint.OCmp && f.Mentions(u.Field(s, scannerSrcField(c), nil)) {
					a, b := f.Args[0], f.Args[1]
					if a.IsNil() || b.IsNil() {
						if v {
							return true, true
						}
						continue // source present: not settled
					}
					if e, ok := a.StrConst(); ok && e == "" {
						return v, true
					}
					if e, ok := b.StrConst(); ok && e == "" {
						return v, true
					}
				}
			}
			// comparisons of the text's length
			for f, iv := range st.Ivl {
				if f.Op == absint.OLen && f.Mentions(u.Field(s, scannerSrcField(c), nil)) {
					if iv.Hi <= 0 {
						return true, true
					}
					if iv.Lo > 0 {
						return false, true
					}
				}
			}
			return false, false
		}
		ran := 0
		x.Hooks.Call = func(x *Exec, st *absint.State, ci *absint.CallInfo) ([]absint.Out, bool) {
			recv, args, ok := m.isParse(ci)
			if !ok {
				return nil, false
			}
			ran++
			if recv == nil {
				recv = ci.Args[0]
			}
			want := u.Lookup(table, rule, 0, m.parserI)
			if !x.SameVal(st, recv, want) {
				x.Report(st, ci.Pos, "C05.rule", "runs %s instead of the start rule's parser", show(recv))
			}
			if has := u.Lookup(table, rule, 1, types.Typ[types.Bool]); !x.Known(st, has, true) && !x.Known(st, x.EqVal(recv, u.Nil(nil)), false) {
				x.Report(st, ci.Pos, "C05.unknown", "the start rule's parser is run although the rule may not exist")
			}
			if !x.SameVal(st, x.Load(st, args[1], m.scannerT), u.Init(input, m.scannerT)) {
				x.Report(st, ci.Pos, "C05.input", "parsing starts at %s instead of the input given", show(x.Load(st, args[1], m.scannerT)))
			}
			ok2 := st.Clone()
			rest := u.Tok("rest", m.scannerT)
			x.Store(ok2, args[1], rest, m.scannerT)
			x.Store(ok2, args[2], tree, m.teT)
			ok2.TS["!parsed"] = u.Str("ok")
			ok2.TS["rest"] = rest
			ok2.Note(ci.Pos, "the start rule matches")
			x.Store(st, args[1], u.Tok("failpos", m.scannerT), m.scannerT)
			x.Store(st, args[2], u.Tok("junk", m.teT), m.teT)
			st.TS["!parsed"] = u.Str("fail")
			st.Note(ci.Pos, "the start rule fails")
			x.Assume(st, u.Eq(perr, u.Nil(nil)), false)
			return []absint.Out{{St: ok2, Val: u.Nil(nil)}, {St: st, Val: perr}}, true
		}
		args := []*Val{p, rule, input}
		if name == "ParseWithExternals" {
			args = append(args, u.Sym("exts", fn.Signature.Params().At(2).Type()))
		}
		outs := x.Run(fn, args, absint.NewState())
		good := 0
		for _, o := range outs {
			st := o.St
			bad := func(r, f string, a ...any) { x.Report(st, o.Pos, "C05."+r, f, a...) }
			phase := tsStr(st, "!parsed")
			must := name == "MustParse"
			if o.Panic != nil {
				if phase == "" && x.Known(st, u.Lookup(table, rule, 1, types.Typ[types.Bool]), false) {
					if !must {
						bad("unknown", "an unknown rule panics")
					}
					continue
				}
				if phase == "" {
					continue // setting up the externals may panic
				}
				if !must {
					bad("panic", "panics after the rule was run")
					continue
				}
				if phase == "ok" {
					if e, k := scannerView(st, st.TS["rest"]); !k || e {
						bad("must", "panics although the parse consumed everything")
					}
				}
				continue
			}
			var res, err *Val
			res = o.Res[0]
			if must {
				err = u.Nil(nil)
			} else {
				err = o.Res[1]
			}
			isNil, known := x.Decide(st, x.EqVal(err, u.Nil(nil)))
			if !known {
				bad("undecided", "cannot tell whether %s is an error", show(err))
				continue
			}
			switch {
			case phase == "":
				if isNil {
					bad("unknown", "success is reported without running the rule")
				}
				if !must && !res.IsNil() {
					bad("unknown", "a tree is returned without running the rule")
				}
			case phase == "fail":
				if isNil {
					bad("fail", "success is reported although the rule failed")
				} else {
					if !x.SameVal(st, err, perr) {
						bad("fail", "the rule's error is replaced by %s", show(err))
					}
					if !res.IsNil() {
						bad("fail", "a tree (%s) is returned although the rule failed", show(res))
					}
				}
			case phase == "ok" && isNil:
				good++
				if !x.SameVal(st, res, tree) {
					bad("tree", "returns %s instead of the tree the rule produced", show(res))
				}
				if e, k := scannerView(st, st.TS["rest"]); !k || !e {
					bad("consumed", "success is reported although input may be left over")
				}
			case phase == "ok":
				if e, k := scannerView(st, st.TS["rest"]); !k || e {
					bad("spurious", "an error is reported although the rule matched and nothing is left over")
				}
				if err.Op != absint.OIface || !types.Identical(err.Typ, errT) {
					bad("residue", "left-over input is reported as %s", show(err))
					break
				}
				ev := err.Args[0]
				efs := fieldsOf(errT)
				for i := 0; i < efs.NumFields(); i++ {
					f := u.Field(ev, i, efs.Field(i).Type())
					switch {
					case types.Identical(efs.Field(i).Type(), m.scannerT):
						if !x.SameVal(st, f, st.TS["rest"]) {
							bad("residue", "the unconsumed input is given as %s", show(f))
						}
					case types.Identical(efs.Field(i).Type(), m.teT):
						if !x.SameVal(st, f, tree) {
							bad("residue", "the error carries %s instead of the tree", show(f))
						}
					}
				}
			}
		}
		c.Check("C05.success", name, good > 0, fn.Pos(), "no path succeeds")
		c.Check("C05.run", name, ran > 0, fn.Pos(), "the rule is never run")
		for _, r := range []string{"consumed", "residue", "fail", "unknown"} {
			c.Check("C05."+r, name, true, fn.Pos(), "")
		}
		c.Done(x, "C05", name, fn)
	}
	// what the error hands out is what it was given
	for i, name := range []string{"Result", "Residue"} {
		fn := c.P.TypeMethod(errT, name)
		if fn == nil {
			panic(missing("UnconsumedInputError." + name))
		}
		x := c.Exec()
		u := x.U
		e := u.Sym("e", errT)
		outs := x.Run(fn, []*Val{e}, absint.NewState())
		efs := fieldsOf(errT)
		for _, o := range outs {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C05.accessor", "panics")
				continue
			}
			got := o.Res[0]
			want := m.teT
			if i == 1 {
				got = x.Load(o.St, got, m.scannerT)
				want = m.scannerT
			}
			ok := false
			for j := 0; j < efs.NumFields(); j++ {
				if types.Identical(efs.Field(j).Type(), want) && x.SameVal(o.St, got, u.Field(e, j, want)) {
					ok = true
				}
			}
			if !ok {
				x.Report(o.St, o.Pos, "C05.accessor", "yields %s", show(got))
			}
		}
		c.Check("C05.accessor", name, len(outs) > 0, fn.Pos(), "no outcome")
		c.Done(x, "C05", name, fn)
	}
}

func scannerFields(c *Ctx) (src, start, length int) {
	t := c.Named("parser", "Scanner")
	s := fieldsOf(t)
	src, length = -1, -1
	start = (&parseRun{c: c}).startField()
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if types.IsInterface(ft) {
			src = i
		} else if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Int && i != start {
			length = i
		}
	}
	if src < 0 || length < 0 || s.NumFields() != 3 {
		panic(missing("source, offset and length of Scanner"))
	}
	return
}

func scannerLenField(c *Ctx) int { _, _, l := scannerFields(c); return l }
func scannerSrcField(c *Ctx) int { s, _, _ := scannerFields(c); return s }
