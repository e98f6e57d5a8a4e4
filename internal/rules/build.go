package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func constStringVal(c *ssa.Const) string { return constant.StringVal(c.Value) }

// buildModel knows the functions that turn the syntax tree of a grammar text
// into terms. They are told apart by their signatures.
type buildModel struct {
	c        *Ctx
	of       map[string]*ssa.Function // syntax node type -> the function giving its term
	nodeOf   map[*ssa.Function]string
	param    map[*ssa.Function]int // index of the syntax node argument
	grammar  *ssa.Function         // whole tree -> rules
	gparam   int
	fromAst  *ssa.Function
	unquote  map[*ssa.Function]bool // decoders of string literals
	cut      *ssa.Function
	rebuild  *ssa.Function
	builderT types.Type
}

var buildNames = map[string]string{"AtomNode": "buildAtom", "NamedNode": "buildNamed", "QuantNode": "buildQuant",
	"TermNode": "buildTerm", "ProdNode": "buildProd", "MacrocallNode": "expandMacro"}

func (c *Ctx) buildModel() *buildModel {
	m := &buildModel{c: c, of: map[string]*ssa.Function{}, nodeOf: map[*ssa.Function]string{}, param: map[*ssa.Function]int{}}
	termI := c.Named("parser", "Term")
	grammarT := c.Named("parser", "Grammar")
	nodeI := c.Named("ast", "Node")
	m.fromAst = c.P.Func("wbnf", "NewFromAst")
	if m.fromAst == nil {
		panic(missing("wbnf.NewFromAst"))
	}
	var grammars, cuts []*ssa.Function
	for _, f := range c.allFuncs() {
		if f.Pkg == nil || f.Pkg != c.P.SSA["wbnf"] || f.Parent() != nil || f == m.fromAst {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() != 1 {
			continue
		}
		res := sig.Results().At(0).Type()
		ps := f.Params
		switch {
		case types.Identical(res, termI):
			for i, p := range ps {
				t := p.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				want, known := buildNames[typeName(t)]
				if !known || !isNodeWrapper(t) {
					continue
				}
				old := m.of[typeName(t)]
				if old == nil || f.Name() == want {
					if old != nil {
						delete(m.nodeOf, old)
					}
					if old == nil || old.Name() != want {
						m.of[typeName(t)], m.nodeOf[f], m.param[f] = f, typeName(t), i
					}
				}
			}
		case types.Identical(res, grammarT):
			n := 0
			for i, p := range ps {
				if types.Identical(p.Type(), nodeI) || typeName(p.Type()) == "GrammarNode" {
					n++
					m.gparam = i
				}
			}
			if n == 1 {
				grammars = append(grammars, f)
				continue
			}
			if len(ps) == 1 && types.Identical(ps[0].Type(), grammarT) {
				cuts = append(cuts, f)
			}
			if len(ps) == 2 && types.Identical(ps[0].Type(), grammarT) {
				if _, ok := ps[1].Type().Underlying().(*types.Signature); ok {
					m.rebuild = f
				}
			}
		}
	}
	pick := func(fs []*ssa.Function, name, what string) *ssa.Function {
		for _, f := range fs {
			if f.Name() == name {
				return f
			}
		}
		if len(fs) != 1 {
			panic(missing(what))
		}
		return fs[0]
	}
	m.grammar = pick(grammars, "buildGrammar", "the function that builds the rules of a syntax tree")
	for i, p := range m.grammar.Params {
		if types.Identical(p.Type(), nodeI) || typeName(p.Type()) == "GrammarNode" {
			m.gparam = i
		}
	}
	m.cut = pick(cuts, "insertCutPoints", "the function that inserts cut points")
	if m.rebuild == nil {
		panic(missing("the function that rewrites a grammar"))
	}
	m.unquote = map[*ssa.Function]bool{}
	for _, f := range c.decoders() {
		m.unquote[f] = true
	}
	if len(m.unquote) == 0 {
		panic(missing("the function that reads string literals"))
	}
	for n := range buildNames {
		if m.of[n] == nil {
			panic(missing("the function that gives the term of a " + n))
		}
	}
	if r := recvType(m.of["TermNode"]); r != nil {
		m.builderT = r
	}
	return m
}

// nodeArg is the ast.Node inside a syntax node argument.
func (m *buildModel) nodeArg(x *Exec, st *State, v *Val, t types.Type) *Val {
	if pt, ok := t.(*types.Pointer); ok {
		v = x.Load(st, v, pt.Elem())
		t = pt.Elem()
	}
	if types.IsInterface(t) {
		return v
	}
	return x.U.Field(v, 0, m.c.Named("ast", "Node"))
}

// buildRun is one interpretation of one of those functions.
type buildRun struct {
	*astModel
	m      *buildModel
	gb     *Val // the builder, when there is one
	nested func(st *State, fn *ssa.Function, ci *absint.CallInfo) ([]absint.Out, bool)
}

func (m *buildModel) run() *buildRun {
	r := &buildRun{astModel: m.c.astModel(), m: m}
	r.x.UnrollSym = 12
	r.x.Hooks.Call = r.hook
	return r
}

func (r *buildRun) built(node string, n *Val) *Val {
	return r.u.Call("term:"+node, 0, r.termI, n)
}

func (r *buildRun) hook(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
	if outs, ok := r.readText(st, ci); ok {
		return outs, true
	}
	fn := ci.Fn
	if fn == nil {
		return nil, false
	}
	if r.nested != nil {
		if outs, ok := r.nested(st, fn, ci); ok {
			return outs, true
		}
	}
	sameBuilder := func() {
		if r.gb != nil && fn.Signature.Recv() != nil && types.Identical(ci.Args[0].TypeOr(), r.m.builderT) && !same(x, st, ci.Args[0], r.gb) {
			x.Report(st, ci.Pos, "build.macros", "part of the grammar is built with other macros (%s)", show(ci.Args[0]))
		}
	}
	one := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	if n, ok := r.m.nodeOf[fn]; ok {
		sameBuilder()
		i := r.m.param[fn]
		node := r.m.nodeArg(x, st, ci.Args[i], fn.Params[i].Type())
		args := []*Val{node}
		for j, a := range ci.Args {
			if j != i && !(j == 0 && fn.Signature.Recv() != nil) {
				args = append(args, a)
			}
		}
		v := r.u.Call("term:"+n, 0, r.termI, args...)
		x.Assume(st, x.EqVal(v, r.u.Nil(nil)), false)
		return one(v)
	}
	switch fn {
	case r.m.grammar:
		sameBuilder()
		return one(r.u.Call("rules", 0, r.grammarT, r.m.nodeArg(x, st, ci.Args[r.m.gparam], fn.Params[r.m.gparam].Type())))
	case r.m.cut:
		return one(r.u.Call("cut", 0, r.grammarT, x.Reify(st, ci.Args[0])))
	}
	if r.m.unquote[fn] {
		return one(r.u.Call("unquote", 0, types.Typ[types.String], ci.Args[0]))
	}
	return nil, false
}

// scen is one shape of a syntax node with the term it has to yield.
type scen struct {
	name   string
	rule   string // obligation prefix
	kids   func(r *buildRun, st *State) []kid
	want   func(r *buildRun, st *State) *Val
	extra  *Val
	check  func(r *buildRun, o *absint.Outcome) string // instead of want
	mayErr func(r *buildRun, st *State) bool           // whether a panic is in order
}

func seqTok(r *buildRun, st *State, n int) []*Val {
	var out []*Val
	for i := 0; i < n; i++ {
		out = append(out, r.opaque(st, fmt.Sprintf("e%d", i)))
	}
	return out
}

// Build decides what the functions that read a grammar's syntax tree yield.
func (c *Ctx) Build() {
	m := c.buildModel()
	for _, s := range buildScens() {
		for _, sc := range s.scens {
			m.scenario(s.node, sc)
		}
	}
	m.grammarRules()
	m.macros()
	m.fromTree()
}

func (m *buildModel) scenario(node string, sc scen) {
	r := m.run()
	x, u := r.x, r.u
	fn := m.of[node]
	st := absint.NewState()
	n := r.node(st, sc.kids(r, st)...)
	args := make([]*Val, len(fn.Params))
	prev := u.Sym("operand", r.termI)
	for i, p := range fn.Params {
		switch {
		case i == m.param[fn]:
			args[i] = m.wrap(r, st, n, p.Type())
		case i == 0 && fn.Signature.Recv() != nil:
			r.gb = u.Sym("builder", p.Type())
			args[i] = r.gb
		case types.Identical(p.Type(), r.termI):
			args[i] = prev
		default:
			args[i] = u.Sym(p.Name(), p.Type())
		}
	}
	cons := node + "." + sc.name
	good := 0
	for _, o := range x.Run(fn, args, st) {
		if o.Panic != nil {
			if sc.mayErr == nil || !sc.mayErr(r, o.St) {
				x.Report(o.St, o.Pos, sc.rule, "this form of %s makes the builder panic", node)
			}
			continue
		}
		got := x.Reify(o.St, o.Res[0])
		if sc.check != nil {
			if msg := sc.check(r, o); msg != "" {
				x.Report(o.St, o.Pos, sc.rule, "%s", msg)
			} else {
				good++
			}
			continue
		}
		want := sc.want(r, o.St)
		if !same(x, o.St, got, want) {
			x.Report(o.St, o.Pos, sc.rule, "yields %s instead of %s", show(got), show(want))
		} else {
			good++
		}
	}
	m.c.Check(sc.rule, cons, good > 0, fn.Pos(), "no term is produced for this form")
	m.c.Done(x, sc.rule, cons, fn)
}

func (m *buildModel) wrap(r *buildRun, st *State, n *Val, t types.Type) *Val {
	if pt, ok := t.(*types.Pointer); ok {
		a := r.u.AllocTok(absint.OAlloc, "node", t)
		r.x.Store(st, a, r.u.Struct(pt.Elem(), n), pt.Elem())
		return a
	}
	if types.IsInterface(t) {
		return n
	}
	return r.u.Struct(t, n)
}

type nodeScens struct {
	node  string
	scens []scen
}

func buildScens() []nodeScens {
	str := types.Typ[types.String]
	operand := func(r *buildRun) *Val { return r.u.Sym("operand", r.termI) }
	kidsOf := func(ks ...func(r *buildRun, st *State) kid) func(r *buildRun, st *State) []kid {
		return func(r *buildRun, st *State) []kid {
			var out []kid
			for _, k := range ks {
				out = append(out, k(r, st))
			}
			return out
		}
	}
	op := func(name string) func(r *buildRun, st *State) kid {
		return func(r *buildRun, st *State) kid { return one(name, r.opaque(st, name)) }
	}
	tok := func(name, text string) func(r *buildRun, st *State) kid {
		return func(r *buildRun, st *State) kid { return one(name, r.token(st, text)) }
	}
	ch := func(i int) func(r *buildRun, st *State) kid {
		return func(r *buildRun, st *State) kid { return r.choice(i) }
	}
	lits := func(ts ...string) func(r *buildRun, st *State) kid {
		return func(r *buildRun, st *State) kid {
			var ls []*Val
			for _, t := range ts {
				ls = append(ls, r.leaf(t))
			}
			if len(ls) == 1 {
				return one("", ls[0])
			}
			return many("", ls...)
		}
	}
	at := func(r *buildRun, name string) *Val { return r.u.Sym(name, r.nodeI) }
	var out []nodeScens

	// name=atom
	named := []scen{
		{name: "bare", rule: "build.named", kids: kidsOf(op("atom")), want: func(r *buildRun, st *State) *Val {
			return r.built("AtomNode", at(r, "atom"))
		}},
		{name: "named", rule: "build.named", kids: kidsOf(op("IDENT"), tok("op", "="), op("atom")), want: func(r *buildRun, st *State) *Val {
			return r.term("Named", map[string]*Val{"Name": r.textOf(at(r, "IDENT")), "Term": r.built("AtomNode", at(r, "atom"))})
		}},
	}
	out = append(out, nodeScens{"NamedNode", named})

	// atoms
	atom := []scen{
		{name: "IDENT", rule: "build.atom", kids: kidsOf(ch(0), op("IDENT")), want: func(r *buildRun, st *State) *Val {
			return r.termOf("Rule", r.textOf(at(r, "IDENT")))
		}},
		{name: "STR", rule: "build.atom", kids: kidsOf(ch(1), op("STR")), want: func(r *buildRun, st *State) *Val {
			return r.termOf("S", r.u.Call("unquote", 0, str, r.textOf(at(r, "STR"))))
		}},
		{name: "RE", rule: "build.atom", kids: kidsOf(ch(2), op("RE")), check: func(r *buildRun, o *absint.Outcome) string {
			got := r.x.Reify(o.St, o.Res[0])
			if got.Op != absint.OIface || !types.Identical(got.Typ, r.c.Named("parser", "RE")) {
				return "a regular expression becomes " + show(got)
			}
			return r.regex(o.St, got.Args[0], r.textOf(at(r, "RE")))
		}},
		{name: "macrocall", rule: "build.atom", kids: kidsOf(ch(3), op("macrocall")), want: func(r *buildRun, st *State) *Val {
			return r.built("MacrocallNode", at(r, "macrocall"))
		}},
		{name: "ExtRef", rule: "build.atom", kids: func(r *buildRun, st *State) []kid {
			return []kid{r.choice(4), one("ExtRef", r.node(st, one("", r.leaf("%%")), one("IDENT", r.opaque(st, "IDENT"))))}
		}, want: func(r *buildRun, st *State) *Val {
			return r.termOf("ExtRef", r.textOf(at(r, "IDENT")))
		}},
		{name: "REF", rule: "build.atom", kids: func(r *buildRun, st *State) []kid {
			return []kid{r.choice(5), one("REF", r.node(st, one("", r.leaf("%")), one("IDENT", r.opaque(st, "IDENT"))))}
		}, want: func(r *buildRun, st *State) *Val {
			return r.term("REF", map[string]*Val{"Ident": r.textOf(at(r, "IDENT")), "Default": r.u.Nil(nil)})
		}},
		{name: "REF.default", rule: "build.atom", kids: func(r *buildRun, st *State) []kid {
			return []kid{r.choice(5), one("REF", r.node(st, many("", r.leaf("%"), r.leaf("=")), one("IDENT", r.opaque(st, "IDENT")), one("default", r.opaque(st, "STR"))))}
		}, want: func(r *buildRun, st *State) *Val {
			return r.term("REF", map[string]*Val{"Ident": r.textOf(at(r, "IDENT")),
				"Default": r.termOf("S", r.u.Call("unquote", 0, str, r.textOf(at(r, "STR"))))})
		}},
		{name: "lookahead", rule: "build.atom", kids: kidsOf(ch(6), lits("(?=", ")"), op("lookahead")), want: func(r *buildRun, st *State) *Val {
			return r.term("LookAhead", map[string]*Val{"Term": r.built("TermNode", at(r, "lookahead"))})
		}},
		{name: "term", rule: "build.atom", kids: kidsOf(ch(7), lits("(", ")"), op("term")), want: func(r *buildRun, st *State) *Val {
			return r.built("TermNode", at(r, "term"))
		}},
		{name: "empty", rule: "build.atom", kids: kidsOf(ch(8), lits("(", ")")), want: func(r *buildRun, st *State) *Val {
			return r.termOf("Seq", r.u.List())
		}},
	}
	out = append(out, nodeScens{"AtomNode", atom})

	// repetitions and separated lists
	quant := func(min, max *Val, r *buildRun) *Val {
		return r.term("Quant", map[string]*Val{"Term": operand(r), "Min": min, "Max": max})
	}
	num := func(r *buildRun, n string) *Val {
		return r.u.Call("strconv.Atoi", 0, types.Typ[types.Int], r.textOf(at(r, n)))
	}
	badNum := func(r *buildRun, st *State) bool {
		for _, n := range []string{"min", "max"} {
			e := r.u.Call("strconv.Atoi", 1, types.Universe.Lookup("error").Type(), r.textOf(at(r, n)))
			if r.x.Known(st, r.x.EqVal(e, r.u.Nil(nil)), false) {
				return true
			}
		}
		return false
	}
	var qs []scen
	for _, b := range []struct {
		op       string
		min, max int64
	}{{"?", 0, 1}, {"*", 0, 0}, {"+", 1, 0}} {
		b := b
		qs = append(qs, scen{name: b.op, rule: "build.op", kids: kidsOf(ch(0), tok("op", b.op)), want: func(r *buildRun, st *State) *Val {
			return quant(r.u.Int(b.min), r.u.Int(b.max), r)
		}})
	}
	for i := 0; i < 4; i++ {
		i := i
		ks := []func(r *buildRun, st *State) kid{ch(1), lits("{", ",", "}")}
		nm := "{"
		if i&1 != 0 {
			ks = append(ks, op("min"))
			nm += "m"
		}
		nm += ","
		if i&2 != 0 {
			ks = append(ks, op("max"))
			nm += "n"
		}
		qs = append(qs, scen{name: nm + "}", rule: "build.op", kids: kidsOf(ks...), mayErr: badNum, want: func(r *buildRun, st *State) *Val {
			min, max := r.u.Int(0), r.u.Int(0)
			if i&1 != 0 {
				min = num(r, "min")
			}
			if i&2 != 0 {
				max = num(r, "max")
			}
			return quant(min, max, r)
		}})
	}
	for _, d := range []struct{ op, assoc string }{{":", "NonAssociative"}, {":>", "LeftToRight"}, {"<:", "RightToLeft"}} {
		for i := 0; i < 4; i++ {
			d, i := d, i
			ks := []func(r *buildRun, st *State) kid{ch(2), tok("op", d.op), op("named")}
			nm := d.op
			if i&1 != 0 {
				ks = append(ks, tok("opt_leading", ","))
				nm += ",x"
			} else {
				nm += "x"
			}
			if i&2 != 0 {
				ks = append(ks, tok("opt_trailing", ","))
				nm += ","
			}
			qs = append(qs, scen{name: nm, rule: "build.delim", kids: kidsOf(ks...), want: func(r *buildRun, st *State) *Val {
				return r.term("Delim", map[string]*Val{"Term": operand(r), "Sep": r.built("NamedNode", at(r, "named")),
					"Assoc": r.c.constVal(r.u, "parser", d.assoc), "CanStartWithSep": r.u.Bool(i&1 != 0), "CanEndWithSep": r.u.Bool(i&2 != 0)})
			}})
		}
	}
	out = append(out, nodeScens{"QuantNode", qs})

	// terms
	var ts []scen
	terms := func(n int) func(r *buildRun, st *State) kid {
		return func(r *buildRun, st *State) kid { return many("term", seqTok(r, st, n)...) }
	}
	parts := func(r *buildRun, n int) *Val {
		var es []*Val
		for i := 0; i < n; i++ {
			es = append(es, r.built("TermNode", at(r, fmt.Sprintf("e%d", i))))
		}
		return r.u.List(es...)
	}
	for n := 1; n <= 4; n++ {
		n := n
		seq := func(r *buildRun) *Val {
			if n == 1 {
				return r.built("TermNode", at(r, "e0"))
			}
			return r.termOf("Seq", parts(r, n))
		}
		ts = append(ts, scen{name: fmt.Sprintf("sequence%d", n), rule: "build.term", kids: kidsOf(terms(n)), want: func(r *buildRun, st *State) *Val { return seq(r) }})
		ts = append(ts, scen{name: fmt.Sprintf("scoped%d", n), rule: "build.term", kids: func(r *buildRun, st *State) []kid {
			return []kid{many("term", seqTok(r, st, n)...), many("grammar", r.opaque(st, "grammar")), many("", r.leaf("{"), r.leaf("}"))}
		}, want: func(r *buildRun, st *State) *Val {
			return r.term("ScopedGrammar", map[string]*Val{"Term": seq(r), "Grammar": r.u.Call("rules", 0, r.grammarT, at(r, "grammar"))})
		}})
		if n == 1 {
			ts = append(ts, scen{name: "single", rule: "build.term", kids: func(r *buildRun, st *State) []kid {
				return []kid{one("term", r.opaque(st, "e0"))}
			}, want: func(r *buildRun, st *State) *Val { return seq(r) }})
			continue
		}
		for _, o := range []struct{ op, kind string }{{"|", "Oneof"}, {">", "Stack"}} {
			o := o
			ts = append(ts, scen{name: fmt.Sprintf("%s%d", o.op, n), rule: "build.term", kids: func(r *buildRun, st *State) []kid {
				var ops []*Val
				for i := 1; i < n; i++ {
					ops = append(ops, r.token(st, o.op))
				}
				k := many("op", ops...)
				if n == 2 {
					k = one("op", ops[0])
				}
				return []kid{many("term", seqTok(r, st, n)...), k}
			}, want: func(r *buildRun, st *State) *Val { return r.termOf(o.kind, parts(r, n)) }})
		}
	}
	for n := 0; n <= 4; n++ {
		n := n
		ts = append(ts, scen{name: fmt.Sprintf("quants%d", n), rule: "build.quants", kids: func(r *buildRun, st *State) []kid {
			ks := []kid{one("named", r.opaque(st, "named"))}
			var qs []*Val
			for i := 0; i < n; i++ {
				qs = append(qs, r.opaque(st, fmt.Sprintf("q%d", i)))
			}
			if n > 0 {
				ks = append(ks, many("quant", qs...))
			}
			return ks
		}, want: func(r *buildRun, st *State) *Val {
			v := r.built("NamedNode", at(r, "named"))
			for i := n - 1; i >= 0; i-- {
				v = r.u.Call("term:QuantNode", 0, r.termI, at(r, fmt.Sprintf("q%d", i)), v)
			}
			return v
		}})
	}
	out = append(out, nodeScens{"TermNode", ts})

	// rule bodies
	var ps []scen
	for n := 1; n <= 4; n++ {
		n := n
		ps = append(ps, scen{name: fmt.Sprint(n), rule: "build.prod", kids: func(r *buildRun, st *State) []kid {
			k := many("term", seqTok(r, st, n)...)
			return []kid{one("IDENT", r.opaque(st, "IDENT")), k, many("", r.leaf("->"), r.leaf(";"))}
		}, want: func(r *buildRun, st *State) *Val {
			if n == 1 {
				return r.built("TermNode", at(r, "e0"))
			}
			return r.termOf("Seq", parts(r, n))
		}})
	}
	out = append(out, nodeScens{"ProdNode", ps})
	return out
}

// constVal is the value of a typed constant.
func (c *Ctx) constVal(u *absint.Universe, pkg, name string) *Val {
	k, ok := c.P.SSA[pkg].Members[name].(*ssa.NamedConst)
	if !ok {
		panic(missing(pkg + "." + name))
	}
	return u.Const(k.Value.Value)
}

// regex checks the text of a regular expression: it is read from the source
// text, and only white space, escaped spaces and the /{...} marks are touched.
func (r *buildRun) regex(st *State, got, text *Val) string {
	u := r.u
	str := types.Typ[types.String]
	v := got
	pfx := -1
	for f, val := range st.Facts {
		if f.Op == absint.OCall && f.Aux == "strings.HasPrefix" {
			if s, ok := f.Args[1].StrConst(); ok && s == "/{" {
				pfx = 0
				if val {
					pfx = 1
				}
			}
		}
	}
	if v.Op == absint.OSlice {
		b := v.Args[0]
		lo, ok := v.Args[1].IntConst()
		if pfx != 1 || !ok || lo != 2 || !r.x.ProveEq(st, v.Args[2], u.Sub(u.Len(b), u.Int(1))) {
			return "the text of a regular expression is cut to " + show(v)
		}
		v = b
	} else if pfx == 1 {
		return "the marks around /{...} are kept"
	} else if pfx < 0 {
		return "nothing tells /{...} from a bare regular expression"
	}
	// replacements, outermost first
	var steps []string
	for v != text {
		if v.Op != absint.OCall || v.Aux != "(*regexp.Regexp).ReplaceAllString" || len(v.Args) != 3 {
			return "the text of a regular expression becomes " + show(v)
		}
		re := r.globalRegexp(v.Args[0])
		repl, ok := v.Args[2].StrConst()
		if re == "" || !ok {
			return "the text of a regular expression is rewritten by " + show(v)
		}
		steps = append(steps, re+" => "+repl)
		v = v.Args[1]
	}
	sort.SliceStable(steps, func(i, j int) bool { return false })
	const sp = `((?:\A|[^\\])(?:\\\\)*)\\_ => $1 `
	want := []string{sp, sp, `\s => `}
	_ = str
	if strings.Join(steps, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("the text of a regular expression is rewritten by %q instead of %q", steps, want)
	}
	return ""
}

// globalRegexp is the pattern a package-level regular expression is made from.
func (r *buildRun) globalRegexp(v *Val) string {
	if v.Op == absint.OInit && len(v.Args) == 1 {
		v = v.Args[0]
	}
	if v.Op != absint.OGlobal {
		return ""
	}
	return r.c.regexpGlobals()[v.Aux]
}

// regexpGlobals maps package-level regular expressions to their patterns,
// leaving out those assigned more than once.
func (c *Ctx) regexpGlobals() map[string]string {
	out := map[string]string{}
	bad := map[string]bool{}
	fs := c.allFuncs()
	for _, p := range c.P.SSA {
		if f := p.Func("init"); f != nil {
			fs = append(fs, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				k := g.RelString(nil)
				if call, ok := s.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().RelString(nil) == "regexp.MustCompile" {
					if cst, ok := call.Call.Args[0].(*ssa.Const); ok && out[k] == "" && !bad[k] {
						out[k] = constStringVal(cst)
						continue
					}
				}
				bad[k] = true
				delete(out, k)
			}
		}
	}
	return out
}

// grammarRules decides which rules a syntax tree's statements define.
func (m *buildModel) grammarRules() {
	fn := m.grammar
	for n := 0; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			if n == 4 && mask != 15 && mask != 5 {
				continue
			}
			r := m.run()
			x, u := r.x, r.u
			st := absint.NewState()
			var stmts []*Val
			type rule struct{ name, prod *Val }
			var rules []rule
			for i := 0; i < n; i++ {
				if mask&(1<<i) != 0 {
					id := r.opaque(st, fmt.Sprintf("IDENT%d", i))
					for _, o := range rules {
						x.Assume(st, x.EqVal(o.name, r.textOf(id)), false)
					}
					p := r.node(st, one("IDENT", id), many("term", r.opaque(st, fmt.Sprintf("t%d", i))), many("", r.leaf("->"), r.leaf(";")))
					rules = append(rules, rule{r.textOf(id), p})
					stmts = append(stmts, r.node(st, r.choice(1), one("prod", p)))
				} else if i%2 == 0 {
					stmts = append(stmts, r.node(st, r.choice(0), one("COMMENT", r.opaque(st, fmt.Sprintf("COMMENT%d", i)))))
				} else {
					stmts = append(stmts, r.node(st, r.choice(2), one("pragma", r.opaque(st, fmt.Sprintf("pragma%d", i)))))
				}
			}
			tree := r.node(st, many("stmt", stmts...))
			if n == 1 {
				tree = r.node(st, one("stmt", stmts[0]))
			}
			args := make([]*Val, len(fn.Params))
			for i, p := range fn.Params {
				switch {
				case i == m.gparam:
					args[i] = m.wrap(r, st, tree, p.Type())
				case i == 0 && fn.Signature.Recv() != nil:
					r.gb = u.Sym("builder", p.Type())
					args[i] = r.gb
				default:
					args[i] = u.Sym(p.Name(), p.Type())
				}
			}
			cons := fmt.Sprintf("%d statements", n)
			outs := x.Run(fn, args, st)
			for _, o := range outs {
				if o.Panic != nil {
					x.Report(o.St, o.Pos, "build.rules", "building the rules panics")
					continue
				}
				es, ok := x.Entries(o.St, o.Res[0])
				if !ok {
					x.Report(o.St, o.Pos, "build.rules", "yields %s", show(o.Res[0]))
					continue
				}
				for _, w := range rules {
					found := false
					for _, e := range es {
						if same(x, o.St, e.Args[0], w.name) {
							found = same(x, o.St, e.Args[1], r.built("ProdNode", w.prod))
						}
					}
					if !found {
						x.Report(o.St, o.Pos, "build.rules", "a rule of the text is missing or has another body")
					}
				}
				if len(es) != len(rules) {
					x.Report(o.St, o.Pos, "build.rules", "%d rules are made of %d", len(es), len(rules))
				}
			}
			m.c.Check("build.rules", cons, len(outs) > 0, fn.Pos(), "no outcome")
			m.c.Done(x, "build.rules", cons, fn)
		}
	}
}

// macros decides macro expansion.
func (m *buildModel) macros() {
	fn := m.of["MacrocallNode"]
	macroT := m.c.Named("wbnf", "PragmaMacrodefNode")
	for n := 0; n <= 3; n++ {
		r := m.run()
		x, u := r.x, r.u
		st := absint.NewState()
		name := r.opaque(st, "name")
		var params, actual []*Val
		for i := 0; i < n; i++ {
			p := r.opaque(st, fmt.Sprintf("p%d", i))
			for _, q := range params {
				x.Assume(st, x.EqVal(r.textOf(q), r.textOf(p)), false)
			}
			params = append(params, p)
			actual = append(actual, r.opaque(st, fmt.Sprintf("a%d", i)))
		}
		kids := func(nm string, ns []*Val) []kid {
			switch len(ns) {
			case 0:
				return nil
			case 1:
				return []kid{one(nm, ns[0])}
			}
			return []kid{many(nm, ns...)}
		}
		body := r.opaque(st, "body")
		def := r.node(st, append(kids("args", params), one("name", r.opaque(st, "defname")), one("term", body))...)
		call := r.node(st, append(kids("term", actual), one("name", name), many("", r.leaf("%!"), r.leaf("("), r.leaf(")")))...)
		// the builder knows this macro under the name called
		bt := fieldsOf(m.builderT)
		if bt == nil {
			panic(missing("the builder's macro table"))
		}
		var fs []*Val
		found := false
		for i := 0; i < bt.NumFields(); i++ {
			mt, ok := bt.Field(i).Type().Underlying().(*types.Map)
			if ok && types.Identical(mt.Elem(), macroT) {
				tab := u.AllocTok(absint.OMap, "macros", bt.Field(i).Type())
				st.Mem[tab] = u.List(u.Tuple(r.textOf(name), u.Struct(macroT, def)))
				fs = append(fs, tab)
				found = true
			} else {
				fs = append(fs, u.Sym(bt.Field(i).Name(), bt.Field(i).Type()))
			}
		}
		if !found {
			panic(missing("the builder's macro table"))
		}
		gb := u.Struct(m.builderT, fs...)
		r.gb = gb
		type rebuilt struct {
			st   *State
			f    *Val
			g    *Val
			res  *Val
			body bool
		}
		var calls []rebuilt
		r.nested = func(st *State, f *ssa.Function, ci *absint.CallInfo) ([]absint.Out, bool) {
			if f != m.rebuild {
				return nil, false
			}
			es, ok := x.Entries(st, ci.Args[0])
			ok = ok && len(es) == 1 && same(x, st, es[0].Args[1], r.built("TermNode", body))
			res := u.AllocTok(absint.OMap, "rebuilt", r.grammarT)
			if ok {
				st.Mem[res] = u.List(u.Tuple(es[0].Args[0], u.Call("expanded", 0, r.termI)))
			} else {
				x.Report(st, ci.Pos, "build.macro", "arguments are put into %s instead of the macro's body", show(x.Reify(st, ci.Args[0])))
			}
			calls = append(calls, rebuilt{st: st.Clone(), f: ci.Args[1], body: ok})
			return []absint.Out{{St: st, Val: res}}, true
		}
		args := make([]*Val, len(fn.Params))
		for i, p := range fn.Params {
			switch {
			case i == m.param[fn]:
				args[i] = m.wrap(r, st, call, p.Type())
			case i == 0 && fn.Signature.Recv() != nil:
				args[i] = gb
			default:
				args[i] = u.Sym(p.Name(), p.Type())
			}
		}
		cons := fmt.Sprintf("%d arguments", n)
		good := 0
		for _, o := range x.Run(fn, args, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "build.macro", "expanding the macro panics")
				continue
			}
			if !same(x, o.St, o.Res[0], u.Call("expanded", 0, r.termI)) {
				x.Report(o.St, o.Pos, "build.macro", "yields %s instead of the macro's body with its arguments in place", show(x.Reify(o.St, o.Res[0])))
				continue
			}
			good++
		}
		m.c.Check("build.macro", cons, good > 0, fn.Pos(), "no expansion")
		if len(calls) > 0 {
			cl := calls[0]
			try := func(what string, in, want *Val, assume func(st *State)) {
				st := cl.st.Clone()
				if assume != nil {
					assume(st)
				}
				if cl.f.Op != absint.OClosure && cl.f.Op != absint.OFunc {
					x.Report(st, fn.Pos(), "build.macro", "cannot tell what replaces the arguments")
					return
				}
				for _, o := range x.RunClosure(cl.f.Fn, []*Val{in}, cl.f.Args, st) {
					if o.Panic != nil {
						x.Report(o.St, o.Pos, "build.macro", "replacing %s panics", what)
					} else if !same(x, o.St, o.Res[0], want) {
						x.Report(o.St, o.Pos, "build.macro", "%s in the macro's body becomes %s instead of %s", what, show(o.Res[0]), show(want))
					}
				}
			}
			for i := range params {
				try(fmt.Sprintf("parameter %d", i), r.termOf("Rule", r.textOf(params[i])), r.built("TermNode", actual[i]), nil)
			}
			other := r.termOf("Rule", u.Sym("other", r.c.Named("parser", "Rule")))
			try("another rule", other, other, func(st *State) {
				for _, p := range params {
					x.Assume(st, x.EqVal(r.textOf(p), other.Args[0]), false)
				}
			})
			for _, k := range m.c.Kinds() {
				if typeName(k) == "Rule" {
					continue
				}
				t := u.Iface(k, u.Sym("t", k))
				try("a "+typeName(k), t, t, nil)
			}
		}
		m.c.Done(x, "build.macro", cons, fn)
	}
}

// fromTree decides NewFromAst: every macro is known, whatever file it came
// from, and cut points are put into the rules of the whole tree.
func (m *buildModel) fromTree() {
	r := m.run()
	x, u := r.x, r.u
	fn := m.fromAst
	st := absint.NewState()
	tree := r.opaque(st, "tree")
	macroT := m.c.Named("wbnf", "PragmaMacrodefNode")
	opsT := m.c.Named("wbnf", "WalkerOps")
	opsF := fieldsOf(opsT)
	type visit struct {
		st  *State
		ops *Val
	}
	var visits []visit
	var builders []*Val
	r.nested = func(st *State, f *ssa.Function, ci *absint.CallInfo) ([]absint.Out, bool) {
		if f.Signature.Recv() != nil && types.Identical(recvType(f), opsT) && f.Name() == "Walk" {
			if !same(x, st, m.nodeArg(x, st, unIface(ci.Args[1]), m.c.Named("wbnf", "GrammarNode")), tree) {
				x.Report(st, ci.Pos, "build.tree", "macros are looked for in %s", show(ci.Args[1]))
			}
			visits = append(visits, visit{st.Clone(), x.Reify(st, ci.Args[0])})
			st.TS["walked"] = u.Bool(true)
			return []absint.Out{{St: st, Val: u.Nil(nil)}}, true
		}
		if f == m.grammar && f.Signature.Recv() != nil {
			builders = append(builders, ci.Args[0])
			if st.TS["walked"] == nil {
				x.Report(st, ci.Pos, "build.tree", "rules are built before the macros are known")
			}
		}
		return nil, false
	}
	outs := x.Run(fn, []*Val{m.wrap(r, st, tree, fn.Params[0].Type())}, st)
	good := 0
	want := u.Call("cut", 0, r.grammarT, u.Call("rules", 0, r.grammarT, tree))
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "build.tree", "panics")
		} else if !same(x, o.St, o.Res[0], want) {
			x.Report(o.St, o.Pos, "build.tree", "yields %s", show(x.Reify(o.St, o.Res[0])))
		} else {
			good++
		}
	}
	m.c.Check("build.tree", "NewFromAst", good > 0, fn.Pos(), "no grammar is produced")
	m.c.Check("build.tree", "NewFromAst.macros", len(visits) > 0, fn.Pos(), "macros are never collected")
	for _, v := range visits {
		for i := 0; i < opsF.NumFields(); i++ {
			f := u.Field(v.ops, i, opsF.Field(i).Type())
			nm := opsF.Field(i).Name()
			if nm != "EnterPragmaMacrodefNode" {
				if !f.IsNil() {
					// other callbacks must not cut the walk short
					if f.Op != absint.OClosure && f.Op != absint.OFunc {
						x.Report(v.st, fn.Pos(), "build.tree", "callback %s is %s", nm, show(f))
						continue
					}
				}
				continue
			}
			if f.Op != absint.OClosure && f.Op != absint.OFunc {
				x.Report(v.st, fn.Pos(), "build.tree", "no callback takes macro definitions")
				continue
			}
			s2 := v.st.Clone()
			def := r.node(s2, one("name", r.opaque(s2, "name")), one("term", r.opaque(s2, "body")))
			for _, o := range x.RunClosure(f.Fn, []*Val{u.Struct(macroT, def)}, f.Args, s2) {
				if o.Panic != nil {
					x.Report(o.St, o.Pos, "build.tree", "taking a macro definition panics")
					continue
				}
				if !o.Res[0].IsNil() {
					x.Report(o.St, o.Pos, "build.tree", "a macro definition stops the search for others")
				}
				known := false
				for _, b := range builders {
					for j := 0; j < fieldsOf(m.builderT).NumFields(); j++ {
						mp := u.Field(b, j, nil)
						if es, ok := x.Entries(o.St, mp); ok {
							for _, e := range es {
								if same(x, o.St, e.Args[0], r.textOf(u.Sym("name", r.nodeI))) && same(x, o.St, e.Args[1], u.Struct(macroT, def)) {
									known = true
								}
							}
						}
					}
				}
				if !known {
					x.Report(o.St, o.Pos, "build.tree", "a macro definition does not become known to the builder under its name")
				}
			}
		}
	}
	m.c.Done(x, "build.tree", "NewFromAst", fn)
}

func unIface(v *Val) *Val {
	if v.Op == absint.OIface {
		return v.Args[0]
	}
	return v
}

func init() {
	register(&Prop{ID: "C23", Run: func(c *Ctx) { c.Build() }, Groups: []string{"build."}, Technique: absTechnique, MinObl: 40,
		Covers: "Each function that turns a part of a grammar's syntax tree into terms is interpreted on every form that part can take (texts symbolic, lists of up to 4 elements, sub-parts opaque), together with the generated accessors it reads the tree with, and the term it yields is compared with the one the form stands for, with the terms of the sub-parts (structural induction) in order. Covers atoms, names, operators, bounds, separators, alternatives, stacks, sequences, nested grammars, rules, statements, macro definitions and macro calls."})
}
