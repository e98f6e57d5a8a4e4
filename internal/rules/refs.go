package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C22", Run: func(c *Ctx) { c.Refs() }, Technique: absTechnique, MinObl: 40,
		Covers: "Grammar.Compile is interpreted, constructors included, on grammars that hold a reference in every kind of place (element of a sequence, alternative, repeated, looked at, listed, separator, named, nested in one another, a rule by itself, in a nested grammar at any depth, in precedence stacks of one to three levels), other terms opaque. In the parser it yields, every place a reference stood in has to hold the very parser registered for that rule in the scope that defines it. Each kind's Resolve is interpreted on opaque parts."})
}

// refModel compiles symbolic grammars.
type refModel struct {
	*astModel
	parserI types.Type
	ruleT   types.Type
	compile *ssa.Function
	refT    types.Type // the placeholder a reference compiles to
	identS  map[types.Type]bool
}

func (c *Ctx) Refs() {
	m := &refModel{astModel: c.astModel(), parserI: c.Named("parser", "Parser"), ruleT: c.Named("parser", "Rule"), identS: map[types.Type]bool{}}
	m.compile = c.P.TypeMethod(m.grammarT, "Compile")
	if m.compile == nil {
		panic(missing("Grammar.Compile"))
	}
	pm := c.parseModel()
	bs, _, _ := pm.construct(m.ruleT, nil)
	for _, b := range bs {
		if b.res.Op == absint.OIface {
			m.refT = b.res.Typ
		}
	}
	if m.refT == nil {
		panic(missing("the parser of a rule reference"))
	}
	m.compileAll()
	m.stacks()
	c.resolves()
}

// rt is a term of a test grammar, in a form that the expectation can follow.
type rt struct {
	kind string
	name string // rule, opaque term or label
	subs []rt
	g    map[string]rt // nested grammar
	lead bool
	trai bool
}

func ref(n string) rt          { return rt{kind: "Rule", name: n} }
func oq(n string) rt           { return rt{kind: "opaque", name: n} }
func seqT(ts ...rt) rt         { return rt{kind: "Seq", subs: ts} }
func oneofT(ts ...rt) rt       { return rt{kind: "Oneof", subs: ts} }
func quantT(t rt) rt           { return rt{kind: "Quant", subs: []rt{t}} }
func lookT(t rt) rt            { return rt{kind: "LookAhead", subs: []rt{t}} }
func namedT(n string, t rt) rt { return rt{kind: "Named", name: n, subs: []rt{t}} }
func delimT(t, s rt, l, r bool) rt {
	return rt{kind: "Delim", subs: []rt{t, s}, lead: l, trai: r}
}
func scopedT(t rt, g map[string]rt) rt { return rt{kind: "ScopedGrammar", subs: []rt{t}, g: g} }

func sortedKeys(g map[string]rt) []string {
	var ks []string
	for k := range g {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// build makes the term value.
func (m *refModel) build(x *Exec, st *State, t rt) *Val {
	u := m.u
	subs := make([]*Val, len(t.subs))
	for i, s := range t.subs {
		subs[i] = m.build(x, st, s)
	}
	switch t.kind {
	case "Rule":
		return m.termOf("Rule", u.Str(t.name))
	case "opaque":
		v := u.Sym(t.name, m.termI)
		x.Assume(st, u.Eq(v, u.Nil(nil)), false)
		for _, k := range m.c.Kinds() {
			x.Assume(st, u.IsType(v, k), false)
		}
		return v
	case "Seq", "Oneof":
		return m.termOf(t.kind, u.List(subs...))
	case "Quant":
		return m.term("Quant", map[string]*Val{"Term": subs[0], "Min": u.Int(1), "Max": u.Int(2)})
	case "LookAhead":
		return m.term("LookAhead", map[string]*Val{"Term": subs[0]})
	case "Named":
		return m.term("Named", map[string]*Val{"Term": subs[0], "Name": u.Str(t.name)})
	case "Delim":
		return m.term("Delim", map[string]*Val{"Term": subs[0], "Sep": subs[1], "CanStartWithSep": u.Bool(t.lead), "CanEndWithSep": u.Bool(t.trai)})
	case "ScopedGrammar":
		return m.term("ScopedGrammar", map[string]*Val{"Term": subs[0], "Grammar": m.grammar(x, st, t.g)})
	case "Stack":
		return m.termOf("Stack", u.List(subs...))
	}
	panic("unknown kind " + t.kind)
}

func (m *refModel) grammar(x *Exec, st *State, g map[string]rt) *Val {
	mp := m.u.AllocTok(absint.OMap, "grammar", m.grammarT)
	var es []*Val
	for _, k := range sortedKeys(g) {
		es = append(es, m.u.Tuple(m.u.Str(k), m.build(x, st, g[k])))
	}
	st.Mem[mp] = m.u.List(es...)
	return mp
}

// parserOf is the parser of an opaque term.
func (m *refModel) parserOf(term *Val) *Val {
	return m.u.Call("parserOf", 0, m.parserI, term)
}

func (m *refModel) exec() *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.MaxRec = 8
	x.MaxDepth = 80
	x.UnrollSym = 12
	x.Hooks.Inline = func(f *ssa.Function) bool { return f.Signature.Recv() == nil || opaqueStrings(f) }
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		u := x.U
		name := ""
		if c.Method != nil {
			name = c.Method.Name()
		}
		if c.Recv != nil && c.Recv.Op != absint.OIface {
			switch name {
			case "Parser":
				p := m.parserOf(c.Recv)
				x.Assume(st, u.Eq(p, u.Nil(nil)), false)
				x.Assume(st, u.IsType(p, m.refT), false)
				return []absint.Out{{St: st, Val: p}}, true
			case "Resolve":
				t := u.Call("resolved", 0, m.termI, append([]*Val{c.Recv}, c.Args[1:]...)...)
				x.Assume(st, u.Eq(t, u.Nil(nil)), false)
				for _, k := range m.c.Kinds() {
					x.Assume(st, u.IsType(t, k), false)
				}
				return []absint.Out{{St: st, Val: t}}, true
			}
		}
		if c.Fn != nil && c.Fn.RelString(nil) == "fmt.Sprintf" {
			if s, ok := m.sprintf(x, st, c.Args[0], c.Args[1]); ok {
				return []absint.Out{{St: st, Val: u.Str(s)}}, true
			}
		}
		return nil, false
	}
	return x
}

// sprintf folds a call whose operands are all known.
func (m *refModel) sprintf(x *Exec, st *State, f, args *Val) (string, bool) {
	format, ok := f.StrConst()
	if !ok {
		return "", false
	}
	l := x.Norm(st, x.Reify(st, args))
	if l.IsNil() {
		return format, !strings.Contains(format, "%")
	}
	if l.Op != absint.OList {
		return "", false
	}
	var as []any
	for _, a := range l.Args {
		if a.Op != absint.OIface {
			return "", false
		}
		v := a.Args[0]
		if ms := types.NewMethodSet(a.Typ); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			if !m.stringIsIdentity(a.Typ) {
				return "", false
			}
		}
		if v.C == nil {
			return "", false
		}
		switch v.C.Kind() {
		case constant.String:
			as = append(as, constant.StringVal(v.C))
		case constant.Int:
			i, ok := constant.Int64Val(v.C)
			if !ok {
				return "", false
			}
			as = append(as, i)
		default:
			return "", false
		}
	}
	return fmt.Sprintf(format, as...), true
}

// stringIsIdentity: the type is a string and its String method returns it.
func (m *refModel) stringIsIdentity(t types.Type) bool {
	if b, ok := m.identS[t]; ok {
		return b
	}
	m.identS[t] = false
	b, ok := t.Underlying().(*types.Basic)
	fn := m.c.P.TypeMethod(t, "String")
	if !ok || b.Info()&types.IsString == 0 || fn == nil {
		return false
	}
	x := m.c.Exec()
	r := x.U.Sym("r", t)
	outs := x.Run(fn, []*Val{r}, absint.NewState())
	res := len(outs) == 1 && outs[0].Panic == nil && (outs[0].Res[0] == r || x.SameVal(outs[0].St, outs[0].Res[0], r))
	m.identS[t] = res
	return res
}

// scope is what rule names mean at some place.
type refScope struct {
	g    map[string]rt
	have map[string]*Val // parser by rule, once known
	out  *refScope
}

func (s *refScope) find(n string) *refScope {
	for ; s != nil; s = s.out {
		if _, ok := s.g[n]; ok {
			return s
		}
	}
	return nil
}

type refCheck struct {
	m    *refModel
	x    *Exec
	st   *State
	fail func(f string, args ...any)
	seen map[*Val]bool
}

// slots are the places of a parser that hold its sub-parsers.
func (k *refCheck) slots(p *Val) (subs []*Val, ok bool) {
	u, x := k.x.U, k.x
	if p.Op != absint.OIface {
		return nil, false
	}
	obj := p.Args[0]
	t := p.Typ
	ptr := false
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = pt.Elem(), true
	}
	s := fieldsOf(t)
	if s == nil {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		get := func() *Val {
			if ptr {
				return x.Load(k.st, u.FieldAddr(obj, i, t), ft)
			}
			return u.Field(obj, i, ft)
		}
		if types.Identical(ft, k.m.parserI) {
			return []*Val{get()}, true
		}
		if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), k.m.parserI) {
			l := get()
			n, known := x.Norm(k.st, u.Len(l)).IntConst()
			if !known {
				return nil, false
			}
			for j := int64(0); j < n; j++ {
				subs = append(subs, k.slot(l, j))
			}
			return subs, true
		}
	}
	return nil, false
}

// slot is what element j of a slice holds now.
func (k *refCheck) slot(l *Val, j int64) *Val {
	u := k.x.U
	if v, ok := k.st.Mem[u.IndexAddr(l, u.Int(j), k.m.parserI)]; ok {
		return v
	}
	// registered while the slice was being filled
	for a, v := range k.st.Mem {
		if a.Op == absint.OIndexAddr && a.Args[1] == u.Int(j) && a.Args[0].Op == absint.OList && l.Op == absint.OList && len(a.Args[0].Args) <= len(l.Args) {
			pre := true
			for i, e := range a.Args[0].Args {
				if l.Args[i] != e {
					pre = false
				}
			}
			if pre {
				return v
			}
		}
	}
	if l.Op == absint.OMake {
		return k.x.Load(k.st, u.IndexAddr(l, u.Int(j), k.m.parserI), k.m.parserI)
	}
	return u.Index(l, u.Int(j), k.m.parserI)
}

// denotes compares the parser at some place with the term that stood there.
func (k *refCheck) denotes(p *Val, t rt, sc *refScope, where string) {
	u := k.x.U
	p = k.x.Reify(k.st, p)
	switch t.kind {
	case "opaque", "resolved":
		var want *Val
		if t.kind == "opaque" {
			want = k.m.parserOf(u.Sym(t.name, k.m.termI))
		}
		if p != want {
			k.fail("%s: runs %s instead of %s", where, show(p), t.name)
		}
	case "Named":
		k.denotes(p, t.subs[0], sc, where)
	case "Rule":
		def := sc.find(t.name)
		if def == nil {
			k.fail("%s: no rule %s", where, t.name)
			return
		}
		if want, ok := def.have[t.name]; ok {
			if p != want {
				k.fail("%s: the reference to %s runs %s, but another place runs %s for the same rule", where, t.name, show(p), show(want))
			}
			return
		}
		def.have[t.name] = p
		k.denotes(p, def.g[t.name], def, "rule "+t.name)
	case "ScopedGrammar":
		in := &refScope{g: t.g, have: map[string]*Val{}, out: sc}
		k.denotes(p, t.subs[0], in, where)
	case "Seq", "Oneof", "Quant", "LookAhead":
		if p.Op == absint.OIface && types.Identical(p.Typ, k.m.refT) {
			k.fail("%s: an unresolved reference is left where a %s is expected", where, t.kind)
			return
		}
		subs, ok := k.slots(p)
		if !ok || len(subs) != len(t.subs) {
			k.fail("%s: the parser of a %s with %d parts is %s with %d", where, t.kind, len(t.subs), show(p), len(subs))
			return
		}
		for i, s := range subs {
			k.denotes(s, t.subs[i], sc, fmt.Sprintf("%s, part %d of a %s", where, i, t.kind))
		}
	case "Delim":
		subs, ok := k.slots(p)
		if !ok || len(subs) != 1 {
			k.fail("%s: the parser of a list is %s", where, show(p))
			return
		}
		// what the list's own parser is composed of is C18's matter; here
		// every place in it has to run the term or the separator
		n := map[int]int{}
		k.within(subs[0], t, sc, where, n, 0)
		for i, s := range t.subs {
			if n[i] == 0 {
				k.fail("%s: no place of the list runs its part %s", where, s.name)
			}
		}
	default:
		k.fail("%s: unexpected %s", where, t.kind)
	}
}

// within checks each innermost place of the parser a list is composed of.
func (k *refCheck) within(p *Val, t rt, sc *refScope, where string, n map[int]int, d int) {
	p = k.x.Reify(k.st, p)
	for i, s := range t.subs {
		ok := true
		trial := *k
		trial.fail = func(string, ...any) { ok = false }
		saved := snapshotScope(sc)
		trial.denotes(p, s, sc, where)
		if ok {
			n[i]++
			return
		}
		restoreScope(sc, saved)
	}
	subs, ok := k.slots(p)
	if !ok || d > 6 {
		k.fail("%s: a place inside the list runs %s", where, show(p))
		return
	}
	for _, s := range subs {
		k.within(s, t, sc, where, n, d+1)
	}
}

func snapshotScope(s *refScope) []map[string]*Val {
	var r []map[string]*Val
	for ; s != nil; s = s.out {
		c := map[string]*Val{}
		for k, v := range s.have {
			c[k] = v
		}
		r = append(r, c)
	}
	return r
}

func restoreScope(s *refScope, r []map[string]*Val) {
	for i := 0; s != nil; s, i = s.out, i+1 {
		for k := range s.have {
			delete(s.have, k)
		}
		for k, v := range r[i] {
			s.have[k] = v
		}
	}
}

func (m *refModel) compileAll() {
	r, x, y := oq("R"), oq("X"), oq("Y")
	type sc struct {
		name string
		g    map[string]rt
	}
	G := func(h rt, more ...any) map[string]rt {
		g := map[string]rt{"h": h, "r": r}
		for i := 0; i+1 < len(more); i += 2 {
			g[more[i].(string)] = more[i+1].(rt)
		}
		return g
	}
	scs := []sc{
		{"sequence", G(seqT(ref("r"), x))},
		{"sequence twice", G(seqT(x, ref("r"), ref("q"), ref("r")), "q", oq("Q"))},
		{"choice", G(oneofT(ref("r"), ref("q"), x), "q", oq("Q"))},
		{"repetition", G(quantT(ref("r")))},
		{"lookahead", G(seqT(lookT(ref("r")), x))},
		{"list term", G(delimT(ref("r"), x, false, false))},
		{"list separator", G(delimT(x, ref("r"), true, true))},
		{"list both", G(delimT(ref("r"), ref("q"), false, true), "q", oq("Q"))},
		{"named", G(seqT(namedT("n", ref("r")), namedT("m", quantT(namedT("k", ref("r"))))))},
		{"nested", G(oneofT(quantT(seqT(oneofT(ref("r"), x), lookT(ref("q")))), y), "q", oq("Q"))},
		{"list in repetition", G(quantT(delimT(seqT(ref("r"), x), y, true, false)))},
		{"itself", G(seqT(x, quantT(ref("h"))))},
		{"each other", map[string]rt{"a": seqT(x, quantT(ref("b"))), "b": oneofT(y, ref("a"), ref("b"))}},
		{"alias", G(ref("r"), "k", seqT(ref("h"), ref("r")))},
		{"alias chain", map[string]rt{"a": ref("b"), "b": ref("c"), "c": seqT(x, y), "k": seqT(ref("a"), ref("b"), ref("c"))}},
		{"named alias", map[string]rt{"a": namedT("n", ref("b")), "b": namedT("m", ref("c")), "c": seqT(x, y), "k": seqT(ref("a"), quantT(ref("b")), ref("c"))}},
		{"nested grammar", G(scopedT(seqT(ref("l"), ref("r"), x), map[string]rt{"l": seqT(ref("r"), y)}))},
		{"shadowing", G(seqT(scopedT(seqT(ref("r"), ref("l")), map[string]rt{"r": seqT(x, y), "l": quantT(ref("r"))}), ref("r")))},
		{"shadowing in turn", G(scopedT(ref("l"), map[string]rt{"l": seqT(ref("r"), scopedT(seqT(ref("l"), ref("r"), ref("q")), map[string]rt{"r": seqT(x, ref("q")), "l": quantT(ref("r"))}))}), "q", oq("Q"))},
		{"nested places", G(seqT(quantT(scopedT(ref("l"), map[string]rt{"l": oneofT(x, ref("l"), ref("r"))})), lookT(scopedT(ref("r"), map[string]rt{"l": y}))))},
		{"nested alias", map[string]rt{"a": scopedT(ref("l"), map[string]rt{"l": ref("m"), "m": seqT(x, ref("b"))}), "b": seqT(y, x), "k": seqT(ref("a"), ref("b"))}},
		{"nested alias out", map[string]rt{"a": scopedT(seqT(ref("l"), ref("m")), map[string]rt{"l": ref("b"), "m": namedT("n", ref("b"))}), "b": seqT(y, x), "k": seqT(ref("a"), ref("b"))}},
		{"scope of an outer rule", map[string]rt{"a": scopedT(ref("b"), map[string]rt{"l": x}), "b": seqT(y, x), "k": seqT(ref("a"), ref("b"))}},
		{"nested list", G(scopedT(delimT(ref("l"), ref("r"), true, true), map[string]rt{"l": x}))},
	}
	for _, s := range scs {
		m.compileOne(s.name, s.g)
	}
}

func (m *refModel) compileOne(name string, g map[string]rt) {
	c := m.c
	x := m.exec()
	if os.Getenv("DBG22") == name {
		x.Debug = true
	}
	st := absint.NewState()
	gv := m.grammar(x, st, g)
	outs := x.Run(m.compile, []*Val{gv, m.u.Sym("node", m.compile.Params[1].Type())}, st)
	n := 0
	for _, o := range outs {
		fail := func(f string, args ...any) { x.Report(o.St, m.compile.Pos(), "C22.ref", f, args...) }
		if o.Panic != nil {
			fail("compiling panics")
			continue
		}
		n++
		tab, ok := m.table(x, o)
		if !ok {
			fail("cannot follow the table of parsers")
			continue
		}
		k := &refCheck{m: m, x: x, st: o.St, fail: fail}
		top := &refScope{g: g, have: map[string]*Val{}}
		for _, r := range sortedKeys(g) {
			p, ok := tab[r]
			if !ok {
				fail("rule %s has no parser", r)
				continue
			}
			p = x.Reify(o.St, p)
			// a rule that is only another rule's name may have a parser of
			// its own, labelled differently
			if g[r].kind == "Rule" {
				end, hops := g[r], 0
				for end.kind == "Rule" && hops < 9 {
					end, hops = g[end.name], hops+1
				}
				top.have[r] = p
				k.denotes(p, end, top, "rule "+r)
				continue
			}
			if g[r].kind == "ScopedGrammar" && g[r].subs[0].kind == "Rule" {
				k.denotes(p, g[r], top, "rule "+r)
				if _, ok := top.have[r]; !ok {
					top.have[r] = p
				}
				continue
			}
			k.denotes(p, ref(r), top, "rule "+r)
		}
	}
	c.Check("C22.ref", name, n > 0, m.compile.Pos(), "compiling has no outcome")
	c.Done(x, "C22", name, m.compile)
}

// table is the result's table of parsers by rule.
func (m *refModel) table(x *Exec, o *absint.Outcome) (map[string]*Val, bool) {
	v := o.Res[0]
	s := fieldsOf(m.compile.Signature.Results().At(0).Type())
	if s == nil {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		mt, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Elem(), m.parserI) {
			continue
		}
		es, ok := x.Entries(o.St, x.U.Field(v, i, mt))
		if !ok {
			return nil, false
		}
		tab := map[string]*Val{}
		for _, e := range es {
			k, ok := e.Args[0].StrConst()
			if !ok {
				return nil, false
			}
			tab[k] = e.Args[1]
		}
		return tab, true
	}
	return nil, false
}

// stacks decides what the levels of a precedence stack refer to.
func (m *refModel) stacks() {
	c, u := m.c, m.u
	at := c.P.SSA["parser"].Members["At"]
	mark := "@"
	if k, ok := at.(*ssa.NamedConst); ok {
		mark = constStringVal(k.Value)
	}
	for _, sizes := range [][]int{{1}, {2}, {3}, {2, 3}} {
		for _, scoped := range []bool{false, true} {
			x := m.exec()
			st := absint.NewState()
			g := map[string]rt{"z": oq("Z")}
			for i, n := range sizes {
				s := rt{kind: "Stack"}
				for j := 0; j < n; j++ {
					s.subs = append(s.subs, oq(fmt.Sprintf("L%d_%d", i, j)))
				}
				g[fmt.Sprintf("e%d", i)] = s
			}
			var gv *Val
			name := fmt.Sprint("stack of ", sizes)
			if scoped {
				name = "nested " + name
				sub := []rt{}
				for i, n := range sizes {
					sub = append(sub, ref(fmt.Sprintf("e%d", i)))
					for j := 1; j < n; j++ {
						sub = append(sub, ref(fmt.Sprintf("e%d%s%d", i, mark, j)))
					}
				}
				gv = m.grammar(x, st, map[string]rt{"h": scopedT(seqT(sub...), g)})
			} else {
				gv = m.grammar(x, st, g)
			}
			outs := x.Run(m.compile, []*Val{gv, u.Sym("node", m.compile.Params[1].Type())}, st)
			n := 0
			for _, o := range outs {
				fail := func(f string, args ...any) { x.Report(o.St, m.compile.Pos(), "C22.stack", f, args...) }
				if o.Panic != nil {
					fail("compiling panics")
					continue
				}
				n++
				tab, ok := m.table(x, o)
				if !ok {
					fail("cannot follow the table of parsers")
					continue
				}
				if scoped {
					// the nested table is reached through the references
					k := &refCheck{m: m, x: x, st: o.St, fail: fail}
					subs, ok := k.slots(x.Reify(o.St, tab["h"]))
					nested, at := map[string]*Val{}, 0
					for i, n := range sizes {
						for j := 0; j < n && ok && at < len(subs); j, at = j+1, at+1 {
							nm := fmt.Sprintf("e%d", i)
							if j > 0 {
								nm += mark + strconv.Itoa(j)
							}
							nested[nm] = x.Reify(o.St, subs[at])
						}
					}
					tab = nested
				}
				for i, size := range sizes {
					top := fmt.Sprintf("e%d", i)
					cur := tab[top]
					for j := 0; j < size; j++ {
						level := u.Sym(fmt.Sprintf("L%d_%d", i, j), m.termI)
						// cur must run level j, its "@" resolved to the next name
						if cur == nil || cur.Op != absint.OCall || cur.Aux != "parserOf" || cur.Args[0].Op != absint.OCall || cur.Args[0].Aux != "resolved" || cur.Args[0].Args[0] != level {
							fail("level %d of stack %s runs %s instead of its own term with %q resolved", j, top, show(orNil(u, cur)), mark)
							break
						}
						old, _ := cur.Args[0].Args[1].StrConst()
						next, _ := cur.Args[0].Args[2].StrConst()
						if old != mark {
							fail("level %d of stack %s resolves %q instead of %q", j, top, old, mark)
						}
						if j == size-1 {
							if next != top {
								fail("the last level of stack %s continues with %q instead of the whole stack", top, next)
							}
							break
						}
						if next == top || next == "" {
							fail("level %d of stack %s continues with %q instead of the next level", j, top, next)
							break
						}
						cur = tab[next]
					}
				}
				if !scoped && tab["z"] != m.parserOf(u.Sym("Z", m.termI)) {
					fail("another rule of a grammar with stacks runs %s", show(orNil(u, tab["z"])))
				}
			}
			c.Check("C22.stack", name, n > 0, m.compile.Pos(), "compiling has no outcome")
			c.Done(x, "C22", name, m.compile)
		}
	}
	_ = strings.Join
}

// resolves decides that each kind of term replaces the recursive reference
// in all of its parts and changes nothing else.
func (c *Ctx) resolves() {
	m := &refModel{astModel: c.astModel(), parserI: c.Named("parser", "Parser"), ruleT: c.Named("parser", "Rule"), identS: map[types.Type]bool{}}
	u := m.u
	for _, k := range c.Kinds() {
		name := typeName(k)
		switch name {
		case "Stack", "ScopedGrammar", "CutPoint":
			continue // see DESIGN.md
		}
		fn := c.P.TypeMethod(k, "Resolve")
		if fn == nil {
			panic(missing("Resolve of " + k.String()))
		}
		x := m.exec()
		st := absint.NewState()
		old, new := u.Sym("old", m.ruleT), u.Sym("new", m.ruleT)
		res := func(t *Val) *Val { return u.Call("resolved", 0, m.termI, t, old, new) }
		sub := func(n string) *Val {
			v := u.Sym(n, m.termI)
			x.Assume(st, u.Eq(v, u.Nil(nil)), false)
			for _, k := range c.Kinds() {
				x.Assume(st, u.IsType(v, k), false)
			}
			return v
		}
		var recv, want *Val
		switch {
		case name == "Rule":
			recv = u.Sym("t", k)
		case fieldsOf(k) != nil:
			s := fieldsOf(k)
			var a, b []*Val
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), m.termI) && name != "REF" {
					v := sub("part" + s.Field(i).Name())
					a, b = append(a, v), append(b, res(v))
				} else {
					v := u.Sym("t."+s.Field(i).Name(), s.Field(i).Type())
					a, b = append(a, v), append(b, v)
				}
			}
			recv, want = u.Struct(k, a...), u.Iface(k, u.Struct(k, b...))
		default:
			if sl, ok := k.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), m.termI) {
				var a, b []*Val
				for i := 0; i < 3; i++ {
					v := sub(fmt.Sprintf("part%d", i))
					a, b = append(a, v), append(b, res(v))
				}
				recv, want = u.List(a...), u.Iface(k, u.List(b...))
			} else {
				recv = u.Sym("t", k)
				want = u.Iface(k, recv)
			}
		}
		n := 0
		for _, o := range x.Run(fn, []*Val{recv, old, new}, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C22.resolve", "panics")
				continue
			}
			n++
			w := want
			if name == "Rule" {
				w = u.Iface(k, recv)
				if eq, known := x.Decide(o.St, x.EqVal(recv, old)); known && eq {
					w = u.Iface(k, new)
				} else if !known {
					x.Report(o.St, o.Pos, "C22.resolve", "yields %s without comparing the rule with the one to be replaced", show(o.Res[0]))
					continue
				}
			}
			if !same(x, o.St, o.Res[0], w) {
				x.Report(o.St, o.Pos, "C22.resolve", "yields %s instead of %s", show(x.Reify(o.St, o.Res[0])), show(w))
			}
		}
		c.Check("C22.resolve", name, n > 0, fn.Pos(), "has no outcome")
		c.Done(x, "C22", name+".Resolve", fn)
	}
	m.resolveParts()
}

// resolveParts runs Resolve on terms that hold concrete terms, two deep.
func (m *refModel) resolveParts() {
	c, u := m.c, m.u
	var subst func(t rt) rt
	subst = func(t rt) rt {
		if t.kind == "Rule" && t.name == "@" {
			return ref("a@1")
		}
		var subs []rt
		for _, s := range t.subs {
			subs = append(subs, subst(s))
		}
		t.subs = subs
		return t
	}
	parts := []rt{ref("@"), ref("y"), namedT("n", ref("@")), namedT("n", ref("y")), quantT(ref("@")), lookT(ref("@")),
		delimT(ref("@"), ref("y"), false, false), delimT(ref("y"), ref("@"), true, false), seqT(ref("y"), ref("@")), oneofT(ref("@"), ref("y"))}
	wrap := map[string]func(t rt) rt{
		"sequence":    func(t rt) rt { return seqT(ref("y"), t, t) },
		"alternation": func(t rt) rt { return oneofT(t, ref("y"), t) },
		"repetition":  quantT,
		"look-ahead":  lookT,
		"name":        func(t rt) rt { return namedT("m", t) },
		"list":        func(t rt) rt { return delimT(t, ref("y"), false, true) },
		"separator":   func(t rt) rt { return delimT(ref("y"), t, false, false) },
	}
	var names []string
	for n := range wrap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i, part := range parts {
			t := wrap[n](part)
			name := fmt.Sprintf("%s of %s %d", n, part.kind, i)
			x := m.exec()
			st := absint.NewState()
			v := m.build(x, st, t)
			want := m.build(x, st, subst(t))
			fn := c.P.TypeMethod(v.Typ, "Resolve")
			k := 0
			for _, o := range x.Run(fn, []*Val{v.Args[0], u.Str("@"), u.Str("a@1")}, st) {
				if o.Panic != nil {
					x.Report(o.St, o.Pos, "C22.resolve", "panics")
					continue
				}
				k++
				if !same(x, o.St, o.Res[0], want) {
					x.Report(o.St, o.Pos, "C22.resolve", "yields %s instead of %s", show(x.Reify(o.St, o.Res[0])), show(want))
				}
			}
			c.Check("C22.resolve", name, k > 0, fn.Pos(), "has no outcome")
			c.Done(x, "C22", "Resolve of a "+name, fn)
		}
	}
}
