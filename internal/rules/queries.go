package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// C24: what is asked of a syntax tree is answered exactly.

func init() {
	register(&Prop{ID: "C24", Run: func(c *Ctx) { c.Queries() }, Technique: absTechnique, MinObl: 900,
		Covers: "ContentEquals of every kind of node on every pair of nodes of 17 shapes with unknown texts, extras and children; One, Many, First, All, Which and Choice on nodes of these shapes, for names that are there once, several times or not at all."})
}

type queryModel struct {
	c             *Ctx
	u             *absint.Universe
	nodeI, childI types.Type
	branch, leaf  types.Type
	extra         types.Type
	one, many     types.Type
}

// shape is a branch: how many children each name has; 0 is a single one.
type shape map[string]int

func (s shape) names() []string {
	var ns []string
	for n := range s {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (s shape) String() string {
	var ps []string
	for _, n := range s.names() {
		ps = append(ps, fmt.Sprintf("%q:%d", n, s[n]))
	}
	return "{" + strings.Join(ps, " ") + "}"
}

func (c *Ctx) Queries() {
	m := &queryModel{c: c, u: c.Exec().U}
	tn := func(n string) types.Type { return c.Named("ast", n) }
	m.nodeI, m.childI = tn("Node"), tn("Children")
	m.branch, m.leaf, m.extra, m.one, m.many = tn("Branch"), tn("Leaf"), tn("Extra"), tn("One"), tn("Many")
	shapes := []shape{{}, {"a": 0}, {"a": 1}, {"a": 2}, {"a": 3}, {"b": 0}, {"b": 2}, {"": 0}, {"": 2}, {"@choice": 0}, {"@rule": 0}, {"a": 0, "b": 0}, {"a": 0, "b": 2}, {"a": 2, "b": 0}, {"a": 2, "b": 2},
		{"@choice": 0, "a": 0}, {"a": 0, "b": 0, "": 2}}
	m.equality(shapes)
	for _, s := range shapes {
		m.lookups(s)
	}
	m.choice()
}

func (m *queryModel) exec() *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.MaxDepth = 20
	x.Unroll, x.UnrollSym = 20, 20
	x.Hooks.Inline = func(f *ssa.Function) bool { return true }
	u := m.u
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
		if ci.Fn != nil && ci.Fn.RelString(nil) == "("+"github.com/arr-ai/wbnf/parser.Scanner).String" {
			return ret(u.Call("text", 0, types.Typ[types.String], x.Reify(st, ci.Args[0])))
		}
		if ci.Method == nil || len(ci.Args) == 0 {
			return nil, false
		}
		recv := x.Reify(st, ci.Args[0])
		if recv.Op != absint.OSym {
			return nil, false
		}
		switch ci.Method.Name() {
		case "ContentEquals":
			other := x.Reify(st, ci.Args[1])
			if other.IsNil() {
				return ret(u.Bool(false))
			}
			return ret(m.same(recv, other))
		case "Scanner":
			return ret(u.Call("scanner", 0, ci.Method.Type().(*types.Signature).Results().At(0).Type(), recv))
		}
		return nil, false
	}
	return x
}

// same: the contents of two unknown nodes are equal.
func (m *queryModel) same(a, b *Val) *Val {
	if show(b) < show(a) {
		a, b = b, a
	}
	return m.u.Call("same", 0, types.Typ[types.Bool], a, b)
}

// kids of a branch, by name and position.
type kids map[string][]*Val

func (m *queryModel) mk(x *Exec, st *State, side string, s shape) (*Val, kids, map[string]*Val) {
	u := m.u
	ks, cs := kids{}, map[string]*Val{}
	var es []*Val
	for _, n := range s.names() {
		k := s[n]
		if k == 0 {
			k = 1
		}
		var l []*Val
		for i := 0; i < k; i++ {
			v := u.Sym(fmt.Sprintf("%s[%s].%d", side, n, i), m.nodeI)
			x.Assume(st, x.EqVal(v, u.Nil(m.nodeI)), false)
			l = append(l, v)
		}
		ks[n] = l
		var ch *Val
		if s[n] == 0 {
			ch = u.Iface(m.one, u.Struct(m.one, l[0]))
		} else {
			ch = u.Iface(m.many, u.List(l...))
		}
		cs[n] = ch
		es = append(es, u.Tuple(u.Str(n), ch))
	}
	tok := u.AllocTok(absint.OMap, side, m.branch)
	st.Mem[tok] = u.List(es...)
	return tok, ks, cs
}

type operand struct {
	name string
	typ  types.Type
	sh   shape
}

func (m *queryModel) equality(shapes []shape) {
	const rule = "C24.equality"
	u := m.u
	var ops []operand
	for _, s := range shapes {
		ops = append(ops, operand{"branch " + s.String(), m.branch, s})
	}
	ops = append(ops, operand{"leaf", m.leaf, nil}, operand{"extra", m.extra, nil})
	make := func(x *Exec, st *State, side string, o operand) (*Val, kids, *Val) {
		switch o.typ {
		case m.branch:
			b, ks, _ := m.mk(x, st, side, o.sh)
			return b, ks, nil
		case m.leaf:
			v := u.Sym(side+".leaf", m.leaf)
			return v, nil, v
		}
		d := u.Sym(side+".data", types.NewInterfaceType(nil, nil))
		return u.Struct(m.extra, d), nil, d
	}
	for _, a := range ops {
		fn := m.c.P.TypeMethod(a.typ, "ContentEquals")
		if fn == nil {
			panic(missing("ContentEquals of " + a.name))
		}
		for _, b := range ops {
			x, st := m.exec(), absint.NewState()
			va, ka, pa := make(x, st, "a", a)
			vb, kb, pb := make(x, st, "b", b)
			never := a.typ != b.typ || len(a.sh) != len(b.sh)
			for n, k := range a.sh {
				if kk, ok := b.sh[n]; !ok || kk != k {
					never = true
				}
			}
			var comps []comp
			if !never {
				switch a.typ {
				case m.branch:
					for _, n := range a.sh.names() {
						for i := range ka[n] {
							comps = append(comps, comp{fmt.Sprintf("child %d of %q", i, n), m.same(ka[n][i], kb[n][i])})
						}
					}
				case m.extra:
					comps = append(comps, comp{"the data", x.EqVal(pa, pb)})
				}
			}
			cons := a.name + " and " + b.name
			yes, no := false, false
			for _, o := range x.Run(fn, []*Val{va, u.Iface(b.typ, vb)}, st) {
				if o.Panic != nil {
					x.Report(o.St, o.Pos, rule, "comparing %s panics", cons)
					continue
				}
				if a.typ == m.leaf && !never && comps == nil {
					// texts of scanners
					text := func(p *Val) *Val {
						return u.Call("text", 0, types.Typ[types.String], p)
					}
					comps = []comp{{"the text", x.EqVal(text(pa), text(pb))}}
				}
				for _, want := range []bool{true, false} {
					s := o.St.Clone()
					if !x.Assume(s, o.Res[0], want) {
						continue
					}
					if want {
						yes = true
						if never {
							x.Report(s, o.Pos, rule, "%s can be found equal", cons)
							continue
						}
						for _, k := range comps {
							if !x.Known(s, k.eq, true) {
								x.Report(s, o.Pos, rule, "%s can be found equal although %s is not compared", cons, k.name)
							}
						}
						continue
					}
					no = true
					differs := never
					for _, k := range comps {
						differs = differs || x.Known(s, k.eq, false)
					}
					if !differs {
						x.Report(s, o.Pos, rule, "%s can be found different although they are equal", cons)
					}
				}
			}
			m.c.Done(x, rule, cons, fn)
			m.c.Check(rule, cons, (yes || never) && (no || len(comps) == 0 && !never), fn.Pos(), "the answer is always the same")
		}
	}
}

// lookups: One, Many, First, All and Which on a branch of a shape.
func (m *queryModel) lookups(s shape) {
	const rule = "C24.lookup"
	u := m.u
	run := func(fn *ssa.Function, what string, args func(x *Exec, st *State) []*Val, ok func(x *Exec, o *absint.Outcome) bool) {
		x, st := m.exec(), absint.NewState()
		n := 0
		for _, o := range x.Run(fn, args(x, st), st) {
			n++
			if o.Panic != nil {
				x.Report(o.St, o.Pos, rule, "%s panics", what)
			} else if !ok(x, o) {
				x.Report(o.St, o.Pos, rule, "%s gives %s", what, show(x.Reify(o.St, o.Res[0])))
			}
		}
		m.c.Done(x, rule, what, fn)
		m.c.Check(rule, what, n > 0, fn.Pos(), "no result")
	}
	list := func(x *Exec, o *absint.Outcome, want []*Val) bool {
		res := x.Reify(o.St, o.Res[0])
		if len(want) == 0 {
			return isNilOrEmpty(res)
		}
		if res.Op != absint.OList || len(res.Args) != len(want) {
			return false
		}
		for i, w := range want {
			if res.Args[i] != w {
				return false
			}
		}
		return true
	}
	single := func(x *Exec, o *absint.Outcome, want *Val) bool {
		res := x.Reify(o.St, o.Res[0])
		if want == nil {
			return res.IsNil()
		}
		return res == want
	}
	need := func(f *ssa.Function, what string) *ssa.Function {
		if f == nil {
			panic(missing(what))
		}
		return f
	}
	first, all, which := need(m.c.P.Func("ast", "First"), "ast.First"), need(m.c.P.Func("ast", "All"), "ast.All"), need(m.c.P.Func("ast", "Which"), "ast.Which")
	type kind struct {
		typ  types.Type
		name string
	}
	for _, k := range []kind{{m.branch, "branch " + s.String()}, {m.leaf, "leaf"}, {m.extra, "extra"}, {nil, "nil"}} {
		if k.typ != m.branch && len(s) > 0 {
			continue
		}
		one, many := (*ssa.Function)(nil), (*ssa.Function)(nil)
		if k.typ != nil {
			one, many = need(m.c.P.TypeMethod(k.typ, "One"), "One"), need(m.c.P.TypeMethod(k.typ, "Many"), "Many")
		}
		for _, name := range []string{"a", "b", "", "@choice", "@rule", "zz"} {
			var ks []*Val
			single1 := false
			self := func(x *Exec, st *State) *Val {
				switch k.typ {
				case m.branch:
					v, kk, _ := m.mk(x, st, "n", s)
					ks = kk[name]
					n, ok := s[name]
					single1 = ok && n == 0
					return v
				case nil:
					return u.Nil(m.nodeI)
				case m.leaf:
					return u.Sym("leaf", m.leaf)
				}
				return u.Struct(m.extra, u.Sym("data", types.NewInterfaceType(nil, nil)))
			}
			iface := func(x *Exec, st *State) []*Val {
				v := self(x, st)
				if k.typ != nil {
					v = u.Iface(k.typ, v)
				}
				return []*Val{v, u.Str(name)}
			}
			direct := func(x *Exec, st *State) []*Val { return []*Val{self(x, st), u.Str(name)} }
			at := func() *Val {
				if len(ks) > 0 {
					return ks[0]
				}
				return nil
			}
			of := fmt.Sprintf("(%q) of %s", name, k.name)
			run(first, "First"+of, iface, func(x *Exec, o *absint.Outcome) bool { return single(x, o, at()) })
			run(all, "All"+of, iface, func(x *Exec, o *absint.Outcome) bool { return list(x, o, ks) })
			if k.typ == nil {
				continue
			}
			run(one, "One"+of, direct, func(x *Exec, o *absint.Outcome) bool {
				if single1 {
					return single(x, o, at())
				}
				return single(x, o, nil)
			})
			run(many, "Many"+of, direct, func(x *Exec, o *absint.Outcome) bool {
				if single1 {
					return list(x, o, nil)
				}
				return list(x, o, ks)
			})
		}
	}
	for _, names := range [][]string{{"a"}, {"zz"}, {"a", "b"}, {"b", "a"}, {"zz", "b", "a"}, {"b", "", "zz"}, {"", "a", "b"}, {"a", "@choice"}, {"@rule", "@choice", "a"}, {"zz", "yy", ""}} {
		var want string
		var cs map[string]*Val
		what := fmt.Sprintf("Which%q of %s", names, s)
		run(which, what, func(x *Exec, st *State) []*Val {
			v, _, c := m.mk(x, st, "n", s)
			cs = c
			var l []*Val
			for _, n := range names {
				l = append(l, u.Str(n))
			}
			return []*Val{v, u.List(l...)}
		}, func(x *Exec, o *absint.Outcome) bool {
			var ch *Val
			want = ""
			for _, n := range names {
				if c, ok := cs[n]; ok {
					want, ch = n, c
					break
				}
			}
			got, ok := o.Res[0].StrConst()
			if !ok || got != want {
				return false
			}
			if ch == nil {
				return x.Reify(o.St, o.Res[1]).IsNil()
			}
			return x.Reify(o.St, o.Res[1]) == ch
		})
	}
}

// choice: the number of the alternative.
func (m *queryModel) choice() {
	const rule = "C24.choice"
	u := m.u
	fn := m.c.P.Func("ast", "Choice")
	if fn == nil {
		panic(missing("ast.Choice"))
	}
	choiceT := m.c.Named("parser", "Choice")
	extra := func(i int) *Val {
		return u.Iface(m.extra, u.Struct(m.extra, u.Iface(choiceT, u.Sym(fmt.Sprintf("choice%d", i), choiceT))))
	}
	for _, t := range []struct {
		name string
		node func(x *Exec, st *State) *Val
		want *Val
	}{
		{"nil", func(x *Exec, st *State) *Val { return u.Nil(m.nodeI) }, nil},
		{"leaf", func(x *Exec, st *State) *Val { return u.Iface(m.leaf, u.Sym("leaf", m.leaf)) }, nil},
		{"extra", func(x *Exec, st *State) *Val { return extra(0) }, nil},
		{"one", func(x *Exec, st *State) *Val {
			return m.choices(st, u.Iface(m.one, u.Struct(m.one, extra(0))))
		}, u.Sym("choice0", choiceT)},
		{"several", func(x *Exec, st *State) *Val {
			return m.choices(st, u.Iface(m.many, u.List(extra(0), extra(1))))
		}, u.Sym("choice0", choiceT)},
		{"without", func(x *Exec, st *State) *Val {
			v, _, _ := m.mk(x, st, "n", shape{"a": 0, "@rule": 0})
			return u.Iface(m.branch, v)
		}, nil},
	} {
		x, st := m.exec(), absint.NewState()
		n := 0
		for _, o := range x.Run(fn, []*Val{t.node(x, st)}, st) {
			n++
			want := t.want
			if want == nil {
				want = u.Int(-1)
			}
			if o.Panic != nil {
				x.Report(o.St, o.Pos, rule, "Choice panics")
			} else if o.Res[0] != want && !x.Known(o.St, x.EqVal(o.Res[0], want), true) {
				x.Report(o.St, o.Pos, rule, "Choice gives %s", show(o.Res[0]))
			}
		}
		m.c.Done(x, rule, "Choice of "+t.name, fn)
		m.c.Check(rule, "Choice of "+t.name, n > 0, fn.Pos(), "no result")
	}
}

func (m *queryModel) choices(st *State, ch *Val) *Val {
	tok := m.u.AllocTok(absint.OMap, "n", m.branch)
	st.Mem[tok] = m.u.List(m.u.Tuple(m.u.Str("@choice"), ch), m.u.Tuple(m.u.Str("a"), ch))
	return m.u.Iface(m.branch, tok)
}
