package rules

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C17", Run: func(c *Ctx) { c.AstConv() }, Technique: absTechnique, MinObl: 40,
		Covers: "The counting of a term's children is interpreted on each kind of term whose parts hold a name 0, 1 or many times, in each context, and compared with how often the kind's parts can occur; the decision between a single child and a list and the filing and taking of children are interpreted over all counts up to 2..2; the conversion of each kind's tree node is interpreted with opaque parts: every child has to be converted once, in order, with the term that produced it, and filed under the name and count by which the conversion back, interpreted likewise, takes it."})
}

// convModel knows the functions that convert between trees and ASTs, told
// apart by their signatures.
type convModel struct {
	*astModel
	countersT, counterT       types.Type
	treeI                     types.Type
	extraI, pnodeT, ruleT     types.Type
	fNew, fCount, fAdd, fPull *ssa.Function
	from, to, enter, leave    *ssa.Function
	files, takes              []*ssa.Function
	globals                   *State
	manyLike                  map[*ssa.Function]bool
	oneLike                   map[*ssa.Function]bool
	takeMany, takeOne         map[*ssa.Function]bool
	sums                      map[*Val]map[string][2]int64
}

func paramOf(f *ssa.Function, t types.Type) int {
	for i, p := range f.Params {
		if types.Identical(p.Type(), t) {
			return i
		}
	}
	return -1
}

// sigIs: the parameters have exactly the given types, in any order.
func sigIs(f *ssa.Function, ts ...types.Type) bool {
	if len(f.Params) != len(ts) {
		return false
	}
	used := map[int]bool{}
	for _, t := range ts {
		ok := false
		for i, p := range f.Params {
			if !used[i] && types.Identical(p.Type(), t) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func resultIs(f *ssa.Function, ts ...types.Type) bool {
	r := f.Signature.Results()
	if r.Len() != len(ts) {
		return false
	}
	for i, t := range ts {
		if !types.Identical(r.At(i).Type(), t) {
			return false
		}
	}
	return true
}

func (c *Ctx) convModel() *convModel {
	m := &convModel{astModel: c.astModel(), treeI: c.Named("parser", "TreeElement"), extraI: c.Named("parser", "Extra"),
		pnodeT: c.Named("parser", "Node"), ruleT: c.Named("parser", "Rule"),
		manyLike: map[*ssa.Function]bool{}, oneLike: map[*ssa.Function]bool{},
		takeMany: map[*ssa.Function]bool{}, takeOne: map[*ssa.Function]bool{}, sums: map[*Val]map[string][2]int64{}}
	sp := c.P.SSA["ast"]
	if sp == nil {
		panic(missing("package ast"))
	}
	// a map from names to pairs of numbers
	for _, n := range sortedMembers(sp) {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		mt, ok := t.Type().Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Key(), types.Typ[types.String]) {
			continue
		}
		s := fieldsOf(mt.Elem())
		if s != nil && s.NumFields() == 2 && isInt(s.Field(0).Type()) && isInt(s.Field(1).Type()) {
			m.countersT, m.counterT = t.Type(), mt.Elem()
		}
	}
	if m.countersT == nil {
		panic(missing("the counts of a term's children"))
	}
	str := types.Typ[types.String]
	set := func(dst **ssa.Function, f *ssa.Function, what string) {
		if *dst != nil {
			panic(missing("a single function " + what))
		}
		*dst = f
	}
	for _, f := range c.allFuncs() {
		if f.Pkg != sp || f.Parent() != nil {
			continue
		}
		switch {
		case sigIs(f, m.termI) && resultIs(f, m.countersT):
			set(&m.fNew, f, "that counts a term's children")
		case sigIs(f, m.countersT, m.termI, m.counterT):
			set(&m.fCount, f, "that adds the children of a term")
		case sigIs(f, m.branchT, str, m.nodeI, m.counterT):
			set(&m.fAdd, f, "that files a child by its count")
		case sigIs(f, m.branchT, str, m.counterT) && resultIs(f, m.nodeI):
			set(&m.fPull, f, "that takes a child by its count")
		case sigIs(f, m.branchT, str, m.nodeI) && resultIs(f):
			m.files = append(m.files, f)
		case sigIs(f, m.branchT, str) && resultIs(f, m.nodeI) && changesMap(f):
			m.takes = append(m.takes, f)
		case sigIs(f, m.branchT, m.grammarT, m.termI, m.countersT, m.treeI):
			set(&m.from, f, "that converts a tree node")
		case sigIs(f, m.branchT, m.grammarT, m.termI, m.countersT) && resultIs(f, m.treeI):
			set(&m.to, f, "that converts back")
		case f.Name() == "FromParserNode" && f.Signature.Recv() == nil:
			m.enter = f
		case f.Name() == "ToParserNode" && f.Signature.Recv() == nil:
			m.leave = f
		}
	}
	for what, f := range map[string]*ssa.Function{"counts": m.fNew, "adds counts": m.fCount, "files": m.fAdd, "takes": m.fPull,
		"converts": m.from, "converts back": m.to, "converts a tree": m.enter, "converts an AST back": m.leave} {
		if f == nil {
			panic(missing("the function of package ast that " + what))
		}
	}
	m.initGlobals(sp)
	return m
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sortedMembers(sp *ssa.Package) []string {
	var ns []string
	for n := range sp.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// changesMap: the function changes the map it is given.
func changesMap(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					return true
				}
			}
		}
	}
	return false
}

// initGlobals evaluates the package's variables.
func (m *convModel) initGlobals(sp *ssa.Package) {
	x := m.c.Exec()
	x.U = m.u
	u := m.u
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Pkg != sp {
			return []absint.Out{{St: st}}, true
		}
		if c.Fn != nil && c.Fn.RelString(nil) == "regexp.MustCompile" {
			return []absint.Out{{St: st, Val: u.Call("regexp", 0, c.Fn.Signature.Results().At(0).Type(), c.Args[0])}}, true
		}
		return nil, false
	}
	f := sp.Func("init")
	if f == nil {
		panic(missing("the initialisation of package ast"))
	}
	for _, o := range x.Run(f, nil, absint.NewState()) {
		if o.Panic == nil && (m.globals == nil || len(o.St.Mem) > len(m.globals.Mem)) {
			m.globals = o.St
		}
	}
	if m.globals == nil {
		panic(missing("the values of package ast's variables"))
	}
	m.globals.Frames = nil
}

func (m *convModel) state() *State { return m.globals.Clone() }

// exec interprets with the pattern matches of constants evaluated.
func (m *convModel) exec(hook func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool)) *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.MaxDepth = 40
	u := m.u
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn != nil {
			switch c.Fn.RelString(nil) {
			case "(*regexp.Regexp).FindStringSubmatch":
				if re := x.Reify(st, c.Args[0]); re.Op == absint.OCall && re.Aux == "regexp" {
					p, ok1 := re.Args[0].StrConst()
					s, ok2 := c.Args[1].StrConst()
					r, err := regexp.Compile(p)
					if ok1 && ok2 && err == nil {
						ms := r.FindStringSubmatch(s)
						if ms == nil {
							return []absint.Out{{St: st, Val: u.Nil(nil)}}, true
						}
						var vs []*Val
						for _, x := range ms {
							vs = append(vs, u.Str(x))
						}
						return []absint.Out{{St: st, Val: u.List(vs...)}}, true
					}
				}
			case "strconv.Atoi":
				if s, ok := c.Args[0].StrConst(); ok {
					n := int64(0)
					if _, err := fmt.Sscanf(s, "%d", &n); err == nil {
						return []absint.Out{{St: st, Val: u.Tuple(u.Int(n), u.Nil(nil))}}, true
					}
				}
			}
		}
		if hook != nil {
			return hook(x, st, c)
		}
		return nil, false
	}
	return x
}

// AstConv decides C17.
func (c *Ctx) AstConv() {
	m := c.convModel()
	m.counting()
	m.filing()
	m.converting()
	m.convertingBack()
}

// opaqueTerm is a term of unknown kind that holds names a known number of times.
func (m *convModel) opaqueTerm(x *Exec, st *State, name string, sum map[string][2]int64) *Val {
	v := m.u.Sym(name, m.termI)
	x.Assume(st, m.u.Eq(v, m.u.Nil(nil)), false)
	for _, k := range m.c.Kinds() {
		x.Assume(st, m.u.IsType(v, k), false)
	}
	if sum != nil {
		m.sums[v] = sum
	}
	return v
}

func (m *convModel) counter(lo, hi int64) *Val {
	return m.u.Struct(m.counterT, m.u.Int(lo), m.u.Int(hi))
}

func (m *convModel) counterOf(x *Exec, st *State, v *Val) (lo, hi int64, ok bool) {
	v = x.Reify(st, v)
	lo, ok1 := m.u.Field(v, 0, nil).IntConst()
	hi, ok2 := m.u.Field(v, 1, nil).IntConst()
	return lo, hi, ok1 && ok2
}

// counts reads a table of counts.
func (m *convModel) countsOf(x *Exec, st *State, v *Val) (map[string][2]int64, bool) {
	es, ok := x.Entries(st, v)
	if !ok {
		return nil, false
	}
	out := map[string][2]int64{}
	for _, e := range es {
		k, ok := e.Args[0].StrConst()
		lo, hi, ok2 := m.counterOf(x, st, e.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		out[k] = [2]int64{lo, hi}
	}
	return out, true
}

const manyTimes = int64(1 << 20)

// counting: counts never fall short of how often a name can occur.
func (m *convModel) counting() {
	u := m.u
	type occ map[string]int64
	cs := [][2]int64{{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}, {2, 2}}
	parents := [][2]int64{{1, 1}, {0, 1}, {0, 2}, {1, 2}, {2, 2}}
	type sample struct {
		kind string
		what string
		mk   func(x *Exec, st *State) *Val
		occ  occ
	}
	var samples []sample
	sum := func(c [2]int64, name string) map[string][2]int64 {
		if c[1] == 0 {
			return map[string][2]int64{}
		}
		return map[string][2]int64{name: c}
	}
	times := func(a, b int64) int64 {
		if a == 0 || b == 0 {
			return 0
		}
		return a * b
	}
	for _, k := range m.c.Kinds() {
		k := k
		name := typeName(k)
		add := func(what string, mk func(x *Exec, st *State) *Val, o occ) {
			samples = append(samples, sample{name, what, mk, o})
		}
		term := func(fields func(x *Exec, st *State) map[string]*Val) func(x *Exec, st *State) *Val {
			return func(x *Exec, st *State) *Val { return m.symTerm(k, fields(x, st)) }
		}
		switch name {
		case "Stack":
			// replaced by plain rules before anything is parsed
		case "S", "RE":
			add("", func(x *Exec, st *State) *Val { return u.Iface(k, u.Sym("t", k)) }, occ{"": 1})
		case "Rule":
			add("", func(x *Exec, st *State) *Val { return u.Iface(k, u.Str("r")) }, occ{"r": 1})
			add("level", func(x *Exec, st *State) *Val { return u.Iface(k, u.Str("r@2")) }, occ{"r": 1})
		case "ExtRef":
			add("", func(x *Exec, st *State) *Val { return u.Iface(k, u.Str("e")) }, occ{"e": 1})
		case "Named":
			add("", term(func(x *Exec, st *State) map[string]*Val {
				return map[string]*Val{"Name": u.Str("n"), "Term": m.opaqueTerm(x, st, "X", map[string][2]int64{"q": {1, 2}})}
			}), occ{"n": 1})
		case "REF":
			add("", term(func(x *Exec, st *State) map[string]*Val {
				return map[string]*Val{"Ident": u.Str("i")}
			}), occ{"i": manyTimes})
		case "CutPoint", "LookAhead", "ScopedGrammar":
			for _, c := range cs {
				c := c
				add(fmt.Sprint(c), term(func(x *Exec, st *State) map[string]*Val {
					return map[string]*Val{"Term": m.opaqueTerm(x, st, "X", sum(c, "n"))}
				}), occ{"n": c[1]})
			}
		case "Quant":
			for _, c := range cs {
				c := c
				for _, q := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 2}, {2, 2}, {2, 3}, {0, 7}, {3, 0}} {
					q := q
					n := q[1]
					if n == 0 {
						n = manyTimes
					}
					add(fmt.Sprint(c, q), term(func(x *Exec, st *State) map[string]*Val {
						return map[string]*Val{"Term": m.opaqueTerm(x, st, "X", sum(c, "n")), "Min": u.Int(q[0]), "Max": u.Int(q[1])}
					}), occ{"n": times(c[1], n)})
				}
			}
		case "Delim":
			for _, c := range cs {
				for _, d := range cs {
					c, d := c, d
					add(fmt.Sprint(c, d), term(func(x *Exec, st *State) map[string]*Val {
						return map[string]*Val{"Term": m.opaqueTerm(x, st, "X", sum(c, "n")), "Sep": m.opaqueTerm(x, st, "Y", sum(d, "n"))}
					}), occ{"n": times(c[1], manyTimes) + times(d[1], manyTimes)})
					add(fmt.Sprint(c, d, "apart"), term(func(x *Exec, st *State) map[string]*Val {
						return map[string]*Val{"Term": m.opaqueTerm(x, st, "X", sum(c, "n")), "Sep": m.opaqueTerm(x, st, "Y", sum(d, "m"))}
					}), occ{"n": times(c[1], manyTimes), "m": times(d[1], manyTimes)})
				}
			}
		case "Seq", "Oneof":
			sub := func(cs ...[2]int64) func(x *Exec, st *State) *Val {
				return func(x *Exec, st *State) *Val {
					var ts []*Val
					for i, c := range cs {
						ts = append(ts, m.opaqueTerm(x, st, fmt.Sprintf("X%d", i), sum(c, "n")))
					}
					return u.Iface(k, u.List(ts...))
				}
			}
			join := func(a, b int64) int64 { return a + b }
			if name == "Oneof" {
				join = func(a, b int64) int64 {
					if a > b {
						return a
					}
					return b
				}
			}
			for _, c := range cs {
				add(fmt.Sprint(c), sub(c), occ{"n": c[1]})
				for _, d := range cs {
					add(fmt.Sprint(c, d), sub(c, d), occ{"n": join(c[1], d[1])})
					c, d := c, d
					add(fmt.Sprint(c, d, "apart"), func(x *Exec, st *State) *Val {
						return u.Iface(k, u.List(m.opaqueTerm(x, st, "X0", sum(c, "n")), m.opaqueTerm(x, st, "X1", sum(d, "m"))))
					}, occ{"n": c[1], "m": d[1]})
					for _, e := range [][2]int64{{0, 0}, {0, 1}, {1, 1}} {
						add(fmt.Sprint(c, d, e), sub(c, d, e), occ{"n": join(join(c[1], d[1]), e[1])})
					}
				}
			}
		default:
			m.c.Check("C17.count", name, false, m.fCount.Pos(), "how often the parts of a %s occur is not known", name)
		}
	}
	at := paramOf(m.fCount, m.termI)
	hook := func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn != m.fCount {
			return nil, false
		}
		s, ok := m.sums[c.Args[at]]
		if !ok {
			return nil, false
		}
		lo, hi, ok := m.counterOf(x, st, c.Args[paramOf(m.fCount, m.counterT)])
		tab := c.Args[paramOf(m.fCount, m.countersT)]
		old, ok2 := m.countsOf(x, st, tab)
		if !ok || !ok2 {
			x.Report(st, c.Pos, "C17.count", "cannot tell in what context a part is counted")
			return []absint.Out{{St: st}}, true
		}
		if st.Mem[tab] == nil {
			st.Mem[tab] = u.List()
		}
		for n, c := range s {
			st.Mem[tab] = u.Append(st.Mem[tab], u.List(u.Tuple(u.Str(n), m.counter(old[n][0]+lo*c[0], old[n][1]+hi*c[1]))))
		}
		return []absint.Out{{St: st}}, true
	}
	for _, s := range samples {
		for _, p := range parents {
			for _, base := range []int64{0, 1} {
				x := m.exec(hook)
				st := m.state()
				t := s.mk(x, st)
				tab := u.AllocTok(absint.OMap, "counts", m.countersT)
				var es []*Val
				before := map[string]int64{}
				if base > 0 {
					for n := range s.occ {
						before[n] = base
						es = append(es, u.Tuple(u.Str(n), m.counter(0, base)))
					}
				}
				st.Mem[tab] = u.List(es...)
				args := make([]*Val, len(m.fCount.Params))
				args[at], args[paramOf(m.fCount, m.countersT)], args[paramOf(m.fCount, m.counterT)] = t, tab, m.counter(p[0], p[1])
				good := 0
				st.TS["keep"] = tab
				for _, o := range x.Run(m.fCount, args, st) {
					if o.Panic != nil {
						x.Report(o.St, o.Pos, "C17.count", "counting panics")
						continue
					}
					got, ok := m.countsOf(x, o.St, tab)
					if !ok {
						x.Report(o.St, o.Pos, "C17.count", "the counts are %s", show(x.Reify(o.St, tab)))
						continue
					}
					bad := false
					for n, k := range s.occ {
						want := before[n] + times(k, p[1])
						if want > 2 {
							want = 2
						}
						if got[n][1] < want {
							x.Report(o.St, o.Pos, "C17.count", "parts %s in a context that occurs up to %d times: %q is counted at most %d times, but can occur %d times", s.what, p[1], n, got[n][1], want)
							bad = true
						}
						if got[n][0] < 0 {
							x.Report(o.St, o.Pos, "C17.count", "the minimum for %q is negative", n)
							bad = true
						}
					}
					if !bad {
						good++
					}
				}
				m.c.Done(x, "C17.count", s.kind, m.fCount)
				m.c.Check("C17.count", s.kind, good > 0, m.fCount.Pos(), "nothing is counted")
			}
		}
	}
	// the counts of a term alone
	x := m.exec(hook)
	st := m.state()
	t := m.opaqueTerm(x, st, "X", map[string][2]int64{"n": {0, 1}, "m": {1, 1}, "k": {0, 2}})
	good := 0
	for _, o := range x.Run(m.fNew, []*Val{t}, st) {
		if o.Panic != nil {
			continue
		}
		got, ok := m.countsOf(x, o.St, o.Res[0])
		if ok && len(got) == 3 && got["n"][1] >= 1 && got["m"][1] >= 1 && got["k"][1] >= 2 {
			good++
		} else {
			x.Report(o.St, o.Pos, "C17.count", "the counts of a term are not those of its children in a context of one")
		}
	}
	m.c.Done(x, "C17.count", "whole term", m.fNew)
	m.c.Check("C17.count", "whole term", good > 0, m.fNew.Pos(), "nothing is counted")
}

// symTerm builds a term with symbols for the fields not given.
func (m *convModel) symTerm(k types.Type, fields map[string]*Val) *Val {
	s := fieldsOf(k)
	var fs []*Val
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if v, ok := fields[f.Name()]; ok {
			fs = append(fs, v)
			n++
			continue
		}
		fs = append(fs, m.u.Sym("t."+f.Name(), f.Type()))
	}
	if n != len(fields) {
		panic(missing("a field of " + typeName(k)))
	}
	return m.u.Iface(k, m.u.Struct(k, fs...))
}

// place puts arguments where their types belong.
func place(f *ssa.Function, vals map[types.Type]*Val) []*Val {
	out := make([]*Val, len(f.Params))
	for t, v := range vals {
		if i := paramOf(f, t); i >= 0 {
			out[i] = v
		}
	}
	for i := range out {
		if out[i] == nil {
			panic(missing("parameters of " + f.Name()))
		}
	}
	return out
}

// filing: a name gets a single child or a list by its count, nothing filed is
// lost, and the way back takes children by the same rule, in order.
func (m *convModel) filing() {
	u := m.u
	str := types.Typ[types.String]
	n1, n2, n3 := u.Sym("n1", m.nodeI), u.Sym("n2", m.nodeI), u.Sym("n3", m.nodeI)
	oneV := func(n *Val) *Val { return u.Iface(m.oneT, u.Struct(m.oneT, n)) }
	manyV := func(ns ...*Val) *Val { return u.Iface(m.manyT, u.List(ns...)) }
	branch := func(st *State, v *Val) *Val {
		b := u.AllocTok(absint.OMap, "branch", m.branchT)
		es := []*Val{u.Tuple(u.Str("other"), oneV(n3))}
		if v != nil {
			es = append(es, u.Tuple(u.Str("k"), v))
		}
		st.Mem[b] = u.List(es...)
		st.TS["keep"] = b
		return b
	}
	child := func(x *Exec, st *State, b *Val) (*Val, bool) {
		es, ok := x.Entries(st, b)
		if !ok {
			return nil, false
		}
		var got *Val
		other := false
		for _, e := range es {
			switch k, _ := e.Args[0].StrConst(); k {
			case "k":
				got = e.Args[1]
			case "other":
				other = same(x, st, e.Args[1], oneV(n3))
			default:
				return nil, false
			}
		}
		return got, other
	}
	// file runs a filing function; "" means that it panics
	file := func(f *ssa.Function, ctr *Val, was *Val, n *Val) string {
		x := m.exec(nil)
		st := m.state()
		b := branch(st, was)
		vals := map[types.Type]*Val{m.branchT: b, str: u.Str("k"), m.nodeI: n}
		if ctr != nil {
			vals[m.counterT] = ctr
		}
		res := "none"
		for _, o := range x.Run(f, place(f, vals), st) {
			r := "panic"
			if o.Panic == nil {
				got, ok := child(x, o.St, b)
				switch {
				case !ok || got == nil:
					r = "lost"
				case same(x, o.St, got, oneV(n)):
					r = "one"
				case same(x, o.St, got, manyV(n)):
					r = "list"
				case was != nil && same(x, o.St, got, manyV(n1, n)):
					r = "appended"
				default:
					r = show(x.Reify(o.St, got))
				}
			}
			if res != "none" && res != r {
				r = "either"
			}
			res = r
		}
		for fn := range x.Inlined {
			m.c.Funcs[fn.RelString(nil)] = true
		}
		m.c.States += x.States
		if len(x.Undecided) > 0 {
			return "undecided: " + x.Undecided[0]
		}
		return res
	}
	kindOf := func(f *ssa.Function, ctr *Val) string {
		empty, hasMany, hasOne := file(f, ctr, nil, n2), file(f, ctr, manyV(n1), n2), file(f, ctr, oneV(n1), n2)
		switch {
		case empty == "one" && hasMany == "panic" && hasOne == "panic":
			return "one"
		case empty == "list" && hasMany == "appended" && hasOne == "panic":
			return "many"
		case empty == "panic" && hasMany == "panic" && hasOne == "panic":
			return "never"
		}
		return fmt.Sprintf("first %s, onto a list %s, onto a single child %s", empty, hasMany, hasOne)
	}
	for _, f := range m.files {
		switch k := kindOf(f, nil); k {
		case "one":
			m.oneLike[f] = true
		case "many":
			m.manyLike[f] = true
		default:
			m.c.Check("C17.file", f.Name(), false, f.Pos(), "filing a child: %s", k)
		}
		m.c.Check("C17.file", f.Name(), true, f.Pos(), "")
	}
	// take runs a function that takes a child
	take := func(f *ssa.Function, ctr *Val, was *Val) string {
		x := m.exec(nil)
		st := m.state()
		b := branch(st, was)
		for _, n := range []*Val{n1, n2, n3} {
			x.Assume(st, x.EqVal(n, u.Nil(nil)), false)
		}
		vals := map[types.Type]*Val{m.branchT: b, str: u.Str("k")}
		if ctr != nil {
			vals[m.counterT] = ctr
		}
		res := "none"
		for _, o := range x.Run(f, place(f, vals), st) {
			r := "panic"
			if o.Panic == nil {
				left, ok := child(x, o.St, b)
				v := o.Res[0]
				rest := "?"
				switch {
				case !ok:
					rest = "lost"
				case left == nil:
					rest = "nothing"
				case same(x, o.St, left, manyV(n2)):
					rest = "second"
				case was != nil && same(x, o.St, left, was):
					rest = "all"
				}
				switch {
				case v.IsNil():
					r = "nil"
				case v == n1:
					r = "first"
				case v == n2:
					r = "last"
				default:
					r = show(v)
				}
				r += " leaving " + rest
			}
			if res != "none" && res != r {
				r = "either"
			}
			res = r
		}
		for fn := range x.Inlined {
			m.c.Funcs[fn.RelString(nil)] = true
		}
		m.c.States += x.States
		if len(x.Undecided) > 0 {
			return "undecided: " + x.Undecided[0]
		}
		return res
	}
	takeKind := func(f *ssa.Function, ctr *Val) string {
		none, single, list1, list2 := take(f, ctr, nil), take(f, ctr, oneV(n1)), take(f, ctr, manyV(n1)), take(f, ctr, manyV(n1, n2))
		switch {
		case none == "nil leaving nothing" && single == "first leaving nothing" && list2 != "first leaving nothing" && list1 != "first leaving second":
			if list2 != "first leaving second" {
				return "one"
			}
		case none == "nil leaving nothing" && list1 == "first leaving nothing" && list2 == "first leaving second":
			return "many"
		case none == "panic":
			return "never"
		}
		return fmt.Sprintf("from nothing %s, from a single child %s, from a list of one %s, of two %s", none, single, list1, list2)
	}
	for _, f := range m.takes {
		switch k := takeKind(f, nil); k {
		case "one":
			m.takeOne[f] = true
		case "many":
			m.takeMany[f] = true
		default:
			m.c.Check("C17.take", f.Name(), false, f.Pos(), "taking a child: %s", k)
		}
		m.c.Check("C17.take", f.Name(), true, f.Pos(), "")
	}
	for lo := int64(0); lo <= 3; lo++ {
		for hi := lo; hi <= 3; hi++ {
			ctr := m.counter(lo, hi)
			cons := fmt.Sprintf("%d..%d", lo, hi)
			k := kindOf(m.fAdd, ctr)
			ok := k == "many" || k == "one" && hi <= 1 || k == "never" && hi == 0
			m.c.Check("C17.file", cons, ok, m.fAdd.Pos(), "a child that occurs %s times: %s", cons, k)
			tk := takeKind(m.fPull, ctr)
			m.c.Check("C17.take", cons, tk == k, m.fPull.Pos(), "a child that occurs %s times is filed as %s but taken as %s", cons, k, tk)
		}
	}
}

// body is what a map holds.
func (m *convModel) body(st *State, b *Val) *Val {
	if v := st.Mem[b]; v != nil {
		return v
	}
	return m.u.List()
}

// mark is an entry that records what was done to a branch.
func (m *convModel) mark(st *State, b *Val, x *Exec, what string, vs ...*Val) {
	u := m.u
	e := u.Tuple(append([]*Val{u.Call("event", 0, nil, u.Str(what))}, vs...)...)
	body := m.body(st, b)
	st.Mem[b] = u.Append(body, u.List(e))
}

func isEvent(v *Val, what string, n int) bool {
	if v.Op != absint.OTuple || len(v.Args) != n+1 || v.Args[0].Op != absint.OCall || v.Args[0].Aux != "event" {
		return false
	}
	s, _ := v.Args[0].Args[0].StrConst()
	return s == what
}

func showEvents(u *absint.Universe, es []*Val) string {
	s := show(u.List(es...))
	return strings.NewReplacer("ast.", "", "parser.", "").Replace(s)
}

func (m *convModel) counterAt(ctrs *Val, name string) *Val {
	return m.u.Lookup(ctrs, m.u.Str(name), 0, m.counterT)
}

// converting: each kind of tree node becomes the children its parts become.
func (m *convModel) converting() {
	u := m.u
	fn := m.from
	iB, iG, iT, iC, iE := paramOf(fn, m.branchT), paramOf(fn, m.grammarT), paramOf(fn, m.termI), paramOf(fn, m.countersT), paramOf(fn, m.treeI)
	var root *Val
	hook := func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
		switch {
		case c.Fn == nil:
			return nil, false
		case c.Fn == fn:
			m.mark(st, c.Args[iB], x, "convert", x.Reify(st, c.Args[iG]), x.Reify(st, c.Args[iT]), c.Args[iC], x.Reify(st, c.Args[iE]))
			return ret(nil)
		case c.Fn == m.fNew:
			return ret(u.Call("counts", 0, m.countersT, c.Args[0]))
		case c.Fn == m.fCount:
			return ret(nil) // counts more
		case c.Fn == m.fAdd:
			g := func(t types.Type) *Val { return c.Args[paramOf(m.fAdd, t)] }
			m.mark(st, g(m.branchT), x, "add", g(types.Typ[types.String]), x.Reify(st, g(m.nodeI)), x.Reify(st, g(m.counterT)))
			return ret(nil)
		case m.oneLike[c.Fn] || m.manyLike[c.Fn]:
			g := func(t types.Type) *Val { return c.Args[paramOf(c.Fn, t)] }
			what := "one"
			if m.manyLike[c.Fn] {
				what = "many"
			}
			m.mark(st, g(m.branchT), x, what, g(types.Typ[types.String]), x.Reify(st, g(m.nodeI)))
			return ret(nil)
		}
		return nil, false
	}
	type want struct {
		what string
		vals []*Val
		comp bool // for each child, over ι
	}
	g := u.Sym("g", m.grammarT)
	ctrs := u.Sym("ctrs", m.countersT)
	conv := func(t, e *Val) want { return want{what: "convert", vals: []*Val{g, t, ctrs, e}} }
	add := func(name string, n *Val) want {
		return want{what: "add", vals: []*Val{u.Str(name), n, m.counterAt(ctrs, name)}}
	}
	scannerEl := func() *Val { return u.Iface(m.scannerT, u.Sym("text", m.scannerT)) }
	leaf := u.Iface(m.leafT, u.Sym("text", m.scannerT))
	nodeEl := func(tag *Val, extra *Val, children *Val) *Val {
		return u.Iface(m.pnodeT, m.structOf(m.pnodeT, map[string]*Val{"Tag": tag, "Extra": extra, "Children": children}))
	}
	anyTag := u.Sym("tag", types.Typ[types.String])
	assocT := m.c.Named("parser", "Associativity")
	emptyT := m.c.Named("parser", "Empty")
	emptyEl := u.Iface(emptyT, u.Zero(emptyT))
	assoc := func(n int64) *Val { return u.Iface(assocT, u.Int(n)) }
	sameV := func(x *Exec, st *State, a, b *Val) bool {
		strip := func(v *Val) *Val {
			if v.Op == absint.OIface && types.Identical(v.Typ, m.leafT) {
				w := v.Args[0]
				for w.Op == absint.OConv {
					w = w.Args[0]
				}
				return u.Iface(m.leafT, w)
			}
			return v
		}
		a, b = strip(x.Reify(st, a)), strip(x.Reify(st, b))
		return a == b || same(x, st, a, b)
	}
	// match compares what was done to a branch with what should be.
	var match func(x *Exec, st *State, b *Val, ws []want) string
	match = func(x *Exec, st *State, b *Val, ws []want) string {
		body := m.body(st, b)
		body = x.Norm(st, x.Reify(st, body))
		el, comps, ok := flatList(body)
		if !ok {
			return "what is filed is " + show(body)
		}
		if len(ws) == 1 && ws[0].comp {
			w := ws[0]
			list := w.vals[3]
			if x.Bounds(st, u.Len(list)).Hi <= 0 && len(el) == 0 && len(comps) == 0 {
				return ""
			}
			if len(el) != 0 || len(comps) != 1 || comps[0].Args[3] != u.Int(0) || !x.ProveEq(st, comps[0].Args[4], u.Len(list)) ||
				comps[0].Args[1].Op != absint.OList || len(comps[0].Args[1].Args) != 1 {
				return "the children are converted as " + show(body)
			}
			e, iota := comps[0].Args[1].Args[0], comps[0].Args[2]
			if !isEvent(e, "convert", 4) {
				return "the children are converted as " + show(body)
			}
			t := w.vals[1]
			if isSliceTyped(t) {
				t = u.Index(t, iota, m.termI)
			}
			if !sameV(x, st, e.Args[1], w.vals[0]) || e.Args[2] != t || e.Args[3] != w.vals[2] || e.Args[4] != u.Index(list, iota, m.treeI) {
				return "a child is converted as " + show(e)
			}
			return ""
		}
		if len(comps) != 0 || len(el) != len(ws) {
			return fmt.Sprintf("%d things are filed instead of %d: %s", len(el), len(ws), showEvents(u, el))
		}
		for i, w := range ws {
			e := el[i]
			if !isEvent(e, w.what, len(w.vals)) {
				return fmt.Sprintf("%s happens instead of %s", show(e), w.what)
			}
			for j, v := range w.vals {
				if v == nil {
					continue
				}
				if !sameV(x, st, e.Args[j+1], v) {
					return fmt.Sprintf("%s with %s instead of %s", w.what, show(e.Args[j+1]), show(v))
				}
			}
		}
		return ""
	}
	// inner compares a branch made for a child.
	inner := func(x *Exec, st *State, n *Val, ws []want) string {
		n = x.Reify(st, n)
		if n.Op != absint.OIface || !types.Identical(n.Typ, m.branchT) {
			return "the child is " + show(n)
		}
		return match(x, st, n.Args[0], ws)
	}
	type test struct {
		kind, what string
		setup      func(x *Exec, st *State) (t, e *Val)
		judge      func(x *Exec, st *State) string
	}
	var tests []test
	flat := func(kind, what string, setup func(x *Exec, st *State) (t, e *Val, ws []want)) {
		var ws []want
		tests = append(tests, test{kind, what, func(x *Exec, st *State) (*Val, *Val) {
			t, e, w := setup(x, st)
			ws = w
			return t, e
		}, func(x *Exec, st *State) string { return match(x, st, root, ws) }})
	}
	// named checks a child filed under a name that is converted on its own
	named := func(kind, what, name string, setup func(x *Exec, st *State) (t, e *Val, inn []want)) {
		var inn []want
		tests = append(tests, test{kind, what, func(x *Exec, st *State) (*Val, *Val) {
			t, e, w := setup(x, st)
			inn = w
			return t, e
		}, func(x *Exec, st *State) string {
			if why := match(x, st, root, []want{{what: "add", vals: []*Val{u.Str(name), nil, m.counterAt(ctrs, name)}}}); why != "" {
				return why
			}
			el, _, _ := flatList(x.Reify(st, m.body(st, root)))
			return inner(x, st, el[0].Args[2], inn)
		}})
	}
	for _, k := range m.c.Kinds() {
		k := k
		name := typeName(k)
		treeSym := u.Sym("e", m.treeI)
		opq := func(x *Exec, st *State) *Val { return m.opaqueTerm(x, st, "X", nil) }
		kidsSym := func(n string) *Val { return u.Sym(n, types.NewSlice(m.treeI)) }
		switch name {
		case "Stack":
		case "S", "RE":
			flat(name, "", func(x *Exec, st *State) (*Val, *Val, []want) {
				return u.Iface(k, u.Sym("t", k)), scannerEl(), []want{add("", leaf)}
			})
		case "Rule":
			for _, r := range []string{"r", "r@2", "r@10"} {
				r := r
				named(name, r, "r", func(x *Exec, st *State) (*Val, *Val, []want) {
					t := u.Lookup(g, u.Str(r), 0, m.termI)
					return u.Iface(k, u.Str(r)), treeSym, []want{{what: "convert", vals: []*Val{g, t, u.Call("counts", 0, m.countersT, t), treeSym}}}
				})
			}
		case "Named":
			named(name, "", "n", func(x *Exec, st *State) (*Val, *Val, []want) {
				t := opq(x, st)
				return m.symTerm(k, map[string]*Val{"Name": u.Str("n"), "Term": t}), treeSym,
					[]want{{what: "convert", vals: []*Val{g, t, u.Call("counts", 0, m.countersT, t), treeSym}}}
			})
		case "CutPoint":
			flat(name, "", func(x *Exec, st *State) (*Val, *Val, []want) {
				t := opq(x, st)
				return m.symTerm(k, map[string]*Val{"Term": t}), treeSym, []want{conv(t, treeSym)}
			})
		case "ScopedGrammar":
			inG := u.Sym("inner", m.grammarT)
			tests = append(tests, test{name, "", func(x *Exec, st *State) (*Val, *Val) {
				return m.symTerm(k, map[string]*Val{"Term": opq(x, st), "Grammar": inG}), treeSym
			}, func(x *Exec, st *State) string {
				t := u.Sym("X", m.termI)
				if why := match(x, st, root, []want{{what: "convert", vals: []*Val{nil, t, ctrs, treeSym}}}); why != "" {
					return why
				}
				el, _, _ := flatList(x.Reify(st, m.body(st, root)))
				return m.scoped(x, st, el[0].Args[1], g, inG)
			}})
		case "Seq":
			flat(name, "", func(x *Exec, st *State) (*Val, *Val, []want) {
				ts, es := u.Sym("ts", k), kidsSym("es")
				x.Assume(st, u.Eq2n(u.Len(ts), u.Len(es)), true)
				w := conv(ts, es)
				w.comp = true
				return u.Iface(k, ts), nodeEl(anyTag, u.Nil(nil), es), []want{w}
			})
		case "Oneof":
			for i := int64(0); i < 3; i++ {
				i := i
				flat(name, fmt.Sprint(i), func(x *Exec, st *State) (*Val, *Val, []want) {
					var ts []*Val
					for j := 0; j < 3; j++ {
						ts = append(ts, m.opaqueTerm(x, st, fmt.Sprintf("X%d", j), nil))
					}
					ch := u.Iface(m.choiceT, u.Int(i))
					return u.Iface(k, u.List(ts...)), nodeEl(anyTag, ch, u.List(treeSym)),
						[]want{{what: "many", vals: []*Val{u.Str(m.choiceTag), u.Iface(m.extraT, u.Struct(m.extraT, ch))}}, conv(ts[i], treeSym)}
				})
			}
		case "Quant", "LookAhead":
			flat(name, "", func(x *Exec, st *State) (*Val, *Val, []want) {
				t, es := opq(x, st), kidsSym("es")
				w := conv(t, es)
				w.comp = true
				return m.symTerm(k, map[string]*Val{"Term": t}), nodeEl(anyTag, u.Nil(nil), es), []want{w}
			})
		case "REF":
			flat(name, "text", func(x *Exec, st *State) (*Val, *Val, []want) {
				return m.symTerm(k, map[string]*Val{"Ident": u.Str("i")}), scannerEl(), []want{add("i", leaf)}
			})
			named(name, "node", "i", func(x *Exec, st *State) (*Val, *Val, []want) {
				t := m.symTerm(k, map[string]*Val{"Ident": u.Str("i")})
				es := kidsSym("es")
				w := conv(t, es)
				w.comp = true
				return t, nodeEl(anyTag, u.Nil(nil), es), []want{w}
			})
		case "ExtRef":
			flat(name, "", func(x *Exec, st *State) (*Val, *Val, []want) {
				b2 := u.AllocTok(absint.OMap, "foreign", m.branchT)
				st.Mem[b2] = u.List()
				ex := u.Iface(m.branchT, b2)
				return u.Iface(k, u.Str("e")), nodeEl(anyTag, ex, u.List()), []want{add("e", ex)}
			})
		case "Delim":
			term := func(x *Exec, st *State) (*Val, *Val, *Val) {
				X, Y := opq(x, st), m.opaqueTerm(x, st, "Y", nil)
				return m.symTerm(k, map[string]*Val{"Term": X, "Sep": Y}), X, Y
			}
			emptyWant := func(s string) want {
				return want{what: "many", vals: []*Val{u.Str("@empty"), u.Iface(m.extraT, u.Struct(m.extraT, u.Iface(types.Typ[types.String], u.Str(s))))}}
			}
			kid := func(x *Exec, st *State, i int) *Val {
				e := u.Sym(fmt.Sprintf("e%d", i), m.treeI)
				x.Assume(st, u.IsType(e, emptyT), false)
				return e
			}
			for n := 1; n <= 9; n += 2 {
				for ends := 0; ends < 4; ends++ {
					n, lead, trail := n, ends&1 != 0, ends&2 != 0
					if lead && trail && n < 5 || (lead || trail) && n < 3 {
						continue
					}
					flat(name, fmt.Sprintf("%d children, empty ends %d", n, ends), func(x *Exec, st *State) (*Val, *Val, []want) {
						t, X, Y := term(x, st)
						var es []*Val
						var ws []want
						for i := 0; i < n; i++ {
							switch {
							case lead && i == 0:
								es = append(es, emptyEl)
								ws = append(ws, emptyWant("@prefix"))
							case trail && i == n-1:
								es = append(es, emptyEl)
								ws = append(ws, emptyWant("@suffix"))
							default:
								e := kid(x, st, i)
								es = append(es, e)
								w := conv(X, e)
								if i%2 == 1 {
									w = conv(Y, e)
								}
								ws = append(ws, w)
							}
						}
						return t, nodeEl(anyTag, assoc(0), u.List(es...)), ws
					})
				}
			}
			for _, dir := range []int64{-1, 1} {
				dir := dir
				// what stands where the list may nest
				for _, c := range []string{"text", "node", "other list", "other way", "nested"} {
					c := c
					what := fmt.Sprintf("associative %d, %s", dir, c)
					tests = append(tests, test{name, what, func(x *Exec, st *State) (*Val, *Val) {
						t, _, _ := term(x, st)
						tag := u.Str("list")
						var special *Val
						switch c {
						case "text":
							special = scannerEl()
						case "node":
							special = nodeEl(u.Str("x"), u.Nil(nil), kidsSym("es"))
						case "other list":
							special = nodeEl(u.Str(":"), assoc(dir), kidsSym("es"))
						case "other way":
							special = nodeEl(tag, assoc(-dir), kidsSym("es"))
						case "nested":
							special = nodeEl(tag, assoc(dir), kidsSym("es"))
						}
						es := []*Val{special, kid(x, st, 1), kid(x, st, 2)}
						if dir < 0 {
							es[0], es[2] = es[2], es[0]
						}
						return t, nodeEl(tag, assoc(dir), u.List(es...))
					}, func(x *Exec, st *State) string {
						el, comps, ok := flatList(x.Norm(st, x.Reify(st, m.body(st, root))))
						if !ok || len(comps) != 0 || len(el) != 3 {
							return "what is filed is " + showEvents(u, el)
						}
						at := 0
						if dir < 0 {
							at = 2
						}
						X, Y := u.Sym("X", m.termI), u.Sym("Y", m.termI)
						for i, e := range el {
							if i == at && c == "nested" {
								if !isEvent(e, "one", 2) && !isEvent(e, "many", 2) && !isEvent(e, "add", 3) {
									return "the nested list is " + show(e)
								}
								n := x.Reify(st, e.Args[2])
								if n.Op != absint.OIface || !types.Identical(n.Typ, m.branchT) {
									return "the nested list is " + show(n)
								}
								sub, _, _ := flatList(x.Norm(st, x.Reify(st, m.body(st, n.Args[0]))))
								if len(sub) != 1 || !isEvent(sub[0], "convert", 4) || sub[0].Args[1] != g || typeOfIface(sub[0].Args[2]) != "Delim" ||
									sub[0].Args[4].Op != absint.OIface {
									return "the nested list is converted as " + showEvents(u, sub)
								}
								continue
							}
							t := X
							if i == 1 {
								t = Y
							}
							if !isEvent(e, "convert", 4) || e.Args[1] != g || e.Args[2] != t || e.Args[3] != ctrs {
								return fmt.Sprintf("child %d is converted as %s", i, show(e))
							}
						}
						return ""
					}})
				}
			}
		default:
			m.c.Check("C17.convert", name, false, fn.Pos(), "how a %s is converted is not known", name)
		}
	}
	for _, t := range tests {
		x := m.exec(hook)
		st := m.state()
		root = u.Sym("branch", m.branchT)
		st.Mem[root] = u.List()
		term, e := t.setup(x, st)
		args := make([]*Val, len(fn.Params))
		args[iB], args[iG], args[iT], args[iC], args[iE] = root, g, term, ctrs, e
		cons := t.kind
		good := 0
		for _, o := range x.Run(fn, args, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C17.convert", "converting the tree of a %s (%s) panics", t.kind, t.what)
				continue
			}
			if why := t.judge(x, o.St); why != "" {
				x.Report(o.St, o.Pos, "C17.convert", "a %s (%s): %s", t.kind, t.what, why)
				continue
			}
			good++
		}
		m.c.Done(x, "C17.convert", cons, fn)
		m.c.Check("C17.convert", cons, good > 0, fn.Pos(), "a %s (%s) is never converted", t.kind, t.what)
	}
	m.entering(hook, g)
}

func typeOfIface(v *Val) string {
	if v.Op != absint.OIface {
		return ""
	}
	return typeName(v.Typ)
}

func isSliceTyped(v *Val) bool {
	if v.Typ == nil {
		return false
	}
	_, ok := v.Typ.Underlying().(*types.Slice)
	return ok
}

// scoped: the rules in force are those of outer overridden by those of inner.
func (m *convModel) scoped(x *Exec, st *State, got, outer, inner *Val) string {
	u := m.u
	if got.Op != absint.OMap {
		return "the nested grammar's terms are looked up in " + show(got)
	}
	segs, ok := segments(x.Norm(st, x.Reify(st, m.body(st, got))))
	if !ok {
		return "the nested grammar's rules are " + show(x.Reify(st, m.body(st, got)))
	}
	mt := m.grammarT.Underlying().(*types.Map)
	ruleAt := func(e, g, i *Val) bool {
		k := u.Index(u.Call("keys", 0, nil, g), i, mt.Key())
		return e.Op == absint.OTuple && len(e.Args) == 2 && e.Args[0] == k && e.Args[1] == u.Lookup(g, k, 0, mt.Elem())
	}
	for _, g := range []*Val{outer, inner} {
		n := u.Len(u.Call("keys", 0, nil, g))
		switch {
		case x.Bounds(st, n).Hi <= 0:
		case len(segs) > 0 && segs[0].Op == absint.OComp && segs[0].Args[3] == u.Int(0) && x.ProveEq(st, segs[0].Args[4], n) &&
			segs[0].Args[1].Op == absint.OList && len(segs[0].Args[1].Args) == 1 && ruleAt(segs[0].Args[1].Args[0], g, segs[0].Args[2]):
			segs = segs[1:]
		default:
			i := 0
			for i < len(segs) && ruleAt(segs[i], g, u.Int(int64(i))) {
				i++
			}
			if i == 0 || !x.ProveEq(st, n, u.Int(int64(i))) {
				return "the nested grammar's rules are " + show(x.Reify(st, m.body(st, got)))
			}
			segs = segs[i:]
		}
	}
	if len(segs) != 0 {
		return "the nested grammar's rules are " + show(x.Reify(st, m.body(st, got)))
	}
	return ""
}

// segments lists the parts of a list in order: elements and comprehensions.
func segments(v *Val) (out []*Val, ok bool) {
	switch v.Op {
	case absint.OList:
		return v.Args, true
	case absint.OAppend:
		a, ok1 := segments(v.Args[0])
		b, ok2 := segments(v.Args[1])
		return append(append(out, a...), b...), ok1 && ok2
	case absint.OComp:
		a, ok := segments(v.Args[0])
		return append(append(out, a...), v), ok
	}
	if v.IsNil() || v.Op == absint.OStruct {
		return nil, true
	}
	return nil, false
}

// entering decides the function that converts a whole tree.
func (m *convModel) entering(hook func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool), g *Val) {
	u := m.u
	fn := m.enter
	for _, what := range []string{"text", "node"} {
		x := m.exec(hook)
		st := m.state()
		tag := u.Sym("tag", types.Typ[types.String])
		e := u.Iface(m.scannerT, u.Sym("text", m.scannerT))
		if what == "node" {
			e = u.Iface(m.pnodeT, m.structOf(m.pnodeT, map[string]*Val{"Tag": tag, "Children": u.Sym("es", types.NewSlice(m.treeI))}))
		}
		good := 0
		for _, o := range x.Run(fn, place(fn, map[types.Type]*Val{m.grammarT: g, m.treeI: e}), st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, "C17.convert", "converting a tree panics")
				continue
			}
			body := o.St.Mem[o.Res[0]]
			if body == nil {
				x.Report(o.St, o.Pos, "C17.convert", "the AST is %s", show(o.Res[0]))
				continue
			}
			el, comps, ok := flatList(x.Norm(o.St, x.Reify(o.St, body)))
			okay := ok && len(comps) == 0
			if what == "text" {
				okay = okay && len(el) == 1 && isEvent(el[0], "one", 2) && el[0].Args[1] == u.Str("")
			} else {
				okay = okay && len(el) == 2 && isEvent(el[0], "one", 2) && el[0].Args[1] == u.Str(m.ruleTag) && isEvent(el[1], "convert", 4)
				if okay {
					t := el[1].Args[2]
					okay = el[1].Args[1] == g && t.Op == absint.OLookup && t.Args[0] == g && stripConv(t.Args[1]) == tag &&
						el[1].Args[3] == u.Call("counts", 0, m.countersT, t) && el[1].Args[4] == e
					ex := el[0].Args[2]
					okay = okay && ex.Op == absint.OIface && stripConv(unIface(u.Field(ex.Args[0], 0, nil))) == tag
				}
			}
			if !okay {
				x.Report(o.St, o.Pos, "C17.convert", "a whole tree (%s) becomes %s", what, showEvents(u, el))
				continue
			}
			good++
		}
		m.c.Done(x, "C17.convert", "whole tree", fn)
		m.c.Check("C17.convert", "whole tree", good > 0, fn.Pos(), "a tree (%s) is never converted", what)
	}
}

func stripConv(v *Val) *Val {
	for v.Op == absint.OConv && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// convertingBack: each kind takes the children its conversion filed.
func (m *convModel) convertingBack() {
	u := m.u
	fn := m.to
	iB, iG, iT, iC := paramOf(fn, m.branchT), paramOf(fn, m.grammarT), paramOf(fn, m.termI), paramOf(fn, m.countersT)
	g := u.Sym("g", m.grammarT)
	ctrs := u.Sym("ctrs", m.countersT)
	root := u.Sym("branch", m.branchT)
	n := 0
	leafOnly := false
	logged := func(st *State) []*Val {
		if l := st.TS["log"]; l != nil {
			return l.Args
		}
		return nil
	}
	hook := func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn == nil {
			return nil, false
		}
		note := func(v *Val) { st.TS["log"] = u.List(append(append([]*Val(nil), logged(st)...), v)...) }
		fork := func(st *State, v *Val, nilable bool) []absint.Out {
			var outs []absint.Out
			if nilable {
				s2 := st.Clone()
				outs = append(outs, absint.Out{St: s2, Val: u.Nil(nil)})
			}
			x.Assume(st, x.EqVal(v, u.Nil(nil)), false)
			return append(outs, absint.Out{St: st, Val: v})
		}
		switch {
		case c.Fn == fn:
			e := u.Tuple(u.Str("back"), c.Args[iB], x.Reify(st, c.Args[iG]), c.Args[iT], c.Args[iC])
			note(e)
			n++
			return fork(st, u.Call("tree", 0, m.treeI, e, u.Int(int64(len(logged(st))))), true), true
		case c.Fn == m.fNew:
			return []absint.Out{{St: st, Val: u.Call("counts", 0, m.countersT, c.Args[0])}}, true
		case c.Fn == m.fPull:
			h := func(t types.Type) *Val { return c.Args[paramOf(m.fPull, t)] }
			e := u.Tuple(u.Str("take"), h(m.branchT), h(types.Typ[types.String]), x.Reify(st, h(m.counterT)))
			note(e)
			var outs []absint.Out
			// nothing, a branch or a leaf
			for _, t := range []types.Type{m.branchT, m.leafT} {
				if leafOnly && t == m.branchT {
					continue
				}
				s2 := st.Clone()
				outs = append(outs, absint.Out{St: s2, Val: u.Iface(t, u.Call("child", 0, t, e, u.Int(int64(len(logged(st))))))})
			}
			return append(outs, absint.Out{St: st, Val: u.Nil(nil)}), true
		case m.takeMany[c.Fn] || m.takeOne[c.Fn]:
			h := func(t types.Type) *Val { return c.Args[paramOf(c.Fn, t)] }
			what := "take one"
			if m.takeMany[c.Fn] {
				what = "take many"
			}
			e := u.Tuple(u.Str(what), h(m.branchT), h(types.Typ[types.String]))
			note(e)
			s2 := st.Clone()
			v := u.Iface(m.extraT, u.Struct(m.extraT, u.Iface(m.choiceT, u.Int(1))))
			if k, _ := h(types.Typ[types.String]).StrConst(); k == m.ruleTag {
				v = u.Iface(m.extraT, u.Struct(m.extraT, u.Iface(m.ruleT, u.Str("r"))))
			}
			return []absint.Out{{St: s2, Val: u.Nil(nil)}, {St: st, Val: v}}, true
		}
		return nil, false
	}
	run := func(kind string, setup func(x *Exec, st *State) *Val, judge func(x *Exec, st *State, res *Val) string) {
		x := m.exec(hook)
		if kind == "Quant" || kind == "Seq" {
			x.UnrollSym = 12
		}
		st := m.state()
		t := setup(x, st)
		args := make([]*Val, len(fn.Params))
		args[iB], args[iG], args[iT], args[iC] = root, g, t, ctrs
		good := 0
		for _, o := range x.Run(fn, args, st) {
			if o.Panic != nil {
				if kind == "Quant" {
					continue // too few children: the tree did not come from this grammar
				}
				x.Report(o.St, o.Pos, "C17.back", "converting a %s back panics", kind)
				continue
			}
			if why := judge(x, o.St, o.Res[0]); why != "" {
				x.Report(o.St, o.Pos, "C17.back", "a %s: %s", kind, why)
				continue
			}
			good++
		}
		m.c.Done(x, "C17.back", kind, fn)
		m.c.Check("C17.back", kind, good > 0, fn.Pos(), "a %s is never converted back", kind)
	}
	isBack := func(e, b, t, ctrs *Val) bool {
		return e.Op == absint.OTuple && e.Args[0] == u.Str("back") && e.Args[1] == b && e.Args[3] == t && e.Args[4] == ctrs
	}
	taken := func(name string) *Val {
		return u.Tuple(u.Str("take"), root, u.Str(name), m.counterAt(ctrs, name))
	}
	treeOf := func(v *Val) *Val { // the log entry a tree came from
		if v.Op == absint.OCall && v.Aux == "tree" {
			return v.Args[0]
		}
		return nil
	}
	for _, k := range m.c.Kinds() {
		k := k
		name := typeName(k)
		opq := func(x *Exec, st *State) *Val { return m.opaqueTerm(x, st, "X", nil) }
		X := u.Sym("X", m.termI)
		single := func(x *Exec, st *State, res *Val) string {
			l := logged(st)
			if len(l) != 1 || !isBack(l[0], root, X, ctrs) {
				return "what is converted is " + show(u.List(l...))
			}
			if name != "ScopedGrammar" && l[0].Args[2] != g {
				return "the rules are " + show(l[0].Args[2])
			}
			if !res.IsNil() && treeOf(res) != l[0] {
				return "the result is " + show(res)
			}
			if name == "ScopedGrammar" {
				return m.scoped(x, st, l[0].Args[2], g, u.Sym("inner", m.grammarT))
			}
			return ""
		}
		// sub checks rules and names: take, then convert the child on its own
		sub := func(filed string, t func() *Val) func(x *Exec, st *State, res *Val) string {
			return func(x *Exec, st *State, res *Val) string {
				l := logged(st)
				if len(l) == 0 || l[0] != taken(filed) {
					return "what is taken is " + show(u.List(l...)) + " instead of " + show(taken(filed))
				}
				if res.IsNil() && len(l) == 1 {
					return ""
				}
				r := x.Reify(st, res)
				if len(l) == 1 { // a leaf
					if r.Op == absint.OIface && types.Identical(r.Typ, m.scannerT) {
						if c := stripConv(r.Args[0]); c.Op == absint.OCall && c.Aux == "child" && c.Args[0] == l[0] {
							return ""
						}
					}
					return "a token becomes " + show(r)
				}
				tt := t()
				b := l[1].Args[1]
				if len(l) != 2 || b.Op != absint.OCall || b.Aux != "child" || b.Args[0] != l[0] || !isBack(l[1], b, tt, u.Call("counts", 0, m.countersT, tt)) || l[1].Args[2] != g {
					return "the child is converted as " + show(u.List(l...))
				}
				return ""
			}
		}
		switch name {
		case "S", "RE":
			leafOnly = true
			run(name, func(x *Exec, st *State) *Val { return u.Iface(k, u.Sym("t", k)) }, func(x *Exec, st *State, res *Val) string {
				l := logged(st)
				if len(l) != 1 || l[0] != taken("") {
					return "what is taken is " + show(u.List(l...)) + " instead of " + show(taken(""))
				}
				r := x.Reify(st, res)
				if !r.IsNil() {
					if r.Op != absint.OIface || !types.Identical(r.Typ, m.scannerT) || stripConv(r.Args[0]).Op != absint.OCall {
						return "the token becomes " + show(r)
					}
				}
				return ""
			})
			leafOnly = false
		case "Rule":
			for _, r := range []string{"r", "r@2"} {
				r := r
				run(name, func(x *Exec, st *State) *Val { return u.Iface(k, u.Str(r)) },
					sub("r", func() *Val { return u.Lookup(g, u.Str(r), 0, m.termI) }))
			}
		case "Named":
			run(name, func(x *Exec, st *State) *Val {
				return m.symTerm(k, map[string]*Val{"Name": u.Str("n"), "Term": opq(x, st)})
			}, sub("n", func() *Val { return X }))
		case "CutPoint":
			run(name, func(x *Exec, st *State) *Val { return m.symTerm(k, map[string]*Val{"Term": opq(x, st)}) }, single)
		case "ScopedGrammar":
			run(name, func(x *Exec, st *State) *Val {
				return m.symTerm(k, map[string]*Val{"Term": opq(x, st), "Grammar": u.Sym("inner", m.grammarT)})
			}, single)
		case "Seq", "Oneof":
			for n := 1; n <= 3; n++ {
				n := n
				if name == "Oneof" && n < 3 {
					continue
				}
				var ts []*Val
				run(name, func(x *Exec, st *State) *Val {
					ts = nil
					for i := 0; i < n; i++ {
						ts = append(ts, m.opaqueTerm(x, st, fmt.Sprintf("X%d", i), nil))
					}
					return u.Iface(k, u.List(ts...))
				}, func(x *Exec, st *State, res *Val) string {
					l := logged(st)
					order := ts
					r := x.Reify(st, res)
					if name == "Oneof" {
						if len(l) == 0 || l[0] != u.Tuple(u.Str("take many"), root, u.Str(m.choiceTag)) {
							return "what is taken first is " + show(u.List(l...))
						}
						l = l[1:]
						order = ts[1:2]
						if len(l) == 0 {
							if r.IsNil() {
								return ""
							}
							return "without a choice it becomes " + show(r)
						}
					}
					if len(l) > len(order) {
						return "what is converted is " + show(u.List(l...))
					}
					for i, e := range l {
						if !isBack(e, root, order[i], ctrs) || e.Args[2] != g {
							return "what is converted is " + show(u.List(l...))
						}
					}
					if r.IsNil() {
						return ""
					}
					kids := x.Reify(st, m.nodeChildren(r))
					if r.Op != absint.OIface || kids.Op != absint.OList || len(l) != len(order) || len(kids.Args) != len(l) {
						return "it becomes " + show(r)
					}
					for i, c := range kids.Args {
						if treeOf(c) != l[i] && !(name == "Oneof" && c.IsNil()) {
							return "it becomes " + show(r)
						}
					}
					return ""
				})
			}
		case "Quant":
			for _, q := range [][2]int64{{0, 1}, {1, 1}, {0, 2}, {2, 2}, {1, 3}} {
				q := q
				run(name, func(x *Exec, st *State) *Val {
					return m.symTerm(k, map[string]*Val{"Term": opq(x, st), "Min": u.Int(q[0]), "Max": u.Int(q[1])})
				}, func(x *Exec, st *State, res *Val) string {
					l := logged(st)
					r := x.Reify(st, res)
					kids := x.Reify(st, m.nodeChildren(r))
					if int64(len(l)) > q[1] || r.Op != absint.OIface || !isListy(kids) {
						return fmt.Sprintf("up to %d repetitions are converted by %d attempts to %s", q[1], len(l), show(r))
					}
					for _, e := range l {
						if !isBack(e, root, X, ctrs) || e.Args[2] != g {
							return "what is converted is " + show(u.List(l...))
						}
					}
					if d := len(l) - len(kids.Args); d != 0 && d != 1 || int64(len(kids.Args)) < q[0] {
						return "it becomes " + show(r)
					}
					for i, c := range kids.Args {
						if treeOf(c) != l[i] {
							return "it becomes " + show(r)
						}
					}
					return ""
				})
			}
		}
	}
}

// nodeChildren is the children field of a tree node.
func (m *convModel) nodeChildren(v *Val) *Val {
	s := fieldsOf(m.pnodeT)
	if v.Op != absint.OIface || !types.Identical(v.Typ, m.pnodeT) {
		return v
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Children" {
			return m.u.Field(v.Args[0], i, s.Field(i).Type())
		}
	}
	panic(missing("Node.Children"))
}
