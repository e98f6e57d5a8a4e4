package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

func init() {
	register(&Prop{ID: "C12", Run: func(c *Ctx) { c.Diffs() }, Technique: absTechnique, MinObl: 200,
		Covers: "the comparisons of terms, grammars and nodes are interpreted on two operands with independent unknown components: every ordered pair of term kinds, sequences, alternations and stacks of up to four terms on either side, all ways two grammars can share two rules out of three, nodes of up to three children of three sorts. The answer has to be equality exactly when every component is the same, comparisons of sub-terms taken as their equality, and reports must not mix up the operands."})
}

type diffModel struct {
	*astModel
	pkg   string
	terms *ssa.Function
	grams *ssa.Function
	nodes *ssa.Function
	nodeT types.Type
	elemI types.Type
	root  *ssa.Function
	// equality of what recursive calls compare
}

// Diffs decides C12.
func (c *Ctx) Diffs() {
	m := &diffModel{astModel: c.astModel(), pkg: "parser/diff"}
	m.terms = c.P.Func(m.pkg, "Terms")
	m.grams = c.P.Func(m.pkg, "Grammars")
	m.nodes = c.P.Func(m.pkg, "NewNodeDiff")
	if m.terms == nil || m.grams == nil || m.nodes == nil {
		panic(missing("diff.Terms, diff.Grammars, diff.NewNodeDiff"))
	}
	m.nodeT = c.Named("parser", "Node")
	m.elemI = c.Named("parser", "TreeElement")
	for _, ka := range c.Kinds() {
		for _, kb := range c.Kinds() {
			if ka == kb {
				m.sameKind(ka)
			} else {
				m.otherKind(ka, kb)
			}
		}
	}
	m.grammars()
	m.trees()
}

// rtype stands for a reflect.Type.
func (m *diffModel) rtype(t types.Type) *Val {
	return m.u.Iface(types.NewPointer(types.Typ[types.String]), m.u.Str(t.String()))
}

func (m *diffModel) recursive(sig *types.Signature) (kind string) {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return ""
	}
	r := sig.Results().At(0).Type()
	obj, _, _ := types.LookupFieldOrMethod(r, true, nil, "Equal")
	if f, ok := obj.(*types.Func); !ok || f.Type().(*types.Signature).Params().Len() != 0 {
		return ""
	}
	p, q := sig.Params().At(0).Type(), sig.Params().At(1).Type()
	switch {
	case types.Identical(p, m.termI) && types.Identical(q, m.termI):
		return "term"
	case types.Identical(p, m.grammarT) && types.Identical(q, m.grammarT):
		return "grammar"
	case types.Identical(p, types.NewPointer(m.nodeT)) && types.Identical(q, types.NewPointer(m.nodeT)):
		return "node"
	}
	return ""
}

// exec sets up an execution where comparing opaque parts yields an opaque
// report that says whether they are equal.
func (m *diffModel) exec() *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.UnrollSym = 12
	x.MaxRec = 3
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		u := x.U
		ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
		if ci.Method != nil && ci.Method.Name() == "String" && ci.Recv != nil && ci.Recv.Op == absint.OIface {
			if p, ok := ci.Recv.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), types.Typ[types.String]) {
				return ret(ci.Recv.Args[0])
			}
		}
		if ci.Fn == nil {
			if ci.Method != nil && ci.Method.Name() == "Equal" {
				if a, b := reportOf(ci.Recv); a != nil {
					return ret(x.EqVal(a, b))
				}
			}
			return nil, false
		}
		switch ci.Fn.RelString(nil) {
		case "reflect.TypeOf":
			switch v := ci.Args[0]; {
			case v.Op == absint.OIface:
				return ret(m.rtype(v.Typ))
			case v.IsNil():
				return ret(u.Nil(nil))
			}
			return nil, false
		case "reflect.DeepEqual":
			// decide part by part
			if outs, ok := m.deepEqual(x, st, ci.Args[0], ci.Args[1]); ok {
				return outs, true
			}
			return nil, false
		}
		if ci.Fn.Name() == "Equal" && len(ci.Args) == 1 {
			if a, b := reportOf(ci.Args[0]); a != nil {
				return ret(x.EqVal(a, b))
			}
		}
		if k := m.recursive(ci.Fn.Signature); k != "" {
			a, b := ci.Args[0], ci.Args[1]
			if k == "node" {
				a, b = x.Load(st, a, m.nodeT), x.Load(st, b, m.nodeT)
			}
			if m.atom(k, a) && m.atom(k, b) {
				r := u.Call("report", 0, ci.Fn.Signature.Results().At(0).Type(), a, b)
				x.Assume(st, u.Eq(r, u.Nil(nil)), false)
				return ret(r)
			}
		}
		return nil, false
	}
	return x
}

// atom: a value whose insides are unknown.
func (m *diffModel) atom(kind string, v *Val) bool {
	switch v.Op {
	case absint.OSym, absint.OAs, absint.OField, absint.OIndex, absint.OCall:
		return true
	}
	return false
}

func reportOf(v *Val) (a, b *Val) {
	if v != nil && v.Op == absint.OCall && v.Aux == "report" {
		return v.Args[0], v.Args[1]
	}
	return nil, nil
}

// deepEqual forks on the parts of two maps or values with opaque parts.
func (m *diffModel) deepEqual(x *Exec, st *State, a, b *Val) ([]absint.Out, bool) {
	u := x.U
	if a.Op != absint.OIface || b.Op != absint.OIface || !types.Identical(a.Typ, b.Typ) {
		return nil, false
	}
	a, b = a.Args[0], b.Args[0]
	if a.Op != absint.OMap || b.Op != absint.OMap {
		return nil, false
	}
	ea, ok1 := x.Entries(st, a)
	eb, ok2 := x.Entries(st, b)
	if !ok1 || !ok2 {
		return nil, false
	}
	if len(ea) != len(eb) {
		return []absint.Out{{St: st, Val: u.Bool(false)}}, true
	}
	var pairs [][2]*Val
	for _, p := range ea {
		found := false
		for _, q := range eb {
			if p.Args[0] == q.Args[0] {
				pairs = append(pairs, [2]*Val{p.Args[1], q.Args[1]})
				found = true
			}
		}
		if !found {
			return []absint.Out{{St: st, Val: u.Bool(false)}}, true
		}
	}
	var outs []absint.Out
	cur := st
	for _, p := range pairs {
		n := cur.Clone()
		if x.Assume(n, x.EqVal(p[0], p[1]), false) {
			outs = append(outs, absint.Out{St: n, Val: u.Bool(false)})
		}
		if !x.Assume(cur, x.EqVal(p[0], p[1]), true) {
			return outs, true
		}
	}
	return append(outs, absint.Out{St: cur, Val: u.Bool(true)}), true
}

// comp is one component that has to agree.
type comp struct {
	name string
	eq   *Val
}

// compare runs the comparison and its Equal, and checks the verdict.
func (m *diffModel) compare(name string, fn *ssa.Function, a, b *Val, x *Exec, st *State, comps []comp, never bool, more func(st, mem *State, res *Val)) {
	c, u := m.c, m.u
	outs := x.Run(fn, []*Val{a, b}, st)
	n := 0
	yes, no := false, never
	for _, o := range outs {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, "C12.verdict", "comparing panics")
			continue
		}
		res := o.Res[0]
		m.operands(x, o, res)
		var eq *ssa.Function
		recv := res
		t := fn.Signature.Results().At(0).Type()
		if res.Op == absint.OIface {
			t, recv = res.Typ, res.Args[0]
		}
		check := func(st *State, v *Val) {
			n++
			for _, want := range []bool{true, false} {
				s := st.Clone()
				if !x.Assume(s, v, want) {
					continue
				}
				if want {
					yes = true
					if never {
						x.Report(s, o.Pos, "C12.verdict", "finds them equal")
					}
					for _, k := range comps {
						if !x.Known(s, k.eq, true) {
							x.Report(s, o.Pos, "C12.verdict", "can find them equal although %s is not compared", k.name)
						}
					}
				} else if !never {
					no = true
					ok := false
					for _, k := range comps {
						if x.Known(s, k.eq, false) {
							ok = true
						}
					}
					if !ok {
						x.Report(s, o.Pos, "C12.verdict", "can find equal operands different")
					}
				}
				if more != nil {
					more(s, o.St, res)
				}
			}
		}
		if p, q := reportOf(res); p != nil {
			check(o.St, x.EqVal(p, q))
			continue
		}
		eq = c.P.TypeMethod(t, "Equal")
		if eq == nil {
			x.Report(o.St, o.Pos, "C12.verdict", "yields %s, which has no verdict", show(res))
			continue
		}
		y := m.exec()
		for _, e := range y.Run(eq, []*Val{recv}, o.St) {
			if e.Panic != nil {
				x.Report(e.St, e.Pos, "C12.verdict", "the verdict panics")
				continue
			}
			check(e.St, e.Res[0])
		}
		for _, un := range y.Undecided {
			x.Undecided = append(x.Undecided, un)
		}
		for f := range y.Inlined {
			x.Inlined[f]++
		}
		x.States += y.States
	}
	_ = u
	c.Check("C12.verdict", name, n > 0, fn.Pos(), "comparing has no outcome")
	if n > 0 && len(comps) > 0 {
		c.Check("C12.verdict", name, (yes || never) && (no || allTrue(u, comps)), fn.Pos(), "always comes to the same verdict")
	}
	for _, r := range x.Reports {
		c.CheckT(r.Rule, name, false, r.Pos, r.Trail, "%s", r.Msg)
	}
	x.Reports = nil
	c.Done(x, "C12", name, fn)
}

func allTrue(u *absint.Universe, comps []comp) bool {
	for _, k := range comps {
		if k.eq != u.Bool(true) {
			return false
		}
	}
	return true
}

// operands checks that what a report shows as A comes from the left operand
// and what it shows as B from the right one.
func (m *diffModel) operands(x *Exec, o *absint.Outcome, res *Val) {
	seen := map[*Val]bool{}
	var mentions func(v *Val, side string, seen map[*Val]bool) bool
	mentions = func(v *Val, side string, seen map[*Val]bool) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v.Op == absint.OSym && strings.HasPrefix(v.Aux, side+".") {
			return true
		}
		if v.Op == absint.OConst && v.C != nil {
			if s, ok := v.StrConst(); ok && strings.HasPrefix(s, side+".") {
				return true
			}
		}
		for _, a := range v.Args {
			if mentions(a, side, seen) {
				return true
			}
		}
		return false
	}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Op == absint.OCall && v.Aux == "report" {
			if mentions(v.Args[0], "b", map[*Val]bool{}) || mentions(v.Args[1], "a", map[*Val]bool{}) {
				x.Report(o.St, o.Pos, "C12.operands", "compares %s with %s", show(v.Args[0]), show(v.Args[1]))
			}
		}
		if v.Op == absint.OStruct {
			if s := fieldsOf(v.Typ); s != nil {
				for i := 0; i < s.NumFields() && i < len(v.Args); i++ {
					switch s.Field(i).Name() {
					case "A":
						if mentions(v.Args[i], "b", map[*Val]bool{}) {
							x.Report(o.St, o.Pos, "C12.operands", "shows %s of the right operand as the left one's", show(v.Args[i]))
						}
					case "B":
						if mentions(v.Args[i], "a", map[*Val]bool{}) {
							x.Report(o.St, o.Pos, "C12.operands", "shows %s of the left operand as the right one's", show(v.Args[i]))
						}
					}
				}
			}
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	walk(x.Reify(o.St, res))
}

// variant is one way to fill in a term of some kind.
type variant struct {
	name  string
	parts map[string]*Val
	val   *Val
}

func (m *diffModel) part(x *Exec, st *State, name string) *Val {
	v := m.u.Sym(name, m.termI)
	x.Assume(st, m.u.Eq(v, m.u.Nil(nil)), false)
	return v
}

// variants fills in a term of kind k with components named after side.
func (m *diffModel) variants(x *Exec, st *State, k types.Type, side string) []variant {
	u := m.u
	switch t := k.Underlying().(type) {
	case *types.Slice:
		var vs []variant
		for n := 0; n <= 4; n++ {
			v := variant{name: fmt.Sprint(n), parts: map[string]*Val{"length": u.Int(int64(n))}}
			var es []*Val
			for i := 0; i < n; i++ {
				p := m.part(x, st, fmt.Sprintf("%s.%d", side, i))
				v.parts[fmt.Sprintf("element %d", i)] = p
				es = append(es, p)
			}
			v.val = u.Iface(k, u.List(es...))
			vs = append(vs, v)
		}
		return vs
	case *types.Struct:
		vs := []variant{{parts: map[string]*Val{}}}
		fields := make([][]*Val, 1)
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			var opts []*Val
			switch {
			case types.Identical(f.Type(), m.termI):
				opts = []*Val{m.part(x, st, side+"."+f.Name())}
				if typeName(k) == "REF" {
					opts = append(opts, u.Nil(nil))
				}
			default:
				opts = []*Val{u.Sym(side+"."+f.Name(), f.Type())}
			}
			var nvs []variant
			var nf [][]*Val
			for j, v := range vs {
				for _, o := range opts {
					parts := map[string]*Val{f.Name(): o}
					for n, p := range v.parts {
						parts[n] = p
					}
					name := v.name
					if o.IsNil() {
						name += " no " + f.Name()
					}
					nvs = append(nvs, variant{name: name, parts: parts})
					nf = append(nf, append(append([]*Val(nil), fields[j]...), o))
				}
			}
			vs, fields = nvs, nf
		}
		for j := range vs {
			vs[j].val = u.Iface(k, u.Struct(k, fields[j]...))
		}
		return vs
	}
	s := u.Sym(side+".value", k)
	return []variant{{parts: map[string]*Val{"value": s}, val: u.Iface(k, s)}}
}

func (m *diffModel) sameKind(k types.Type) {
	u := m.u
	x0 := m.exec()
	st0 := absint.NewState()
	for _, a := range m.variants(x0, st0, k, "a") {
		for _, b := range m.variants(x0, st0, k, "b") {
			x, st := m.exec(), st0.Clone()
			never := false
			var comps []comp
			var names []string
			for n := range a.parts {
				names = append(names, n)
			}
			for n := range b.parts {
				if _, ok := a.parts[n]; !ok {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				p, q := a.parts[n], b.parts[n]
				if p == nil || q == nil {
					never = true
					continue
				}
				if eq, known := x.Decide(st, x.EqVal(p, q)); known && !eq {
					never = true
				}
				comps = append(comps, comp{n, x.EqVal(p, q)})
			}
			name := strings.TrimSpace(typeName(k) + " " + a.name + " and " + b.name)
			if a.name == "" && b.name == "" {
				name = typeName(k)
			}
			if never {
				m.compare(name, m.terms, a.val, b.val, x, st, nil, true, nil)
			} else {
				m.compare(name, m.terms, a.val, b.val, x, st, comps, false, nil)
			}
		}
	}
	_ = u
}

func (m *diffModel) otherKind(ka, kb types.Type) {
	x := m.exec()
	st := absint.NewState()
	a, b := m.variants(x, st, ka, "a"), m.variants(x, st, kb, "b")
	m.compare(typeName(ka)+" and "+typeName(kb), m.terms, a[len(a)-1].val, b[len(b)-1].val, x, st, nil, true, nil)
}

// fieldVal finds a field of a struct value by name.
func fieldVal(v *Val, name string) *Val {
	if v.Op == absint.OIface {
		v = v.Args[0]
	}
	if v.Op != absint.OStruct {
		return nil
	}
	i := fieldIndex(v.Typ, name)
	if i < 0 || i >= len(v.Args) {
		return nil
	}
	return v.Args[i]
}

func (m *diffModel) grammars() {
	u := m.u
	rules := []string{"x", "y", "z"}
	subsets := [][]string{{}, {"x"}, {"y"}, {"x", "y"}, {"x", "z"}, {"x", "y", "z"}}
	_ = rules
	for _, ka := range subsets {
		for _, kb := range subsets {
			x, st := m.exec(), absint.NewState()
			mk := func(side string, ks []string) *Val {
				mp := u.AllocTok(absint.OMap, "grammar", m.grammarT)
				var es []*Val
				for _, k := range ks {
					es = append(es, u.Tuple(u.Str(k), m.part(x, st, side+"."+k)))
				}
				st.Mem[mp] = u.List(es...)
				return mp
			}
			a, b := mk("a", ka), mk("b", kb)
			in := func(k string, ks []string) bool {
				for _, o := range ks {
					if o == k {
						return true
					}
				}
				return false
			}
			var comps []comp
			never := false
			var onlyA, onlyB, both []string
			for _, k := range rules {
				switch p, q := in(k, ka), in(k, kb); {
				case p && q:
					both = append(both, k)
					comps = append(comps, comp{"rule " + k, u.Eq(u.Sym("a."+k, m.termI), u.Sym("b."+k, m.termI))})
				case p:
					onlyA = append(onlyA, k)
					never = true
				case q:
					onlyB = append(onlyB, k)
					never = true
				}
			}
			if never {
				comps = nil
			}
			name := fmt.Sprintf("grammars %v and %v", ka, kb)
			m.compare(name, m.grams, a, b, x, st, comps, never, func(st, mem *State, res *Val) {
				r := x.Reify(mem, res)
				lst := func(f string, want []string) {
					v := fieldVal(r, f)
					if v == nil {
						return
					}
					v = x.Norm(st, v)
					for v.Op == absint.OCall && v.Aux == "sorted" {
						v = v.Args[0]
					}
					var got []string
					if v.Op == absint.OList {
						for _, e := range v.Args {
							s, ok := e.StrConst()
							if !ok {
								s = show(e)
							}
							got = append(got, s)
						}
					} else if !v.IsNil() {
						got = append(got, show(v))
					}
					sort.Strings(got)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						x.Report(st, m.grams.Pos(), "C12.rules", "%s is %v instead of %v", f, got, want)
					}
				}
				lst("OnlyInA", onlyA)
				lst("OnlyInB", onlyB)
				if p := fieldVal(res, "Prods"); p != nil {
					es, ok := x.Entries(mem, p)
					if !ok {
						return
					}
					have := map[string]bool{}
					for _, e := range es {
						s, _ := e.Args[0].StrConst()
						have[s] = true
						if pa, pb := reportOf(e.Args[1]); pa != nil && (pa != u.Sym("a."+s, m.termI) || pb != u.Sym("b."+s, m.termI)) {
							x.Report(st, m.grams.Pos(), "C12.rules", "what is reported about rule %s compares %s with %s", s, show(pa), show(pb))
						}
					}
					for _, k := range both {
						d, known := x.Decide(st, u.Eq(u.Sym("a."+k, m.termI), u.Sym("b."+k, m.termI)))
						if known && !d && !have[k] {
							x.Report(st, m.grams.Pos(), "C12.rules", "the difference in rule %s is not reported", k)
						}
					}
				}
			})
		}
	}
}

// trees compares two nodes.
func (m *diffModel) trees() {
	u := m.u
	sorts := []string{"node", "leaf", "empty"}
	mkChild := func(side string, i int, sort string) (v, part *Val, t types.Type) {
		switch sort {
		case "node":
			t = m.nodeT
		case "leaf":
			t = m.scannerT
		default:
			t = m.c.Named("parser", "Empty")
			return u.Iface(t, u.Zero(t)), nil, t
		}
		part = u.Sym(fmt.Sprintf("%s.child%d", side, i), t)
		return u.Iface(t, part), part, t
	}
	var shapes [][]string
	shapes = append(shapes, nil)
	for _, s := range sorts {
		shapes = append(shapes, []string{s})
		for _, t := range sorts {
			shapes = append(shapes, []string{s, t})
		}
	}
	shapes = append(shapes, []string{"node", "node", "node"}, []string{"leaf", "node", "leaf"}, []string{"node", "leaf", "node"})
	s := fieldsOf(m.nodeT)
	ci := fieldIndex(m.nodeT, "Children")
	if ci < 0 {
		panic(missing("Node.Children"))
	}
	for _, sa := range shapes {
		for _, sb := range shapes {
			x, st := m.exec(), absint.NewState()
			var comps []comp
			never := len(sa) != len(sb)
			mk := func(side string, shape []string) (*Val, []*Val) {
				var es, parts []*Val
				for i, sort := range shape {
					v, p, _ := mkChild(side, i, sort)
					es = append(es, v)
					parts = append(parts, p)
				}
				var fs []*Val
				for i := 0; i < s.NumFields(); i++ {
					if i == ci {
						fs = append(fs, u.List(es...))
					} else {
						fs = append(fs, u.Sym(side+"."+s.Field(i).Name(), s.Field(i).Type()))
					}
				}
				al := u.Sym(side+".node", types.NewPointer(m.nodeT))
				x.Assume(st, u.Eq(al, u.Nil(nil)), false)
				x.Store(st, al, u.Struct(m.nodeT, fs...), m.nodeT)
				return al, parts
			}
			a, pa := mk("a", sa)
			b, pb := mk("b", sb)
			for i := range sa {
				if i < len(sb) && sa[i] != sb[i] {
					never = true
				}
			}
			if !never {
				for i := 0; i < s.NumFields(); i++ {
					if i != ci {
						comps = append(comps, comp{s.Field(i).Name(), x.EqVal(u.Sym("a."+s.Field(i).Name(), s.Field(i).Type()), u.Sym("b."+s.Field(i).Name(), s.Field(i).Type()))})
					}
				}
				for i := range sa {
					if sa[i] == "node" {
						comps = append(comps, comp{fmt.Sprintf("child %d", i), x.EqVal(pa[i], pb[i])})
					}
				}
			}
			m.compare(fmt.Sprintf("nodes %v and %v", sa, sb), m.nodes, a, b, x, st, comps, never, nil)
		}
	}
}
