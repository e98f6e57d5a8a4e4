package rules

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
	tparse "text/template/parse"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

// C13: walking a generated syntax tree.

type walkModel struct {
	c        *Ctx
	opsT     types.Type
	stopper  types.Type
	nodes    []types.Type               // walkable types
	walks    map[*ssa.Function]int      // methods that walk one type of node
	walkOf   map[int]*ssa.Function      // and back
	access   map[*ssa.Function]*childOf // accessors of children
	children map[int][]*childOf
	where    string
}

// childOf is one accessor of children.
type childOf struct {
	fn   *ssa.Function
	node int // whose children
	kind int // what they are
	many bool
}

func (c *Ctx) walkModel() *walkModel {
	m := &walkModel{c: c, walks: map[*ssa.Function]int{}, walkOf: map[int]*ssa.Function{}, access: map[*ssa.Function]*childOf{}, children: map[int][]*childOf{}}
	m.opsT = c.Named("wbnf", "WalkerOps")
	m.stopper = c.Named("wbnf", "Stopper")
	walkable := iface(c.Named("wbnf", "IsWalkableType"))
	sp := c.P.SSA["wbnf"]
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	index := map[string]int{}
	for _, n := range names {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) || !types.Implements(t.Type(), walkable) {
			continue
		}
		index[t.Type().String()] = len(m.nodes)
		m.nodes = append(m.nodes, t.Type())
	}
	if len(m.nodes) < 2 {
		panic(missing("walkable types"))
	}
	kindOf := func(t types.Type) (int, bool) { i, ok := index[t.String()]; return i, ok }
	for _, f := range c.allFuncs() {
		sig := f.Signature
		if f.Pkg != sp || sig.Recv() == nil || f.Parent() != nil {
			continue
		}
		rt := sig.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if types.Identical(rt, m.opsT) {
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), m.stopper) && strings.HasPrefix(f.Name(), "Walk") {
				if k, ok := kindOf(sig.Params().At(0).Type()); ok && f.Name() == "Walk"+typeName(m.nodes[k]) {
					m.walks[f] = k
					m.walkOf[k] = f
				}
			}
			continue
		}
		n, ok := kindOf(rt)
		if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		var ch *childOf
		switch r := sig.Results().At(0).Type().(type) {
		case *types.Pointer:
			if k, ok := kindOf(r.Elem()); ok && strings.HasPrefix(f.Name(), "One") {
				ch = &childOf{fn: f, node: n, kind: k}
			}
		case *types.Slice:
			if k, ok := kindOf(r.Elem()); ok && strings.HasPrefix(f.Name(), "All") {
				ch = &childOf{fn: f, node: n, kind: k, many: true}
			}
		}
		if ch != nil {
			m.access[f] = ch
			m.children[n] = append(m.children[n], ch)
		}
	}
	// a child with both kinds of accessors is visited by the one for all
	for n, cs := range m.children {
		all := map[string]bool{}
		for _, ch := range cs {
			if ch.many {
				all[ch.fn.Name()[3:]] = true
			}
		}
		var out []*childOf
		for _, ch := range cs {
			if ch.many || !all[ch.fn.Name()[3:]] {
				out = append(out, ch)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].fn.Name() < out[j].fn.Name() })
		m.children[n] = out
	}
	return m
}

// walkCase is one situation: which callbacks are there, how many children
// the accessors give, and how requests to go on look.
type walkCase struct {
	name    string
	unset   string // name of a callback, or "all"
	count   func(ch *childOf) int
	neither bool // callbacks that go on return a stopper that asks for nothing
}

// Walker decides C13.
func (c *Ctx) Walker() {
	c.walker("")
	if g := c.generated(); g != nil {
		g.walker("generated: ")
		for _, o := range g.Obls {
			c.mark[o.Key] = o
			c.Obls = append(c.Obls, o)
		}
		c.States += g.States
		for f := range g.Funcs {
			c.Funcs[f] = true
		}
	}
}

func (c *Ctx) walker(where string) {
	m := c.walkModel()
	m.stoppers(where)
	for k := range m.nodes {
		if len(m.children[k]) > 0 {
			c.Check("C13.walk", where+typeName(m.nodes[k]), m.walkOf[k] != nil, token.NoPos, "there is no method that walks the children of %s", typeName(m.nodes[k]))
		}
	}
	n := len(m.nodes)
	c.parallel(n, func(i int, sub *Ctx) {
		s := sub.walkModel()
		s.where = where
		if s.walkOf[i] != nil {
			s.walk(i)
		}
		s.dispatch(i)
		s.accessors(i)
	})
}

func (m *walkModel) walk(k int) {
	one := func(n int) func(*childOf) int {
		return func(ch *childOf) int {
			if ch.many {
				return n
			}
			return min(n, 1)
		}
	}
	name := typeName(m.nodes[k])
	cases := []walkCase{
		{name: "no children", count: one(0)}, {name: "one of each", count: one(1)}, {name: "two of each", count: one(2)}, {name: "three of each", count: one(3)},
		{name: "no callbacks", unset: "all", count: one(2)}, {name: "callbacks that ask for nothing", count: one(2), neither: true},
		{name: "no callback on entering", unset: "Enter" + name, count: one(1)}, {name: "no callback on leaving", unset: "Exit" + name, count: one(1)},
	}
	for _, ch := range m.children[k] {
		cases = append(cases,
			walkCase{name: "no " + ch.fn.Name(), count: func(o *childOf) int {
				if o == ch {
					return 0
				}
				return one(2)(o)
			}},
			walkCase{name: "only " + ch.fn.Name(), count: func(o *childOf) int {
				if o == ch {
					return one(2)(o)
				}
				return 0
			}},
			walkCase{name: "no callback for " + ch.fn.Name(), unset: "Enter" + typeName(m.nodes[ch.kind]), count: one(2)})
	}
	for _, w := range cases {
		m.run(k, w)
	}
}

// setup gives an executor and the callbacks.
func (m *walkModel) setup(w walkCase) (*Exec, *State, *Val) {
	x := m.c.Exec()
	x.MaxSteps = 20000
	x.Unroll, x.UnrollSym = 60, 60
	x.NoConverge = true
	u := x.U
	st := absint.NewState()
	s := fieldsOf(m.opsT)
	var fs []*Val
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if w.unset == "all" || w.unset == f.Name() {
			fs = append(fs, u.Nil(f.Type()))
			continue
		}
		v := u.Sym("cb:"+f.Name(), f.Type())
		x.Assume(st, x.EqVal(v, u.Nil(f.Type())), false)
		fs = append(fs, v)
	}
	event := func(st *State, what string, arg *Val, stops ...string) []absint.Out {
		var outs []absint.Out
		evs := st.TS["events"]
		var cur []*Val
		if evs != nil {
			cur = evs.Args
		}
		goOn := u.Nil(m.stopper)
		if w.neither && !strings.HasPrefix(what, "walk") {
			goOn = u.Sym("stopper:none", m.stopper)
			x.Assume(st, x.EqVal(goOn, u.Nil(m.stopper)), false)
		}
		res := []*Val{goOn}
		for _, s := range stops {
			res = append(res, u.Sym(fmt.Sprintf("stopper:%s:%d", s, len(cur)), m.stopper))
		}
		for i, r := range res {
			n := st
			if i+1 < len(res) {
				n = st.Clone()
			}
			if i > 0 {
				x.Assume(n, x.EqVal(r, u.Nil(m.stopper)), false)
			}
			n.TS["events"] = u.List(append(append([]*Val(nil), cur...), u.Tuple(u.Str(what), arg, r))...)
			outs = append(outs, absint.Out{St: n, Val: r})
		}
		return outs
	}
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Method != nil && c.Recv != nil && c.Recv.Op == absint.OSym && strings.HasPrefix(c.Recv.Aux, "stopper:") {
			kind := strings.Split(c.Recv.Aux, ":")[1]
			return []absint.Out{{St: st, Val: u.Bool(c.Method.Name() == "ExitNode" && kind == "exit" || c.Method.Name() == "Abort" && kind == "abort")}}, true
		}
		if c.Fn == nil {
			if c.FnVal != nil && c.FnVal.Op == absint.OSym && strings.HasPrefix(c.FnVal.Aux, "cb:") {
				return event(st, c.FnVal.Aux[3:], c.Args[0], "exit", "abort"), true
			}
			return nil, false
		}
		if k, ok := m.walks[c.Fn]; ok {
			return event(st, "walk "+typeName(m.nodes[k]), c.Args[1], "abort"), true
		}
		if ch := m.access[c.Fn]; ch != nil && w.count != nil {
			var kids []*Val
			for i := 0; i < w.count(ch); i++ {
				kids = append(kids, m.kid(x, ch, i))
			}
			if ch.many {
				return []absint.Out{{St: st, Val: u.List(kids...)}}, true
			}
			if len(kids) == 0 {
				return []absint.Out{{St: st, Val: u.Nil(c.Fn.Signature.Results().At(0).Type())}}, true
			}
			p := u.AllocTok(absint.OAlloc, "child", m.nodes[ch.kind])
			st.Mem[p] = kids[0]
			return []absint.Out{{St: st, Val: p}}, true
		}
		return nil, false
	}
	return x, st, u.Struct(m.opsT, fs...)
}

func (m *walkModel) kid(x *Exec, ch *childOf, i int) *Val {
	s := fieldsOf(m.nodes[ch.kind])
	return x.U.Struct(m.nodes[ch.kind], x.U.Sym(fmt.Sprintf("%s.%s.%d", typeName(m.nodes[ch.node]), ch.fn.Name(), i), s.Field(0).Type()))
}

func (m *walkModel) self(x *Exec, k int) *Val {
	return x.U.Struct(m.nodes[k], x.U.Sym("self", fieldsOf(m.nodes[k]).Field(0).Type()))
}

type walkEvent struct {
	what string
	arg  *Val
	res  *Val
}

func events(x *Exec, st *State) []walkEvent {
	var out []walkEvent
	if l := st.TS["events"]; l != nil {
		for _, e := range l.Args {
			s, _ := e.Args[0].StrConst()
			out = append(out, walkEvent{s, x.Norm(st, x.Reify(st, e.Args[1])), e.Args[2]})
		}
	}
	return out
}

func (e walkEvent) asks() string {
	if e.res.Op == absint.OSym {
		return strings.Split(e.res.Aux, ":")[1]
	}
	return "none"
}

func (m *walkModel) run(k int, w walkCase) {
	const rule = "C13.walk"
	name := typeName(m.nodes[k])
	fn := m.walkOf[k]
	x, st, ops := m.setup(w)
	self := m.self(x, k)
	good := 0
	for _, o := range x.Run(fn, []*Val{ops, self}, st) {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, rule, "walking %s panics", name)
			continue
		}
		if msg := m.judge(x, o, k, w, self); msg != "" {
			x.Report(o.St, fn.Pos(), rule, "walking %s, %s: %s", name, w.name, msg)
			continue
		}
		good++
	}
	m.c.Done(x, rule, m.where+name+", "+w.name, fn)
	m.c.Check(rule, m.where+name+", "+w.name, good > 0, fn.Pos(), "walking gives no result")
}

// judge compares what happened with what the tree and the answers ask for.
func (m *walkModel) judge(x *Exec, o *absint.Outcome, k int, w walkCase, self *Val) string {
	u := x.U
	name := typeName(m.nodes[k])
	evs := events(x, o.St)
	res := o.Res[0]
	set := func(cb string) bool {
		return w.unset != "all" && w.unset != cb && fieldIndex(m.opsT, cb) >= 0
	}
	trail := func() string {
		var out []string
		for _, e := range evs {
			out = append(out, e.what+"("+show(e.arg)+") asked for "+e.asks())
		}
		return "(" + strings.Join(out, ", ") + "; result " + show(res) + ")"
	}
	isNil := x.Known(o.St, x.EqVal(res, u.Nil(m.stopper)), true)
	// the end of the walk after a request
	end := func(i int, e walkEvent) (string, bool) {
		switch e.asks() {
		case "abort":
			if i+1 < len(evs) {
				return "the walk goes on after a request to abort " + trail(), true
			}
			if res != e.res {
				return "the request to abort is not returned " + trail(), true
			}
			return "", true
		case "exit":
			if i+1 < len(evs) {
				return "the walk goes on after a request to leave the node " + trail(), true
			}
			if !isNil {
				return "a request to leave the node is passed on " + trail(), true
			}
			return "", true
		}
		return "", false
	}
	i := 0
	if set("Enter" + name) {
		if len(evs) == 0 || evs[0].what != "Enter"+name || evs[0].arg != self {
			return "the callback on entering does not come first " + trail()
		}
		if msg, done := end(0, evs[0]); done {
			return msg
		}
		i = 1
	}
	// the children
	type visit struct{ what, leave string }
	want := map[*Val]visit{}
	var order []*Val
	for _, ch := range m.children[k] {
		for j := 0; j < w.count(ch); j++ {
			kid := m.kid(x, ch, j)
			kn := typeName(m.nodes[ch.kind])
			if m.walkOf[ch.kind] != nil {
				want[kid] = visit{"walk " + kn, ""}
			} else if set("Enter" + kn) {
				want[kid] = visit{"Enter" + kn, "Exit" + kn}
			} else {
				continue
			}
			order = append(order, kid)
		}
	}
	last := map[string]int{}
	for ; i < len(evs); i++ {
		e := evs[i]
		if e.what == "Exit"+name && e.arg == self {
			break
		}
		v, ok := want[e.arg]
		if !ok || v.what != e.what {
			return "a visit that does not belong there " + trail()
		}
		delete(want, e.arg)
		// children of one kind come in order
		at := strings.LastIndex(show(e.arg), ".")
		key, idx := show(e.arg)[:at], 0
		fmt.Sscan(strings.TrimRight(show(e.arg)[at+1:], "})"), &idx)
		if l, ok := last[key]; ok && idx < l {
			return "children are visited out of order " + trail()
		}
		last[key] = idx
		switch {
		case e.asks() == "exit":
			// a leaf has nothing left to skip; its parent may be left too
			if i+1 == len(evs) && isNil {
				return ""
			}
		case e.asks() == "abort":
			msg, _ := end(i, e)
			return msg
		}
	}
	for _, kid := range order {
		if _, ok := want[kid]; ok {
			return "child " + show(kid) + " is not visited " + trail()
		}
	}
	if set("Exit" + name) {
		if i >= len(evs) {
			return "the callback on leaving is not called " + trail()
		}
		if i+1 != len(evs) {
			return "something comes after the callback on leaving " + trail()
		}
		if evs[i].asks() == "abort" {
			msg, _ := end(i, evs[i])
			return msg
		}
	}
	if !isNil {
		return "a request that was not made is returned " + trail()
	}
	return ""
}

// dispatch: Walk hands each type of node to its own method or callback.
func (m *walkModel) dispatch(k int) {
	const rule = "C13.dispatch"
	name := typeName(m.nodes[k])
	fn := m.c.P.TypeMethod(m.opsT, "Walk")
	if fn == nil {
		panic(missing("WalkerOps.Walk"))
	}
	for _, unset := range []string{"", "all"} {
		x, st, ops := m.setup(walkCase{unset: unset})
		u := x.U
		self := m.self(x, k)
		good := 0
		for _, o := range x.Run(fn, []*Val{ops, u.Iface(m.nodes[k], self)}, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, rule, "walking %s panics", name)
				continue
			}
			evs := events(x, o.St)
			res := o.Res[0]
			want := "walk " + name
			if m.walkOf[k] == nil {
				want = "Enter" + name
			}
			switch {
			case m.walkOf[k] == nil && unset == "all":
				if len(evs) != 0 || !x.Known(o.St, x.EqVal(res, u.Nil(m.stopper)), true) {
					x.Report(o.St, fn.Pos(), rule, "something happens for %s without callbacks", name)
					continue
				}
			case len(evs) < 1 || evs[0].what != want || evs[0].arg != self:
				x.Report(o.St, fn.Pos(), rule, "%s is not handed to %s", name, want)
				continue
			case len(evs) > 1 && (m.walkOf[k] != nil || len(evs) > 2 || evs[1].what != "Exit"+name):
				x.Report(o.St, fn.Pos(), rule, "%s is visited more than once", name)
				continue
			case evs[0].asks() == "abort" && res != evs[0].res:
				x.Report(o.St, fn.Pos(), rule, "a request to abort is not returned for %s", name)
				continue
			case evs[0].asks() == "none" && !x.Known(o.St, x.EqVal(res, u.Nil(m.stopper)), true):
				x.Report(o.St, fn.Pos(), rule, "a request that was not made is returned for %s", name)
				continue
			}
			good++
		}
		cons := m.where + name
		if unset != "" {
			cons += ", no callbacks"
		}
		m.c.Done(x, rule, cons, fn)
		m.c.Check(rule, cons, good > 0, fn.Pos(), "no result")
	}
}

// accessors: what an accessor of children returns is all of the node's
// children of that name.
func (m *walkModel) accessors(k int) {
	const rule = "C13.children"
	for _, ch := range m.children[k] {
		cons := m.where + typeName(m.nodes[k]) + "." + ch.fn.Name()
		x := m.c.Exec()
		u := x.U
		st := absint.NewState()
		// what the library is asked for
		x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
			if c.Fn == nil || c.Fn.Pkg != m.c.P.SSA["ast"] || (c.Fn.Name() != "First" && c.Fn.Name() != "All") {
				return nil, false
			}
			asked := u.Tuple(x.Reify(st, c.Args[0]), c.Args[1])
			st.TS["asked"] = asked
			nt := c.Fn.Signature.Results().At(0).Type()
			if c.Fn.Name() == "All" {
				var l []*Val
				for i := 0; i < 3; i++ {
					l = append(l, u.Sym(fmt.Sprintf("found%d", i), nt.(*types.Slice).Elem()))
				}
				return []absint.Out{{St: st, Val: u.List(l...)}}, true
			}
			f := u.Sym("found0", nt)
			none := st.Clone()
			x.Assume(st, x.EqVal(f, u.Nil(nt)), false)
			return []absint.Out{{St: st, Val: f}, {St: none, Val: u.Nil(nt)}}, true
		}
		x.Unroll, x.UnrollSym = 20, 20
		self := m.self(x, k)
		good := 0
		for _, o := range x.Run(ch.fn, []*Val{self}, st) {
			if o.Panic != nil {
				x.Report(o.St, o.Pos, rule, "%s panics", cons)
				continue
			}
			asked := o.St.TS["asked"]
			if asked == nil || asked.Args[0] != self.Args[0] {
				x.Report(o.St, ch.fn.Pos(), rule, "%s does not look at the node", cons)
				continue
			}
			id, ok := asked.Args[1].StrConst()
			if !ok || !sameName(id, ch.fn.Name()[3:]) {
				x.Report(o.St, ch.fn.Pos(), rule, "%s asks for %q", cons, id)
				continue
			}
			res := x.Reify(o.St, o.Res[0])
			var got []*Val
			if ch.many {
				if res.Op == absint.OList {
					got = res.Args
				}
				if len(got) != 3 {
					x.Report(o.St, ch.fn.Pos(), rule, "%s gives %s", cons, show(res))
					continue
				}
			} else if !res.IsNil() {
				got = []*Val{x.Load(o.St, res, m.nodes[ch.kind])}
			} else if x.Known(o.St, x.EqVal(u.Sym("found0", nil), u.Nil(nil)), false) {
				x.Report(o.St, ch.fn.Pos(), rule, "%s loses the child", cons)
				continue
			}
			bad := false
			for i, g := range got {
				if g.Op != absint.OStruct || g.Args[0].Op != absint.OSym || g.Args[0].Aux != fmt.Sprintf("found%d", i) {
					x.Report(o.St, ch.fn.Pos(), rule, "%s gives %s", cons, show(g))
					bad = true
				}
			}
			if !bad {
				good++
			}
		}
		m.c.Done(x, rule, cons, ch.fn)
		m.c.Check(rule, cons, good > 0, ch.fn.Pos(), "no result")
	}
}

// stoppers: the two requests that come with a walker ask for what they say.
func (m *walkModel) stoppers(where string) {
	const rule = "C13.stopper"
	for _, v := range []struct{ name, asks string }{{"NodeExiter", "ExitNode"}, {"Aborter", "Abort"}} {
		g, ok := m.c.P.SSA["wbnf"].Members[v.name].(*ssa.Global)
		if !ok {
			panic(missing(v.name))
		}
		t := g.Type().(*types.Pointer).Elem()
		for _, q := range []string{"ExitNode", "Abort"} {
			fn := m.c.P.TypeMethod(t, q)
			if fn == nil || types.IsInterface(t) {
				continue
			}
			x := m.c.Exec()
			good := false
			for _, o := range x.Run(fn, []*Val{x.U.Sym("self", t)}, absint.NewState()) {
				good = o.Panic == nil && x.Known(o.St, o.Res[0], q == v.asks)
				if !good {
					break
				}
			}
			m.c.Done(x, rule, where+v.name+"."+q, fn)
			m.c.Check(rule, where+v.name+"."+q, good, fn.Pos(), "%s of %s does not return %v", q, v.name, q == v.asks)
		}
	}
}

// generated is the program with package wbnf replaced by what the generator
// writes for types with children of every kind.
func (c *Ctx) generated() *Ctx {
	const rule = "C13.generated"
	none := token.NoPos
	writer := c.P.Func("cmd/codegen", "GetVisitorWriter")
	if writer == nil {
		panic(missing("codegen.GetVisitorWriter"))
	}
	m := c.genModel()
	x, u := m.x, m.u
	x.MaxSteps = 200000
	goName := c.P.Func("cmd/codegen", "GoName")
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		if ci.Fn == nil {
			return nil, false
		}
		ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
		switch {
		case ci.Fn == goName && goName != nil, ci.Fn.RelString(nil) == "github.com/iancoleman/strcase.ToCamel":
			s, ok := m.textVal(m.lit.flat(x, st, ci.Args[0])).StrConst()
			if !ok || s == "" {
				return nil, false
			}
			s = strings.TrimSuffix(s, "Node")
			return ret(u.Str(strings.ToUpper(s[:1]) + s[1:]))
		case ci.Fn.RelString(nil) == "sort.Slice", ci.Fn.RelString(nil) == "sort.SliceStable":
			return ret(nil) // of declarations
		}
		return m.hook(x, st, ci)
	}
	tn := func(n string) types.Type { return c.Named("cmd/codegen", n) }
	mk := func(t string, kv ...any) *Val {
		ty := tn(t)
		s := fieldsOf(ty)
		vs := map[string]*Val{}
		for i := 0; i < len(kv); i += 2 {
			k := kv[i].(string)
			if fieldIndex(ty, k) < 0 {
				panic(missing("codegen." + t + "." + k))
			}
			switch v := kv[i+1].(type) {
			case string:
				vs[k] = u.Str(v)
			case *Val:
				vs[k] = v
			}
		}
		var fs []*Val
		for i := 0; i < s.NumFields(); i++ {
			if v := vs[s.Field(i).Name()]; v != nil {
				fs = append(fs, v)
			} else {
				fs = append(fs, u.Zero(s.Field(i).Type()))
			}
		}
		return u.Iface(ty, u.Struct(ty, fs...))
	}
	// how often a child is wanted: by one accessor, by one for all, by both
	counts := map[string]*Val{}
	for k, fn := range map[string]string{"one": "setWantOneGetter", "all": "setWantAllGetter"} {
		f := c.P.Func("cmd/codegen", fn)
		if f == nil {
			panic(missing("codegen." + fn))
		}
		outs := x.Run(f, nil, absint.NewState())
		if len(outs) != 1 || outs[0].Panic != nil {
			panic(missing("result of " + fn))
		}
		counts[k] = x.Reify(outs[0].St, outs[0].Res[0])
	}
	if f := c.P.TypeMethod(tn("countManager"), "forceMany"); f != nil {
		outs := x.Run(f, []*Val{counts["one"]}, absint.NewState())
		if len(outs) != 1 || outs[0].Panic != nil {
			panic(missing("result of forceMany"))
		}
		counts["both"] = x.Reify(outs[0].St, outs[0].Res[0])
	} else {
		counts["both"] = counts["all"]
	}
	named := func(parent, name, of, n string) *Val {
		return mk("namedRule", "name", name, "parent", parent, "returnType", of, "count", counts[n])
	}
	tok := func(t, parent, name, n string) *Val {
		if name == "" {
			return mk(t, "parent", parent, "count", counts[n])
		}
		return mk(t, "name", name, "parent", parent, "count", counts[n])
	}
	node := func(name string, kids ...*Val) *Val {
		return mk("rule", "name", name+"Node", "childs", u.List(kids...))
	}
	basic := func(name string) *Val {
		return u.Iface(tn("basicRule"), u.Str(name+"Node"))
	}
	all := map[string]*Val{
		"Leaf":  basic("Leaf"),
		"Other": basic("Other"),
		"Empty": node("Empty", tok("unnamedToken", "Empty", "", "one")),
		"Refs":  node("Refs", mk("backRef", "name", "leaf", "parent", "Refs"), tok("namedToken", "Refs", "op", "both"), mk("choice", "parent", "Refs")),
		"Stack": node("Stack", mk("stackBackRef", "name", "stack", "parent", "Stack"), named("Stack", "leaf", "Leaf", "both"), tok("unnamedToken", "Stack", "", "all")),
		"Many":  node("Many", named("Many", "leaf", "Leaf", "all"), named("Many", "stack", "Stack", "all"), named("Many", "many", "Many", "both"), named("Many", "x", "Other", "all")),
		"One": node("One", mk("choice", "parent", "One"), named("One", "leaf", "Leaf", "one"), named("One", "empty", "Empty", "one"), tok("unnamedToken", "One", "", "both"),
			named("One", "x", "Refs", "one"), named("One", "y", "Leaf", "one"), tok("namedToken", "One", "z", "one")),
		"Single": node("Single", named("Single", "one", "One", "one")),
		"Mixed":  node("Mixed", named("Mixed", "stack", "Stack", "one"), mk("stackBackRef", "name", "own", "parent", "Mixed"), named("Mixed", "q", "Other", "both"), named("Mixed", "many", "Many", "all")),
		"Chain":  node("Chain", named("Chain", "leaf", "Leaf", "one"), named("Chain", "chain", "Chain", "one"), tok("unnamedToken", "Chain", "", "all"), named("Chain", "z", "Chain", "both")),
		"A":      node("A", named("A", "leaf", "Leaf", "all")),
		"B":      node("B", named("B", "b", "B", "one")),
		"C":      node("C", mk("stackBackRef", "name", "c", "parent", "C")),
		"D":      node("D", mk("stackBackRef", "name", "other", "parent", "D"), named("D", "d", "Leaf", "both"), named("D", "e", "E", "one")),
		"E":      node("E", mk("backRef", "name", "e", "parent", "E")),
		"F":      node("F", tok("unnamedToken", "F", "", "all"), named("F", "leaf", "Leaf", "one"), named("F", "f", "F", "both"), mk("backRef", "name", "g", "parent", "F"), named("F", "x", "A", "all")),
	}
	wantAcc := map[string]string{"Stack": "AllStack AllLeaf", "Many": "AllLeaf AllStack AllMany AllX", "One": "OneLeaf OneEmpty OneX OneY", "Single": "OneOne", "Mixed": "OneStack AllOwn AllQ AllMany",
		"Chain": "OneLeaf OneChain AllZ", "A": "AllLeaf", "B": "OneB", "C": "AllC", "D": "AllOther AllD OneE", "F": "OneLeaf AllF AllX"}
	st := absint.NewState()
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	mapT := writer.Signature.Params().At(0).Type()
	tm := u.AllocTok(absint.OMap, "types", mapT)
	var es []*Val
	for _, n := range names {
		es = append(es, u.Tuple(u.Str(n+"Node"), all[n]))
	}
	st.Mem[tm] = u.List(es...)
	var sb strings.Builder
	text := func(fn *ssa.Function, args []*Val, what string) bool {
		outs := x.Run(fn, args, st.Clone())
		if len(outs) != 1 || outs[0].Panic != nil {
			c.Done(x, rule, what, fn)
			return c.Check(rule, what, false, fn.Pos(), "no single text is generated")
		}
		var b []byte
		for _, v := range m.lit.flat(x, outs[0].St, outs[0].Res[0]) {
			k, ok := v.IntConst()
			if !ok {
				c.Done(x, rule, what, fn)
				return c.Check(rule, what, false, fn.Pos(), "the text generated is not understood: %s", show(v))
			}
			b = append(b, byte(k))
		}
		sb.Write(b)
		sb.WriteString("\n")
		return true
	}
	for _, n := range names {
		t := all[n].Typ
		if !text(c.P.TypeMethod(t, "String"), []*Val{all[n].Args[0]}, "type "+n) {
			return nil
		}
	}
	outs := x.Run(writer, []*Val{tm, u.Str("single")}, st.Clone())
	if len(outs) != 1 || outs[0].Panic != nil {
		c.Check(rule, "walker", false, writer.Pos(), "no writer is made")
		return nil
	}
	vw := outs[0].Res[0]
	if !text(c.P.TypeMethod(writer.Signature.Results().At(0).Type(), "String"), []*Val{vw}, "walker") {
		return nil
	}
	c.Done(x, rule, "text", writer)
	// the file around it
	src, f, pos := c.wholeFile(sb.String())
	if src == "" {
		c.Check(rule, "file", false, none, "no template that holds the middle section was found")
		return nil
	}
	file, err := parser.ParseFile(c.P.Prog.Fset, "generated.go", src, parser.SkipObjectResolution)
	if err != nil {
		c.Check(rule, "file", false, pos, "the text that %s writes is not Go: %v", f.Name(), err)
		return nil
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	var terr error
	conf := types.Config{Importer: modImporter{c.P}, Error: func(e error) {
		if terr == nil {
			terr = e
		}
	}}
	tp, _ := conf.Check(load.Mod+"/generated", c.P.Prog.Fset, []*ast.File{file}, info)
	if terr != nil {
		c.Check(rule, "file", false, pos, "the text that %s writes does not compile: %v", f.Name(), terr)
		return nil
	}
	sp := c.P.Prog.CreatePackage(tp, []*ast.File{file}, info, false)
	sp.Build()
	p := *c.P
	p.SSA = map[string]*ssa.Package{"wbnf": sp, "ast": c.P.SSA["ast"]}
	g := NewCtx(&p)
	wm := g.walkModel()
	for k, t := range wm.nodes {
		n := strings.TrimSuffix(typeName(t), "Node")
		var got []string
		for _, ch := range wm.children[k] {
			got = append(got, ch.fn.Name())
		}
		want := strings.Fields(wantAcc[n])
		sort.Strings(got)
		sort.Strings(want)
		g.Check(rule, "accessors of "+n, strings.Join(got, " ") == strings.Join(want, " "), pos, "the children of %s have accessors %v instead of %v", n, got, want)
	}
	g.Check(rule, "types", len(wm.nodes) == len(all), pos, "there are %d types instead of %d", len(wm.nodes), len(all))
	return g
}

type modImporter struct{ p *load.Program }

func (i modImporter) Import(path string) (*types.Package, error) {
	if p := i.p.SSA[strings.TrimPrefix(path, load.Mod+"/")]; p != nil {
		return p.Pkg, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

// wholeFile puts a middle section into the template.
func (c *Ctx) wholeFile(middle string) (string, *ssa.Function, token.Pos) {
	for _, f := range c.allFuncs() {
		if f.Pkg == nil || f.Pkg != c.P.SSA["cmd/codegen"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().RelString(nil) != "(*text/template.Template).Parse" {
					continue
				}
				k, ok := call.Call.Args[1].(*ssa.Const)
				if !ok || k.Value == nil || !strings.Contains(constant.StringVal(k.Value), ".MiddleSection") {
					continue
				}
				trees, err := tparse.Parse("t", constant.StringVal(k.Value), "", "")
				if err != nil {
					continue
				}
				var sb strings.Builder
				for _, t := range trees["t"].Root.Nodes {
					switch t := t.(type) {
					case *tparse.TextNode:
						sb.Write(t.Text)
					case *tparse.ActionNode:
						switch t.Pipe.String() {
						case ".Grammar":
							sb.WriteString("parser.Grammar{}")
						case ".StartRule":
							sb.WriteString(`"single"`)
						case ".StartRuleTypeName":
							sb.WriteString("SingleNode")
						default:
							sb.WriteString("generated")
						}
					case *tparse.RangeNode:
						sb.WriteString(middle)
					}
				}
				return sb.String(), f, call.Pos()
			}
		}
	}
	return "", nil, token.NoPos
}

// sameName: names in grammars and in Go differ in case and separators only.
func sameName(a, b string) bool {
	norm := func(s string) string {
		return strings.ToLower(strings.NewReplacer("_", "", ".", "", "-", "").Replace(s))
	}
	return norm(a) == norm(b)
}

func init() {
	register(&Prop{ID: "C13", Run: func(c *Ctx) { c.Walker() }, Groups: []string{"C13."}, Technique: absTechnique, MinObl: 560, Covers: "every Walk method, accessor and dispatch of the checked-in tree types; the code the generator writes for types with children of every kind"})
}
