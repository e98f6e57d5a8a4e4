package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// scopeKeyOf is the constant key under which values of type t are kept in scopes.
func (c *Ctx) scopeKeyOf(t types.Type, what string) string {
	keys := map[string]bool{}
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				args := call.Common().Args
				for i := 0; i+1 < len(args); i++ {
					mi, ok := args[i+1].(*ssa.MakeInterface)
					if !ok || !types.Identical(mi.X.Type(), t) {
						continue
					}
					if k, ok := args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						keys[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
	}
	if len(keys) != 1 {
		panic(missing("the scope key of the " + what))
	}
	for k := range keys {
		return k
	}
	return ""
}

// escModel knows the parts of the configured escape.
type escModel struct {
	*parseModel
	key              string
	open, close, ext int // fields of escape
	unconsT          types.Type
	unTree, unRest   int
}

type escRun struct {
	m      *escModel
	b      *built
	x      *Exec
	fn     *ssa.Function
	inAddr *Val
	outA   *Val
	esc    *Val
	entry  *Val
	parts  [3]*Val // open, close, external
	offers int
}

// Escape decides C19.
func (c *Ctx) Escape() {
	pm := c.parseModel()
	if pm.escT == nil {
		panic(missing("the configuration of an escape"))
	}
	m := &escModel{parseModel: pm, key: c.scopeKeyOf(pm.escT, "escape"), open: -1, close: -1, ext: -1, unTree: -1, unRest: -1}
	es := fieldsOf(pm.escT.(*types.Pointer).Elem())
	for i := 0; i < es.NumFields(); i++ {
		if typeName(es.Field(i).Type()) == "ExternalRef" {
			m.ext = i
		}
	}
	m.unconsT = c.Named("parser", "UnconsumedInputError")
	us := fieldsOf(m.unconsT)
	for i := 0; i < us.NumFields(); i++ {
		switch {
		case types.Identical(us.Field(i).Type(), pm.scannerT):
			m.unRest = i
		case types.Identical(us.Field(i).Type(), pm.teT):
			m.unTree = i
		}
	}
	if m.unTree < 0 || m.unRest < 0 {
		panic(missing("the parts of UnconsumedInputError"))
	}
	m.config()
	for _, k := range c.Kinds() {
		role, ok := roles[typeName(k)]
		if !ok {
			continue
		}
		bs, x, fn := pm.construct(k, nil)
		cons := typeName(k)
		seen := map[string]bool{}
		for _, b := range bs {
			if b.res.Op != absint.OIface {
				continue
			}
			sig := show(b.res) + show(x.Load(b.st, b.res.Args[0], nil))
			if seen[sig] {
				continue
			}
			seen[sig] = true
			m.run(b, cons, role)
		}
		c.Check("C19.kinds", cons, len(seen) > 0, fn.Pos(), "the constructor never returns a parser")
		c.Done(x, "C19", cons, fn)
	}
}

// config finds which delimiter is which, from how escapes are set up.
func (m *escModel) config() {
	c := m.c
	fn := c.P.Method("parser", "Scope", "WithExternals")
	if fn == nil {
		panic(missing("Scope.WithExternals"))
	}
	x := c.Exec()
	u := x.U
	es := fieldsOf(m.escT.(*types.Pointer).Elem())
	puts := 0
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		if ci.Fn == nil {
			return nil, false
		}
		for i, a := range ci.Args {
			if k, ok := a.StrConst(); !ok || k != m.key || i+1 >= len(ci.Args) {
				continue
			}
			v := ci.Args[i+1]
			if v.Op != absint.OIface || !types.Identical(v.Typ, m.escT) {
				continue
			}
			e := v.Args[0]
			puts++
			var name *Val
			for j := 0; j < es.NumFields(); j++ {
				f := x.Load(st, u.FieldAddr(e, j, m.escT), es.Field(j).Type())
				if j == m.ext {
					// the handler is the one registered under the name
					if f.Op == absint.OLookup {
						name = f.Args[1]
					}
					continue
				}
				switch part(f) {
				case 0:
					if m.open >= 0 && m.open != j {
						x.Report(st, ci.Pos, "C19.config", "both delimiters are the text before the handler")
					}
					m.open = j
				case 1:
					if m.close >= 0 && m.close != j {
						x.Report(st, ci.Pos, "C19.config", "both delimiters are the text behind the handler")
					}
					m.close = j
				}
				if name != nil && !f.Mentions(name) {
					x.Report(st, ci.Pos, "C19.config", "a delimiter does not come from the name of the escape: %s", show(f))
				}
				if p := anchored(f); !p {
					x.Report(st, ci.Pos, "C19.anchor", "a delimiter is matched by %s, which is not anchored at the current position", show(f))
				}
			}
		}
		if strings.Contains(ci.Fn.RelString(nil), "arr-ai/frozen") {
			var v *Val
			if r := ci.Fn.Signature.Results(); r.Len() == 1 {
				v = u.Tok("frozen", r.At(0).Type())
			}
			return []absint.Out{{St: st, Val: v}}, true
		}
		return nil, false
	}
	x.Run(fn, []*Val{u.Sym("s", fn.Params[0].Type()), u.Sym("exts", fn.Params[1].Type())}, absint.NewState())
	c.Check("C19.config", "WithExternals", puts > 0, fn.Pos(), "an escape is never set up")
	c.Check("C19.anchor", "WithExternals", true, fn.Pos(), "")
	if puts > 0 && (m.open < 0 || m.close < 0) {
		c.Check("C19.config", "WithExternals", false, fn.Pos(), "cannot tell the opening from the closing delimiter")
	}
	c.Done(x, "C19", "WithExternals", fn)
	if m.open < 0 || m.close < 0 {
		// go on with the declared names
		m.open, m.close = fieldIndex(m.escT.(*types.Pointer).Elem(), "openDelim"), fieldIndex(m.escT.(*types.Pointer).Elem(), "closeDelim")
		if m.open < 0 || m.close < 0 {
			panic(missing("the delimiters of an escape"))
		}
	}
}

// part says which half of the split name a value is made from.
func part(v *Val) int {
	r := -1
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.Op == absint.OIndex {
			if k, ok := v.Args[1].IntConst(); ok && v.Args[0].Op == absint.OCall && strings.HasPrefix(v.Args[0].Aux, "strings.Split") {
				r = int(k)
				return
			}
		}
		if v.Op == absint.OCall && v.Aux == "strings.Cut" {
			r = v.I
			return
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	walk(v)
	return r
}

// anchored: the expression compiled starts with a constant containing \A.
func anchored(v *Val) bool {
	s := v.String()
	return strings.Contains(s, `\\A`) || strings.Contains(s, `\A`)
}

func (m *escModel) run(b *built, cons, role string) {
	c := m.c
	pfn := c.P.TypeMethod(b.res.Typ, "Parse")
	if pfn == nil {
		panic(missing("Parse of " + b.res.Typ.String()))
	}
	x := c.Exec()
	x.U = b.x.U
	u := x.U
	r := &escRun{m: m, b: b, x: x, fn: pfn}
	x.Hooks.Inline = opaqueStrings
	x.Hooks.Call = r.hook
	ps := pfn.Params
	r.inAddr, r.outA = u.Sym("input", ps[2].Type()), u.Sym("output", ps[3].Type())
	r.esc = u.Sym("esc", m.escT)
	st := b.st.Clone()
	x.Assume(st, x.EqVal(r.esc, u.Nil(nil)), false)
	es := fieldsOf(m.escT.(*types.Pointer).Elem())
	for i, f := range []int{m.open, m.close, m.ext} {
		r.parts[i] = x.Load(st, u.FieldAddr(r.esc, f, m.escT), es.Field(f).Type())
	}
	r.entry = x.Load(st, r.inAddr, m.scannerT)
	st.TS["!esc"] = u.Str("start")
	st.TS["front"] = r.entry
	st.TS["tree"] = u.Nil(nil)
	t := ps[1].Type()
	mt := fieldsOf(t).Field(0).Type()
	scope := u.Struct(t, u.Call("smap", 0, mt, u.Field(u.Sym("scope", t), 0, mt), u.Nil(nil)))
	outs := x.Run(pfn, []*Val{b.res.Args[0], scope, r.inAddr, r.outA, u.Sym("stk", ps[4].Type())}, st)
	closed := 0
	for _, o := range outs {
		at := func(rule, f string, args ...any) { x.Report(o.St, o.Pos, rule, f, args...) }
		if o.Panic != nil {
			continue
		}
		isNil, known := x.Decide(o.St, x.EqVal(o.Res[0], u.Nil(nil)))
		if !known {
			at("C19.undecided", "cannot tell whether %s is an error", show(o.Res[0]))
			continue
		}
		state := tsStr(o.St, "!esc")
		switch typeName(b.kind) {
		case "S", "RE", "LookAhead", "Delim", "CutPoint":
			if state == "plain" {
				at("C19.plain", "the construct is never tried although no opening delimiter was found")
			}
		}
		if !isNil {
			switch state {
			case "closed":
				at("C19.result", "fails although the escape was handled and closed")
			case "start":
				at("C19.offer", "fails without having looked for the opening delimiter")
			}
			continue
		}
		switch state {
		case "closed":
			closed++
			if cur := x.Load(o.St, r.inAddr, m.scannerT); !x.SameVal(o.St, cur, o.St.TS["front"]) {
				at("C19.resume", "parsing resumes at %s instead of behind the closing delimiter", show(cur))
			}
			if out := x.Load(o.St, r.outA, m.teT); !x.SameVal(o.St, out, o.St.TS["tree"]) {
				at("C19.result", "the result is %s instead of the handler's tree", show(out))
			}
		case "start":
			at("C19.offer", "succeeds without having looked for the opening delimiter")
		case "plain":
		case "failed":
			at("C19.fail", "success is reported although the handler failed")
		case "unclosed":
			at("C19.fail", "success is reported although the closing delimiter is missing")
		default:
			at("C19.close", "success is reported without having looked for the closing delimiter (%s)", state)
		}
	}
	if cons != "CutPoint" {
		c.Check("C19.offer", cons, closed > 0, pfn.Pos(), "an escape never succeeds")
		for _, rule := range []string{"C19.resume", "C19.result", "C19.fail", "C19.handler", "C19.close", "C19.plain"} {
			c.Check(rule, cons, true, pfn.Pos(), "")
		}
	}
	c.Done(x, "C19", cons, pfn)
}

// ordinary notes that the construct itself is parsed; the path ends here.
func (r *escRun) ordinary(st *State, in ssa.Instruction, addr *Val, what string) []absint.Out {
	x := r.x
	switch tsStr(st, "!esc") {
	case "start":
		x.Report(st, in.Pos(), "C19.offer", "%s without having looked for the opening delimiter", what)
	case "plain":
		if cur := x.Load(st, addr, r.m.scannerT); !x.SameVal(st, cur, r.entry) {
			x.Report(st, in.Pos(), "C19.plain", "%s at %s although no opening delimiter was found at %s", what, show(cur), show(r.entry))
		}
	default:
		x.Report(st, in.Pos(), "C19.handler", "%s although the opening delimiter was found", what)
	}
	return []absint.Out{}
}

func (r *escRun) hook(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := x.U
	m := r.m
	in, _ := c.Instr.(ssa.Instruction)
	if recv, args, ok := m.isParse(c); ok {
		if typeName(r.b.kind) == "CutPoint" && tsStr(st, "!esc") == "start" {
			// hands everything over to the term it wraps, which offers the escape
			if !x.SameVal(st, args[1], r.inAddr) || !x.SameVal(st, x.Load(st, args[1], m.scannerT), r.entry) {
				x.Report(st, c.Pos, "C19.offer", "the wrapped term starts at %s", show(args[1]))
			}
			return []absint.Out{}, true
		}
		_ = recv
		return r.ordinary(st, in, args[1], "a sub-parser is attempted"), true
	}
	if c.Fn != nil {
		if strings.HasPrefix(c.Fn.RelString(nil), "(github.com/arr-ai/frozen.Map[") {
			return frozenCall(x, st, c, func(key string) (*Val, bool, bool) {
				if key == m.key {
					return u.Iface(m.escT, r.esc), true, true
				}
				return nil, false, false
			})
		}
		if c.Fn.Signature.Recv() == nil || typeName(c.Fn.Signature.Recv().Type()) != "Scanner" || !strings.HasPrefix(c.Fn.Name(), "Eat") {
			return nil, false
		}
		if c.Fn.Name() != "EatRegexp" || len(c.Args) != 4 {
			return r.ordinary(st, in, c.Args[0], "text is eaten"), true
		}
		addr, re := c.Args[0], c.Args[1]
		cur := x.Load(st, addr, m.scannerT)
		state := tsStr(st, "!esc")
		isOpen, isClose := x.SameVal(st, re, r.parts[0]), x.SameVal(st, re, r.parts[1])
		if !isOpen && !isClose {
			return r.ordinary(st, in, addr, "a pattern is matched"), true
		}
		if addr != r.inAddr {
			x.Report(st, c.Pos, "C19.resume", "a delimiter is looked for in %s instead of the input", show(addr))
		}
		if isOpen && state != "start" || isClose && state != "handled" {
			x.Report(st, c.Pos, "C19.close", "%s delimiter is looked for in state %q", map[bool]string{true: "the opening", false: "the closing"}[isOpen], state)
		}
		if !x.SameVal(st, cur, st.TS["front"]) {
			x.Report(st, c.Pos, "C19.resume", "a delimiter is looked for at %s instead of %s", show(cur), show(st.TS["front"]))
		}
		miss := st.Clone()
		hit := st
		num := u.Tok("ncap", types.Typ[types.Int])
		x.Assume(hit, u.Le(u.Int(0), num), true)
		p := u.Tok("pos", m.scannerT)
		x.Store(hit, addr, p, m.scannerT)
		if !c.Args[2].IsNil() {
			x.Store(hit, c.Args[2], u.Tok("match", m.scannerT), m.scannerT)
		}
		hit.TS["front"] = p
		if isOpen {
			hit.TS["!esc"], miss.TS["!esc"] = u.Str("opened"), u.Str("plain")
		} else {
			hit.TS["!esc"], miss.TS["!esc"] = u.Str("closed"), u.Str("unclosed")
		}
		return []absint.Out{{St: hit, Val: u.Tuple(num, u.Bool(true))}, {St: miss, Val: u.Tuple(u.Int(0), u.Bool(false))}}, true
	}
	if c.Method == nil && types.Identical(c.Instr.Common().Signature().Underlying(), m.c.Named("parser", "ExternalRef").Underlying()) {
		if !x.SameVal(st, c.FnVal, r.parts[2]) {
			return r.ordinary(st, in, c.Args[1], "an external handler is called"), true
		}
		if s := tsStr(st, "!esc"); s != "opened" {
			x.Report(st, c.Pos, "C19.handler", "the escape's handler is called in state %q", s)
			return []absint.Out{}, true
		}
		if c.Args[1] != r.inAddr {
			x.Report(st, c.Pos, "C19.handler", "the escape's handler is given %s instead of the input", show(c.Args[1]))
		}
		if cur := x.Load(st, c.Args[1], m.scannerT); !x.SameVal(st, cur, st.TS["front"]) {
			x.Report(st, c.Pos, "C19.handler", "the escape's handler starts at %s instead of behind the opening delimiter", show(cur))
		}
		tree := u.Tok("tree", m.teT)
		p := u.Tok("pos", m.scannerT)
		ok := st.Clone()
		x.Store(ok, c.Args[1], p, m.scannerT)
		ok.TS["front"], ok.TS["tree"], ok.TS["!esc"] = p, tree, u.Str("handled")
		// it may also stop by handing over what it did not consume
		part := st.Clone()
		x.Store(part, c.Args[1], u.Tok("failpos", m.scannerT), m.scannerT)
		us := fieldsOf(m.unconsT)
		fs := make([]*Val, us.NumFields())
		for i := range fs {
			fs[i] = u.Tok("unf", us.Field(i).Type())
		}
		rest := u.Tok("rest", m.scannerT)
		fs[m.unRest], fs[m.unTree] = rest, tree
		part.TS["front"], part.TS["tree"], part.TS["!esc"] = rest, tree, u.Str("handled")
		e := u.Tok("exterr", nil)
		x.Store(st, c.Args[1], u.Tok("failpos", m.scannerT), m.scannerT)
		x.Assume(st, u.Eq(e, u.Nil(nil)), false)
		x.Assume(st, u.IsType(e, m.unconsT), false)
		st.TS["!esc"] = u.Str("failed")
		return []absint.Out{
			{St: ok, Val: u.Tuple(tree, u.Nil(nil))},
			{St: part, Val: u.Tuple(u.Tok("exttree", m.teT), u.Iface(m.unconsT, u.Struct(m.unconsT, fs...)))},
			{St: st, Val: u.Tuple(u.Tok("exttree", m.teT), e)},
		}, true
	}
	return nil, false
}

func init() {
	register(&Prop{ID: "C19", Run: func(c *Ctx) { c.Escape() }, Technique: absTechnique, MinObl: 50,
		Covers: "For every parser a term kind constructs, its Parse method is interpreted in a scope holding an escape whose delimiters and handler are symbolic. A protocol automaton (offered, opened, handled, closed) is followed on every path: the opening delimiter is looked for at the entry position before anything else, the handler gets the input exactly behind it, the closing delimiter is looked for exactly where the handler stopped (or where its unconsumed-input error says), success means closed, with the handler's tree and the input behind the closing delimiter; a miss of the opening delimiter leaves the input untouched; the set-up derives the two delimiters from the two sides of the name, anchored."})
}
