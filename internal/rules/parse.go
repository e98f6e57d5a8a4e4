package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

type (
	Val   = absint.Val
	State = absint.State
	Exec  = absint.Exec
)

// parseModel runs the Parse methods of the parsers that the grammar's terms
// construct, with every sub-parser and every regular expression match
// replaced by its contract.
type parseModel struct {
	c        *Ctx
	cutKey   string
	cutT     types.Type // Cutpointdata
	fatalT   types.Type
	perrT    types.Type
	stopT    types.Type
	scannerT types.Type
	nodeT    types.Type
	parserI  types.Type
	teT      types.Type
	escT     types.Type // *escape
	cutPtr   types.Type // *cutPointParser
	fatalCut int        // field of FatalError holding the cut
	choiceT  types.Type
	assocT   types.Type
	mkTerm   func(u *absint.Universe) *Val // the term to construct a parser for (nil = any)
}

func (c *Ctx) parseModel() *parseModel {
	m := &parseModel{c: c,
		cutT: c.Named("parser", "Cutpointdata"), fatalT: c.Named("parser", "FatalError"),
		perrT: c.Named("parser", "ParseError"), stopT: c.Named("parser", "StopError"),
		scannerT: c.Named("parser", "Scanner"), nodeT: c.Named("parser", "Node"),
		parserI: c.Named("parser", "Parser"), teT: c.Named("parser", "TreeElement"),
		choiceT: c.Named("parser", "Choice"), assocT: c.Named("parser", "Associativity"),
	}
	fs := fieldsOf(m.fatalT)
	m.fatalCut = -1
	for i := 0; i < fs.NumFields(); i++ {
		if types.Identical(fs.Field(i).Type(), m.cutT) {
			m.fatalCut = i
		}
	}
	if m.fatalCut < 0 {
		panic(missing("cut field of FatalError"))
	}
	// the scope key under which the current cut point is kept
	keys := map[string]bool{}
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				args := call.Common().Args
				for i := 0; i+1 < len(args); i++ {
					mi, ok := args[i+1].(*ssa.MakeInterface)
					if !ok || !types.Identical(mi.X.Type(), m.cutT) {
						continue
					}
					if k, ok := args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						keys[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
	}
	if len(keys) != 1 {
		panic(missing("the scope key of the cut point"))
	}
	for k := range keys {
		m.cutKey = k
	}
	// *escape: the struct holding two regexps and an external handler
	sp := c.P.SSA["parser"]
	for _, mem := range sp.Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		s, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		re, ext := 0, 0
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Type().String() {
			case "*regexp.Regexp":
				re++
			default:
				if typeName(s.Field(i).Type()) == "ExternalRef" {
					ext++
				}
			}
		}
		if re == 2 && ext == 1 {
			m.escT = types.NewPointer(t.Type())
		}
	}
	return m
}

func keyOf(v *Val) (string, bool) { return v.StrConst() }

// Scope maps are modelled as (origin, dynamic part, overlay of constant keys).
// Names bound by the grammar never equal the reserved constant keys.
func smapParts(u *absint.Universe, m *Val) (origin, dyn *Val, over []*Val) {
	if m.Op == absint.OCall && m.Aux == "smap" {
		return m.Args[0], m.Args[1], m.Args[2:]
	}
	return m, u.Nil(nil), nil
}

func smapWith(u *absint.Universe, m, k, v *Val) *Val {
	o, d, over := smapParts(u, m)
	if ks, ok := keyOf(k); ok {
		n := []*Val{o, d}
		for _, e := range over {
			if s, _ := keyOf(e.Args[0]); s != ks {
				n = append(n, e)
			}
		}
		n = append(n, u.Tuple(k, v))
		rest := n[2:]
		sort.Slice(rest, func(i, j int) bool {
			a, _ := keyOf(rest[i].Args[0])
			b, _ := keyOf(rest[j].Args[0])
			return a < b
		})
		return u.Call("smap", 0, m.Typ, n...)
	}
	d = u.Call("sdyn", 0, nil, d, k, v)
	return u.Call("smap", 0, m.Typ, append([]*Val{o, d}, over...)...)
}

func smapGet(u *absint.Universe, m *Val, key string) (v *Val, origin *Val) {
	o, _, over := smapParts(u, m)
	for _, e := range over {
		if s, _ := keyOf(e.Args[0]); s == key {
			return e.Args[1], nil
		}
	}
	return nil, o
}

// frozenCall models frozen.Map[string, any]; ok=false if c is something else.
// entry decides what the entry scope holds under a constant key (nil = fork).
func frozenCall(x *Exec, st *State, c *absint.CallInfo, entry func(key string) (v *Val, has, known bool)) ([]absint.Out, bool) {
	if c.Fn == nil {
		return nil, false
	}
	name := c.Fn.RelString(nil)
	if !strings.HasPrefix(name, "(github.com/arr-ai/frozen.Map[string, any]).") && !strings.HasPrefix(name, "(github.com/arr-ai/frozen.Map[string, interface{}]).") {
		return nil, false
	}
	u := x.U
	mname := name[strings.LastIndex(name, ".")+1:]
	switch mname {
	case "With":
		return []absint.Out{{St: st, Val: smapWith(u, c.Args[0], c.Args[1], c.Args[2])}}, true
	case "Get", "GetElse", "Has", "MustGet":
		m := c.Args[0]
		var val, has *Val
		known := false
		if k, ok := keyOf(c.Args[1]); ok {
			v, o := smapGet(u, m, k)
			if v != nil {
				val, has, known = v, u.Bool(true), true
			} else {
				if entry != nil {
					if ev, eh, ek := entry(k); ek {
						val, has, known = ev, u.Bool(eh), true
					}
				}
				if !known {
					val = u.Lookup(o, c.Args[1], 0, types.NewInterfaceType(nil, nil))
					has = u.Lookup(o, c.Args[1], 1, types.Typ[types.Bool])
				}
			}
		} else {
			val = u.Call("sget", 0, nil, m, c.Args[1])
			has = u.Call("sget", 1, types.Typ[types.Bool], m, c.Args[1])
		}
		mk := func(v *Val, h bool) *Val {
			switch mname {
			case "Get":
				if !h {
					v = u.Nil(nil)
				}
				return u.Tuple(v, u.Bool(h))
			case "Has":
				return u.Bool(h)
			case "GetElse":
				if !h {
					return c.Args[2]
				}
			}
			return v
		}
		var outs []absint.Out
		if b, k := x.Decide(st, has); k {
			return []absint.Out{{St: st, Val: mk(val, b)}}, true
		}
		n := st.Clone()
		if x.Assume(n, has, false) {
			outs = append(outs, absint.Out{St: n, Val: mk(val, false)})
		}
		if x.Assume(st, has, true) {
			outs = append(outs, absint.Out{St: st, Val: mk(val, true)})
		}
		return outs, true
	}
	return nil, false
}

// opaqueStrings keeps helpers that only compute text out of the path space.
func opaqueStrings(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return true
	}
	for i := 0; i < r.Len(); i++ {
		b, ok := r.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			return true
		}
	}
	if !recursive(fn) {
		return true
	}
	for _, p := range fn.Params {
		if isMutable(p.Type()) {
			return true
		}
	}
	return false
}

// recursive reports whether fn loops or calls itself.
func recursive(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
				if g := c.Common().StaticCallee(); g == fn || g.Pkg != fn.Pkg {
					return true
				}
			}
		}
	}
	return false
}

func isMutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok {
				return true
			}
		}
	}
	return false
}

// built is a parser value produced by a term's constructor.
type built struct {
	kind types.Type
	t    *Val // the term, symbolic
	rule *Val
	c    *Val
	res  *Val // the Parser value
	st   *State
	x    *Exec
}

// construct runs kind's Parser method.
func (m *parseModel) construct(kind types.Type, entryFacts func(x *Exec, st *State, rule *Val)) ([]*built, *Exec, *ssa.Function) {
	fn := m.c.P.TypeMethod(kind, "Parser")
	if fn == nil {
		panic(missing("method Parser of " + kind.String()))
	}
	x := m.c.Exec()
	u := x.U
	x.Hooks.Inline = func(f *ssa.Function) bool {
		if !opaqueStrings(f) {
			return false
		}
		return true
	}
	x.Hooks.Call = func(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
		if c.Fn != nil && c.Fn.Name() == "registerRule" {
			return []absint.Out{{St: st}}, true
		}
		return frozenCall(x, st, c, nil)
	}
	t := u.Sym("t", kind)
	if m.mkTerm != nil {
		t = m.mkTerm(u)
	}
	rule := u.Sym("rule", fn.Signature.Params().At(0).Type())
	cc := u.Sym("c", fn.Signature.Params().At(1).Type())
	st := absint.NewState()
	if entryFacts != nil {
		entryFacts(x, st, rule)
	}
	outs := x.Run(fn, []*Val{t, rule, cc}, st)
	var bs []*built
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		bs = append(bs, &built{kind: kind, t: t, rule: rule, c: cc, res: o.Res[0], st: o.St, x: x})
	}
	return bs, x, fn
}

func show(v *Val) string {
	s := v.String()
	s = strings.ReplaceAll(s, "github.com/arr-ai/wbnf/", "")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

var _ = fmt.Sprint

// attempt modes of the analysed activation
const (
	roleSeq    = "sequence"
	roleChoice = "choice"
	roleRep    = "repetition"
	roleLook   = "lookahead"
	roleSingle = "single"
	roleLeaf   = "leaf"
)

type parseRun struct {
	m      *parseModel
	c      *Ctx
	b      *built
	x      *Exec
	role   string
	cutOn  bool // a cut point encloses the activation
	cut0   *Val
	entry  *Val // entry input position (Scanner value)
	inAddr *Val
	outA   *Val
	stk    *Val
	fn     *ssa.Function
	cons   string // construct name for obligations
	nKid   int
	escOn  bool
	errs   bool // record every failed attempt's error
}

func (r *parseRun) rep(st *State, rule string, pos ssa.Instruction, f string, args ...any) {
	p := r.fn.Pos()
	if pos != nil {
		p = pos.Pos()
	}
	r.x.Report(st, p, rule, f, args...)
}

// need asserts b, reporting under rule otherwise.
func (r *parseRun) need(st *State, b bool, rule string, in ssa.Instruction, f string, args ...any) bool {
	if !b {
		r.rep(st, rule, in, f, args...)
	}
	return b
}

func (r *parseRun) ts(st *State, k string) *Val {
	if v, ok := st.TS[k]; ok {
		return v
	}
	return r.x.U.Nil(nil)
}

func tsStr(st *State, k string) string {
	if v, ok := st.TS[k]; ok {
		s, _ := v.StrConst()
		return s
	}
	return ""
}

// passedCut is the cut visible in a scope: nil when none is valid.
func (r *parseRun) passedCut(st *State, scope *Val) (*Val, bool) {
	u := r.x.U
	m := u.Field(scope, 0, nil)
	v, origin := smapGet(u, m, r.m.cutKey)
	if v != nil {
		if v.Op == absint.OIface {
			return v.Args[0], true
		}
		return v, true
	}
	if origin == u.Field(u.Sym("scope", r.fn.Signature.Params().At(0).Type()), 0, nil) || strings.HasPrefix(origin.String(), "scope") {
		if r.cutOn {
			return r.cut0, true
		}
		return nil, true
	}
	return nil, false
}

func isLocalCut(v *Val) bool {
	return v != nil && v.Op == absint.OFresh && strings.HasPrefix(v.Aux, "rand")
}

func (r *parseRun) posVal(p string) *Val { return r.x.U.Tok(p, r.m.scannerT) }

// childParse models Parser.Parse on a sub-parser.
func (r *parseRun) childParse(st *State, c *absint.CallInfo, recv *Val, args []*Val) []absint.Out {
	x, u := r.x, r.x.U
	scope, in, out := args[0], args[1], args[2]
	instr := c.Instr.(ssa.Instruction)
	cur := x.Load(st, in, r.m.scannerT)
	front := st.TS["front"]

	if r.role != roleLeaf {
		// C01: attempted where the last accepted element stopped
		r.need(st, x.SameVal(st, cur, front), "C01.start", instr,
			"a sub-parser is attempted at %s but the last accepted element stopped at %s", show(cur), show(front))
	}
	// C02: nothing is attempted after a final failure
	if last := tsStr(st, "!last"); last == "hard" {
		r.rep(st, "C02.final", instr, "another sub-parser is attempted after a failure that is final")
	} else if last == "soft" && r.role != roleChoice {
		r.rep(st, "C02.order", instr, "another sub-parser is attempted after a failed one")
	}
	cut, known := r.passedCut(st, scope)
	if !known {
		r.rep(st, "C02.scope", instr, "cannot tell which cut point the scope passed on carries: %s", show(scope))
	}
	if cut != nil {
		if valid, k := x.Decide(st, u.Le(u.Int(0), cut)); k && !valid {
			cut = nil
		}
	}
	if (r.role == roleChoice || r.role == roleRep) && cut != nil && cut == r.cut0 {
		r.rep(st, "C02.region", instr, "the cut point in force is passed on unchanged, so that a failure inside cannot be told from a final one")
	}
	if want := r.expected(st); want != nil {
		r.need(st, x.SameVal(st, recv, want), "C04.child", instr, "attempts %s where the grammar has %s", show(recv), show(want))
	}
	st.TS["ntried"] = u.Add(st.TS["ntried"], u.Int(1))

	if r.role == roleRep {
		// C03: never more attempts than the maximum
		max := r.quantField(st, "Max")
		n := u.Len(r.ts(st, "kids"))
		ok := x.Known(st, u.Eq2n(max, u.Int(0)), true) || x.Known(st, u.Le(u.Add(n, u.Int(1)), max), true)
		r.need(st, ok, "C03.max", instr, "an item is attempted although the maximum may have been reached")
	}
	r.nKid++
	var outs []absint.Out
	committed := tsStr(st, "!committed") == "yes"

	fail := func(hard bool, kind string, err *Val, assume func(n *State) bool) {
		n := st.Clone()
		if assume != nil && !assume(n) {
			return
		}
		if in != r.inAddr || true {
			x.Store(n, in, r.posVal("failpos"), r.m.scannerT)
		}
		x.Store(n, out, u.Tok("junk", r.m.teT), r.m.teT)
		if hard {
			n.TS["!last"] = u.Str("hard")
		} else {
			n.TS["!last"] = u.Str("soft")
		}
		n.TS["!kind"] = u.Str(kind)
		n.TS["lasterr"] = err
		if r.errs {
			n.TS["errs"] = u.Append(r.ts(n, "errs"), u.List(err))
		}
		n.Note(c.Pos, "sub-parser fails: "+kind)
		outs = append(outs, absint.Out{St: n, Val: err})
	}
	// success
	succeed := func(isCut int) {
		n := st.Clone()
		if isCut >= 0 && r.m.cutPtr != nil {
			if !x.Assume(n, u.IsType(recv, r.m.cutPtr), isCut == 1) {
				return
			}
			if isCut == 1 {
				n.TS["!committed"] = u.Str("yes")
			}
		}
		kid := u.Tok("kid", r.m.teT)
		p := r.posVal("pos")
		n.TS["prev"] = n.TS["front"]
		x.Store(n, in, p, r.m.scannerT)
		x.Store(n, out, kid, r.m.teT)
		n.TS["front"] = p
		n.TS["kids"] = u.Append(r.ts(n, "kids"), u.List(kid))
		n.TS["!last"] = u.Str("ok")
		n.TS["lasterr"] = u.Nil(nil)
		n.Note(c.Pos, "sub-parser succeeds")
		outs = append(outs, absint.Out{St: n, Val: u.Nil(nil)})
	}
	if r.role == roleSeq && r.m.cutPtr != nil {
		succeed(1)
		succeed(0)
	} else {
		succeed(-1)
	}
	// recoverable failures
	fail(false, "recoverable error", u.Iface(r.m.perrT, u.Tok("perr", r.m.perrT)), nil)
	other := u.Tok("othererr", nil)
	fail(false, "other error", other, func(n *State) bool {
		return x.Assume(n, u.IsType(other, r.m.fatalT), false) && x.Assume(n, u.IsType(other, r.m.perrT), false) &&
			x.Assume(n, u.IsType(other, r.m.stopT), false) && x.Assume(n, u.Eq(other, u.Nil(nil)), false)
	})
	// fatal with the cut that was passed on: raised by the sub-parser as a whole
	if cut != nil {
		hard := !(r.role == roleChoice || r.role == roleRep)
		_ = committed
		fail(hard, "failure under the cut point passed on", u.Iface(r.m.fatalT, r.fatal(cut)), nil)
	}
	// fatal from a cut point inside the sub-parser
	foreign := u.FreshTok("foreign", r.m.cutT)
	fail(true, "failure behind a matched cut point", u.Iface(r.m.fatalT, r.fatal(foreign)), func(n *State) bool {
		return x.Assume(n, u.Le(u.Int(0), foreign), true)
	})
	stop := u.Tok("stoperr", nil)
	fail(true, "stop error", stop, func(n *State) bool {
		return x.Assume(n, u.IsType(stop, r.m.fatalT), false) && x.Assume(n, u.IsType(stop, r.m.stopT), true)
	})
	return outs
}

func (r *parseRun) fatal(cut *Val) *Val {
	u := r.x.U
	s := fieldsOf(r.m.fatalT)
	fs := make([]*Val, s.NumFields())
	for i := range fs {
		if i == r.m.fatalCut {
			fs[i] = cut
		} else {
			fs[i] = u.Tok("ferr", s.Field(i).Type())
		}
	}
	return u.Struct(r.m.fatalT, fs...)
}

func (r *parseRun) quantField(st *State, name string) *Val {
	i := fieldIndex(r.b.kind, name)
	if i < 0 {
		panic(missing("field " + name + " of " + r.b.kind.String()))
	}
	return r.x.U.Field(r.b.t, i, types.Typ[types.Int])
}

func (m *parseModel) isParse(c *absint.CallInfo) (recv *Val, args []*Val, ok bool) {
	var name string
	if c.Method != nil {
		name = c.Method.Name()
	} else if c.Fn != nil {
		name = c.Fn.Name()
	}
	if name != "Parse" || len(c.Args) != 5 {
		return nil, nil, false
	}
	if c.Method != nil {
		return c.Recv, c.Args[1:], true
	}
	if c.Fn.Signature.Recv() == nil || !types.Implements(c.Fn.Signature.Recv().Type(), iface(m.parserI)) {
		return nil, nil, false
	}
	return nil, c.Args[1:], true
}

func (r *parseRun) hook(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := x.U
	if recv, args, ok := r.m.isParse(c); ok {
		if recv == nil {
			recv = u.Iface(c.Fn.Signature.Recv().Type(), c.Args[0])
		}
		return r.childParse(st, c, recv, args), true
	}
	if c.Fn != nil {
		// *escape lookup
		if res := c.Fn.Signature.Results(); r.m.escT != nil && res.Len() == 1 && types.Identical(res.At(0).Type(), r.m.escT) && x != nil {
			if r.escOn {
				return nil, false
			}
			return []absint.Out{{St: st, Val: u.Nil(nil)}}, true
		}
		if c.Fn.Name() == "EatRegexp" && c.Fn.Signature.Recv() != nil && typeName(c.Fn.Signature.Recv().Type()) == "Scanner" && len(c.Args) == 4 {
			return r.eatRegexp(st, c), true
		}
		if strings.HasPrefix(c.Fn.RelString(nil), "(github.com/arr-ai/frozen.Map[") {
			return frozenCall(x, st, c, r.entryScope)
		}
		return nil, false
	}
	// external handlers
	if c.Fn == nil && c.Method == nil && typeName(c.FnVal.TypeOr()) == "ExternalRef" || c.Fn == nil && c.Method == nil && r.isExternalSig(c) {
		return r.external(st, c), true
	}
	return nil, false
}

func (r *parseRun) isExternalSig(c *absint.CallInfo) bool {
	ext := r.m.c.Named("parser", "ExternalRef")
	return types.Identical(c.Instr.Common().Signature().Underlying(), ext.Underlying())
}

// external models a call of an external handler: it may consume input and
// yields a tree or an error.
func (r *parseRun) external(st *State, c *absint.CallInfo) []absint.Out {
	x, u := r.x, r.x.U
	in := c.Args[1]
	cur := x.Load(st, in, r.m.scannerT)
	r.need(st, x.SameVal(st, cur, st.TS["front"]), "C01.start", c.Instr.(ssa.Instruction),
		"an external handler starts at %s instead of %s", show(cur), show(st.TS["front"]))
	n := st.Clone()
	kid := u.Tok("kid", r.m.teT)
	p := r.posVal("pos")
	x.Store(n, in, p, r.m.scannerT)
	n.TS["front"] = p
	n.TS["kids"] = u.Append(r.ts(n, "kids"), u.List(kid))
	n.TS["!last"] = u.Str("ok")
	e := u.Tok("exterr", nil)
	x.Store(st, in, r.posVal("failpos"), r.m.scannerT)
	x.Assume(st, u.Eq(e, u.Nil(nil)), false)
	st.TS["!last"] = u.Str("hard")
	st.TS["!kind"] = u.Str("external failure")
	st.TS["lasterr"] = e
	if r.errs {
		st.TS["errs"] = u.Append(r.ts(st, "errs"), u.List(e))
	}
	return []absint.Out{{St: n, Val: u.Tuple(kid, u.Nil(nil))}, {St: st, Val: u.Tuple(u.Tok("exttree", r.m.teT), e)}}
}

// scopeVal is the scope the activation starts with.
func (r *parseRun) scopeVal(t types.Type) *Val {
	u := r.x.U
	mt := fieldsOf(t).Field(0).Type()
	m := []*Val{u.Field(u.Sym("scope", t), 0, mt), u.Nil(nil)}
	if r.cutOn {
		m = append(m, u.Tuple(u.Str(r.m.cutKey), u.Iface(r.m.cutT, r.cut0)))
	}
	return u.Struct(t, u.Call("smap", 0, mt, m...))
}

// entryScope says what the entry scope holds under a reserved key.
func (r *parseRun) entryScope(key string) (*Val, bool, bool) {
	u := r.x.U
	if key == r.m.cutKey {
		if r.cutOn {
			return u.Iface(r.m.cutT, r.cut0), true, true
		}
		return u.Nil(nil), false, true
	}
	return nil, false, false
}

// eatRegexp is the contract of Scanner.EatRegexp (its own property is C06).
func (r *parseRun) eatRegexp(st *State, c *absint.CallInfo) []absint.Out {
	x, u := r.x, r.x.U
	in := c.Args[0]
	cur := x.Load(st, in, r.m.scannerT)
	r.need(st, x.SameVal(st, cur, st.TS["front"]), "C01.start", c.Instr.(ssa.Instruction),
		"a pattern is matched at %s but the last accepted element stopped at %s", show(cur), show(st.TS["front"]))
	n := st.Clone() // no match: nothing changes
	n.TS["!last"] = u.Str("soft")
	n.TS["!kind"] = u.Str("no match")
	n.Note(c.Pos, "pattern does not match")
	st.Note(c.Pos, "pattern matches")
	// a pattern has one capture, two, or more (by cases)
	var outs []absint.Out
	for i := int64(1); i <= 3; i++ {
		m := st.Clone()
		num := u.Int(i)
		if i == 3 {
			num = u.Tok("ncap", types.Typ[types.Int])
			x.Assume(m, u.Le(u.Int(3), num), true)
		}
		r.matched(m, c, num)
		outs = append(outs, absint.Out{St: m, Val: u.Tuple(num, u.Bool(true))})
	}
	return append(outs, absint.Out{St: n, Val: u.Tuple(u.Int(0), u.Bool(false))})
}

func (r *parseRun) matched(st *State, c *absint.CallInfo, num *Val) {
	x, u := r.x, r.x.U
	in, match, caps := c.Args[0], c.Args[2], c.Args[3]
	p := r.posVal("pos")
	x.Store(st, in, p, r.m.scannerT)
	if !match.IsNil() {
		x.Store(st, match, u.Tok("match", r.m.scannerT), r.m.scannerT)
	}
	// captures that exist are filled in
	if caps.Op == absint.OSlice {
		if hi, ok := caps.Args[2].IntConst(); ok {
			k, known := num.IntConst()
			for i := int64(0); i < hi && (!known || i < k); i++ {
				x.Store(st, u.IndexAddr(caps.Args[0], u.Int(i), r.m.scannerT), u.Sym(fmt.Sprintf("capture%d", i), r.m.scannerT), r.m.scannerT)
			}
		}
	}
	st.TS["front"] = p
	st.TS["!last"] = u.Str("ok")
}

// childParser is the parser a term builds for an unnamed sub-term.
func (m *parseModel) childParser(u *absint.Universe, term, name, c *Val) *Val {
	meth, _, _ := types.LookupFieldOrMethod(m.c.Named("parser", "Term"), false, nil, "Parser")
	return u.Call(meth.(*types.Func).FullName(), 0, meth.Type().(*types.Signature).Results().At(0).Type(), term, name, c)
}

// expected is the sub-parser whose turn it is (nil = not constrained).
func (r *parseRun) expected(st *State) *Val {
	u := r.x.U
	termT := r.c.Named("parser", "Term")
	switch r.role {
	case roleSeq, roleChoice:
		return r.m.childParser(u, u.Index(r.b.t, st.TS["ntried"], termT), u.Str(""), r.b.c)
	case roleRep, roleLook:
		return r.m.childParser(u, u.Field(r.b.t, fieldIndex(r.b.kind, "Term"), termT), u.Str(""), r.b.c)
	}
	if typeName(r.b.kind) == "CutPoint" {
		return r.m.childParser(u, u.Field(r.b.t, fieldIndex(r.b.kind, "Term"), termT), r.b.rule, r.b.c)
	}
	return nil
}

var roles = map[string]string{
	"Seq": roleSeq, "Oneof": roleChoice, "Quant": roleRep, "LookAhead": roleLook,
	"Delim": roleSingle, "CutPoint": roleSingle, "REF": roleSingle, "ExtRef": roleSingle,
	"S": roleLeaf, "RE": roleLeaf,
}

var fixedTags = map[string]string{"Seq": "_", "Oneof": "|", "Delim": ":", "Quant": "?", "LookAhead": "?="}

// Parse decides C01-C04 for every term kind that builds a parser of its own.
func (c *Ctx) Parse() {
	m := c.parseModel()
	kinds := c.Kinds()
	// the parser type of cut points
	for _, k := range kinds {
		if typeName(k) == "CutPoint" {
			bs, _, _ := m.construct(k, nil)
			for _, b := range bs {
				if b.res.Op == absint.OIface {
					m.cutPtr = b.res.Typ
				}
			}
		}
	}
	if m.cutPtr == nil {
		panic(missing("parser of CutPoint"))
	}
	for _, k := range kinds {
		role, ok := roles[typeName(k)]
		if !ok {
			continue
		}
		for _, named := range []bool{true, false} {
			bs, x, fn := m.construct(k, func(x *Exec, st *State, rule *Val) {
				x.Assume(st, x.EqVal(rule, x.U.Str("")), !named)
			})
			cons := typeName(k)
			c.Check("C04.construct", cons, len(bs) > 0, fn.Pos(), "the constructor never returns a parser")
			seen := map[string]bool{}
			for _, b := range bs {
				if b.res.Op != absint.OIface {
					c.Check("C04.construct", cons, false, fn.Pos(), "the constructor returns %s instead of a parser of its own", show(b.res))
					continue
				}
				obj := b.res.Args[0]
				sig := show(b.res) + show(x.Load(b.st, obj, nil))
				if seen[sig] {
					continue
				}
				seen[sig] = true
				for _, cutOn := range []bool{false, true} {
					if role != roleRep {
						m.runParse(b, role, cutOn, named, nil)
						continue
					}
					// what validation guarantees of bounds, by cases
					u := x.U
					min := u.Field(b.t, fieldIndex(k, "Min"), types.Typ[types.Int])
					max := u.Field(b.t, fieldIndex(k, "Max"), types.Typ[types.Int])
					for _, bounded := range []bool{false, true} {
						m.runParse(b, role, cutOn, named, func(x *Exec, st *State) {
							x.Assume(st, u.Le(u.Int(0), min), true)
							if bounded {
								x.Assume(st, u.Le(u.Int(1), max), true)
								x.Assume(st, u.Le(min, max), true)
							} else {
								x.Assume(st, u.Eq2n(max, u.Int(0)), true)
							}
						})
					}
				}
			}
			c.Done(x, "parse", cons, fn)
		}
	}
}

func (m *parseModel) runParse(b *built, role string, cutOn, named bool, pre func(*Exec, *State)) {
	c := m.c
	r, outs := m.parseOutcomes(b, role, cutOn, false, pre)
	x, pfn := r.x, r.fn
	succ := 0
	for _, o := range outs {
		if x.Debug {
			fmt.Println("OUT", o.Panic, o.Res, o.St.TS)
		}
		if o.Panic != nil {
			continue
		}
		err := o.Res[0]
		isNil, known := x.Decide(o.St, x.EqVal(err, x.U.Nil(nil)))
		if !known {
			r.rep(o.St, "parse.undecided", nil, "cannot tell whether %s is an error", show(err))
			continue
		}
		if isNil {
			succ++
			r.success(o, named)
		} else {
			r.failure(o, err)
		}
	}
	cons := r.cons
	c.Check("C04.outcomes", cons, succ > 0, pfn.Pos(), "no path of %s succeeds", relName(pfn))
	for _, rule := range rulesFor(role) {
		c.Check(rule, cons, true, pfn.Pos(), "")
	}
	c.Done(x, "parse", cons, pfn)
}

// parseOutcomes interprets the Parse method of a constructed parser.
func (m *parseModel) parseOutcomes(b *built, role string, cutOn, errs bool, pre func(*Exec, *State)) (*parseRun, []*absint.Outcome) {
	c := m.c
	pfn := c.P.TypeMethod(b.res.Typ, "Parse")
	if pfn == nil {
		panic(missing("Parse of " + b.res.Typ.String()))
	}
	x := c.Exec()
	x.U = b.x.U
	u := x.U
	r := &parseRun{m: m, c: c, b: b, x: x, role: role, cutOn: cutOn, fn: pfn, cons: typeName(b.kind), errs: errs}
	x.Hooks.Inline = opaqueStrings
	x.Hooks.Call = r.hook
	x.Hooks.Back = r.back
	if os.Getenv("DBG") == typeName(b.kind) {
		x.Debug = true
	}
	r.cut0 = u.FreshTok("CUT", m.cutT)
	ps := pfn.Params
	r.inAddr = u.Sym("input", ps[2].Type())
	r.outA = u.Sym("output", ps[3].Type())
	st := b.st.Clone()
	if cutOn {
		x.Assume(st, u.Le(u.Int(0), r.cut0), true)
	}
	if pre != nil {
		pre(x, st)
	}
	r.entry = x.Load(st, r.inAddr, m.scannerT)
	st.TS["front"] = r.entry
	st.TS["prev"] = r.entry
	st.TS["kids"] = u.List()
	st.TS["ntried"] = u.Int(0)
	st.TS["!last"] = u.Str("none")
	st.TS["!committed"] = u.Str("no")
	st.TS["lasterr"] = u.Nil(nil)
	st.TS["!kind"] = u.Str("")
	st.TS["cut0"] = r.cut0
	if errs {
		x.UnrollSym = 12
		st.TS["errs"] = u.List()
	}
	recv := b.res.Args[0]
	outs := x.Run(pfn, []*Val{recv, r.scopeVal(ps[1].Type()), r.inAddr, r.outA, u.Sym("stk", ps[4].Type())}, st)
	return r, outs
}

func rulesFor(role string) []string {
	rs := []string{"C01.start", "C01.end", "C02.uncommitted", "C02.final", "C04.tree"}
	switch role {
	case roleSeq:
		rs = append(rs, "C02.committed", "C04.child", "C04.all")
	case roleChoice:
		rs = append(rs, "C02.region", "C02.exhaust", "C04.child")
	case roleRep:
		rs = append(rs, "C02.region", "C03.max", "C03.min", "C03.greedy", "C03.progress", "C04.child")
	}
	return rs
}

func (r *parseRun) success(o *absint.Outcome, named bool) {
	x, u, st := r.x, r.x.U, o.St
	at := func(rule, f string, args ...any) { x.Report(st, o.Pos, rule, f, args...) }
	last := tsStr(st, "!last")
	if last == "hard" {
		at("C02.final", "success is reported after a failure that is final")
	}
	if last == "soft" && r.role != roleRep {
		at("C04.tree", "success is reported although the last attempt failed")
	}
	// C01: the input is left where the last accepted element stopped
	cur := x.Load(st, r.inAddr, r.m.scannerT)
	want := st.TS["front"]
	if r.role == roleLook {
		want = r.entry
	}
	if !x.SameVal(st, cur, want) {
		at("C01.end", "on success the input is left at %s instead of %s", show(cur), show(want))
	}
	out := x.Reify(st, x.Load(st, r.outA, r.m.teT))
	kids := x.Norm(st, x.Reify(st, r.ts(st, "kids")))
	nk := u.Len(kids)
	node := func(extra *Val) {
		tag := r.b.rule
		if !named {
			tag = u.Str(fixedTags[r.cons])
		}
		if out.Op != absint.OIface || !types.Identical(out.Typ, r.m.nodeT) {
			at("C04.tree", "the result is %s, not a node", show(out))
			return
		}
		n := out.Args[0]
		get := func(name string) *Val {
			i := fieldIndex(r.m.nodeT, name)
			return u.Field(n, i, fieldsOf(r.m.nodeT).Field(i).Type())
		}
		if g := get("Tag"); !x.SameVal(st, g, tag) {
			at("C04.tree", "the node is labelled %s instead of %s", show(g), show(tag))
		}
		if g := get("Extra"); extra != nil && !x.SameVal(st, g, extra) {
			at("C04.tree", "the node's extra is %s instead of %s", show(g), show(extra))
		}
		if g := get("Children"); !x.SameList(st, g, kids) {
			at("C04.tree", "the node's children are %s but the accepted elements are %s", show(x.Norm(st, x.Reify(st, g))), show(kids))
		}
	}
	switch r.role {
	case roleLeaf:
		if last != "ok" {
			at("C04.tree", "success is reported without a match")
		} else if !(out.Op == absint.OIface && types.Identical(out.Typ, r.m.scannerT) && strings.HasPrefix(out.Args[0].Aux, "capture")) {
			at("C04.tree", "the leaf is %s instead of the captured text", show(out))
		}
	case roleSeq:
		node(u.Nil(nil))
		if !x.ProveEq(st, nk, u.Len(r.b.t)) {
			at("C04.all", "success is reported with %s of %s elements accepted", show(nk), show(u.Len(r.b.t)))
		}
	case roleChoice:
		if last != "ok" || nk != u.Int(1) {
			at("C04.tree", "success is reported with %s alternatives accepted", show(nk))
			return
		}
		node(u.Iface(r.m.choiceT, x.Norm(st, u.Sub(st.TS["ntried"], u.Int(1)))))
	case roleLook:
		node(u.Nil(nil))
		if nk != u.Int(1) {
			at("C04.tree", "success without having matched the term")
		}
	case roleRep:
		node(u.Nil(nil))
		min, max := r.quantField(st, "Min"), r.quantField(st, "Max")
		if !x.Known(st, u.Le(min, nk), true) {
			at("C03.min", "success may be reported with fewer than the minimum number of items")
		}
		if !x.Known(st, u.Eq2n(max, u.Int(0)), true) && !x.Known(st, u.Le(nk, max), true) {
			at("C03.max", "success may be reported with more than the maximum number of items")
		}
		full := x.Known(st, u.Eq2n(max, u.Int(0)), false) && x.Known(st, u.Le(max, nk), true)
		unbounded := x.Known(st, u.Eq2n(max, u.Int(0)), true)
		if last != "soft" && !full && !(unbounded && r.stuck(st)) {
			at("C03.greedy", "the repetition stops although another item could match")
		}
	case roleSingle:
		switch r.cons {
		case "CutPoint", "REF":
			if nk != u.Int(1) {
				at("C04.tree", "success with %s sub-parsers accepted", show(nk))
			} else if k := u.Index(kids, u.Int(0), nil); !x.SameVal(st, out, k) {
				at("C04.tree", "the result is %s instead of what the sub-parser produced", show(out))
			}
		case "ExtRef":
			if nk != u.Int(1) || !x.SameVal(st, out, u.Index(kids, u.Int(0), nil)) {
				at("C04.tree", "the result is %s instead of the handler's tree", show(out))
			}
		}
	}
}

// stuck: the last accepted item consumed nothing.
func (r *parseRun) stuck(st *State) bool {
	x, u := r.x, r.x.U
	i := r.startField()
	a := u.Field(st.TS["front"], i, types.Typ[types.Int])
	b := u.Field(st.TS["prev"], i, types.Typ[types.Int])
	return u.Len(r.ts(st, "kids")) != u.Int(0) && x.ProveEq(st, a, b)
}

// startField is the Scanner field holding the offset: what Offset returns.
func (r *parseRun) startField() int {
	f := r.c.P.Method("parser", "Scanner", "Offset")
	if f == nil {
		panic(missing("Scanner.Offset"))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				return in.Field
			case *ssa.Field:
				return in.Field
			}
		}
	}
	panic(missing("field read by Scanner.Offset"))
}

func (r *parseRun) failure(o *absint.Outcome, err *Val) {
	x, u, st := r.x, r.x.U, o.St
	at := func(rule, f string, args ...any) { x.Report(st, o.Pos, rule, f, args...) }
	last := tsStr(st, "!last")
	lastErr := r.ts(st, "lasterr")
	cut := r.errCut(err)
	isStop := err.Op == absint.OIface && types.Implements(err.Typ, iface(r.m.stopT)) || x.Known(st, u.IsType(err, r.m.stopT), true)
	same := x.SameVal(st, err, lastErr)
	switch last {
	case "hard":
		if !same && !(cut != nil && r.errCut(lastErr) != nil && x.SameVal(st, cut, r.errCut(lastErr))) {
			at("C02.final", "a final failure (%s) is replaced by %s", tsStr(st, "!kind"), show(err))
		}
		return
	case "ok":
		if r.cons != "REF" && r.cons != "Delim" {
			at("C04.accept", "fails although every attempt succeeded")
			return
		}
	}
	if tsStr(st, "!committed") == "yes" {
		if cut == nil || !isLocalCut(cut) {
			at("C02.committed", "a failure behind a matched cut point is reported as %s, which an enclosing choice would recover from", show(err))
		}
		return
	}
	if last == "none" && (r.cons == "ExtRef") {
		return // a missing handler is final by design
	}
	if !same {
		if isStop {
			at("C02.uncommitted", "a recoverable failure is turned into a final one")
		}
		if cut != nil {
			if !(r.cutOn && x.SameVal(st, cut, r.cut0)) {
				if v, k := x.Decide(st, u.Le(u.Int(0), cut)); !(k && !v) {
					at("C02.uncommitted", "a failure without a matched cut point is reported as final (%s)", show(cut))
				}
			}
		}
	} else if cut != nil && isLocalCut(cut) {
		at("C02.uncommitted", "a recoverable failure inside is passed up as final")
	}
	switch r.role {
	case roleChoice:
		if !x.ProveEq(st, st.TS["ntried"], u.Len(r.b.t)) {
			at("C02.exhaust", "the choice fails after %s of %s alternatives", show(x.Norm(st, st.TS["ntried"])), show(u.Len(r.b.t)))
		}
	case roleRep:
		nk := u.Len(r.ts(st, "kids"))
		if !x.Known(st, u.Le(u.Add(nk, u.Int(1)), r.quantField(st, "Min")), true) {
			at("C03.min", "the repetition may fail although it has enough items")
		}
	}
}

func (r *parseRun) errCut(err *Val) *Val {
	if err != nil && err.Op == absint.OIface && types.Identical(err.Typ, r.m.fatalT) {
		return r.x.U.Field(err.Args[0], r.m.fatalCut, r.m.cutT)
	}
	return nil
}

// back requires progress on every repeated iteration.
func (r *parseRun) back(x *Exec, st *State, h *ssa.BasicBlock) {
	if r.role != roleRep || len(st.Frames) != 1 || tsStr(st, "!last") != "ok" {
		return
	}
	u := x.U
	min, max := r.quantField(st, "Min"), r.quantField(st, "Max")
	nk := u.Len(r.ts(st, "kids"))
	i := r.startField()
	a := u.Field(st.TS["front"], i, types.Typ[types.Int])
	b := u.Field(st.TS["prev"], i, types.Typ[types.Int])
	ok := x.Known(st, u.Eq2n(a, b), false) || x.Known(st, u.Le(u.Add(nk, u.Int(1)), min), true) ||
		x.Known(st, u.Le(nk, min), true) || x.Known(st, u.Eq2n(max, u.Int(0)), false)
	if !ok {
		x.Report(st, h.Instrs[0].Pos(), "C03.progress", "the repetition may go on for ever: an unbounded repetition continues after an item that consumed nothing")
	}
}
