package rules

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// gateModel interprets the compilation of a grammar text as a whole, from its
// parse to the parsers, on syntax trees whose shape is given and whose names,
// numbers and patterns are symbols.
type gateModel struct {
	*astModel
	compile *ssa.Function
	parse   *ssa.Function
	errI    types.Type
	parsers types.Type
	rename  map[string]string
}

func (c *Ctx) gateModel() *gateModel {
	m := &gateModel{astModel: c.astModel()}
	find := func(name string) *ssa.Function {
		f := c.P.Func("wbnf", name)
		if f == nil {
			panic(missing("wbnf." + name))
		}
		return f
	}
	m.compile, m.parse = find("Compile"), find("Parse")
	m.errI = types.Universe.Lookup("error").Type()
	m.parsers = c.Named("parser", "Parsers")
	return m
}

func (m *gateModel) exec() *Exec {
	x := m.c.Exec()
	x.U = m.u
	x.MaxDepth = 220
	x.MaxRec = 60
	x.MaxSteps = 3000000
	x.SplitKeys = true
	x.NoConverge = true
	x.UnrollSym = 12
	x.Unroll = 100
	m.x = x
	return x
}

// ---- syntax trees ----

// sv is a token's text: a constant or a symbol.
func (m *gateModel) tok(st *State, text *Val) *Val {
	m.n++
	l := m.u.Iface(m.leafT, m.u.Sym(fmt.Sprintf("leaf%d", m.n), m.leafT))
	m.text[l] = text
	n := m.node(st, one("", l))
	m.text[n] = text
	return n
}

// in wraps a token in a node of its own.
func (m *gateModel) in(st *State, name string, text *Val) *Val {
	n := m.node(st, one(name, m.tok(st, text)))
	m.text[n] = text
	return n
}

func (m *gateModel) str(s string) *Val { return m.u.Str(s) }

// a gTerm is a term of the grammar under compilation before it becomes a node.
type gTerm func(m *gateModel, st *State) *Val

// the four levels of a term: stack, alternatives, sequence, quantified atom
func gStack(op string, ts ...gTerm) gTerm {
	return func(m *gateModel, st *State) *Val {
		ks := []kid{many("term", m.all(st, ts)...)}
		if len(ts) > 1 {
			var ops []*Val
			for range ts[1:] {
				ops = append(ops, m.tok(st, m.u.Str(op)))
			}
			ks = append(ks, many("op", ops...))
		}
		return m.node(st, ks...)
	}
}

func (m *gateModel) all(st *State, ts []gTerm) []*Val {
	var out []*Val
	for _, t := range ts {
		out = append(out, t(m, st))
	}
	return out
}

func gSeq(ts ...gTerm) gTerm {
	return func(m *gateModel, st *State) *Val { return m.node(st, many("term", m.all(st, ts)...)) }
}
func gAlt(ts ...gTerm) gTerm { return gStack("|", ts...) }

// gT wraps quantified atoms in the levels above them.
func gT(ts ...gTerm) gTerm { return gStack(">", gAlt(gSeq(ts...))) }
func gChoice(ts ...gTerm) gTerm { // each a sequence
	return gStack(">", gAlt(ts...))
}

type gAtom func(m *gateModel, st *State) *Val

func gNamed(name *string, atom gAtom) func(m *gateModel, st *State) *Val {
	return func(m *gateModel, st *State) *Val {
		if name == nil {
			return m.node(st, one("atom", atom(m, st)))
		}
		return m.node(st, one("IDENT", m.tok(st, m.word(*name))), one("op", m.tok(st, m.u.Str("="))), one("atom", atom(m, st)))
	}
}

// word is a name: "$x" stands for an unknown one.
func (m *gateModel) word(s string) *Val {
	if r, ok := m.rename[s]; ok {
		s = r
	}
	if strings.HasPrefix(s, "$") {
		return m.u.Sym(s, types.Typ[types.String])
	}
	return m.u.Str(s)
}

func gL(atom gAtom, quants ...gAtom) gTerm { return gNL("", atom, quants...) }
func gNL(name string, atom gAtom, quants ...gAtom) gTerm {
	return func(m *gateModel, st *State) *Val {
		var np *string
		if name != "" {
			np = &name
		}
		ks := []kid{one("named", gNamed(np, atom)(m, st))}
		var qs []*Val
		for _, q := range quants {
			qs = append(qs, q(m, st))
		}
		if len(qs) > 0 {
			ks = append(ks, many("quant", qs...))
		}
		return m.node(st, ks...)
	}
}

func gIdent(s string) gAtom {
	return func(m *gateModel, st *State) *Val { return m.node(st, m.choice(0), one("IDENT", m.tok(st, m.word(s)))) }
}
func gStr(s string) gAtom {
	return func(m *gateModel, st *State) *Val { return m.node(st, m.choice(1), one("STR", m.tok(st, m.word(s)))) }
}
func gRE(s string) gAtom {
	return func(m *gateModel, st *State) *Val { return m.node(st, m.choice(2), one("RE", m.tok(st, m.word(s)))) }
}
func gCall(name string, args ...gTerm) gAtom {
	return func(m *gateModel, st *State) *Val {
		ls := []*Val{m.leaf("%!"), m.leaf("(")}
		for i := range args {
			if i > 0 {
				ls = append(ls, m.leaf(","))
			}
		}
		ls = append(ls, m.leaf(")"))
		ks := []kid{many("", ls...), one("name", m.in(st, "IDENT", m.word(name)))}
		if len(args) > 0 {
			ks = append(ks, many("term", m.all(st, args)...))
		}
		return m.node(st, m.choice(3), one("macrocall", m.node(st, ks...)))
	}
}
func gRef(name string) gAtom {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(5), one("REF", m.node(st, one("", m.leaf("%")), one("IDENT", m.tok(st, m.word(name))))))
	}
}
func gLook(t gTerm) gAtom {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(6), many("", m.leaf("(?="), m.leaf(")")), one("lookahead", m.node(st, one("term", t(m, st)))))
	}
}
func gParen(t gTerm) gAtom {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(7), many("", m.leaf("("), m.leaf(")")), one("term", t(m, st)))
	}
}
func gNothing() gAtom {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(8), many("", m.leaf("("), m.leaf(")")))
	}
}

// repetitions
func gQ(op string) gAtom {
	return func(m *gateModel, st *State) *Val { return m.node(st, m.choice(0), one("op", m.tok(st, m.u.Str(op)))) }
}
func gBounds(min, max string) gAtom {
	return func(m *gateModel, st *State) *Val {
		ks := []kid{m.choice(1), many("", m.leaf("{"), m.leaf(","), m.leaf("}"))}
		if min != "" {
			ks = append(ks, one("min", m.in(st, "INT", m.word(min))))
		}
		if max != "" {
			ks = append(ks, one("max", m.in(st, "INT", m.word(max))))
		}
		return m.node(st, ks...)
	}
}
func gDelim(sep gAtom) gAtom {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(2), one("op", m.tok(st, m.u.Str(":"))), one("named", gNamed(nil, sep)(m, st)))
	}
}

// statements
type gStmt func(m *gateModel, st *State) *Val

func gProd(name string, ts ...gTerm) gStmt {
	return func(m *gateModel, st *State) *Val {
		p := m.node(st, many("", m.leaf("->"), m.leaf(";")), one("IDENT", m.tok(st, m.word(name))), many("term", m.all(st, ts)...))
		return m.node(st, m.choice(1), one("prod", p))
	}
}
func gMacro(name string, args []string, body gTerm) gStmt {
	return func(m *gateModel, st *State) *Val {
		ls := []*Val{m.leaf(".macro"), m.leaf("(")}
		var as []*Val
		for i, a := range args {
			if i > 0 {
				ls = append(ls, m.leaf(","))
			}
			as = append(as, m.in(st, "IDENT", m.word(a)))
		}
		ls = append(ls, m.leaf(")"), m.leaf("{"), m.leaf("}"))
		ks := []kid{many("", ls...), one("name", m.in(st, "IDENT", m.word(name))), one("term", body(m, st))}
		if len(as) > 0 {
			ks = append(ks, many("args", as...))
		}
		return m.node(st, m.choice(2), one("pragma", m.node(st, m.choice(1), many("macrodef", m.node(st, ks...)))))
	}
}
func gComment() gStmt {
	return func(m *gateModel, st *State) *Val {
		return m.node(st, m.choice(0), one("COMMENT", m.tok(st, m.u.Str("// c"))))
	}
}
func gImport(parts ...string) gStmt {
	return func(m *gateModel, st *State) *Val {
		var ls []*Val
		for _, p := range parts {
			ls = append(ls, m.leaf(p))
		}
		path := m.node(st, many("", ls...), m.choice(2))
		return m.node(st, m.choice(2), one("pragma", m.node(st, m.choice(0), many("import", m.node(st, one("", m.leaf(".import")), one("path", path))))))
	}
}

func (m *gateModel) ruleKid(rule string) kid {
	t := m.c.Named("parser", "Rule")
	return one(m.ruleTag, m.u.Iface(m.extraT, m.u.Struct(m.extraT, m.u.Iface(t, m.u.Str(rule)))))
}

func (m *gateModel) tree(st *State, ss ...gStmt) *Val {
	var vs []*Val
	for _, s := range ss {
		vs = append(vs, s(m, st))
	}
	return m.node(st, m.ruleKid("grammar"), many("stmt", vs...))
}

// ---- the environment ----

const setAux = "set"

func (m *gateModel) set(es []*Val) *Val { return m.u.Call(setAux, 0, nil, m.u.List(es...)) }

func setElems(v *Val) ([]*Val, bool) {
	switch {
	case v.Op == absint.OCall && v.Aux == setAux:
		return v.Args[0].Args, true
	case v.Op == absint.OStruct || v.IsNil():
		return nil, true
	}
	return nil, false
}

// within splits on whether e is one of es and gives the position, or -1.
func (m *gateModel) within(x *Exec, st *State, es []*Val, e *Val, k func(st *State, at int) []absint.Out) []absint.Out {
	var open []int
	for i, o := range es {
		eq, known := x.Decide(st, x.EqVal(o, e))
		if known && eq {
			return k(st, i)
		}
		if !known {
			open = append(open, i)
		}
	}
	var outs []absint.Out
	for _, i := range open {
		n := st.Clone()
		if x.Assume(n, x.EqVal(es[i], e), true) {
			outs = append(outs, k(n, i)...)
		}
		if !x.Assume(st, x.EqVal(es[i], e), false) {
			return outs
		}
	}
	return append(outs, k(st, -1)...)
}

func (m *gateModel) setOp(x *Exec, st *State, c *absint.CallInfo, op string) ([]absint.Out, bool) {
	u := x.U
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	variadic := func(v *Val) ([]*Val, bool) {
		v = x.Norm(st, x.Reify(st, v))
		if v.IsNil() {
			return nil, true
		}
		if v.Op == absint.OList {
			return v.Args, true
		}
		if c.Fn.Signature.Variadic() {
			return nil, false
		}
		return []*Val{v}, true
	}
	add := func(es, more []*Val) ([]absint.Out, bool) {
		type part struct {
			st *State
			es []*Val
		}
		cur := []part{{st, append([]*Val(nil), es...)}}
		for _, e := range more {
			var next []part
			for _, p := range cur {
				es := p.es
				m.within(x, p.st, es, e, func(s *State, at int) []absint.Out {
					if at < 0 {
						next = append(next, part{s, append(append([]*Val(nil), es...), e)})
					} else {
						next = append(next, part{s, es})
					}
					return nil
				})
			}
			cur = next
		}
		var outs []absint.Out
		for _, p := range cur {
			outs = append(outs, absint.Out{St: p.st, Val: m.set(p.es)})
		}
		return outs, true
	}
	if op == "NewSet" || op == "SetFrom" {
		if len(c.Args) == 0 {
			return ret(m.set(nil))
		}
		es, ok := variadic(c.Args[0])
		if !ok {
			return nil, false
		}
		return add(nil, es)
	}
	if !strings.HasPrefix(op, "Set.") {
		return nil, false
	}
	es, ok := setElems(x.Reify(st, c.Args[0]))
	if !ok {
		return nil, false
	}
	switch op[4:] {
	case "Has":
		return m.within(x, st, es, c.Args[1], func(s *State, at int) []absint.Out {
			return []absint.Out{{St: s, Val: u.Bool(at >= 0)}}
		}), true
	case "IsEmpty":
		return ret(u.Bool(len(es) == 0))
	case "Count":
		return ret(u.Int(int64(len(es))))
	case "Elements", "OrderedElements":
		return ret(u.List(es...))
	case "With":
		more, ok := variadic(c.Args[1])
		if !ok {
			return nil, false
		}
		return add(es, more)
	case "Union":
		more, ok := setElems(x.Reify(st, c.Args[1]))
		if !ok {
			return nil, false
		}
		return add(es, more)
	case "Without":
		more, ok := variadic(c.Args[1])
		if !ok || len(more) != 1 {
			return nil, false
		}
		return m.within(x, st, es, more[0], func(s *State, at int) []absint.Out {
			var left []*Val
			for i, e := range es {
				if i != at {
					left = append(left, e)
				}
			}
			return []absint.Out{{St: s, Val: m.set(left)}}
		}), true
	}
	return nil, false
}

// gateRun is one compilation.
type gateRun struct {
	*gateModel
	trees map[string]*Val // text -> syntax tree
	text  string
	files map[string]string // path -> text it holds
}

func (r *gateRun) logOf(st *State, key string) []*Val {
	if v := st.TS[key]; v != nil {
		return v.Args
	}
	return nil
}

func (r *gateRun) log(st *State, key string, v *Val) {
	st.TS[key] = r.u.List(append(append([]*Val(nil), r.logOf(st, key)...), v)...)
}

func (r *gateRun) hook(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := x.U
	if outs, ok := r.readText(st, c); ok {
		return outs, true
	}
	if c.Fn == nil {
		if c.Method != nil && c.Method.Name() == "Resolve" && len(c.Args) >= 3 {
			a := c.Args[len(c.Args)-2:]
			r.log(st, "resolved", u.Tuple(a...))
			f, ok1 := a[0].StrConst()
			p, ok2 := a[1].StrConst()
			if ok1 && ok2 {
				return []absint.Out{{St: st, Val: u.Str(resolveLike(f, p))}}, true
			}
		}
		return nil, false
	}
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	fork := func(key string, good, zero *Val) ([]absint.Out, bool) {
		n := st.Clone()
		e := u.Tok(key+".err", r.errI)
		x.Assume(n, x.EqVal(e, u.Nil(nil)), false)
		r.log(n, "failed", u.Str(key))
		return []absint.Out{{St: st, Val: u.Tuple(good, u.Nil(nil))}, {St: n, Val: u.Tuple(zero, e)}}, true
	}
	if op := frozenOp(c.Fn); op != "" {
		return r.setOp(x, st, c, op)
	}
	consts := func(vs ...*Val) ([]string, bool) {
		var out []string
		for _, v := range vs {
			s, ok := v.StrConst()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	strT := types.Typ[types.String]
	switch c.Fn.RelString(nil) {
	case "path/filepath.Clean":
		if s, ok := consts(c.Args[0]); ok {
			return ret(u.Str(filepath.Clean(s[0])))
		}
		return ret(u.Call("clean", 0, strT, c.Args[0]))
	case "path/filepath.Dir":
		if s, ok := consts(c.Args[0]); ok {
			return ret(u.Str(filepath.Dir(s[0])))
		}
		return ret(u.Call("dir", 0, strT, c.Args[0]))
	case "path/filepath.Join":
		l := x.Norm(st, x.Reify(st, c.Args[0]))
		if l.Op == absint.OList {
			if s, ok := consts(l.Args...); ok {
				return ret(u.Str(filepath.Join(s...)))
			}
			return ret(u.Call("join", 0, strT, l.Args...))
		}
	case "os.ReadFile", "io/ioutil.ReadFile":
		r.log(st, "read", c.Args[0])
		p, ok := c.Args[0].StrConst()
		if !ok {
			x.Report(st, c.Pos, "gate.undecided", "a file with an unknown name is read: %s", show(c.Args[0]))
			return []absint.Out{}, true
		}
		p = filepath.Clean(p)
		for _, q := range r.logOf(st, "reads") {
			if s, _ := q.StrConst(); s == p {
				x.Report(st, c.Pos, "gate.twice", "%s is read more than once", p)
				return []absint.Out{}, true
			}
		}
		r.log(st, "reads", u.Str(p))
		if _, has := r.files[p]; !has {
			r.log(st, "failed", u.Str("read "+p))
			r.log(st, "absent", u.Str(p))
			e := u.Tok("read.err", r.errI)
			x.Assume(st, x.EqVal(e, u.Nil(nil)), false)
			return ret(u.Tuple(u.Nil(nil), e))
		}
		return fork("read "+p, u.Call("content", 0, types.NewSlice(types.Typ[types.Byte]), u.Str(p)), u.Nil(nil))
	case "regexp.Compile":
		k := u.Call("regex", 0, types.Typ[types.Bool], c.Args[0])
		n := st.Clone()
		var outs []absint.Out
		if x.Assume(st, k, true) {
			outs = append(outs, absint.Out{St: st, Val: u.Tuple(u.Call("compiled", 0, nil, c.Args[0]), u.Nil(nil))})
		}
		if x.Assume(n, k, false) {
			e := u.Tok("regex.err", r.errI)
			x.Assume(n, x.EqVal(e, u.Nil(nil)), false)
			outs = append(outs, absint.Out{St: n, Val: u.Tuple(u.Nil(nil), e)})
		}
		return outs, true
	case "sort.Strings", "slices.Sort":
		// names that are not known stand in any order
		l := x.Reify(st, c.Args[0])
		for _, e := range l.Args {
			if _, ok := e.StrConst(); l.Op == absint.OList && !ok {
				return ret(nil)
			}
		}
		return nil, false
	case "strconv.Atoi":
		if s, ok := c.Args[0].StrConst(); ok {
			n := int64(0)
			if _, err := fmt.Sscanf(s, "%d", &n); err == nil {
				return ret(u.Tuple(u.Int(n), u.Nil(nil)))
			}
		}
		v := u.Call("number", 0, types.Typ[types.Int], c.Args[0])
		x.Assume(st, u.Le(u.Int(0), v), true)
		return ret(u.Tuple(v, u.Nil(nil)))
	}
	switch c.Fn {
	case r.parse:
		sc := c.Args[0]
		sc = x.Load(st, sc, r.scannerT)
		if t := parsedText(sc); r.trees[t] != nil {
			gt := c.Fn.Signature.Results().At(0).Type()
			r.log(st, "parsed", u.Str(t))
			return fork("parse "+t, u.Struct(gt, r.trees[t]), u.Zero(gt))
		}
		x.Report(st, c.Pos, "gate.undecided", "something unknown is parsed: %s", show(sc))
		return []absint.Out{}, true
	}
	if c.Fn.Pkg != nil && c.Fn.Pkg == r.c.P.SSA["wbnf"] {
		switch {
		case c.Fn.Name() == "NewFromAst":
			return ret(u.Call("grammarOf", 0, r.grammarT, r.nodeIn(c.Args[0]), r.snapshot(x, st, r.nodeIn(c.Args[0]))))
		}
	}
	if c.Fn.Name() == "Compile" && c.Fn.Signature.Recv() != nil && types.Identical(c.Fn.Signature.Recv().Type(), r.grammarT) {
		g := x.Reify(st, c.Args[0])
		v := u.Call("parsersOf", 0, r.parsers, g, c.Args[1])
		return ret(v)
	}
	return nil, false
}

// nodeIn unwraps a generated node.
func (r *gateRun) nodeIn(v *Val) *Val {
	for v.Op == absint.OIface && v.Args[0].Op == absint.OStruct && len(v.Args[0].Args) == 1 && isNodeWrapper(v.Typ) {
		v = v.Args[0].Args[0]
	}
	return v
}

// snapshot is the list of statements a tree holds now.
func (r *gateRun) snapshot(x *Exec, st *State, n *Val) *Val {
	if n.Op == absint.OIface {
		if es, ok := x.Entries(st, n.Args[0]); ok {
			for _, e := range es {
				if s, ok := e.Args[0].StrConst(); ok && s == "stmt" {
					return x.Norm(st, x.Reify(st, e.Args[1]))
				}
			}
		}
	}
	return x.U.List()
}

const mainText = "the grammar's text"

// parsedText names the text a scanner runs over.
func parsedText(v *Val) string {
	found := ""
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if seen[v] {
			return
		}
		seen[v] = true
		if t, ok := v.StrConst(); ok && t == mainText {
			found = t
		}
		if v.Op == absint.OCall && v.Aux == "content" {
			found, _ = v.Args[0].StrConst()
			return
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	walk(v)
	return found
}

func resolveLike(from, path string) string {
	if from == "" {
		return "/base/./" + path
	}
	return filepath.Dir(from) + "/./" + path
}

// verdict says whether the grammar has a finding, when that is settled.
type verdict int

const (
	unsettled verdict = iota
	fine
	faulty
)

func (v verdict) or(w verdict) verdict {
	switch {
	case v == faulty || w == faulty:
		return faulty
	case v == fine && w == fine:
		return fine
	}
	return unsettled
}

type gateScen struct {
	rule, name string
	stmts      []gStmt
	find       func(r *gateRun, x *Exec, st *State) verdict
}

// is one of the given names; "" when it is settled that it is none, "?" when it is open.
func (r *gateRun) which(x *Exec, st *State, v *Val, names ...string) string {
	open := false
	for _, n := range names {
		eq, known := x.Decide(st, x.EqVal(v, r.word(n)))
		if known && eq {
			return n
		}
		open = open || !known
	}
	if open {
		return "?"
	}
	return ""
}

func (m *gateModel) compileScen(s gateScen) {
	x := m.exec()
	st := absint.NewState()
	r := &gateRun{gateModel: m, trees: map[string]*Val{}, files: map[string]string{}}
	m.text = map[*Val]*Val{}
	tree := m.tree(st, s.stmts...)
	r.trees[mainText] = tree
	x.Hooks.Call = r.hook
	st.TS["keep"] = tree
	st.TS["keep2"] = m.snapshotKeep(st)
	u := m.u
	for i := range m.text {
		if t := m.text[i]; t.Op == absint.OSym {
			x.Assume(st, x.EqVal(t, u.Str("")), false)
		}
	}
	whole := r.snapshot(x, st, tree)
	ps := m.compile.Params
	args := make([]*Val, len(ps))
	for i, p := range ps {
		args[i] = u.Nil(nil)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			args[i] = u.Str(mainText)
		}
	}
	good := 0
	for _, o := range x.Run(m.compile, args, st) {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, s.rule, "compiling this grammar panics")
			continue
		}
		failed := len(r.logOf(o.St, "failed")) > 0
		isNil, known := x.Decide(o.St, x.EqVal(o.Res[1], u.Nil(nil)))
		if !known {
			x.Report(o.St, o.Pos, s.rule, "whether compiling fails is open: %s", show(o.Res[1]))
			continue
		}
		if failed {
			if isNil {
				x.Report(o.St, o.Pos, s.rule, "a text that does not parse compiles")
			}
			continue
		}
		v := fine
		if s.find != nil {
			v = s.find(r, x, o.St)
		}
		switch {
		case isNil && v != fine:
			x.Report(o.St, o.Pos, s.rule, "a grammar with this finding compiles%s", m.names(x, o.St))
		case !isNil && v != faulty:
			x.Report(o.St, o.Pos, s.rule, "a grammar without findings is refused%s", m.names(x, o.St))
		case isNil:
			if why := r.result(x, o.St, o.Res[0], tree, whole); why != "" {
				x.Report(o.St, o.Pos, "C14.result", "%s", why)
			} else {
				good++
			}
		default:
			good++
		}
	}
	m.c.Done(x, s.rule, s.name, m.compile)
	m.c.Check(s.rule, s.name, good > 0, m.compile.Pos(), "no way through the compilation was found")
}

func (m *gateModel) snapshotKeep(st *State) *Val { return m.u.List() }

// names lists what is known of the unknown names.
func (m *gateModel) names(x *Exec, st *State) string {
	var out []string
	for f, b := range st.Facts {
		if b && strings.Contains(f.String(), "$") {
			out = append(out, show(f))
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " (" + strings.Join(out, ", ") + ")"
}

// result: the parsers are those of the validated tree.
func (r *gateRun) result(x *Exec, st *State, res, tree, whole *Val) string {
	if res.Op != absint.OCall || res.Aux != "parsersOf" {
		return "the result is " + show(res) + " instead of the parsers of the grammar"
	}
	if r.nodeIn(res.Args[1]) != tree {
		return "the parsers carry another tree than the one that was validated: " + show(res.Args[1])
	}
	g := res.Args[0]
	if g.Op != absint.OCall || g.Aux != "grammarOf" {
		return "parsers are made of " + show(g) + " instead of the rules of the tree"
	}
	if g.Args[0] != tree || g.Args[1] != whole {
		return "the rules are made from another tree than the one that was validated"
	}
	return ""
}

// leafShape is what is put in each place of a grammar.
type leafShape struct {
	name   string
	atom   gAtom
	quants []gAtom
}

func (l leafShape) leaf() gTerm { return gNL(l.name, l.atom, l.quants...) }

type gatePlace struct {
	name string
	make func(l leafShape) []gStmt
	only string // the kinds of finding that can be in that place
}

func gatePlaces() []gatePlace {
	s := gL(gStr("s"))
	b := gProd("b", gT(gL(gStr("t"))))
	a := func(ts ...gTerm) []gStmt {
		return []gStmt{gComment(), gProd("a", gT(append([]gTerm{s}, ts...)...)), b}
	}
	return []gatePlace{
		{name: "a sequence", make: func(l leafShape) []gStmt { return a(l.leaf(), s) }},
		{name: "the second of two terms of a rule", make: func(l leafShape) []gStmt {
			return []gStmt{b, gProd("a", gT(s), gT(s, l.leaf()))}
		}},
		{name: "a later rule", make: func(l leafShape) []gStmt {
			return []gStmt{gProd("a", gT(s)), b, gProd("c", gT(s, l.leaf()))}
		}},
		{name: "an alternative", make: func(l leafShape) []gStmt {
			return []gStmt{b, gProd("a", gChoice(gSeq(s), gSeq(s, l.leaf()), gSeq(s)))}
		}},
		{name: "a level of a stack", make: func(l leafShape) []gStmt {
			return []gStmt{b, gProd("a", gStack(">", gAlt(gSeq(gL(gIdent("@"), gDelim(gStr("s"))))), gAlt(gSeq(s, l.leaf()))))}
		}},
		{name: "the first level of a stack", make: func(l leafShape) []gStmt {
			return []gStmt{b, gProd("a", gStack(">", gAlt(gSeq(s, l.leaf())), gAlt(gSeq(s))))}
		}},
		{name: "parentheses", make: func(l leafShape) []gStmt { return a(gL(gParen(gT(s, l.leaf())))) }},
		{name: "repeated parentheses", make: func(l leafShape) []gStmt { return a(gL(gParen(gT(s, l.leaf())), gQ("*"))) }},
		{name: "a named term", make: func(l leafShape) []gStmt { return a(gNL("n", gParen(gT(s, l.leaf())))) }},
		{name: "a lookahead", make: func(l leafShape) []gStmt { return a(gL(gLook(gT(s, l.leaf())))) }},
		{name: "a separator", only: "atom", make: func(l leafShape) []gStmt {
			sep := func(m *gateModel, st *State) *Val {
				var np *string
				if l.name != "" {
					np = &l.name
				}
				return m.node(st, m.choice(2), one("op", m.tok(st, m.u.Str(":"))), one("named", gNamed(np, l.atom)(m, st)))
			}
			return a(gL(gIdent("b"), sep))
		}},
		{name: "the second repetition of a term", only: "atom", make: func(l leafShape) []gStmt {
			return a(gL(gIdent("b"), gQ("?"), gDelim(l.atom)))
		}},
		{name: "an argument of a macro", make: func(l leafShape) []gStmt {
			return append(a(gL(gCall("M", gT(s), gT(l.leaf())))), gMacro("M", []string{"x", "y"}, gT(gL(gIdent("x")))))
		}},
		{name: "the body of a macro", make: func(l leafShape) []gStmt {
			return append(a(), gMacro("M", []string{"x", "y"}, gT(s, l.leaf())))
		}},
		{name: "a rule behind a macro", make: func(l leafShape) []gStmt {
			return append([]gStmt{gMacro("M", []string{"x", "y"}, gT(s))}, a(l.leaf())...)
		}},
	}
}

// Gate decides C14.
func (c *Ctx) Gate() {
	all := gateScens()
	c.parallel(len(all), func(i int, sub *Ctx) { sub.gateModel().compileScen(all[i]) })
}

func gateScens() []gateScen {
	var out []gateScen
	add := func(rule, name string, find func(r *gateRun, x *Exec, st *State) verdict, ss ...gStmt) {
		out = append(out, gateScen{"C14." + rule, name, ss, find})
	}
	oneOf := func(v string, names ...string) func(r *gateRun, x *Exec, st *State) verdict {
		return func(r *gateRun, x *Exec, st *State) verdict {
			switch r.which(x, st, r.word(v), names...) {
			case "?":
				return unsettled
			case "":
				return fine
			}
			return faulty
		}
	}
	not := func(f func(r *gateRun, x *Exec, st *State) verdict) func(r *gateRun, x *Exec, st *State) verdict {
		return func(r *gateRun, x *Exec, st *State) verdict {
			switch f(r, x, st) {
			case fine:
				return faulty
			case faulty:
				return fine
			}
			return unsettled
		}
	}
	for _, p := range gatePlaces() {
		names := []string{"a", "b"}
		if strings.Contains(p.name, "later") {
			names = append(names, "c")
		}
		if strings.Contains(p.name, "macro") {
			names = append(names, "M")
		}
		seen := append([]string{"@"}, names...)
		if strings.Contains(p.name, "body") {
			seen = append(seen, "x", "y")
		}
		add("unknown", "a name in "+p.name, not(oneOf("$x", seen...)), p.make(leafShape{atom: gIdent("$x")})...)
		add("regex", "a pattern in "+p.name, func(r *gateRun, x *Exec, st *State) verdict {
			b, known := x.Decide(st, x.U.Call("regex", 0, types.Typ[types.Bool], r.word("$r")))
			switch {
			case !known:
				return unsettled
			case b:
				return fine
			}
			return faulty
		}, p.make(leafShape{atom: gRE("$r")})...)
		if p.name != "the second repetition of a term" {
			clash := names
			if strings.Contains(p.name, "body") {
				clash = append(append([]string(nil), names...), "x", "y")
			}
			add("clash", "a label in "+p.name, oneOf("$n", clash...), p.make(leafShape{name: "$n", atom: gStr("t")})...)
		}
		if strings.Contains(p.name, "macro") {
			add("macro", "a call in "+p.name, not(oneOf("$m", "M")), p.make(leafShape{atom: gCall("$m", gT(gL(gStr("s"))), gT(gL(gStr("s"))))})...)
		} else {
			add("macro", "a call in "+p.name, func(r *gateRun, x *Exec, st *State) verdict { return faulty }, p.make(leafShape{atom: gCall("$m", gT(gL(gStr("s"))))})...)
		}
		own := names
		if strings.Contains(p.name, "body") {
			own = append(append([]string(nil), names...), "x", "y")
		}
		add("twice", "labels in "+p.name, func(r *gateRun, x *Exec, st *State) verdict {
			return oneOf("$p", append(own, "$q")...)(r, x, st).or(oneOf("$q", own...)(r, x, st))
		}, p.make(leafShape{atom: gParen(gT(gNL("$p", gStr("s")), gL(gStr("u")), gNL("$q", gStr("t"), gQ("?"))))})...)
		if p.only == "" {
			add("bounds", "bounds in "+p.name, func(r *gateRun, x *Exec, st *State) verdict {
				u := x.U
				lo, hi := u.Call("number", 0, types.Typ[types.Int], r.word("$lo")), u.Call("number", 0, types.Typ[types.Int], r.word("$hi"))
				switch {
				case x.Known(st, u.Le(hi, u.Int(0)), true), x.Known(st, u.Le(lo, u.Int(0)), true), x.Known(st, u.Le(lo, hi), true):
					return fine
				case x.Known(st, u.Le(u.Int(1), hi), true) && x.Known(st, u.Le(u.Add(hi, u.Int(1)), lo), true):
					return faulty
				}
				return unsettled
			}, p.make(leafShape{atom: gStr("t"), quants: []gAtom{gBounds("$lo", "$hi")}})...)
		}
	}
	lit := func(t string) gTerm { return gL(gStr(t)) }
	rule := func(n string) gStmt { return gProd(n, gT(lit("s"))) }
	never := func(r *gateRun, x *Exec, st *State) verdict { return fine }
	always := func(r *gateRun, x *Exec, st *State) verdict { return faulty }
	any := func(fs ...func(r *gateRun, x *Exec, st *State) verdict) func(r *gateRun, x *Exec, st *State) verdict {
		return func(r *gateRun, x *Exec, st *State) verdict {
			v := fine
			for _, f := range fs {
				v = v.or(f(r, x, st))
			}
			return v
		}
	}
	mac := func(n string, args ...string) gStmt { return gMacro(n, args, gT(lit("s"))) }

	// two definitions of one name
	add("again", "two rules", oneOf("$p", "$q"), gProd("$p", gT(lit("s"))), gProd("$q", gT(lit("s"))))
	add("again", "rules far apart", any(oneOf("$p", "$q", "a", "b"), oneOf("$q", "a", "b")),
		gProd("$p", gT(lit("s"))), rule("a"), gComment(), rule("b"), gProd("$q", gT(lit("s"))))
	add("again", "rule and macro", any(oneOf("$p", "$q"), oneOf("$r", "$p", "$q")), gProd("$p", gT(lit("s"))), mac("$q"), mac("$r"))
	add("again", "macro before rule", oneOf("$p", "$q"), mac("$q"), gProd("$p", gT(lit("s"))))
	// parameters of macros
	add("clash", "a macro's parameters", any(oneOf("$x", "a", "b", "M", "$y"), oneOf("$y", "a", "b", "M")),
		rule("a"), gMacro("M", []string{"$x", "$y"}, gT(lit("s"))), rule("b"))
	add("unknown", "a macro's parameter outside of it", any(oneOf("$x", "a", "b", "M", "N"), not(oneOf("$z", "a", "b", "M", "N", "@"))),
		gMacro("M", []string{"$x"}, gT(gL(gIdent("$x")))), gProd("a", gT(lit("s"), gL(gIdent("$z")))), mac("N"), rule("b"))
	add("unknown", "a macro's parameter in another", any(oneOf("$x", "a", "M", "N"), not(oneOf("$z", "a", "M", "N", "@"))),
		gMacro("M", []string{"$x"}, gT(lit("s"))), gMacro("N", nil, gT(gL(gIdent("$z")))), rule("a"))
	// the number of arguments
	for params := 0; params <= 2; params++ {
		for args := 0; args <= 3; args++ {
			var as []gTerm
			for i := 0; i < args; i++ {
				as = append(as, gT(lit("s")))
			}
			v := always
			if params == args {
				v = never
			}
			add("arguments", fmt.Sprintf("%d for %d", args, params), v, gProd("a", gT(lit("s"), gL(gCall("M", as...)))), mac("M", []string{"x", "y"}[:params]...))
			add("arguments", fmt.Sprintf("%d for %d of the second macro", args, params), v, mac("N", "x"), gProd("a", gT(lit("s"), gL(gCall("M", as...), gQ("+")))), mac("M", []string{"x", "y"}[:params]...))
		}
	}
	// two offending calls, rules, and so on: each alone and together
	add("several", "findings in one grammar", any(not(oneOf("$x", "a", "b", "@")), oneOf("$n", "a", "b"), not(oneOf("$y", "a", "b", "@"))),
		gProd("a", gT(lit("s"), gL(gIdent("$x")), gNL("$n", gStr("s")))), gProd("b", gT(lit("s"), gL(gIdent("$y")))))
	add("several", "labels of one term", any(oneOf("$p", "$q", "$r", "a"), oneOf("$q", "$r", "a"), oneOf("$r", "a")),
		gProd("a", gT(gNL("$p", gStr("s")), gNL("$q", gStr("s")), lit("t"), gNL("$r", gStr("s")))))
	add("several", "labels of different alternatives", any(oneOf("$p", "a"), oneOf("$q", "a")),
		gProd("a", gChoice(gSeq(gNL("$p", gStr("s"))), gSeq(gNL("$q", gStr("t"))))))
	add("several", "labels of different rules", any(oneOf("$p", "a", "b"), oneOf("$q", "a", "b")),
		gProd("a", gT(gNL("$p", gStr("s")))), gProd("b", gT(gNL("$q", gStr("s")))))
	// bounds
	for _, b := range [][2]string{{"", ""}, {"$lo", ""}, {"", "$hi"}} {
		add("bounds", "open {"+b[0]+","+b[1]+"}", never, gProd("a", gT(lit("s"), gL(gStr("t"), gBounds(b[0], b[1])))))
	}
	// leading references
	refers := func(names ...string) func(r *gateRun, x *Exec, st *State) verdict {
		// names: pairs of a rule and a name it may begin with
		return func(r *gateRun, x *Exec, st *State) verdict {
			next := map[string][]string{}
			var rules []string
			for i := 0; i < len(names); i += 2 {
				if next[names[i]] == nil {
					rules = append(rules, names[i])
				}
				next[names[i]] = append(next[names[i]], "")
			}
			bad := false
			for i := 0; i < len(names); i += 2 {
				to := r.which(x, st, r.word(names[i+1]), append([]string{"@"}, rules...)...)
				if to == "?" {
					return unsettled
				}
				bad = bad || to == ""
				next[names[i]] = append(next[names[i]], to)
			}
			for _, from := range rules {
				seen := map[string]bool{}
				todo := append([]string(nil), next[from]...)
				for len(todo) > 0 {
					n := todo[0]
					todo = todo[1:]
					if n == from {
						return faulty
					}
					if !seen[n] {
						seen[n] = true
						todo = append(todo, next[n]...)
					}
				}
			}
			if bad {
				return faulty
			}
			return fine
		}
	}
	id := func(n string, qs ...gAtom) gTerm { return gL(gIdent(n), qs...) }
	add("cycle", "graphs of three rules", refers("a", "$x", "b", "$y", "c", "$z"),
		gProd("a", gT(id("$x"), lit("s"))), gProd("b", gT(id("$y"), lit("s"))), gProd("c", gT(id("$z"), lit("s"))))
	add("cycle", "two alternatives each", refers("a", "$x", "a", "$y", "b", "$z", "b", "$w"),
		gProd("a", gChoice(gSeq(id("$x"), lit("s")), gSeq(id("$y"), lit("t")))), gProd("b", gChoice(gSeq(id("$z"), lit("s")), gSeq(id("$w"), lit("t")))))
	add("cycle", "graphs of four rules", refers("a", "b", "a", "c", "b", "$x", "c", "$y", "d", "$z"),
		gProd("a", gChoice(gSeq(id("b"), lit("s")), gSeq(id("c"), lit("t")))), gProd("b", gT(id("$x"), lit("s"))), gProd("c", gT(id("$y"), lit("s"))), gProd("d", gT(id("$z"), lit("s"))))
	back := gProd("b", gT(lit("s"), id("a")))
	for _, w := range []struct {
		name string
		t    gTerm
		find func(r *gateRun, x *Exec, st *State) verdict
		open bool // known to go unnoticed
	}{
		{"alone", gT(id("a")), always, false},
		{"in front", gT(id("a"), lit("s")), always, false},
		{"behind a literal", gT(lit("s"), id("a")), never, false},
		{"behind a pattern", gT(gL(gRE("$r")), id("a")), nil, false},
		{"behind a back-reference", nil, nil, false},
		{"behind an optional literal", gT(gL(gStr("s"), gQ("?")), id("a")), always, false},
		{"behind a repeated literal", gT(gL(gStr("s"), gQ("*")), id("a")), always, false},
		{"behind a literal demanded once", gT(gL(gStr("s"), gQ("+")), id("a")), never, false},
		{"behind a literal with bounds from 0", gT(gL(gStr("s"), gBounds("0", "3")), id("a")), always, false},
		{"behind a literal with no lower bound", gT(gL(gStr("s"), gBounds("", "3")), id("a")), always, false},
		{"behind a literal with bounds from 1", gT(gL(gStr("s"), gBounds("1", "3")), id("a")), never, false},
		{"behind two optional literals", gT(gL(gStr("s"), gQ("?")), gL(gStr("t"), gQ("?")), id("a")), always, false},
		{"behind an optional and a demanded literal", gT(gL(gStr("s"), gQ("?")), lit("t"), id("a")), never, false},
		{"behind an optional pattern", gT(gL(gRE("re"), gQ("?")), id("a")), always, false},
		{"behind a separated list", gT(gL(gStr("s"), gDelim(gStr("t"))), id("a")), never, false},
		{"behind an optional group", gT(gL(gParen(gT(gL(gStr("s"), gQ("?")))), gQ("?")), id("a")), always, true},
		{"optional", gT(id("a", gQ("?")), lit("s")), always, false},
		{"repeated", gT(id("a", gQ("*")), lit("s")), always, false},
		{"in parentheses", gT(gL(gParen(gT(id("a"), lit("s"))))), always, false},
		{"in optional parentheses", gT(gL(gParen(gT(id("a"), lit("s"))), gQ("?")), lit("s")), always, false},
		{"behind a literal in parentheses", gT(gL(gParen(gT(lit("s"), id("a")))), lit("s")), never, false},
		{"in the last alternative", gChoice(gSeq(lit("s")), gSeq(id("a"), lit("t"))), always, false},
		{"behind literals in every alternative", gChoice(gSeq(lit("s")), gSeq(lit("s"), id("a"))), never, false},
		{"in an alternative in parentheses", gT(gL(gParen(gChoice(gSeq(lit("s")), gSeq(id("a"))))), lit("t")), always, false},
		{"labelled", gT(gNL("n", gIdent("a")), lit("s")), always, false},
		{"on a lower level of a stack", gStack(">", gAlt(gSeq(lit("s"))), gAlt(gSeq(id("a"), lit("t")))), nil, false},
		{"on the first level of a stack", gStack(">", gAlt(gSeq(id("a"), lit("t"))), gAlt(gSeq(lit("s")))), always, false},
		{"demanded once", gT(id("a", gQ("+")), lit("s")), always, true},
		{"with bounds from 1", gT(id("a", gBounds("1", "2")), lit("s")), always, true},
		{"in a separated list", gT(id("a", gDelim(gStr("t")))), always, true},
		{"under @", gT(id("@"), lit("s")), always, true},
		{"under @ on the last level of a stack", gStack(">", gAlt(gSeq(id("@", gDelim(gStr("s"))))), gAlt(gSeq(id("@"), lit("t")))), always, true},
	} {
		if w.t == nil || w.find == nil {
			continue
		}
		add("cycle", "itself "+w.name, w.find, gProd("a", w.t), back)
		if !w.open {
			add("cycle", "by way of another, "+w.name, w.find, gProd("c", gT(lit("s"))), gProd("b", gT(id("a"), lit("s"))), gProd("a", replaceIdent(w.t)))
		}
	}
	return out
}

// replaceIdent has the term refer to b where it referred to a.
func replaceIdent(t gTerm) gTerm {
	return func(m *gateModel, st *State) *Val {
		m.rename = map[string]string{"a": "b"}
		defer func() { m.rename = nil }()
		return t(m, st)
	}
}

func init() {
	register(&Prop{ID: "C14", Run: func(c *Ctx) { c.Gate() }, Groups: []string{"C14.", "gate."}, Technique: absTechnique, MinObl: 60,
		Covers: "Compile is interpreted from its text to its result on syntax trees in which the names, labels, parameters, patterns and bounds under test are symbols, one tree per kind of finding and place it can be in (15 places: sequences, later terms and rules, alternatives, stack levels, groups, labels, lookaheads, separators, macro bodies and arguments), with each outcome of the parse and of the regular expression compiler. On each path the result has to be an error exactly when the finding is present for the values taken, and otherwise the parsers of the very tree that was validated. Cycles: every assignment of names to the leading references of three and four rules, and 27 forms a leading reference can have."})
}
