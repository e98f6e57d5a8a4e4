package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// Regular expressions over the two symbols of a list: T (term) and S (separator).
type rx struct {
	op   byte // 'T', 'S', '0' (nothing), 'e' (empty), '.', '|', '*'
	a, b *rx
}

func (r *rx) key() string {
	switch r.op {
	case '.', '|':
		return "(" + r.a.key() + string(r.op) + r.b.key() + ")"
	case '*':
		return r.a.key() + "*"
	}
	return string(r.op)
}

var rxE, rx0 = &rx{op: 'e'}, &rx{op: '0'}

func rxCat(a, b *rx) *rx {
	switch {
	case a.op == '0' || b.op == '0':
		return rx0
	case a.op == 'e':
		return b
	case b.op == 'e':
		return a
	}
	return &rx{op: '.', a: a, b: b}
}

func rxAlt(a, b *rx) *rx {
	m := map[string]*rx{}
	var add func(r *rx)
	add = func(r *rx) {
		if r.op == '|' {
			add(r.a)
			add(r.b)
		} else if r.op != '0' {
			m[r.key()] = r
		}
	}
	add(a)
	add(b)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := rx0
	for i := len(ks) - 1; i >= 0; i-- {
		if out.op == '0' {
			out = m[ks[i]]
		} else {
			out = &rx{op: '|', a: m[ks[i]], b: out}
		}
	}
	return out
}

func rxStar(a *rx) *rx {
	if a.op == '0' || a.op == 'e' {
		return rxE
	}
	if a.op == '*' {
		return a
	}
	return &rx{op: '*', a: a}
}

func (r *rx) null() bool {
	switch r.op {
	case 'e', '*':
		return true
	case '.':
		return r.a.null() && r.b.null()
	case '|':
		return r.a.null() || r.b.null()
	}
	return false
}

func (r *rx) d(c byte) *rx {
	switch r.op {
	case 'T', 'S':
		if r.op == c {
			return rxE
		}
		return rx0
	case '.':
		x := rxCat(r.a.d(c), r.b)
		if r.a.null() {
			x = rxAlt(x, r.b.d(c))
		}
		return x
	case '|':
		return rxAlt(r.a.d(c), r.b.d(c))
	case '*':
		return rxCat(r.a.d(c), r)
	}
	return rx0
}

// rxSame decides language equality by derivatives; it returns a word on which they differ.
func rxSame(a, b *rx) (bool, string) {
	type pr struct {
		a, b *rx
		w    string
	}
	seen := map[string]bool{}
	q := []pr{{a, b, ""}}
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		k := p.a.key() + "=" + p.b.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		if p.a.null() != p.b.null() {
			return false, p.w
		}
		if len(seen) > 2000 {
			return false, "?"
		}
		for _, c := range []byte("TS") {
			q = append(q, pr{p.a.d(c), p.b.d(c), p.w + string(c)})
		}
	}
	return true, ""
}

// Delim decides C18.
func (c *Ctx) Delim() {
	m := c.parseModel()
	kind := c.Named("parser", "Delim")
	idx := func(n string) int {
		i := fieldIndex(kind, n)
		if i < 0 {
			panic(missing("field " + n + " of Delim"))
		}
		return i
	}
	iTerm, iSep, iAssoc, iLead, iTrail := idx("Term"), idx("Sep"), idx("Assoc"), idx("CanStartWithSep"), idx("CanEndWithSep")
	fn := c.P.TypeMethod(kind, "Parser")
	termT := c.Named("parser", "Term")
	boolT := types.Typ[types.Bool]
	consts := map[string]*ssa.NamedConst{}
	for n, mem := range c.P.SSA["parser"].Members {
		if k, ok := mem.(*ssa.NamedConst); ok && types.Identical(k.Type(), m.assocT) {
			consts[n] = k
		}
	}
	assocs := []struct {
		name string
		v    int64
	}{}
	for _, n := range []string{"NonAssociative", "LeftToRight", "RightToLeft"} {
		k := consts[n]
		if k == nil {
			panic(missing("associativity " + n))
		}
		assocs = append(assocs, struct {
			name string
			v    int64
		}{n, k.Value.Int64()})
	}
	for _, lead := range []bool{false, true} {
		for _, trail := range []bool{false, true} {
			for _, as := range assocs {
				for _, named := range []bool{true, false} {
					cons := as.name
					if lead {
						cons += "+leading"
					}
					if trail {
						cons += "+trailing"
					}
					x := c.Exec()
					u := x.U
					x.Hooks.Inline = opaqueStrings
					t := u.Sym("t", kind)
					rule := u.Sym("rule", fn.Signature.Params().At(0).Type())
					cc := u.Sym("c", fn.Signature.Params().At(1).Type())
					st := absint.NewState()
					x.Assume(st, u.Field(t, iLead, boolT), lead)
					x.Assume(st, u.Field(t, iTrail, boolT), trail)
					x.Assume(st, u.Eq2n(u.Field(t, iAssoc, m.assocT), u.Int(as.v)), true)
					x.Assume(st, x.EqVal(rule, u.Str("")), !named)
					term, sep := u.Field(t, iTerm, termT), u.Field(t, iSep, termT)
					// the terms parsers are made of
					made := map[*Val]*Val{}
					x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
						name := ""
						if ci.Method != nil {
							name = ci.Method.Name()
						} else if ci.Fn != nil && ci.Fn.Signature.Recv() != nil {
							name = ci.Fn.Name()
						}
						if ci.Fn != nil && ci.Fn.Name() == "registerRule" {
							return []absint.Out{{St: st}}, true
						}
						if name != "Parser" || len(ci.Args) != 3 {
							return frozenCall(x, st, ci, nil)
						}
						recv := ci.Args[0]
						if ci.Fn != nil {
							recv = u.Iface(ci.Fn.Signature.Recv().Type(), recv)
						} else if ci.Recv != nil {
							recv = ci.Recv
						}
						p := u.Tok("child", m.parserI)
						made[p] = x.Reify(st, recv)
						return []absint.Out{{St: st, Val: p}}, true
					}
					outs := x.Run(fn, []*Val{t, rule, cc}, st)
					c.Check("C18.grammar", cons, len(outs) > 0, fn.Pos(), "no parser is constructed")
					for _, o := range outs {
						if o.Panic != nil {
							x.Report(o.St, o.Pos, "C18.grammar", "panics")
							continue
						}
						if o.Res[0].Op != absint.OIface {
							x.Report(o.St, o.Pos, "C18.grammar", "constructs %s", show(o.Res[0]))
							continue
						}
						d := &delimRun{m: m, c: c, lead: lead, trail: trail, named: named, assoc: as.v, assocName: as.name, term: term, sep: sep,
							b: &built{kind: kind, t: t, rule: rule, c: cc, res: o.Res[0], st: o.St, x: x}, made: made, cons: cons}
						d.run(o)
					}
					c.Done(x, "C18", cons, fn)
				}
			}
		}
	}
	c.delimUnparse()
}

type delimRun struct {
	m           *parseModel
	c           *Ctx
	b           *built
	lead, trail bool
	named       bool
	assoc       int64
	assocName   string
	term, sep   *Val
	made        map[*Val]*Val
	cons        string
	x           *Exec
	n           *Val // number of separator-term pairs
	nTok        int
}

// lang translates a term value built from the list's parts.
func (d *delimRun) lang(st *State, v *Val) (*rx, error) {
	x := d.x
	u := x.U
	if x.SameVal(st, v, d.term) {
		return &rx{op: 'T'}, nil
	}
	if x.SameVal(st, v, d.sep) {
		return &rx{op: 'S'}, nil
	}
	if v.Op != absint.OIface {
		return nil, fmt.Errorf("%s", show(v))
	}
	val := x.Reify(st, v.Args[0])
	list := func() ([]*rx, error) {
		if val.Op != absint.OList {
			return nil, fmt.Errorf("%s", show(val))
		}
		var out []*rx
		for _, a := range val.Args {
			e, err := d.lang(st, x.Reify(st, a))
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		}
		return out, nil
	}
	switch typeName(v.Typ) {
	case "Seq":
		es, err := list()
		r := rxE
		for _, e := range es {
			r = rxCat(r, e)
		}
		return r, err
	case "Oneof":
		es, err := list()
		r := rx0
		for _, e := range es {
			r = rxAlt(r, e)
		}
		return r, err
	case "Quant":
		f := func(n string) *Val {
			i := fieldIndex(v.Typ, n)
			return u.Field(val, i, fieldsOf(v.Typ).Field(i).Type())
		}
		min, ok1 := f("Min").IntConst()
		max, ok2 := f("Max").IntConst()
		if !ok1 || !ok2 || max > 8 || min > 8 {
			return nil, fmt.Errorf("%s", show(val))
		}
		e, err := d.lang(st, x.Reify(st, f("Term")))
		if err != nil {
			return nil, err
		}
		r := rxE
		for i := int64(0); i < min; i++ {
			r = rxCat(r, e)
		}
		if max == 0 {
			return rxCat(r, rxStar(e)), nil
		}
		for i := min; i < max; i++ {
			r = rxCat(r, rxAlt(e, rxE))
		}
		return r, nil
	}
	return nil, fmt.Errorf("%s", show(v))
}

// tree is the parse tree a term yields when the list has pairs separators
// followed by terms, a leading and a trailing separator as given.
func (d *delimRun) tree(st *State, v *Val, cur *feed) (*Val, bool) {
	x := d.x
	u := x.U
	if x.SameVal(st, v, d.term) {
		return cur.next(d, 'T')
	}
	if x.SameVal(st, v, d.sep) {
		return cur.next(d, 'S')
	}
	if v.Op != absint.OIface {
		return nil, false
	}
	val := x.Reify(st, v.Args[0])
	node := func(kids *Val, extra *Val) *Val {
		fs := make([]*Val, fieldsOf(d.m.nodeT).NumFields())
		for i := range fs {
			fs[i] = u.Tok("nf", fieldsOf(d.m.nodeT).Field(i).Type())
		}
		fs[fieldIndex(d.m.nodeT, "Children")] = kids
		fs[fieldIndex(d.m.nodeT, "Extra")] = extra
		return u.Iface(d.m.nodeT, u.Struct(d.m.nodeT, fs...))
	}
	switch typeName(v.Typ) {
	case "Seq":
		if val.Op != absint.OList {
			return nil, false
		}
		var ks []*Val
		for _, a := range val.Args {
			k, ok := d.tree(st, x.Reify(st, a), cur)
			if !ok {
				return nil, false
			}
			ks = append(ks, k)
		}
		return node(u.List(ks...), u.Nil(nil)), true
	case "Quant":
		i := fieldIndex(v.Typ, "Term")
		inner := x.Reify(st, u.Field(val, i, d.c.Named("parser", "Term")))
		max, _ := u.Field(val, fieldIndex(v.Typ, "Max"), types.Typ[types.Int]).IntConst()
		min, _ := u.Field(val, fieldIndex(v.Typ, "Min"), types.Typ[types.Int]).IntConst()
		var ks []*Val
		for int64(len(ks)) < max || max == 0 {
			save := *cur
			k, ok := d.tree(st, inner, cur)
			if !ok || save.pos == cur.pos {
				*cur = save
				break
			}
			ks = append(ks, k)
		}
		if int64(len(ks)) < min {
			return nil, false
		}
		return node(u.List(ks...), u.Nil(nil)), true
	}
	return nil, false
}

// feed hands out the tokens of one concrete list in order.
type feed struct {
	word string
	toks []*Val
	pos  int
}

func (f *feed) next(d *delimRun, k byte) (*Val, bool) {
	if f.pos < len(f.word) && f.word[f.pos] == k {
		f.pos++
		return f.toks[f.pos-1], true
	}
	return nil, false
}

func (d *delimRun) run(o *absint.Outcome) {
	c, m := d.c, d.m
	pfn := c.P.TypeMethod(d.b.res.Typ, "Parse")
	if pfn == nil {
		panic(missing("Parse of " + d.b.res.Typ.String()))
	}
	probe := c.Exec()
	probe.U = d.b.x.U
	d.x = probe
	// expected language
	S, T := &rx{op: 'S'}, &rx{op: 'T'}
	want := rxCat(T, rxStar(rxCat(S, T)))
	if d.lead {
		want = rxCat(rxAlt(S, rxE), want)
	}
	if d.trail {
		want = rxCat(want, rxAlt(S, rxE))
	}
	langOK := map[*Val]bool{}
	for p, v := range d.made {
		l, err := d.lang(o.St, v)
		if err != nil {
			continue
		}
		if same, _ := rxSame(l, want); same {
			langOK[p] = true
		}
	}
	const maxPairs = 4
	succ := 0
	for pairs := 0; pairs <= maxPairs; pairs++ {
		for ls := 0; ls <= b2i(d.lead); ls++ {
			for ts := 0; ts <= b2i(d.trail); ts++ {
				word := strings.Repeat("S", ls) + "T" + strings.Repeat("ST", pairs) + strings.Repeat("S", ts)
				x := c.Exec()
				x.U = d.b.x.U
				u := x.U
				d.x = x
				x.UnrollSym = 8
				f := &feed{word: word}
				for i := range word {
					f.toks = append(f.toks, u.Sym(fmt.Sprintf("tok%d", i), m.teT))
				}
				st := o.St.Clone()
				ps := pfn.Params
				inAddr, outA := u.Sym("input", ps[2].Type()), u.Sym("output", ps[3].Type())
				entry := x.Load(st, inAddr, m.scannerT)
				end := u.Sym("end", m.scannerT)
				x.Hooks.Inline = opaqueStrings
				x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
					if recv, args, ok := m.isParse(ci); ok {
						if recv == nil {
							x.Report(st, ci.Pos, "C18.grammar", "parses with %s", ci.Name())
							return []absint.Out{}, true
						}
						v := d.made[recv]
						if v == nil {
							x.Report(st, ci.Pos, "C18.grammar", "parses with %s, which was not made from the list's parts", show(recv))
							return []absint.Out{}, true
						}
						if !langOK[recv] {
							l, err := d.lang(st, v)
							if err != nil {
								x.Report(st, ci.Pos, "C18.grammar", "parses %s, whose language is not known", err)
							} else {
								_, w := rxSame(l, want)
								x.Report(st, ci.Pos, "C18.grammar", "matches terms (T) and separators (S) as %s instead of %s: they differ on %q", l.key(), want.key(), w)
							}
							return []absint.Out{}, true
						}
						if !x.SameVal(st, x.Load(st, args[1], m.scannerT), entry) || args[1] != inAddr {
							x.Report(st, ci.Pos, "C18.position", "the list is parsed at %s", show(args[1]))
						}
						cur := *f
						t, ok := d.tree(st, v, &cur)
						if !ok || cur.pos != len(word) {
							x.Report(st, ci.Pos, "C18.undecided", "cannot derive the tree of %q for %s", word, show(v))
							return []absint.Out{}, true
						}
						x.Store(st, args[1], end, m.scannerT)
						x.Store(st, args[2], t, m.teT)
						return []absint.Out{{St: st, Val: u.Nil(nil)}}, true
					}
					if ci.Fn != nil && m.escT != nil {
						if res := ci.Fn.Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), m.escT) {
							return []absint.Out{{St: st, Val: u.Nil(nil)}}, true
						}
					}
					return frozenCall(x, st, ci, nil)
				}
				outs := x.Run(pfn, []*Val{d.b.res.Args[0], u.Sym("scope", ps[1].Type()), inAddr, outA, u.Sym("stk", ps[4].Type())}, st)
				for _, po := range outs {
					if po.Panic != nil {
						x.Report(po.St, po.Pos, "C18.tree", "panics on the list %s", word)
						continue
					}
					isNil, known := x.Decide(po.St, x.EqVal(po.Res[0], u.Nil(nil)))
					if !known || !isNil {
						x.Report(po.St, po.Pos, "C18.accept", "fails on the list %s although it was matched: %s", word, show(po.Res[0]))
						continue
					}
					succ++
					if !x.SameVal(po.St, x.Load(po.St, inAddr, m.scannerT), end) {
						x.Report(po.St, po.Pos, "C18.position", "the input is not left behind the list")
					}
					got := d.render(x, po.St, x.Load(po.St, outA, m.teT), f)
					if want := d.expect(word); got != want {
						x.Report(po.St, po.Pos, "C18.tree", "the list %s yields %s instead of %s", word, got, want)
					}
				}
				c.Done(x, "C18", d.cons, pfn)
			}
		}
	}
	c.Check("C18.tree", d.cons, succ > 0, pfn.Pos(), "no list is accepted")
	c.Check("C18.accept", d.cons, true, pfn.Pos(), "")
	c.Check("C18.position", d.cons, true, pfn.Pos(), "")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// render writes a result tree with the tokens numbered and the node's tag and extra.
func (d *delimRun) render(x *Exec, st *State, v *Val, f *feed) string {
	u := x.U
	v = x.Reify(st, v)
	for i, t := range f.toks {
		if x.SameVal(st, v, t) {
			return fmt.Sprintf("%c%d", f.word[i], i)
		}
	}
	if v.Op == absint.OIface && typeName(v.Typ) == "Empty" {
		return "-"
	}
	if v.Op != absint.OIface || !types.Identical(v.Typ, d.m.nodeT) {
		return show(v)
	}
	n := v.Args[0]
	get := func(name string) *Val {
		i := fieldIndex(d.m.nodeT, name)
		return u.Field(n, i, fieldsOf(d.m.nodeT).Field(i).Type())
	}
	tag := d.b.rule
	if !d.named {
		tag = u.Str(fixedTags["Delim"])
	}
	s := "("
	if g := get("Tag"); !x.SameVal(st, g, tag) {
		s = "(labelled " + show(g) + ": "
	}
	if e := get("Extra"); e.Op == absint.OIface && types.Identical(e.Typ, d.m.assocT) {
		if k, ok := x.Norm(st, e.Args[0]).IntConst(); ok {
			s += fmt.Sprint(k)
		} else if x.ProveEq(st, e.Args[0], u.Int(d.assoc)) {
			s += fmt.Sprint(d.assoc)
		} else {
			s += show(e.Args[0])
		}
	} else {
		s += "extra " + show(e)
	}
	kids := x.Norm(st, x.Reify(st, get("Children")))
	if kids.Op != absint.OList {
		return s + " children " + show(kids) + ")"
	}
	for _, k := range kids.Args {
		s += " " + d.render(x, st, k, f)
	}
	return s + ")"
}

// expect is the tree that the property demands.
func (d *delimRun) expect(word string) string {
	var items []string
	for i := range word {
		if i == 0 && word[0] == 'S' {
			items = append(items, "-")
		}
		items = append(items, fmt.Sprintf("%c%d", word[i], i))
		if i == len(word)-1 && word[i] == 'S' {
			items = append(items, "-")
		}
	}
	if len(items) > 1 && d.assocName != "NonAssociative" {
		if d.assocName == "LeftToRight" {
			v := items[0]
			for i := 1; i < len(items); i += 2 {
				v = fmt.Sprintf("(%d %s %s %s)", d.assoc, v, items[i], items[i+1])
			}
			return v
		}
		v := items[len(items)-1]
		for i := len(items) - 2; i > 0; i -= 2 {
			v = fmt.Sprintf("(%d %s %s %s)", d.assoc, items[i-1], items[i], v)
		}
		return v
	}
	return "(0 " + strings.Join(items, " ") + ")"
}

func (c *Ctx) delimUnparse() {}

func init() {
	register(&Prop{ID: "C18", Run: func(c *Ctx) { c.Delim(); c.Build() }, Groups: []string{"build.delim"}, Technique: absTechnique, MinObl: 40,
		Covers: "For each associativity and each combination of leading and trailing separators, the list's constructor is interpreted and the term it hands to its sub-parser is translated to a regular expression over term and separator, which must denote T(ST)* with the optional leading and trailing separator (language equality by derivatives). Its Parse method is then interpreted on the symbolic tree that this sub-parser yields for every list of up to 4 separator-term pairs with symbolic elements, and the resulting symbolic tree is compared with the required alternation, empty markers, associativity and nesting. The builder is interpreted on every form of the list operators, which must give exactly the options written."})
}
