package rules

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	tparse "text/template/parse"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

// C11: the text that the generator writes for a grammar, read as Go, denotes
// that grammar.

const symBase = 0xE000 // characters that stand for unknown ones in the text

// gt is a value of the term types, from either side.
type gt struct {
	typ    types.Type
	fields map[string]*gt
	elems  []*gt
	rules  map[string]*gt
	order  []string // of the rules, as the generator is shown them
	str    []*Val
	isStr  bool
	num    *Val
}

type genModel struct {
	lit  *litModel
	c    *Ctx
	x    *Exec
	u    *absint.Universe
	root *ssa.Function // the generator
	text *ssa.Function // String of its result
	syms []*Val
	n    int
	mk   func(name string) types.Type
}

func (c *Ctx) genModel() *genModel {
	m := &genModel{c: c}
	m.root = c.P.Func("cmd/codegen", "MakeGrammarString")
	if m.root == nil {
		panic(missing("codegen.MakeGrammarString"))
	}
	res := m.root.Signature.Results()
	if res.Len() != 1 {
		panic(missing("result of MakeGrammarString"))
	}
	m.text = c.P.TypeMethod(res.At(0).Type(), "String")
	if m.text == nil {
		panic(missing("String of the generator's result"))
	}
	m.lit = c.newLit(m.root)
	m.x, m.u = m.lit.x, m.lit.u
	m.x.Hooks.Call = m.hook
	m.x.MaxSteps = 8000
	m.x.MaxDepth = 200
	m.x.MaxRec = 60
	m.x.Unroll = 200
	m.x.UnrollSym = 200
	m.mk = func(name string) types.Type { return c.Named("parser", name) }
	return m
}

// char is an unknown character.
func (m *genModel) char() *Val {
	m.n++
	v := m.u.Sym(fmt.Sprintf("char%d", m.n), types.Typ[types.Uint8])
	m.lit.bits[v] = 7
	m.syms = append(m.syms, v)
	return v
}

// plain assumes that every unknown character is an ordinary one.
func (m *genModel) plain(st *State) {
	for _, v := range m.syms {
		m.x.Assume(st, m.u.Le(m.u.Int(32), v), true)
		m.x.Assume(st, m.u.Le(v, m.u.Int(126)), true)
		for _, k := range "`\\\"@" {
			m.x.Assume(st, m.x.EqVal(v, m.u.Int(int64(k))), false)
		}
	}
}

// ---- values

func (m *genModel) str(t string, parts ...any) *gt {
	g := &gt{typ: m.mk(t), isStr: true}
	m.fill(g, parts)
	return g
}

func (m *genModel) raw(parts ...any) *gt {
	g := &gt{typ: types.Typ[types.String], isStr: true}
	m.fill(g, parts)
	return g
}

func (m *genModel) fill(g *gt, parts []any) {
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			g.str = append(g.str, m.lit.lit(p)...)
		case int:
			for i := 0; i < p; i++ {
				g.str = append(g.str, m.char())
			}
		}
	}
}

func (m *genModel) list(t string, elems ...*gt) *gt { return &gt{typ: m.mk(t), elems: elems} }

func (m *genModel) obj(t string, kv ...any) *gt {
	g := &gt{typ: m.mk(t), fields: map[string]*gt{}}
	for i := 0; i < len(kv); i += 2 {
		k := kv[i].(string)
		f := fieldIndex(g.typ, k)
		if f < 0 {
			panic(missing(t + "." + k))
		}
		ft := fieldsOf(g.typ).Field(f).Type()
		switch v := kv[i+1].(type) {
		case *gt:
			g.fields[k] = v
		case int:
			g.fields[k] = &gt{typ: ft, num: m.u.Int(int64(v))}
		case bool:
			g.fields[k] = &gt{typ: ft, num: m.u.Bool(v)}
		case *Val:
			g.fields[k] = &gt{typ: ft, num: v}
		}
	}
	return g
}

func (m *genModel) grammar(kv ...any) *gt {
	g := &gt{typ: m.mk("Grammar"), rules: map[string]*gt{}}
	for i := 0; i < len(kv); i += 2 {
		g.rules[kv[i].(string)] = kv[i+1].(*gt)
		g.order = append(g.order, kv[i].(string))
	}
	return g
}

// text gives characters as a value, constant if they are.
func (m *genModel) textVal(vs []*Val) *Val {
	var b []byte
	for _, v := range vs {
		k, ok := v.IntConst()
		if !ok {
			return m.u.List(vs...)
		}
		b = append(b, byte(k))
	}
	return m.u.Str(string(b))
}

// val is the value as the generator sees it.
func (m *genModel) val(st *State, g *gt, slot types.Type) *Val {
	u := m.u
	var v *Val
	switch {
	case g == nil:
		return u.Zero(slot)
	case g.isStr:
		v = m.textVal(g.str)
	case g.num != nil:
		v = g.num
	case g.rules != nil:
		v = u.AllocTok(absint.OMap, "grammar", g.typ)
		var es []*Val
		mt := g.typ.Underlying().(*types.Map)
		for _, k := range g.order {
			es = append(es, u.Tuple(u.Str(k), m.val(st, g.rules[k], mt.Elem())))
		}
		st.Mem[v] = u.List(es...)
	case g.fields != nil:
		s := fieldsOf(g.typ)
		var fs []*Val
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, m.val(st, g.fields[s.Field(i).Name()], s.Field(i).Type()))
		}
		v = u.Struct(g.typ, fs...)
	default:
		et := g.typ.Underlying().(*types.Slice).Elem()
		var es []*Val
		for _, e := range g.elems {
			es = append(es, m.val(st, e, et))
		}
		v = u.List(es...)
	}
	if types.IsInterface(slot) {
		return u.Iface(g.typ, v)
	}
	return v
}

// shown renders a value; what is left at its zero value is left out.
func (m *genModel) shown(st *State, g *gt) string {
	if g == nil {
		return "nothing"
	}
	name := typeName(g.typ)
	switch {
	case g.isStr:
		return name + "(" + m.quoted(g.str) + ")"
	case g.num != nil:
		return m.number(st, g.num)
	case g.rules != nil:
		var ks []string
		for k := range g.rules {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = k + ": " + m.shown(st, g.rules[k])
		}
		return name + "{" + strings.Join(ks, ", ") + "}"
	case g.fields != nil:
		var fs []string
		s := fieldsOf(g.typ)
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			f := g.fields[n]
			if f == nil || f.isStr && len(f.str) == 0 {
				continue
			}
			t := m.shown(st, f)
			if f.num != nil && (t == "0" || t == "false") {
				continue
			}
			fs = append(fs, n+": "+t)
		}
		return name + "{" + strings.Join(fs, ", ") + "}"
	}
	var es []string
	for _, e := range g.elems {
		es = append(es, m.shown(st, e))
	}
	return name + "{" + strings.Join(es, ", ") + "}"
}

func (m *genModel) quoted(vs []*Val) string {
	var out []string
	var b []byte
	flush := func() {
		if b != nil {
			out = append(out, strconv.Quote(string(b)))
			b = nil
		}
	}
	for _, v := range vs {
		if k, ok := v.IntConst(); ok {
			b = append(b, byte(k))
			continue
		}
		flush()
		out = append(out, show(v))
	}
	flush()
	return strings.Join(out, " ")
}

func (m *genModel) number(st *State, v *Val) string {
	for k := int64(-1); k < 10; k++ {
		if m.x.Known(st, m.u.Eq2n(v, m.u.Int(k)), true) {
			return strconv.FormatInt(k, 10)
		}
	}
	return show(m.x.Norm(st, v))
}

// flatten expands stacks of rules as compilation does.
func (m *genModel) flatten(g *gt) *gt {
	if g == nil {
		return nil
	}
	c := *g
	switch {
	case g.rules != nil:
		c.rules = map[string]*gt{}
		for k, t := range g.rules {
			if typeName(t.typ) != "Stack" {
				c.rules[k] = m.flatten(t)
				continue
			}
			at := k
			for i, l := range t.elems {
				next := k
				if i+1 < len(t.elems) {
					next = fmt.Sprintf("%s@%d", k, i+1)
				}
				c.rules[at] = m.resolve(m.flatten(l), next)
				at = next
			}
		}
	case g.fields != nil:
		c.fields = map[string]*gt{}
		for k, f := range g.fields {
			c.fields[k] = m.flatten(f)
		}
	case g.elems != nil:
		c.elems = nil
		for _, e := range g.elems {
			c.elems = append(c.elems, m.flatten(e))
		}
	}
	return &c
}

func (m *genModel) resolve(g *gt, next string) *gt {
	if g == nil || g.rules != nil {
		return g
	}
	c := *g
	switch {
	case g.isStr:
		if typeName(g.typ) == "Rule" && len(g.str) == 1 && m.textVal(g.str) == m.u.Str("@") {
			c.str = m.lit.lit(next)
		}
	case g.fields != nil:
		c.fields = map[string]*gt{}
		for k, f := range g.fields {
			c.fields[k] = m.resolve(f, next)
		}
	case g.elems != nil:
		c.elems = nil
		for _, e := range g.elems {
			c.elems = append(c.elems, m.resolve(e, next))
		}
	}
	return &c
}

// ---- the library

var verbRE = regexp.MustCompile(`%(\[\d+\])?([a-zA-Z%])`)

func (m *genModel) hook(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := m.u
	if c.Fn == nil {
		return nil, false
	}
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	name := c.Fn.RelString(nil)
	if f, ok := strings.CutPrefix(name, "github.com/arr-ai/frozen.NewSet"); ok && strings.HasPrefix(f, "[") {
		l := x.Reify(st, c.Args[0])
		if l.IsNil() {
			return ret(u.Call("frozenset", 0, c.Fn.Signature.Results().At(0).Type()))
		}
		if l.Op == absint.OList {
			return ret(u.Call("frozenset", 0, c.Fn.Signature.Results().At(0).Type(), l.Args...))
		}
		return nil, false
	}
	if strings.HasPrefix(name, "(github.com/arr-ai/frozen.Set[") && len(c.Args) > 0 && c.Args[0].Op == absint.OCall && c.Args[0].Aux == "frozenset" {
		set := c.Args[0]
		switch c.Fn.Name() {
		case "With":
			l := x.Reify(st, c.Args[1])
			if l.Op == absint.OList {
				return ret(u.Call("frozenset", 0, set.Typ, append(append([]*Val(nil), set.Args...), l.Args...)...))
			}
			return ret(u.Call("frozenset", 0, set.Typ, append(append([]*Val(nil), set.Args...), l)...))
		case "Has":
			has := false
			for _, e := range set.Args {
				eq, known := x.Decide(st, x.EqVal(e, c.Args[1]))
				if !known {
					return nil, false
				}
				has = has || eq
			}
			return ret(u.Bool(has))
		case "IsEmpty":
			return ret(u.Bool(len(set.Args) == 0))
		}
		return nil, false
	}
	flat := func(v *Val) []*Val { return m.lit.flat(x, st, v) }
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Fprintf", "fmt.Errorf":
		args := c.Args
		if name == "fmt.Fprintf" {
			args = args[1:]
		}
		if name == "fmt.Errorf" {
			return ret(u.FreshTok("error", types.Universe.Lookup("error").Type()))
		}
		if name == "fmt.Sprint" {
			// operands that are not strings have spaces between them
			vs := x.Reify(st, args[0])
			if vs.Op != absint.OList {
				return nil, false
			}
			f, was := "", true
			for i, v := range vs.Args {
				t := v.Typ
				if v.Op != absint.OIface || t == nil {
					return nil, false
				}
				is := isText(t)
				if i > 0 && !is && !was {
					f += " "
				}
				was = is
				f += "%v"
			}
			out, ok := m.sprintf(x, st, f, vs.Args)
			if !ok {
				return nil, false
			}
			return ret(m.textVal(out))
		}
		f, ok := args[0].StrConst()
		if !ok {
			f2 := flat(args[0])
			if s, ok2 := m.textVal(f2).StrConst(); ok2 {
				f, ok = s, true
			}
		}
		if !ok {
			// a format with unknown characters, none of which is a verb
			var fs []byte
			for _, v := range flat(args[0]) {
				if k, isC := v.IntConst(); isC {
					fs = append(fs, byte(k))
					continue
				}
				if eq, known := x.Decide(st, x.EqVal(v, u.Int('%'))); !known || eq {
					return m.splitPercent(x, st, c, v)
				}
				fs = append(fs, []byte(string(rune(m.mark(v))))...)
			}
			f = string(fs)
		}
		vs := x.Reify(st, args[1])
		var list []*Val
		if vs.Op == absint.OList {
			list = vs.Args
		} else if !vs.IsNil() {
			return nil, false
		}
		out, good := m.sprintf(x, st, f, list)
		if !good {
			return nil, false
		}
		if name == "fmt.Fprintf" {
			w := c.Args[0]
			for w.Op == absint.OIface {
				w = w.Args[0]
			}
			key := "built." + w.String()
			var cur []*Val
			if v := st.TS[key]; v != nil {
				cur = v.Args
			}
			st.TS[key] = u.List(append(append([]*Val(nil), cur...), out...)...)
			return ret(u.Tuple(u.Int(int64(len(out))), u.Nil(types.Universe.Lookup("error").Type())))
		}
		return ret(m.textVal(out))
	case "strings.Join":
		l := x.Reify(st, c.Args[0])
		sep := flat(c.Args[1])
		if l.IsNil() {
			return ret(u.Str(""))
		}
		if l.Op != absint.OList {
			return nil, false
		}
		var out []*Val
		for i, e := range l.Args {
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, flat(e)...)
		}
		return ret(m.textVal(out))
	case "strings.Repeat":
		k, ok := c.Args[1].IntConst()
		if !ok || k < 0 || k > 50 {
			return nil, false
		}
		var out []*Val
		for ; k > 0; k-- {
			out = append(out, flat(c.Args[0])...)
		}
		return ret(m.textVal(out))
	case "strings.NewReplacer":
		l := x.Reify(st, c.Args[0])
		if l.Op != absint.OList || len(l.Args)%2 != 0 {
			return nil, false
		}
		return ret(u.Call("replacer", 0, c.Fn.Signature.Results().At(0).Type(), l))
	case "(*strings.Replacer).Replace":
		r := c.Args[0]
		if r.Op != absint.OCall || r.Aux != "replacer" {
			return nil, false
		}
		return m.replace(x, st, flat(c.Args[1]), r.Args[0].Args)
	case "strings.ReplaceAll":
		return m.replace(x, st, flat(c.Args[0]), c.Args[1:])
	case "strings.SplitN", "strings.Cut":
		s, sep := flat(c.Args[0]), flat(c.Args[1])
		at, ok := m.lit.find(x, st, s, sep)
		if !ok || len(sep) == 0 {
			return nil, false
		}
		if name == "strings.Cut" {
			if len(at) == 0 {
				return ret(u.Tuple(m.textVal(s), u.Str(""), u.Bool(false)))
			}
			return ret(u.Tuple(m.textVal(s[:at[0]]), m.textVal(s[at[0]+len(sep):]), u.Bool(true)))
		}
		k, ok := c.Args[2].IntConst()
		if !ok || k < 1 {
			return nil, false
		}
		var out []*Val
		last := 0
		for _, i := range at {
			if int64(len(out)) == k-1 {
				break
			}
			out = append(out, m.textVal(s[last:i]))
			last = i + len(sep)
		}
		return ret(u.List(append(out, m.textVal(s[last:]))...))
	case "strings.Split":
		outs, ok := m.lit.hook(x, st, c)
		if ok {
			for i, o := range outs {
				var vs []*Val
				for _, e := range o.Val.Args {
					vs = append(vs, m.textVal(flat(e)))
				}
				outs[i].Val = u.List(vs...)
			}
		}
		return outs, ok
	case "strconv.Itoa", "strconv.FormatInt":
		if name == "strconv.FormatInt" {
			if b, ok := c.Args[1].IntConst(); !ok || b != 10 {
				return nil, false
			}
		}
		return ret(m.textVal(m.decimal(st, c.Args[0])))
	case "strconv.FormatBool":
		if b, known := x.Decide(st, c.Args[0]); known {
			return ret(u.Str(strconv.FormatBool(b)))
		}
	case "strconv.Quote", "strconv.QuoteToASCII":
		return ret(m.textVal(m.quote(flat(c.Args[0]), name == "strconv.QuoteToASCII")))
	case "strconv.CanBackquote":
		var b []byte
		for _, v := range flat(c.Args[0]) {
			k, ok := v.IntConst()
			if !ok {
				k = 'x'
			}
			b = append(b, byte(k))
		}
		return ret(u.Bool(strconv.CanBackquote(string(b))))
	case "unicode/utf8.DecodeRuneInString":
		s := flat(c.Args[0])
		if len(s) == 0 {
			return ret(u.Tuple(u.Int(utf8.RuneError), u.Int(0)))
		}
		r, n := m.rune(s)
		return ret(u.Tuple(r, u.Int(int64(n))))
	case "unicode/utf8.ValidString":
		s := flat(c.Args[0])
		for len(s) > 0 {
			r, n := m.rune(s)
			if k, ok := r.IntConst(); ok && k == utf8.RuneError && n == 1 {
				return ret(u.Bool(false))
			}
			s = s[n:]
		}
		return ret(u.Bool(true))
	case "(*strings.Builder).WriteRune":
		if k, ok := isRuneByte(c.Args[1]); ok {
			key := "built." + c.Args[0].String()
			var cur []*Val
			if v := st.TS[key]; v != nil {
				cur = v.Args
			}
			st.TS[key] = u.List(append(append([]*Val(nil), cur...), m.lit.lit(string(rune(k)))...)...)
			return ret(u.Tuple(u.Int(1), u.Nil(types.Universe.Lookup("error").Type())))
		}
		if !m.known(c.Args[1]) {
			return nil, false
		}
		key := "built." + c.Args[0].String()
		var cur []*Val
		if v := st.TS[key]; v != nil {
			cur = v.Args
		}
		st.TS[key] = u.List(append(append([]*Val(nil), cur...), c.Args[1])...)
		return ret(u.Tuple(u.Int(1), u.Nil(types.Universe.Lookup("error").Type())))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		outs, ok := m.lit.hook(x, st, c)
		for i, o := range outs {
			outs[i].Val = m.textVal(flat(o.Val))
		}
		return outs, ok
	}
	return m.lit.hook(x, st, c)
}

// splitPercent goes on separately with the character being a percent sign.
func (m *genModel) splitPercent(x *Exec, st *State, c *absint.CallInfo, v *Val) ([]absint.Out, bool) {
	n := st.Clone()
	var outs []absint.Out
	if x.Assume(n, x.EqVal(v, m.u.Int('%')), true) {
		outs = append(outs, absint.Out{St: n, Val: m.u.FreshTok("misformatted", types.Typ[types.String])})
	}
	if x.Assume(st, x.EqVal(v, m.u.Int('%')), false) {
		o, ok := m.hook(x, st, c)
		if !ok {
			return nil, false
		}
		outs = append(outs, o...)
	}
	return outs, true
}

func (m *genModel) known(v *Val) bool {
	for _, s := range m.syms {
		if s == v {
			return true
		}
	}
	return false
}

// mark is the character that stands for v in the text.
func (m *genModel) mark(v *Val) int {
	for i, s := range m.syms {
		if s == v {
			return symBase + i
		}
	}
	return -1
}

// rune decodes the first character.
func (m *genModel) rune(s []*Val) (*Val, int) {
	var b []byte
	for _, v := range s {
		k, ok := v.IntConst()
		if !ok {
			break
		}
		b = append(b, byte(k))
	}
	if len(b) == 0 {
		return s[0], 1
	}
	r, n := utf8.DecodeRune(b)
	return m.u.Int(int64(r)), n
}

func (m *genModel) quote(s []*Val, ascii bool) []*Val {
	out := m.lit.lit(`"`)
	for len(s) > 0 {
		if _, ok := s[0].IntConst(); !ok {
			out = append(out, s[0])
			s = s[1:]
			continue
		}
		_, n := m.rune(s)
		var b []byte
		for _, v := range s[:n] {
			k, _ := v.IntConst()
			b = append(b, byte(k))
		}
		q := strconv.Quote(string(b))
		if ascii {
			q = strconv.QuoteToASCII(string(b))
		}
		out = append(out, m.lit.lit(q[1:len(q)-1])...)
		s = s[n:]
	}
	return append(out, m.lit.lit(`"`)...)
}

// replace does what a replacer does; pairs are texts and their replacements.
func (m *genModel) replace(x *Exec, st *State, s []*Val, pairs []*Val) ([]absint.Out, bool) {
	var out []*Val
	for i := 0; i < len(s); {
		hit := false
		for j := 0; j < len(pairs) && !hit; j += 2 {
			old := m.lit.flat(x, st, pairs[j])
			if len(old) == 0 {
				return nil, false
			}
			if i+len(old) > len(s) {
				continue
			}
			same := true
			for k := range old {
				eq, known := m.lit.same(x, st, s[i+k], old[k])
				if !known {
					// both ways
					n := st.Clone()
					var outs []absint.Out
					for _, w := range []struct {
						st *State
						b  bool
					}{{n, true}, {st, false}} {
						if x.Assume(w.st, x.EqVal(s[i+k], old[k]), w.b) {
							o, ok := m.replace(x, w.st, s, pairs)
							if !ok {
								return nil, false
							}
							outs = append(outs, o...)
						}
					}
					return outs, true
				}
				same = same && eq
			}
			if same {
				out = append(out, m.lit.flat(x, st, pairs[j+1])...)
				i += len(old)
				hit = true
			}
		}
		if !hit {
			out = append(out, s[i])
			i++
		}
	}
	return []absint.Out{{St: st, Val: m.textVal(out)}}, true
}

// decimal writes a number; an unknown one is written as a mark of its own.
func (m *genModel) decimal(st *State, v *Val) []*Val {
	if k, ok := v.IntConst(); ok {
		return m.lit.lit(strconv.FormatInt(k, 10))
	}
	for i, s := range m.syms {
		if s == v {
			return m.lit.lit(strconv.Itoa(numBase + i))
		}
	}
	m.syms = append(m.syms, v)
	return m.lit.lit(strconv.Itoa(numBase + len(m.syms) - 1))
}

const numBase = 770000000

func (m *genModel) sprintf(x *Exec, st *State, f string, args []*Val) ([]*Val, bool) {
	var out []*Val
	put := func(s string) {
		for _, r := range s {
			if r >= symBase && int(r) < symBase+len(m.syms) {
				out = append(out, m.syms[int(r)-symBase])
			} else {
				out = append(out, m.lit.lit(string(r))...)
			}
		}
	}
	next := 0
	last := 0
	for _, loc := range verbRE.FindAllStringSubmatchIndex(f, -1) {
		put(f[last:loc[0]])
		last = loc[1]
		verb := f[loc[4]:loc[5]]
		if verb == "%" {
			put("%")
			continue
		}
		if loc[2] >= 0 {
			k, _ := strconv.Atoi(f[loc[2]+1 : loc[3]-1])
			next = k - 1
		}
		if next >= len(args) {
			return nil, false
		}
		a := args[next]
		next++
		t := a.Typ
		if a.Op == absint.OIface {
			t = a.Typ
			a = a.Args[0]
		}
		if t == nil {
			return nil, false
		}
		b, isBasic := t.Underlying().(*types.Basic)
		if !isBasic {
			return nil, false
		}
		if ms := types.NewMethodSet(t); (verb == "s" || verb == "v" || verb == "q") && (ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil) {
			fn := m.c.P.TypeMethod(t, "String")
			if fn == nil {
				return nil, false
			}
			v, ok := m.plainString(x, st, fn, a)
			if !ok {
				return nil, false
			}
			a = v
			b = types.Typ[types.String]
		}
		switch {
		case (verb == "s" || verb == "v") && b.Info()&types.IsString != 0:
			out = append(out, m.lit.flat(x, st, a)...)
		case verb == "q" && b.Info()&types.IsString != 0:
			out = append(out, m.quote(m.lit.flat(x, st, a), false)...)
		case (verb == "d" || verb == "v") && b.Info()&types.IsInteger != 0:
			out = append(out, m.decimal(st, a)...)
		case (verb == "t" || verb == "v") && b.Info()&types.IsBoolean != 0:
			k, known := x.Decide(st, a)
			if !known {
				return nil, false
			}
			put(strconv.FormatBool(k))
		default:
			return nil, false
		}
	}
	if strings.Contains(verbRE.ReplaceAllString(f[last:], ""), "%") {
		return nil, false
	}
	put(f[last:])
	return out, true
}

// plainString follows a String method that only returns the text itself.
func (m *genModel) plainString(x *Exec, st *State, fn *ssa.Function, a *Val) (*Val, bool) {
	if len(fn.Blocks) != 1 {
		return nil, false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.ChangeType, *ssa.Convert, *ssa.DebugRef:
		case *ssa.Return:
			v := in.Results[0]
			for {
				switch w := v.(type) {
				case *ssa.ChangeType:
					v = w.X
					continue
				case *ssa.Convert:
					v = w.X
					continue
				}
				break
			}
			return a, v == fn.Params[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

// ---- reading the text back

type badText string

func (m *genModel) read(text []*Val) (g *gt, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badText)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", string(b))
		}
	}()
	var b []byte
	for _, v := range text {
		if k, ok := v.IntConst(); ok {
			b = append(b, byte(k))
			continue
		}
		k := m.mark(v)
		if k < 0 {
			return nil, fmt.Errorf("the text has an unknown part: %s", show(v))
		}
		b = append(b, []byte(string(rune(k)))...)
	}
	src := "package p\nimport \"" + load.Mod + "/parser\"\nvar _ = " + string(b) + "\n"
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, 0)
	if err != nil {
		return nil, fmt.Errorf("the text is not Go: %v", err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	pp := m.c.P.SSA["parser"].Pkg
	var terr error
	conf := types.Config{Importer: oneImporter{pp}, Error: func(e error) {
		if terr == nil {
			terr = e
		}
	}}
	_, _ = conf.Check("p", fset, []*ast.File{f}, info)
	if terr != nil {
		return nil, fmt.Errorf("the text does not compile: %v", terr)
	}
	spec := f.Decls[len(f.Decls)-1].(*ast.GenDecl).Specs[0].(*ast.ValueSpec)
	r := &genReader{m: m, info: info}
	return r.expr(spec.Values[0]), nil
}

type oneImporter struct{ p *types.Package }

func (i oneImporter) Import(path string) (*types.Package, error) {
	if path == i.p.Path() {
		return i.p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

type genReader struct {
	m    *genModel
	info *types.Info
}

func (r *genReader) expr(e ast.Expr) *gt {
	m := r.m
	tv := r.info.Types[e]
	t := tv.Type
	if tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.String:
			g := &gt{typ: t, isStr: true}
			for s := constant.StringVal(tv.Value); s != ""; {
				c, n := utf8.DecodeRuneInString(s)
				if c >= symBase && int(c) < symBase+len(m.syms) {
					g.str = append(g.str, m.syms[int(c)-symBase])
				} else {
					g.str = append(g.str, m.lit.lit(s[:n])...)
				}
				s = s[n:]
			}
			return g
		case constant.Int:
			k, _ := constant.Int64Val(tv.Value)
			if k >= numBase && k < numBase+int64(len(m.syms)) {
				return &gt{typ: t, num: m.syms[k-numBase]}
			}
			return &gt{typ: t, num: m.u.Int(k)}
		case constant.Bool:
			return &gt{typ: t, num: m.u.Bool(constant.BoolVal(tv.Value))}
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.expr(e.X)
	case *ast.Ident:
		if tv.IsNil() {
			return nil
		}
	case *ast.CompositeLit:
		switch ut := t.Underlying().(type) {
		case *types.Struct:
			g := &gt{typ: t, fields: map[string]*gt{}}
			for i, el := range e.Elts {
				name := ut.Field(i).Name()
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					name, el = kv.Key.(*ast.Ident).Name, kv.Value
				}
				g.fields[name] = r.expr(el)
			}
			return g
		case *types.Slice:
			g := &gt{typ: t}
			for _, el := range e.Elts {
				if _, ok := el.(*ast.KeyValueExpr); ok {
					panic(badText("an element with an index"))
				}
				g.elems = append(g.elems, r.expr(el))
			}
			return g
		case *types.Map:
			g := &gt{typ: t, rules: map[string]*gt{}}
			for _, el := range e.Elts {
				kv := el.(*ast.KeyValueExpr)
				k, ok := m.textVal(r.expr(kv.Key).str).StrConst()
				if !ok {
					panic(badText("a rule with an unknown name"))
				}
				if g.rules[k] != nil {
					panic(badText("rule " + k + " is there twice"))
				}
				g.rules[k] = r.expr(kv.Value)
			}
			return g
		}
	case *ast.CallExpr:
		if r.info.Types[e.Fun].IsType() {
			g := *r.expr(e.Args[0])
			g.typ = t
			return &g
		}
		var id *ast.Ident
		switch f := e.Fun.(type) {
		case *ast.SelectorExpr:
			id = f.Sel
		case *ast.Ident:
			id = f
		}
		if id == nil {
			break
		}
		fo, ok := r.info.Uses[id].(*types.Func)
		if !ok {
			break
		}
		fn := m.c.P.Func("parser", fo.Name())
		if fn == nil || fo.Type().(*types.Signature).Recv() != nil {
			break
		}
		return r.call(fn, e.Args)
	}
	panic(badText(fmt.Sprintf("an expression that is not understood: %T", e)))
}

// call evaluates a constructor.
func (r *genReader) call(fn *ssa.Function, args []ast.Expr) *gt {
	m := r.m
	x := m.c.Exec()
	given := map[*Val]*gt{}
	var vs []*Val
	for i, a := range args {
		g := r.expr(a)
		v := x.U.Sym(fmt.Sprintf("arg%d", i), fn.Params[i].Type())
		given[v] = g
		vs = append(vs, v)
	}
	outs := x.Run(fn, vs, absint.NewState())
	if len(outs) != 1 || outs[0].Panic != nil || len(outs[0].Res) != 1 {
		panic(badText("no single result of " + fn.Name()))
	}
	v := x.Reify(outs[0].St, outs[0].Res[0])
	var conv func(v *Val, t types.Type) *gt
	conv = func(v *Val, t types.Type) *gt {
		if g, ok := given[v]; ok {
			return g
		}
		if v.Op == absint.OIface {
			return conv(v.Args[0], v.Typ)
		}
		if v.IsNil() {
			return nil
		}
		if s, ok := v.StrConst(); ok {
			return &gt{typ: t, isStr: true, str: m.lit.lit(s)}
		}
		if k, ok := v.IntConst(); ok {
			return &gt{typ: t, num: m.u.Int(k)}
		}
		if v.Op == absint.OConst {
			return &gt{typ: t, num: m.u.Const(v.C)}
		}
		if s := fieldsOf(t); s != nil && v.Op == absint.OStruct {
			g := &gt{typ: t, fields: map[string]*gt{}}
			for i, f := range v.Args {
				if c := conv(f, s.Field(i).Type()); c != nil {
					g.fields[s.Field(i).Name()] = c
				}
			}
			return g
		}
		panic(badText("the result of " + fn.Name() + " is not understood: " + show(v)))
	}
	return conv(v, fn.Signature.Results().At(0).Type())
}

// ---- obligations

func (c *Ctx) Gen() {
	type job struct {
		name string
		mk   func(m *genModel) *gt
	}
	var jobs []job
	add := func(name string, mk func(m *genModel) *gt) { jobs = append(jobs, job{name, mk}) }
	one := func(name string, mk func(m *genModel) *gt) {
		add(name, func(m *genModel) *gt { return m.grammar("a", mk(m)) })
	}
	c.genCases(one, add)
	c.parallel(len(jobs), func(i int, sub *Ctx) {
		m := sub.genModel()
		m.check("C11.denotes", jobs[i].name, jobs[i].mk(m))
	})
	c.genTemplate()
}

func (m *genModel) check(rule, name string, g *gt) {
	x, u := m.x, m.u
	st := absint.NewState()
	m.plain(st)
	m.facts(st, g)
	want := m.flatten(g)
	good := 0
	for _, o := range x.Run(m.root, []*Val{m.val(st, g, g.typ)}, st) {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, rule, "generating code for %s panics", m.shown(o.St, g))
			continue
		}
		for _, s := range x.Run(m.text, []*Val{o.Res[0]}, o.St.Clone()) {
			if s.Panic != nil {
				x.Report(s.St, s.Pos, rule, "writing the code for %s panics", m.shown(s.St, g))
				continue
			}
			got, err := m.read(m.lit.flat(x, s.St, s.Res[0]))
			if err != nil {
				x.Report(s.St, m.root.Pos(), rule, "the code for %s: %v", m.shown(s.St, g), err)
				continue
			}
			a, b := m.shown(s.St, m.flatten(got)), m.shown(s.St, want)
			if a != b {
				x.Report(s.St, m.root.Pos(), rule, "the code for %s denotes %s", b, a)
				continue
			}
			good++
		}
	}
	_ = u
	m.c.Done(x, rule, name, m.root)
	m.c.Check(rule, name, good > 0, m.root.Pos(), "no code is generated for %s", m.shown(st, g))
}

// facts: unknown bounds of repetitions are not negative.
func (m *genModel) facts(st *State, g *gt) {
	if g == nil {
		return
	}
	if g.num != nil && g.num.Op == absint.OSym {
		m.x.Assume(st, m.u.Le(m.u.Int(0), g.num), true)
	}
	for _, f := range g.fields {
		m.facts(st, f)
	}
	for _, f := range g.elems {
		m.facts(st, f)
	}
	for _, f := range g.rules {
		m.facts(st, f)
	}
}

func (c *Ctx) genCases(one, add func(string, func(*genModel) *gt)) {
	S := func(m *genModel) *gt { return m.str("S", 2) }
	sym := func(m *genModel, n string) *Val { return m.u.Sym(n, types.Typ[types.Int]) }
	// terms by kind, with the given children
	type form struct {
		name string
		n    int
		mk   func(m *genModel, kids ...*gt) *gt
	}
	rng := func(lo, hi int) func(m *genModel, k ...*gt) *gt {
		return func(m *genModel, k ...*gt) *gt { return m.obj("Quant", "Term", k[0], "Min", lo, "Max", hi) }
	}
	forms := []form{
		{"sequence of 2", 2, func(m *genModel, k ...*gt) *gt { return m.list("Seq", k...) }},
		{"choice of 2", 2, func(m *genModel, k ...*gt) *gt { return m.list("Oneof", k...) }},
		{"any number", 1, rng(0, 0)},
		{"at least one", 1, rng(1, 0)},
		{"optional", 1, rng(0, 1)},
		{"repetition with bounds", 1, func(m *genModel, k ...*gt) *gt {
			return m.obj("Quant", "Term", k[0], "Min", sym(m, "min"), "Max", sym(m, "max"))
		}},
		{"named", 1, func(m *genModel, k ...*gt) *gt { return m.obj("Named", "Name", m.raw(3), "Term", k[0]) }},
		{"lookahead", 1, func(m *genModel, k ...*gt) *gt { return m.obj("LookAhead", "Term", k[0]) }},
		{"cut point", 1, func(m *genModel, k ...*gt) *gt { return m.obj("CutPoint", "Term", k[0]) }},
		{"scoped grammar", 2, func(m *genModel, k ...*gt) *gt {
			return m.obj("ScopedGrammar", "Term", k[0], "Grammar", m.grammar("b", k[1], "a", m.str("RE", 2)))
		}},
		{"reference with a default", 1, func(m *genModel, k ...*gt) *gt { return m.obj("REF", "Ident", m.raw(2), "Default", k[0]) }},
	}
	for _, as := range []int{-1, 0, 1} {
		for f := 0; f < 4; f++ {
			as, f := as, f
			forms = append(forms, form{fmt.Sprintf("delimited, associativity %d, flags %d", as, f), 2, func(m *genModel, k ...*gt) *gt {
				return m.obj("Delim", "Term", k[0], "Sep", k[1], "Assoc", as, "CanStartWithSep", f&1 != 0, "CanEndWithSep", f&2 != 0)
			}})
		}
	}
	leaves := []form{
		{"literal", 0, func(m *genModel, k ...*gt) *gt { return S(m) }},
		{"pattern", 0, func(m *genModel, k ...*gt) *gt { return m.str("RE", 3) }},
		{"rule", 0, func(m *genModel, k ...*gt) *gt { return m.str("Rule", 2) }},
		{"reference", 0, func(m *genModel, k ...*gt) *gt { return m.obj("REF", "Ident", m.raw(2)) }},
		{"external", 0, func(m *genModel, k ...*gt) *gt { return m.str("ExtRef", 2) }},
		{"empty sequence", 0, func(m *genModel, k ...*gt) *gt { return m.list("Seq") }},
		{"empty choice", 0, func(m *genModel, k ...*gt) *gt { return m.list("Oneof") }},
		{"sequence of 1", 0, func(m *genModel, k ...*gt) *gt { return m.list("Seq", S(m)) }},
		{"sequence of 4", 0, func(m *genModel, k ...*gt) *gt { return m.list("Seq", S(m), S(m), S(m), S(m)) }},
		{"choice of 3", 0, func(m *genModel, k ...*gt) *gt { return m.list("Oneof", S(m), m.str("RE", 1), S(m)) }},
	}
	for _, f := range leaves {
		one(f.name, func(m *genModel) *gt { return f.mk(m) })
	}
	full := func(m *genModel, f form) *gt {
		var ks []*gt
		for i := 0; i < f.n; i++ {
			ks = append(ks, S(m))
		}
		return f.mk(m, ks...)
	}
	for _, f := range forms {
		one(f.name, func(m *genModel) *gt { return full(m, f) })
		for at := 0; at < f.n; at++ {
			for _, k := range append(append([]form(nil), forms...), leaves[1:]...) {
				if strings.HasPrefix(k.name, "delimited") && k.name != "delimited, associativity 1, flags 2" {
					continue
				}
				if strings.HasPrefix(f.name, "delimited") && !strings.HasSuffix(f.name, "flags 0") {
					continue
				}
				one(fmt.Sprintf("%s in part %d of %s", k.name, at+1, f.name), func(m *genModel) *gt {
					var ks []*gt
					for i := 0; i < f.n; i++ {
						if i == at {
							ks = append(ks, full(m, k))
						} else {
							ks = append(ks, S(m))
						}
					}
					return f.mk(m, ks...)
				})
			}
		}
	}
	// texts
	for _, s := range []struct {
		n string
		p []any
	}{
		{"empty", nil}, {"backquote", []any{"`"}}, {"carriage return", []any{"\r"}}, {"newline", []any{"\n"}}, {"quote", []any{`"`}},
		{"backslash", []any{`\`}}, {"backslash at the end", []any{1, `\`}}, {"escape", []any{`\n`}}, {"percent", []any{"%s%d%%"}}, {"null", []any{"\x00"}}, {"byte order mark", []any{"\ufeff"}},
		{"invalid", []any{"\xff"}}, {"cut short", []any{"\xe2\x82"}}, {"wide", []any{"é世😀"}}, {"replacement", []any{"\ufffd"}}, {"tab", []any{"\t"}}, {"braces", []any{"{{.x}},"}},
		{"backquotes", []any{"``"}}, {"backquote within", []any{1, "`", 1}}, {"backquote ends", []any{"`", 2, "`"}}, {"returns", []any{"\r\n", 1, "\r\r`\r"}},
		{"mixed", []any{1, "\x00`", 1, "\xff\"", "é\r", 1, `\`, 1}}, {"spaces", []any{"  ", 1, "   \t "}}, {"at sign", []any{"@"}}, {"at sign within", []any{1, "@", 1}}, {"long", []any{20}},
	} {
		for _, k := range []string{"S", "RE"} {
			one(k+" of "+s.n, func(m *genModel) *gt { return m.str(k, s.p...) })
		}
		one("default of "+s.n, func(m *genModel) *gt {
			return m.obj("REF", "Ident", m.raw(1), "Default", m.str("S", s.p...))
		})
	}
	// grammars
	rule := func(m *genModel, n string) *gt { return m.str("Rule", n) }
	add("no rules", func(m *genModel) *gt { return m.grammar() })
	add("rules", func(m *genModel) *gt {
		return m.grammar("b", S(m), "a", m.list("Seq", rule(m, "b"), S(m)), ".wrapRE", m.str("RE", 2), "Zz", S(m))
	})
	add("rules in another order", func(m *genModel) *gt {
		return m.grammar("Zz", S(m), ".wrapRE", m.str("RE", 2), "a", m.list("Seq", rule(m, "b"), S(m)), "b", S(m), "c.d", S(m))
	})
	for _, n := range []int{2, 3, 12} {
		for _, rev := range []bool{false, true} {
			add(fmt.Sprintf("stack of %d, reversed %v", n, rev), func(m *genModel) *gt {
				var kv []any
				kv = append(kv, "z", rule(m, "expr"))
				for i := 0; i < n; i++ {
					name := func(i int) string {
						if i%n == 0 {
							return "expr"
						}
						return fmt.Sprintf("expr@%d", i)
					}
					t := m.list("Seq", rule(m, name(i+1)), S(m), m.obj("Quant", "Term", rule(m, name(i+1)), "Min", 0, "Max", 0))
					if i == n-1 {
						t = m.list("Oneof", S(m), rule(m, "expr"), rule(m, "exprs"))
					}
					kv = append(kv, name(i), t)
				}
				kv = append(kv, "exprs", S(m), "b", S(m))
				if rev {
					for i, j := 0, len(kv)-2; i < j; i, j = i+2, j-2 {
						kv[i], kv[j], kv[i+1], kv[j+1] = kv[j], kv[i], kv[j+1], kv[i+1]
					}
				}
				return m.grammar(kv...)
			})
		}
	}
	add("two stacks", func(m *genModel) *gt {
		return m.grammar(
			"s@1", m.list("Oneof", rule(m, "s"), S(m)), "t", m.list("Seq", rule(m, "t@1"), rule(m, "s")), "s", m.list("Seq", rule(m, "s@1"), S(m)), "t@1", m.list("Seq", rule(m, "t@2"), S(m)), "t@2", S(m))
	})
	add("stack in a scoped grammar", func(m *genModel) *gt {
		stack := m.list("Stack", m.list("Seq", rule(m, "@"), S(m)), m.obj("Delim", "Term", rule(m, "@"), "Sep", S(m), "Assoc", 1), m.list("Oneof", S(m), rule(m, "@"), rule(m, "s")))
		return m.grammar("a", m.obj("ScopedGrammar", "Term", rule(m, "s"), "Grammar", m.grammar("s", stack, "c", S(m))), "b", S(m))
	})
	add("scoped grammars in one another", func(m *genModel) *gt {
		in := m.obj("ScopedGrammar", "Term", rule(m, "y"), "Grammar", m.grammar("y", S(m)))
		return m.grammar("a", m.obj("ScopedGrammar", "Term", m.list("Seq", rule(m, "x"), S(m)), "Grammar", m.grammar("x", in, "w", m.str("RE", 1))), "b", S(m))
	})
}

// genTemplate: the literal is put into the file as it is.
func (c *Ctx) genTemplate() {
	const rule = "C11.template"
	found := 0
	for _, f := range c.allFuncs() {
		if f.Pkg == nil || f.Pkg != c.P.SSA["cmd/codegen"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().RelString(nil) != "(*text/template.Template).Parse" {
					continue
				}
				k, ok := call.Call.Args[1].(*ssa.Const)
				if !ok || k.Value == nil || !strings.Contains(constant.StringVal(k.Value), ".Grammar") {
					continue
				}
				found++
				c.template(rule, f, call.Pos(), constant.StringVal(k.Value))
			}
		}
	}
	c.Check(rule, "template", found > 0, token.NoPos, "no template that holds the grammar was found")
}

func (c *Ctx) template(rule string, f *ssa.Function, pos token.Pos, text string) {
	trees, err := tparse.Parse("t", text, "", "")
	if err != nil {
		// functions of the template package
		c.Check(rule, f.Name(), false, pos, "the template is not understood: %v", err)
		return
	}
	var sb strings.Builder
	n := 0
	for _, t := range trees["t"].Root.Nodes {
		switch t := t.(type) {
		case *tparse.TextNode:
			sb.Write(t.Text)
		case *tparse.ActionNode:
			switch t.Pipe.String() {
			case ".Grammar":
				sb.WriteString("theGrammar")
				n++
			case ".CommandLine":
				sb.WriteString("command")
			default:
				sb.WriteString("Name")
			}
		}
	}
	file, err := parser.ParseFile(token.NewFileSet(), "t.go", sb.String(), 0)
	if err != nil {
		c.Check(rule, f.Name(), false, pos, "the template does not make a Go file: %v", err)
		return
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "Grammar" || fd.Recv != nil {
			continue
		}
		good := false
		if fd.Body != nil && len(fd.Body.List) == 1 {
			if r, ok := fd.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
				good = types.ExprString(r.Results[0]) == "theGrammar.Compile(nil)"
			}
		}
		c.Check(rule, f.Name(), good && n == 1, pos, "the function Grammar of the template does not just compile the literal")
		return
	}
	c.Check(rule, f.Name(), false, pos, "the template has no function Grammar")
}

func init() {
	register(&Prop{ID: "C11", Run: func(c *Ctx) { c.Gen() }, Groups: []string{"C11."}, Technique: absTechnique, MinObl: 540, Covers: "The generator and the String method of its result are evaluated on the SSA form on grammars with symbolic texts, names and bounds: every kind of term, every kind in every part of every other, lists of up to 4 parts, all associativities and separator flags of lists, repetitions with unknown bounds, texts with every character that quoting has to mind (backquotes, carriage returns, nulls, byte order marks, bytes that are not UTF-8, percent signs), grammars with rules in different orders, stacks of 2, 3 and 12 levels in both orders, stacks in scoped grammars and scoped grammars in one another. The text obtained is parsed and type-checked as Go against package parser, constructors that it calls are evaluated on their SSA form, and the value it denotes is compared with the grammar given, both with stacks expanded as compilation does; unknown characters and numbers have to come through as they are. The template has to return the literal compiled and nothing else."})
}
