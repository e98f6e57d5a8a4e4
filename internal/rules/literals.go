package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// litModel evaluates the decoder of string literals on texts of known length
// whose bytes are symbols wherever their value does not matter.
type litModel struct {
	c    *Ctx
	x    *Exec
	u    *absint.Universe
	fn   *ssa.Function
	bits map[*Val]int // numbers known to fit so many bits
	n    int
	bad  bool
}

// litPart is a piece of a literal.
type litPart struct {
	name string
	src  []*Val // the bytes as written
	out  []*Val // what they stand for: bytes, or characters wrapped in "rune"
}

func (m *litModel) lit(s string) []*Val {
	var out []*Val
	for i := 0; i < len(s); i++ {
		out = append(out, m.u.Int(int64(s[i])))
	}
	return out
}

func (m *litModel) sym(what string) *Val {
	m.n++
	v := m.u.Sym(fmt.Sprintf("%s%d", what, m.n), types.Typ[types.Uint8])
	m.bits[v] = 8
	return v
}

func (m *litModel) number(base int64, digits []*Val) *Val {
	v := m.u.Call("number", 0, nil, append([]*Val{m.u.Int(base)}, digits...)...)
	if m.bits[v] == 0 {
		n := 4 * len(digits)
		switch {
		case base == 8:
			n = 8 // larger ones are not escapes
		case n == 32:
			n = 21 // as are those beyond the last character
		}
		m.bits[v] = n
	}
	return v
}

// parts are the pieces of a quoted literal.
func (m *litModel) parts(quote byte) []litPart {
	u := m.u
	var out []litPart
	plain := m.sym("char")
	out = append(out, litPart{"a character", []*Val{plain}, []*Val{plain}})
	simple := "a\ab\bf\fn\nr\rt\tv\v\\\\''"
	if quote == '"' {
		simple += `""`
	}
	for i := 0; i < len(simple); i += 2 {
		out = append(out, litPart{`\` + simple[i:i+1], m.lit(`\` + simple[i:i+1]), m.lit(simple[i+1 : i+2])})
	}
	digits := func(n int) []*Val {
		var ds []*Val
		for i := 0; i < n; i++ {
			ds = append(ds, m.sym("digit"))
		}
		return ds
	}
	add := func(name string, base int64, lead string, ds []*Val, char bool) {
		v := m.number(base, ds)
		if char {
			v = u.Call("rune", 0, nil, v)
		}
		out = append(out, litPart{name, append(m.lit(lead), ds...), []*Val{v}})
	}
	add(`\x`, 16, `\x`, digits(2), false)
	add(`\u`, 16, `\u`, digits(4), true)
	add(`\U`, 16, `\U`, digits(8), true)
	for _, d := range "0123" {
		add(`\`+string(d), 8, `\`, append(m.lit(string(d)), digits(2)...), false)
	}
	return out
}

func isRuneByte(v *Val) (int64, bool) {
	k, ok := v.IntConst()
	return k, ok && k >= 0 && k < utf8.RuneSelf
}

// narrow drops the conversions of a number that do not change it.
func (m *litModel) narrow(v *Val) *Val {
	if v.Op == absint.OConv && len(v.Args) == 1 {
		b, ok := v.Typ.Underlying().(*types.Basic)
		w := m.narrow(v.Args[0])
		if n := m.bits[w]; ok && n > 0 && b.Info()&types.IsInteger != 0 {
			room := map[types.BasicKind]int{types.Int8: 7, types.Uint8: 8, types.Int16: 15, types.Uint16: 16, types.Int32: 31, types.Uint32: 32}[b.Kind()]
			if room == 0 || n <= room {
				return w
			}
		}
	}
	return v
}

// char is the text of one character.
func (m *litModel) char(v *Val) *Val {
	v = m.narrow(v)
	if k, ok := v.IntConst(); ok {
		return m.u.Str(string(rune(k)))
	}
	return m.u.Call("rune", 0, types.Typ[types.String], v)
}

// flat is a text as bytes and characters.
func (m *litModel) flat(x *Exec, st *State, v *Val) []*Val {
	v = x.Reify(st, v)
	switch {
	case v.Op == absint.OList:
		var out []*Val
		for _, e := range v.Args {
			if e.Op == absint.OCall && e.Aux == "rune" {
				out = append(out, e)
				continue
			}
			out = append(out, m.narrow(e))
		}
		return out
	case v.Op == absint.OCall && v.Aux == "rune":
		return []*Val{m.u.Call("rune", 0, nil, v.Args[0])}
	case v.Op == absint.OCall && v.Aux == "concat":
		var out []*Val
		for _, p := range v.Args {
			out = append(out, m.flat(x, st, p)...)
		}
		return out
	case v.Op == absint.OConv && v.Args[0].Op != absint.OList && isText(v.Typ):
		a := v.Args[0]
		if isText(a.Typ) || a.Op == absint.OConst && a.C == nil || a.Op == absint.OAppend || a.Op == absint.OMake || a.Op == absint.OSlice {
			return m.flat(x, st, a)
		}
		return m.flat(x, st, m.char(a))
	case v.Op == absint.OConv:
		return m.flat(x, st, v.Args[0])
	case v.Op == absint.OAppend:
		return append(m.flat(x, st, v.Args[0]), m.flat(x, st, v.Args[1])...)
	}
	if s, ok := v.StrConst(); ok {
		return m.lit(s)
	}
	if m.x.U.Nil(nil) == v {
		return nil
	}
	return []*Val{v}
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// same: whether two bytes are equal; unknown ones differ from every constant
// only where that was assumed.
func (m *litModel) same(x *Exec, st *State, a, b *Val) (bool, bool) {
	if a == b {
		return true, true
	}
	return x.Decide(st, x.EqVal(a, b))
}

// find gives the places where pat occurs, from the left without overlap.
func (m *litModel) find(x *Exec, st *State, s, pat []*Val) ([]int, bool) {
	var at []int
	for i := 0; i+len(pat) <= len(s); {
		hit := true
		for j := range pat {
			eq, known := m.same(x, st, s[i+j], pat[j])
			if !known {
				// a later difference settles it
				settled := false
				for k := j + 1; k < len(pat); k++ {
					if e, kn := m.same(x, st, s[i+k], pat[k]); kn && !e {
						settled = true
					}
				}
				if !settled {
					return nil, false
				}
				eq = false
			}
			if !eq {
				hit = false
				break
			}
		}
		if hit {
			at = append(at, i)
			i += max(len(pat), 1)
		} else {
			i++
		}
	}
	return at, true
}

func (m *litModel) hook(x *Exec, st *State, c *absint.CallInfo) ([]absint.Out, bool) {
	u := m.u
	if c.Fn == nil {
		return nil, false
	}
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	name := c.Fn.RelString(nil)
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		op, ok := strings.CutPrefix(name, b)
		if !ok {
			continue
		}
		key := "built." + c.Args[0].String()
		var cur []*Val
		if v := st.TS[key]; v != nil {
			cur = v.Args
		}
		put := func(vs ...*Val) {
			st.TS[key] = u.List(append(append([]*Val(nil), cur...), vs...)...)
		}
		errT := types.Universe.Lookup("error").Type()
		switch op {
		case "WriteByte":
			put(m.narrow(c.Args[1]))
			return ret(u.Nil(errT))
		case "WriteRune":
			put(m.flat(x, st, m.char(c.Args[1]))...)
			return ret(u.Tuple(u.Int(1), u.Nil(errT)))
		case "WriteString", "Write":
			put(m.flat(x, st, c.Args[1])...)
			return ret(u.Tuple(u.Int(1), u.Nil(errT)))
		case "String", "Bytes":
			return ret(u.List(cur...))
		case "Grow":
			return ret(nil)
		case "Reset":
			delete(st.TS, key)
			return ret(nil)
		}
		return nil, false
	}
	switch name {
	case "strconv.ParseUint", "strconv.ParseInt":
		base, ok1 := c.Args[1].IntConst()
		size, ok2 := c.Args[2].IntConst()
		ds := m.flat(x, st, c.Args[0])
		if !ok1 || !ok2 || len(ds) == 0 {
			return nil, false
		}
		if size == 0 {
			size = 64
		}
		if name == "strconv.ParseInt" {
			size--
		}
		v := m.number(base, ds)
		if base != 8 && base != 16 {
			m.bits[v] = 64
		}
		good := absint.Out{St: st, Val: u.Tuple(v, u.Nil(nil))}
		if int64(m.bits[v]) <= size {
			return []absint.Out{good}, true
		}
		bad := st.Clone()
		e := u.Tok("range.err", types.Universe.Lookup("error").Type())
		x.Assume(bad, x.EqVal(e, u.Nil(nil)), false)
		return []absint.Out{good, {St: bad, Val: u.Tuple(u.Int(0), e)}}, true
	case "strings.ReplaceAll":
		s, a, b := m.flat(x, st, c.Args[0]), m.flat(x, st, c.Args[1]), m.flat(x, st, c.Args[2])
		at, ok := m.find(x, st, s, a)
		if !ok || len(a) == 0 {
			return nil, false
		}
		var out []*Val
		last := 0
		for _, i := range at {
			out = append(append(out, s[last:i]...), b...)
			last = i + len(a)
		}
		return ret(u.List(append(out, s[last:]...)...))
	case "strings.Index", "strings.Contains", "strings.IndexByte", "strings.IndexRune", "strings.HasPrefix", "strings.HasSuffix", "strings.Split":
		s := m.flat(x, st, c.Args[0])
		var a []*Val
		if strings.HasPrefix(name, "strings.Index") && name != "strings.Index" {
			k, ok := isRuneByte(c.Args[1])
			if !ok {
				return nil, false
			}
			a = []*Val{u.Int(k)}
		} else {
			a = m.flat(x, st, c.Args[1])
		}
		if len(a) == 0 {
			return nil, false
		}
		at, ok := m.find(x, st, s, a)
		if !ok {
			return nil, false
		}
		switch name {
		case "strings.Contains":
			return ret(u.Bool(len(at) > 0))
		case "strings.HasPrefix":
			return ret(u.Bool(len(at) > 0 && at[0] == 0))
		case "strings.HasSuffix":
			at, ok = m.find(x, st, s[max(0, len(s)-len(a)):], a)
			return []absint.Out{{St: st, Val: u.Bool(len(at) > 0)}}, ok
		case "strings.Split":
			var out []*Val
			last := 0
			for _, i := range at {
				out = append(out, u.List(s[last:i]...))
				last = i + len(a)
			}
			return ret(u.List(append(out, u.List(s[last:]...))...))
		}
		if len(at) == 0 {
			return ret(u.Int(-1))
		}
		return ret(u.Int(int64(at[0])))
	}
	return nil, false
}

// decode checks one literal.
func (m *litModel) decode(cons string, quote byte, parts []litPart) {
	const rule = "C21.decode"
	x := m.x
	st := absint.NewState()
	src := m.lit(string(quote))
	var want []*Val
	for _, p := range parts {
		src = append(src, p.src...)
		want = append(want, p.out...)
	}
	src = append(src, m.lit(string(quote))...)
	for _, b := range src {
		if _, ok := b.IntConst(); !ok {
			x.Assume(st, x.EqVal(b, m.u.Int('\\')), false)
			x.Assume(st, x.EqVal(b, m.u.Int(int64(quote))), false)
		}
	}
	good := 0
	for _, o := range x.Run(m.fn, []*Val{m.u.List(src...)}, st) {
		if o.Panic != nil {
			x.Report(o.St, o.Pos, rule, "decoding %s panics", cons)
			continue
		}
		got := m.flat(x, o.St, o.Res[0])
		if !sameVals(got, want) {
			x.Report(o.St, m.fn.Pos(), rule, "%s reads as %s instead of %s", cons, m.shown(got), m.shown(want))
			continue
		}
		good++
	}
	m.bad = good == 0
	m.c.Done(x, rule, cons, m.fn)
	m.c.Check(rule, cons, good > 0, m.fn.Pos(), "the decoder gives no result")
}

func sameVals(a, b []*Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *litModel) shown(vs []*Val) string {
	var out []string
	for _, v := range vs {
		if k, ok := v.IntConst(); ok {
			out = append(out, fmt.Sprintf("%q", rune(k)))
		} else {
			out = append(out, show(v))
		}
	}
	return strings.Join(out, " ")
}

// decoders are the functions that give literals their text.
func (c *Ctx) decoders() []*ssa.Function {
	strT := types.Typ[types.String]
	s := c.Named("parser", "S")
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || g.Blocks == nil || seen[g] || g.Signature.Params().Len() != 1 || g.Signature.Recv() != nil ||
					!types.Identical(g.Signature.Params().At(0).Type(), strT) || g.Signature.Results().Len() != 1 {
					continue
				}
				for _, r := range *call.Referrers() {
					if ct, ok := r.(*ssa.ChangeType); ok && types.Identical(ct.Type(), s) {
						seen[g] = true
					}
				}
				if types.Identical(g.Signature.Results().At(0).Type(), s) {
					seen[g] = true
				}
				if seen[g] {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (c *Ctx) newLit(fn *ssa.Function) *litModel {
	m := &litModel{c: c, x: c.Exec(), fn: fn, bits: map[*Val]int{}}
	m.u = m.x.U
	m.x.Hooks.Call = m.hook
	m.x.MaxSteps = 4000
	m.x.Unroll = 80
	m.x.UnrollSym = 80
	return m
}

// Literals decides C21.
func (c *Ctx) Literals() {
	fns := c.decoders()
	c.Check("C21.decode", "decoders", len(fns) > 0, token.NoPos, "no function that decodes string literals was found")
	for _, fn := range fns {
		for _, q := range []byte{'"', '\''} {
			name := "in double quotes: "
			if q == '\'' {
				name = "in single quotes: "
			}
			m := c.newLit(fn)
			m.decode(name+"nothing", q, nil)
			if m.bad {
				return
			}
			ps := m.parts(q)
			for _, p := range ps {
				m.decode(name+p.name, q, []litPart{p})
				if m.bad {
					return // already the simplest literals are not decoded
				}
			}
			// every piece next to every other
			for _, a := range ps {
				for _, b := range m.parts(q) {
					m.decode(name+a.name+" then "+b.name, q, []litPart{a, b})
				}
			}
			var all []litPart
			all = append(all, ps...)
			more := m.parts(q)
			for i := range more {
				all = append(all, more[len(more)-1-i])
			}
			m.decode(name+"everything", q, all)
		}
		m := c.newLit(fn)
		tick := litPart{"``", m.lit("``"), m.lit("`")}
		back := litPart{`\`, m.lit(`\`), m.lit(`\`)}
		esc := litPart{`\n`, m.lit(`\n`), m.lit(`\n`)}
		char := func() litPart {
			v := m.sym("char")
			return litPart{"a character", []*Val{v}, []*Val{v}}
		}
		quot := litPart{`"`, m.lit(`"'`), m.lit(`"'`)}
		for _, l := range [][]litPart{{}, {char()}, {tick}, {tick, tick}, {char(), tick, char()}, {tick, char(), tick}, {back}, {char(), back, tick}, {tick, back},
			{esc, char()}, {quot, tick, quot}, {char(), char(), tick, tick, tick, char()}} {
			name := "in backquotes:"
			for _, p := range l {
				name += " " + p.name
			}
			m.decode(name, '`', l)
		}
	}
}

func init() {
	register(&Prop{ID: "C21", Run: func(c *Ctx) { c.Literals(); c.Build() }, Groups: []string{"C21.", "build.atom"}, Technique: absTechnique, MinObl: 660,
		Covers: "Each function whose result becomes a literal term is evaluated on the SSA form on literals of known length whose bytes are symbols (plain characters, digits) except where the escape's letter matters: in both kinds of quotes every piece (plain character, each simple escape, \\x, \\u, \\U, octal) alone, every piece next to every other, and all of them in a row; in backquotes the doubled backquote, backslashes, quotes and characters in different orders. The text returned is exactly the bytes and characters the pieces stand for: digits are handed to strconv.ParseUint as written, its range suffices for every valid escape, no conversion loses bits, bytes are written as bytes and characters as characters. Literals and defaults of back references get the text of their token decoded once (the same rules as C23). Malformed escapes are not judged."})
}
