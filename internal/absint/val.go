// Package absint is a disjunctive dataflow analysis over go/ssa: an abstract
// interpreter whose domain is value-numbered terms, linear-difference
// intervals, a memory abstraction and client-defined typestate. Loops are
// solved by widening to a fixpoint; nothing is executed.
package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst  Op = iota
	OSym       // an unknown value; Aux names it. Names containing '#' are generated tokens.
	OFresh     // like OSym but distinct from every other value
	OGlobal    // address of a package-level variable
	OAlloc     // address of an allocation
	OMake      // slice allocated with make; Args[0] = length
	OMap       // map allocated with make
	OField     // Args[0].Field(I)
	OIndex     // Args[0][Args[1]]
	OFieldAddr
	OIndexAddr
	OIface  // Typ = dynamic type, Args[0] = value
	OStruct // Typ = struct type, Args = fields
	OTuple
	OList
	OAppend // Args[0] ++ Args[1] (Args[1] an OList/OSlice/unknown list)
	OComp   // Args: base, template list (over OSym iota), iota sym, lo, hi : base ++ concat(template(i)) for lo<=i<hi
	OSlice  // Args: base (slice value or array address), lo, hi
	OLen
	OLin // sum Co[i]*Args[i] + K
	OBin // Aux operator
	ONot
	OCmp // Aux "==" : generic equality atom, args ordered
	OConv
	OCall    // uninterpreted result: Aux = callee key, I = result index
	OClosure // Fn, Args = bindings
	OFunc
	OIsType // Args[0] has (dynamic) type Typ / implements Typ
	OAs     // Args[0].(Typ)
	OInit   // initial contents of address Args[0]
	OLookup // Args[0][Args[1]] on a map; I=0 value, I=1 presence
	OLe0    // Args[0] (linear body) + K <= 0 : only used transiently
	OMethod // bound method value: Args[0] receiver, Aux method
)

type Val struct {
	Op   Op
	Typ  types.Type
	Args []*Val
	Aux  string
	C    constant.Value // nil for nil/zero constants
	Fn   *ssa.Function
	Meth *types.Func
	I    int
	K    int64
	Co   []int64
	id   int
	toks map[*Val]bool // generated tokens inside
	comp bool          // contains an OComp
}

type Universe struct {
	tab  map[string]*Val
	n    int
	typs map[types.Type]string
	tok  int
}

func NewUniverse() *Universe {
	return &Universe{tab: map[string]*Val{}, typs: map[types.Type]string{}}
}

func (u *Universe) TypeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := u.typs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	u.typs[t] = s
	return s
}

func (u *Universe) intern(v *Val) *Val {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(v.Op)))
	sb.WriteByte('|')
	switch v.Op {
	case OConst, OIface, OStruct, OIsType, OAs, OConv:
		sb.WriteString(u.TypeKey(v.Typ))
	}
	sb.WriteByte('|')
	sb.WriteString(v.Aux)
	sb.WriteByte('|')
	if v.C != nil {
		sb.WriteString(v.C.Kind().String())
		sb.WriteString(v.C.ExactString())
	}
	if v.Fn != nil {
		fmt.Fprintf(&sb, "f%p", v.Fn)
	}
	if v.Meth != nil {
		sb.WriteString(v.Meth.FullName())
	}
	fmt.Fprintf(&sb, "|%d|%d|", v.I, v.K)
	for _, c := range v.Co {
		fmt.Fprintf(&sb, "%d,", c)
	}
	sb.WriteByte('|')
	for _, a := range v.Args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	k := sb.String()
	if w, ok := u.tab[k]; ok {
		return w
	}
	u.n++
	v.id = u.n
	v.comp = v.Op == OComp
	for _, a := range v.Args {
		v.comp = v.comp || a.comp
		for t := range a.toks {
			if v.toks == nil {
				v.toks = map[*Val]bool{}
			}
			v.toks[t] = true
		}
	}
	if v.IsTok() {
		v.toks = map[*Val]bool{v: true}
		for _, a := range v.Args {
			for t := range a.toks {
				v.toks[t] = true
			}
		}
	}
	u.tab[k] = v
	return v
}

// IsTok reports whether v is a generated token (renamable).
func (v *Val) IsTok() bool {
	switch v.Op {
	case OSym, OFresh, OAlloc, OMake, OMap:
		return strings.Contains(v.Aux, "#")
	}
	return false
}

func (v *Val) Has(t *Val) bool { return v.toks[t] }

func (u *Universe) Sym(name string, t types.Type) *Val {
	return u.intern(&Val{Op: OSym, Aux: name, Typ: t})
}

// Tok makes a new unknown.
func (u *Universe) Tok(prefix string, t types.Type) *Val {
	u.tok++
	return u.intern(&Val{Op: OSym, Aux: fmt.Sprintf("%s#%d", prefix, u.tok), Typ: t})
}

func (u *Universe) FreshTok(prefix string, t types.Type) *Val {
	u.tok++
	return u.intern(&Val{Op: OFresh, Aux: fmt.Sprintf("%s#%d", prefix, u.tok), Typ: t})
}

func (u *Universe) AllocTok(op Op, prefix string, t types.Type, args ...*Val) *Val {
	u.tok++
	return u.intern(&Val{Op: op, Aux: fmt.Sprintf("%s#%d", prefix, u.tok), Typ: t, Args: args})
}

func (u *Universe) Nil(t types.Type) *Val { return u.intern(&Val{Op: OConst, Aux: "nil"}) }
func (u *Universe) Bool(b bool) *Val {
	return u.intern(&Val{Op: OConst, C: constant.MakeBool(b)})
}
func (u *Universe) Int(i int64) *Val {
	return u.intern(&Val{Op: OConst, C: constant.MakeInt64(i)})
}
func (u *Universe) Str(s string) *Val {
	return u.intern(&Val{Op: OConst, C: constant.MakeString(s)})
}
func (u *Universe) Const(c constant.Value) *Val { return u.intern(&Val{Op: OConst, C: c}) }

func (v *Val) IsNil() bool { return v.Op == OConst && v.C == nil && v.Aux == "nil" }
func (v *Val) IsTrue() bool {
	return v.Op == OConst && v.C != nil && v.C.Kind() == constant.Bool && constant.BoolVal(v.C)
}
func (v *Val) IsFalse() bool {
	return v.Op == OConst && v.C != nil && v.C.Kind() == constant.Bool && !constant.BoolVal(v.C)
}
func (v *Val) IntConst() (int64, bool) {
	if v.Op == OConst && v.C != nil && v.C.Kind() == constant.Int {
		i, ok := constant.Int64Val(v.C)
		return i, ok
	}
	return 0, false
}
func (v *Val) StrConst() (string, bool) {
	if v.Op == OConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

func (u *Universe) Iface(t types.Type, v *Val) *Val {
	return u.intern(&Val{Op: OIface, Typ: t, Args: []*Val{v}})
}
func (u *Universe) Struct(t types.Type, fs ...*Val) *Val {
	return u.intern(&Val{Op: OStruct, Typ: t, Args: fs})
}
func (u *Universe) Tuple(vs ...*Val) *Val { return u.intern(&Val{Op: OTuple, Args: vs}) }
func (u *Universe) List(vs ...*Val) *Val  { return u.intern(&Val{Op: OList, Args: vs}) }

func (u *Universe) Field(v *Val, i int, t types.Type) *Val {
	switch v.Op {
	case OStruct:
		if i < len(v.Args) {
			return v.Args[i]
		}
	case OConst:
		if v.Aux == "zero" || v.IsNil() {
			return u.Zero(t)
		}
	}
	return u.intern(&Val{Op: OField, I: i, Typ: t, Args: []*Val{v}})
}

func (u *Universe) FieldAddr(p *Val, i int, t types.Type) *Val {
	return u.intern(&Val{Op: OFieldAddr, I: i, Typ: t, Args: []*Val{p}})
}

func (u *Universe) IndexAddr(p, i *Val, t types.Type) *Val {
	if p.Op == OSlice {
		return u.IndexAddr(p.Args[0], u.Add(p.Args[1], i), t)
	}
	return u.intern(&Val{Op: OIndexAddr, Typ: t, Args: []*Val{p, i}})
}

func (u *Universe) Index(l, i *Val, t types.Type) *Val {
	switch l.Op {
	case OList:
		if k, ok := i.IntConst(); ok && k >= 0 && int(k) < len(l.Args) {
			return l.Args[k]
		}
	case OConst:
		if s, ok := l.StrConst(); ok {
			if k, ok := i.IntConst(); ok && k >= 0 && int(k) < len(s) {
				return u.Int(int64(s[k]))
			}
		}
	case OAppend:
		if n, ok := u.Len(l.Args[0]).IntConst(); ok {
			if k, ok := i.IntConst(); ok && k >= 0 {
				if k < n {
					return u.Index(l.Args[0], i, t)
				}
				return u.Index(l.Args[1], u.Int(k-n), t)
			}
		}
		if u.Sub(i, u.Len(l.Args[0])) == u.Int(0) && l.Args[1].Op == OList && len(l.Args[1].Args) > 0 {
			return l.Args[1].Args[0]
		}
		d := u.Sub(i, u.Len(l.Args[0]))
		if k, ok := d.IntConst(); ok && k >= 0 && l.Args[1].Op == OList && int(k) < len(l.Args[1].Args) {
			return l.Args[1].Args[k]
		}
	case OSlice:
		return u.Index(l.Args[0], u.Add(l.Args[1], i), t)
	case OComp:
		if b := l.Args[0]; b.Op == OList && len(b.Args) == 0 && l.Args[1].Op == OList && len(l.Args[1].Args) == 1 {
			return u.Subst(l.Args[1].Args[0], map[*Val]*Val{l.Args[2]: u.Add(l.Args[3], i)})
		}
	}
	return u.intern(&Val{Op: OIndex, Typ: t, Args: []*Val{l, i}})
}

func (u *Universe) Slice(b, lo, hi *Val) *Val {
	if b.Op == OSlice {
		return u.Slice(b.Args[0], u.Add(b.Args[1], lo), u.Add(b.Args[1], hi))
	}
	if lo == u.Int(0) && hi == u.Len(b) && b.Op != OAlloc && b.Op != OFieldAddr && b.Op != OIndexAddr {
		return b
	}
	if b.Op == OList {
		l, ok1 := lo.IntConst()
		h, ok2 := hi.IntConst()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(b.Args) {
			return u.List(b.Args[l:h]...)
		}
	}
	if b.IsNil() && lo == u.Int(0) && hi == u.Int(0) {
		return b
	}
	return u.intern(&Val{Op: OSlice, Args: []*Val{b, lo, hi}})
}

func (u *Universe) Append(l, e *Val) *Val {
	if e.IsNil() || e.Op == OList && len(e.Args) == 0 {
		return l
	}
	if l.IsNil() {
		l = u.List()
	}
	if e.Op == OList {
		if l.Op == OList {
			return u.List(append(append([]*Val{}, l.Args...), e.Args...)...)
		}
		if l.Op == OAppend && l.Args[1].Op == OList {
			return u.foldComp(u.intern(&Val{Op: OAppend, Args: []*Val{l.Args[0],
				u.List(append(append([]*Val{}, l.Args[1].Args...), e.Args...)...)}}))
		}
	}
	if l.Op == OList && len(l.Args) == 0 && e.Op != OList {
		// [] ++ x has the value of x
		return e
	}
	return u.foldComp(u.intern(&Val{Op: OAppend, Args: []*Val{l, e}}))
}

// foldComp rewrites comp(lo..hi) ++ template(hi) to comp(lo..hi+1).
func (u *Universe) foldComp(v *Val) *Val {
	if v.Op != OAppend || v.Args[0].Op != OComp {
		return v
	}
	c := v.Args[0]
	inst := u.Subst(c.Args[1], map[*Val]*Val{c.Args[2]: c.Args[4]})
	if inst == v.Args[1] {
		return u.Comp(c.Args[0], c.Args[1], c.Args[2], c.Args[3], u.Add(c.Args[4], u.Int(1)))
	}
	return v
}

func compDepth(v *Val) int {
	if !v.comp {
		return 0
	}
	d := 0
	for _, a := range v.Args {
		if k := compDepth(a); k > d {
			d = k
		}
	}
	if v.Op == OComp {
		d++
	}
	return d
}

// Comp: base ++ concat over lo<=iota<hi of template.
func (u *Universe) Comp(base, tmpl, iota, lo, hi *Val) *Val {
	if lo == hi {
		return base
	}
	// canonical bound variable
	bv := u.Sym(fmt.Sprintf("ι%d", compDepth(tmpl)), types.Typ[types.Int])
	if iota != bv {
		tmpl = u.Subst(tmpl, map[*Val]*Val{iota: bv})
	}
	if base.IsNil() {
		base = u.List()
	}
	// shift a constant lower bound to zero, so that peeled or offset loops agree
	if k, ok := lo.IntConst(); ok && k != 0 {
		tmpl = u.Subst(tmpl, map[*Val]*Val{bv: u.Add(bv, lo)})
		hi = u.Sub(hi, lo)
		lo = u.Int(0)
	}
	if h, ok := hi.IntConst(); ok && h <= 16 {
		if k, _ := lo.IntConst(); lo.Op == OConst && k == 0 {
			for i := int64(0); i < h; i++ {
				base = u.Append(base, u.Subst(tmpl, map[*Val]*Val{bv: u.Int(i)}))
			}
			return base
		}
	}
	// absorb a peeled first iteration
	if n := len(tmpl.Args); tmpl.Op == OList && n > 0 {
		prev := u.Subst(tmpl, map[*Val]*Val{bv: u.Sub(lo, u.Int(1))})
		var head *Val
		switch {
		case base.Op == OList && len(base.Args) >= n && u.List(base.Args[len(base.Args)-n:]...) == prev:
			head = u.List(base.Args[:len(base.Args)-n]...)
		case base.Op == OAppend && base.Args[1].Op == OList && base.Args[1] == prev:
			head = base.Args[0]
		}
		if head != nil {
			return u.Comp(head, tmpl, bv, u.Sub(lo, u.Int(1)), hi)
		}
	}
	return u.intern(&Val{Op: OComp, Args: []*Val{base, tmpl, bv, lo, hi}})
}

func (u *Universe) Len(v *Val) *Val {
	switch v.Op {
	case OList:
		return u.Int(int64(len(v.Args)))
	case OConst:
		if s, ok := v.StrConst(); ok {
			return u.Int(int64(len(s)))
		}
		return u.Int(0)
	case OAppend:
		return u.Add(u.Len(v.Args[0]), u.Len(v.Args[1]))
	case OCall:
		if v.Aux == "sorted" {
			return u.Len(v.Args[0])
		}
	case OSlice:
		return u.Sub(v.Args[2], v.Args[1])
	case OMake:
		return v.Args[0]
	case OComp:
		if n, ok := u.Len(v.Args[1]).IntConst(); ok {
			return u.Add(u.Len(v.Args[0]), u.Mul(u.Sub(v.Args[4], v.Args[3]), u.Int(n)))
		}
	}
	return u.intern(&Val{Op: OLen, Args: []*Val{v}})
}

// ---- linear arithmetic

func (u *Universe) linOf(v *Val) (map[*Val]int64, int64) {
	if k, ok := v.IntConst(); ok {
		return map[*Val]int64{}, k
	}
	if v.Op == OLin {
		m := map[*Val]int64{}
		for i, a := range v.Args {
			m[a] = v.Co[i]
		}
		return m, v.K
	}
	return map[*Val]int64{v: 1}, 0
}

func (u *Universe) mkLin(m map[*Val]int64, k int64) *Val {
	var as []*Val
	for a, c := range m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return u.Int(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && m[as[0]] == 1 && k == 0 {
		return as[0]
	}
	v := &Val{Op: OLin, Args: as, K: k}
	for _, a := range as {
		v.Co = append(v.Co, m[a])
	}
	return u.intern(v)
}

func (u *Universe) Add(a, b *Val) *Val {
	m, k := u.linOf(a)
	n, l := u.linOf(b)
	for x, c := range n {
		m[x] += c
	}
	return u.mkLin(m, k+l)
}

func (u *Universe) Sub(a, b *Val) *Val {
	m, k := u.linOf(a)
	n, l := u.linOf(b)
	for x, c := range n {
		m[x] -= c
	}
	return u.mkLin(m, k-l)
}

func (u *Universe) Mul(a, b *Val) *Val {
	if k, ok := b.IntConst(); ok {
		m, c := u.linOf(a)
		for x := range m {
			m[x] *= k
		}
		return u.mkLin(m, c*k)
	}
	if _, ok := a.IntConst(); ok {
		return u.Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return u.intern(&Val{Op: OBin, Aux: "*", Args: []*Val{a, b}})
}

func (u *Universe) Not(v *Val) *Val {
	switch {
	case v.IsTrue():
		return u.Bool(false)
	case v.IsFalse():
		return u.Bool(true)
	case v.Op == ONot:
		return v.Args[0]
	}
	return u.intern(&Val{Op: ONot, Args: []*Val{v}})
}

func (u *Universe) IsType(v *Val, t types.Type) *Val {
	return u.intern(&Val{Op: OIsType, Typ: t, Args: []*Val{v}})
}
func (u *Universe) As(v *Val, t types.Type) *Val {
	if v.Op == OIface && !types.IsInterface(t) {
		return v.Args[0]
	}
	return u.intern(&Val{Op: OAs, Typ: t, Args: []*Val{v}})
}
func (u *Universe) Init(addr *Val, t types.Type) *Val {
	switch addr.Op {
	case OFieldAddr:
		return u.Field(u.Init(addr.Args[0], nil), addr.I, t)
	case OIndexAddr:
		b := addr.Args[0]
		if isArrayAddr(b) {
			return u.Index(u.Init(b, nil), addr.Args[1], t)
		}
		return u.Index(b, addr.Args[1], t)
	}
	return u.intern(&Val{Op: OInit, Typ: t, Args: []*Val{addr}})
}

func isArrayAddr(v *Val) bool {
	switch v.Op {
	case OAlloc, OGlobal, OFieldAddr, OIndexAddr:
		return true
	}
	if v.Typ != nil {
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok {
			_, ok := p.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

// Call makes an uninterpreted pure result.
func (u *Universe) Call(key string, i int, t types.Type, args ...*Val) *Val {
	return u.intern(&Val{Op: OCall, Aux: key, I: i, Typ: t, Args: args})
}

func (u *Universe) Lookup(m, k *Val, i int, t types.Type) *Val {
	return u.intern(&Val{Op: OLookup, I: i, Typ: t, Args: []*Val{m, k}})
}

func (u *Universe) Eq(a, b *Val) *Val {
	if a == b {
		return u.Bool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return u.intern(&Val{Op: OCmp, Aux: "==", Args: []*Val{a, b}})
}

// Le makes the atom a <= b for integers (as linear d = a-b <= 0).
func (u *Universe) Le(a, b *Val) *Val {
	d := u.Sub(a, b)
	if k, ok := d.IntConst(); ok {
		return u.Bool(k <= 0)
	}
	return u.intern(&Val{Op: OLe0, Args: []*Val{d}})
}

func (u *Universe) Bin(op token.Token, a, b *Val, t types.Type) *Val {
	return u.intern(&Val{Op: OBin, Aux: op.String(), Typ: t, Args: []*Val{a, b}})
}

func (u *Universe) Zero(t types.Type) *Val {
	if t == nil {
		return u.Nil(nil)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return u.Bool(false)
		case x.Info()&types.IsInteger != 0:
			return u.Int(0)
		case x.Info()&types.IsString != 0:
			return u.Str("")
		case x.Info()&types.IsFloat != 0:
			return u.Const(constant.MakeFloat64(0))
		}
	case *types.Struct:
		fs := make([]*Val, x.NumFields())
		for i := range fs {
			fs[i] = u.Zero(x.Field(i).Type())
		}
		return u.Struct(t, fs...)
	case *types.Array:
		if x.Len() <= 64 {
			fs := make([]*Val, x.Len())
			for i := range fs {
				fs[i] = u.Zero(x.Elem())
			}
			return u.List(fs...)
		}
	}
	return u.Nil(t)
}

// Subst replaces subterms bottom-up, re-normalising.
func (u *Universe) Subst(v *Val, m map[*Val]*Val) *Val {
	memo := map[*Val]*Val{}
	return u.subst(v, m, memo)
}

func (u *Universe) subst(v *Val, m map[*Val]*Val, memo map[*Val]*Val) *Val {
	if r, ok := m[v]; ok {
		return r
	}
	if len(v.Args) == 0 {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	as := make([]*Val, len(v.Args))
	ch := false
	for i, a := range v.Args {
		as[i] = u.subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := v
	if ch {
		r = u.Rebuild(v, as)
	}
	memo[v] = r
	return r
}

// Rebuild makes v with new arguments through the normalising constructors.
func (u *Universe) Rebuild(v *Val, as []*Val) *Val {
	switch v.Op {
	case OField:
		return u.Field(as[0], v.I, v.Typ)
	case OIndex:
		return u.Index(as[0], as[1], v.Typ)
	case OFieldAddr:
		return u.FieldAddr(as[0], v.I, v.Typ)
	case OIndexAddr:
		return u.IndexAddr(as[0], as[1], v.Typ)
	case OAppend:
		return u.Append(as[0], as[1])
	case OSlice:
		return u.Slice(as[0], as[1], as[2])
	case OComp:
		return u.Comp(as[0], as[1], as[2], as[3], as[4])
	case OLen:
		return u.Len(as[0])
	case OLin:
		r := u.Int(v.K)
		for i, a := range as {
			r = u.Add(r, u.Mul(a, u.Int(v.Co[i])))
		}
		return r
	case ONot:
		return u.Not(as[0])
	case OCmp:
		return u.Eq(as[0], as[1])
	case OLe0:
		return u.Le(as[0], u.Int(0))
	case OAs:
		return u.As(as[0], v.Typ)
	case OInit:
		return u.Init(as[0], v.Typ)
	case OBin:
		if v.Aux == "*" {
			return u.Mul(as[0], as[1])
		}
	}
	w := *v
	w.Args = as
	w.toks = nil
	w.id = 0
	return u.intern(&w)
}

func (v *Val) String() string {
	return v.str(0)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (v *Val) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range v.Args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch v.Op {
	case OConst:
		if v.C != nil {
			return v.C.String()
		}
		return v.Aux
	case OSym, OFresh, OGlobal, OAlloc, OMap:
		return v.Aux
	case OMake:
		return v.Aux + "[" + args() + "]"
	case OField:
		n := strconv.Itoa(v.I)
		return v.Args[0].str(d+1) + "." + n
	case OIndex:
		return v.Args[0].str(d+1) + "[" + v.Args[1].str(d+1) + "]"
	case OFieldAddr:
		return "&" + v.Args[0].str(d+1) + "." + strconv.Itoa(v.I)
	case OIndexAddr:
		return "&" + v.Args[0].str(d+1) + "[" + v.Args[1].str(d+1) + "]"
	case OIface:
		return shortType(v.Typ) + "(" + args() + ")"
	case OStruct:
		return shortType(v.Typ) + "{" + args() + "}"
	case OTuple:
		return "(" + args() + ")"
	case OList:
		return "[" + args() + "]"
	case OAppend:
		return v.Args[0].str(d+1) + " ++ " + v.Args[1].str(d+1)
	case OComp:
		return fmt.Sprintf("%s ++ {%s | %s<=ι<%s}", v.Args[0].str(d+1), v.Args[1].str(d+1), v.Args[3].str(d+1), v.Args[4].str(d+1))
	case OSlice:
		return fmt.Sprintf("%s[%s:%s]", v.Args[0].str(d+1), v.Args[1].str(d+1), v.Args[2].str(d+1))
	case OLen:
		return "len(" + args() + ")"
	case OLin:
		var ss []string
		for i, a := range v.Args {
			switch v.Co[i] {
			case 1:
				ss = append(ss, a.str(d+1))
			case -1:
				ss = append(ss, "-"+a.str(d+1))
			default:
				ss = append(ss, fmt.Sprintf("%d*%s", v.Co[i], a.str(d+1)))
			}
		}
		if v.K != 0 {
			ss = append(ss, strconv.FormatInt(v.K, 10))
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OBin, OCmp:
		return "(" + v.Args[0].str(d+1) + " " + v.Aux + " " + v.Args[1].str(d+1) + ")"
	case ONot:
		return "!" + args()
	case OConv:
		return shortType(v.Typ) + "(" + args() + ")"
	case OCall:
		return fmt.Sprintf("%s(%s).%d", v.Aux, args(), v.I)
	case OClosure:
		return "closure " + v.Fn.Name() + "{" + args() + "}"
	case OFunc:
		return v.Fn.Name()
	case OIsType:
		return args() + " is " + shortType(v.Typ)
	case OAs:
		return args() + ".(" + shortType(v.Typ) + ")"
	case OInit:
		return "*" + args()
	case OLookup:
		return fmt.Sprintf("%s[%s]/%d", v.Args[0].str(d+1), v.Args[1].str(d+1), v.I)
	case OLe0:
		return args() + " <= 0"
	case OMethod:
		return args() + "." + v.Aux
	}
	return fmt.Sprintf("?%d(%s)", v.Op, args())
}

// IsList reports whether v is a list term of known structure.
func (v *Val) IsList() bool { return v.Op == OList || v.Op == OAppend || v.Op == OComp }
