package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const inf = int64(1) << 60

type Iv struct{ Lo, Hi int64 }

type deferred struct {
	fn   *Val
	inv  *types.Func
	args []*Val
	site ssa.CallInstruction
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]*Val
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Site   ssa.CallInstruction // call in the caller frame; nil for the root
	NoRes  bool                // discard results (deferred call)
	Loops  map[*ssa.BasicBlock]*loopRec
	Const  map[*ssa.BasicBlock]int // consecutive iterations whose exit test was constant
	Defers []deferred
}

type loopRec struct {
	snaps map[string]*snapshot
}

type snapshot struct {
	id        int
	st        *State
	base      map[*Val]*Val // loop token -> its value on entry
	refined   bool
	norefi    bool
	deps0     []int
	widenings int
	refines   int
}

type State struct {
	Frames []*Frame
	Mem    map[*Val]*Val
	Facts  map[*Val]bool
	Ivl    map[*Val]Iv // linear body -> bounds
	TS     map[string]*Val
	Deps   []int
	Trail  *trail
	Steps  int
}

type trail struct {
	prev *trail
	pos  token.Pos
	note string
	n    int
}

func (st *State) Note(pos token.Pos, note string) {
	n := 0
	if st.Trail != nil {
		n = st.Trail.n
	}
	st.Trail = &trail{st.Trail, pos, note, n + 1}
}

func (st *State) TrailStrings(fs *token.FileSet) []string {
	var out []string
	for t := st.Trail; t != nil; t = t.prev {
		p := fs.Position(t.pos)
		out = append([]string{fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, t.note)}, out...)
	}
	return out
}

func (f *Frame) clone() *Frame {
	g := *f
	g.Env = make(map[ssa.Value]*Val, len(f.Env))
	for k, v := range f.Env {
		g.Env[k] = v
	}
	g.Loops = make(map[*ssa.BasicBlock]*loopRec, len(f.Loops))
	for k, v := range f.Loops {
		g.Loops[k] = v
	}
	g.Const = make(map[*ssa.BasicBlock]int, len(f.Const))
	for k, v := range f.Const {
		g.Const[k] = v
	}
	g.Defers = append([]deferred(nil), f.Defers...)
	return &g
}

func (st *State) Clone() *State {
	n := &State{
		Frames: make([]*Frame, len(st.Frames)),
		Mem:    make(map[*Val]*Val, len(st.Mem)),
		Facts:  make(map[*Val]bool, len(st.Facts)),
		Ivl:    make(map[*Val]Iv, len(st.Ivl)),
		TS:     make(map[string]*Val, len(st.TS)),
		Deps:   st.Deps,
		Trail:  st.Trail,
		Steps:  st.Steps,
	}
	for i, f := range st.Frames {
		n.Frames[i] = f.clone()
	}
	for k, v := range st.Mem {
		n.Mem[k] = v
	}
	for k, v := range st.Facts {
		n.Facts[k] = v
	}
	for k, v := range st.Ivl {
		n.Ivl[k] = v
	}
	for k, v := range st.TS {
		n.TS[k] = v
	}
	return n
}

func (st *State) Top() *Frame { return st.Frames[len(st.Frames)-1] }

// ---- memory

func rootOf(a *Val) *Val {
	for a.Op == OFieldAddr {
		a = a.Args[0]
	}
	return a
}

func structFields(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *Exec) Load(st *State, addr *Val, t types.Type) *Val {
	u := x.U
	switch addr.Op {
	case OFieldAddr:
		base := x.Load(st, addr.Args[0], addr.Typ)
		return u.Field(base, addr.I, fieldType(addr.Typ, addr.I))
	case OIndexAddr:
		// an array within a struct
		if at := arrayField(addr.Args[0]); at != nil {
			return x.arrayElem(x.Load(st, addr.Args[0], at), addr.Args[1], at)
		}
	}
	if v, ok := st.Mem[addr]; ok {
		return v
	}
	if t != nil {
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 && (addr.Op == OAlloc || x.hasCells(st, addr)) {
			vs := make([]*Val, at.Len())
			for i := range vs {
				vs[i] = x.Load(st, u.IndexAddr(addr, u.Int(int64(i)), at.Elem()), at.Elem())
			}
			return u.List(vs...)
		}
	}
	if addr.Op == OIndexAddr {
		b := addr.Args[0]
		for k := range st.Mem {
			if k.Op == OIndexAddr && k.Args[0] == b {
				if d, ok := u.Sub(k.Args[1], addr.Args[1]).IntConst(); !ok || d == 0 {
					if !x.Known(st, u.Eq2(k.Args[1], addr.Args[1]), false) {
						return u.Tok("elem", t)
					}
				}
			}
		}
		if b.Op == OAlloc {
			if whole, ok := st.Mem[b]; ok {
				return u.Index(whole, addr.Args[1], t)
			}
			return u.Zero(t)
		}
		if b.Op == OMake {
			pre, ok := st.Mem[b]
			if !ok || !pre.IsList() {
				return u.Tok("elem", t)
			}
			if x.Known(st, u.Le(u.Add(addr.Args[1], u.Int(1)), u.Len(pre)), true) {
				return u.Index(pre, addr.Args[1], t)
			}
			if x.Known(st, u.Le(u.Len(pre), addr.Args[1]), true) {
				return u.Zero(t)
			}
			return u.Tok("elem", t)
		}
	}
	if addr.Op == OAlloc {
		return u.Zero(t)
	}
	return u.Init(addr, t)
}

// arrayField is the type of the array that addr is a field of a struct for.
func arrayField(addr *Val) *types.Array {
	if addr.Op != OFieldAddr {
		return nil
	}
	t := fieldType(addr.Typ, addr.I)
	if t == nil {
		return nil
	}
	at, _ := t.Underlying().(*types.Array)
	return at
}

func (x *Exec) arrayElem(a, i *Val, at *types.Array) *Val {
	u := x.U
	if a == u.Zero(at) {
		return u.Zero(at.Elem())
	}
	if _, ok := i.IntConst(); !ok && a.Op == OList {
		return u.Tok("elem", at.Elem())
	}
	return u.Index(a, i, at.Elem())
}

// Eq2 is integer equality as an atom.
func (u *Universe) Eq2(a, b *Val) *Val {
	d := u.Sub(a, b)
	if k, ok := d.IntConst(); ok {
		return u.Bool(k == 0)
	}
	return u.Eq(d, u.Int(0))
}

func (x *Exec) hasCells(st *State, addr *Val) bool {
	for k := range st.Mem {
		if k.Op == OIndexAddr && k.Args[0] == addr {
			return true
		}
	}
	return false
}

func fieldType(st types.Type, i int) types.Type {
	if s := structFields(st); s != nil && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return nil
}

func (x *Exec) Store(st *State, addr, val *Val, t types.Type) {
	u := x.U
	if addr.Op == OFieldAddr {
		base := x.Load(st, addr.Args[0], addr.Typ)
		s := structFields(addr.Typ)
		fs := make([]*Val, s.NumFields())
		for i := range fs {
			if i == addr.I {
				fs[i] = val
			} else {
				fs[i] = u.Field(base, i, s.Field(i).Type())
			}
		}
		x.Store(st, addr.Args[0], x.mkStruct(addr.Typ, fs), addr.Typ)
		return
	}
	if t != nil {
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
			for i := int64(0); i < at.Len(); i++ {
				st.Mem[u.IndexAddr(addr, u.Int(i), at.Elem())] = u.Index(val, u.Int(i), at.Elem())
			}
			return
		}
	}
	if addr.Op == OIndexAddr {
		b := addr.Args[0]
		if at := arrayField(b); at != nil {
			old := x.Load(st, b, at)
			k, ok := addr.Args[1].IntConst()
			if !ok || at.Len() > 64 {
				x.Store(st, b, u.Tok("array", at), nil)
				return
			}
			vs := make([]*Val, at.Len())
			for i := range vs {
				if int64(i) == k {
					vs[i] = val
				} else {
					vs[i] = x.arrayElem(old, u.Int(int64(i)), at)
				}
			}
			x.Store(st, b, u.List(vs...), nil)
			return
		}
		for k := range st.Mem {
			if k != addr && k.Op == OIndexAddr && k.Args[0] == b {
				if d, ok := u.Sub(k.Args[1], addr.Args[1]).IntConst(); !ok || d == 0 {
					if !x.Known(st, u.Eq2(k.Args[1], addr.Args[1]), false) {
						st.Mem[k] = u.Tok("elem", nil)
					}
				}
			}
		}
	}
	st.Mem[addr] = val
}

func (x *Exec) mkStruct(t types.Type, fs []*Val) *Val {
	// eta: {v.0, v.1, ...} is v
	if len(fs) > 0 && fs[0].Op == OField && fs[0].I == 0 {
		v := fs[0].Args[0]
		ok := true
		for i, f := range fs {
			if f.Op != OField || f.I != i || f.Args[0] != v {
				ok = false
			}
		}
		if ok {
			return v
		}
	}
	return x.U.Struct(t, fs...)
}

// Havoc forgets what addr points to.
func (x *Exec) Havoc(st *State, addr *Val, why string) {
	switch addr.Op {
	case OAlloc, OFieldAddr, OIndexAddr, OInit, OGlobal, OSym, OField, OIndex, OCall, OAs:
		x.Store(st, addr, x.U.Tok("havoc:"+why, nil), nil)
		for k := range st.Mem {
			if k.Op == OIndexAddr && k.Args[0] == addr {
				st.Mem[k] = x.U.Tok("havoc:"+why, nil)
			}
		}
	}
}

// ---- facts

func (x *Exec) bodyOf(d *Val) (body *Val, sign, k int64) {
	u := x.U
	m, k := u.linOf(d)
	if len(m) == 0 {
		return nil, 1, k
	}
	var as []*Val
	for a := range m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	sign = 1
	if m[as[0]] < 0 {
		sign = -1
		for a := range m {
			m[a] = -m[a]
		}
	}
	return u.mkLin(m, 0), sign, k
}

func atomBounds(v *Val) Iv {
	if v.Op == OLen {
		return Iv{0, inf}
	}
	return Iv{-inf, inf}
}

func clampAdd(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	return a + b
}

func (x *Exec) simpleBounds(st *State, d *Val) Iv {
	if k, ok := d.IntConst(); ok {
		return Iv{k, k}
	}
	body, sign, k := x.bodyOf(d)
	r := Iv{-inf, inf}
	if iv, ok := st.Ivl[body]; ok {
		r = iv
	}
	// sum of the atoms' own bounds
	s := Iv{0, 0}
	m, _ := x.U.linOf(body)
	for a, c := range m {
		iv := atomBounds(a)
		if e, ok := st.Ivl[a]; ok {
			if e.Lo > iv.Lo {
				iv.Lo = e.Lo
			}
			if e.Hi < iv.Hi {
				iv.Hi = e.Hi
			}
		}
		lo, hi := iv.Lo, iv.Hi
		if c < 0 {
			lo, hi = -hi, -lo
		}
		if c != 1 && c != -1 {
			ac := c
			if ac < 0 {
				ac = -ac
			}
			if lo > -inf && lo < inf {
				lo *= ac
			}
			if hi > -inf && hi < inf {
				hi *= ac
			}
		}
		s.Lo = clampAdd(s.Lo, lo)
		s.Hi = clampAdd(s.Hi, hi)
	}
	if s.Lo > r.Lo {
		r.Lo = s.Lo
	}
	if s.Hi < r.Hi {
		r.Hi = s.Hi
	}
	if sign < 0 {
		r.Lo, r.Hi = -r.Hi, -r.Lo
	}
	return Iv{clampAdd(r.Lo, k), clampAdd(r.Hi, k)}
}

// Bounds of an integer term, combining up to two recorded facts.
func (x *Exec) Bounds(st *State, d *Val) Iv {
	r := x.simpleBounds(st, d)
	if _, ok := d.IntConst(); ok {
		return r
	}
	m, _ := x.U.linOf(d)
	for f, iv := range st.Ivl {
		fm, _ := x.U.linOf(f)
		share := false
		for a := range fm {
			if m[a] != 0 {
				share = true
			}
		}
		if !share {
			continue
		}
		for _, s := range []int64{1, -1} {
			rest := x.U.Sub(d, x.U.Mul(f, x.U.Int(s)))
			if rest == d {
				continue
			}
			rb := x.simpleBounds(st, rest)
			lo, hi := iv.Lo, iv.Hi
			if s < 0 {
				lo, hi = -hi, -lo
			}
			if l := clampAdd(rb.Lo, lo); l > r.Lo {
				r.Lo = l
			}
			if h := clampAdd(rb.Hi, hi); h < r.Hi {
				r.Hi = h
			}
		}
	}
	return r
}

func isIntish(v *Val) bool {
	switch v.Op {
	case OLin, OLen:
		return true
	case OConst:
		_, ok := v.IntConst()
		return ok
	}
	if v.Typ != nil && v.Op != OIface && v.Op != OStruct && v.Op != OIsType && v.Op != OIndexAddr && v.Op != OFieldAddr {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

func nonNil(v *Val) bool {
	switch v.Op {
	case OIface, OAlloc, OMake, OMap, OClosure, OFunc, OStruct, OFieldAddr, OIndexAddr, OGlobal, OMethod:
		return true
	case OList:
		return len(v.Args) > 0
	case OAppend:
		return true
	case OCall:
		switch v.Aux {
		case "fmt.Errorf", "errors.New", "regexp.MustCompile":
			return true
		}
	}
	return false
}

// Decide evaluates a boolean term.
func (x *Exec) Decide(st *State, v *Val) (val, known bool) {
	u := x.U
	if v.IsTrue() {
		return true, true
	}
	if v.IsFalse() {
		return false, true
	}
	if b, ok := st.Facts[v]; ok {
		return b, true
	}
	switch v.Op {
	case ONot:
		b, k := x.Decide(st, v.Args[0])
		return !b, k
	case OLe0:
		iv := x.Bounds(st, v.Args[0])
		if iv.Hi <= 0 {
			return true, true
		}
		if iv.Lo > 0 {
			return false, true
		}
	case OCmp:
		a, b := v.Args[0], v.Args[1]
		if isIntish(a) && isIntish(b) {
			// distinct identities, unless one is a known constant in range
			if fa, fb := freshAtom(a), freshAtom(b); fa != nil && fb != nil && fa != fb {
				return false, true
			}
			if (a.Op == OFresh || b.Op == OFresh) && a.Op != OLin && b.Op != OLin {
				if _, c := a.IntConst(); !c {
					if _, c := b.IntConst(); !c {
						return false, true
					}
				}
			}
			iv := x.Bounds(st, u.Sub(a, b))
			if iv.Lo == 0 && iv.Hi == 0 {
				return true, true
			}
			if iv.Lo > 0 || iv.Hi < 0 {
				return false, true
			}
			return false, false
		}
		return x.decideEq(st, a, b)
	case OIsType:
		return x.decideType(st, v.Args[0], v.Typ)
	case OBin:
		if v.Aux == "&&" || v.Aux == "||" {
			p, pk := x.Decide(st, v.Args[0])
			q, qk := x.Decide(st, v.Args[1])
			if v.Aux == "&&" {
				if pk && !p || qk && !q {
					return false, true
				}
				return true, pk && qk
			}
			if pk && p || qk && q {
				return true, true
			}
			return false, pk && qk
		}
	}
	return false, false
}

func freshAtom(v *Val) *Val {
	if v.Op == OFresh {
		return v
	}
	return nil
}

// Known reports that the boolean term is known to have value want.
func (x *Exec) Known(st *State, v *Val, want bool) bool {
	b, k := x.Decide(st, v)
	return k && b == want
}

func (x *Exec) decideEq(st *State, a, b *Val) (bool, bool) {
	u := x.U
	if a == b {
		return true, true
	}
	if a.Op == OFresh || b.Op == OFresh {
		return false, true
	}
	if a.IsNil() && nonNil(b) || b.IsNil() && nonNil(a) {
		return false, true
	}
	// texts of known length
	_, sa := a.StrConst()
	_, sb := b.StrConst()
	if sa && b.Op == OList || sb && a.Op == OList {
		as, ok1 := x.bytesOf(st, a)
		bs, ok2 := x.bytesOf(st, b)
		if ok1 && ok2 {
			if len(as) != len(bs) {
				return false, true
			}
			same := true
			for i := range as {
				eq, known := x.Decide(st, x.EqVal(as[i], bs[i]))
				if known && !eq {
					return false, true
				}
				same = same && known
			}
			if same {
				return true, true
			}
		}
	}
	if a.IsNil() || b.IsNil() {
		o := a
		if a.IsNil() {
			o = b
		}
		if o.IsNil() {
			return true, true
		}
		// a value known to have a dynamic type is not nil
		for f, val := range st.Facts {
			if val && f.Op == OIsType && f.Args[0] == o {
				return false, true
			}
		}
		if o.Op == OSlice {
			if iv := x.Bounds(st, u.Sub(o.Args[2], o.Args[1])); iv.Lo > 0 {
				return false, true
			}
		}
		return false, false
	}
	if a.Op == OConst && b.Op == OConst {
		if a.C != nil && b.C != nil {
			return false, true // interned and different
		}
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return false, true
		}
		return x.Decide(st, x.EqVal(a.Args[0], b.Args[0]))
	}
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		all := true
		for i := range a.Args {
			v, k := x.Decide(st, x.EqVal(a.Args[i], b.Args[i]))
			if k && !v {
				return false, true
			}
			all = all && k
		}
		if all {
			return true, true
		}
	}
	if isAddr(a) && isAddr(b) && a.Op != b.Op && a.Op == OAlloc || a.Op == OAlloc && b.Op == OAlloc {
		return false, true
	}
	// x == c1 excludes x == c2
	for _, p := range [][2]*Val{{a, b}, {b, a}} {
		s, c := p[0], p[1]
		if c.Op != OConst || c.C == nil {
			continue
		}
		for f, val := range st.Facts {
			if val && f.Op == OCmp {
				var o *Val
				if f.Args[0] == s {
					o = f.Args[1]
				} else if f.Args[1] == s {
					o = f.Args[0]
				}
				if o != nil && o.Op == OConst && o.C != nil && o != c {
					return false, true
				}
			}
		}
	}
	if x.SplitKeys {
		return decideByClass(st, a, b)
	}
	return false, false
}

// decideByClass closes what is known to be equal under transitivity.
func decideByClass(st *State, a, b *Val) (bool, bool) {
	class := func(v *Val) map[*Val]bool {
		c := map[*Val]bool{v: true}
		for todo := []*Val{v}; len(todo) > 0; {
			w := todo[0]
			todo = todo[1:]
			for f, val := range st.Facts {
				if !val || f.Op != OCmp {
					continue
				}
				for i := range f.Args[:2] {
					if o := f.Args[1-i]; f.Args[i] == w && !c[o] {
						c[o] = true
						todo = append(todo, o)
					}
				}
			}
		}
		return c
	}
	ca := class(a)
	if ca[b] {
		return true, true
	}
	cb := class(b)
	for v := range ca {
		for w := range cb {
			if v.Op == OConst && w.Op == OConst && v.C != nil && w.C != nil {
				return false, true
			}
		}
	}
	for f, val := range st.Facts {
		if !val && f.Op == OCmp && (ca[f.Args[0]] && cb[f.Args[1]] || ca[f.Args[1]] && cb[f.Args[0]]) {
			return false, true
		}
	}
	return false, false
}

func isAddr(v *Val) bool {
	switch v.Op {
	case OAlloc, OFieldAddr, OIndexAddr, OGlobal:
		return true
	}
	return false
}

// EqVal builds the equality atom for two values of any type.
func (x *Exec) EqVal(a, b *Val) *Val {
	if a == b {
		return x.U.Bool(true)
	}
	if isIntish(a) && isIntish(b) {
		if ca, ok := a.IntConst(); ok {
			if cb, ok := b.IntConst(); ok {
				return x.U.Bool(ca == cb)
			}
		}
	}
	return x.U.Eq(a, b)
}

func (x *Exec) decideType(st *State, v *Val, t types.Type) (bool, bool) {
	if v.Op == OIface {
		if types.IsInterface(t) {
			return types.Implements(v.Typ, t.Underlying().(*types.Interface)), true
		}
		return types.Identical(v.Typ, t), true
	}
	if v.IsNil() {
		return false, true
	}
	isI := types.IsInterface(t)
	for f, val := range st.Facts {
		if f.Op != OIsType || f.Args[0] != v {
			if f.Op == OCmp && val && (f.Args[0] == v && f.Args[1].IsNil() || f.Args[1] == v && f.Args[0].IsNil()) {
				return false, true
			}
			continue
		}
		ft := f.Typ
		if types.Identical(ft, t) {
			return val, true
		}
		if val && !types.IsInterface(ft) {
			if isI {
				return types.Implements(ft, t.Underlying().(*types.Interface)), true
			}
			return false, true
		}
		if !val && types.IsInterface(ft) && !isI {
			if types.Implements(t, ft.Underlying().(*types.Interface)) {
				return false, true
			}
		}
		if val && types.IsInterface(ft) && isI && types.AssignableTo(ft, t) {
			return true, true
		}
	}
	if x.Closed != nil && !isI {
		if univ := x.Closed(v); univ != nil {
			found := false
			for _, ut := range univ {
				if types.Identical(ut, t) {
					found = true
				}
			}
			if !found {
				return false, true
			}
			// all others excluded?
			rest := 0
			for _, ut := range univ {
				if b, ok := st.Facts[x.U.IsType(v, ut)]; !(ok && !b) {
					rest++
				}
			}
			if rest == 1 {
				if b, ok := st.Facts[x.U.IsType(v, t)]; !(ok && !b) {
					return true, true
				}
			}
		}
	}
	return false, false
}

// Assume records that v has value val; false means the state is infeasible.
func (x *Exec) Assume(st *State, v *Val, val bool) bool {
	u := x.U
	if b, k := x.Decide(st, v); k {
		return b == val
	}
	switch v.Op {
	case ONot:
		return x.Assume(st, v.Args[0], !val)
	case OLe0:
		d := v.Args[0]
		if val {
			return x.bound(st, d, -inf, 0)
		}
		return x.bound(st, d, 1, inf)
	case OCmp:
		a, b := v.Args[0], v.Args[1]
		if isIntish(a) && isIntish(b) {
			d := u.Sub(a, b)
			if val {
				return x.bound(st, d, 0, 0)
			}
			iv := x.Bounds(st, d)
			if iv.Lo == 0 {
				return x.bound(st, d, 1, inf)
			}
			if iv.Hi == 0 {
				return x.bound(st, d, -inf, -1)
			}
			st.Facts[v] = val
			return true
		}
	case OBin:
		if v.Aux == "&&" && val || v.Aux == "||" && !val {
			return x.Assume(st, v.Args[0], val) && x.Assume(st, v.Args[1], val)
		}
	}
	st.Facts[v] = val
	return true
}

func (x *Exec) bound(st *State, d *Val, lo, hi int64) bool {
	body, sign, k := x.bodyOf(d)
	if body == nil {
		return lo <= k && k <= hi
	}
	// lo <= sign*body + k <= hi
	lo2, hi2 := clampAdd(lo, -k), clampAdd(hi, -k)
	if sign < 0 {
		lo2, hi2 = -hi2, -lo2
	}
	iv, ok := st.Ivl[body]
	if !ok {
		iv = Iv{-inf, inf}
	}
	if lo2 > iv.Lo {
		iv.Lo = lo2
	}
	if hi2 < iv.Hi {
		iv.Hi = hi2
	}
	// disequalities at the ends
	for {
		ch := false
		if iv.Lo > -inf {
			if b, ok := st.Facts[x.U.Eq(body, x.U.Int(iv.Lo))]; ok && !b {
				iv.Lo++
				ch = true
			}
		}
		if iv.Hi < inf {
			if b, ok := st.Facts[x.U.Eq(body, x.U.Int(iv.Hi))]; ok && !b {
				iv.Hi--
				ch = true
			}
		}
		if !ch || iv.Lo > iv.Hi {
			break
		}
	}
	st.Ivl[body] = iv
	return iv.Lo <= iv.Hi
}

// ---- canonical keys

type canon struct {
	u    *Universe
	ren  map[*Val]string
	memo map[*Val]string
}

func (c *canon) key(v *Val) string {
	if len(v.toks) == 0 {
		return fmt.Sprintf("%d", v.id)
	}
	if s, ok := c.memo[v]; ok {
		return s
	}
	var s string
	if v.IsTok() {
		s = c.ren[v]
		if s == "" {
			s = fmt.Sprintf("T%d", len(c.ren))
			c.ren[v] = s
			if len(v.Args) > 0 {
				for _, a := range v.Args {
					s += "(" + c.key(a) + ")"
				}
			}
		}
		return s
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d %s %d %d", v.Op, v.Aux, v.I, v.K)
	switch v.Op {
	case OConst, OIface, OStruct, OIsType, OAs, OConv:
		sb.WriteString(c.u.TypeKey(v.Typ))
	}
	if v.Fn != nil {
		fmt.Fprintf(&sb, " f%p", v.Fn)
	}
	for _, k := range v.Co {
		fmt.Fprintf(&sb, " %d", k)
	}
	for _, a := range v.Args {
		sb.WriteByte(' ')
		sb.WriteString(c.key(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func sortedEnv(m map[ssa.Value]*Val) []ssa.Value {
	out := make([]ssa.Value, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].Name(), out[j].Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	return out
}

func sortedTS(m map[string]*Val) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) stateKey(st *State) string {
	c := &canon{u: x.U, ren: map[*Val]string{}, memo: map[*Val]string{}}
	var sb strings.Builder
	for _, f := range st.Frames {
		fmt.Fprintf(&sb, "F%p:%d:%d;", f.Fn, f.Block.Index, f.Idx)
		for _, k := range sortedEnv(f.Env) {
			fmt.Fprintf(&sb, "%s=%s;", k.Name(), c.key(f.Env[k]))
		}
		for _, d := range f.Defers {
			if d.fn != nil {
				sb.WriteString(c.key(d.fn))
			}
			for _, a := range d.args {
				sb.WriteString(c.key(a))
			}
		}
	}
	for _, k := range sortedTS(st.TS) {
		fmt.Fprintf(&sb, "%s=%s;", k, c.key(st.TS[k]))
	}
	// memory and facts: sort by structural key (tokens seen so far are renamed first)
	var ms []string
	for _, k := range sortVals(st.Mem) {
		if a := k; true {
			ms = append(ms, c.key(a)+"->"+c.key(st.Mem[a]))
		}
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ";"))
	var fs []string
	for f, b := range st.Facts {
		fs = append(fs, fmt.Sprintf("%s:%v", c.keyNoNew(f), b))
	}
	for f, b := range st.Ivl {
		fs = append(fs, fmt.Sprintf("%s:%v", c.keyNoNew(f), b))
	}
	sort.Strings(fs)
	sb.WriteString("|")
	sb.WriteString(strings.Join(fs, ";"))
	fmt.Fprintf(&sb, "|%v", st.Deps)
	return sb.String()
}

func (c *canon) keyNoNew(v *Val) string {
	for t := range v.toks {
		if c.ren[t] == "" {
			return t.Aux + "!" + fmt.Sprint(v.id)
		}
	}
	return c.key(v)
}

func sortVals(m map[*Val]*Val) []*Val {
	out := make([]*Val, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
