package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	constSeen = 1 << 20
	symSeen   = 1 << 21
	maxUnroll = 24
)

// atHeader applies widening when a state reaches a loop header.
func (x *Exec) atHeader(st *State, f *Frame, b *ssa.BasicBlock, back bool) bool {
	x.gc(st)
	c := f.Const[b]
	limit := max(maxUnroll, x.Unroll)
	if c&symSeen != 0 {
		limit = x.UnrollSym
	}
	if back && c&constSeen != 0 && c&0xffff < limit {
		f.Const[b] = c&0xffff + 1
		back = false
	} else {
		f.Const[b] = 0
	}
	if !back {
		f.Loops[b] = &loopRec{snaps: map[string]*snapshot{}}
	}
	rec := f.Loops[b]
	if rec == nil {
		rec = &loopRec{snaps: map[string]*snapshot{}}
		f.Loops[b] = rec
	}
	key := x.finiteKey(st)
	s := rec.snaps[key]
	if s == nil {
		x.snapN++
		s = &snapshot{id: x.snapN, deps0: append([]int(nil), st.Deps...), base: map[*Val]*Val{}}
		st.Deps = append(append([]int(nil), s.deps0...), s.id)
		s.st = st.Clone()
		rec.snaps[key] = s
		x.push(st)
		return false
	}
	dead := x.super[s.id] || x.dead(s.st)
	n, theta, base, changed := x.lgg(s, st)
	if !changed && !dead {
		if !s.norefi {
			if r, rb := x.refine(s, theta); r != nil {
				x.replace(rec, key, s, r, rb, s.deps0, true)
			}
		}
		return false
	}
	s.widenings++
	if s.widenings > 40 {
		x.undecided(st, b.Instrs[0].Pos(), "loop does not converge in "+f.Fn.String())
		return false
	}
	deps := s.deps0
	if dead {
		// the first part of st's dependencies up to this loop
		deps = nil
		for _, d := range st.Deps {
			if d != s.id && !x.super[d] {
				deps = append(deps, d)
			}
		}
	}
	n.Trail = st.Trail
	if changed && s.refined {
		s.norefi = true
	}
	x.replace(rec, key, s, n, base, deps, s.refined && !changed)
	return false
}

func (x *Exec) replace(rec *loopRec, key string, s *snapshot, n *State, base map[*Val]*Val, deps []int, refined bool) {
	x.super[s.id] = true
	x.snapN++
	t := &snapshot{id: x.snapN, deps0: deps, base: base, refined: refined, norefi: s.norefi, widenings: s.widenings, refines: s.refines}
	if refined {
		t.refines++
	}
	n.Deps = append(append([]int(nil), deps...), t.id)
	t.st = n.Clone()
	rec.snaps[key] = t
	if k2 := x.finiteKey(n); k2 != key {
		rec.snaps[k2] = t
	}
	if x.Debug {
		fmt.Printf("-- snapshot %d replaces %d (refined=%v)\n%s", t.id, s.id, refined, x.Dump(n))
	}
	x.push(n)
}

// Dump renders a state for debugging.
func (x *Exec) Dump(st *State) string {
	var sb strings.Builder
	f := st.Top()
	fmt.Fprintf(&sb, "  in %s b%d\n", f.Fn, f.Block.Index)
	for _, k := range sortedEnv(f.Env) {
		fmt.Fprintf(&sb, "    %s = %s\n", k.Name(), f.Env[k])
	}
	for _, k := range sortVals(st.Mem) {
		fmt.Fprintf(&sb, "    *%s = %s\n", k, st.Mem[k])
	}
	for _, k := range sortedTS(st.TS) {
		fmt.Fprintf(&sb, "    TS %s = %s\n", k, st.TS[k])
	}
	for k, v := range st.Facts {
		fmt.Fprintf(&sb, "    %v: %s\n", v, k)
	}
	for k, v := range st.Ivl {
		fmt.Fprintf(&sb, "    %s in [%d,%d]\n", k, v.Lo, v.Hi)
	}
	return sb.String()
}

func finitePart(v *Val) string {
	switch v.Op {
	case OConst:
		if v.IsTrue() || v.IsFalse() {
			return v.C.String()
		}
		if v.IsNil() {
			return "nil"
		}
	case OIface:
		return "i:" + v.Typ.String()
	case OClosure, OFunc:
		return "f:" + v.Fn.String()
	}
	return ""
}

func (x *Exec) finiteKey(st *State) string {
	var sb strings.Builder
	for _, f := range st.Frames {
		for _, k := range sortedEnv(f.Env) {
			if _, ok := k.Type().Underlying().(*types.Slice); ok {
				continue
			}
			if p := finitePart(f.Env[k]); p != "" {
				sb.WriteString(k.Name() + "=" + p + ";")
			}
		}
	}
	for _, k := range sortedTS(st.TS) {
		v := st.TS[k]
		if strings.HasPrefix(k, "!") {
			fmt.Fprintf(&sb, "%s=%d;", k, v.id)
		}
	}
	return sb.String()
}

type lggc struct {
	x       *Exec
	S, T    *State
	fwd     map[*Val]*Val
	fixed   map[*Val]bool
	img     map[*Val]*Val // alloc/fresh images, for injectivity
	pairs   map[[2]*Val]*Val
	ints    []intPair
	base    map[*Val]*Val
	base0   map[*Val]*Val
	changed bool
	mem     [][2]*Val
	bounds  []intPair
	lens    []intPair
}

// onlyCounts: the tokens of v are numbers of iterations.
func onlyCounts(v *Val) bool {
	for t := range v.toks {
		if !strings.HasPrefix(t.Aux, "j#") {
			return false
		}
	}
	return len(v.toks) > 0
}

type intPair struct{ s, t, v *Val }

type slot struct {
	s, t *Val
	ty   types.Type
	set  func(*Val)
	ord  int
	root *Val // allocation the slot belongs to
}

// lgg computes the least general state covering snapshot s and state t.
// changed=false means s already covers t; theta maps s's tokens to t's values.
func (x *Exec) lgg(sn *snapshot, t *State) (*State, map[*Val]*Val, map[*Val]*Val, bool) {
	u := x.U
	s := sn.st
	c := &lggc{x: x, S: s, T: t, fwd: map[*Val]*Val{}, fixed: map[*Val]bool{}, img: map[*Val]*Val{},
		pairs: map[[2]*Val]*Val{}, base: map[*Val]*Val{}, base0: sn.base}
	n := s.Clone()
	var slots []slot
	addSlot := func(a, b *Val, ty types.Type, set func(*Val)) {
		o := 4
		switch {
		case a == b:
			o = 0
		case isListVal(a) || isListVal(b) || isSliceType(ty):
			o = 1
		case isIntVal(a, b, ty) && a.IsTok():
			o = 2
		case isIntVal(a, b, ty):
			o = 3
		}
		slots = append(slots, slot{s: a, t: b, ty: ty, set: set, ord: o})
	}
	for i, f := range n.Frames {
		if i >= len(t.Frames) {
			break
		}
		g := t.Frames[i]
		for _, k := range sortedEnv(f.Env) {
			k, f := k, f
			tv, ok := g.Env[k]
			if !ok {
				delete(f.Env, k)
				continue
			}
			addSlot(f.Env[k], tv, k.Type(), func(v *Val) { f.Env[k] = v })
		}
		for j := range f.Defers {
			if j < len(g.Defers) {
				d := &f.Defers[j]
				e := g.Defers[j]
				if d.fn != nil && e.fn != nil {
					addSlot(d.fn, e.fn, nil, func(v *Val) { d.fn = v })
				}
				d.args = append([]*Val(nil), d.args...)
				for q := range d.args {
					q := q
					if q < len(e.args) {
						addSlot(d.args[q], e.args[q], nil, func(v *Val) { d.args[q] = v })
					}
				}
			}
		}
	}
	for _, k := range sortedTS(s.TS) {
		k := k
		tv, ok := t.TS[k]
		if !ok {
			delete(n.TS, k)
			c.changed = true
			continue
		}
		addSlot(s.TS[k], tv, nil, func(v *Val) { n.TS[k] = v })
	}
	// memory cells present under the same address on either side
	addrs := map[*Val]bool{}
	for a := range s.Mem {
		addrs[a] = true
	}
	for a := range t.Mem {
		addrs[a] = true
	}
	nm := map[*Val]*Val{}
	var as []*Val
	for a := range addrs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		a := a
		sv, ok1 := s.Mem[a]
		tv, ok2 := t.Mem[a]
		if !ok1 || !ok2 {
			root := a
			for root.Op == OFieldAddr || root.Op == OIndexAddr {
				root = root.Args[0]
			}
			if root.Op == OAlloc || root.Op == OMake || root.Op == OMap {
				// allocated on one side only
				if ok1 {
					nm[a] = sv // kept if s's token survives; paired below
				}
				if root.Op == OMap && ok2 && !ok1 {
					sv = u.List()
					addSlot(sv, tv, nil, func(v *Val) { nm[a] = v })
				}
				continue
			}
			var ty types.Type
			if !ok1 {
				sv = x.Load(s, a, ty)
			}
			if !ok2 {
				tv = x.Load(t, a, ty)
			}
		}
		addSlot(sv, tv, nil, func(v *Val) { nm[a] = v })
		if r := rootAlloc(a); r.Op == OAlloc || r.Op == OMake || r.Op == OMap {
			sl := &slots[len(slots)-1]
			sl.root = r
			sl.ord = 5
		}
	}
	sort.SliceStable(slots, func(i, j int) bool { return slots[i].ord < slots[j].ord })
	// tokens in slots that do not change keep their identity; an allocation's
	// cells count only once the allocation itself is known to be the same
	for again := true; again; {
		again = false
		for _, sl := range slots {
			if sl.s != sl.t || sl.root != nil && !c.fixed[sl.root] {
				continue
			}
			for tk := range sl.s.toks {
				if !c.fixed[tk] {
					c.fwd[tk] = tk
					c.fixed[tk] = true
					c.img[tk] = tk
					again = true
				}
			}
		}
	}
	for _, sl := range slots {
		if sl.root != nil {
			w, set := c.fwd[sl.root]
			if set && w != sl.root {
				continue // paired with another allocation below
			}
			if !set {
				if o := c.img[sl.root]; o != nil && o != sl.root {
					continue
				}
				c.fwd[sl.root], c.img[sl.root] = sl.root, sl.root
			}
		}
		sl.set(c.gen(sl.s, sl.t, sl.ty, 0))
	}
	for i := 0; i < len(c.mem); i++ {
		p := c.mem[i]
		for _, a := range as {
			if r := rootAlloc(a); r == p[0] {
				if sv, ok := s.Mem[a]; ok {
					ta := u.Subst(a, map[*Val]*Val{p[0]: p[1]})
					tv, ok := t.Mem[ta]
					if !ok {
						tv = x.Load(t, ta, nil)
					}
					nm[a] = c.gen(sv, tv, nil, 0)
				}
			}
		}
	}
	n.Mem = nm
	// facts of s that also hold in t
	nf := map[*Val]bool{}
	for f, v := range s.Facts {
		g := u.Subst(f, c.fwd)
		b, known := x.Decide(t, g)
		if known && b == v {
			nf[f] = v
		} else {
			c.changed = true
			if x.Debug {
				fmt.Printf("   drop fact %v:%s (as %s)\n", v, f, g)
			}
		}
	}
	n.Facts = nf
	ni := map[*Val]Iv{}
	for f, iv := range s.Ivl {
		g := u.Subst(f, c.fwd)
		b := x.Bounds(t, g)
		r := iv
		if b.Lo < iv.Lo {
			r.Lo = -inf
		}
		if b.Hi > iv.Hi {
			r.Hi = inf
		}
		if r != iv {
			c.changed = true
			if x.Debug {
				fmt.Printf("   widen %s: [%d,%d] to [%d,%d]\n", f, iv.Lo, iv.Hi, r.Lo, r.Hi)
			}
		}
		if r.Lo > -inf || r.Hi < inf {
			ni[f] = r
		}
	}
	n.Ivl = ni
	for _, p := range c.lens {
		x.bound(n, u.Sub(p.v, p.s), 0, 0)
	}
	// bounds of new integer tokens against invariant atoms
	if len(c.bounds) > 0 {
		atoms := c.invariantAtoms()
		for _, p := range c.bounds {
			lo, hi := x.Bounds(s, p.s), x.Bounds(t, p.t)
			r := sn.hull(lo, hi)
			if d, ok := u.Sub(p.t, p.s).IntConst(); ok {
				if d > 0 {
					r.Hi = inf
				} else if d < 0 {
					r.Lo = -inf
				}
			}
			if r.Lo > -inf || r.Hi < inf {
				x.bound(n, p.v, r.Lo, r.Hi)
			}
			for _, a := range atoms {
				bs, bt := x.Bounds(s, u.Sub(p.s, a)), x.Bounds(t, u.Sub(p.t, a))
				r := sn.hull(bs, bt)
				if x.Debug {
					fmt.Println("   BND", p.s, p.t, a, bs, bt, r, sn.widenings)
				}
				if r.Lo > -inf || r.Hi < inf {
					x.bound(n, u.Sub(p.v, a), r.Lo, r.Hi)
				}
			}
		}
	}
	for k, v := range sn.base {
		if _, ok := c.base[k]; !ok {
			c.base[k] = v
		}
	}
	// what is known about the tokens of a list's start is needed again when
	// its contents become known
	for k, v := range c.base {
		if v.Op == OComp && onlyCounts(v) {
			n.TS["base:"+k.Aux] = v
		}
	}
	x.gc(n)
	return n, c.fwd, c.base, c.changed
}

// hull joins two intervals, giving up ends that keep moving.
func (sn *snapshot) hull(s, t Iv) Iv {
	r := Iv{min64(s.Lo, t.Lo), max64(s.Hi, t.Hi)}
	if sn.widenings > 3 {
		if r.Lo < s.Lo {
			r.Lo = -inf
		}
		if r.Hi > s.Hi {
			r.Hi = inf
		}
	}
	return r
}

func rootAlloc(a *Val) *Val {
	for a.Op == OFieldAddr || a.Op == OIndexAddr {
		a = a.Args[0]
	}
	return a
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func isListVal(v *Val) bool {
	switch v.Op {
	case OList, OAppend, OComp:
		return true
	}
	return v.Op == OSym && v.Aux != "" && strings.HasPrefix(v.Aux, "L#")
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isIntVal(a, b *Val, ty types.Type) bool {
	if ty != nil {
		if bt, ok := ty.Underlying().(*types.Basic); ok {
			return bt.Info()&types.IsInteger != 0
		}
		return false
	}
	return isIntish(a) && isIntish(b)
}

func (c *lggc) toksFixed(v *Val) bool {
	for t := range v.toks {
		if c.fwd[t] != t {
			return false
		}
	}
	return true
}

func (c *lggc) invariantAtoms() []*Val {
	u := c.x.U
	set := map[*Val]bool{}
	for _, st := range []*State{c.S, c.T} {
		for f := range st.Ivl {
			m, _ := u.linOf(f)
			for a := range m {
				if c.toksFixed(a) {
					set[a] = true
				}
			}
		}
	}
	var as []*Val
	for a := range set {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

// gen anti-unifies s and t.
func (c *lggc) gen(s, t *Val, ty types.Type, d int) *Val {
	u := c.x.U
	if s == t && c.toksFixed(s) {
		return s
	}
	if s == t {
		// every token unset so far keeps its identity
		ok := true
		for tk := range s.toks {
			if w, set := c.fwd[tk]; set && w != tk {
				ok = false
			}
		}
		if ok {
			for tk := range s.toks {
				if _, set := c.fwd[tk]; !set {
					if c.img[tk] != nil && c.img[tk] != tk {
						ok = false
					}
				}
			}
		}
		if ok {
			for tk := range s.toks {
				c.fwd[tk] = tk
				c.img[tk] = tk
			}
			return s
		}
	}
	if v, ok := c.pairs[[2]*Val{s, t}]; ok {
		return v
	}
	if r := u.Subst(s, c.fwd); r == t && c.allSet(s) {
		return s
	}
	if s.IsTok() {
		if w, set := c.fwd[s]; set {
			if w == t {
				return s
			}
		} else if c.bind(s, t) {
			return s
		}
	}
	if isListVal(s) || isListVal(t) || isSliceType(ty) {
		return c.listPair(s, t, ty, d)
	}
	if isIntVal(s, t, ty) {
		return c.intPair(s, t, ty)
	}
	if s.Op == t.Op && len(s.Args) == len(t.Args) && len(s.Args) > 0 && sameHead(s, t) && !s.IsTok() {
		as := make([]*Val, len(s.Args))
		for i := range as {
			as[i] = c.gen(s.Args[i], t.Args[i], nil, d+1)
		}
		return u.Rebuild(s, as)
	}
	return c.fresh(s, t, ty, "w")
}

func (c *lggc) allSet(v *Val) bool {
	for t := range v.toks {
		if _, ok := c.fwd[t]; !ok {
			return false
		}
	}
	return true
}

// bind lets the token s stand for t as well.
func (c *lggc) bind(s, t *Val) bool {
	switch s.Op {
	case OFresh, OAlloc, OMake, OMap:
		if t.Op != s.Op || !t.IsTok() {
			return false
		}
		if o := c.img[t]; o != nil && o != s {
			return false
		}
		if s.Op == OMake && u1(c, s.Args[0], t.Args[0]) == false {
			return false
		}
		c.img[t] = s
		c.fwd[s] = t
		if s.Op != OFresh && s != t {
			c.mem = append(c.mem, [2]*Val{s, t})
		}
		return true
	}
	c.fwd[s] = t
	return true
}

func u1(c *lggc, a, b *Val) bool { return a == b }

func sameHead(s, t *Val) bool {
	switch s.Op {
	case OIface, OStruct, OIsType, OAs, OConv:
		if (s.Typ == nil) != (t.Typ == nil) || s.Typ != nil && !types.Identical(s.Typ, t.Typ) {
			return false
		}
	case OLin, OAppend, OLen, OInit:
		return false
	}
	return s.Aux == t.Aux && s.Fn == t.Fn && s.Meth == t.Meth && s.I == t.I && s.K == t.K
}

func (c *lggc) fresh(s, t *Val, ty types.Type, pfx string) *Val {
	if ty == nil {
		if s.Typ != nil && t.Typ != nil && types.Identical(s.Typ, t.Typ) && s.Op != OIface {
			ty = s.Typ
		}
	}
	n := c.x.U.Tok(pfx, ty)
	c.pairs[[2]*Val{s, t}] = n
	c.fwd[n] = t
	c.base[n] = s
	c.changed = true
	return n
}

func (c *lggc) listPair(s, t *Val, ty types.Type, d int) *Val {
	u := c.x.U
	if s.IsNil() && t.IsNil() {
		return s
	}
	if s.Op == OList && t.Op == OList && len(s.Args) == len(t.Args) {
		as := make([]*Val, len(s.Args))
		for i := range as {
			as[i] = c.gen(s.Args[i], t.Args[i], nil, d+1)
		}
		return u.List(as...)
	}
	if s.Op == OComp && t.Op == OComp && s.Args[0] == t.Args[0] && s.Args[1] == t.Args[1] && s.Args[3] == t.Args[3] {
		hi := c.intPair(s.Args[4], t.Args[4], types.Typ[types.Int])
		return u.Comp(s.Args[0], s.Args[1], s.Args[2], s.Args[3], hi)
	}
	if s.Op == t.Op && !isListVal(s) && sameHead(s, t) && len(s.Args) == len(t.Args) && len(s.Args) > 0 && !s.IsTok() {
		as := make([]*Val, len(s.Args))
		for i := range as {
			as[i] = c.gen(s.Args[i], t.Args[i], nil, d+1)
		}
		return u.Rebuild(s, as)
	}
	n := c.fresh(s, t, ty, "L")
	ls, lt := u.Len(s), u.Len(t)
	// relate its length to integers already generalised
	for _, p := range c.ints {
		ds, ok1 := u.Sub(ls, p.s).IntConst()
		dt, ok2 := u.Sub(lt, p.t).IntConst()
		if ok1 && ok2 && ds == dt {
			c.lens = append(c.lens, intPair{u.Add(p.v, u.Int(ds)), nil, u.Len(n)})
			return n
		}
	}
	c.ints = append(c.ints, intPair{ls, lt, u.Len(n)})
	c.bounds = append(c.bounds, intPair{ls, lt, u.Len(n)})
	return n
}

func (c *lggc) intPair(s, t *Val, ty types.Type) *Val {
	u := c.x.U
	if s == t && c.toksFixed(s) {
		return s
	}
	if r := u.Subst(s, c.fwd); r == t && c.allSet(s) {
		return s
	}
	if s.IsTok() {
		if _, set := c.fwd[s]; !set && s.Op == OSym {
			c.fwd[s] = t
			c.ints = append(c.ints, intPair{s, t, s})
			return s
		}
	}
	// s is a linear term with exactly one unset token of coefficient 1
	if s.Op == OLin {
		var un *Val
		k := 0
		for i, a := range s.Args {
			if a.IsTok() && a.Op == OSym {
				if _, set := c.fwd[a]; !set {
					un = a
					k++
					if s.Co[i] != 1 {
						k = 9
					}
				}
			}
		}
		if k == 1 {
			rest := u.Sub(s, un)
			if c.allSet(rest) {
				c.fwd[un] = u.Sub(t, u.Subst(rest, c.fwd))
				c.ints = append(c.ints, intPair{un, c.fwd[un], un})
				return s
			}
		}
	}
	if v, ok := c.pairs[[2]*Val{s, t}]; ok {
		return v
	}
	for _, p := range c.ints {
		ds, ok1 := u.Sub(s, p.s).IntConst()
		dt, ok2 := u.Sub(t, p.t).IntConst()
		if ok1 && ok2 && ds == dt {
			c.changed = true
			return u.Add(p.v, u.Int(ds))
		}
	}
	n := c.fresh(s, t, ty, "i")
	if n.Typ == nil {
		n = c.retype(n, s, t)
	}
	c.ints = append(c.ints, intPair{s, t, n})
	c.bounds = append(c.bounds, intPair{s, t, n})
	return n
}

func (c *lggc) retype(n, s, t *Val) *Val {
	delete(c.fwd, n)
	delete(c.base, n)
	m := c.x.U.Tok("i", types.Typ[types.Int])
	c.pairs[[2]*Val{s, t}] = m
	c.fwd[m] = t
	c.base[m] = s
	return m
}

// refine turns list tokens that grow by a function of the iteration number
// into closed form.
func (x *Exec) refine(sn *snapshot, theta map[*Val]*Val) (*State, map[*Val]*Val) {
	if sn.refines > 3 {
		return nil, nil
	}
	u := x.U
	s := sn.st
	sToks := map[*Val]bool{}
	for _, f := range s.Frames {
		for _, v := range f.Env {
			for t := range v.toks {
				sToks[t] = true
			}
		}
	}
	for _, v := range s.TS {
		for t := range v.toks {
			sToks[t] = true
		}
	}
	for k, v := range s.Mem {
		for t := range v.toks {
			sToks[t] = true
		}
		for t := range k.toks {
			sToks[t] = true
		}
	}
	type li struct {
		n    *Val
		step []*Val
		m    int
	}
	var lists []li
	var ints []intPair // s: token, t: base, v: step const
	for n, b := range sn.base {
		if !sToks[n] {
			continue
		}
		t, ok := theta[n]
		if !ok {
			continue
		}
		if strings.HasPrefix(n.Aux, "L#") {
			if t.Op == OAppend && t.Args[0] == n && t.Args[1].Op == OList {
				lists = append(lists, li{n, t.Args[1].Args, len(t.Args[1].Args)})
			}
			continue
		}
		if isIntish(n) {
			if d, ok := u.Sub(t, n).IntConst(); ok && d != 0 {
				ints = append(ints, intPair{n, b, u.Int(d)})
			}
		}
	}
	if len(lists) == 0 {
		return nil, nil
	}
	sort.Slice(lists, func(i, j int) bool { return lists[i].n.id < lists[j].n.id })
	sort.Slice(ints, func(i, j int) bool { return ints[i].s.id < ints[j].s.id })
	x.U.tok++
	J := u.Tok("j", types.Typ[types.Int])
	m0 := map[*Val]*Val{} // scalars in terms of J
	for _, p := range ints {
		m0[p.s] = u.Add(p.t, u.Mul(J, p.v))
	}
	for _, l := range lists {
		m0[u.Len(l.n)] = u.Add(u.Len(sn.base[l.n]), u.Mul(J, u.Int(int64(l.m))))
	}
	ok := func(v *Val) bool {
		for t := range v.toks {
			if t == J {
				continue
			}
			if _, loop := sn.base[t]; loop && theta[t] != t {
				return false
			}
			if !sToks[t] {
				return false
			}
		}
		return true
	}
	m := map[*Val]*Val{}
	for k, v := range m0 {
		m[k] = v
	}
	any := false
	var left []li
	for _, l := range lists {
		tm := u.Subst(u.List(l.step...), m0)
		if !ok(tm) {
			left = append(left, l)
			continue
		}
		any = true
		m[l.n] = u.Comp(sn.base[l.n], tm, J, u.Int(0), J)
	}
	if !any {
		return nil, nil
	}
	n := s.Clone()
	x.SubstState(n, m)
	x.bound(n, J, 0, inf)
	for _, l := range left {
		// the token survives; its length is known
		delete(m, u.Len(l.n))
	}
	for _, l := range left {
		x.bound(n, u.Sub(u.Len(l.n), m0[u.Len(l.n)]), 0, 0)
	}
	base := map[*Val]*Val{J: u.Int(0)}
	for _, l := range left {
		base[l.n] = sn.base[l.n]
	}
	for k, v := range sn.base {
		if _, gone := m[k]; !gone {
			base[k] = v
		}
	}
	x.gc(n)
	return n, base
}
