package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/load"
)

// loc is an abstract memory location of one function: what a parameter or
// captured variable points to (P, V), what is one load away (C, U), what is
// further away (D, W),
// a package-level variable and everything reachable from it, or an object
// allocated at some instruction. The key restricts it to objects of one type
// (0 means any).
type loc struct {
	kind byte // P, C, D, V, U, W, G, F
	idx  int
	key  int
}

// locSet is a set of a function's locations, by number.
type locSet []uint64

var locG = loc{'G', 0, 0}

func (s locSet) has(i int) bool { return i>>6 < len(s) && s[i>>6]&(1<<(i&63)) != 0 }

func (s *locSet) addOne(i int) bool {
	if s.has(i) {
		return false
	}
	for i>>6 >= len(*s) {
		*s = append(*s, 0)
	}
	(*s)[i>>6] |= 1 << (i & 63)
	return true
}

func (s *locSet) add(t locSet) bool {
	ch := false
	for len(*s) < len(t) {
		*s = append(*s, 0)
	}
	for i, w := range t {
		if w&^(*s)[i] != 0 {
			(*s)[i] |= w
			ch = true
		}
	}
	return ch
}

func (s locSet) empty() bool {
	for _, w := range s {
		if w != 0 {
			return false
		}
	}
	return true
}

func (s locSet) count() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

func (s locSet) each(f func(i int)) {
	for i, w := range s {
		for w != 0 {
			f(i<<6 + bits.TrailingZeros64(w))
			w &= w - 1
		}
	}
}

func oneLoc(i int) locSet {
	var s locSet
	s.addOne(i)
	return s
}

// effKey is a location and the place that writes it.
type effKey struct {
	loc int
	pos token.Pos
}

// effect is a write to memory the function did not allocate.
type effect struct {
	pos  token.Pos
	what string
	in   string // the function that writes
	via  []string
	at   ssa.Instruction
}

type fnEff struct {
	e      *effects
	fn     *ssa.Function
	locs   []loc
	ids    map[loc]int
	pts    map[ssa.Value]locSet
	tup    map[ssa.Value][]locSet
	cont   []locSet // by location: what its variables refer to
	base   []locSet // the part of it that holds by construction
	eff    map[effKey]effect
	ret    []locSet
	site   map[ssa.Instruction]int
	live   map[*ssa.BasicBlock]bool
	masks  map[string]*mask
	calls  map[ssa.Instruction]callMemo
	change bool
	ver    int // of the summary
	cver   int // of the contents
}

type mask struct {
	n    int
	keep locSet
	zero locSet
}

type callMemo struct {
	ver, cver, n int
}

func (s *fnEff) id(l loc) int {
	if i, ok := s.ids[l]; ok {
		return i
	}
	i := len(s.locs)
	s.ids[l] = i
	s.locs = append(s.locs, l)
	s.cont = append(s.cont, nil)
	s.base = append(s.base, nil)
	var r locSet
	switch l.kind {
	case 'P', 'C', 'D', 'V', 'U', 'W':
		n := map[byte]byte{'P': 'C', 'C': 'D', 'D': 'D', 'V': 'U', 'U': 'W', 'W': 'W'}[l.kind]
		for _, k := range s.e.tk.reach1(l.key) {
			r.addOne(s.id(loc{n, l.idx, k}))
		}
	case 'G':
		r.addOne(i)
	}
	s.base[i] = r
	s.cont[i].add(r)
	return i
}

// narrow keeps the objects a value of the type can refer to.
func (s *fnEff) narrow(t locSet, typ types.Type) locSet {
	ks := s.e.tk.shallow(typ)
	if len(ks) == 1 && ks[0] == 0 || t.empty() {
		return t
	}
	key := s.e.tk.name(typ)
	m := s.masks[key]
	if m == nil {
		m = &mask{}
		s.masks[key] = m
	}
	for ; m.n < len(s.locs); m.n++ {
		l := s.locs[m.n]
		if l.kind == 'G' || l.kind == 'F' && l.key == 0 {
			m.keep.addOne(m.n)
		} else if l.key == 0 {
			m.zero.addOne(m.n)
		} else {
			for _, x := range ks {
				if s.e.tk.compat(l.key, x) {
					m.keep.addOne(m.n)
					break
				}
			}
		}
	}
	var r, z locSet
	for i, w := range t {
		if i < len(m.keep) {
			r = append(r, w&m.keep[i])
		}
		if i < len(m.zero) {
			z = append(z, w&m.zero[i])
		}
	}
	z.each(func(i int) {
		l := s.locs[i]
		if !s.maybe(l, typ) {
			return
		}
		for _, x := range ks {
			r.addOne(s.id(loc{l.kind, l.idx, x}))
		}
	})
	return r
}

// maybe: what a parameter of interface type refers to directly can be seen
// under another type only if that type implements the interface.
func (s *fnEff) maybe(l loc, typ types.Type) bool {
	if l.kind != 'P' || l.idx >= len(s.fn.Params) {
		return true
	}
	it, ok := s.fn.Params[l.idx].Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return true
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		return true
	}
	return types.Implements(typ, it) || types.Implements(types.NewPointer(typ), it)
}

// only keeps the objects compatible with one key.
func (s *fnEff) only(t locSet, key int) locSet {
	if key == 0 {
		return t
	}
	var r locSet
	t.each(func(i int) {
		l := s.locs[i]
		if l.kind == 'G' || l.key != 0 && s.e.tk.compat(l.key, key) || l.key == 0 && l.kind == 'F' {
			r.addOne(i)
		} else if l.key == 0 && s.maybe(l, s.e.tk.layout[key].typ) {
			r.addOne(s.id(loc{l.kind, l.idx, key}))
		}
	})
	return r
}

func freshRet(key int) loc { return loc{'F', -1, key} }

type effects struct {
	c      *Ctx
	fns    map[*ssa.Function]*fnEff
	order  []*ssa.Function
	byName map[string][]*ssa.Function // module methods by name
	vals   []*ssa.Function            // functions used as values
	reach  map[*ssa.Function]bool
	tk     *typeKeys
	cells  map[*ssa.Alloc]bool
}

// hasPtr: values of the type give access to memory.
func hasPtr(t types.Type) bool {
	return hasPtrD(t, 0)
}

func hasPtrD(t types.Type, d int) bool {
	if d > 10 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtrD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtrD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (c *Ctx) effectAnalysis() *effects {
	e := &effects{c: c, fns: map[*ssa.Function]*fnEff{}, byName: map[string][]*ssa.Function{}, reach: map[*ssa.Function]bool{}, cells: map[*ssa.Alloc]bool{}}
	e.tk = newTypeKeys(c)
	for _, f := range c.allFuncs() {
		e.addFn(f)
	}
	// wrappers and bound methods used as values
	for i := 0; i < len(e.order); i++ {
		for _, b := range e.order[i].Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && len(f.Blocks) > 0 && e.inMod(f) {
						e.addFn(f)
					}
				}
			}
		}
	}
	for _, f := range e.order {
		if f.Signature.Recv() != nil {
			e.byName[f.Name()] = append(e.byName[f.Name()], f)
		}
	}
	ef := &errFlow{c: c}
	e.vals = ef.values()
	return e
}

func (e *effects) inMod(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), load.Mod)
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), load.Mod)
		}
		if obj := g.Object(); obj != nil && obj.Pkg() != nil {
			return strings.HasPrefix(obj.Pkg().Path(), load.Mod)
		}
	}
	return false
}

func (e *effects) addFn(f *ssa.Function) {
	if e.fns[f] != nil {
		return
	}
	s := &fnEff{e: e, fn: f, ids: map[loc]int{}, pts: map[ssa.Value]locSet{}, tup: map[ssa.Value][]locSet{}, eff: map[effKey]effect{},
		ret: make([]locSet, f.Signature.Results().Len()), site: map[ssa.Instruction]int{}, live: liveBlocks(f),
		masks: map[string]*mask{}, calls: map[ssa.Instruction]callMemo{}}
	s.id(locG)
	e.fns[f] = s
	e.order = append(e.order, f)
}

// liveBlocks leaves out code behind constant conditions.
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if k, ok := i.Cond.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) {
						walk(b.Succs[0])
					} else {
						walk(b.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
		if f.Recover != nil {
			walk(f.Recover)
		}
	}
	return live
}

func (e *effects) solve() {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range e.order {
		if !e.reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var gs []*ssa.Function
				if mc, ok := in.(*ssa.MakeClosure); ok {
					gs = append(gs, mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					gs = append(gs, e.targets(f, c.Common())...)
				}
				for _, g := range gs {
					if callers[g] == nil {
						callers[g] = map[*ssa.Function]bool{}
					}
					callers[g][f] = true
				}
			}
		}
	}
	// callees first
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || e.fns[f] == nil || !e.reach[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range e.targets(f, c.Common()) {
						visit(g)
					}
				}
			}
		}
		order = append(order, f)
	}
	for _, f := range e.order {
		visit(f)
	}
	dirty := map[*ssa.Function]bool{}
	for _, f := range order {
		dirty[f] = true
	}
	for {
		any := false
		for _, f := range order {
			if !dirty[f] {
				continue
			}
			any = true
			delete(dirty, f)
			s := e.fns[f]
			v := s.ver
			for {
				s.change = false
				e.pass(s)
				if !s.change {
					break
				}
			}
			if s.ver != v {
				for g := range callers[f] {
					dirty[g] = true
				}
			}
		}
		if !any {
			return
		}
	}
}

func (s *fnEff) of(v ssa.Value) locSet {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return oneLoc(s.id(locG))
	case *ssa.Parameter:
		if r, ok := s.pts[v]; ok || !hasPtr(v.Type()) {
			return r
		}
		for i, p := range s.fn.Params {
			if p == v {
				s.pts[v] = s.paramLocs('P', i, v.Type())
			}
		}
	case *ssa.FreeVar:
		if r, ok := s.pts[v]; ok {
			return r
		}
		for i, p := range s.fn.FreeVars {
			if p == v {
				s.pts[v] = s.paramLocs('V', i, v.Type())
			}
		}
	}
	return s.pts[v]
}

func (s *fnEff) set(v ssa.Value, t locSet) {
	if t.empty() || !hasPtr(v.Type()) {
		return
	}
	s.setRaw(v, s.narrow(t, v.Type()))
}

func (s *fnEff) setRaw(v ssa.Value, t locSet) {
	p := s.pts[v]
	if p.add(t) {
		s.pts[v] = p
		s.change = true
	}
}

// paramLocs are the objects a parameter of the type refers to.
func (s *fnEff) paramLocs(kind byte, i int, t types.Type) locSet {
	return s.narrow(oneLoc(s.id(loc{kind, i, 0})), t)
}

func (s *fnEff) load(t locSet) locSet {
	var r locSet
	t.each(func(i int) { r.add(s.cont[i]) })
	return r
}

// deep is the set and everything reachable from it.
func (s *fnEff) deep(t locSet) locSet {
	var r locSet
	r.add(t)
	var work []int
	t.each(func(i int) { work = append(work, i) })
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		var more locSet
		for j, w := range s.cont[i] {
			if j < len(r) {
				w &^= r[j]
			}
			more = append(more, w)
		}
		if r.add(more) {
			more.each(func(j int) { work = append(work, j) })
		}
	}
	return r
}

func (s *fnEff) fresh(in ssa.Instruction, key int) int {
	i, ok := s.site[in]
	if !ok {
		i = len(s.site)
		s.site[in] = i
	}
	return s.id(loc{'F', i, key})
}

func (s *fnEff) put(i int, t locSet) {
	if s.cont[i].add(t) {
		s.change = true
		s.cver++
		if l := s.locs[i]; l.kind != 'F' || l.idx == -1 {
			s.ver++
		}
	}
}

func (s *fnEff) write(t locSet, at ssa.Instruction, what, in string, via []string) {
	pos := at.Pos()
	t.each(func(i int) {
		if s.locs[i].kind == 'F' {
			return
		}
		k := effKey{i, pos}
		if _, ok := s.eff[k]; !ok {
			s.eff[k] = effect{pos, what, in, via, at}
			s.change = true
			s.ver++
		}
	})
}

func (s *fnEff) store(addr, val locSet, pos ssa.Instruction, what string) {
	addr.each(func(i int) { s.put(i, val) })
	s.write(addr, pos, what, relName(s.fn), nil)
}

func (e *effects) pass(s *fnEff) {
	for _, b := range s.fn.Blocks {
		if !s.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			e.instr(s, in)
		}
	}
}

func (e *effects) instr(s *fnEff, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		for _, k := range e.tk.shallow(v.Type()) {
			s.set(v, oneLoc(s.fresh(in, k)))
		}
	case *ssa.FieldAddr:
		s.set(in, s.of(in.X))
	case *ssa.IndexAddr:
		s.set(in, s.of(in.X))
	case *ssa.Field:
		s.set(in, s.of(in.X))
	case *ssa.Index:
		s.set(in, s.of(in.X))
	case *ssa.Slice:
		s.set(in, s.of(in.X))
	case *ssa.ChangeType:
		s.set(in, s.of(in.X))
	case *ssa.ChangeInterface:
		s.set(in, s.of(in.X))
	case *ssa.MakeInterface:
		s.set(in, s.of(in.X))
	case *ssa.TypeAssert:
		s.set(in, s.of(in.X))
	case *ssa.Convert:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			for _, k := range e.tk.shallow(in.Type()) {
				s.set(in, oneLoc(s.fresh(in, k))) // string to bytes
			}
		} else {
			s.set(in, s.of(in.X))
		}
	case *ssa.SliceToArrayPointer:
		s.set(in, s.of(in.X))
	case *ssa.MultiConvert:
		s.set(in, s.of(in.X))
	case *ssa.Phi:
		for _, x := range in.Edges {
			s.set(in, s.of(x))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if vals, ok := e.cellLoad(in); ok {
				for _, v := range vals {
					s.set(in, s.of(v))
				}
				break
			}
			s.set(in, s.load(s.of(in.X)))
		} else if in.Op == token.ARROW {
			s.set(in, s.load(s.of(in.X)))
		}
	case *ssa.BinOp:
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			s.set(in, s.load(s.of(in.X)))
		}
	case *ssa.Range:
		s.setRaw(in, s.of(in.X))
	case *ssa.Next:
		if !in.IsString {
			s.setRaw(in, s.load(s.pts[in.Iter]))
		}
	case *ssa.Extract:
		if m := s.tup[in.Tuple]; m != nil {
			s.set(in, m[in.Index])
		} else {
			s.set(in, s.of(in.Tuple))
		}
	case *ssa.Store:
		s.store(s.of(in.Addr), s.of(in.Val), in, "assignment")
	case *ssa.MapUpdate:
		var v locSet
		v.add(s.of(in.Key))
		v.add(s.of(in.Value))
		s.store(s.of(in.Map), v, in, mapUpdate(in))
	case *ssa.Send:
		s.store(s.of(in.Chan), s.of(in.X), in, "send")
	case *ssa.MakeClosure:
		f := s.fresh(in, 0)
		s.set(in, oneLoc(f))
		for _, b := range in.Bindings {
			s.put(f, s.of(b))
		}
		e.closure(s, in)
	case *ssa.Return:
		for i, r := range in.Results {
			if s.ret[i].add(s.exported(s.of(r))) {
				s.change = true
				s.ver++
			}
			// what hangs off the new objects
			s.deep(s.of(r)).each(func(i int) {
				if l := s.locs[i]; l.kind == 'F' && l.idx != -1 {
					s.put(s.id(freshRet(l.key)), s.exported(s.cont[i]))
				}
			})
		}
	case ssa.CallInstruction:
		e.call(s, in)
	}
}

// exported replaces the function's own objects by what the caller sees.
func (s *fnEff) exported(t locSet) locSet {
	var r locSet
	t.each(func(i int) {
		if l := s.locs[i]; l.kind == 'F' {
			i = s.id(freshRet(l.key))
		}
		r.addOne(i)
	})
	return r
}

// bind maps a callee's locations to the caller's.
func (s *fnEff) bind(at ssa.Instruction, args []locSet, free []locSet) func(l loc) locSet {
	type key struct {
		kind byte
		i    int
	}
	cache := map[key]locSet{}
	get := func(kind byte, i int) locSet {
		k := key{kind, i}
		if d, ok := cache[k]; ok {
			return d
		}
		var d locSet
		switch kind {
		case 'C':
			d = s.load(args[i])
		case 'D':
			d = s.deep(s.load(args[i]))
		case 'U':
			d = s.load(free[i])
		case 'W':
			d = s.deep(s.load(free[i]))
		}
		cache[k] = d
		return d
	}
	memo := map[loc]locSet{}
	return func(l loc) locSet {
		if r, ok := memo[l]; ok {
			return r
		}
		var r locSet
		switch l.kind {
		case 'P':
			if l.idx < len(args) {
				r = s.only(args[l.idx], l.key)
			}
		case 'C', 'D':
			if l.idx < len(args) {
				r = s.only(get(l.kind, l.idx), l.key)
			}
		case 'V':
			if l.idx < len(free) {
				r = s.only(free[l.idx], l.key)
			}
		case 'U', 'W':
			if l.idx < len(free) {
				r = s.only(get(l.kind, l.idx), l.key)
			}
		case 'G':
			r = oneLoc(s.id(locG))
		case 'F':
			r = oneLoc(s.fresh(at, l.key))
		}
		memo[l] = r
		return r
	}
}

func (e *effects) apply(s *fnEff, g *fnEff, at ssa.Instruction, args, free []locSet, only func(l loc) bool) {
	m := s.bind(at, args, free)
	for _, k := range g.effKeys() {
		l := g.locs[k.loc]
		if only != nil && !only(l) {
			continue
		}
		ef := g.eff[k]
		via := append([]string{relName(g.fn)}, ef.via...)
		if len(via) > 6 {
			via = via[:6]
		}
		s.write(m(l), ef.at, ef.what, ef.in, via)
	}
	for i := 0; i < len(g.cont); i++ {
		l := g.locs[i]
		if l.kind == 'F' && l.idx != -1 || l.kind == 'G' {
			continue
		}
		if only != nil && !only(l) {
			continue
		}
		var extra, to locSet
		for j, w := range g.cont[i] {
			if j < len(g.base[i]) {
				w &^= g.base[i][j]
			}
			extra = append(extra, w)
		}
		if extra.empty() {
			continue
		}
		at := m(l)
		if at.empty() {
			continue
		}
		extra.each(func(j int) {
			if x := g.locs[j]; x.kind != 'F' || x.idx == -1 {
				to.add(m(x))
			}
		})
		at.each(func(d int) { s.put(d, to) })
	}
}

// closure applies what a literal does to the variables it captured, as if it
// ran where it was made.
func (e *effects) closure(s *fnEff, in *ssa.MakeClosure) {
	g := e.fns[in.Fn.(*ssa.Function)]
	if g == nil {
		return
	}
	var free []locSet
	for _, b := range in.Bindings {
		free = append(free, s.of(b))
	}
	e.apply(s, g, in, nil, free, func(l loc) bool { return l.kind == 'V' || l.kind == 'U' || l.kind == 'W' || l.kind == 'G' })
}

func (e *effects) call(s *fnEff, in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(s, in, b.Name())
		return
	}
	var args []locSet
	if c.IsInvoke() {
		args = append(args, s.of(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, s.of(a))
	}
	gs := e.targets(s.fn, c)
	if clientCallback(c) {
		gs = nil
	}
	res := make([]locSet, c.Signature().Results().Len())
	memo := callMemo{cver: s.cver, n: s.of(c.Value).count()}
	for _, f := range gs {
		if g := e.fns[f]; g != nil {
			memo.ver += g.ver
		}
	}
	for _, a := range args {
		memo.n += a.count()
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			memo.n += s.of(b).count()
		}
	}
	if s.calls[in] == memo {
		return
	}
	ext := len(gs) == 0
	for _, f := range gs {
		g := e.fns[f]
		if g == nil {
			ext = true
			continue
		}
		var free []locSet
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, s.of(b))
			}
		} else if len(f.FreeVars) > 0 {
			// the variables it captured hang off the function value
			cells := s.load(s.of(c.Value))
			for _, v := range f.FreeVars {
				free = append(free, s.narrow(cells, v.Type()))
			}
		}
		e.apply(s, g, in, args, free, nil)
		m := s.bind(in, args, free)
		for i, t := range g.ret {
			if i < len(res) {
				t.each(func(l int) { res[i].add(m(g.locs[l])) })
			}
		}
	}
	if ext {
		e.external(s, in, c, args, res)
	}
	s.calls[in] = memo
	v := in.Value()
	if v == nil {
		return
	}
	if len(res) == 1 {
		s.set(v, res[0])
	} else if len(res) > 1 {
		if s.tup[v] == nil {
			s.tup[v] = make([]locSet, len(res))
		}
		for i, r := range res {
			if s.tup[v][i].add(r) {
				s.change = true
			}
		}
	}
}

// effKeys lists the effects in a fixed order.
func (s *fnEff) effKeys() []effKey {
	var ks []effKey
	for k := range s.eff {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].pos < ks[j].pos || ks[i].pos == ks[j].pos && ks[i].loc < ks[j].loc
	})
	return ks
}

// targets are the module functions a call may reach.
func (e *effects) targets(from *ssa.Function, c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if e.fns[f] != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, f := range e.byName[c.Method.Name()] {
			if e.tool(f) && !e.tool(from) {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			} else if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); !isPtr && types.Implements(types.NewPointer(f.Signature.Recv().Type()), it) {
				out = append(out, f)
			} else if e.promoted(f, it) {
				out = append(out, f)
			}
		}
		return out
	}
	for _, f := range e.vals {
		if e.fns[f] != nil && (!e.tool(f) || e.tool(from)) && types.Identical(f.Signature.Params(), c.Signature().Params()) && types.Identical(f.Signature.Results(), c.Signature().Results()) && f.Signature.Recv() == nil {
			out = append(out, f)
		}
	}
	return out
}

// tool: part of a command, which nothing in the library calls.
func (e *effects) tool(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.Contains(g.Pkg.Pkg.Path()+"/", "/cmd/")
		}
	}
	return false
}

// clientCallback: the function called is an exported field of an exported
// struct, which clients fill in.
func clientCallback(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return false
	}
	var t types.Type
	var i int
	switch v := c.Value.(type) {
	case *ssa.Field:
		t, i = v.X.Type(), v.Field
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t, i = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
	default:
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported() && t.Underlying().(*types.Struct).Field(i).Exported()
}

// promoted: some module type gets the method by embedding.
func (e *effects) promoted(f *ssa.Function, it *types.Interface) bool {
	return false
}

func (e *effects) builtin(s *fnEff, in ssa.CallInstruction, name string) {
	c := in.Common()
	switch name {
	case "append":
		base := s.of(c.Args[0])
		f := s.fresh(in, e.tk.shallow(c.Args[0].Type())[0])
		res := oneLoc(f)
		res.add(base)
		var elems locSet
		if len(c.Args) > 1 {
			if _, ok := c.Args[1].Type().Underlying().(*types.Basic); !ok {
				elems = s.load(s.of(c.Args[1]))
			}
		}
		if !hasPtr(c.Args[0].Type().Underlying().(*types.Slice).Elem()) {
			elems = nil
		}
		s.put(f, s.load(base))
		s.put(f, elems)
		if !cappedSlice(c.Args[0]) {
			base.each(func(l int) { s.put(l, elems) })
			s.write(base, in, "append", relName(s.fn), nil)
		}
		if v := in.Value(); v != nil {
			s.set(v, res)
		}
	case "copy":
		var elems locSet
		if _, ok := c.Args[1].Type().Underlying().(*types.Basic); !ok {
			elems = s.load(s.of(c.Args[1]))
		}
		s.store(s.of(c.Args[0]), elems, in, "copy")
	case "delete", "clear":
		s.write(s.of(c.Args[0]), in, name, relName(s.fn), nil)
	case "min", "max", "len", "cap", "print", "println", "panic", "recover", "close", "real", "imag", "complex":
	case "ssa:wrapnilchk":
		if v := in.Value(); v != nil {
			s.set(v, s.of(c.Args[0]))
		}
	}
}

// cappedSlice: s[a:b:b], to which appending always copies.
func cappedSlice(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.Max != nil && sl.Max == sl.High
}

// external models functions outside the module: results may refer to
// anything the arguments do; only those known to modify an argument do.
func (e *effects) external(s *fnEff, in ssa.CallInstruction, c *ssa.CallCommon, args []locSet, res []locSet) {
	name, fname := "", ""
	if f := c.StaticCallee(); f != nil {
		name, fname = f.RelString(nil), f.Name()
		if o := f.Origin(); o != nil {
			name = o.RelString(nil)
		}
	} else if c.IsInvoke() {
		name, fname = c.Method.FullName(), c.Method.Name()
	}
	if i := mutates(name, fname, c); i >= 0 && i < len(args) {
		args[i].each(func(l int) {
			for j, a := range args {
				if j != i {
					s.put(l, a)
				}
			}
		})
		s.write(args[i], in, "call of "+name, relName(s.fn), nil)
	}
	sig := c.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !hasPtr(t) {
			continue
		}
		var own locSet
		for _, k := range e.tk.shallow(t) {
			own.addOne(s.fresh(in, k))
		}
		res[i].add(own)
		if ownData(t) {
			continue
		}
		for _, a := range args {
			from := s.deep(a)
			res[i].add(s.narrow(from, t))
			own.each(func(f int) { s.put(f, from) })
		}
	}
}

// ownData: a container of plain data, made anew.
func ownData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return !hasPtr(u.Elem()) || ownData(u.Elem())
	case *types.Map:
		return !hasPtr(u.Elem()) && !hasPtr(u.Key())
	}
	return false
}

// mutates tells which argument of an external function is modified.
func mutates(name, fname string, c *ssa.CallCommon) int {
	switch {
	case strings.HasPrefix(name, "sort.") && (fname == "Slice" || fname == "SliceStable" || fname == "Sort" || fname == "Stable" || fname == "Strings" || fname == "Ints" || fname == "Float64s"):
		return 0
	case strings.HasPrefix(name, "slices.") && (strings.HasPrefix(fname, "Sort") || fname == "Reverse" || strings.HasPrefix(fname, "Delete") || strings.HasPrefix(fname, "Insert") || strings.HasPrefix(fname, "Compact") || strings.HasPrefix(fname, "Replace")):
		return 0
	case strings.HasPrefix(name, "maps.") && (fname == "Copy" || fname == "DeleteFunc"):
		return 0
	case strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "io.WriteString") || name == "io.Copy":
		return 0
	case strings.HasPrefix(name, "sync/atomic.") && fname != "LoadInt64" && fname != "LoadInt32" && fname != "LoadPointer" && fname != "LoadUint32" && fname != "LoadUint64":
		return 0
	case fname == "Unmarshal" || strings.HasPrefix(fname, "Unmarshal"):
		return len(c.Args) - 1
	case strings.HasPrefix(name, "(*regexp.Regexp)."):
		if fname == "Longest" {
			return 0
		}
		return -1
	case strings.HasPrefix(name, "(reflect.Value).Set"):
		return 0
	}
	// methods of library objects that are changed by use
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*bufio.", "(*sync.", "(*sync/atomic.", "(*math/rand.", "(*container/", "(*text/template.", "(*os.File)."} {
		if strings.HasPrefix(name, p) {
			switch fname {
			case "String", "Len", "Cap", "Bytes":
				return -1
			}
			return 0
		}
	}
	if strings.Contains(name, "Builder") && strings.HasPrefix(name, "(*") {
		switch fname {
		case "Count", "Get", "Has":
			return -1
		}
		return 0
	}
	if c.IsInvoke() {
		if strings.HasPrefix(fname, "Write") || strings.HasPrefix(fname, "Read") || strings.HasPrefix(fname, "Add") || strings.HasPrefix(fname, "Set") {
			return 0
		}
	}
	return -1
}

// reachable closes roots under calls and literals made.
func (e *effects) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || e.fns[f] == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			if !e.fns[f].live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok && !clientCallback(c.Common()) {
					for _, g := range e.targets(f, c.Common()) {
						walk(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// mapUpdate describes an update, naming the entry when it is a fixed one.
func mapUpdate(in *ssa.MapUpdate) string {
	k, ok := in.Key.(*ssa.Const)
	if !ok || k.Value == nil {
		return "map update"
	}
	return "update of entry " + k.Value.ExactString() + " of " + types.TypeString(in.Map.Type(), func(p *types.Package) string { return p.Name() })
}
