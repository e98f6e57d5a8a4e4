package absint

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes a call about to be interpreted.
type CallInfo struct {
	Fn     *ssa.Function // callee when statically known or resolved
	Method *types.Func   // interface method when the receiver's type is unknown
	Recv   *Val
	Args   []*Val // all arguments; the receiver first for methods
	FnVal  *Val
	Instr  ssa.CallInstruction
	Pos    token.Pos
}

// Name is a readable name of the callee.
func (c *CallInfo) Name() string {
	if c.Fn != nil {
		return c.Fn.RelString(nil)
	}
	if c.Method != nil {
		return c.Method.FullName()
	}
	return "dynamic"
}

// Out is one outcome of a hooked call.
type Out struct {
	St  *State
	Val *Val // OTuple for several results
}

// Outcome is a terminal state of the analysed function.
type Outcome struct {
	St    *State
	Res   []*Val
	Panic *Val // non-nil for an explicit panic
	Pos   token.Pos
}

type Report struct {
	Rule  string
	Msg   string
	Pos   token.Pos
	Trail []string
	deps  []int
}

type Hooks struct {
	// Call may model a call; handled=false leaves it to the engine.
	Call func(x *Exec, st *State, c *CallInfo) (outs []Out, handled bool)
	// Store sees every store before it happens.
	Store func(x *Exec, st *State, addr, val *Val, in ssa.Instruction)
	// MapUpdate sees every map update before it happens.
	MapUpdate func(x *Exec, st *State, m, k, v *Val, in ssa.Instruction)
	// Back sees each state reaching a loop header over a back edge.
	Back func(x *Exec, st *State, header *ssa.BasicBlock)
	// Inline decides whether a module function is entered (default yes).
	Inline func(fn *ssa.Function) bool
}

type Exec struct {
	U          *Universe
	Prog       *ssa.Program
	ModPath    string
	Closed     func(*Val) []types.Type
	Hooks      Hooks
	MaxSteps   int
	MaxDepth   int
	Recover    *Val // what recover() yields (default nil)
	MaxRec     int  // activations of one function on the stack beyond the first
	Outcomes   []*Outcome
	Reports    []*Report
	Undecided  []string
	Debug      bool
	SplitKeys  bool // decide by cases whether keys of a map made here are equal
	NoConverge bool // states that meet outside loops go on separately
	Unroll     int  // iterations of a loop with constant exits done before widening, if more than usual
	UnrollSym  int  // iterations of a loop with a constant and a symbolic exit done before widening

	super   map[int]bool
	snapN   int
	queue   stateHeap
	seq     int
	visited map[string][][]int
	steps   int
	noFacts *State
	States  int // states explored
	fninfo  map[*ssa.Function]*fnInfo
	Inlined map[*ssa.Function]int
}

func NewExec(prog *ssa.Program, mod string) *Exec {
	return &Exec{
		U: NewUniverse(), Prog: prog, ModPath: mod,
		MaxSteps: 400000, MaxDepth: 14,
		super: map[int]bool{}, visited: map[string][][]int{},
		noFacts: NewState(), fninfo: map[*ssa.Function]*fnInfo{}, Inlined: map[*ssa.Function]int{},
	}
}

type qItem struct {
	st   *State
	prio int
	seq  int
}
type stateHeap []qItem

func (h stateHeap) Len() int { return len(h) }
func (h stateHeap) Less(i, j int) bool {
	if h[i].prio != h[j].prio {
		return h[i].prio > h[j].prio
	}
	return h[i].seq > h[j].seq
}
func (h stateHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *stateHeap) Push(v any)   { *h = append(*h, v.(qItem)) }
func (h *stateHeap) Pop() any {
	o := *h
	v := o[len(o)-1]
	*h = o[:len(o)-1]
	return v
}

func (x *Exec) push(st *State) {
	p := 0
	for _, f := range st.Frames {
		p += x.info(f.Fn).depth[f.Block]
	}
	x.seq++
	heap.Push(&x.queue, qItem{st, p, x.seq})
}

func (x *Exec) dead(st *State) bool {
	for _, d := range st.Deps {
		if x.super[d] {
			return true
		}
	}
	return false
}

// NewState makes an empty state.
func NewState() *State {
	return &State{Mem: map[*Val]*Val{}, Facts: map[*Val]bool{}, Ivl: map[*Val]Iv{}, TS: map[string]*Val{}}
}

func (x *Exec) newFrame(fn *ssa.Function, args, binds []*Val) *Frame {
	f := &Frame{Fn: fn, Env: map[ssa.Value]*Val{}, Block: fn.Blocks[0],
		Loops: map[*ssa.BasicBlock]*loopRec{}, Const: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.Env[p] = args[i]
		} else {
			f.Env[p] = x.U.Tok("param", p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.Env[v] = binds[i]
		}
	}
	return f
}

// Run analyses fn from st (frames are set up here). Outcomes, reports and
// undecided constructs accumulate in x for this call only.
func (x *Exec) Run(fn *ssa.Function, args []*Val, st *State) []*Outcome {
	return x.RunClosure(fn, args, nil, st)
}

func (x *Exec) RunClosure(fn *ssa.Function, args, binds []*Val, st *State) []*Outcome {
	x.Outcomes = nil
	x.queue = nil
	x.visited = map[string][][]int{}
	x.steps = 0
	if fn == nil || len(fn.Blocks) == 0 {
		x.undecided(nil, token.NoPos, "function without a body")
		return nil
	}
	st = st.Clone()
	st.Deps = nil
	st.Frames = []*Frame{x.newFrame(fn, args, binds)}
	x.push(st)
	for x.queue.Len() > 0 {
		it := heap.Pop(&x.queue).(qItem)
		if x.dead(it.st) {
			continue
		}
		x.States++
		x.runState(it.st)
		if x.steps > x.MaxSteps {
			x.undecided(it.st, fn.Pos(), "step budget exhausted")
			break
		}
	}
	var live []*Outcome
	for _, o := range x.Outcomes {
		if !x.dead(o.St) {
			live = append(live, o)
		}
	}
	x.Outcomes = live
	var rs []*Report
	for _, r := range x.Reports {
		ok := true
		for _, d := range r.deps {
			if x.super[d] {
				ok = false
			}
		}
		if ok {
			rs = append(rs, r)
		}
	}
	x.Reports = rs
	return live
}

func (x *Exec) Report(st *State, pos token.Pos, rule, format string, args ...any) {
	x.Reports = append(x.Reports, &Report{Rule: rule, Msg: fmt.Sprintf(format, args...), Pos: pos,
		Trail: st.TrailStrings(x.Prog.Fset), deps: append([]int(nil), st.Deps...)})
}

func (x *Exec) undecided(st *State, pos token.Pos, msg string) {
	p := x.Prog.Fset.Position(pos)
	s := fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, msg)
	for _, o := range x.Undecided {
		if o == s {
			return
		}
	}
	x.Undecided = append(x.Undecided, s)
}

// runState steps one state until it ends or forks.
func (x *Exec) runState(st *State) {
	for {
		x.steps++
		if x.steps > x.MaxSteps {
			return
		}
		f := st.Top()
		if f.Idx >= len(f.Block.Instrs) {
			return
		}
		in := f.Block.Instrs[f.Idx]
		if !x.step(st, f, in) {
			return
		}
	}
}

// enter moves st to block b; returns false when the state ends or was queued.
func (x *Exec) enter(st *State, b *ssa.BasicBlock) bool {
	f := st.Top()
	prev := f.Block
	info := x.info(f.Fn)
	// phis
	var vals []*Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == prev {
				vals = append(vals, x.val(st, f, ph.Edges[i]))
				break
			}
		}
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		f.Env[ph] = vals[i]
	}
	f.Prev, f.Block, f.Idx = prev, b, len(phis)
	live := info.liveIn[b]
	for k := range f.Env {
		if ph, ok := k.(*ssa.Phi); ok && ph.Block() == b {
			continue
		}
		if !live[k] {
			delete(f.Env, k)
		}
	}
	if info.header[b] {
		back := b.Dominates(prev)
		if back && x.Hooks.Back != nil {
			x.Hooks.Back(x, st, b)
		}
		return x.atHeader(st, f, b, back)
	}
	if len(b.Preds) > 1 && !x.NoConverge {
		x.gc(st)
		k := x.stateKey(st)
		for _, d := range x.visited[k] {
			if subset(d, st.Deps) {
				return false
			}
		}
		x.visited[k] = append(x.visited[k], st.Deps)
		// let deeper states converge first
		x.push(st)
		return false
	}
	if info.depth[b] < info.depth[prev] {
		x.push(st)
		return false
	}
	return true
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) *Val {
	if r, ok := f.Env[v]; ok {
		return r
	}
	u := x.U
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return u.Zero(c.Type())
		}
		return u.Const(normConst(c.Value, c.Type()))
	case *ssa.Global:
		return u.intern(&Val{Op: OGlobal, Aux: c.RelString(nil), Typ: c.Type()})
	case *ssa.Function:
		return u.intern(&Val{Op: OFunc, Fn: c, Typ: c.Type()})
	case *ssa.Builtin:
		return u.Sym("builtin."+c.Name(), nil)
	}
	r := u.Tok("undef:"+v.Name(), v.Type())
	f.Env[v] = r
	return r
}

func normConst(c constant.Value, t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return constant.ToInt(c)
		case b.Info()&types.IsFloat != 0:
			return constant.ToFloat(c)
		}
	}
	return c
}

func (f *Frame) set(in ssa.Value, v *Val) { f.Env[in] = v }

// fork continues in alternatives; the first stays current when possible.
func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) bool {
	u := x.U
	ev := func(v ssa.Value) *Val { return x.val(st, f, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		a := u.AllocTok(OAlloc, "alloc."+in.Comment, in.Type())
		x.Store(st, a, u.Zero(t), t)
		f.set(in, a)
	case *ssa.BinOp:
		f.set(in, x.binop(st, in.Op, ev(in.X), ev(in.Y), in.X.Type(), in.Type()))
	case *ssa.UnOp:
		v := ev(in.X)
		switch in.Op {
		case token.MUL:
			if isStructPtr(in.X.Type()) {
				// keep whole structs precise
				f.set(in, x.Load(st, v, in.Type()))
			} else {
				f.set(in, x.Load(st, v, in.Type()))
			}
		case token.NOT:
			f.set(in, u.Not(v))
		case token.SUB:
			f.set(in, u.Sub(u.Int(0), v))
		default:
			if in.Op == token.ARROW {
				x.undecided(st, in.Pos(), "channel receive")
			}
			f.set(in, u.intern(&Val{Op: OConv, Aux: in.Op.String(), Typ: in.Type(), Args: []*Val{v}}))
		}
	case *ssa.ChangeType:
		f.set(in, ev(in.X))
	case *ssa.ChangeInterface:
		f.set(in, ev(in.X))
	case *ssa.Convert:
		f.set(in, x.convert(st, ev(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		f.set(in, x.convert(st, ev(in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer:
		f.set(in, u.Tok("s2a", in.Type()))
	case *ssa.MakeInterface:
		f.set(in, u.Iface(in.X.Type(), ev(in.X)))
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range in.Bindings {
			bs = append(bs, ev(b))
		}
		f.set(in, u.intern(&Val{Op: OClosure, Fn: in.Fn.(*ssa.Function), Args: bs, Typ: in.Type()}))
	case *ssa.MakeMap:
		m := u.AllocTok(OMap, "map", in.Type())
		st.Mem[m] = u.List()
		f.set(in, m)
	case *ssa.MakeSlice:
		l := ev(in.Len)
		if k, ok := l.IntConst(); ok && k == 0 {
			f.set(in, u.List())
		} else {
			m := u.AllocTok(OMake, "make", in.Type(), l)
			st.Mem[m] = u.List()
			f.set(in, m)
		}
	case *ssa.MakeChan:
		f.set(in, u.Tok("chan", in.Type()))
	case *ssa.Slice:
		f.set(in, x.sliceOp(st, f, in))
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		f.set(in, u.FieldAddr(ev(in.X), in.Field, pt))
	case *ssa.Field:
		f.set(in, u.Field(ev(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		f.set(in, u.IndexAddr(ev(in.X), ev(in.Index), in.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Index:
		f.set(in, u.Index(ev(in.X), ev(in.Index), in.Type()))
	case *ssa.Lookup:
		m, k := ev(in.X), ev(in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			f.set(in, u.Index(m, k, in.Type()))
			break
		}
		return x.lookup(st, f, in, m, k)
	case *ssa.Range:
		it := u.AllocTok(OAlloc, "iter", nil)
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			keys := x.keysOf(st, ev(in.X))
			st.Mem[it] = u.Tuple(ev(in.X), keys, u.Int(0))
		} else {
			st.Mem[it] = u.Tuple(ev(in.X), u.Nil(nil), u.Int(0))
		}
		f.set(in, it)
	case *ssa.Next:
		return x.next(st, f, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Extract:
		t := ev(in.Tuple)
		if t.Op == OTuple && in.Index < len(t.Args) {
			f.set(in, t.Args[in.Index])
		} else {
			f.set(in, u.Call("extract", in.Index, in.Type(), t))
		}
	case *ssa.Jump:
		return x.enter(st, f.Block.Succs[0])
	case *ssa.If:
		return x.branch(st, f, in)
	case *ssa.Return:
		var rs []*Val
		for _, r := range in.Results {
			rs = append(rs, ev(r))
		}
		return x.ret(st, f, rs, in.Pos())
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			f.Defers = f.Defers[:n-1]
			f.Idx-- // come back here
			return x.invoke(st, f, d.site, d.fn, d.inv, d.args, true)
		}
	case *ssa.Panic:
		x.Outcomes = append(x.Outcomes, &Outcome{St: st, Panic: ev(in.X), Pos: in.Pos()})
		return false
	case *ssa.Defer:
		fn, inv, args := x.callee(st, f, in.Common())
		f.Defers = append(f.Defers, deferred{fn, inv, args, in})
	case *ssa.Go:
		x.undecided(st, in.Pos(), "go statement")
	case *ssa.Send, *ssa.Select:
		x.undecided(st, in.Pos(), "channel operation")
	case *ssa.Store:
		a, v := ev(in.Addr), ev(in.Val)
		if x.Hooks.Store != nil {
			x.Hooks.Store(x, st, a, v, in)
		}
		x.store(st, a, v, in.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := ev(in.Map), ev(in.Key), ev(in.Value)
		if x.SplitKeys && x.splitKey(st, m, k) {
			return false
		}
		if x.Hooks.MapUpdate != nil {
			x.Hooks.MapUpdate(x, st, m, k, v, in)
		}
		st.Mem[m] = u.Append(x.mapBody(st, m), u.List(u.Tuple(k, v)))
	case *ssa.Call:
		fn, inv, args := x.callee(st, f, in.Common())
		return x.invoke(st, f, in, fn, inv, args, false)
	default:
		x.undecided(st, in.Pos(), fmt.Sprintf("unsupported instruction %T", in))
		return false
	}
	f.Idx++
	return true
}

func isStructPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

func (x *Exec) store(st *State, a, v *Val, t types.Type) {
	u := x.U
	if a.Op == OIndexAddr {
		b := a.Args[0]
		if b.Op == OMake {
			pre, ok := st.Mem[b]
			if ok && x.ProveEq(st, u.Len(pre), a.Args[1]) {
				st.Mem[b] = u.Append(pre, u.List(v))
				return
			}
			if i, known := a.Args[1].IntConst(); known && i >= 0 && i < 64 && (!ok || pre.Op == OList) {
				// a definite slot: replace it, or fill up to it with zeroes
				var es []*Val
				if ok {
					es = append(es, pre.Args...)
				}
				for int64(len(es)) <= i {
					es = append(es, u.Zero(t))
				}
				es[i] = v
				st.Mem[b] = u.List(es...)
				return
			}
			// write inside the filled prefix or out of order: forget
			st.Mem[b] = u.Tok("filled", nil)
			return
		}
	}
	x.Store(st, a, v, t)
}

// ProveEq shows two integers equal.
func (x *Exec) ProveEq(st *State, a, b *Val) bool {
	d := x.U.Sub(a, b)
	if k, ok := d.IntConst(); ok {
		return k == 0
	}
	iv := x.Bounds(st, d)
	return iv.Lo == 0 && iv.Hi == 0
}

func (x *Exec) mapBody(st *State, m *Val) *Val {
	if b, ok := st.Mem[m]; ok {
		return b
	}
	return x.U.List()
}

// keysOf is the (arbitrarily ordered) list of keys of a map.
func (x *Exec) keysOf(st *State, m *Val) *Val {
	u := x.U
	if b, ok := st.Mem[m]; ok && !(b.Op == OList && len(b.Args) == 0) {
		if m.Op == OMap {
			if es, ok := x.Entries(st, m); ok {
				var ks []*Val
				for _, e := range es {
					ks = append(ks, e.Args[0])
				}
				return u.List(ks...)
			}
		}
		return u.Call("keys", 0, nil, m, b)
	}
	if m.Op == OMap {
		return u.List()
	}
	return u.Call("keys", 0, nil, m)
}

// Entries lists the (key, value) pairs of a map made here, last write first
// removed, when its keys can be told apart.
func (x *Exec) Entries(st *State, m *Val) ([]*Val, bool) {
	if m.Op != OMap {
		return nil, false
	}
	body := x.mapBody(st, m)
	var flat []*Val
	var walk func(b *Val) bool
	walk = func(b *Val) bool {
		switch b.Op {
		case OList:
			flat = append(flat, b.Args...)
			return true
		case OAppend:
			return walk(b.Args[0]) && walk(b.Args[1])
		}
		return false
	}
	if !walk(body) {
		return nil, false
	}
	var out []*Val
	for _, e := range flat {
		at := -1
		for i, o := range out {
			eq, known := x.Decide(st, x.EqVal(o.Args[0], e.Args[0]))
			if !known {
				return nil, false
			}
			if eq {
				at = i
			}
		}
		switch {
		case at >= 0 && len(e.Args) == 1:
			out = append(out[:at:at], out[at+1:]...)
		case at >= 0:
			out[at] = e
		case len(e.Args) == 2:
			out = append(out, e)
		}
	}
	return out, true
}

// MapGet looks k up in a map: value and presence terms.
func (x *Exec) MapGet(st *State, m, k *Val, vt types.Type) (*Val, *Val) {
	u := x.U
	body := x.mapBody(st, m)
	for {
		switch body.Op {
		case OList:
			for i := len(body.Args) - 1; i >= 0; i-- {
				e := body.Args[i]
				eq, known := x.Decide(st, x.EqVal(e.Args[0], k))
				if !known {
					return u.Tok("mapval", vt), u.Tok("maphas", types.Typ[types.Bool])
				}
				if eq {
					if len(e.Args) == 1 {
						return u.Zero(vt), u.Bool(false)
					}
					return e.Args[1], u.Bool(true)
				}
			}
			if m.Op == OMap || m.IsNil() {
				return u.Zero(vt), u.Bool(false)
			}
			return u.Lookup(m, k, 0, vt), u.Lookup(m, k, 1, types.Typ[types.Bool])
		case OAppend:
			if body.Args[1].Op != OList {
				return u.Call("mapget", 0, vt, m, body, k), u.Call("mapget", 1, types.Typ[types.Bool], m, body, k)
			}
			found := false
			for i := len(body.Args[1].Args) - 1; i >= 0; i-- {
				e := body.Args[1].Args[i]
				eq, known := x.Decide(st, x.EqVal(e.Args[0], k))
				if !known {
					return u.Call("mapget", 0, vt, m, body, k), u.Call("mapget", 1, types.Typ[types.Bool], m, body, k)
				}
				if eq {
					if len(e.Args) == 1 {
						return u.Zero(vt), u.Bool(false)
					}
					return e.Args[1], u.Bool(true)
				}
			}
			_ = found
			body = body.Args[0]
		case OComp:
			return u.Call("mapget", 0, vt, m, body, k), u.Call("mapget", 1, types.Typ[types.Bool], m, body, k)
		default:
			return u.Call("mapget", 0, vt, m, body, k), u.Call("mapget", 1, types.Typ[types.Bool], m, body, k)
		}
	}
}

// splitKey continues once for each answer to whether k is a key m has, as far
// as that is open.
func (x *Exec) splitKey(st *State, m, k *Val) bool {
	var open *Val
	var walk func(b *Val) bool
	walk = func(b *Val) bool {
		switch b.Op {
		case OList:
			for _, e := range b.Args {
				q := x.EqVal(e.Args[0], k)
				if _, known := x.Decide(st, q); !known {
					open = q
					return false
				}
			}
			return true
		case OAppend:
			return walk(b.Args[0]) && walk(b.Args[1])
		}
		return true
	}
	if walk(x.mapBody(st, m)) {
		return false
	}
	n := st.Clone()
	if x.Assume(n, open, false) {
		x.push(n)
	}
	if x.Assume(st, open, true) {
		x.push(st)
	}
	return true
}

func (x *Exec) lookup(st *State, f *Frame, in *ssa.Lookup, m, k *Val) bool {
	u := x.U
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	if x.SplitKeys && x.splitKey(st, m, k) {
		return false
	}
	v, has := x.MapGet(st, m, k, vt)
	if in.CommaOk {
		// a missing key yields the zero value
		if b, known := x.Decide(st, has); known {
			if !b {
				v = u.Zero(vt)
			}
			f.set(in, u.Tuple(v, u.Bool(b)))
		} else {
			n := st.Clone()
			if x.Assume(n, has, false) {
				n.Top().set(in, u.Tuple(u.Zero(vt), u.Bool(false)))
				n.Top().Idx++
				x.push(n)
			}
			if !x.Assume(st, has, true) {
				return false
			}
			f.set(in, u.Tuple(v, u.Bool(true)))
		}
	} else {
		if b, known := x.Decide(st, has); known && !b {
			v = u.Zero(vt)
		}
		f.set(in, v)
	}
	f.Idx++
	return true
}

// symTest records that the current iteration made a symbolic exit decision.
func (x *Exec) symTest(f *Frame) {
	if h := x.info(f.Fn).loopOf[f.Block]; h != nil {
		f.Const[h] |= symSeen
	}
}

func (x *Exec) next(st *State, f *Frame, in *ssa.Next) bool {
	u := x.U
	it := x.val(st, f, in.Iter)
	cur := st.Mem[it]
	tt := in.Type().(*types.Tuple)
	if cur == nil || cur.Op != OTuple {
		x.undecided(st, in.Pos(), "lost iterator")
		return false
	}
	if in.IsString {
		s := cur.Args[0]
		if bs, ok := x.bytesOf(st, s); ok {
			// a text of known length
			j, _ := cur.Args[2].IntConst()
			if int(j) >= len(bs) {
				f.set(in, u.Tuple(u.Bool(false), u.Int(0), u.Int(0)))
				f.Idx++
				return true
			}
			r, n := bs[j], 1
			if _, ok := r.IntConst(); ok {
				var b []byte
				for _, v := range bs[j:] {
					k, ok := v.IntConst()
					if !ok || len(b) == utf8.UTFMax {
						break
					}
					b = append(b, byte(k))
				}
				c, w := utf8.DecodeRune(b)
				r, n = u.Int(int64(c)), w
			}
			st.Mem[it] = u.Tuple(s, cur.Args[1], u.Int(j+int64(n)))
			f.set(in, u.Tuple(u.Bool(true), u.Int(j), r))
			f.Idx++
			return true
		}
		x.symTest(f)
		// two outcomes: end, or one more rune
		n := st.Clone()
		n.Top().set(in, u.Tuple(u.Bool(false), u.Int(0), u.Int(0)))
		n.Top().Idx++
		x.push(n)
		k := u.Tok("stridx", types.Typ[types.Int])
		x.Assume(st, u.Le(u.Int(0), k), true)
		x.Assume(st, u.Le(u.Add(k, u.Int(1)), u.Len(s)), true)
		f.set(in, u.Tuple(u.Bool(true), k, u.Tok("rune", tt.At(2).Type())))
		f.Idx++
		return true
	}
	m, keys, j := cur.Args[0], cur.Args[1], cur.Args[2]
	more := u.Le(u.Add(j, u.Int(1)), u.Len(keys))
	b, known := x.Decide(st, more)
	doEnd := func(s *State) {
		s.Top().set(in, u.Tuple(u.Bool(false), u.Zero(tt.At(1).Type()), u.Zero(tt.At(2).Type())))
	}
	if known && !b {
		doEnd(st)
		f.Idx++
		return true
	}
	if !known {
		x.symTest(f)
		n := st.Clone()
		if x.Assume(n, more, false) {
			doEnd(n)
			n.Top().Idx++
			x.push(n)
		}
		if !x.Assume(st, more, true) {
			return false
		}
	}
	k := u.Index(keys, j, tt.At(1).Type())
	mt := m.Typ
	var vt types.Type
	if mt != nil {
		if mm, ok := mt.Underlying().(*types.Map); ok {
			vt = mm.Elem()
		}
	}
	if vt == nil {
		vt = tt.At(2).Type()
	}
	var v *Val
	if keys.Op == OList && m.Op == OMap {
		v, _ = x.MapGet(st, m, k, vt)
	} else if keys.Op == OCall && len(keys.Args) == 1 {
		v = u.Lookup(m, k, 0, vt)
		x.Assume(st, u.Lookup(m, k, 1, types.Typ[types.Bool]), true)
	} else {
		v = u.Call("mapat", 0, vt, keys, k)
	}
	st.Mem[it] = u.Tuple(m, keys, u.Add(j, u.Int(1)))
	f.set(in, u.Tuple(u.Bool(true), k, v))
	f.Idx++
	return true
}

// bytesOf lists the bytes of a text of known length whose unknown ones are
// characters of their own.
func (x *Exec) bytesOf(st *State, s *Val) ([]*Val, bool) {
	if c, ok := s.StrConst(); ok {
		var out []*Val
		for i := 0; i < len(c); i++ {
			out = append(out, x.U.Int(int64(c[i])))
		}
		return out, true
	}
	if s.Op != OList {
		return nil, false
	}
	for _, v := range s.Args {
		k, ok := v.IntConst()
		if ok && k >= 0 && k < 256 {
			continue
		}
		if b := x.Bounds(st, v); ok || b.Lo < 0 || b.Hi > 127 {
			return nil, false
		}
	}
	return s.Args, true
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	u := x.U
	v := x.val(st, f, in.X)
	isT := u.IsType(v, in.AssertedType)
	var as *Val
	if types.IsInterface(in.AssertedType) {
		as = v
	} else {
		as = u.As(v, in.AssertedType)
	}
	b, known := x.Decide(st, isT)
	if !in.CommaOk {
		if known && !b {
			x.Outcomes = append(x.Outcomes, &Outcome{St: st, Panic: u.Sym("panic:type assertion", nil), Pos: in.Pos()})
			return false
		}
		if !x.Assume(st, isT, true) {
			return false
		}
		f.set(in, as)
		f.Idx++
		return true
	}
	if !known {
		n := st.Clone()
		if x.Assume(n, isT, false) {
			n.Top().set(in, u.Tuple(u.Zero(in.AssertedType), u.Bool(false)))
			n.Top().Idx++
			x.push(n)
		}
		if !x.Assume(st, isT, true) {
			return false
		}
		b = true
	}
	if b {
		f.set(in, u.Tuple(as, u.Bool(true)))
	} else {
		f.set(in, u.Tuple(u.Zero(in.AssertedType), u.Bool(false)))
	}
	f.Idx++
	return true
}

func (x *Exec) branch(st *State, f *Frame, in *ssa.If) bool {
	c := x.val(st, f, in.Cond)
	t, e := f.Block.Succs[0], f.Block.Succs[1]
	info := x.info(f.Fn)
	// does this test decide whether the innermost loop goes on?
	if h := info.loopOf[f.Block]; h != nil && (!info.in[h][t] || !info.in[h][e]) {
		if _, k := x.Decide(x.noFacts, c); k {
			f.Const[h] |= constSeen
		} else {
			f.Const[h] |= symSeen
		}
	}
	b, known := x.Decide(st, c)
	if known {
		if b {
			return x.enter(st, t)
		}
		return x.enter(st, e)
	}
	n := st.Clone()
	if x.Assume(n, c, false) {
		n.Note(in.Cond.Pos(), "not "+c.String())
		if x.enter(n, e) {
			x.push(n)
		}
	}
	if !x.Assume(st, c, true) {
		return false
	}
	st.Note(in.Cond.Pos(), c.String())
	return x.enter(st, t)
}

func (x *Exec) ret(st *State, f *Frame, rs []*Val, pos token.Pos) bool {
	if len(st.Frames) == 1 {
		x.Outcomes = append(x.Outcomes, &Outcome{St: st, Res: rs, Pos: pos})
		return false
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
	c := st.Top()
	if !f.NoRes {
		if v, ok := f.Site.(ssa.Value); ok {
			x.setRes(c, v, rs)
		}
	}
	c.Idx++
	return true
}

func (x *Exec) setRes(c *Frame, v ssa.Value, rs []*Val) {
	switch len(rs) {
	case 0:
	case 1:
		c.set(v, rs[0])
	default:
		c.set(v, x.U.Tuple(rs...))
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b *Val, t, rt types.Type) *Val {
	u := x.U
	bt, _ := t.Underlying().(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	if a.Op == OConst && b.Op == OConst && a.C != nil && b.C != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.C.Kind() == b.C.Kind() {
				return u.Bool(constant.Compare(a.C, op, b.C))
			}
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(b.C); ok && s < 64 {
				return u.Const(constant.Shift(a.C, op, uint(s)))
			}
		case token.QUO:
			if isInt && constant.Sign(b.C) != 0 {
				return u.Const(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C))
			}
		case token.REM:
			if isInt && constant.Sign(b.C) != 0 {
				return u.Const(constant.BinaryOp(a.C, token.REM, b.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.C.Kind() == b.C.Kind() {
				return u.Const(constant.BinaryOp(a.C, op, b.C))
			}
		}
	}
	switch op {
	case token.ADD:
		if isInt {
			return u.Add(a, b)
		}
		if isStr {
			return u.Concat(a, b)
		}
	case token.SUB:
		if isInt {
			return u.Sub(a, b)
		}
	case token.MUL:
		if isInt {
			return u.Mul(a, b)
		}
	case token.EQL, token.NEQ:
		var r *Val
		if isInt {
			r = u.Eq2n(a, b)
		} else {
			if b.Op == OIface && a.Op != OIface && !types.IsInterface(t) {
				// comparing a concrete value with an interface
			}
			r = x.EqVal(a, b)
		}
		if op == token.NEQ {
			return u.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			switch op {
			case token.LSS:
				return u.Le(u.Add(a, u.Int(1)), b)
			case token.LEQ:
				return u.Le(a, b)
			case token.GTR:
				return u.Le(u.Add(b, u.Int(1)), a)
			default:
				return u.Le(b, a)
			}
		}
		if isStr && (op == token.GTR || op == token.GEQ) {
			op2 := token.LSS
			if op == token.GEQ {
				op2 = token.LEQ
			}
			return u.Bin(op2, b, a, rt)
		}
	}
	return u.Bin(op, a, b, rt)
}

// Eq2n normalises an integer equality so that either operand order and any
// linear rearrangement give the same atom.
func (u *Universe) Eq2n(a, b *Val) *Val {
	d := u.Sub(a, b)
	if k, ok := d.IntConst(); ok {
		return u.Bool(k == 0)
	}
	if _, ok := a.IntConst(); ok {
		a, b = b, a
	}
	if a.Op != OLin && b.Op != OLin {
		return u.Eq(a, b)
	}
	m, k := u.linOf(d)
	var first *Val
	for v := range m {
		if first == nil || v.id < first.id {
			first = v
		}
	}
	if m[first] < 0 {
		d = u.Sub(b, a)
		m, k = u.linOf(d)
	}
	return u.Eq(u.mkLin(m, 0), u.Int(-k))
}

// Concat is string concatenation, flattened.
func (u *Universe) Concat(vs ...*Val) *Val {
	var parts []*Val
	add := func(p *Val) {
		if s, ok := p.StrConst(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if q, ok := parts[n-1].StrConst(); ok {
					parts[n-1] = u.Str(q + s)
					return
				}
			}
		}
		parts = append(parts, p)
	}
	for _, v := range vs {
		if v.Op == OCall && v.Aux == "concat" {
			for _, p := range v.Args {
				add(p)
			}
		} else {
			add(v)
		}
	}
	switch len(parts) {
	case 0:
		return u.Str("")
	case 1:
		return parts[0]
	}
	return u.Call("concat", 0, types.Typ[types.String], parts...)
}

// intRange is the range of an integer type, as far as int64 goes.
func intRange(b *types.Basic) (lo, hi int64) {
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1
	case types.Int16:
		return -1 << 15, 1<<15 - 1
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 1<<8 - 1
	case types.Uint16:
		return 0, 1<<16 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	}
	if b.Info()&types.IsUnsigned != 0 {
		return 0, 1<<63 - 1
	}
	return -1 << 63, 1<<63 - 1
}

// fits reports whether every value of a is one of b.
func fits(a, b *types.Basic) bool {
	if a.Kind() == b.Kind() {
		return true
	}
	if a.Info()&types.IsUnsigned != 0 && a.Kind() != types.Uint8 && a.Kind() != types.Uint16 && a.Kind() != types.Uint32 {
		return false
	}
	alo, ahi := intRange(a)
	blo, bhi := intRange(b)
	return blo <= alo && ahi <= bhi
}

func (x *Exec) convert(st *State, v *Val, from, to types.Type) *Val {
	u := x.U
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if fits(fb, tb) {
				return v
			}
			lo, hi := intRange(tb)
			if b := x.Bounds(st, v); b.Lo >= lo && b.Hi <= hi {
				return v
			}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if k, ok := v.IntConst(); ok {
				return u.Str(string(rune(k)))
			}
		}
	}
	if v.Op == OConv && v.Aux == "" && v.Args[0].Typ != nil && types.Identical(v.Args[0].Typ.Underlying(), to.Underlying()) {
		return v.Args[0]
	}
	return u.intern(&Val{Op: OConv, Typ: to, Args: []*Val{v}})
}

func (x *Exec) sliceOp(st *State, f *Frame, in *ssa.Slice) *Val {
	u := x.U
	b := x.val(st, f, in.X)
	lo := u.Int(0)
	if in.Low != nil {
		lo = x.val(st, f, in.Low)
	}
	var hi *Val
	if in.High != nil {
		hi = x.val(st, f, in.High)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = u.Int(at.Len())
		}
		if al, ok := in.X.(*ssa.Alloc); ok && (al.Comment == "slicelit" || al.Comment == "varargs" || al.Comment == "makeslice") {
			l := x.Load(st, b, at)
			if l.Op == OList {
				if al.Comment == "makeslice" {
					if k, ok := hi.IntConst(); ok && k == 0 {
						return u.List()
					}
					// contents may be filled in later
					if len(l.Args) > 0 {
						m := u.AllocTok(OMake, "make", in.Type(), hi)
						st.Mem[m] = u.List()
						return m
					}
				}
				for i := range l.Args {
					delete(st.Mem, u.IndexAddr(b, u.Int(int64(i)), at.Elem()))
				}
				return u.Slice(l, lo, hi)
			}
		}
		return u.intern(&Val{Op: OSlice, Args: []*Val{b, lo, hi}})
	}
	if hi == nil {
		if in.High == nil && lo.Op == OConst {
			if k, _ := lo.IntConst(); k == 0 {
				return b
			}
		}
		hi = u.Len(b)
	}
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		if s, ok := b.StrConst(); ok {
			l, ok1 := lo.IntConst()
			h, ok2 := hi.IntConst()
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(s) {
				return u.Str(s[l:h])
			}
		}
	}
	if b.Op == OMake {
		b = x.Reify(st, b)
	}
	return u.Slice(b, lo, hi)
}

// Reify replaces slices that live in memory by their contents.
func (x *Exec) Reify(st *State, v *Val) *Val {
	return x.reify(st, v, map[*Val]*Val{}, 0)
}

func (x *Exec) reify(st *State, v *Val, memo map[*Val]*Val, d int) *Val {
	if d > 40 {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	u := x.U
	memo[v] = v
	switch v.Op {
	case OMake:
		if pre, ok := st.Mem[v]; ok {
			pre = x.reify(st, pre, memo, d+1)
			if x.ProveEq(st, u.Len(pre), v.Args[0]) {
				memo[v] = pre
				return pre
			}
		}
		return v
	case OSlice:
		b := v.Args[0]
		lo, ok1 := v.Args[1].IntConst()
		hi, ok2 := v.Args[2].IntConst()
		if b.Op == OAlloc && ok1 && ok2 && hi-lo <= 64 {
			var es []*Val
			for i := lo; i < hi; i++ {
				es = append(es, x.reify(st, x.Load(st, u.IndexAddr(b, u.Int(i), nil), nil), memo, d+1))
			}
			r := u.List(es...)
			memo[v] = r
			return r
		}
	}
	if len(v.Args) == 0 || v.Op == OAlloc || v.Op == OFieldAddr || v.Op == OIndexAddr {
		return v
	}
	as := make([]*Val, len(v.Args))
	ch := false
	for i, a := range v.Args {
		as[i] = x.reify(st, a, memo, d+1)
		ch = ch || as[i] != a
	}
	r := v
	if ch {
		r = u.Rebuild(v, as)
	}
	memo[v] = r
	return r
}

// ---- calls

func (x *Exec) callee(st *State, f *Frame, c *ssa.CallCommon) (fn *Val, inv *types.Func, args []*Val) {
	if c.IsInvoke() {
		args = append(args, x.val(st, f, c.Value))
		inv = c.Method
	} else {
		fn = x.val(st, f, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, f, a))
	}
	return
}

func (x *Exec) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), x.ModPath)
	}
	if p == nil && fn.Parent() != nil {
		return x.inModule(fn.Parent())
	}
	if p == nil {
		// synthetic wrapper
		return fn.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), x.ModPath)
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := x.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.Prog.MethodValue(sel)
}

// advance finishes a call in the current frame with the given value.
func (x *Exec) advance(st *State, site ssa.CallInstruction, v *Val, nores bool) {
	f := st.Top()
	if !nores && v != nil {
		if sv, ok := site.(ssa.Value); ok {
			f.set(sv, v)
		}
	}
	f.Idx++
}

func (x *Exec) invoke(st *State, f *Frame, site ssa.CallInstruction, fn *Val, inv *types.Func, args []*Val, nores bool) bool {
	u := x.U
	ci := &CallInfo{Args: args, Instr: site, Pos: site.Pos(), FnVal: fn}
	var binds []*Val
	if inv != nil {
		r := args[0]
		if r.Op == OIface {
			if m := x.methodOf(r.Typ, inv); m != nil {
				ci.Fn = m
				args = append([]*Val{r.Args[0]}, args[1:]...)
				ci.Args = args
			}
		} else {
			// a unique known dynamic type?
			for t, val := range st.Facts {
				if val && t.Op == OIsType && t.Args[0] == r && !types.IsInterface(t.Typ) {
					if m := x.methodOf(t.Typ, inv); m != nil {
						ci.Fn = m
						args = append([]*Val{u.As(r, t.Typ)}, args[1:]...)
						ci.Args = args
					}
				}
			}
		}
		ci.Method = inv
		ci.Recv = r
	} else {
		switch fn.Op {
		case OFunc:
			ci.Fn = fn.Fn
		case OClosure:
			ci.Fn = fn.Fn
			binds = fn.Args
		case OSym:
			if strings.HasPrefix(fn.Aux, "builtin.") {
				return x.builtin(st, f, site, fn.Aux[8:], args, nores)
			}
		}
	}
	// see through wrappers
	if ci.Fn != nil && ci.Fn.Synthetic != "" && strings.HasPrefix(ci.Fn.Synthetic, "wrapper") && len(ci.Fn.Blocks) > 0 {
		// promoted methods and *T wrappers are entered like ordinary code
	} else if x.Hooks.Call != nil {
		if outs, ok := x.Hooks.Call(x, st, ci); ok {
			for i := len(outs) - 1; i >= 0; i-- {
				o := outs[i]
				x.advance(o.St, site, o.Val, nores)
				x.push(o.St)
			}
			return false
		}
	}
	if ci.Fn != nil && len(ci.Fn.Blocks) > 0 && x.inModule(ci.Fn) {
		rec := 0
		for _, g := range st.Frames {
			if g.Fn == ci.Fn {
				rec++
			}
		}
		if rec <= x.MaxRec && len(st.Frames) < x.MaxDepth && (x.Hooks.Inline == nil || x.Hooks.Inline(ci.Fn)) {
			x.prune(st, f, site)
			nf := x.newFrame(ci.Fn, args, binds)
			nf.Site, nf.NoRes = site, nores
			x.Inlined[ci.Fn]++
			st.Frames = append(st.Frames, nf)
			return true
		}
	}
	if ci.Fn != nil {
		if outs, ok := x.stdlib(st, ci); ok {
			for i := len(outs) - 1; i >= 0; i-- {
				x.advance(outs[i].St, site, outs[i].Val, nores)
				x.push(outs[i].St)
			}
			return false
		}
	}
	v := x.Opaque(st, ci)
	x.advance(st, site, v, nores)
	return true
}

// Opaque is the default model of an unknown call: a function of its
// arguments, unless it was handed the address of a tracked local.
func (x *Exec) Opaque(st *State, c *CallInfo) *Val {
	u := x.U
	sig := c.Instr.Common().Signature()
	key := ""
	switch {
	case c.Fn != nil:
		key = c.Fn.RelString(nil)
		if c.Method != nil && c.Recv != nil && c.Recv.Op != OIface {
			key = c.Fn.RelString(nil)
		}
	case c.Method != nil:
		key = c.Method.FullName()
	default:
		key = "dyn"
	}
	args := make([]*Val, 0, len(c.Args)+1)
	if c.Fn == nil && c.Method == nil && c.FnVal != nil {
		args = append(args, c.FnVal)
	}
	impure := false
	for _, a := range c.Args {
		r := x.Reify(st, a)
		if root := rootOf(r); root.Op == OAlloc {
			impure = true
		}
		args = append(args, r)
	}
	if impure {
		for _, a := range c.Args {
			if root := rootOf(a); root.Op == OAlloc {
				x.Havoc(st, root, key)
			}
		}
	}
	n := sig.Results().Len()
	mk := func(i int) *Val {
		t := sig.Results().At(i).Type()
		if impure {
			return u.Tok("res:"+key, t)
		}
		return u.Call(key, i, t, args...)
	}
	switch n {
	case 0:
		return nil
	case 1:
		return mk(0)
	}
	var rs []*Val
	for i := 0; i < n; i++ {
		rs = append(rs, mk(i))
	}
	return u.Tuple(rs...)
}

// stdlib models the few library functions whose effects matter.
func (x *Exec) stdlib(st *State, c *CallInfo) ([]Out, bool) {
	u := x.U
	name := c.Fn.RelString(nil)
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "slices.Sort", "slices.SortFunc":
		l := c.Args[0]
		if l.Op == OIface {
			l = l.Args[0]
		}
		if l.IsNil() || l.Op == OList && len(l.Args) < 2 || l.Op == OCall && l.Aux == "sorted" {
			return []Out{{st, nil}}, true
		}
		s := u.Call("sorted", 0, l.Typ, l)
		if l.Op == OList && (name == "sort.Strings" || name == "sort.Ints" || name == "slices.Sort") {
			if t, ok := u.sortConsts(l); ok {
				s = t
			}
		}
		// iterators over maps have an order of their own
		iters := map[*Val]*Val{}
		for a, v := range st.Mem {
			if a.Op == OAlloc && strings.HasPrefix(a.Aux, "iter#") {
				iters[a] = v
			}
		}
		x.SubstState(st, map[*Val]*Val{l: s})
		for a, v := range iters {
			st.Mem[a] = v
		}
		return []Out{{st, nil}}, true
	case "math/rand.Int31", "math/rand.Int", "math/rand.Int63", "math/rand.Intn", "math/rand.Int31n", "math/rand.Uint32":
		v := u.FreshTok("rand", types.Typ[types.Int32])
		x.bound(st, v, 0, inf)
		return []Out{{st, v}}, true
	case "time.Now":
		return []Out{{st, u.Tok("now", nil)}}, true
	case "strings.HasPrefix":
		if s, ok := c.Args[0].StrConst(); ok {
			if p, ok := c.Args[1].StrConst(); ok {
				return []Out{{st, u.Bool(strings.HasPrefix(s, p))}}, true
			}
		}
	}
	return nil, false
}

// SubstState rewrites every term of the state.
func (x *Exec) SubstState(st *State, m map[*Val]*Val) {
	memo := map[*Val]*Val{}
	sub := func(v *Val) *Val { return x.U.subst(v, m, memo) }
	for _, f := range st.Frames {
		for k, v := range f.Env {
			f.Env[k] = sub(v)
		}
	}
	nm := map[*Val]*Val{}
	for k, v := range st.Mem {
		nm[sub(k)] = sub(v)
	}
	st.Mem = nm
	for k, v := range st.TS {
		st.TS[k] = sub(v)
	}
	nf := map[*Val]bool{}
	for k, v := range st.Facts {
		nf[sub(k)] = v
	}
	st.Facts = nf
	ni := map[*Val]Iv{}
	for k, v := range st.Ivl {
		r := sub(k)
		if r == k {
			ni[k] = v
		}
	}
	old := st.Ivl
	st.Ivl = ni
	for k, v := range old {
		if r := sub(k); r != k {
			x.bound(st, r, v.Lo, v.Hi)
		}
	}
}

func (x *Exec) builtin(st *State, f *Frame, site ssa.CallInstruction, name string, args []*Val, nores bool) bool {
	u := x.U
	done := func(v *Val) bool {
		x.advance(st, site, v, nores)
		return true
	}
	switch name {
	case "len":
		a := args[0]
		if a.Op == OMap {
			if es, ok := x.Entries(st, a); ok {
				return done(u.Int(int64(len(es))))
			}
		}
		if b, ok := st.Mem[a]; ok && (a.Op == OMap || isMapTyped(site.Common().Args[0].Type())) {
			return done(u.Call("maplen", 0, types.Typ[types.Int], a, b))
		}
		if a.Op == OMap {
			return done(u.Int(0))
		}
		return done(u.Len(a))
	case "cap":
		return done(u.Call("cap", 0, types.Typ[types.Int], args[0]))
	case "append":
		if len(args) == 1 {
			return done(args[0])
		}
		l := x.Reify(st, args[0])
		e := args[1]
		if e.Op == OSlice || e.Op == OMake {
			e = x.Reify(st, e)
		}
		return done(u.Append(l, e))
	case "copy":
		d := args[0]
		if d.Op == OMake {
			src := x.Reify(st, args[1])
			if b, ok := st.Mem[d]; ok && b.Op == OList && len(b.Args) == 0 && x.ProveEq(st, u.Len(src), d.Args[0]) {
				st.Mem[d] = src
			} else {
				st.Mem[d] = u.Tok("copied", nil)
			}
			return done(u.Len(src))
		}
		x.undecided(st, site.Pos(), "copy into an untracked slice")
		return done(u.Tok("copy", types.Typ[types.Int]))
	case "delete":
		st.Mem[args[0]] = u.Append(x.mapBody(st, args[0]), u.List(u.Tuple(args[1])))
		return done(nil)
	case "panic":
		x.Outcomes = append(x.Outcomes, &Outcome{St: st, Panic: args[0], Pos: site.Pos()})
		return false
	case "recover":
		if x.Recover != nil {
			return done(x.Recover)
		}
		return done(u.Nil(nil))
	case "print", "println", "close":
		return done(nil)
	case "ssa:wrapnilchk":
		return done(args[0])
	case "min", "max":
		if len(args) == 2 {
			n := st.Clone()
			le := u.Le(args[0], args[1])
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			if x.Assume(n, le, false) {
				x.advance(n, site, b, nores)
				x.push(n)
			}
			if !x.Assume(st, le, true) {
				return false
			}
			return done(a)
		}
	}
	x.undecided(st, site.Pos(), "builtin "+name)
	return done(u.Tok("builtin:"+name, nil))
}

func isMapTyped(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// ---- function info: loops and liveness

type fnInfo struct {
	header  map[*ssa.BasicBlock]bool
	in      map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	loopOf  map[*ssa.BasicBlock]*ssa.BasicBlock          // innermost loop header
	depth   map[*ssa.BasicBlock]int
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.fninfo[fn]; ok {
		return i
	}
	i := &fnInfo{
		header: map[*ssa.BasicBlock]bool{}, in: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		loopOf: map[*ssa.BasicBlock]*ssa.BasicBlock{}, depth: map[*ssa.BasicBlock]int{},
		liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{},
	}
	x.fninfo[fn] = i
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				i.header[s] = true
				body := i.in[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.in[s] = body
				}
				var walk func(p *ssa.BasicBlock)
				walk = func(p *ssa.BasicBlock) {
					if body[p] {
						return
					}
					body[p] = true
					for _, q := range p.Preds {
						walk(q)
					}
				}
				walk(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range i.in {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(a, b int) bool {
		if len(i.in[hs[a]]) != len(i.in[hs[b]]) {
			return len(i.in[hs[a]]) > len(i.in[hs[b]])
		}
		return hs[a].Index < hs[b].Index
	})
	for _, h := range hs { // larger first, so inner overrides
		for b := range i.in[h] {
			i.depth[b]++
			i.loopOf[b] = h
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		i.liveIn[b] = map[ssa.Value]bool{}
		i.liveOut[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			out := i.liveOut[b]
			n := len(out)
			for _, s := range b.Succs {
				for v := range i.liveIn[s] {
					out[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for e, p := range s.Preds {
						if p == b {
							addLive(out, ph.Edges[e])
						}
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			scanLive(b, 0, live)
			if len(out) != n || len(live) != len(i.liveIn[b]) {
				ch = true
			}
			i.liveIn[b] = live
		}
	}
	return i
}

func addLive(m map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return
	}
	m[v] = true
}

// scanLive walks b's instructions backwards down to index from.
func scanLive(b *ssa.BasicBlock, from int, live map[ssa.Value]bool) {
	for k := len(b.Instrs) - 1; k >= from; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var ops [10]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				addLive(live, *o)
			}
		}
	}
}

// prune drops values of f that are dead after the call at site.
func (x *Exec) prune(st *State, f *Frame, site ssa.CallInstruction) {
	live := map[ssa.Value]bool{}
	for v := range x.info(f.Fn).liveOut[f.Block] {
		live[v] = true
	}
	from := f.Idx + 1
	if _, ok := site.(*ssa.Defer); ok {
		from = f.Idx
	}
	scanLive(f.Block, from, live)
	for k := range f.Env {
		if !live[k] {
			delete(f.Env, k)
		}
	}
}

// gc drops unreachable local memory and facts about dead tokens.
func (x *Exec) gc(st *State) {
	seenTok := map[*Val]bool{}
	mark := func(v *Val) bool {
		ch := false
		if v == nil {
			return false
		}
		for t := range v.toks {
			if !seenTok[t] {
				seenTok[t] = true
				ch = true
			}
		}
		return ch
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			mark(v)
		}
		for _, d := range f.Defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range st.TS {
		mark(v)
	}
	isLocal := func(k *Val) *Val {
		r := k
		for r.Op == OFieldAddr || r.Op == OIndexAddr {
			r = r.Args[0]
		}
		switch r.Op {
		case OAlloc, OMake, OMap:
			return r
		}
		return nil
	}
	for ch := true; ch; {
		ch = false
		for k, v := range st.Mem {
			if r := isLocal(k); r == nil || seenTok[r] {
				if mark(v) || mark(k) {
					ch = true
				}
			}
		}
	}
	for k := range st.Mem {
		if r := isLocal(k); r != nil && !seenTok[r] {
			delete(st.Mem, k)
		}
	}
	alive := func(v *Val) bool {
		for t := range v.toks {
			if !seenTok[t] {
				return false
			}
		}
		return true
	}
	// keep what dead tokens imply about live terms only via stored bodies
	for k := range st.Facts {
		if !alive(k) {
			delete(st.Facts, k)
		}
	}
	for k := range st.Ivl {
		if !alive(k) {
			delete(st.Ivl, k)
		}
	}
}

// Norm rewrites integers using equalities the state implies.
func (x *Exec) Norm(st *State, v *Val) *Val {
	u := x.U
	for i := 0; i < 8; i++ {
		m := map[*Val]*Val{}
		for body, iv := range st.Ivl {
			if iv.Lo != iv.Hi {
				continue
			}
			lm, _ := u.linOf(body)
			var pick *Val
			for a, c := range lm {
				if (c == 1 || c == -1) && v.Mentions(a) && len(a.toks) > 0 && (pick == nil || a.id > pick.id) {
					pick = a
				}
			}
			if pick == nil {
				continue
			}
			// c*pick + rest = k
			c := lm[pick]
			rest := u.Sub(body, u.Mul(pick, u.Int(c)))
			val := u.Mul(u.Sub(u.Int(iv.Lo), rest), u.Int(c))
			if !val.Mentions(pick) {
				m[pick] = val
				break
			}
		}
		if len(m) == 0 {
			// a bound J pinned against a length from both sides
			for _, a := range v.intToks() {
				for body := range st.Ivl {
					lm, _ := u.linOf(body)
					c := lm[a]
					if c != 1 && c != -1 {
						continue
					}
					// candidate: a == -(rest)/c + k for the bound values
					rest := u.Sub(body, u.Mul(a, u.Int(c)))
					b := x.Bounds(st, body)
					if b.Lo == b.Hi {
						val := u.Mul(u.Sub(u.Int(b.Lo), rest), u.Int(c))
						if !val.Mentions(a) {
							m[a] = val
						}
					}
				}
				if len(m) > 0 {
					break
				}
			}
		}
		if len(m) == 0 {
			return v
		}
		w := u.Subst(v, m)
		if w == v {
			return v
		}
		v = w
	}
	return v
}

func (v *Val) intToks() []*Val {
	var out []*Val
	for t := range v.toks {
		if isIntish(t) {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Mentions reports whether a occurs in v.
func (v *Val) Mentions(a *Val) bool {
	return v.mentions(a, map[*Val]bool{})
}

func (v *Val) mentions(a *Val, seen map[*Val]bool) bool {
	if v == a {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, b := range v.Args {
		if b.mentions(a, seen) {
			return true
		}
	}
	return false
}

// TypeOr is the value's recorded type (never nil).
func (v *Val) TypeOr() types.Type {
	if v.Typ != nil {
		return v.Typ
	}
	return types.Typ[types.Invalid]
}

// SameVal shows two values equal, seeing through struct fields.
func (x *Exec) SameVal(st *State, a, b *Val) bool {
	if a == b {
		return true
	}
	a, b = x.Norm(st, a), x.Norm(st, b)
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.Op == OStruct || b.Op == OStruct {
		s := a
		if s.Op != OStruct {
			s = b
		}
		fs := structFields(s.Typ)
		if fs == nil {
			return false
		}
		for i := 0; i < fs.NumFields(); i++ {
			t := fs.Field(i).Type()
			if !x.SameVal(st, x.U.Field(a, i, t), x.U.Field(b, i, t)) {
				return false
			}
		}
		return true
	}
	if isIntish(a) && isIntish(b) {
		return x.ProveEq(st, a, b)
	}
	v, k := x.Decide(st, x.EqVal(a, b))
	return k && v
}

// SameList compares two list terms modulo what the state implies.
func (x *Exec) SameList(st *State, a, b *Val) bool {
	a, b = x.Norm(st, x.Reify(st, a)), x.Norm(st, x.Reify(st, b))
	if a == b || isEmptyList(a) && isEmptyList(b) {
		return true
	}
	if x.emptyKnown(st, a) && x.emptyKnown(st, b) {
		return true
	}
	if a.Op == OComp && b.Op == OComp && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		return x.ProveEq(st, a.Args[4], b.Args[4])
	}
	if a.Op == OList && b.Op == OList && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if !x.SameVal(st, a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func isEmptyList(v *Val) bool { return v.IsNil() || v.Op == OList && len(v.Args) == 0 }

func (x *Exec) emptyKnown(st *State, v *Val) bool {
	if isEmptyList(v) {
		return true
	}
	iv := x.Bounds(st, x.U.Len(v))
	return iv.Hi <= 0
}

// subset reports whether every element of a is in b.
func subset(a, b []int) bool {
	for _, v := range a {
		ok := false
		for _, w := range b {
			if v == w {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// sortConsts sorts a list of constant strings or integers.
func (u *Universe) sortConsts(l *Val) (*Val, bool) {
	es := append([]*Val{}, l.Args...)
	for _, e := range es {
		_, a := e.StrConst()
		_, b := e.IntConst()
		if !a && !b {
			return nil, false
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if a, ok := es[i].StrConst(); ok {
			b, _ := es[j].StrConst()
			return a < b
		}
		a, _ := es[i].IntConst()
		b, _ := es[j].IntConst()
		return a < b
	})
	return u.List(es...), true
}

// InModule: the function belongs to the analysed module.
func (x *Exec) InModule(fn *ssa.Function) bool { return x.inModule(fn) }
