package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// randomness follows values that differ from run to run. They may be stored,
// passed on and compared with one another, to tell things apart, but nothing
// may be computed from them.
type randomness struct {
	c       *Ctx
	e       *effects
	vals    map[ssa.Value]bool
	work    []ssa.Value
	fields  map[string]bool        // struct type and field
	named   map[string]bool        // types of such values
	fields2 map[string][]ssa.Value // field reads
	byType  map[string][]ssa.Value
	rets    map[*ssa.Function]map[int]bool
	callers map[*ssa.Function][]*ssa.Call
	what    map[ssa.Value]string
}

// source: what a call yields differs from run to run.
func nondetSource(name string) string {
	for _, p := range []struct{ prefix, what string }{
		{"math/rand.", "a random number"}, {"math/rand/v2.", "a random number"}, {"crypto/rand.", "a random number"},
		{"(*math/rand.Rand).", "a random number"}, {"(*math/rand/v2.Rand).", "a random number"},
		{"hash/maphash.", "a random hash"}, {"(*hash/maphash.Hash).", "a random hash"},
		{"time.Now", "the time"}, {"time.Since", "the time"}, {"time.Until", "the time"}, {"time.After", "the time"}, {"time.Tick", "the time"},
		{"os.Getpid", "the process id"}, {"os.Getppid", "the process id"}, {"os.Hostname", "the host name"},
		{"os.Getenv", "the environment"}, {"os.LookupEnv", "the environment"}, {"os.Environ", "the environment"},
		{"runtime.NumGoroutine", "the state of the process"}, {"runtime.NumCPU", "the machine"}, {"runtime.GOMAXPROCS", "the machine"}, {"runtime.ReadMemStats", "the state of the process"},
		{"(reflect.Value).Pointer", "an address"}, {"(reflect.Value).UnsafePointer", "an address"}, {"(reflect.Value).UnsafeAddr", "an address"},
		{"os.MkdirTemp", "a random name"}, {"os.CreateTemp", "a random name"},
	} {
		if strings.HasPrefix(name, p.prefix) {
			if name == "math/rand.New" || name == "math/rand.NewSource" || strings.HasSuffix(name, ".Seed") {
				return ""
			}
			return p.what
		}
	}
	return ""
}

func (r *randomness) taint(v ssa.Value, what string) {
	if v == nil || r.vals[v] {
		return
	}
	r.vals[v] = true
	r.what[v] = what
	r.work = append(r.work, v)
	t := v.Type()
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/arr-ai/wbnf") {
		if _, isStruct := n.Underlying().(*types.Struct); !isStruct && !r.named[n.String()] {
			if _, isIface := n.Underlying().(*types.Interface); !isIface {
				if _, isSlice := n.Underlying().(*types.Slice); !isSlice {
					r.named[n.String()] = true
					for _, x := range r.byType[n.String()] {
						r.taint(x, what)
					}
				}
			}
		}
	}
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String() + "." + string(rune('0'+i))
}

func (r *randomness) field(k, what string) {
	if r.fields[k] {
		return
	}
	r.fields[k] = true
	for _, v := range r.fields2[k] {
		r.taint(v, what)
	}
}

// Randomness decides that part of C08.
func (c *Ctx) randomness(e *effects) {
	r := &randomness{c: c, e: e, vals: map[ssa.Value]bool{}, fields: map[string]bool{}, named: map[string]bool{}, fields2: map[string][]ssa.Value{},
		byType: map[string][]ssa.Value{}, rets: map[*ssa.Function]map[int]bool{}, callers: map[*ssa.Function][]*ssa.Call{}, what: map[ssa.Value]string{}}
	type src struct {
		v    ssa.Value
		what string
	}
	var srcs []src
	for _, f := range e.order {
		if forTests(f) {
			continue
		}
		note := func(v ssa.Value) {
			if n, ok := v.Type().(*types.Named); ok {
				if _, isConst := v.(*ssa.Const); !isConst {
					r.byType[n.String()] = append(r.byType[n.String()], v)
				}
			}
		}
		for _, p := range f.Params {
			note(p)
		}
		for _, b := range f.Blocks {
			if !e.fns[f].live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					note(v)
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					r.fields2[fieldKey(x.X.Type(), x.Field)] = append(r.fields2[fieldKey(x.X.Type(), x.Field)], x)
				case *ssa.Field:
					r.fields2[fieldKey(x.X.Type(), x.Field)] = append(r.fields2[fieldKey(x.X.Type(), x.Field)], x)
				case *ssa.Go:
					c.Check("C08.schedule", relName(f), false, x.Pos(), "a goroutine is started in %s: results may depend on the schedule", relName(f))
				case *ssa.Select:
					if len(x.States) > 1 {
						c.Check("C08.schedule", relName(f), false, x.Pos(), "a select with several cases in %s: the choice is random", relName(f))
					}
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						if y, ok := x.X.Type().Underlying().(*types.Basic); ok && y.Kind() == types.UnsafePointer {
							srcs = append(srcs, src{x, "an address"})
						}
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cl, ok := in.(*ssa.Call); ok {
					for _, g := range e.targets(f, cc) {
						r.callers[g] = append(r.callers[g], cl)
					}
				}
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				name := g.RelString(nil)
				if o := g.Origin(); o != nil {
					name = o.RelString(nil)
				}
				if strings.HasPrefix(name, "fmt.") {
					for _, a := range cc.Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && verbP(constant.StringVal(k.Value)) && !alwaysPanics(in.Block(), map[*ssa.BasicBlock]bool{}) {
							c.Check("C08.random", relName(f)+": %p", false, in.Pos(), "an address is printed (%%p) in %s", relName(f))
						}
					}
				}
				if what := nondetSource(name); what != "" && call.Value() != nil {
					c.Check("C08.random", relName(f)+": "+name, true, in.Pos(), "")
					c.Funcs[f.RelString(nil)] = true
					srcs = append(srcs, src{call.Value(), what})
				}
			}
		}
	}
	for _, s := range srcs {
		if t, ok := s.v.Type().(*types.Tuple); ok {
			_ = t
			for _, u := range *s.v.Referrers() {
				if x, ok := u.(*ssa.Extract); ok && x.Index == 0 {
					r.taint(x, s.what)
				}
			}
			continue
		}
		r.taint(s.v, s.what)
	}
	for len(r.work) > 0 {
		v := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.follow(v)
	}
}

func verbP(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(s) && strings.ContainsRune("+-# 0123456789.[]*", rune(s[j])) {
			j++
		}
		if j < len(s) && s[j] == 'p' {
			return true
		}
		i = j
	}
	return false
}

func (r *randomness) sink(v ssa.Value, u ssa.Instruction, how string) {
	f := u.Parent()
	if alwaysPanics(u.Block(), map[*ssa.BasicBlock]bool{}) {
		return
	}
	r.c.Check("C08.random", relName(f)+": "+how, false, u.Pos(), "%s %s in %s", r.what[v], how, relName(f))
}

func (r *randomness) follow(v ssa.Value) {
	if v.Referrers() == nil {
		return
	}
	what := r.what[v]
	for _, u := range *v.Referrers() {
		if s := r.e.fns[u.Parent()]; s == nil || !s.live[u.Block()] {
			continue
		}
		switch u := u.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field:
			// other fields
		case *ssa.Phi:
			r.taint(u, what)
		case *ssa.ChangeType:
			r.taint(u, what)
		case *ssa.ChangeInterface:
			r.taint(u, what)
		case *ssa.MakeInterface:
			r.taint(u, what)
		case *ssa.TypeAssert:
			r.taint(u, what)
		case *ssa.Extract:
			if u.Index == 0 {
				r.taint(u, what)
			}
		case *ssa.Slice:
			if u.X == v {
				r.taint(u, what)
			} else {
				r.sink(v, u, "is used as a position")
			}
		case *ssa.Convert:
			if b, ok := u.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				r.sink(v, u, "is made part of a text")
			} else {
				r.taint(u, what)
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				r.taint(u, what)
			} else {
				r.sink(v, u, "is used in a computation")
			}
		case *ssa.BinOp:
			other := u.X
			if other == v {
				other = u.Y
			}
			c, isConst := other.(*ssa.Const)
			switch u.Op {
			case token.EQL, token.NEQ:
				if isConst && c.Value != nil && !(c.Value.Kind() == constant.Int && constant.Sign(c.Value) < 0) {
					r.sink(v, u, "decides by its value")
				}
			case token.LSS, token.GEQ, token.GTR, token.LEQ:
				if !(isConst && c.Value != nil && c.Value.Kind() == constant.Int && (c.Int64() == 0 && (u.Op == token.LSS || u.Op == token.GEQ) && u.X == v || c.Int64() < 0)) {
					r.sink(v, u, "decides by its value")
				}
			default:
				r.sink(v, u, "is used in a computation")
			}
		case *ssa.If:
			r.sink(v, u, "decides by its value")
		case *ssa.IndexAddr:
			if u.X == v {
				r.taint(u, what)
			} else {
				r.sink(v, u, "is used as a position")
			}
		case *ssa.Index:
			if u.X == v {
				r.taint(u, what)
			} else {
				r.sink(v, u, "is used as a position")
			}
		case *ssa.Lookup:
			if u.X == v {
				r.taint(u, what)
			}
		case *ssa.Range:
			r.sink(v, u, "is iterated over")
		case *ssa.MapUpdate:
			if u.Value == v {
				r.taint(u.Map, what)
			}
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			r.stored(u.Addr, what)
		case *ssa.MakeClosure:
			f := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b == v {
					r.taint(f.FreeVars[i], what)
				}
			}
		case *ssa.Return:
			f := u.Parent()
			for i, x := range u.Results {
				if x != v {
					continue
				}
				if r.rets[f] == nil {
					r.rets[f] = map[int]bool{}
				}
				if r.rets[f][i] {
					continue
				}
				r.rets[f][i] = true
				for _, cl := range r.callers[f] {
					if len(u.Results) == 1 {
						r.taint(cl, what)
						continue
					}
					for _, w := range *cl.Referrers() {
						if x, ok := w.(*ssa.Extract); ok && x.Index == i {
							r.taint(x, what)
						}
					}
				}
			}
		case ssa.CallInstruction:
			r.passed(v, u)
		default:
			r.sink(v, u, "is used")
		}
	}
}

func (r *randomness) stored(addr ssa.Value, what string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		r.field(fieldKey(a.X.Type(), a.Field), what)
	case *ssa.IndexAddr:
		r.taint(a.X, what)
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.Parameter:
		r.taint(addr, what)
	default:
		r.taint(addr, what)
	}
}

func (r *randomness) passed(v ssa.Value, u ssa.CallInstruction) {
	c := u.Common()
	what := r.what[v]
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if x := u.Value(); x != nil {
				r.taint(x, what)
			}
		case "len", "cap", "copy":
		default:
			r.sink(v, u, "is used in a computation")
		}
		return
	}
	gs := r.e.targets(u.Parent(), c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	if len(gs) > 0 {
		for _, g := range gs {
			for i, a := range args {
				if a == v && i < len(g.Params) && types.Identical(g.Params[i].Type(), a.Type()) {
					r.taint(g.Params[i], what)
				}
			}
		}
		return
	}
	if g := c.StaticCallee(); g != nil {
		switch frozenOp(g) {
		case "Map.With", "Map.GetElse", "Map.Get", "Map.Has", "Set.With", "Set.Has", "(*MapBuilder.Put", "*MapBuilder.Put", "NewSet", "KV":
			return
		}
		if nondetSource(g.RelString(nil)) != "" {
			return
		}
		r.sink(v, u, "is passed to "+g.RelString(nil))
		return
	}
	r.sink(v, u, "is passed on")
}

// globals: an operation leaves nothing behind that a later one depends on.
func (c *Ctx) globals(e *effects) {
	for _, f := range e.order {
		if forTests(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		s := e.fns[f]
		for _, b := range f.Blocks {
			if !s.live[b] {
				continue
			}
			for _, in := range b.Instrs {
				var at ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					at = x.Addr
				case *ssa.MapUpdate:
					at = x.Map
				default:
					continue
				}
				isG := false
				s.of(at).each(func(i int) { isG = isG || s.locs[i].kind == 'G' })
				if !isG {
					continue
				}
				sc := &oscope{l: &uloop{f: f, s: s, in: map[*ssa.BasicBlock]bool{}}, f: f, s: s,
					fixed: func(v ssa.Value) bool {
						switch v.(type) {
						case *ssa.Const, *ssa.Global, *ssa.Function:
							return true
						}
						return false
					}}
				ok := false
				switch x := in.(type) {
				case *ssa.Store:
					ok = sc.lazy(x)
				case *ssa.MapUpdate:
					ok = sc.memo(x)
				}
				c.Funcs[f.RelString(nil)] = true
				c.Check("C08.history", relName(f), ok, in.Pos(), "%s changes package-level state: later results may depend on earlier operations", relName(f))
			}
		}
	}
}
