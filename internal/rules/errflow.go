package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

func init() {
	register(&Prop{ID: "C09", Run: func(c *Ctx) { c.ErrFlow() }, Technique: absTechnique, MinObl: 25,
		Covers: "every function of the module that calls something that can fail, makes an error or recovers from a panic: each failing call is assumed to fail and to succeed, and on every path on which one failed the function has to return an error, to panic, to exit with a failure or, if it cannot return errors, to record one where others can see it; a callback must not erase a failure recorded before. Choices of the parsers among alternatives (Parser.Parse) are left to C01-C04."})
}

type errFlow struct {
	c      *Ctx
	errI   *types.Interface
	parse  *types.Func
	uci    types.Type
	extRef types.Type
	memo   map[*ssa.Function]bool
	vals   []*ssa.Function
}

func isErrI(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *errFlow) isErr(t types.Type) bool {
	return t != nil && types.Implements(t, e.errI)
}

// ErrFlow decides C09.
func (c *Ctx) ErrFlow() {
	e := &errFlow{c: c, errI: types.Universe.Lookup("error").Type().Underlying().(*types.Interface), memo: map[*ssa.Function]bool{}}
	pi := iface(c.Named("parser", "Parser"))
	for i := 0; i < pi.NumMethods(); i++ {
		if pi.Method(i).Name() == "Parse" {
			e.parse = pi.Method(i)
		}
	}
	e.uci = c.Named("parser", "UnconsumedInputError")
	e.extRef = c.Named("parser", "ExternalRef")
	if e.parse == nil {
		panic(missing("Parser.Parse"))
	}
	for _, fn := range c.allFuncs() {
		if e.testOnly(fn) {
			continue
		}
		if e.recovers(fn) {
			e.recovery(fn)
		}
		if e.needs(fn) {
			e.flow(fn)
		}
	}
}

// testOnly: helpers for tests that live in ordinary files.
func (e *errFlow) testOnly(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		for _, p := range f.Params {
			if strings.Contains(p.Type().String(), "testing.") {
				return true
			}
		}
	}
	return false
}

func (e *errFlow) recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

const (
	sound    = iota // cannot fail, or a failure does not matter here
	fallible        // yields an error or nil
	made            // makes an error
)

// class tells what a call site does about errors.
func (e *errFlow) class(c *ssa.CallCommon, fn *ssa.Function, deferred bool) int {
	sig := c.Signature()
	yields := false
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrI(sig.Results().At(i).Type()) {
			yields = true
		}
	}
	if !yields {
		return sound
	}
	if c.IsInvoke() {
		if c.Method.Name() == "Parse" && types.Identical(c.Method.Type(), e.parse.Type()) && e.isParser(c.Value.Type()) {
			return sound // a choice; see C01 to C04
		}
		if deferred && c.Method.Name() == "Close" {
			return sound
		}
		if e.fmtState(c.Value.Type()) {
			return sound
		}
		return fallible
	}
	if f, ok := c.Value.(*ssa.Function); ok || c.StaticCallee() != nil {
		if !ok {
			f = c.StaticCallee()
		}
		name := f.RelString(nil)
		switch name {
		case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return made
		case "fmt.Print", "fmt.Println", "fmt.Printf":
			if e.writesCode(fn) && e.printsText(c) {
				return fallible
			}
			return sound
		case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
			if e.sureWriter(c.Args[0]) {
				return sound
			}
			if _, ok := c.Args[0].(*ssa.Parameter); ok && fn.Signature.Results().Len() == 0 {
				return sound // has no way to report; the writer is the caller's
			}
			return fallible
		}
		if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).Write") {
			return sound
		}
		if deferred && f.Name() == "Close" {
			return sound
		}
		if e.neverFails(f) {
			return sound
		}
		return fallible
	}
	// a function value
	if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		return sound // a description of an error that is asked for
	}
	// every function of the module that could be meant never fails
	if !types.Identical(sig, e.extRef.Underlying()) {
		n := 0
		for _, f := range e.values() {
			if types.Identical(f.Signature.Params(), sig.Params()) && types.Identical(f.Signature.Results(), sig.Results()) {
				n++
				if !e.neverFails(f) {
					return fallible
				}
			}
		}
		if n > 0 && !exportedFuncType(c.Value.Type()) {
			return sound
		}
	}
	return fallible
}

// exportedFuncType: users of the module can supply such functions.
func exportedFuncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return !ok || n.Obj().Exported()
}

// values are the functions of the module used as values.
func (e *errFlow) values() []*ssa.Function {
	if e.vals != nil {
		return e.vals
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range e.c.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok || seen[f] || *op == callee && !isMakeClosure(in) {
						continue
					}
					seen[f] = true
					e.vals = append(e.vals, f)
				}
			}
		}
	}
	return e.vals
}

func isMakeClosure(in ssa.Instruction) bool {
	_, ok := in.(*ssa.MakeClosure)
	return ok
}

// neverFails: every error the function returns is the constant nil.
func (e *errFlow) neverFails(f *ssa.Function) bool {
	if f.Pkg == nil && f.Parent() == nil || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range r.Results {
			if !e.isErr(v.Type()) {
				continue
			}
			if k, ok := v.(*ssa.Const); !ok || !k.IsNil() {
				return false
			}
		}
	}
	return true
}

func (e *errFlow) isParser(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "Parse" && types.Identical(i.Method(k).Type(), e.parse.Type()) {
			return true
		}
	}
	return false
}

func (e *errFlow) fmtState(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "fmt" && n.Obj().Name() == "State"
}

// sureWriter: writing there cannot fail, or is for show.
func (e *errFlow) sureWriter(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		s := v.X.Type().String()
		if s == "*strings.Builder" || s == "*bytes.Buffer" {
			return true
		}
		if l, ok := v.X.(*ssa.UnOp); ok {
			if g, ok := l.X.(*ssa.Global); ok && g.RelString(nil) == "os.Stderr" {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return e.fmtState(v.X.Type()) || e.sureWriter(v.X)
	}
	return e.fmtState(v.Type())
}

// writesCode: the function generates code.
func (e *errFlow) writesCode(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && (strings.HasSuffix(f.Pkg.Pkg.Path(), "/codegen") || f.Pkg.Pkg.Path() == "go/format") {
					return true
				}
			}
		}
	}
	return false
}

// printsText: the call prints something held as text, like generated code,
// rather than showing a value.
func (e *errFlow) printsText(c *ssa.CallCommon) bool {
	if len(c.Args) == 0 {
		return false
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if _, ok := mi.X.(*ssa.Const); ok {
				continue
			}
			switch mi.X.Type().String() {
			case "string", "[]byte":
				return true
			}
		}
	}
	return false
}

// onlyPanics: the value goes nowhere but into a panic.
func onlyPanics(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil || len(*rs) == 0 {
		return false
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.Panic:
		case *ssa.MakeInterface:
			if !onlyPanics(r) {
				return false
			}
		case *ssa.ChangeInterface:
			if !onlyPanics(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// needs: the function has sites to follow. Those whose error goes straight
// into a panic or straight out are discharged at once.
func (e *errFlow) needs(fn *ssa.Function) bool {
	if b, ok := e.memo[fn]; ok {
		return b
	}
	e.memo[fn] = false
	res := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			_, def := in.(*ssa.Defer)
			k := e.class(ci.Common(), fn, def)
			if k == sound {
				continue
			}
			if k == made {
				if v := ci.Value(); v != nil && onlyPanics(v) {
					e.c.Check("C09.direct", e.site(fn, ci), true, ci.Pos(), "")
					continue
				}
			}
			res = true
		}
	}
	e.memo[fn] = res
	return res
}

func (e *errFlow) site(fn *ssa.Function, ci ssa.CallInstruction) string {
	n := "call"
	if f := ci.Common().StaticCallee(); f != nil {
		n = relName(f)
	} else if ci.Common().IsInvoke() {
		n = ci.Common().Method.Name()
	}
	return relName(fn) + " " + n
}

// exitCall recognises calls that end the program: 1 with a failure, -1 with
// success, 0 not at all.
func exitCall(c *absint.CallInfo) int {
	if c.Fn == nil {
		return 0
	}
	n := c.Fn.RelString(nil)
	switch n {
	case "os.Exit":
		if a := c.Args[0]; a.C != nil && a.C.Kind() == constant.Int {
			if i, _ := constant.Int64Val(a.C); i == 0 {
				return -1
			}
		}
		return 1
	case "runtime.Goexit":
		return 1
	}
	if c.Fn.Pkg != nil {
		switch c.Fn.Pkg.Pkg.Path() {
		case "log", "github.com/sirupsen/logrus":
			if strings.HasPrefix(c.Fn.Name(), "Fatal") || strings.HasPrefix(c.Fn.Name(), "Panic") {
				return 1
			}
		case "testing":
			if strings.HasPrefix(c.Fn.Name(), "Fatal") {
				return 1
			}
		}
	}
	return 0
}

const pendKey = "!pending "

func pending(st *State) (string, bool) {
	best := ""
	for k := range st.TS {
		if strings.HasPrefix(k, pendKey) && (best == "" || k < best) {
			best = k
		}
	}
	return strings.TrimPrefix(best, pendKey), best != ""
}

// hooksErrs sets up an execution that lets calls fail.
func (e *errFlow) exec(root *ssa.Function, recovered *Val) *Exec {
	c := e.c
	x := c.Exec()
	u := x.U
	x.Hooks.Inline = func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return true
		}
		for _, p := range f.Params {
			if e.isErr(p.Type()) && !e.isErrRecv(f, p) {
				return true
			}
		}
		if f.Signature.Recv() != nil && isErrI(f.Signature.Recv().Type()) {
			return true
		}
		return false
	}
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		common := ci.Instr.Common()
		if b, ok := common.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			return nil, false
		}
		switch exitCall(ci) {
		case 1:
			x.Outcomes = append(x.Outcomes, &absint.Outcome{St: st, Panic: u.Str("exit"), Pos: ci.Pos})
			return nil, true
		case -1:
			if where, p := pending(st); p {
				x.Report(st, ci.Pos, "C09.exit", "exits successfully although %s failed", where)
			}
			return nil, true
		}
		if e.inlines(x, st, ci) {
			return nil, false
		}
		_, def := ci.Instr.(*ssa.Defer)
		k := e.class(common, ci.Instr.Parent(), def)
		// a function value that turned out to be known
		if ci.Fn != nil && common.StaticCallee() == nil && !common.IsInvoke() && ci.Fn.Parent() != nil {
			return nil, false
		}
		// callbacks may fail and record that in a variable of ours
		outs := []absint.Out{{St: st}}
		for _, cl := range closuresIn(x, st, ci.Args) {
			outs = e.callback(x, outs, cl)
		}
		if k == sound {
			if len(outs) == 1 {
				return nil, false
			}
			for i := range outs {
				outs[i].Val = x.Opaque(outs[i].St, ci)
			}
			return outs, true
		}
		var all []absint.Out
		where := e.site(ci.Instr.Parent(), ci.Instr)
		for _, o := range outs {
			v := x.Opaque(o.St, ci)
			sig := common.Signature()
			var errAt []int
			for i := 0; i < sig.Results().Len(); i++ {
				if isErrI(sig.Results().At(i).Type()) {
					errAt = append(errAt, i)
				}
			}
			mk := func(st *State, fail bool) {
				st = st.Clone()
				parts := []*Val{v}
				if sig.Results().Len() > 1 {
					parts = append([]*Val(nil), v.Args...)
				}
				for _, i := range errAt {
					if fail {
						f := u.FreshTok("err", sig.Results().At(i).Type())
						x.Assume(st, u.Eq(f, u.Nil(nil)), false)
						st.TS[pendKey+where] = u.Int(1)
						st.TS["error "+where] = f
						parts[i] = f
					} else {
						parts[i] = u.Nil(nil)
					}
				}
				r := parts[0]
				if sig.Results().Len() > 1 {
					r = u.Tuple(parts...)
				}
				all = append(all, absint.Out{St: st, Val: r})
			}
			mk(o.St, true)
			if k == fallible {
				mk(o.St, false)
			}
		}
		return all, true
	}
	return x
}

func (e *errFlow) isErrRecv(f *ssa.Function, p *ssa.Parameter) bool {
	return f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == p
}

// inlines tells whether the engine is going to enter the callee.
func (e *errFlow) inlines(x *Exec, st *State, ci *absint.CallInfo) bool {
	if ci.Fn == nil || len(ci.Fn.Blocks) == 0 || ci.Fn.Pkg == nil && ci.Fn.Parent() == nil {
		return false
	}
	if p := ci.Fn.Pkg; p == nil || !strings.HasPrefix(p.Pkg.Path(), load.Mod) {
		return false
	}
	for _, f := range st.Frames {
		if f.Fn == ci.Fn {
			return false
		}
	}
	return x.Hooks.Inline(ci.Fn)
}

// closuresIn finds the function literals of the module reachable from
// values handed to a call.
func closuresIn(x *Exec, st *State, args []*Val) []*Val {
	var out []*Val
	seen := map[*Val]bool{}
	var walk func(v *Val, d int)
	walk = func(v *Val, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		if v.Op == absint.OClosure {
			out = append(out, v)
		}
		for _, a := range v.Args {
			walk(a, d+1)
		}
	}
	for _, a := range args {
		walk(a, 0)
		walk(x.Reify(st, a), 0)
	}
	return out
}

// errCells are the variables of the enclosing function of type error that a
// literal assigns, and all the variables it assigns.
func errCells(fn *ssa.Function) (errs, all []int) {
	for i, fv := range fn.FreeVars {
		stored := false
		for _, r := range *fv.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == fv {
					stored = true
				}
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for j, b := range r.Bindings {
					if b == fv {
						_, ga := errCells(g)
						for _, k := range ga {
							if k == j {
								stored = true
							}
						}
					}
				}
			}
		}
		if !stored {
			continue
		}
		all = append(all, i)
		if p, ok := fv.Type().Underlying().(*types.Pointer); ok && isErrI(p.Elem()) {
			errs = append(errs, i)
		}
	}
	return errs, all
}

// callback lets a literal that was handed on run: its variables change, and
// it may have recorded a failure.
func (e *errFlow) callback(x *Exec, outs []absint.Out, cl *Val) []absint.Out {
	fn := cl.Fn
	errs, all := errCells(fn)
	var res []absint.Out
	for _, o := range outs {
		isErrCell := map[int]bool{}
		for _, i := range errs {
			isErrCell[i] = true
		}
		for _, i := range all {
			if !isErrCell[i] && i < len(cl.Args) {
				x.Havoc(o.St, cl.Args[i], "callback")
			}
		}
		res = append(res, o)
		for _, i := range errs {
			if i >= len(cl.Args) {
				continue
			}
			st := o.St.Clone()
			f := x.U.FreshTok("err", types.Universe.Lookup("error").Type())
			x.Assume(st, x.U.Eq(f, x.U.Nil(nil)), false)
			x.Store(st, cl.Args[i], f, f.Typ)
			st.TS[pendKey+relName(fn)] = x.U.Int(1)
			st.TS["error "+relName(fn)] = f
			res = append(res, absint.Out{St: st})
		}
	}
	return res
}

// flow follows the errors of one function.
func (e *errFlow) flow(fn *ssa.Function) {
	c := e.c
	x := e.exec(fn, nil)
	u := x.U
	st := absint.NewState()
	var args, binds []*Val
	for _, p := range fn.Params {
		args = append(args, u.Sym(p.Name(), p.Type()))
	}
	for _, p := range fn.FreeVars {
		binds = append(binds, u.Sym("free."+p.Name(), p.Type()))
	}
	errs, _ := errCells(fn)
	outs := x.RunClosure(fn, args, binds, st)
	aborts := e.abortsOnFailure(x, fn, outs, binds, errs)
	sig := fn.Signature
	reports := false
	for i := 0; i < sig.Results().Len(); i++ {
		if e.isErr(sig.Results().At(i).Type()) {
			reports = true
		}
	}
	name := relName(fn)
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		where, p := pending(o.St)
		if p {
			if e.excused(x, fn, o) {
				p = false
			}
		}
		if p {
			ok := false
			for i, r := range o.Res {
				if e.isErr(sig.Results().At(i).Type()) && e.nonNil(x, o.St, r) {
					ok = true
				}
			}
			if !ok && !reports {
				ok = e.recorded(x, o, args, binds)
			}
			for _, i := range errs {
				t := binds[i].Typ.Underlying().(*types.Pointer).Elem()
				if !ok && e.nonNil(x, o.St, x.Load(o.St, binds[i], t)) {
					ok = true
				}
			}
			if !ok {
				x.Report(o.St, o.Pos, "C09.flow", "ends as if all was well although %s failed", where)
			}
		}
		if !aborts {
			for _, i := range errs {
				t := binds[i].Typ.Underlying().(*types.Pointer).Elem()
				v := x.Load(o.St, binds[i], t)
				if v != u.Init(binds[i], t) && !e.nonNil(x, o.St, v) {
					x.Report(o.St, o.Pos, "C09.erase", "may replace a failure recorded in %s earlier by success", fn.FreeVars[i].Name())
				}
			}
		}
	}
	c.Check("C09.flow", name, true, fn.Pos(), "")
	c.Check("C09.flow", name, len(outs) > 0 || len(x.Outcomes) > 0, fn.Pos(), "has no outcome")
	for _, r := range x.Reports {
		c.CheckT(r.Rule, name, false, r.Pos, r.Trail, "%s", r.Msg)
	}
	x.Reports = nil
	c.Done(x, "C09", name, fn)
}

// abortsOnFailure: whenever the callback records a failure it asks its
// caller not to call again.
func (e *errFlow) abortsOnFailure(x *Exec, fn *ssa.Function, outs []*absint.Outcome, binds []*Val, errs []int) bool {
	if len(errs) == 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	n := 0
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		if _, p := pending(o.St); !p {
			continue
		}
		n++
		r := o.Res[0]
		if r.Op != absint.OIface {
			return false
		}
		abort := e.c.P.TypeMethod(r.Typ, "Abort")
		if abort == nil {
			return false
		}
		y := e.c.Exec()
		y.U = x.U
		for _, a := range y.Run(abort, []*Val{r.Args[0]}, absint.NewState()) {
			if a.Panic != nil || len(a.Res) != 1 || a.Res[0] != x.U.Bool(true) {
				return false
			}
		}
	}
	return n > 0
}

func (e *errFlow) nonNil(x *Exec, st *State, v *Val) bool {
	if v.Op == absint.OIface {
		return true
	}
	if eq, known := x.Decide(st, x.U.Eq(v, x.U.Nil(nil))); known {
		return !eq
	}
	// an error made by wrapping one that is there
	if v.Op == absint.OCall && !strings.HasPrefix(v.Aux, load.Mod) && !strings.HasPrefix(v.Aux, "(") {
		for _, a := range v.Args {
			if a.Typ != nil && isErrI(a.Typ) && e.nonNil(x, st, a) {
				return true
			}
		}
	}
	return false
}

// excused: the only failures on the path are an external handler's reports
// of where it stopped.
func (e *errFlow) excused(x *Exec, fn *ssa.Function, o *absint.Outcome) bool {
	for k, f := range o.St.TS {
		if !strings.HasPrefix(k, "error ") {
			continue
		}
		if !strings.HasSuffix(k, " call") {
			return false
		}
		if is, known := x.Decide(o.St, x.U.IsType(f, e.uci)); !known || !is {
			return false
		}
	}
	return true
}

// recorded: something that tells of a failure is in the results or in memory
// that others see.
func (e *errFlow) recorded(x *Exec, o *absint.Outcome, args, binds []*Val) bool {
	has := func(v *Val) bool {
		found := false
		seen := map[*Val]bool{}
		var walk func(v *Val)
		walk = func(v *Val) {
			if v == nil || found || seen[v] {
				return
			}
			seen[v] = true
			if v.Op == absint.OIface && e.isErr(v.Typ) {
				found = true
			}
			if v.Op == absint.OFresh && v.Typ != nil && isErrI(v.Typ) {
				found = true
			}
			for _, a := range v.Args {
				walk(a)
			}
		}
		walk(v)
		return found
	}
	for _, r := range o.Res {
		if has(x.Reify(o.St, r)) {
			return true
		}
	}
	for a, v := range o.St.Mem {
		root := a
		for root.Op == absint.OFieldAddr || root.Op == absint.OIndexAddr {
			root = root.Args[0]
		}
		if root.Op == absint.OAlloc || root.Op == absint.OMake {
			continue
		}
		if has(x.Reify(o.St, v)) {
			return true
		}
	}
	return false
}

// recovery: a function that recovers from a panic must turn it into a
// failure of another form.
func (e *errFlow) recovery(fn *ssa.Function) {
	c := e.c
	x := e.exec(fn, nil)
	u := x.U
	x.Recover = u.Sym("panicked", nil)
	st := absint.NewState()
	x.Assume(st, u.Eq(x.Recover, u.Nil(nil)), false)
	var args, binds []*Val
	for _, p := range fn.Params {
		args = append(args, u.Sym(p.Name(), p.Type()))
	}
	for _, p := range fn.FreeVars {
		binds = append(binds, u.Sym("free."+p.Name(), p.Type()))
	}
	errs, _ := errCells(fn)
	n := 0
	st.TS[pendKey+"the code that panicked"] = u.Int(1)
	for _, o := range x.RunClosure(fn, args, binds, st) {
		n++
		if o.Panic != nil {
			continue
		}
		ok := false
		for _, i := range errs {
			t := binds[i].Typ.Underlying().(*types.Pointer).Elem()
			if e.nonNil(x, o.St, x.Load(o.St, binds[i], t)) {
				ok = true
			}
		}
		for i, r := range o.Res {
			if e.isErr(fn.Signature.Results().At(i).Type()) && e.nonNil(x, o.St, r) {
				ok = true
			}
		}
		if !ok {
			x.Report(o.St, o.Pos, "C09.recover", "%s", "a panic is caught and forgotten")
		}
	}
	name := relName(fn)
	c.Check("C09.recover", name, n > 0 || len(x.Reports) > 0, fn.Pos(), "has no outcome")
	for _, r := range x.Reports {
		c.CheckT(r.Rule, name, false, r.Pos, r.Trail, "%s", r.Msg)
	}
	x.Reports = nil
	c.Done(x, "C09", name, fn)
	_ = fmt.Sprint
}
