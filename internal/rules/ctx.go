// Package rules decides the properties from the SSA form of the module.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

// Obligation is one thing that had to be shown.
type Obligation struct {
	Key    string // rule/construct, stable under edits of unrelated code
	Rule   string
	OK     bool
	Detail string
	Pos    string
	Trail  []string
}

type Ctx struct {
	P    *load.Program
	Obls []*Obligation
	// statistics
	Funcs  map[string]bool
	States int
	Notes  []string
	kinds  []types.Type
	mark   map[string]*Obligation
}

func NewCtx(p *load.Program) *Ctx {
	return &Ctx{P: p, Funcs: map[string]bool{}, mark: map[string]*Obligation{}}
}

func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.P.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(c.P.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Check records an obligation; obligations with one key are conjoined.
func (c *Ctx) Check(rule, construct string, ok bool, pos token.Pos, format string, args ...any) bool {
	return c.CheckT(rule, construct, ok, pos, nil, format, args...)
}

func (c *Ctx) CheckT(rule, construct string, ok bool, pos token.Pos, trail []string, format string, args ...any) bool {
	key := rule + "/" + construct
	o := c.mark[key]
	if o == nil {
		o = &Obligation{Key: key, Rule: rule, OK: true, Pos: c.Pos(pos)}
		c.mark[key] = o
		c.Obls = append(c.Obls, o)
	}
	if !ok && o.OK {
		o.OK = false
		o.Detail = fmt.Sprintf(format, args...)
		o.Pos = c.Pos(pos)
		o.Trail = trail
	}
	return ok
}

func (c *Ctx) Exec() *absint.Exec {
	x := absint.NewExec(c.P.Prog, load.Mod)
	return x
}

// Done folds an execution's statistics and undecided constructs into c.
func (c *Ctx) Done(x *absint.Exec, rule, construct string, fn *ssa.Function) {
	c.States += x.States
	if fn != nil {
		c.Funcs[fn.RelString(nil)] = true
	}
	for f := range x.Inlined {
		c.Funcs[f.RelString(nil)] = true
	}
	for _, u := range x.Undecided {
		pos := token.NoPos
		if fn != nil {
			pos = fn.Pos()
		}
		c.Check(rule+".undecided", construct, false, pos, "could not decide: %s", u)
	}
	for _, r := range x.Reports {
		c.CheckT(r.Rule, construct, false, r.Pos, r.Trail, "%s", r.Msg)
	}
}

// Term is the parser.Term interface.
func (c *Ctx) Named(pkg, name string) types.Type {
	t := c.P.Type(pkg, name)
	if t == nil {
		panic(missing(pkg + "." + name))
	}
	return t
}

type missing string

func (m missing) Error() string { return "anchor not found: " + string(m) }

// Iface returns the interface underlying a named type.
func iface(t types.Type) *types.Interface {
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// Kinds are the concrete term types, in name order.
func (c *Ctx) Kinds() []types.Type {
	if c.kinds != nil {
		return c.kinds
	}
	term := iface(c.Named("parser", "Term"))
	sp := c.P.SSA["parser"]
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nt := t.Type()
		if types.IsInterface(nt) {
			continue
		}
		if types.Implements(nt, term) {
			c.kinds = append(c.kinds, nt)
		}
	}
	if len(c.kinds) < 5 {
		panic(missing("implementations of parser.Term"))
	}
	return c.kinds
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return typeName(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// fieldIndex finds a field of a struct type by name, or by type if unique.
func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func fieldsOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// allFuncs lists every source function of the module, including literals.
func (c *Ctx) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var pkgs []string
	for p := range c.P.SSA {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		sp := c.P.SSA[p]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := c.P.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := c.P.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

func relName(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), load.Mod+"/", "")
}

// Fail records an obligation that could not be met.
func (c *Ctx) Fail(rule, construct, format string, args ...any) {
	c.Check(rule, construct, false, token.NoPos, format, args...)
}

// parallel runs independent parts of an analysis side by side and joins what
// they found in order.
func (c *Ctx) parallel(n int, run func(i int, sub *Ctx)) {
	subs := make([]*Ctx, n)
	lost := make([]any, n)
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				func() {
					defer func() { lost[i] = recover() }()
					run(i, subs[i])
				}()
			}
		}()
	}
	for i := range subs {
		subs[i] = NewCtx(c.P)
		next <- i
	}
	close(next)
	wg.Wait()
	for i, s := range subs {
		if lost[i] != nil {
			panic(lost[i])
		}
		for _, o := range s.Obls {
			old := c.mark[o.Key]
			switch {
			case old == nil:
				c.mark[o.Key] = o
				c.Obls = append(c.Obls, o)
			case old.OK && !o.OK:
				*old = *o
			}
		}
		for f := range s.Funcs {
			c.Funcs[f] = true
		}
		c.States += s.States
		c.Notes = append(c.Notes, s.Notes...)
	}
}
