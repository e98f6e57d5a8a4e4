package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "C07", Run: func(c *Ctx) { c.Purity() }, Technique: "interprocedural effect analysis over SSA: points-to summaries of parameters, captured variables, globals and allocation sites, refined by object type; every write reachable from a public operation must hit memory made by that call or its output parameters", MinObl: 200,
		Covers: "every exported function and method of parser, ast, diff, gotree and wbnf, compilation included, with everything they can call (interface calls by class hierarchy, function values by signature): no assignment, map update, append in place, delete, copy or mutating library call on memory reachable from a parameter, a package variable or a variable captured while compiling, other than output parameters."})
}

// Purity decides C07.
func (c *Ctx) Purity() {
	e := c.effectAnalysis()
	ifaces := []*types.Interface{iface(c.Named("parser", "Term")), iface(c.Named("parser", "Parser")), iface(c.Named("parser", "TreeElement")), iface(c.Named("ast", "Node")), iface(c.Named("ast", "Children"))}
	var roots []*ssa.Function
	for _, f := range e.order {
		if f.Parent() != nil || f.Synthetic != "" || f.Pkg == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch strings.TrimPrefix(f.Pkg.Pkg.Path(), "github.com/arr-ai/wbnf/") {
		case "parser", "ast", "parser/diff", "gotree", "wbnf":
		default:
			continue
		}
		if forTests(f) || unexportedOp(f) {
			continue
		}
		roots = append(roots, f)
	}
	e.reach = e.reachable(roots)
	e.solve()
	reported := map[string]bool{}
	for _, f := range roots {
		s := e.fns[f]
		name := relName(f)
		c.Funcs[f.RelString(nil)] = true
		c.Check("C07.pure", name, true, f.Pos(), "")
		ks := s.effKeys()
		sort.SliceStable(ks, func(i, j int) bool { return len(s.eff[ks[i]].via) < len(s.eff[ks[j]].via) })
		for _, k := range ks {
			l, ef := s.locs[k.loc], s.eff[k]
			what := ""
			switch l.kind {
			case 'G':
				what = "package-level state"
			case 'P', 'C', 'D':
				p := f.Params[l.idx]
				if c.output(f, l, p, ifaces) {
					continue
				}
				what = "memory of the caller reachable from its parameter " + p.Name()
				if p.Name() == "" || p.Name() == "_" {
					what = "memory of the caller reachable from a parameter"
				}
				if l.idx == 0 && f.Signature.Recv() != nil {
					what = "memory reachable from its receiver"
				}
			default:
				continue
			}
			key := ef.in + ": " + ef.what
			if strings.HasPrefix(ef.what, "update of entry") {
				key = ef.what
			}
			if reported[key] {
				continue
			}
			reported[key] = true
			via := ""
			if len(ef.via) > 0 {
				via = " (via " + strings.Join(ef.via, " > ") + ")"
			}
			c.Check("C07.pure", key, false, ef.pos, "%s in %s: %s may modify %s%s", ef.what, ef.in, name, what, via)
		}
	}
	for f := range e.reach {
		c.Funcs[f.RelString(nil)] = true
	}
}

func forTests(f *ssa.Function) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if strings.Contains(ps.At(i).Type().String(), "testing.") {
			return true
		}
	}
	return false
}

// unexportedOp: clients cannot call it, because they cannot name a parameter
// or receiver type.
func unexportedOp(f *ssa.Function) bool {
	if f.Signature.Recv() != nil && f.Name() == "Parse" {
		return false // compiled parsers are called through the interface
	}
	for _, p := range f.Params {
		t := p.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !n.Obj().Exported() {
			return true
		}
	}
	return false
}

// output: parameters through which results are delivered.
func (c *Ctx) output(f *ssa.Function, l loc, p *ssa.Parameter, ifaces []*types.Interface) bool {
	t := p.Type()
	s := t.String()
	if s == "io.Writer" || s == "fmt.State" {
		return true
	}
	if l.kind != 'P' {
		return strings.HasSuffix(s, "gotree.Tree") // a tree view under construction
	}
	recv := f.Signature.Recv() != nil && l.idx == 0
	switch t := t.(type) {
	case *types.Pointer:
		// *Scanner, *TreeElement, an iterator that moves on: but not a
		// compiled parser, a grammar or a tree
		for _, i := range ifaces {
			if recv && types.Implements(t, i) && !types.Identical(t.Elem(), c.Named("parser", "Scanner")) {
				return false
			}
		}
		return true
	case *types.Slice:
		return !recv && types.Identical(t.Elem(), c.Named("parser", "Scanner"))
	}
	return strings.HasSuffix(s, "gotree.Tree")
}
