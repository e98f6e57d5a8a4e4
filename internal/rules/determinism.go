package rules

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "C08", Run: func(c *Ctx) { c.Determinism() }, Technique: "dataflow over SSA: every iteration over a map or another unordered collection must compute its results by operations that commute (keyed entries, sets, sums, lists sorted before use); taint tracking of random numbers, time and addresses", MinObl: 30,
		Covers: "every function of the library and of the code generator: each iteration over a map, over the elements of a frozen collection, or over a list filled from one; each source of random numbers, time, addresses and process state; goroutines and selects; package-level state written by operations."})
}

// Determinism decides C08.
func (c *Ctx) Determinism() {
	e := c.effectAnalysis()
	var roots []*ssa.Function
	for _, f := range e.order {
		if !forTests(f) {
			roots = append(roots, f)
		}
	}
	e.reach = e.reachable(roots)
	e.solve()
	o := &ordering{c: c, e: e, loops: map[*ssa.Function][]*uloop{}, list: map[ssa.Value]string{}, retU: map[*ssa.Function][]string{},
		paramU: map[*ssa.Parameter]string{}, accMap: map[string]string{}, sorts: map[*ssa.Parameter]bool{}, found: map[string]finding{}}
	o.sorters()
	for round := 0; round < 20; round++ {
		o.change = false
		o.found = map[string]finding{}
		for _, f := range e.order {
			if forTests(f) {
				continue
			}
			o.seeds(f)
			o.find(f)
			for _, l := range o.loops[f] {
				l.check()
			}
		}
		var vs []ssa.Value
		for v := range o.list {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			return vs[i].Pos() < vs[j].Pos() || vs[i].Pos() == vs[j].Pos() && vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			o.uses(v, o.list[v])
		}
		if !o.change {
			break
		}
	}
	// obligations: one for each iteration
	for _, f := range e.order {
		for i, l := range o.loops[f] {
			c.Funcs[f.RelString(nil)] = true
			c.Check("C08.order", fmt.Sprintf("%s: %s #%d", relName(f), l.what, i+1), true, l.pos, "")
		}
	}
	for _, f := range e.order {
		// lists handed out
		if f.Object() == nil || !f.Object().Exported() || unexportedOp(f) || forTests(f) {
			continue
		}
		for _, why := range o.retU[f] {
			if why != "" {
				o.report(f, f.Pos(), "%s is returned to clients", why)
			}
		}
	}
	var keys []string
	for k := range o.found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := o.found[k]
		c.Check("C08.order", k, false, x.pos, "%s in %s", x.msg, relName(x.f))
	}
	c.randomness(e)
	c.globals(e)
}
