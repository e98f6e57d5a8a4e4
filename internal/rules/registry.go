package rules

import "sort"

// Prop says how one property is decided.
type Prop struct {
	ID        string
	Run       func(c *Ctx)
	Groups    []string // further obligation prefixes that count for it
	Technique string
	Covers    string // what the analysis decides, for the evidence
	MinObl    int    // fewer obligations than this mean that the analysis lost its anchors
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Get looks a property up.
func Get(id string) *Prop { return props[id] }

// IDs lists the claimed properties.
func IDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

const absTechnique = "abstract interpretation of the type-checked SSA form (symbolic lists, linear facts, inferred loop invariants) against typestate rules"

func init() {
	parse := func(c *Ctx) { c.Parse() }
	register(&Prop{ID: "C01", Run: parse, Groups: []string{"parse."}, Technique: absTechnique, MinObl: 18,
		Covers: "For every parser a term kind constructs, its Parse method is interpreted with each sub-parser and pattern replaced by its contract (it may succeed at any new position, fail recoverably or finally, and may move the input it was given when it fails). On every path, every sub-parser has to be attempted at the position where the last accepted one stopped, and on success the caller's input has to be left there (for a lookahead: untouched)."})
	register(&Prop{ID: "C02", Run: parse, Groups: []string{"parse."}, Technique: absTechnique, MinObl: 20,
		Covers: "Same runs, with and without an enclosing cut point: after a final failure nothing else is attempted and it is passed up, failures behind a matched cut point carry a cut of the sequence's own, others carry at most the enclosing one, choices and repetitions hand a cut of their own down when one is in force, and a choice fails only after all alternatives."})
	register(&Prop{ID: "C03", Run: func(c *Ctx) { c.Parse(); c.Build() }, Groups: []string{"parse.", "build.op"}, Technique: absTechnique, MinObl: 4,
		Covers: "Runs of the repetition's Parse for bounded and unbounded maxima with symbolic bounds: number of accepted items against minimum and maximum by linear facts and an inferred loop invariant, stops early only after a failed item or one that consumed nothing, and every further iteration of an unbounded repetition beyond its minimum follows an item that made progress. The operators are decided by interpreting the builder on each of their forms."})
	register(&Prop{ID: "C04", Run: parse, Groups: []string{"parse."}, Technique: absTechnique, MinObl: 20,
		Covers: "Same runs: the tree written on success is compared with the list of accepted sub-results (as symbolic lists of unbounded length), the sub-parser attempted is compared with the one the grammar has at that place (through the interpreted constructor), labels, extras and alternative index included; no path fails when all attempts succeeded."})
}
