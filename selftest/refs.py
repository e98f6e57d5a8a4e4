P = "parser/parser.go"; R = "parser/resolve.go"
M = [
 ("seq no register", [(P, "	c.registerRules(parsers)\n	return parsers", "	c.registerRules(parsers[:1])\n	return parsers")]),
 ("register by label", [(P, "c.rulePtrses[rule.t] = append(c.rulePtrses[rule.t], parser)", "c.rulePtrses[rule.rule] = append(c.rulePtrses[rule.rule], parser)")]),
 ("register first only", [(P, "		c.rulePtrses[rule.t] = append(c.rulePtrses[rule.t], parser)\n", "		if len(c.rulePtrses[rule.t]) < 2 {\n			c.rulePtrses[rule.t] = append(c.rulePtrses[rule.t], parser)\n		}\n")]),
 ("lookahead no register", [(P, "		put:  tag(rule, lookaheadTag),\n	}\n	c.registerRule(&p.term)\n", "		put:  tag(rule, lookaheadTag),\n	}\n")]),
 ("quant register copy", [(P, "		put:  tag(rule, quantTag),\n	}\n	c.registerRule(&p.term)\n", "		put:  tag(rule, quantTag),\n	}\n	term := p.term\n	c.registerRule(&term)\n")]),
 ("scoped outer first", [(P, "		if _, has := t.Grammar[rule]; has {\n			// local", "		if _, has := t.Grammar[rule]; has && c.grammar[rule] == nil {\n			// local")]),
 ("scoped outer dropped when nested", [(P, "			for _, rulePtr := range rulePtrs {\n				c.registerRule(rulePtr)\n			}\n", "			if len(rulePtrs) > 0 {\n				c.registerRule(rulePtrs[0])\n			}\n")]),
 ("stack mod", [(P, "if j := (i + 1) % len(stack); j > 0 {", "if j := (i + 1) % (len(stack) + len(stack)/3); j > 0 {")]),
 ("stack old rule", [(P, "				oldRule = newRule\n", "				if i == 0 {\n					oldRule = newRule\n				}\n")]),
 ("delim resolve sep", [(R, "	t.Sep = t.Sep.Resolve(oldRule, newRule)\n", "")]),
 ("named resolve", [(R, "func (t Named) Resolve(oldRule, newRule Rule) Term {\n	t.Term = t.Term.Resolve(oldRule, newRule)\n", "func (t Named) Resolve(oldRule, newRule Rule) Term {\n	if _, ok := t.Term.(Rule); !ok {\n		t.Term = t.Term.Resolve(oldRule, newRule)\n	}\n")]),
 ("lookahead resolve", [(R, "func (t LookAhead) Resolve(oldRule, newRule Rule) Term {\n	t.Term = t.Term.Resolve(oldRule, newRule)\n", "func (t LookAhead) Resolve(oldRule, newRule Rule) Term {\n")]),
 ("oneof resolve swapped", [(R, "	result := make(Oneof, 0, len(t))\n	for _, term := range t {\n		result = append(result, term.Resolve(oldRule, newRule))", "	result := make(Oneof, 0, len(t))\n	for _, term := range t {\n		result = append(result, term.Resolve(newRule, oldRule))")]),
 ("alias one hop", [(P, "		for {\n			switch r := term.(type) {\n			case Rule:\n				term = g[r]\n				continue\n			}\n			break\n		}\n		c.parsers", "		if r, ok := term.(Rule); ok {\n			term = g[r]\n		}\n		c.parsers")]),
 ("follow one", [(P, "		for range c.parsers { // stops at a cycle\n			ref, ok := p.(ruleParser)\n			if !ok {\n				break\n			}\n			next, has := c.parsers[ref.t]\n			if !has {\n				break\n			}\n			p = next\n		}\n		c.parsers[rule] = p\n", "		if ref, ok := p.(ruleParser); ok {\n			if next, has := c.parsers[ref.t]; has {\n				p = next\n			}\n		}\n		c.parsers[rule] = p\n")]),
 ("scoped stack no resolve", [(P, "			t.Grammar = t.Grammar.clone()\n			t.Grammar.resolveStacks()\n			break\n", "			t.Grammar = t.Grammar.clone()\n			if len(t.Grammar) < 2 {\n				t.Grammar.resolveStacks()\n			}\n			break\n")]),
 ("delim register", [(P, "	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Term})})", "	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Sep})})")]),
 ("=register in loop", [(P, "	for _, t := range terms {\n		parsers = append(parsers, t.Parser(\"\", c))\n	}\n	c.registerRules(parsers)\n", "	for i, t := range terms {\n		parsers = append(parsers, t.Parser(\"\", c))\n		c.registerRule(&parsers[i])\n	}\n")]),
 ("=index fill", [(P, "	parsers := make([]Parser, 0, len(terms))\n	for _, t := range terms {\n		parsers = append(parsers, t.Parser(\"\", c))\n	}\n", "	parsers := make([]Parser, len(terms))\n	for i, t := range terms {\n		parsers[i] = t.Parser(\"\", c)\n	}\n")]),
 ("=hook helper", [(P, "	for rule, rulePtrs := range c.rulePtrses {\n		p := c.parsers[rule]\n		for _, rulePtr := range rulePtrs {\n			*rulePtr = p\n		}\n	}\n", "	c.hookUp()\n"), (P, "func (g Grammar) clone()", "func (c cache) hookUp() {\n	for rule, ptrs := range c.rulePtrses {\n		for i := range ptrs {\n			*ptrs[i] = c.parsers[rule]\n		}\n	}\n}\n\nfunc (g Grammar) clone()")]),
 ("=stack loop", [(P, "			oldRule := rule\n			for i, layer := range stack {\n				newRule := rule\n				if j := (i + 1) % len(stack); j > 0 {\n					newRule = Rule(fmt.Sprintf(\"%s%s%d\", rule, StackDelim, j))\n				}\n				g[oldRule] = layer.Resolve(StackDelim, newRule)\n				oldRule = newRule\n			}\n", "			level := func(i int) Rule {\n				if i == 0 || i == len(stack) {\n					return rule\n				}\n				return Rule(fmt.Sprintf(\"%s%s%d\", rule, StackDelim, i))\n			}\n			for i, layer := range stack {\n				g[level(i)] = layer.Resolve(At, level(i+1))\n			}\n")]),
 ("=resolve helper", [(R, "func (t Seq) Resolve(oldRule, newRule Rule) Term {\n	result := make(Seq, 0, len(t))\n	for _, term := range t {\n		result = append(result, term.Resolve(oldRule, newRule))\n	}\n	return result\n}\n", "func resolveAll(ts []Term, oldRule, newRule Rule) []Term {\n	result := make([]Term, len(ts))\n	for i, term := range ts {\n		result[i] = term.Resolve(oldRule, newRule)\n	}\n	return result\n}\n\nfunc (t Seq) Resolve(oldRule, newRule Rule) Term {\n	return Seq(resolveAll(t, oldRule, newRule))\n}\n")]),
 ("=quant new struct", [(R, "func (t Quant) Resolve(oldRule, newRule Rule) Term {\n	t.Term = t.Term.Resolve(oldRule, newRule)\n	return t\n", "func (t Quant) Resolve(oldRule, newRule Rule) Term {\n	return Quant{Term: t.Term.Resolve(oldRule, newRule), Min: t.Min, Max: t.Max}\n")]),
]
