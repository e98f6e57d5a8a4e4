P = "parser/parser.go"; S = "parser/scope.go"; F = "ast/from_parsernode.go"; N = "ast/node.go"; NS = "ast/node_string.go"; V = "ast/treeview.go"; D = "parser/diff/terms.go"; DN = "parser/diff/nodes.go"; SC = "parser/scanner.go"; TT = "parser/terms.go"; C = "ast/counter.go"; X = "wbnf/cutpoints.go"; H = "ast/helpers.go"; W = "wbnf/compile.go"; R = "wbnf/recursion.go"; VA = "wbnf/validation.go"
G = "cmd/codegen/grammar.go"; TB = "cmd/codegen/typebuilder.go"; TY = "cmd/codegen/types.go"; VW = "cmd/codegen/walkerinterface.go"; ID = "cmd/codegen/idents.go"; PT = "cmd/codegen/pushtype.go"
CL = "	for rule, term := range g {\n		for {\n"
M = [
 ("branch string unsorted", [(NS, "	sort.Strings(names)\n", ""), (NS, '	"sort"\n', "")]),
 ("branch string direct", [(NS, "	for _, name := range names {\n		group := b[name]\n", "	for name, group := range b {\n"), (NS, "	sort.Strings(names)\n", "	_ = names\n"), (NS, '	"sort"\n', "")]),
 ("grammar string unsorted", [(TT, "	sort.Strings(keys)\n", ""), (TT, '	"sort"\n', "")]),
 ("fromAst unsorted", [(V, "		sort.Strings(names)\n", ""), (V, '	"sort"\n', "")]),
 ("fromAst sorted too early", [(V, "		sort.Strings(names)\n", ""), (V, "		for name := range n {\n", "		sort.Strings(names)\n		for name := range n {\n")]),
 ("types unsorted", [(TY, "	sort.Strings(keys)\n", "	_ = sort.Strings\n")]),
 ("types sorted by length", [(TY, "	sort.Strings(keys)\n", "	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })\n")]),
 ("types sorted by lower", [(TY, "	sort.Strings(keys)\n", "	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })\n")]),
 ("visitor 1", [(VW, "	sort.Strings(parts)\n	out := ", "	out := ")]),
 ("visitor 3", [(VW, "	sort.Strings(parts)\n	return out", "	return out")]),
 ("grammar literal keys", [(G, "	sort.Strings(keys)\n", ""), (G, '	"sort"\n', "")]),
 ("walkGrammar direct", [(TB, "	sort.Strings(rules) // different rules may contribute to one type\n", ""), (TB, '	"sort"\n', "")]),
 ("idents partial order", [(ID, "		return strings.Compare(IdentName(a), IdentName(b)) < 0\n", "		return strings.Compare(strings.ToLower(a), strings.ToLower(b)) < 0\n")]),
 ("sortedSet unsorted", [(R, "	sort.Strings(out)\n", "")]),
 ("findPaths unsorted", [(R, "	sort.Strings(keys)\n", "")]),
 ("sortedKeys", [(DN, "	sort.Ints(keys)\n", ""), (DN, '	"sort"\n', "")]),
 ("sortRules", [(D, "	sortRules(diff.OnlyInB)\n", "")]),
 ("sortRules swallowed", [(D, "	sort.Slice(rules, func(i, j int) bool { return rules[i] < rules[j] })\n", "	if len(rules) > 2 {\n		sort.Slice(rules, func(i, j int) bool { return rules[i] < rules[j] })\n	}\n")]),
 ("oneChild last of map", [(F, "			if oneChildren != nil {\n				return nil\n			}\n", "")]),
 ("oneChild first of map", [(F, "			if oneChildren != nil {\n				return nil\n			}\n			oneChildren = children\n", "			oneChildren = children\n			break\n")]),
 ("branch scanner first", [(NS, "				if s := c.Node.Scanner(); !s.IsNil() {\n", "				if s := c.Node.Scanner(); !s.IsNil() {\n					if len(b) > 5 {\n						return s\n					}\n")]),
 ("error for first bad", [(N, "				if !v.Node.ContentEquals(other.One(k)) {\n					return false\n", "				if !v.Node.ContentEquals(other.One(k)) {\n					return len(k) > 1\n")]),
 ("Rule.Parser cached", [(P, "func (t Rule) Parser(rule Rule, c cache) Parser {\n", "func (t Rule) Parser(rule Rule, c cache) Parser {\n	if p, has := c.parsers[t]; has {\n		return p\n	}\n")]),
 ("Rule.Parser other cached", [(P, "func (t Named) Parser(rule Rule, c cache) Parser {\n", "func (t Named) Parser(rule Rule, c cache) Parser {\n	if len(c.parsers) > 0 && c.parsers[rule] == nil {\n		for r := range c.parsers {\n			t.Name = string(r)\n		}\n	}\n")]),
 ("followRules one step", [(P, "		for range c.parsers { // stops at a cycle\n			ref, ok := p.(ruleParser)\n			if !ok {\n				break\n			}\n			next, has := c.parsers[ref.t]\n			if !has {\n				break\n			}\n			p = next\n		}\n", "		if ref, ok := p.(ruleParser); ok {\n			if next, has := c.parsers[ref.t]; has {\n				p = next\n			}\n		}\n")]),
 ("registerRule keeps last", [(P, "		c.rulePtrses[rule.t] = append(c.rulePtrses[rule.t], parser)\n", "		c.rulePtrses[rule.t] = append(c.rulePtrses[rule.t][:0], parser)\n")]),
 ("scoped names by lower", [(H, "	for rule, term := range outer {\n		g[rule] = term\n", "	for rule, term := range outer {\n		g[parser.Rule(strings.ToLower(string(rule)))] = term\n"), (H, "import (\n", "import (\n	\"strings\"\n")]),
 ("counters by prefix", [(C, "	for name, c := range o {\n		ctrs[name] = ctrs[name].union(c)\n", "	for name, c := range o {\n		ctrs[name] = ctrs[\"\"].union(c)\n")]),
 ("cutpoints first wins", [(X, "	mergeFn := func(_ string, a, b int) int {\n		return a + b\n", "	mergeFn := func(_ string, a, b int) int {\n		return a - b\n")]),
 ("cutpoint parity", [(S, "		replacement = Cutpointdata(rand.Int31()) //nolint:gosec\n", "		replacement = Cutpointdata(rand.Int31() % 2) //nolint:gosec\n")]),
 ("cutpoint decided", [(S, "func (s Scope) GetCutPoint() Cutpointdata {\n", "func (s Scope) Coin() bool {\n	return s.GetCutPoint() > 1<<30\n}\n\nfunc (s Scope) GetCutPoint() Cutpointdata {\n")]),
 ("time", [(S, "		replacement = Cutpointdata(rand.Int31()) //nolint:gosec\n", "		replacement = Cutpointdata(time.Now().UnixNano() % 1000) //nolint:gosec\n"), (S, '	"math/rand"\n', '	"time"\n')]),
 ("random type name", [(TB, "	case parser.Oneof:\n", "	case parser.Oneof:\n		if parentName == \"\" {\n			parentName = fmt.Sprint(termID)\n		}\n"), (TB, '	"math/rand"\n', '	"fmt"\n	"math/rand"\n')]),
 ("random order of ids", [(TY, "			if x == id {\n", "			if x >= id {\n")]),
 ("random count", [(TY, "	if !c.wantAll() {\n		for _, x", "	if !c.wantAll() && id&1 == 0 {\n		for _, x")]),
 ("deadline", [(W, "func Compile(", "var started = time.Now()\n\nfunc late() bool { return time.Since(started) > time.Hour }\n\nfunc Compile("), (W, 'import (\n', 'import (\n	"time"\n')]),
 ("pid", [(W, "func Compile(", "func late() bool { return os.Getpid() > 100 }\n\nfunc Compile(")]),
 ("GoName serial", [(TY, "	res := strcase.ToCamel(DropCaps(rule))\n", "	res := strcase.ToCamel(DropCaps(rule))\n	if len(gotypemap) > 100 {\n		gotypemap[rule+\"2\"] = res\n	}\n")]),
 ("GoName history", [(TY, "	if val, has := gotypemap[rule]; has {\n		return val\n	}\n", "")]),
 ("global counter", [(TB, "func (tm *TypeMap) handleSeq(", "var serial int\n\nfunc (tm *TypeMap) handleSeq("), (TB, "	case parser.Oneof:\n", "	case parser.Oneof:\n		serial++\n")]),
 ("goroutines", [(X, "	for rule, term := range input {\n		out[rule] = fixTerm(term, callback)\n	}\n", "	done := make(chan int)\n	go func() {\n		for rule, term := range input {\n			out[rule] = fixTerm(term, callback)\n		}\n		close(done)\n	}()\n	<-done\n")]),
 ("concat", [(TT, "	for _, key := range keys {\n", "	for key := range g {\n		if sb.Len() > 1<<20 {\n			sb.WriteString(string(key))\n		}\n	}\n	for _, key := range keys {\n")]),
 ("danger order", [(R, "	for _, target := range sortedSet((*dangers)[start]) {\n", "	for _, target := range (*dangers)[start].Elements() {\n")]),
 ("validation first defined", [(X, "	s := strings.Elements()\n	_ = s\n", "	if s := strings.Elements(); len(s) > 0 {\n		last = s[0]\n	}\n"), (X, "func insertCutPoints(", "var last string\n\nfunc insertCutPoints(")]),
 ("cutpoints limited", [(X, "	for rule, term := range input {\n		out[rule] = fixTerm(term, callback)\n	}\n", "	n := 0\n	for rule, term := range input {\n		if n++; n > 100 {\n			out[rule] = term\n			continue\n		}\n		out[rule] = fixTerm(term, callback)\n	}\n")]),
 ("externals last wins", [(S, "			if e != nil {\n				panic(fmt.Errorf(\"too many escapes\"))\n			}\n", "")]),
 ("resolveStacks visits", [(P, "			for i, layer := range stack {\n				newRule := rule\n", "			for i, layer := range stack {\n				newRule := rule\n				if i > 100 {\n					g[oldRule+\"x\"] = stack\n				}\n")]),
 ("resolveStacks collide", [(P, "					newRule = Rule(fmt.Sprintf(\"%s%s%d\", rule, StackDelim, j))\n", "					newRule = Rule(fmt.Sprintf(\"%.3s%s%d\", rule[:1], StackDelim, j))\n")]),
 # refactorings
 ("=names helper", [(NS, "	names := make([]string, 0, len(b))\n	for name := range b {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n", "	names := b.names()\n"), (NS, "func (e Extra) String() string {\n", "func (b Branch) names() []string {\n	names := make([]string, 0, len(b))\n	for name := range b {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	return names\n}\n\nfunc (e Extra) String() string {\n")]),
 ("=names helper, sorted by caller", [(NS, "	names := make([]string, 0, len(b))\n	for name := range b {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n", "	names := b.names()\n	sort.Strings(names)\n"), (NS, "func (e Extra) String() string {\n", "func (b Branch) names() []string {\n	names := []string{}\n	for name := range b {\n		names = append(names, name)\n	}\n	return names\n}\n\nfunc (e Extra) String() string {\n")]),
 ("=slice sort", [(V, "		sort.Strings(names)\n", "		sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })\n")]),
 ("=stringslice", [(V, "		sort.Strings(names)\n", "		sort.Sort(sort.StringSlice(names))\n")]),
 ("=index filled", [(V, "		names := make([]string, 0, len(n))\n		for name := range n {\n			names = append(names, name)\n		}\n", "		names := make([]string, len(n))\n		i := 0\n		for name := range n {\n			names[i] = name\n			i++\n		}\n")]),
 ("=skip in collection", [(V, "		for name := range n {\n			names = append(names, name)\n		}\n", "		for name := range n {\n			if skipAtNodes && strings.HasPrefix(name, \"@\") {\n				continue\n			}\n			names = append(names, name)\n		}\n")]),
 ("=oneChild count", [(F, "	for childrenName, children := range b {\n		if !strings.HasPrefix(childrenName, \"@\") {\n			if oneChildren != nil {\n				return nil\n			}\n			oneChildren = children\n		}\n	}\n", "	for childrenName, children := range b {\n		if strings.HasPrefix(childrenName, \"@\") {\n			continue\n		}\n		if oneChildren != nil {\n			return nil\n		}\n		oneChildren = children\n	}\n")]),
 ("=put helper", [(H, "	for rule, term := range outer {\n		g[rule] = term\n	}\n	for rule, term := range inner {\n		g[rule] = term\n	}\n	return g\n}\n", "	addRules(g, outer)\n	addRules(g, inner)\n	return g\n}\n\nfunc addRules(g, from parser.Grammar) {\n	for rule, term := range from {\n		g[rule] = term\n	}\n}\n")]),
 ("=put helper per entry", [(H, "	for rule, term := range outer {\n		g[rule] = term\n	}\n	for rule, term := range inner {\n		g[rule] = term\n	}\n	return g\n}\n", "	for rule, term := range outer {\n		addRule(g, rule, term)\n	}\n	for rule, term := range inner {\n		addRule(g, rule, term)\n	}\n	return g\n}\n\nfunc addRule(g parser.Grammar, rule parser.Rule, term parser.Term) {\n	g[rule] = term\n}\n")]),
 ("=compile body helper", [(P, "	for rule, term := range g {\n		for {\n			switch r := term.(type) {\n			case Rule:\n				term = g[r]\n				continue\n			}\n			break\n		}\n		c.parsers[rule] = term.Parser(rule, c)\n	}\n	c.followRules()\n", "	for rule := range g {\n		term := g.deref(rule)\n		c.parsers[rule] = term.Parser(rule, c)\n	}\n	c.followRules()\n"), (P, "func (g Grammar) clone() Grammar {\n", "func (g Grammar) deref(rule Rule) Term {\n	term := g[rule]\n	for {\n		r, ok := term.(Rule)\n		if !ok {\n			return term\n		}\n		term = g[r]\n	}\n}\n\nfunc (g Grammar) clone() Grammar {\n")]),
 ("=compile pointers helper", [(P, "	for rule, rulePtrs := range c.rulePtrses {\n		p := c.parsers[rule]\n		for _, rulePtr := range rulePtrs {\n			*rulePtr = p\n		}\n	}\n\n	return Parsers{", "	for rule, rulePtrs := range c.rulePtrses {\n		connect(rulePtrs, c.parsers[rule])\n	}\n\n	return Parsers{"), (P, "func (g Grammar) clone() Grammar {\n", "func connect(ptrs []*Parser, p Parser) {\n	for _, ptr := range ptrs {\n		*ptr = p\n	}\n}\n\nfunc (g Grammar) clone() Grammar {\n")]),
 ("=hasStacks helper", [(P, "	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			g = g.clone()\n			g.resolveStacks()\n			break\n		}\n	}\n\n	c := cache{", "	if g.hasStacks() {\n		g = g.clone()\n		g.resolveStacks()\n	}\n\n	c := cache{"), (P, "func (g Grammar) clone() Grammar {\n", "func (g Grammar) hasStacks() bool {\n	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (g Grammar) clone() Grammar {\n")]),
 ("=hasStacks flag", [(P, "	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			g = g.clone()\n			g.resolveStacks()\n			break\n		}\n	}\n\n	c := cache{", "	stacks := false\n	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			stacks = true\n		}\n	}\n	if stacks {\n		g = g.clone()\n		g.resolveStacks()\n	}\n\n	c := cache{")]),
 ("=hasStacks or", [(P, "	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			g = g.clone()\n			g.resolveStacks()\n			break\n		}\n	}\n\n	c := cache{", "	stacks := false\n	for _, term := range g {\n		_, ok := term.(Stack)\n		stacks = stacks || ok\n	}\n	if stacks {\n		g = g.clone()\n		g.resolveStacks()\n	}\n\n	c := cache{")]),
 ("=count", [(P, "	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			g = g.clone()\n			g.resolveStacks()\n			break\n		}\n	}\n\n	c := cache{", "	stacks := 0\n	for _, term := range g {\n		if _, ok := term.(Stack); ok {\n			stacks++\n		}\n	}\n	if stacks > 0 {\n		g = g.clone()\n		g.resolveStacks()\n	}\n\n	c := cache{")]),
 ("=merge helper", [(X, "	strings := frozen.NewMap[string, int]()\n	for _, t := range g {\n		strings = strings.Merge(forTerm(t), mergeFn)\n	}\n	return strings", "	strings := frozen.NewMap[string, int]()\n	for _, t := range g {\n		counts := forTerm(t)\n		strings = strings.Merge(counts, mergeFn)\n	}\n	return strings")]),
 ("=merge by function", [(X, "	mergeFn := func(_ string, a, b int) int {\n		return a + b\n	}\n", "	mergeFn := addCounts\n"), (X, "func rebuildGrammar(", "func addCounts(_ string, a, b int) int {\n	return b + a\n}\n\nfunc rebuildGrammar(")]),
 ("=union helper", [(C, "	for name, c := range o {\n		ctrs[name] = ctrs[name].union(c)\n	}\n", "	for name := range o {\n		old := ctrs[name]\n		ctrs[name] = old.union(o[name])\n	}\n")]),
 ("=equals helper", [(N, "		for k, v := range b {\n			switch v := v.(type) {\n			case One:\n				if !v.Node.ContentEquals(other.One(k)) {\n					return false\n				}\n", "		for k, v := range b {\n			switch v := v.(type) {\n			case One:\n				if same := v.Node.ContentEquals(other.One(k)); !same {\n					return false\n				}\n")]),
 ("=equals result", [(N, "		if len(b) != len(other) {\n			return false\n		}\n", "		if len(other) != len(b) {\n			return false\n		}\n		for k := range b {\n			if _, has := other[k]; !has {\n				return false\n			}\n		}\n")]),
 ("=diff local lists", [(D, "			diff.OnlyInA = append(diff.OnlyInA, rule)\n", "			onlyA = append(onlyA, rule)\n"), (D, "	sortRules(diff.OnlyInA)\n", "	sortRules(onlyA)\n	diff.OnlyInA = onlyA\n"), (D, "	for rule, aTerm := range a {\n", "	var onlyA []parser.Rule\n	for rule, aTerm := range a {\n")]),
 ("=diff onlyIn helper", [(D, "	for rule := range b {\n		if _, ok := a[rule]; !ok {\n			diff.OnlyInB = append(diff.OnlyInB, rule)\n		}\n	}\n	sortRules(diff.OnlyInA)\n	sortRules(diff.OnlyInB)\n", "	diff.OnlyInB = missing(b, a)\n	sortRules(diff.OnlyInA)\n"), (D, "func Grammars(", "func missing(b, a parser.Grammar) []parser.Rule {\n	var out []parser.Rule\n	for rule := range b {\n		if _, ok := a[rule]; !ok {\n			out = append(out, rule)\n		}\n	}\n	sortRules(out)\n	return out\n}\n\nfunc Grammars(")]),
 ("=memo walkRule", [(R, "	if f, has := g.next[start]; has {\n		return f\n	}\n	node := &gnode{next: map[string]*gnode{}}\n	g.next[start] = node\n", "	f, has := g.next[start]\n	if has {\n		return f\n	}\n	node := &gnode{next: make(map[string]*gnode)}\n	g.next[start] = node\n")]),
 ("=danger keys sorted", [(R, "	for k := range dangers {\n		gn.walkRule(k, &dangers)\n	}\n", "	names := make([]string, 0, len(dangers))\n	for k := range dangers {\n		names = append(names, k)\n	}\n	sort.Strings(names)\n	for _, k := range names {\n		gn.walkRule(k, &dangers)\n	}\n")]),
 ("=cutpoint id helper", [(S, "		replacement = Cutpointdata(rand.Int31()) //nolint:gosec\n", "		replacement = newCutpoint()\n"), (S, "func (s Scope) GetCutPoint() Cutpointdata {\n", "func newCutpoint() Cutpointdata {\n	return Cutpointdata(rand.Int31()) //nolint:gosec\n}\n\nfunc (s Scope) GetCutPoint() Cutpointdata {\n")]),
 ("=visitor parts helper", [(VW, "	parts := make([]string, 0, len(w.types))\n	for _, t := range w.types {\n		parts = append(parts, strings.ReplaceAll(funcs, \"{{typeName}}\", GoTypeName(t.TypeName())))\n	}\n	sort.Strings(parts)\n", "	parts := w.callbacks()\n"), (VW, "func (w *VisitorWriter) getTypeWalker(", "func (w VisitorWriter) callbacks() []string {\n	parts := make([]string, 0, len(w.types))\n	for _, t := range w.types {\n		parts = append(parts, strings.ReplaceAll(funcs, \"{{typeName}}\", GoTypeName(t.TypeName())))\n	}\n	sort.Strings(parts)\n	return parts\n}\n\nfunc (w *VisitorWriter) getTypeWalker(")]),
 ("=merge types", [(TB, "	for k, v := range other {\n		(*tm)[k] = v\n	}\n", "	m := *tm\n	for k := range other {\n		m[k] = other[k]\n	}\n")]),
 ("=branch scanner helper", [(NS, "			switch c := ch.(type) {\n			case One:\n				if s := c.Node.Scanner(); !s.IsNil() {\n					scanners = append(scanners, s)\n				}\n			case Many:\n				if s := c.Scanner(); !s.IsNil() {\n					scanners = append(scanners, s)\n				}\n			}\n", "			var s parser.Scanner\n			switch c := ch.(type) {\n			case One:\n				s = c.Node.Scanner()\n			case Many:\n				s = c.Scanner()\n			}\n			if !s.IsNil() {\n				scanners = append(scanners, s)\n			}\n")]),
 ("=narrow", [(N, "	switch len(b) {\n	case 0:\n		return true\n	case 1:\n		for _, group := range b {\n			return group.narrow()\n		}\n	}\n	return false\n", "	if len(b) == 0 {\n		return true\n	}\n	if len(b) == 1 {\n		for _, group := range b {\n			return group.narrow()\n		}\n	}\n	return false\n")]),
 ("=narrow all", [(N, "	switch len(b) {\n	case 0:\n		return true\n	case 1:\n		for _, group := range b {\n			return group.narrow()\n		}\n	}\n	return false\n", "	if len(b) > 1 {\n		return false\n	}\n	for _, group := range b {\n		if !group.narrow() {\n			return false\n		}\n	}\n	return true\n")]),
]
