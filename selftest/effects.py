P = "parser/parser.go"; S = "parser/scope.go"; U = "parser/unparse.go"; F = "ast/from_parsernode.go"; T = "ast/to_parsernode.go"; N = "ast/node.go"; V = "ast/treeview.go"; D = "parser/diff/terms.go"; SC = "parser/scanner.go"; TT = "parser/terms.go"; C = "ast/counter.go"; X = "wbnf/cutpoints.go"; H = "ast/helpers.go"; W = "wbnf/compile.go"
Q = "	result := make([]TreeElement, 0, p.t.Min)\n	var v TreeElement\n	start := *input\n\n	stk = stk.push(string(p.rule), p.AsTerm())\n\n	scope, prevcp, mycp := scope.ReplaceCutPoint(false)\n	for p.t.Max"
M = [
 ("quant buffer kept", [(P, "type quantParser struct {\n", "type quantParser struct {\n	buf  []TreeElement\n"), (P, "	result := make([]TreeElement, 0, p.t.Min)\n", "	result := p.buf[:0]\n"), (P, "	if len(result) >= p.t.Min {\n		return p.put", "	p.buf = result\n	if len(result) >= p.t.Min {\n		return p.put")]),
 ("counter in parser", [(P, "type quantParser struct {\n", "type quantParser struct {\n	uses int\n"), (P, "	result := make([]TreeElement, 0, p.t.Min)\n", "	p.uses++\n	result := make([]TreeElement, 0, p.t.Min)\n")]),
 ("global counter", [(P, "	result := make([]TreeElement, 0, p.t.Min)\n", "	quants++\n	result := make([]TreeElement, 0, p.t.Min)\n"), (P, "type quantParser struct {\n", "var quants int\n\ntype quantParser struct {\n")]),
 ("global cache of ref", [(P, "		parser := term.Parser(Rule(t.Ident), cache{})\n", "		parser, has := refs[t.Ident]\n		if !has {\n			parser = term.Parser(Rule(t.Ident), cache{})\n			refs[t.Ident] = parser\n		}\n"), (P, "func termFromRefVal(", "var refs = map[string]Parser{}\n\nfunc termFromRefVal(")]),
 ("oneof reorders", [(P, "			*input = start\n			return p.put(output, Choice(i), v)\n", "			*input = start\n			p.parsers[0], p.parsers[i] = p.parsers[i], p.parsers[0]\n			return p.put(output, Choice(i), v)\n")]),
 ("REF remembers", [(P, "		if err := t.Default.Parser(Rule(t.Ident), cache{}).Parse(scope, input, &v, stk); err != nil {\n", "		if s, ok := t.Default.(S); ok {\n			t.Default = S(s)\n		}\n		if err := t.Default.Parser(Rule(t.Ident), cache{}).Parse(scope, input, &v, stk); err != nil {\n")]),
 ("scopeval updated", [(S, "	if val, ok := s.m.Get(ident); ok {\n		sv := val.(*scopeVal)\n", "	if val, ok := s.m.Get(ident); ok {\n		sv := val.(*scopeVal)\n		sv.p = nil\n")]),
 ("clone shallow", [(N, "func (c Many) clone() Children {\n	result := make(Many, 0, len(c))\n	for _, child := range c {\n		result = append(result, child.clone())\n	}\n	return result\n}", "func (c Many) clone() Children {\n	return c\n}")]),
 ("clone shallow branch", [(N, "	result := Branch{}\n	for name, node := range b {\n		result[name] = node.clone()\n	}\n	return result\n", "	result := Branch{}\n	for name, node := range b {\n		result[name] = node\n	}\n	return result\n")]),
 ("no clone", [(T, "	branch = branch.clone().(Branch)\n", "")]),
 ("clone one shallow", [(N, "	return One{Node: c.Node.clone()}\n", "	return c\n")]),
 ("from tree tags", [(F, "	rule := parser.NodeRule(e.(parser.Node))\n", "	rule := parser.NodeRule(e.(parser.Node))\n	if n := e.(parser.Node); len(n.Children) > 1 && n.Children[0] == nil {\n		n.Children[0] = parser.Empty{}\n	}\n")]),
 ("scoped grammar merged in place", [(H, "	g := make(parser.Grammar, len(outer)+len(inner))\n	for rule, term := range outer {\n		g[rule] = term\n	}\n", "	g := outer\n")]),
 ("diff sorts", [(D, "func Grammars(a, b parser.Grammar) GrammarDiff {\n", "func Grammars(a, b parser.Grammar) GrammarDiff {\n	delete(a, parser.Rule(\"\"))\n")]),
 ("unparse consumes", [(U, "	for i, term := range t {\n", "	for i, term := range t {\n		node.Children[i] = node.Children[i]\n")]),
 ("compile in place", [(P, "			g = g.clone()\n			g.resolveStacks()\n", "			g.resolveStacks()\n")]),
 ("compile in place nested", [(P, "			t.Grammar = t.Grammar.clone()\n			t.Grammar.resolveStacks()\n", "			t.Grammar.resolveStacks()\n")]),
 ("clone shares", [(P, "	clone := make(Grammar, len(g))\n	for rule, term := range g {\n		clone[rule] = term\n	}\n	return clone\n", "	return g\n")]),
 ("stack levels appended", [(P, "	for rule, term := range g {\n		if stack, ok", "	for rule, term := range g {\n		if s, ok := term.(Stack); ok && len(s) > 1 && s[0] == nil {\n			s[0] = s[1]\n		}\n		if stack, ok")]),
 ("scanner state shared", [(SC, "func (s Scanner) String() string {\n", "var lastScanner Scanner\n\nfunc (s Scanner) String() string {\n	lastScanner = s\n")]),
 ("context in error", [(P, "		stuck := p.t.Max == 0 &&", "		if d, ok := p.term.(*delimParser); ok {\n			d.rule = p.rule\n		}\n		stuck := p.t.Max == 0 &&")]),
 ("seq resize", [(P, "func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {\n", "func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {\n	sort.Slice(p.t, func(i, j int) bool { return false })\n"), (P, '	"regexp"\n', '	"regexp"\n	"sort"\n')]),
 ("append to shared term", [(P, "	c.registerRule(&p.child)\n\n	return p\n}", "	c.registerRule(&p.child)\n\n	return p\n}\n\nfunc (p *delimParser) terms(x Term) Seq {\n	if s, ok := p.t.Term.(Seq); ok {\n		return append(s, x)\n	}\n	return nil\n}"), (P, "	return p.put(output, Associativity(0), result...)\n", "	_ = p.terms(p.t.Sep)\n	return p.put(output, Associativity(0), result...)\n")]),
 ("counters memo", [(C, "func newCounters(t parser.Term) counters {\n", "var ctrMemo = map[string]counters{}\n\nfunc newCounters(t parser.Term) counters {\n	ctrMemo[t.String()] = nil\n")]),
 ("view removes @ nodes", [(V, "func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {\n", "func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {\n	if b, ok := node.(Branch); ok && skipAtNodes {\n		delete(b, ChoiceTag)\n	}\n")]),
 ("putter captured buffer", [(P, "	rule = ruleOrAlt(rule, alt)\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n", "	rule = ruleOrAlt(rule, alt)\n	n := 0\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n		n += len(children)\n")]),
 ("putter captured slice", [(P, "	rule = ruleOrAlt(rule, alt)\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n", "	rule = ruleOrAlt(rule, alt)\n	var last []TreeElement\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n		last = append(last[:0], children...)\n")]),
 ("putter keeps node", [(P, "	rule = ruleOrAlt(rule, alt)\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n		*output = Node{\n			Tag:      string(rule),\n			Extra:    extra,\n			Children: children,\n		}\n", "	rule = ruleOrAlt(rule, alt)\n	n := Node{Tag: string(rule)}\n	return func(output *TreeElement, extra Extra, children ...TreeElement) error {\n		n.Extra, n.Children = extra, children\n		*output = n\n")]),
 ("memo in map of parser", [(P, "type sParser struct {\n", "type sParser struct {\n	memo map[int]bool\n"), (P, "	if ok := eatRegexp(input, p.re, output); !ok {\n		actual := *input", "	if p.memo != nil {\n		p.memo[input.Offset()] = true\n	}\n	if ok := eatRegexp(input, p.re, output); !ok {\n		actual := *input")]),
 ("Longest at use", [(P, "	if ok := eatRegexp(input, p.re, output); !ok {\n		actual := *input", "	p.re.Longest()\n	if ok := eatRegexp(input, p.re, output); !ok {\n		actual := *input")]),
 ("scope externals registered", [(P, "	return p.put(output, Associativity(0), result...)\n", "	if p.t.CanStartWithSep {\n		p.t.Assoc = NonAssociative\n	}\n	return p.put(output, Associativity(0), result...)\n")]),
 ("stack trace shared", [(P, "	stk = stk.push(string(p.rule), p.AsTerm())\n\n	scope, prevcp, mycp := scope.ReplaceCutPoint(false)\n	for p.t.Max", "	if stk != nil {\n		*stk = *stk.push(string(p.rule), p.AsTerm())\n	}\n	calls = stk\n\n	scope, prevcp, mycp := scope.ReplaceCutPoint(false)\n	for p.t.Max"), (P, "type quantParser struct {\n", "var calls *call\n\ntype quantParser struct {\n")]),
 # refactorings
 ("=local memo", [(P, "	if ok := eatRegexp(input, p.re, output); !ok {\n		actual := *input", "	seen := map[int]*regexp.Regexp{}\n	seen[1] = p.re\n	if ok := eatRegexp(input, seen[1], output); !ok {\n		actual := *input")]),
 ("=put node var", [(P, "		*output = Node{\n			Tag:      string(rule),\n			Extra:    extra,\n			Children: children,\n		}\n", "		n := Node{Tag: string(rule), Extra: extra}\n		n.Children = append(n.Children, children...)\n		*output = n\n")]),
 ("=quant start var", [(P, "	result := make([]TreeElement, 0, p.t.Min)\n", "	result := make([]TreeElement, 0, p.t.Min+1)\n")]),
 ("=clone helper", [(T, "	branch = branch.clone().(Branch)\n", "	branch = duplicate(branch)\n"), (T, "func relabelNode(", "func duplicate(b Branch) Branch {\n	c, ok := b.clone().(Branch)\n	if !ok {\n		return nil\n	}\n	return c\n}\n\nfunc relabelNode(")]),
 ("=many clone indexed", [(N, "	result := make(Many, 0, len(c))\n	for _, child := range c {\n		result = append(result, child.clone())\n	}\n	return result\n", "	result := make(Many, len(c))\n	for i := range c {\n		result[i] = c[i].clone()\n	}\n	return result\n")]),
 ("=grammar clone named", [(P, "	for rule, term := range g {\n		clone[rule] = term\n	}\n	return clone\n", "	copyInto(clone, g)\n	return clone\n"), (P, "func (g Grammar) clone() Grammar {", "func copyInto(dst, src Grammar) {\n	for rule, term := range src {\n		dst[rule] = term\n	}\n}\n\nfunc (g Grammar) clone() Grammar {")]),
 ("=scope builder", [(S, "func (b *scopeBuilder) Put(ident string, v any) {\n	b.mb.Put(ident, v)\n}", "func (b *scopeBuilder) Put(ident string, v any) {\n	m := &b.mb\n	m.Put(ident, v)\n}")]),
 ("=wrap helper", [(P, "	if wrap, has := c.grammar[WrapRE]; has {\n		if _, has := t.Grammar[WrapRE]; !has {\n			t.Grammar[WrapRE] = wrap\n		}\n	}\n", "	inheritWrap(t.Grammar, c.grammar)\n"), (P, "func (t ScopedGrammar) Parser(", "func inheritWrap(to, from Grammar) {\n	wrap, has := from[WrapRE]\n	if !has {\n		return\n	}\n	if _, own := to[WrapRE]; !own {\n		to[WrapRE] = wrap\n	}\n}\n\nfunc (t ScopedGrammar) Parser(")]),
 ("=scoped merged", [(H, "	g := make(parser.Grammar, len(outer)+len(inner))\n", "	g := parser.Grammar{}\n")]),
 ("=errors closure list", [(P, "	var errors []func() error\n	for i, par", "	errors := make([]func() error, 0, len(p.parsers))\n	for i, par")]),
 ("=delim split", [(P, "	return p.put(output, Associativity(0), result...)\n", "	all := append([]TreeElement{}, result...)\n	return p.put(output, Associativity(0), all...)\n")]),
 ("=pull loop", [(T, "				b[name] = many[1:]\n", "				rest := make(Many, len(many)-1)\n				copy(rest, many[1:])\n				b[name] = rest\n")]),
]
