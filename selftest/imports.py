C="wbnf/compile.go"; T="cmd/test.go"; K="wbnf/wbnf_parser.go"
def c(*p): return [(C,a,b) for a,b in p]
def t(*p): return [(T,a,b) for a,b in p]
MERGE='	a["stmt"] = append(a["stmt"].(ast.Many), b.Many("stmt")...)\n	return a'
LOAD='''	if _, has := c.imports[filename]; has {
		// Already merged by an earlier import, or being loaded by an import cycle.
		return GrammarNode{}, nil
	}
'''
M=[
("merge one less", c((MERGE,'	m := b.Many("stmt")\n	if len(m) > 1 {\n		m = m[:len(m)-1]\n	}\n	a["stmt"] = append(a["stmt"].(ast.Many), m...)\n	return a'))),
("merge replaces", c((MERGE,'	a["stmt"] = append(ast.Many{}, b.Many("stmt")...)\n	return a'))),
("merge twice", c((MERGE,'	a["stmt"] = append(append(a["stmt"].(ast.Many), b.Many("stmt")...), b.Many("stmt")...)\n	return a'))),
("merge returns b", c((MERGE,'	a["stmt"] = append(a["stmt"].(ast.Many), b.Many("stmt")...)\n	return b'))),
("merge only first", c(("			if nested.Node != nil {","			if nested.Node != nil && len(c.imports) < 3 {"))),
("no cache", c((LOAD,''))),
("cache too late", c(('	c.imports[filename] = GrammarNode{}\n',''))),
("cache unclean", c(('	filename = filepath.Clean(filename)\n',''))),
("cache returns grammar", c((LOAD,'	if g, has := c.imports[filename]; has {\n		return g, nil\n	}\n'))),
("cache by base", c(('	c.imports[filename] = GrammarNode{}\n','	c.imports[filepath.Base(filename)] = GrammarNode{}\n'),('c.imports[filename]; has {','c.imports[filepath.Base(filename)]; has {'))),
("uncached after", c(('	c.imports[filename] = g\n','	delete(c.imports, filename)\n'))),
("nested error lost", c(("				err = nestedErr\n","				_ = nestedErr\n"))),
("nested error then goes on", c(("				err = nestedErr\n				return &aborter{}","				err = nestedErr\n				return nil"),("			if nestedErr != nil {","			err = nil\n			if nestedErr != nil {"))),
("missing is fine", c(("	text, err := os.ReadFile(filename)\n	if err != nil {\n		return GrammarNode{}, err\n	}","	text, err := os.ReadFile(filename)\n	if err != nil {\n		return GrammarNode{}, nil\n	}"))),
("error node only", c(("	if err != nil {\n		return GrammarNode{}, err\n	}\n	return node, nil","	if err != nil && node.Node == nil {\n		return GrammarNode{}, err\n	}\n	return node, nil"))),
("bad nested parse ignored", c(("	g, err := c.makeGrammar(filename, string(text))\n	if err != nil {\n		return GrammarNode{}, err\n	}","	g, err := c.makeGrammar(filename, string(text))\n	if err != nil {\n		return GrammarNode{}, nil\n	}"))),
("resolver from empty", c(("c.resolver.Resolve(filename, importPath)",'c.resolver.Resolve("", importPath)'))),
("resolver from last", c(("c.resolver.Resolve(filename, importPath)",'c.resolver.Resolve(filename, importPath)\n				filename = importPath'))),
("resolver twice", c(("c.resolver.Resolve(filename, importPath)",'c.resolver.Resolve(filename, c.resolver.Resolve("", importPath))'))),
("resolver only for main", c(("			if c.resolver != nil {",'			if c.resolver != nil && filename == "" {'))),
("nested parsed without name", c(("c.makeGrammar(filename, string(text))",'c.makeGrammar("", string(text))'))),
("first path part", c(("filepath.Join(impNode.OnePath().AllToken()...)",'filepath.Join(impNode.OnePath().AllToken()[0])'))),
("stop after import", c(("				node = GrammarNode{Node: x}\n			}\n			return nil","				node = GrammarNode{Node: x}\n			}\n			return &aborter{}"))),
("stop after known import", c(("				node = GrammarNode{Node: x}\n			}\n			return nil","				node = GrammarNode{Node: x}\n				return nil\n			}\n			return &aborter{}"))),
("validate before", c(("	return NewFromAst(node).Compile(node), nil","	n2, _ := c.makeGrammar(\"\", grammar)\n	return NewFromAst(n2).Compile(node), nil"))),
("resolve base always", t(('	if from == "" {','	if from == "" || !filepath.IsAbs(file) {'))),
("resolve from not dir", t(('filepath.Join(filepath.Dir(from), file)','filepath.Join(from, file)'))),
("resolve base not dir", t(('resolver{filepath.Dir(firstFilename)}','resolver{firstFilename}'))),
("resolve never base", t(('	if from == "" {','	if from == "" && r.base == "" {'))),
("resolve only base name", t(('filepath.Join(filepath.Dir(from), file)','filepath.Join(filepath.Dir(from), filepath.Base(file))'))),
("resolver for input", t(('makeResolver(inGrammarFile)','makeResolver(inFile)'))),
("resolver nil", t(('wbnf.MustCompile(string(text), makeResolver(inGrammarFile))','wbnf.MustCompile(string(text), nil)'))),
("resolver for grammar", t(('wbnf.MustCompile(grammar, makeResolver(filename))','wbnf.MustCompile(grammar, makeResolver(inGrammarFile))'))),
("resolver for rule", t(('return testWbnfFile(source, input)','return testWbnfFile(startingRule, input)'))),
("= merge rewritten", c((MERGE,'	out := append(ast.Many{}, a["stmt"].(ast.Many)...)\n	for _, s := range b.Many("stmt") {\n		out = append(out, s)\n	}\n	a["stmt"] = out\n	return a'))),
("= merge prepends", c((MERGE,'	a["stmt"] = append(append(ast.Many{}, b.Many("stmt")...), a["stmt"].(ast.Many)...)\n	return a'))),
("= set of seen", c(("	imports  map[string]GrammarNode\n","	imports  map[string]bool\n"),("		imports:  map[string]GrammarNode{},","		imports:  map[string]bool{},"),("	c.imports[filename] = GrammarNode{}\n","	c.imports[filename] = true\n"),("	c.imports[filename] = g\n",""))),
("= clean at caller", c(('	filename = filepath.Clean(filename)\n',''),("c.loadGrammarFile(importPath)","c.loadGrammarFile(filepath.Clean(importPath))"))),
("= queue helper", c(("			importPath := filepath.Join(impNode.OnePath().AllToken()...)\n			if c.resolver != nil {\n				importPath = c.resolver.Resolve(filename, importPath)\n			}\n			nested","			nested"),("c.loadGrammarFile(importPath)","c.loadGrammarFile(c.target(filename, impNode))"),("func (c *compiler) loadGrammarFile","func (c *compiler) target(filename string, n PragmaImportNode) string {\n	p := filepath.Join(n.OnePath().AllToken()...)\n	if c.resolver == nil {\n		return p\n	}\n	return c.resolver.Resolve(filename, p)\n}\n\nfunc (c *compiler) loadGrammarFile"))),
("= worklist", c(("				err = nestedErr\n				return &aborter{}","				if err == nil {\n					err = nestedErr\n				}\n				return &aborter{}"))),
("= sprint key", c(("	c.imports[filename] = g\n",""))),
("= resolve one return", t(('	if from == "" {\n		return filepath.Clean(filepath.Join(r.base, file))\n	}\n	return filepath.Clean(filepath.Join(filepath.Dir(from), file))','	dir := r.base\n	if from != "" {\n		dir = filepath.Dir(from)\n	}\n	return filepath.Join(dir, file)'))),
("= resolver keeps file", t(('resolver{filepath.Dir(firstFilename)}','resolver{firstFilename}'),('filepath.Join(r.base, file)','filepath.Join(filepath.Dir(r.base), file)'))),
("= resolver pointer", t(('func makeResolver(firstFilename string) resolver {\n	return resolver{','func makeResolver(firstFilename string) *resolver {\n	return &resolver{'),('func (r resolver) Resolve','func (r *resolver) Resolve'))),
("= load helper", t(('	text, err := os.ReadFile(inGrammarFile)\n	if err != nil {\n		panic(err)\n	}\n',''),('	return wbnf.MustCompile(string(text), makeResolver(inGrammarFile))\n}','	return compileFile(inGrammarFile)\n}\n\nfunc compileFile(name string) parser.Parsers {\n	text, err := os.ReadFile(name)\n	if err != nil {\n		panic(err)\n	}\n	return wbnf.MustCompile(string(text), makeResolver(name))\n}'))),
("= resolver inline", t(('makeResolver(inGrammarFile)','resolver{base: filepath.Dir(inGrammarFile)}'))),
("= compile instead", t(('	return wbnf.MustCompile(string(text), makeResolver(inGrammarFile))\n','	g, err := wbnf.Compile(string(text), makeResolver(inGrammarFile))\n	if err != nil {\n		panic(err)\n	}\n	return g\n'))),
]
