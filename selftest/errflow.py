G = "cmd/gen.go"; T = "cmd/test.go"; W = "wbnf/compile.go"; V = "wbnf/validation.go"; P = "parser/parser.go"; U = "parser/unparse.go"; TM = "cmd/codegen/template.go"; TT = "parser/terms.go"
M = [
 ("gen write dropped", [(G, "		err = os.WriteFile(outFile, out, 0644) //nolint:gosec\n	}\n\n	return err\n", "		_ = os.WriteFile(outFile, out, 0644) //nolint:gosec\n	}\n\n	return err\n")]),
 ("gen stdout dropped", [(G, "		_, err = os.Stdout.Write(out)\n", "		_, _ = os.Stdout.Write(out)\n")]),
 ("gen print", [(G, "		_, err = os.Stdout.Write(out)\n", "		fmt.Print(string(out))\n"), (G, '	"bytes"\n', '	"bytes"\n	"fmt"\n')]),
 ("gen format fallback", [(G, "	out, err := format.Source(buf.Bytes())\n	if err != nil {\n		return err\n	}\n", "	out, err := format.Source(buf.Bytes())\n	if err != nil {\n		out = buf.Bytes()\n	}\n")]),
 ("gen format shadow", [(G, "	if err := codegen.Write(&buf, tmpldata); err != nil {\n		return err\n	}\n", "	codegen.Write(&buf, tmpldata) //nolint:errcheck\n")]),
 ("gen defer close err lost", [(G, "		err = os.WriteFile(outFile, out, 0644) //nolint:gosec\n", "		f, ferr := os.Create(outFile)\n		if ferr != nil {\n			return ferr\n		}\n		_, err = f.Write(out)\n		f.Close()\n")]),
 ("load read ignored", [(T, "	text, err := os.ReadFile(inGrammarFile)\n	if err != nil {\n		panic(err)\n	}\n", "	text, err := os.ReadFile(inGrammarFile)\n	if err != nil && !os.IsNotExist(err) {\n		panic(err)\n	}\n")]),
 ("recover no exit", [(T, "			fmt.Print(r)\n			os.Exit(1)\n", "			fmt.Print(r)\n")]),
 ("recover exit 0", [(T, "			os.Exit(1)\n", "			os.Exit(0)\n")]),
 ("recover exit only errors", [(T, "			fmt.Print(r)\n			os.Exit(1)\n", "			fmt.Print(r)\n			if _, ok := r.(error); ok {\n				os.Exit(1)\n			}\n")]),
 ("uci lost", [(T, "	if err, ok := err.(parser.UnconsumedInputError); ok {\n		return err\n	}\n\n	return nil\n", "	return nil\n")]),
 ("uci lost when tree", [(T, "		fmt.Println(ast.BuildTreeView(startingRule, a, true))\n	} else {", "		fmt.Println(ast.BuildTreeView(startingRule, a, true))\n		return nil\n	} else {")]),
 ("stdin err", [(T, "		buf, err := io.ReadAll(os.Stdin)\n		if err != nil {\n			return err\n		}\n", "		buf, _ := io.ReadAll(os.Stdin)\n")]),
 ("import err not kept", [(W, "				err = nestedErr\n				return &aborter{}\n", "				return &aborter{}\n")]),
 ("import err overwritten", [(W, "			nested, nestedErr := c.loadGrammarFile(importPath)\n			if nestedErr != nil {\n				err = nestedErr\n				return &aborter{}\n			}\n", "			var nested GrammarNode\n			nested, err = c.loadGrammarFile(importPath)\n			if err != nil {\n				return NodeExiter\n			}\n")]),
 ("import err shadow", [(W, "			nested, nestedErr := c.loadGrammarFile(importPath)\n			if nestedErr != nil {\n				err = nestedErr\n				return &aborter{}\n			}\n", "			nested, err := c.loadGrammarFile(importPath)\n			if err != nil {\n				return &aborter{}\n			}\n")]),
 ("import err unread", [(W, "	}.Walk(node)\n	if err != nil {\n		return GrammarNode{}, err\n	}\n	return node, nil\n", "	}.Walk(node)\n	return node, nil\n")]),
 ("import missing ok", [(W, "	text, err := os.ReadFile(filename)\n	if err != nil {\n		return GrammarNode{}, err\n	}\n", "	text, err := os.ReadFile(filename)\n	if err != nil {\n		if os.IsNotExist(err) {\n			return GrammarNode{}, nil\n		}\n		return GrammarNode{}, err\n	}\n")]),
 ("compile validate ignored", [(W, "	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n", "	validate(node)\n")]),
 ("compile validate only some", [(W, "	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n", "	if err := validate(node); err != nil && resolver == nil {\n		return parser.Parsers{}, err\n	}\n")]),
 ("must compile silent", [(W, "	p, err := Compile(grammar, resolver)\n	if err != nil {\n		panic(err)\n	}\n	return p\n", "	p, _ := Compile(grammar, resolver)\n	return p\n")]),
 ("validate rules err", [(V, "	rules, macros, err := findDefinedRules(tree)\n	if err != nil {\n		return err\n	}\n", "	rules, macros, _ := findDefinedRules(tree)\n")]),
 ("validate regex finding lost", [(V, "			v.err = append(v.err, validationError{\n				s:    tree.OneRe().Scanner(),", "			_ = append(v.err, validationError{\n				s:    tree.OneRe().Scanner(),")]),
 ("cycles lost", [(V, "	if cycles := checkForRecursion(tree); cycles != nil {\n		v.err = append(v.err, cycles)\n	}\n", "	if cycles := checkForRecursion(tree); cycles != nil && len(v.err) > 0 {\n		v.err = append(v.err, cycles)\n	}\n")]),
 ("unparse seq continue", [(U, "	for i, term := range t {\n		if err = unparse(g, term, node.Children[i], w, &n); err != nil {\n			return\n		}\n	}\n	return n, nil\n", "	for i, term := range t {\n		if err = unparse(g, term, node.Children[i], w, &n); err != nil {\n			break\n		}\n	}\n	return n, nil\n")]),
 ("unparse quant overwritten", [(U, "func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {\n	for _, child := range e.(Node).Children {\n		if err = unparse(g, t.Term, child, w, &n); err != nil {\n			return\n		}\n	}\n	return\n}", "func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {\n	for _, child := range e.(Node).Children {\n		err = unparse(g, t.Term, child, w, &n)\n	}\n	return\n}")]),
 ("unparse helper", [(U, "	if err == nil {\n		*N += n\n	}\n	return err\n", "	*N += n\n	if n == 0 {\n		return err\n	}\n	return nil\n")]),
 ("write to short", [(U, "func (t S) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {\n	return w.Write([]byte(e.(Scanner).String()))\n}", "func (t S) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {\n	n, _ = w.Write([]byte(e.(Scanner).String()))\n	return n, nil\n}")]),
 ("escape handler err", [(P, "				unconsumed, ok := err.(UnconsumedInputError)\n				if !ok {\n					return false, err\n				}\n", "				unconsumed, ok := err.(UnconsumedInputError)\n				if !ok {\n					return false, nil\n				}\n")]),
 ("escape err ignored in seq", [(P, "func (p *delimParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {\n	// defer enterf(\"%s: %T %[2]v\", p.rule, p.t).exitf(\"%v %v\", &out, output)\n	if escaped, err := parseEscape(p, scope, \"\", nil, input, output); escaped || err != nil {\n		return err\n	}", "func (p *delimParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {\n	// defer enterf(\"%s: %T %[2]v\", p.rule, p.t).exitf(\"%v %v\", &out, output)\n	if escaped, err := parseEscape(p, scope, \"\", nil, input, output); escaped {\n		return err\n	}")]),
 ("template exec", [(TM, "	return tmpl.Execute(w, data)\n", "	tmpl.Execute(w, data) //nolint:errcheck\n	return nil\n")]),
 ("template parse", [(TM, "	if err != nil {\n		panic(err)\n	}\n\n	return tmpl", "	if tmpl == nil {\n		panic(err)\n	}\n\n	return tmpl")]),
 ("main logs", [("cmd/main.go", "		logrus.Fatal(err)\n", "		logrus.Error(err)\n")]),
 ("test parse err", [(T, "			tree = uci.Result()\n		} else {\n			return err\n		}\n", "			tree = uci.Result()\n		} else {\n			logrus.Error(err)\n			return nil\n		}\n")]),
 ("parse error retry", [("wbnf/wbnfgrammar.go", "	if err != nil {\n		return GrammarNode{nil}, err\n	}\n", "	if err != nil {\n		return GrammarNode{nil}, nil\n	}\n")]),
 ("parse uci ok", [(P, "", "")]) if False else ("atoi default", [(W, "			val, err := strconv.Atoi(x)\n			if err != nil {\n				panic(err)\n			}\n			min = val\n", "			val, err := strconv.Atoi(x)\n			if err == nil {\n				min = val\n			}\n")]),
 ("start rule printed", [(T, "		return fmt.Errorf(\"starting rule '%s' not in test grammar\", startingRule)\n", "		fmt.Println(fmt.Errorf(\"starting rule '%s' not in test grammar\", startingRule))\n		return nil\n")]),
 ("=gen helper", [(G, "	switch outFile {\n	case \"\", \"-\":\n		_, err = os.Stdout.Write(out)\n	default:\n		err = os.WriteFile(outFile, out, 0644) //nolint:gosec\n	}\n\n	return err\n}\n", "	return emit(out)\n}\n\nfunc emit(out []byte) error {\n	if outFile == \"\" || outFile == \"-\" {\n		if _, err := os.Stdout.Write(out); err != nil {\n			return err\n		}\n		return nil\n	}\n	return os.WriteFile(outFile, out, 0644) //nolint:gosec\n}\n")]),
 ("=must helper", [(W, "	p, err := Compile(grammar, resolver)\n	if err != nil {\n		panic(err)\n	}\n	return p\n", "	p, err := Compile(grammar, resolver)\n	must(err)\n	return p\n"), (W, "func MustCompile", "func must(err error) {\n	if err == nil {\n		return\n	}\n	panic(err)\n}\n\nfunc MustCompile")]),
 ("=wrap", [(W, "	text, err := os.ReadFile(filename)\n	if err != nil {\n		return GrammarNode{}, err\n	}\n", "	text, err := os.ReadFile(filename)\n	if err != nil {\n		return GrammarNode{}, fmt.Errorf(\"reading %s: %w\", filename, err)\n	}\n")]),
 ("=err else", [(W, "	g, err := c.makeGrammar(filename, string(text))\n	if err != nil {\n		return GrammarNode{}, err\n	}\n	c.imports[filename] = g\n	return g, nil\n", "	g, err := c.makeGrammar(filename, string(text))\n	if err == nil {\n		c.imports[filename] = g\n	}\n	return g, err\n")]),
 ("=visit method", [(W, "			nested, nestedErr := c.loadGrammarFile(importPath)\n			if nestedErr != nil {\n				err = nestedErr\n				return &aborter{}\n			}\n", "			var nested GrammarNode\n			nested, err = c.loadGrammarFile(importPath)\n			if err != nil {\n				return Aborter\n			}\n")]),
 ("=unparse collect", [(U, "	node := e.(Node)\n	for i, term := range t {\n		if err = unparse(g, term, node.Children[i], w, &n); err != nil {\n			return\n		}\n	}\n	return n, nil\n", "	node := e.(Node)\n	for i := 0; err == nil && i < len(t); i++ {\n		err = unparse(g, t[i], node.Children[i], w, &n)\n	}\n	return n, err\n")]),
 ("=test uci switch", [(T, "	if err != nil {\n		if uci, ok := err.(parser.UnconsumedInputError); ok {\n			logrus.Warningln(\"Partial result:\")\n			tree = uci.Result()\n		} else {\n			return err\n		}\n	}\n", "	switch e := err.(type) {\n	case nil:\n	case parser.UnconsumedInputError:\n		logrus.Warningln(\"Partial result:\")\n		tree = e.Result()\n	default:\n		return err\n	}\n"), (T, "	if err, ok := err.(parser.UnconsumedInputError); ok {\n		return err\n	}\n\n	return nil\n", "	return err\n")]),
 ("=read input helper", [(T, "	var input string\n	switch source {\n	case \"\", \"-\":\n		buf, err := io.ReadAll(os.Stdin)\n		if err != nil {\n			return err\n		}\n		input = string(buf)\n	default:\n		buf, err := os.ReadFile(source)\n		if err != nil {\n			return err\n		}\n		input = string(buf)\n	}\n", "	input, err := readInput(source)\n	if err != nil {\n		return err\n	}\n"), (T, "func test(c *cli.Context) error {", "func readInput(source string) (string, error) {\n	var buf []byte\n	var err error\n	if source == \"\" || source == \"-\" {\n		buf, err = io.ReadAll(os.Stdin)\n	} else {\n		buf, err = os.ReadFile(source)\n	}\n	return string(buf), err\n}\n\nfunc test(c *cli.Context) error {")]),
 ("=recover named", [(T, "	defer func() {\n		if r := recover(); r != nil {\n			fmt.Print(r)\n			os.Exit(1)\n		}\n	}()\n", "	defer exitOnPanic()\n"), (T, "func test(c *cli.Context) error {", "func exitOnPanic() {\n	r := recover()\n	if r == nil {\n		return\n	}\n	fmt.Print(r)\n	os.Exit(1)\n}\n\nfunc test(c *cli.Context) error {")]),
 ("=validate order", [(V, "	if len(v.err) == 0 {\n		return nil\n	}\n	return &v\n", "	if len(v.err) > 0 {\n		return &v\n	}\n	return nil\n")]),
 ("=atom order", [(V, "		if _, err := regexp.Compile(x.String()); err != nil {\n			v.err = append(v.err, validationError{\n				s:    tree.OneRe().Scanner(),\n				msg:  \"regex '%s' is not valid, %s\",\n				kind: InvalidRegex,\n				args: []any{err},\n			})\n		}\n", "		_, err := regexp.Compile(x.String())\n		if err == nil {\n			return nil\n		}\n		finding := validationError{\n			s:    tree.OneRe().Scanner(),\n			msg:  \"regex '%s' is not valid, %s\",\n			kind: InvalidRegex,\n			args: []any{err},\n		}\n		v.err = append(v.err, finding)\n")]),
]
