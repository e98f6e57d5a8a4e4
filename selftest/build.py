C = "wbnf/compile.go"; W="wbnf/wbnfgrammar.go"; T="parser/terms.go"
M = [
 ("stack as oneof", [(C, "return append(parser.Stack{}, terms...)", "return append(parser.Oneof{}, terms...)")]),
 ("stack reversed", [(C, "terms = append(terms, gb.buildTerm(t))", "terms = append([]parser.Term{gb.buildTerm(t)}, terms...)")]),
 ("quants forwards", [(C, "quants[len(quants)-1-i]", "quants[i]")]),
 ("quants skip 3rd", [(C, "for i := range quants {", "for i := range quants {\n\t\tif i == 2 {\n\t\t\tcontinue\n\t\t}")]),
 ("min max swap", [(C, "Min: min, Max: max}", "Min: max, Max: min}")]),
 ("trailing unless leading", [(C, "if q.OneOptTrailing() != \"\" {", "if q.OneOptTrailing() != \"\" && q.OneOptLeading() == \"\" {")]),
 ("accessor trailing", [(W, 'ast.First(c.Node, "opt_trailing")', 'ast.First(c.Node, "opt_leading")')]),
 ("accessor all", [(W, '	for _, child := range ast.All(c.Node, "term") {\n		out = append(out, TermNode{child})\n	}\n	return out\n}\n\nfunc (c ProdNode) OneToken', '	for _, child := range ast.All(c.Node, "term") {\n		out = append(out, TermNode{child})\n\t\tif len(out) == 3 {\n\t\t\tbreak\n\t\t}\n	}\n	return out\n}\n\nfunc (c ProdNode) OneToken')]),
 ("Opt", [(T, "func Opt(", "func Opt2(term Term) Quant { return Quant{Term: term, Max: 1} }\nfunc Opt(") , (C, "return parser.Opt(term)", "return parser.Any(term)")]),
 ("Some", [(T, "Quant{Term: term, Min: 1}", "Quant{Term: term, Min: 2}")]),
 ("assoc", [(T, '":>"', '"<:"')]),
 ("macro arg off", [(C, "return gb.buildTerm(node.AllTerm()[i])", "return gb.buildTerm(node.AllTerm()[0])")]),
 ("macro arg lookahead", [(C, "		case parser.Rule:\n			for i", "		case parser.LookAhead:\n\t\t\treturn t.Term\n		case parser.Rule:\n			for i")]),
 ("macro stop", [(C, "			gb.macros[node.OneName().String()] = node\n			return nil", "			gb.macros[node.OneName().String()] = node\n			return NodeExiter")]),
 ("macro first def abort", [(C, "			gb.macros[node.OneName().String()] = node\n			return nil", "			gb.macros[node.OneName().String()] = node\n			return Aborter")]),
 ("no cut points", [(C, "	return insertCutPoints(g)", "	return g")]),
 ("which order", [("ast/helpers.go", "		if children, has := b[name]; has {\n			return name, children", "		if children, has := b[name]; has && name != \"lookahead\" {\n			return name, children")]),
 ("re trim", [(C, "s = s[2 : len(s)-1]", "s = s[2:len(s)]")]),
 ("re once", [(C, '		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")\n		s = escape', '		s = escape')]),
 ("ref default dropped", [(C, 'defTerm != ""', 'len(defTerm) > 2')]),
 ("named by op", [(C, 'if ident := n.OneIdent().String(); ident != ""', 'if ident := n.OneOp(); ident != ""')]),
 ("prod one only", [(C, "	if len(children) == 1 {", "	if len(children) <= 2 {")]),
 ("scoped single dropped", [(C, "			if sg != nil {\n				sg.Term = terms[0]\n				return *sg\n			}\n", "")]),
 ("first stmt skipped", [(C, "	for _, stmt := range tree.AllStmt() {", "	for i, stmt := range tree.AllStmt() {\n\t\tif i == 3 {\n\t\t\tbreak\n\t\t}")]),
 ("first wins", [(C, "			g[parser.Rule(prod.OneIdent().String())] = gb.buildProd(*prod)", "			if _, has := g[parser.Rule(prod.OneIdent().String())]; has {\n\t\t\t\tcontinue\n\t\t\t}\n			g[parser.Rule(prod.OneIdent().String())] = gb.buildProd(*prod)")]),
 ("nested without macros", [(C, "nested := gb.buildGrammar(g[0].Node)", "nested := grammarBuilder{macros: map[string]PragmaMacrodefNode{}}.buildGrammar(g[0].Node)")]),
 ("max atoi min", [(C, 'if x := q.OneMax().String(); x != "" {', 'if x := q.OneMax().String(); x != "" && x != "1" {')]),
 ("=helper", [(C, "		min := 0\n		max := 0\n		if x := q.OneMin().String(); x != \"\" {\n			val, err := strconv.Atoi(x)\n			if err != nil {\n				panic(err)\n			}\n			min = val\n		}\n		if x := q.OneMax().String(); x != \"\" {\n			val, err := strconv.Atoi(x)\n			if err != nil {\n				panic(err)\n			}\n			max = val\n		}\n		return parser.Quant{Term: term, Min: min, Max: max}", "		return parser.Quant{Term: term, Min: bound(q.OneMin()), Max: bound(q.OneMax())}"),
   (C, "func (gb grammarBuilder) buildNamed", "func bound(n *IntNode) int {\n\tx := n.String()\n\tif x == \"\" {\n\t\treturn 0\n\t}\n\tval, err := strconv.Atoi(x)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\treturn val\n}\n\nfunc (gb grammarBuilder) buildNamed")]),
 ("=loop", [(C, "	for i := range quants {\n		next = gb.buildQuant(quants[len(quants)-1-i], next)\n	}", "	for i := len(quants) - 1; i >= 0; i-- {\n		next = gb.buildQuant(quants[i], next)\n	}")]),
 ("=lookahead helper", [(C, "		return parser.LookAhead{\n			Term: gb.buildTerm(*atom.OneLookahead()),\n		}", "		return gb.ahead(*atom.OneLookahead())"), (C, "func (gb grammarBuilder) buildNamed", "func (gb grammarBuilder) ahead(t TermNode) parser.Term {\n\treturn parser.LookAhead{Term: gb.buildTerm(t)}\n}\n\nfunc (gb grammarBuilder) buildNamed")]),
 ("=terms helper", [(C, "		var terms []parser.Term\n		for _, t := range t.AllTerm() {\n			terms = append(terms, gb.buildTerm(t))\n		}\n", "		terms := gb.buildAll(t.AllTerm())\n"), (C, "	children := p.AllTerm()\n	if len(children) == 1 {\n		return gb.buildTerm(children[0])\n	}\n	seq := make(parser.Seq, 0, len(children))\n	for _, child := range children {\n		seq = append(seq, gb.buildTerm(child))\n	}\n	return seq", "	terms := gb.buildAll(p.AllTerm())\n	if len(terms) == 1 {\n		return terms[0]\n	}\n	return parser.Seq(terms)"), (C, "func (gb grammarBuilder) buildNamed", "func (gb grammarBuilder) buildAll(ts []TermNode) []parser.Term {\n\tout := make([]parser.Term, len(ts))\n\tfor i := range ts {\n\t\tout[i] = gb.buildTerm(ts[i])\n\t}\n\treturn out\n}\n\nfunc (gb grammarBuilder) buildNamed")]),
 ("=switch", [(C, "	switch x {\n	case \"IDENT\":\n		return parser.Rule(name)\n	case \"STR\":", "	if x == \"IDENT\" {\n\t\treturn parser.Rule(name)\n\t}\n	switch x {\n	case \"STR\":")]),
 ("=macro closure", [(C, "			for i, arg := range macro.AllArgs() {\n				if arg.String() == string(t) {\n					return gb.buildTerm(node.AllTerm()[i])\n				}\n			}", "			args := node.AllTerm()\n			for i, arg := range macro.AllArgs() {\n				if parser.Rule(arg.String()) != t {\n					continue\n				}\n				return gb.buildTerm(args[i])\n			}")]),
 ("=ops map", [(C, "		switch q.OneOp() {\n		case \"*\":\n			return parser.Any(term)\n		case \"?\":\n			return parser.Opt(term)\n		case \"+\":\n			return parser.Some(term)\n		}", "		op := q.OneOp()\n		if op == \"?\" {\n			return parser.Opt(term)\n		} else if op == \"+\" {\n			return parser.Some(term)\n		} else if op == \"*\" {\n			return parser.Any(term)\n		}")]),
]
