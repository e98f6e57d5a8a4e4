V="wbnf/validation.go"; R="wbnf/recursion.go"; C="wbnf/compile.go"; W="wbnf/wbnfgrammar.go"
def v(*p): return [(V,a,b) for a,b in p]
def r(*p): return [(R,a,b) for a,b in p]
def c(*p): return [(C,a,b) for a,b in p]
def w(*p): return [(W,a,b) for a,b in p]
M=[
("no validate", c(("	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n","	_ = validate(node)\n"))),
("validate only without macros", c(("	if err := validate(node); err != nil {","	if err := validate(node); err != nil && resolver != nil {"))),
("makegrammar swallows", c(("	node, err := Parse(parser.NewScannerWithFilename(text, filename))\n	if err != nil {\n		return GrammarNode{}, err\n	}","	node, err := Parse(parser.NewScannerWithFilename(text, filename))\n	if err != nil && filename != \"\" {\n		return GrammarNode{}, err\n	}\n	err = nil"))),
("recompiled other", c(("NewFromAst(node).Compile(node), nil","NewFromAst(node).Compile(nil), nil"))),
("dupes only macros", v(("			adder(node.OneIdent().String())\n","			out = out.With(node.OneIdent().String())\n"))),
("macro not added", v(("			adder(ident)\n","			out = out.With(ident)\n"))),
("macro not a rule", v(("			adder(ident)\n",""))),
("dupes two", v(("	if len(dupeRules) == 0 {","	if len(dupeRules) < 2 {"))),
("adder forgets", v(("			dupeRules = append(dupeRules, ident)\n		}\n","			dupeRules = append(dupeRules, ident)\n		} else {\n			dupeRules = nil\n		}\n"))),
("find exits early", v(("			adder(node.OneIdent().String())\n			return NodeExiter","			adder(node.OneIdent().String())\n			if len(dupeRules) == 0 && out.Count() > 2 {\n				return Aborter\n			}\n			return NodeExiter"))),
("no recursion check", v(("	if cycles := checkForRecursion(tree); cycles != nil {","	if cycles := checkForRecursion(tree); cycles != nil && len(v.err) > 0 {"))),
("recursion overwrites", v(("		v.err = append(v.err, cycles)\n	}","		v.err = append(v.err, cycles)\n	} else if len(v.err) == 1 {\n		v.err = nil\n	}"))),
("atom missing", v(("		EnterAtomNode:           v.validateAtom,\n",""))),
("quant missing", v(("		EnterQuantNode:          v.validateQuant,\n",""))),
("named missing", v(("		EnterNamedNode:          v.validateNamed,\n",""))),
("term missing", v(("		EnterTermNode:           v.validateTerm,\n",""))),
("macro missing", v(("		EnterPragmaMacrodefNode: v.validateMacro,\n",""))),
("call missing", v(("		EnterMacrocallNode:      v.validateMacroCall,\n",""))),
("op cond", v(('	if tree.OneOp() == "" {\n		names','	if tree.OneOp() == "" && len(tree.AllTerm()) > 3 {\n		names'))),
("adjacent names", v(("					names[x] = true\n","					names = map[string]bool{x: true}\n"))),
("quantified names skipped", v(("			if name := child.OneNamed(); name != nil {","			if name := child.OneNamed(); name != nil && len(child.AllQuant()) == 0 {"))),
("named exits", v(('				msg: "identifier \'%s\' clashes with a defined rule", kind: NameClashesWithRule})\n		}\n	}\n	return nil','				msg: "identifier \'%s\' clashes with a defined rule", kind: NameClashesWithRule})\n		}\n		return NodeExiter\n	}\n	return nil'))),
("quant exits", v(("	case 2:\n	}\n	return nil","	case 2:\n		return NodeExiter\n	}\n	return nil"))),
("atom exits on ref", v(("	if ident := tree.OneIdent(); ident != nil {\n		if","	if len(tree.AllToken()) == 2 {\n		return NodeExiter\n	}\n	if ident := tree.OneIdent(); ident != nil {\n		if"))),
("call exits", v(("node.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})\n		}\n	}\n	return nil","node.OneName().String(), len(macro.AllArgs()), len(node.AllTerm())), kind: IncorrectMacroArgCount})\n		}\n	}\n	return NodeExiter"))),
("call fewer fine", v(("if len(macro.AllArgs()) != len(node.AllTerm()) {","if len(macro.AllArgs()) > len(node.AllTerm()) {"))),
("call of rule fine", v(("	if !has {\n		v.err","	if !has && !v.knownRules.Has(node.OneName().String()) {\n		v.err"),("	} else {\n		if len(macro.AllArgs())","	} else if has {\n		if len(macro.AllArgs())"))),
("macro body skipped", v(("	v.walk(*node.OneTerm())\n",""))),
("macro body skipped without args", v(("	v.walk(*node.OneTerm())\n","	if len(node.AllArgs()) > 2 {\n		v.walk(*node.OneTerm())\n	}\n"))),
("macro args leak", v(("	prevRules := v.knownRules\n	defer func() { v.knownRules = prevRules }()\n",""))),
("macro arg clash off", v(('			v.err = append(v.err, validationError{s: arg.Scanner(),\n				msg: "macro arg \'%s\' clashes with a defined rule", kind: NameClashesWithRule})\n','			continue\n'))),
("macro stops walk", v(("	v.walk(*node.OneTerm())\n	return NodeExiter","	v.walk(*node.OneTerm())\n	return Aborter"))),
("max==min refused", v(("			if max < min {","			if max <= min {"))),
("max off by one", v(("			if max < min {","			if max+1 < min {"))),
("max 1", v(("		if min != 0 && max != 0 {","		if min != 0 && max > 1 {"))),
("min max swapped", v(("			if max < min {","			if min < max {"))),
("regex err ignored", v(("if _, err := regexp.Compile(x.String()); err != nil {",'if _, err := regexp.Compile(x.String()); err != nil && x.String() == "" {'))),
("regex only else", v(("	} else if x := tree.OneRe(); x != nil {","	} else if x := tree.OneRe(); x != nil && len(v.err) == 0 && v.knownRules.Count() > 2 {"))),
("@ anything", v(('		if ident.String() != "@" {','		if ident.String() != "@" && !v.knownRules.IsEmpty() && len(v.macros) == 0 {'))),
("only first alt", r(("		for _, term := range tree.AllTerm() {\n			result = result.Union(getSequenceDangerTerms(term))\n		}","		for _, term := range tree.AllTerm() {\n			result = result.Union(getSequenceDangerTerms(term))\n			break\n		}"))),
("plus optional", r(('q.OneOp() == "+" || (q','(q'),)),
("star required", r(('q.OneOp() == "+" ||','q.OneOp() != "?" && q.OneOp() != "" ||'))),
("min 0 required", r((' && q.OneMin().String() != "0")',')'))),
("paren ignored", r(("		if term := atom.OneTerm(); term != nil {\n			result","		if term := atom.OneTerm(); term != nil && len(tree.AllQuant()) == 0 {\n			result"))),
("optional forgotten", r(('			result = result.With("")\n',''))),
("stops at nonempty", r(("			if dangers.IsEmpty() {","			if !dangers.IsEmpty() {\n				return result.Union(dangers)\n			}\n			if dangers.IsEmpty() {"))),
("first rule only", r(("	for k := range dangers {\n		gn.walkRule(k, &dangers)\n	}","	for k := range dangers {\n		gn.walkRule(k, &dangers)\n		break\n	}"))),
("self loops only", r(("		if len(p) != frozen.NewSet(p...).Count() {","		if len(p) > 1 && p[len(p)-1] == p[len(p)-2] {"))),
("cycle to start only", r(("		if len(p) != frozen.NewSet(p...).Count() {","		if len(p) > 1 && p[len(p)-1] == p[0] && len(p) < 4 {"))),
("longer than two", r(("	if len(badRoutes) > 0 {","	if len(badRoutes) > 4 {"))),
("only first target", r(("			node.next[target] = g.walkRule(target, dangers)\n		}","			node.next[target] = g.walkRule(target, dangers)\n			break\n		}"))),
# refactorings
("=inline walk", v(("	v.walk(tree)\n\n	if cycles","	w := &v\n	w.walk(tree)\n	if cycles"))),
("=err slice first", v(("	if cycles := checkForRecursion(tree); cycles != nil {\n		v.err = append(v.err, cycles)\n	}\n\n	if len(v.err) == 0 {\n		return nil\n	}\n	return &v","	cycles := checkForRecursion(tree)\n	switch {\n	case cycles != nil:\n		v.err = append(v.err, cycles)\n		return &v\n	case len(v.err) != 0:\n		return &v\n	}\n	return nil"))),
("=macro restore", v(("	prevRules := v.knownRules\n	defer func() { v.knownRules = prevRules }()\n","	prevRules := v.knownRules\n"),("	v.walk(*node.OneTerm())\n","	v.walk(*node.OneTerm())\n	v.knownRules = prevRules\n"))),
("=names as set", v(("		names := map[string]bool{}\n","		names := frozen.NewSet[string]()\n"),("if _, has := names[x]; has {","if names.Has(x) {"),("					names[x] = true\n","					names = names.With(x)\n"))),
("=quant early", v(("		if min != 0 && max != 0 {\n			if max < min {","		if min != 0 && max != 0 {\n			if !(min <= max) {"))),
("=quant if", v(("	switch tree.Choice() {\n	case 0:\n	case 1:","	switch c := tree.Choice(); c {\n	default:\n	case 1:"),("	case 2:\n	}\n	return nil","	}\n	return nil"))),
("=adder inline", v(("			adder(node.OneIdent().String())\n			return NodeExiter","			name := node.OneIdent().String()\n			adder(name)\n			return NodeExiter"))),
("=compile split", c(("	if err := validate(node); err != nil {\n		return parser.Parsers{}, err\n	}\n	return NewFromAst(node).Compile(node), nil","	return build(node)"),("func MustCompile(","func build(node GrammarNode) (parser.Parsers, error) {\n	err := validate(node)\n	if err == nil {\n		g := NewFromAst(node)\n		return g.Compile(node), nil\n	}\n	return parser.Parsers{}, err\n}\n\nfunc MustCompile("))),
("=regex must", v(("		if _, err := regexp.Compile(x.String()); err != nil {","		src := x.String()\n		_, err := regexp.Compile(src)\n		if err != nil {"))),
("=danger switch", r(("		if term := atom.OneTerm(); term != nil {\n			result = result.Union(getSequenceDangerTerms(*term))\n		} else if ident := atom.OneIdent(); ident != nil {\n			result = result.With(ident.String())\n		} else if len(tree.AllQuant()) == 0 { // no quant means its some form of required string\n			return result\n		} else {\n			result = result.With(\"\")\n		}","		switch term, ident := atom.OneTerm(), atom.OneIdent(); {\n		case term != nil:\n			return getSequenceDangerTerms(*term)\n		case ident != nil:\n			return frozen.NewSet(ident.String())\n		case len(tree.AllQuant()) > 0:\n			return frozen.NewSet(\"\")\n		}"))),
("=paths local", r(("	paths := findPaths(\"\", gn, frozen.NewSet[string](), nil)\n	for _, p := range paths {\n		if len(p) != frozen.NewSet(p...).Count() {","	for _, p := range findPaths(\"\", gn, frozen.NewSet[string](), nil) {\n		if frozen.NewSet(p...).Count() < len(p) {"))),
("=dangers sorted", r(("	for k := range dangers {\n		gn.walkRule(k, &dangers)\n	}","	var names []string\n	for k := range dangers {\n		names = append(names, k)\n	}\n	sort.Strings(names)\n	for _, k := range names {\n		gn.walkRule(k, &dangers)\n	}"))),
]
