C="wbnf/cutpoints.go"; G="wbnf/wbnfgrammar.go"; CO="wbnf/compile.go"
def e(*p): return [(C,a,b) for a,b in p]
M=[
("count <=2", e(("return val == 1","return val <= 2"))),
("count != 2", e(("return val == 1","return val != 2"))),
("merge keeps a", e(("return a + b","return a"))),
("merge or", e(("return a + b","return a | b"))),
("merge max", e(("		return a + b\n","		if a > b {\n			return a\n		}\n		return b\n"))),
("stack not counted", e(("		case parser.Stack:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)\n			}\n		case parser.Oneof","		case parser.Stack:\n		case parser.Oneof"))),
("oneof last only", e(("		case parser.Oneof:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)","		case parser.Oneof:\n			for _, t := range t {\n				out = forTerm(t)"))),
("seq skips first", e(("		case parser.Seq:\n			for _, t := range t {\n				out","		case parser.Seq:\n			for _, t := range t[1:] {\n				out"))),
("sep not counted", e(("			out = out.Merge(forTerm(t.Sep), mergeFn)\n			if","			if"))),
("only trailing", e(("t.CanStartWithSep || t.CanEndWithSep","t.CanEndWithSep"))),
("both opt seps", e(("t.CanStartWithSep || t.CanEndWithSep","t.CanStartWithSep && t.CanEndWithSep"))),
("ref default", e(("			out = out.Merge(forTerm(t.Default), mergeFn)\n",""))),
("cutpoint not counted", e(("		case parser.CutPoint:\n			out = out.Merge(forTerm(t.Term), mergeFn)\n		case parser.Look","		case parser.CutPoint:\n		case parser.Look"))),
("lookahead once", e(("			out = out.Merge(forTerm(t.Term), mergeFn)\n			out = out.Merge(forTerm(t.Term), mergeFn)\n","			out = out.Merge(forTerm(t.Term), mergeFn)\n"))),
("scoped term only", e(("			for _, t := range t.Grammar {\n				out = out.Merge(forTerm(t), mergeFn)\n			}\n",""))),
("scoped grammar only", e(("		case parser.ScopedGrammar:\n			out = out.Merge(forTerm(t.Term), mergeFn)\n","		case parser.ScopedGrammar:\n"))),
("total replaced", e(("		strings = strings.Merge(forTerm(t), mergeFn)","		strings = forTerm(t)"))),
("total replaced if bigger", e(("		strings = strings.Merge(forTerm(t), mergeFn)","		if m := forTerm(t); m.Count() > 0 {\n			strings = strings.Merge(m, func(_ string, a, b int) int { return b })\n		}"))),
("nested separately", e(("t.Grammar = rebuildGrammar(t.Grammar, callback)","t.Grammar = insertCutPoints(t.Grammar)"))),
("nested dropped", e(("t.Grammar = rebuildGrammar(t.Grammar, callback)","t.Grammar = rebuildGrammar(parser.Grammar{}, callback)"))),
("always", e(("if strings.Has(string(t)) {","if !strings.Has(string(t)) {"))),
("empty also", e(("if strings.Has(string(t)) {","if t == \"\" || strings.Has(string(t)) {"))),
("fix quant", e(("	case parser.Quant:\n		t.Term = fixTerm(t.Term, callback)\n		return callback(t)","	case parser.Quant:\n		return callback(parser.Quant{Term: fixTerm(t.Term, callback), Min: t.Min})"))),
("fix delim assoc", e(("		t.Sep = fixTerm(t.Sep, callback)\n		return callback(t)","		return callback(parser.Delim{Term: t.Term, Sep: fixTerm(t.Sep, callback), CanStartWithSep: t.CanStartWithSep, CanEndWithSep: t.CanEndWithSep})"))),
("fix delim swap", e(("		t.Sep = fixTerm(t.Sep, callback)\n","		t.Sep = fixTerm(t.Term, callback)\n"))),
("fix named", e(("	case parser.Named:\n		t.Term = fixTerm(t.Term, callback)\n		return callback(t)","	case parser.Named:\n		return callback(fixTerm(t.Term, callback))"))),
("fix seq drops", e(("		out := parser.Seq{}\n		for _, t := range t {\n			out","		out := parser.Seq{}\n		for i, t := range t {\n			if i > 0 && t == nil {\n				continue\n			}\n			out"))),
("fix stack reversed", e(("		out := parser.Stack{}\n		for _, t := range t {\n			out = append(out, fixTerm(t, callback))\n","		out := parser.Stack{}\n		for _, t := range t {\n			out = append(parser.Stack{fixTerm(t, callback)}, out...)\n"))),
("lookahead unwrapped", e(("	case parser.LookAhead:\n		t.Term = fixTerm(t.Term, callback)\n		return callback(t)","	case parser.LookAhead:\n		return callback(parser.CutPoint{Term: t.Term})"))),
("rules dropped", e(("	for rule, term := range input {\n		out[rule] =","	for rule, term := range input {\n		if rule == \"\" {\n			continue\n		}\n		out[rule] ="))),
("rules renamed", e(("		out[rule] = fixTerm(term, callback)","		out[rule+\"\"] = fixTerm(term, callback)\n		out[\"x\"] = term"))),
("generated dup", [(G,"parser.Oneof{parser.CutPoint{parser.S(`..`)},","parser.Oneof{parser.CutPoint{parser.S(`..`)}, parser.CutPoint{parser.S(`..`)},")]),
("generated paren", [(G,"parser.S(`(`)","parser.CutPoint{parser.S(`(`)}")]),
("maker in builder", [(CO,"		return parser.S(parseString(name))","		return parser.CutPoint{Term: parser.S(parseString(name))}")]),
("=forTerms helper", e(("	strings := frozen.NewMap[string, int]()\n	for _, t := range g {\n		strings = strings.Merge(forTerm(t), mergeFn)\n	}\n	return strings.Where","	forGrammar := func(g parser.Grammar) frozen.Map[string, int] {\n		var out frozen.Map[string, int]\n		for _, t := range g {\n			out = out.Merge(forTerm(t), mergeFn)\n		}\n		return out\n	}\n	return forGrammar(g).Where"))),
("=terms helper", e(("		case parser.Seq:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)\n			}\n		case parser.Stack:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)\n			}\n		case parser.Oneof:\n			for _, t := range t {\n				out = out.Merge(forTerm(t), mergeFn)\n			}\n","		case parser.Seq:\n			return forTerms(t)\n		case parser.Stack:\n			return forTerms(t)\n		case parser.Oneof:\n			return forTerms(t)\n"),("	forTerm = func(","	forTerms := func(ts []parser.Term) frozen.Map[string, int] {\n		out := frozen.NewMap[string, int]()\n		for i := range ts {\n			out = forTerm(ts[i]).Merge(out, mergeFn)\n		}\n		return out\n	}\n	forTerm = func("))),
("=double counted", e(("			out = out.Merge(forTerm(t.Term), mergeFn)\n			out = out.Merge(forTerm(t.Term), mergeFn)\n","			once := forTerm(t.Term)\n			out = once.Merge(once, mergeFn)\n"))),
("=val < 2", e(("return val == 1","return val < 2"))),
("=return early", e(("		case parser.Quant:\n			out = out.Merge(forTerm(t.Term), mergeFn)\n","		case parser.Quant:\n			return forTerm(t.Term)\n"))),
("=ref nil", e(("			out = out.Merge(forTerm(t.Default), mergeFn)\n","			if t.Default != nil {\n				out = out.Merge(forTerm(t.Default), mergeFn)\n			}\n"))),
("=seps flag", e(("			if t.CanStartWithSep || t.CanEndWithSep {\n","			optional := t.CanStartWithSep\n			if t.CanEndWithSep {\n				optional = true\n			}\n			if optional {\n"))),
("=top-level functions", e(("	var forTerm func(t parser.Term) frozen.Map[string, int]\n	forTerm = func(t parser.Term) frozen.Map[string, int] {","	return uniques(g)\n}\n\nfunc mergeFn(_ string, a, b int) int { return a + b }\n\nfunc forTerm(t parser.Term) frozen.Map[string, int] {\n		{"),("	mergeFn := func(_ string, a, b int) int {\n		return a + b\n	}\n",""),("		return out\n	}\n\n	strings :=","		return out\n	}\n}\n\nfunc uniques(g parser.Grammar) frozen.Set[string] {\n	strings :="))),
("=fix literal", e(("	case parser.Quant:\n		t.Term = fixTerm(t.Term, callback)\n		return callback(t)","	case parser.Quant:\n		return callback(parser.Quant{Term: fixTerm(t.Term, callback), Min: t.Min, Max: t.Max})"))),
("=fix terms helper", e(("		out := parser.Seq{}\n		for _, t := range t {\n			out = append(out, fixTerm(t, callback))\n		}\n		return out\n","		return parser.Seq(fixTerms(t, callback))\n"),("func fixTerm(","func fixTerms(ts []parser.Term, callback func(t parser.Term) parser.Term) []parser.Term {\n	out := make([]parser.Term, 0, len(ts))\n	for _, t := range ts {\n		out = append(out, fixTerm(t, callback))\n	}\n	return out\n}\n\nfunc fixTerm("))),
("=fix indexed", e(("		out := parser.Oneof{}\n		for _, t := range t {\n			out = append(out, fixTerm(t, callback))\n		}\n","		out := make(parser.Oneof, len(t))\n		for i := range t {\n			out[i] = fixTerm(t[i], callback)\n		}\n"))),
("=inserter struct", e(("	var callback func(t parser.Term) parser.Term\n	callback = func(t parser.Term) parser.Term {","	in := inserter{strings}\n	return rebuildGrammar(g, in.insert)\n}\n\ntype inserter struct{ strings frozen.Set[string] }\n\nfunc (in inserter) insert(t parser.Term) parser.Term {\n	strings, callback := in.strings, in.insert\n	{"),("		return t\n	}\n	return rebuildGrammar(g, callback)\n","		return t\n	}\n"))),
("=scoped in fixTerm", e(("		case parser.ScopedGrammar:\n			t.Grammar = rebuildGrammar(t.Grammar, callback)\n			return t\n",""),("	case parser.ScopedGrammar:\n		t.Term = fixTerm(t.Term, callback)\n","	case parser.ScopedGrammar:\n		t.Term = fixTerm(t.Term, callback)\n		t.Grammar = rebuildGrammar(t.Grammar, callback)\n"))),
("=inverted if", e(("			if strings.Has(string(t)) {\n				return parser.CutPoint{Term: t}\n			}\n","			if !strings.Has(string(t)) {\n				return t\n			}\n			cut := parser.CutPoint{Term: t}\n			return cut\n"))),
("=if chain", e(("		switch t := t.(type) {\n		case parser.S:\n			if strings.Has(string(t)) {\n				return parser.CutPoint{Term: t}\n			}\n","		if s, is := t.(parser.S); is && strings.Has(string(s)) {\n			return parser.CutPoint{Term: s}\n		}\n		switch t := t.(type) {\n"))),
("=has after counts", e(("	strings := findUniqueStrings(g)\n	s := strings.Elements()\n	_ = s\n","	strings := findUniqueStrings(g)\n"))),
("=with get", e(("			return out.With(string(t), 1)\n","			n, _ := out.Get(string(t))\n			return out.With(string(t), n+1)\n"))),
]
