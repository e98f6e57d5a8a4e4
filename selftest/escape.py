P = "parser/parser.go"; SC = "parser/scope.go"
M = [
 ("close not needed", [(P, '			if _, ok := input.EatRegexp(esc.closeDelim, &match, nil); !ok {\n				return false, fmt.Errorf("missing escape terminator")\n			}\n			return true, nil', '			if _, ok := input.EatRegexp(esc.closeDelim, &match, nil); !ok {\n				return input.String() == "", nil\n			}\n			return true, nil')]),
 ("residue dropped", [(P, "				*input = unconsumed.residue\n", "				_ = unconsumed.residue\n")]),
 ("tree", [(P, "				te = unconsumed.tree\n", "")]),
 ("err swallowed", [(P, "				if !ok {\n					return false, err\n				}\n				te = unc", "				if !ok {\n					return false, nil\n				}\n				te = unc")]),
 ("seq no escape", [(P, 'stk *call) (out error) {\n	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)\n	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {\n		return err\n	}\n	result := make([]TreeElement, 0, len(p.parsers))', 'stk *call) (out error) {\n	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped {\n		return err\n	}\n	result := make([]TreeElement, 0, len(p.parsers))')]),
 ("quant after", [(P, "	result := make([]TreeElement, 0, p.t.Min)\n	var v TreeElement\n	start := *input\n", "	result := make([]TreeElement, 0, p.t.Min)\n	var v TreeElement\n	start := *input\n	if p.t.Min == 7 {\n		p.term.Parse(scope, &start, &v, stk)\n	}\n")]),
 ("quant no", [(P, '	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {\n		return err\n	}\n	result := make([]TreeElement, 0, p.t.Min)', '	result := make([]TreeElement, 0, p.t.Min)')]),
 ("swap", [(SC, "openClose[0])", "openClose[1])"), (SC, "closeDelim: regexp.MustCompile(`(?m)\\A` + openClose[1])", "closeDelim: regexp.MustCompile(`(?m)\\A` + openClose[0])")]),
 ("anchor", [(SC, "closeDelim: regexp.MustCompile(`(?m)\\A` +", "closeDelim: regexp.MustCompile(`(?m)^` +")]),
 ("open output", [(P, "			*output = te\n			if _, ok", "			if output == nil {\n			*output = te\n			}\n			if _, ok")]),
 ("open twice", [(P, "input.EatRegexp(esc.closeDelim", "input.EatRegexp(esc.openDelim")]),
 ("=early", [(P, "	if esc := scope.getParserEscape(); esc != nil {\n		var match Scanner\n		if _, ok := input.EatRegexp(esc.openDelim, &match, nil); ok {", "	esc := scope.getParserEscape()\n	if esc == nil {\n		return false, nil\n	}\n	{\n		if _, ok := input.EatRegexp(esc.openDelim, nil, nil); ok {\n		var match Scanner")]),
 ("=order", [(P, "			*output = te\n			if _, ok := input.EatRegexp(esc.closeDelim, &match, nil); !ok {\n				return false, fmt.Errorf(\"missing escape terminator\")\n			}\n", "			if _, ok := input.EatRegexp(esc.closeDelim, &match, nil); !ok {\n				return false, fmt.Errorf(\"missing escape terminator\")\n			}\n			*output = te\n")]),
 ("=getter", [(SC, "	if e, has := s.m.Get(parseEscapeKey); has {\n		return e.(*escape)\n	}\n	return nil\n", "	e, has := s.m.Get(parseEscapeKey)\n	if !has {\n		return nil\n	}\n	return e.(*escape)\n")]),
 ("=cut", [(SC, '			openClose := strings.Split(name[1:], "()")\n', '			before, after, _ := strings.Cut(name[1:], "()")\n'), (SC, "openClose[0])", "before)"), (SC, "openClose[1])", "after)")]),
]
