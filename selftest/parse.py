P = "parser/parser.go"
M = [
 ("c01 oneof start shared", [(P, "		var v TreeElement\n		start := *input\n		if err := par.Parse(scope, &start", "		var v TreeElement\n		start := furthest\n		if err := par.Parse(scope, &start")]),
 ("c01 quant no restore", [(P, "		*input = start\n		if stuck {", "		if n := len(result); n != 3 {\n			*input = start\n		}\n		if stuck {")]),
 ("c01 quant direct input", [(P, "p.term.Parse(scope, &start, &v, stk); out != nil {\n			if isNotMy", "p.term.Parse(scope, input, &v, stk); out != nil {\n			if isNotMy"), (P, "		*input = start\n		if stuck", "		start = *input\n		if stuck")]),
 ("c01 lookahead consumes", [(P, "	start := *input\n	if err := l.term.Parse(scope, &start, &v, stk)", "	if err := l.term.Parse(scope, input, &v, stk)")]),
 ("c01 oneof no advance", [(P, "			*input = start\n			return p.put(output, Choice(i), v)", "			if i > 0 {\n				*input = start\n			}\n			return p.put(output, Choice(i), v)")]),
 ("c02 quant swallow fatal", [(P, "			if isNotMyFatalError(out, mycp) {\n				return out\n			}\n			break", "			if isNotMyFatalError(out, mycp) && len(result) == 0 {\n				return out\n			}\n			break")]),
 ("c02 seq no replace", [(P, "		if _, ok := item.(*cutPointParser); ok {", "		if _, ok := item.(*cutPointParser); ok && i > 0 {")]),
 ("c02 oneof prevcp", [(P, "satisfied\")(prevcp, errors...)", "satisfied\")(mycp, errors...)")]),
 ("c02 scope valid", [("parser/scope.go", "	return s, invalidCutpoint, invalidCutpoint", "	return s, prev, prev")]),
 ("c02 isNotMy", [("parser/error.go", "return true\n", "return false\n")]),
 ("c03 off by one", [(P, "p.t.Max == 0 || len(result) < p.t.Max;", "p.t.Max == 0 || len(result) <= p.t.Max;"),]),
 ("c03 min", [(P, "	if len(result) >= p.t.Min {\n		return p.put", "	if len(result) >= p.t.Min || len(result) == 1 {\n		return p.put")]),
 ("c03 stuck all", [(P, "stuck := p.t.Max == 0 && len(result) >= p.t.Min && start", "stuck := len(result) >= p.t.Min && start")]),
 ("c03 stuck min", [(P, "stuck := p.t.Max == 0 && len(result) >= p.t.Min && start", "stuck := p.t.Max == 0 && len(result) > 0 && start")]),
 ("c03 no stuck", [(P, "stuck := p.t.Max == 0 && len(result)", "stuck := p.t.Max == 0 && p.t.Min > 0 && len(result)")]),
 ("c04 seq drop", [(P, "		result = append(result, v)\n	}\n	return p.put(output, nil, result...)", "		if v != nil {\n			result = append(result, v)\n		}\n	}\n	return p.put(output, nil, result...)")]),
 ("c04 choice idx", [(P, "Choice(i), v)", "Choice(len(errors)), v)")]),
 ("c04 choice idx bug", [(P, "Choice(i), v)", "Choice(i%2), v)")]),
 ("c04 tag", [(P, "		put:     tag(rule, oneofTag),", "		put:     tag(rule, seqTag),")]),
 ("c04 makeParsers", [(P, "for _, t := range terms {", "for _, t := range terms[:len(terms):len(terms)] {")]),
 ("c04 regexp cap", [(P, "*output = eaten[n-1]", "*output = eaten[0]")]),
 ("=oneof rename", [(P, "	for i, par := range p.parsers {\n		var v TreeElement\n		start := *input", "	for i := 0; i < len(p.parsers); i++ {\n		par := p.parsers[i]\n		var v TreeElement\n		start := *input")]),
 ("=quant append idx", [(P, "	for p.t.Max == 0 || len(result) < p.t.Max {", "	for n := 0; p.t.Max == 0 || n < p.t.Max; n++ {")]),
 ("=quant helper", [(P, "	for p.t.Max == 0 || len(result) < p.t.Max {", "	for p.more(len(result)) {"), (P, "func (p *quantParser) AsTerm()", "func (p *quantParser) more(n int) bool {\n	return p.t.Max == 0 || n < p.t.Max\n}\nfunc (p *quantParser) AsTerm()")]),
 ("=quant if break", [(P, "	for p.t.Max == 0 || len(result) < p.t.Max {", "	for {\n		if p.t.Max != 0 && len(result) >= p.t.Max {\n			break\n		}")]),
 ("=seq presized", [(P, "	result := make([]TreeElement, 0, len(p.parsers))\n	furthest", "	result := make([]TreeElement, len(p.parsers))\n	furthest"), (P, "		result = append(result, v)\n	}\n	return p.put(output, nil, result...)", "		result[i] = v\n	}\n	return p.put(output, nil, result...)")]),
 ("=seq helper", [(P, "			*input = furthest\n			return newParseError(p.rule, \"could not complete sequence\")(scope.GetCutPoint(),\n				func() error { return err },\n				func() error { return stk },\n			)\n", "			*input = furthest\n			return p.fail(scope, err, stk)\n"), (P, "func (p *seqParser) AsTerm()", "func (p *seqParser) fail(scope Scope, err error, stk *call) error {\n	cp := scope.GetCutPoint()\n	mk := newParseError(p.rule, \"could not complete sequence\")\n	return mk(cp, func() error { return err }, func() error { return stk })\n}\nfunc (p *seqParser) AsTerm()")]),
 ("=oneof early", [(P, "			if isNotMyFatalError(err, mycp) {\n				return err\n			}\n			errors = append(errors, func() error { return err })\n\n			if furthest.Offset() < start.Offset() {\n				furthest = start\n			}\n		} else {\n			*input = start\n			return p.put(output, Choice(i), v)\n		}", "			if isNotMyFatalError(err, mycp) {\n				return err\n			}\n			errors = append(errors, func() error { return err })\n			if furthest.Offset() >= start.Offset() {\n				continue\n			}\n			furthest = start\n			continue\n		}\n		*input = start\n		return p.put(output, Choice(i), v)")]),
 ("=tag", [(P, "		put:     tag(rule, seqTag),", "		put: func(output *TreeElement, extra Extra, children ...TreeElement) error {\n			return tag(rule, seqTag)(output, extra, children...)\n		},")]),
 ("=makeparsers idx", [(P, "	return &oneofParser{\n		rule:    rule,\n		t:       t,\n		parsers: c.makeParsers(t),\n		put:     tag(rule, oneofTag),\n	}", "	p := &oneofParser{rule: rule, t: t}\n	p.put = tag(rule, oneofTag)\n	p.parsers = c.makeParsers(t)\n	return p")]),
]
