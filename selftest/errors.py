P = "parser/parser.go"; SC = "parser/scope.go"; ER = "parser/error.go"; GT = "gotree/gotree.go"
M = [
 ("lazy input S", [(P, '		actual := *input // the caller moves input on before the error is printed\n		return newParseError(p.rule, "")(scope.GetCutPoint(),\n			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String())', '		actual := input\n		return newParseError(p.rule, "")(scope.GetCutPoint(),\n			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String())'), (P, 'func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },\n			func() error { return stk },\n		)\n	}\n	return nil\n}\nfunc (p *sParser)', 'func() error { return fmt.Errorf("actual: %s", getErrorStrings(actual)) },\n			func() error { return stk },\n		)\n	}\n	return nil\n}\nfunc (p *sParser)')]),
 ("quant self", [(P, "func() error { return cause }", "func() error { _ = cause; return out }")]),
 ("oneof shared err", [(P, "	var errors []func() error\n	for i, par", "	var errors []func() error\n	var err error\n	for i, par"), (P, "		if err := par.Parse(scope, &start, &v, stk); err != nil {", "		if err = par.Parse(scope, &start, &v, stk); err != nil {")]),
 ("oneof last only", [(P, "			errors = append(errors, func() error { return err })\n", "			errors = []func() error{func() error { return err }}\n")]),
 ("oneof furthest only", [(P, "			errors = append(errors, func() error { return err })\n\n			if furthest", "			if furthest.Offset() <= start.Offset() {\n				errors = append(errors, func() error { return err })\n			}\n			if furthest")]),
 ("seq named out", [(P, "		if err := item.Parse(scope, input, &v, stk.push(ident, item.AsTerm())); err != nil {\n			if isFatal(err) {\n				return err\n			}", "		if out = item.Parse(scope, input, &v, stk.push(ident, item.AsTerm())); out != nil {\n			if isFatal(out) {\n				return out\n			}"), (P, "				func() error { return err },\n				func() error { return stk },\n			)\n		}\n		if _, ok := item", "				func() error { return out },\n				func() error { return stk },\n			)\n		}\n		if _, ok := item")]),
 ("seq drop cause", [(P, "				func() error { return err },\n				func() error { return stk },\n			)\n		}\n		if _, ok := item", "				func() error { return stk },\n			)\n		}\n		if _, ok := item")]),
 ("walk skip", [(ER, "	for _, errf := range p.children {\n", "	for i, errf := range p.children {\n		if i > 1 {\n			break\n		}\n")]),
 ("walk last cause", [(ER, "	for _, errf := range p.children {\n", "	for _, errf := range p.children[:len(p.children)-1] {\n")]),
 ("walk skip fatal", [(ER, "			x.Add(err.Error())\n", "			if !isFatal(err) {\n				x.Add(err.Error())\n			}\n")]),
 ("walk twice", [(ER, "		err := errf()\n", "		if errf() == nil {\n			continue\n		}\n		err := errf()\n")]),
 ("walk no addtree", [(ER, "	parent.AddTree(x)\n", "	if len(p.children) < 3 {\n		parent.AddTree(x)\n	}\n")]),
 ("print items", [(GT, "	for i, f := range t {", "	for i, f := range t[:len(t)-1] {")]),
 ("push mutates", [(SC, "	return &call{ident, t, c}", "	if c != nil && c.ident == \"\" {\n		c.ident = ident\n		return c\n	}\n	return &call{ident, t, c}")]),
 ("chain error", [(SC, "	for ; c != nil; c = c.next {", "	for ; c != nil && c.next != nil; c = c.next {")]),
 ("stale v", [(P, 'func() error { return fmt.Errorf("actual: %s", v) }', 'func() error { return fmt.Errorf("actual: %s", *output) }')]),
 ("nil cause", [(P, "	errors = append(errors, func() error { return stk })\n	*input = furthest", "	errors = append(errors, func() error { return out })\n	*input = furthest")]),
 ("=eager strings", [(P, '			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },\n			func() error { return stk },\n		)\n	}\n	return nil\n}\nfunc (p *sParser)', '			func(s Scanner) func() error {\n				return func() error { return fmt.Errorf("actual: %s", getErrorStrings(&s)) }\n			}(actual),\n			func() error { return stk },\n		)\n	}\n	return nil\n}\nfunc (p *sParser)')]),
 ("=helper", [(P, "			errors = append(errors, func() error { return err })\n\n", "			errors = append(errors, errorFn(err))\n\n"), (P, "func identFromTerm", "func errorFn(err error) func() error { return func() error { return err } }\n\nfunc identFromTerm")]),
 ("=quant rename", [(P, "	cause := out\n	return newParseError(p.rule,", "	failure := out\n	cause := failure\n	return newParseError(p.rule,")]),
 ("=walk index", [(ER, "	for _, errf := range p.children {\n		err := errf()\n", "	for i := 0; i < len(p.children); i++ {\n		err := p.children[i]()\n")]),
 ("=walk switch", [(ER, "		if pe, ok := err.(*ParseError); ok {\n			pe.walkErrors(x)\n		} else {\n			x.Add(err.Error())\n		}\n", "		switch err := err.(type) {\n		case *ParseError:\n			err.walkErrors(x)\n		default:\n			x.Add(err.Error())\n		}\n")]),
 ("=chain while", [(SC, "	for ; c != nil; c = c.next {\n		parts = append(parts, fmt.Sprintf(\"%+v\", *c))\n	}\n	return strings.Join(parts, \"\\n\")", "	for e := c; e != nil; e = e.next {\n		parts = append(parts, fmt.Sprintf(\"%+v\", *e))\n	}\n	return strings.Join(parts, \"\\n\")")]),
]
