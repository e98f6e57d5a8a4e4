P = "parser/parser.go"
M = [
 ("some", [(P, "Any(Seq{t.Sep, t.Term})", "Some(Seq{t.Sep, t.Term})")]),
 ("trail any", [(P, "	if t.CanEndWithSep {\n		seq = append(seq, Opt(t.Sep))", "	if t.CanEndWithSep {\n		seq = append(seq, Any(t.Sep))")]),
 ("lead swap", [(P, "	if t.CanStartWithSep {\n		seq = append(seq, Opt", "	if t.CanEndWithSep {\n		seq = append(seq, Opt")]),
 ("no trailing empty", [(P, "[]TreeElement{final.(Node).Get(0), Empty{}}...", "final.(Node).Get(0)")]),
 ("ltr swap", [(P, "p.put(&v, p.t.Assoc, v, result[i], result[i+1])", "p.put(&v, p.t.Assoc, result[i+1], result[i], v)")]),
 ("rtl off", [(P, "j := n - 1 - i\n", "j := n - i - i%2\n")]),
 ("rtl drops first", [(P, "			for i := 1; i < n; i += 2 {\n				j := n", "			for i := 1; i < n-2 || i == 1; i += 2 {\n				j := n")]),
 ("swap items", [(P, "		result = append(result, child.Get(0)) // sep\n		result = append(result, child.Get(1)) // term", "		result = append(result, child.Get(1)) // sep\n		result = append(result, child.Get(0)) // term")]),
 ("assoc single", [(P, "return p.put(output, Associativity(0), result...)", "return p.put(output, p.t.Assoc, result...)")]),
 ("skip last", [(P, "	for _, child := range seq.Children {\n		child := child.(Node)", "	for i, child := range seq.Children {\n		if i == 3 {\n			break\n		}\n		child := child.(Node)")]),
 ("=flat", [(P, "	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Term})})\n", "	rest := Any(Seq{t.Sep, t.Term})\n	seq = append(seq, Seq{t.Term, rest})\n")]),
 ("=flat2", [(P, "	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Term})})\n", "	seq = append(seq, t.Term, Any(Seq{t.Sep, t.Term}))\n"),
   (P, "		result = append(result, (*output).(Node).Get(1, 0)) // term\n		seq = (*output).(Node).GetNode(1, 1)\n		if p.t.CanEndWithSep {\n			final = (*output).(Node).Get(2)", "		result = append(result, (*output).(Node).Get(1)) // term\n		seq = (*output).(Node).GetNode(2)\n		if p.t.CanEndWithSep {\n			final = (*output).(Node).Get(3)"),
   (P, "		result = append(result, (*output).(Node).Get(0, 0)) // term\n		seq = (*output).(Node).GetNode(0, 1)\n		if p.t.CanEndWithSep {\n			final = (*output).(Node).Get(1)", "		result = append(result, (*output).(Node).Get(0)) // term\n		seq = (*output).(Node).GetNode(1)\n		if p.t.CanEndWithSep {\n			final = (*output).(Node).Get(2)")]),
 ("=fold helper", [(P, "			v := result[0]\n			for i := 1; i < n; i += 2 {\n				p.put(&v, p.t.Assoc, v, result[i], result[i+1]) //nolint:errcheck\n			}\n			*output = v\n			return nil\n", "			*output = p.foldLeft(result)\n			return nil\n"), (P, "func (p *delimParser) AsTerm()", "func (p *delimParser) foldLeft(items []TreeElement) TreeElement {\n	v := items[0]\n	for rest := items[1:]; len(rest) > 0; rest = rest[2:] {\n		p.put(&v, LeftToRight, v, rest[0], rest[1]) //nolint:errcheck\n	}\n	return v\n}\nfunc (p *delimParser) AsTerm()")]),
 ("=loop idx", [(P, "	for _, child := range seq.Children {\n		child := child.(Node)\n		result = append(result, child.Get(0)) // sep\n		result = append(result, child.Get(1)) // term", "	for i := 0; i < len(seq.Children); i++ {\n		child := seq.Children[i].(Node)\n		result = append(result, child.Get(0), child.Get(1))")]),
]
