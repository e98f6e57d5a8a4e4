S = "parser/scanner.go"; T = "parser/terms.go"
M = [
 ("eat len", [(S, "	eaten.sliceLength = i\n", "	eaten.sliceLength = s.sliceLength\n")]),
 ("skip", [(S, "s.sliceStart + i, s.sliceLength - i}", "s.sliceStart + i, s.sliceLength}")]),
 ("slice", [(S, "s.sliceStart + a, b - a}", "s.sliceStart + a, b}")]),
 ("eatre skip len", [(S, "		skip := loc[1]\n", "		skip := loc[len(loc)-1]\n")]),
 ("eatre caps", [(S, "loc[2*i], loc[2*i+1])", "loc[2*i], loc[1])")]),
 ("eatre late", [(S, "		if match != nil {\n			*match = *s.Slice(loc[0], loc[1])\n		}\n		skip := loc[1]\n", "		skip := loc[1]\n		*s = *s.Skip(skip)\n		if match != nil {\n			*match = *s.Slice(loc[0], loc[1])\n		}\n"), (S, "		*s = *s.Skip(skip)\n\n		return n", "		return n")]),
 ("eatstr", [(S, "strings.HasPrefix(s.slice(), str)", "strings.Contains(s.slice(), str)")]),
 ("eatstr empty", [(S, "		s.Eat(len(str), eaten)\n		return true\n", "		s.Eat(len(str), eaten)\n		return str != \"\"\n")]),
 ("merge max", [(S, "v.sliceStart+v.sliceLength > r", "v.sliceStart > r")]),
 ("merge src", [(S, "		if v.src != src {", "		if v.src != src && v.sliceLength > 0 {")]),
 ("merge src2", [(S, "		if v.src != src {", "		if v.src.filename() != src.filename() {")]),
 ("src slice", [(S, "i > len(s.origin) ||", "i >= len(s.origin) ||")]),
 ("new at", [(S, "&Scanner{stringSource{origin: str}, offset, size}", "&Scanner{stringSource{origin: str}, offset, len(str)}")]),
 ("new file", [(S, "return &Scanner{stringSource{str, filename}, 0, len(str)}", "return &Scanner{stringSource{strings.TrimSuffix(str, \"\\n\"), filename}, 0, len(str)}")]),
 ("c05 residue", [(T, "if input.String() == \"\" {", "if strings.TrimSpace(input.String()) == \"\" {")]),
 ("=eat lit", [(S, "	eaten.src = s.src\n	eaten.sliceStart = s.sliceStart\n	eaten.sliceLength = i\n	*s = *s.Skip(i)\n", "	*eaten = *s.Slice(0, i)\n	s.sliceStart += i\n	s.sliceLength -= i\n")]),
 ("=eatre noskip", [(S, "		skip := loc[1]\n		loc = loc[2:]\n", "		rest := s.Skip(loc[1])\n		loc = loc[2:]\n"), (S, "*s = *s.Skip(skip)", "*s = *rest")]),
 ("=eatre guard", [(S, "	if loc := re.FindStringSubmatchIndex(s.slice()); loc != nil {\n", "	loc := re.FindStringSubmatchIndex(s.String())\n	if loc == nil {\n		return 0, false\n	}\n	{\n"), (S, "		return n, true\n	}\n	return 0, false\n", "		return n, true\n	}\n")]),
 ("=merge idx", [(S, "	for _, v := range items[1:] {\n", "	for i := 1; i < len(items); i++ {\n		v := items[i]\n")]),
 ("=merge helper", [(S, "		if v.sliceStart+v.sliceLength > r {\n			r = v.sliceStart + v.sliceLength\n		}\n", "		if e := v.end(); e > r {\n			r = e\n		}\n"), (S, "func (s Scanner) IsNil()", "func (s Scanner) end() int { return s.sliceStart + s.sliceLength }\nfunc (s Scanner) IsNil()")]),
]
