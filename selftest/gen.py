C="cmd/codegen/grammar.go"
def c(*p): return [(C,a,b) for a,b in p]
QUANT=open("/repo/"+C).read().split("	case parser.Quant:\n")[1].split("	case parser.Named:")[0]
LOOP=open("/repo/"+C).read().split("	for _, rule := range keys {\n")[1].split("	return &root")[0]
SAFE=open("/repo/"+C).read().split("	var sb strings.Builder\n")[1].split("	return sb.String()\n}")[0]
SEQ="""		for _, t := range t {
			node.children = append(node.children, walkTerm(t))
		}
"""
M=[
("prefix drops scope", c(("		scope:    node.scope,\n",""))),
("prefix drops children", c(("		children: node.children,\n",""))),
("no CR", c(("r == '\\r', ",""))),
("no NUL", c(("r == 0, ",""))),
("no backquote", c(("r == '`', ",""))),
("invalid", c((", r == utf8.RuneError && n == 1",""))),
("S not safe", c(("parser.S(`%s`)\", safeString(string(t))","parser.S(`%s`)\", string(t)"))),
("RE not safe", c(("parser.RE(`%s`)\", safeString(string(t))","parser.RE(`%s`)\", string(t)"))),
("RE is S", c(("stringNode(\"parser.RE(","stringNode(\"parser.S("))),
("S format", c(("fmt.Sprintf(\"parser.S(`%s`)\", safeString(string(t)))","fmt.Sprintf(\"parser.S(`\"+safeString(string(t))+\"`)\")"))),
("stringNode twice", c(("GoNode{name: fmt.Sprintf(fmtString, args...)}","GoNode{name: fmt.Sprintf(fmt.Sprintf(fmtString, args...))}"))),
("S trimmed", c(("safeString(string(t)))\n	case parser.Delim","safeString(strings.TrimSpace(string(t))))\n	case parser.Delim"))),
("S quoted q", c(("fmt.Sprintf(\"parser.S(`%s`)\", safeString(string(t)))","fmt.Sprintf(\"parser.S(%q)\", safeString(string(t)))"))),
("start for end", c(("if t.CanEndWithSep {","if t.CanStartWithSep {"))),
("no end", c(("CanEndWithSep: true","CanEndWithSep: false"))),
("assoc swap", c(("Assoc: parser.RightToLeft\"","Assoc: parser.LeftToRight\""))),
("assoc dropped", c(("		case parser.RightToLeft:\n			node.Add(stringNode(\"Assoc: parser.RightToLeft\"))\n",""))),
("term sep swap", c(("prefixName(\"Term: \", walkTerm(t.Term)),\n			prefixName(\"Sep: \", walkTerm(t.Sep))","prefixName(\"Term: \", walkTerm(t.Sep)),\n			prefixName(\"Sep: \", walkTerm(t.Term))"))),
("opt for 1,1", c(("t.Min == 0 && t.Max == 1","t.Max == 1"))),
("some any max", c(("t.Min == 1 && t.Max == 0","t.Min == 1"))),
("some >=1", c(("t.Min == 1 && t.Max == 0","t.Min >= 1 && t.Max == 0"))),
("any min", c(("t.Min == 0 && t.Max == 0","t.Max == 0"))),
("max dropped", c(("			node.Add(stringNode(\"Max: %d\", t.Max))\n","			if t.Max > t.Min {\n				node.Add(stringNode(\"Max: %d\", t.Max))\n			}\n"))),
("min is max", c(("stringNode(\"Min: %d\", t.Min)","stringNode(\"Min: %d\", t.Max)"))),
("max %x", c(("\"Max: %d\"","\"Max: %x\""))),
("default dropped for RE", c(("if t.Default != nil {","if _, ok := t.Default.(parser.S); ok {"))),
("default never", c(("if t.Default != nil {","if t.Default != nil && t.Ident == \"\" {"))),
("scoped term", c(("prefixName(\"Term: \", walkTerm(t.Term)),\n			prefixName(\"Grammar: \"","prefixName(\"Term: \", walkTerm(t.Grammar[\"a\"])),\n			prefixName(\"Grammar: \""))),
("cut dropped", c(("		node.name = \"parser.CutPoint\"\n		node.scope = squigglyScope\n		node.Add(walkTerm(t.Term))","		node = walkTerm(t.Term)"))),
("look is cut", c(("node.name = \"parser.LookAhead\"","node.name = \"parser.CutPoint\""))),
("oneof is seq", c(("node.name = \"parser.Oneof\"","node.name = \"parser.Seq\""))),
("seq flattened", c((SEQ,"""		for _, t := range t {
			if in, ok := t.(parser.Seq); ok {
				node.children = append(node.children, walkTerm(in).children...)
				continue
			}
			node.children = append(node.children, walkTerm(t))
		}
"""))),
("seq of one", c(("	case parser.Seq:\n","	case parser.Seq:\n		if len(t) == 1 {\n			return walkTerm(t[0])\n		}\n"))),
("= rule @ in the middle", c(("		if strings.Contains(string(t), parser.StackDelim) {","		if strings.HasSuffix(string(t), parser.StackDelim) {"))),
("= rule @1 only", c(("		if strings.Contains(string(t), parser.StackDelim) {","		if strings.HasSuffix(string(t), \"@1\") {"))),
("stack limit", c(("for i := 1; ; i++ {","for i := 1; i < 10; i++ {"))),
("stack not removed", c(("					delete(rules, stackname)\n",""))),
("stack prefix", c(("if stackPrefixes.Has(rule) {","if stackPrefixes.Has(rule[:1]) {"))),
("stack lexical", c(("			for i := 1; ; i++ {\n				stackname := fmt.Sprintf(\"%s@%d\", rule, i)\n				if node, ok := rules[stackname]; ok {\n					stack.Add(node)\n					delete(rules, stackname)\n				} else {\n					break\n				}\n			}\n","			for _, stackname := range keys {\n				if strings.HasPrefix(stackname, rule+\"@\") {\n					stack.Add(rules[stackname])\n					delete(rules, stackname)\n				}\n			}\n"))),
("dot rules dropped", c(("	for _, rule := range keys {\n","	for _, rule := range keys {\n		if rule[0] == '.' && len(rule) > 1 {\n			continue\n		}\n"))),
("any twice", c(("	return strings.Join([]string{g.name","	if len(children) > 3 {\n		children = children[:3]\n	}\n	return strings.Join([]string{g.name"))),
("add drops scope", c(("	g.children = append(g.children, n)","	g.children = append(g.children, GoNode{name: n.name, children: n.children})"))),
("named prefix", c(("stringNode(\"`%s`\", t.Name)","stringNode(\"`%s`\", strings.ToLower(t.Name))"))),
("extref rule", c(("stringNode(\"parser.ExtRef(`%s`)\"","stringNode(\"parser.Rule(`%s`)\""))),
("template", [("cmd/codegen/template.go","return {{.Grammar}}.Compile(nil)","g := {{.Grammar}}\n	delete(g, \".wrapRE\")\n	return g.Compile(nil)")]),
("empty children", c(("	for _, c := range g.children {\n","	for _, c := range g.children {\n		if len(c.children) == 0 && c.scope == squigglyScope {\n			continue\n		}\n"))),
("= helper list", c((SEQ,"		node.children = walkAll(t)\n"),(SEQ,"		node.children = walkAll(t)\n"),(SEQ,"		node.children = walkAll(t)\n"),("func walkTerm(","func walkAll(ts []parser.Term) (out []GoNode) {\n	for i := range ts {\n		out = append(out, walkTerm(ts[i]))\n	}\n	return out\n}\n\nfunc walkTerm("))),
("= quant switch", c((QUANT,"""		inner := walkTerm(t.Term)
		node.scope = bracesScope
		node.children = []GoNode{inner}
		switch {
		case t.Min == 0 && t.Max == 0:
			node.name = "parser.Any"
		case t.Min == 1 && t.Max == 0:
			node.name = "parser.Some"
		case t.Min == 0 && t.Max == 1:
			node.name = "parser.Opt"
		default:
			node.name = "parser.Quant"
			node.scope = squigglyScope
			node.children = []GoNode{
				prefixName("Term: ", inner),
				stringNode("Min: %d", t.Min),
				stringNode("Max: %d", t.Max),
			}
		}
"""))),
("= quant all fields", c((QUANT,"""		node.name = "parser.Quant"
		node.scope = squigglyScope
		node.children = []GoNode{prefixName("Term: ", walkTerm(t.Term)), stringNode("Min: " + strconv.Itoa(t.Min)), stringNode("Max: %v", t.Max)}
"""))),
("= bool map", c(("	stackPrefixes := frozen.NewSet[string]()\n","	stackPrefixes := map[string]bool{}\n"),("			stackPrefixes = stackPrefixes.With(strings.Split(r, parser.StackDelim)[0])","			stackPrefixes[r[:strings.Index(r, parser.StackDelim)]] = true"),("stackPrefixes.Has(rule)","stackPrefixes[rule]"),('	"github.com/arr-ai/frozen"\n\n',""))),
("= loop in helper", c((LOOP,"""		if node, ok := ruleNode(rule, rules, stackPrefixes.Has(rule)); ok {
			root.Add(GoNode{name: strconv.Quote(rule), children: []GoNode{node}, scope: mapScope})
		}
	}
"""),("func MakeGrammarString","""func ruleNode(rule string, rules map[string]GoNode, isStack bool) (GoNode, bool) {
	node, ok := rules[rule]
	if !ok || !isStack {
		return node, ok
	}
	stack := GoNode{name: "parser.Stack", children: []GoNode{node}, scope: squigglyScope}
	for i := 1; ; i++ {
		level, ok := rules[fmt.Sprint(rule, "@", i)]
		if !ok {
			return stack, true
		}
		stack.Add(level)
		delete(rules, rule+"@"+strconv.Itoa(i))
	}
}

func MakeGrammarString"""))),
("= no spare loops", c(("	keys := make([]string, 0, len(g))\n	for rule := range g {\n		keys = append(keys, string(rule))\n	}\n	sort.Strings(keys)\n	rules := map[string]GoNode{}\n","	keys := make([]string, 0, len(g))\n	rules := map[string]GoNode{}\n"),("		rules[r] = walkTerm(t)\n","		keys = append(keys, r)\n		rules[r] = walkTerm(t)\n"),("	for _, rule := range keys {\n","	sort.Strings(keys)\n	for _, rule := range keys {\n"))),
("= byte loop", c((SAFE,"""	for i, r := range src {
		_, n := utf8.DecodeRuneInString(src[i:])
		piece := src[i : i+n]
		if r == '`' || r == '\\r' || r == 0 || r == '\\uFEFF' || r == utf8.RuneError && n == 1 {
			piece = "`+" + strconv.Quote(piece) + "+`"
		}
		sb.WriteString(piece)
	}
"""))),
("= quoted", c(("parser.S(`%s`)\", safeString(string(t))","parser.S(%s)\", quoted(string(t))"),("func walkTerm(","func quoted(s string) string {\n	if strconv.CanBackquote(s) || s == \"\\n\" {\n		return \"`\" + s + \"`\"\n	}\n	return strconv.Quote(s)\n}\n\nfunc walkTerm("))),
("= string switch", c(("	x := map[int]struct {\n		open  string\n		close string\n	}{\n		noScope:       {\"\", \"\"},\n		mapScope:      {\":\", \"\"},\n		bracesScope:   {\"(\", \")\"},\n		squigglyScope: {\"{\", \"}\"},\n	}[g.scope]\n","	var x struct{ open, close string }\n	switch g.scope {\n	case mapScope:\n		x.open = \":\"\n	case bracesScope:\n		x.open, x.close = \"(\", \")\"\n	case squigglyScope:\n		x.open, x.close = \"{\", \"}\"\n	}\n"))),
("= string builder", c(("	children := make([]string, 0, len(g.children))\n	for _, c := range g.children {\n		children = append(children, c.String())\n	}\n	return strings.Join([]string{g.name, x.open, strings.Join(children, \",\\n\"), x.close}, \"\")","	var sb strings.Builder\n	sb.WriteString(g.name)\n	sb.WriteString(x.open)\n	for i := range g.children {\n		if i > 0 {\n			sb.WriteString(\",\\n\")\n		}\n		sb.WriteString(g.children[i].String())\n	}\n	sb.WriteString(x.close)\n	return sb.String()"))),
("= string concat", c(("	return strings.Join([]string{g.name, x.open, strings.Join(children, \",\\n\"), x.close}, \"\")","	return g.name + x.open + strings.Join(children, \", \") + x.close"))),
("= delim flags helper", c(("		if t.CanStartWithSep {\n			node.Add(stringNode(\"CanStartWithSep: true\"))\n		}\n		if t.CanEndWithSep {\n			node.Add(stringNode(\"CanEndWithSep: true\"))\n		}\n","		for _, f := range []struct {\n			name string\n			on   bool\n		}{{\"CanStartWithSep\", t.CanStartWithSep}, {\"CanEndWithSep\", t.CanEndWithSep}} {\n			if f.on {\n				node.Add(stringNode(\"%s: true\", f.name))\n			}\n		}\n"))),
("= assoc last", c(("		switch t.Assoc {\n		case parser.LeftToRight:\n			node.Add(stringNode(\"Assoc: parser.LeftToRight\"))\n		case parser.RightToLeft:\n			node.Add(stringNode(\"Assoc: parser.RightToLeft\"))\n		}\n","		if t.Assoc > 0 {\n			node.Add(stringNode(\"Assoc: parser.LeftToRight\"))\n		} else if t.Assoc < 0 {\n			node.Add(stringNode(\"Assoc: parser.RightToLeft\"))\n		}\n"))),
("= named keyed", c(("		node.name = \"parser.Eq\"\n		node.scope = bracesScope\n		node.children = []GoNode{\n			stringNode(\"`%s`\", t.Name),\n			walkTerm(t.Term),\n","		node.name = \"parser.Named\"\n		node.scope = squigglyScope\n		node.children = []GoNode{\n			stringNode(\"Name: %q\", t.Name),\n			prefixName(\"Term: \", walkTerm(t.Term)),\n"))),
("= multi case", c(("	case parser.Stack:\n		node.name = \"parser.Stack\"\n		node.scope = squigglyScope\n"+SEQ,"	case parser.Stack:\n		for i := 0; i < len(t); i++ {\n			node.Add(walkTerm(t[i]))\n		}\n		node.name, node.scope = \"parser.Stack\", squigglyScope\n"))),
("= with seq pre-sized", c((SEQ,"		kids := make([]GoNode, len(t))\n		for i, e := range t {\n			kids[i] = walkTerm(e)\n		}\n		node.children = kids\n"))),
]
