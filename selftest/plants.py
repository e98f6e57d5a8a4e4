W = "package wbnf\n\n"
# compiles and runs the generated literal, and returns what it denotes
GEN = """
func denotes(t *testing.T, g parser.Grammar) string {
	root, err := filepath.Abs("../..")
	if err != nil {
		t.Fatal(err)
	}
	dir := t.TempDir()
	src := "package main\\n\\nimport (\\n\\"fmt\\"\\n\\"github.com/arr-ai/wbnf/parser\\"\\n)\\n\\nvar g = " + MakeGrammarString(g).String() +
		"\\n\\nfunc main() {\\n\\tfmt.Printf(\\"%#v\\", g.Compile(nil).Grammar())\\n}\\n"
	if err := os.WriteFile(dir+"/main.go", []byte(src), 0600); err != nil {
		t.Fatal(err)
	}
	over := `{"Replace":{"` + root + `/cmd/zzgen/main.go":"` + dir + `/main.go"}}`
	if err := os.WriteFile(dir+"/o.json", []byte(over), 0600); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("go", "run", "-overlay", dir+"/o.json", "./cmd/zzgen")
	cmd.Dir = root
	out, err := cmd.CombinedOutput()
	if err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	return string(out)
}

func check(t *testing.T, g parser.Grammar) {
	want := fmt.Sprintf("%#v", g.Compile(nil).Grammar())
	if got := denotes(t, g.Compile(nil).Grammar()); got != want {
		t.Fatalf("%s\\n%s", got, want)
	}
}
"""
GENI = "fmt os os/exec path/filepath github.com/arr-ai/wbnf/parser"
# generates code for a grammar and runs a program over it
GEN2 = """
func walks(t *testing.T, grammar, body string) {
	root, err := filepath.Abs("../..")
	if err != nil {
		t.Fatal(err)
	}
	g, err := wbnf.ParseString(grammar)
	if err != nil {
		t.Fatal(err)
	}
	types := MakeTypes(g)
	dir := t.TempDir()
	var buf bytes.Buffer
	if err := Write(&buf, TemplateData{
		CommandLine: "x", PackageName: "main", StartRule: IdentName("single"), StartRuleTypeName: GoTypeName("single"),
		Grammar:       MakeGrammarString(wbnf.NewFromAst(g)),
		MiddleSection: append(types.Get(), GetVisitorWriter(types.Types(), "single")),
	}); err != nil {
		t.Fatal(err)
	}
	for name, src := range map[string]string{"g.go": buf.String(), "main.go": "package main\\n\\nfunc main() {" + body + "\\n}\\n"} {
		if err := os.WriteFile(dir+"/"+name, []byte(src), 0600); err != nil {
			t.Fatal(err)
		}
	}
	over := `{"Replace":{"` + root + `/cmd/zzgen/main.go":"` + dir + `/main.go","` + root + `/cmd/zzgen/g.go":"` + dir + `/g.go"}}`
	if err := os.WriteFile(dir+"/o.json", []byte(over), 0600); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("go", "run", "-overlay", dir+"/o.json", "./cmd/zzgen")
	cmd.Dir = root
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
}
"""
GENI2 = "bytes os os/exec path/filepath github.com/arr-ai/wbnf/wbnf"
CG = "cmd/codegen/grammar.go"
PP = "parser/parser.go"; SC = "parser/scanner.go"; T = "parser/terms.go"
def T_(body, imports="", pkg="wbnf"):
    ims = "".join('\t"%s"\n' % i for i in ["testing"] + imports.split())
    return "package %s\n\nimport (\n%s)\n\n%s" % (pkg, ims, body)
P = [
 dict(id="C01-quant-leftover", property="C01", pkg="wbnf",
  edits=[(PP, "		if out = p.term.Parse(scope, &start, &v, stk); out != nil {\n			if isNotMyFatalError(out, mycp) {\n				return out\n			}\n			break\n		}",
   "		if out = p.term.Parse(scope, &start, &v, stk); out != nil {\n			if isNotMyFatalError(out, mycp) {\n				return out\n			}\n			if len(result) > 1 {\n				*input = start\n			}\n			break\n		}")],
  needs="a repetition that accepts at least two items and whose next item fails after consuming part of the input",
  breaks="the input is left behind the failed attempt's partial match, so what follows the repetition starts at the wrong place",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	p := MustCompile(`a -> ("x" "y")* "x" "z";`, nil)
	if _, err := p.Parse("a", parser.NewScanner("xyxyxz")); err != nil {
		t.Fatal(err)
	}
	if _, err := p.Parse("a", parser.NewScanner("xyxyz")); err == nil {
		t.Fatal("accepted a text that is not in the language")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C01-oneof-furthest", property="C01", pkg="wbnf",
  edits=[(PP, "			*input = start\n			return p.put(output, Choice(i), v)", "			if start == *input {\n				start = furthest\n			}\n			*input = start\n			return p.put(output, Choice(i), v)")],
  needs="a choice whose accepted alternative matches nothing after another one failed having consumed something",
  breaks="the choice leaves the input where the failed alternative stopped",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{"a": parser.Seq{parser.Oneof{parser.Seq{parser.S("x"), parser.S("y")}, parser.RE("")}, parser.S("xz")}}
	p := g.Compile(nil)
	if _, err := p.Parse("a", parser.NewScanner("xz")); err != nil {
		t.Fatal(err)
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C02-lookahead-cut-lost", property="C02", pkg="wbnf",
  edits=[(PP, "			if isFatal(err) {\n				return err\n			}\n			*input = furthest\n", "			if _, peek := item.(*lookaheadParser); !peek && isFatal(err) {\n				return err\n			}\n			*input = furthest\n")],
  needs="a sequence whose lookahead fails behind a cut point inside the lookahead",
  breaks="the final failure inside the lookahead becomes recoverable and another alternative is tried",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{"a": parser.Oneof{
		parser.Seq{parser.LookAhead{Term: parser.Seq{parser.CutPoint{Term: parser.S("a")}, parser.S("b")}}, parser.RE("[a-z]+")},
		parser.S("ac"),
	}}
	if _, err := g.Compile(nil).Parse("a", parser.NewScanner("ac")); err == nil {
		t.Fatal("another alternative was tried after the cut point")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C02-quant-settles", property="C02", pkg="wbnf",
  edits=[(PP, "			if isNotMyFatalError(out, mycp) {\n				return out\n			}\n			break\n", "			if isNotMyFatalError(out, mycp) && (p.t.Min < 2 || len(result) < p.t.Min) {\n				return out\n			}\n			break\n")],
  needs="a repetition with a minimum above one that already has its minimum when a later item fails behind a cut point",
  breaks="the repetition settles for the items it has although the failure is final",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	item := parser.Seq{parser.CutPoint{Term: parser.S("(")}, parser.S(")")}
	g := parser.Grammar{"a": parser.Seq{parser.Quant{Term: item, Min: 2}, parser.RE(".*")}}
	p := g.Compile(nil)
	if _, err := p.Parse("a", parser.NewScanner("()()(x")); err == nil {
		t.Fatal("the repetition settled for what it had")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C03-max-one", property="C03", pkg="wbnf",
  edits=[(PP, "	for p.t.Max == 0 || len(result) < p.t.Max {", "	for p.t.Max == 0 || len(result) < p.t.Max || (p.t.Min > 1 && len(result) == p.t.Max) {")],
  needs="a repetition with a minimum above one, a maximum, and one item more in the input",
  breaks="one item more than the maximum is accepted",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	p := MustCompile(`a -> "x"{2,3};`, nil)
	if _, err := p.Parse("a", parser.NewScanner("xxx")); err != nil {
		t.Fatal(err)
	}
	if _, err := p.Parse("a", parser.NewScanner("xxxx")); err == nil {
		t.Fatal("four items accepted")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C04-choice-narrow", property="C04", pkg="wbnf",
  edits=[(PP, "Choice(i), v)", "Choice(uint8(i)), v)")],
  needs="a choice with more than 256 alternatives",
  breaks="the recorded index of the accepted alternative wraps around",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	var alts parser.Oneof
	for i := 0; i < 300; i++ {
		alts = append(alts, parser.S(fmt.Sprintf("<%d>", i)))
	}
	e, err := parser.Grammar{"a": alts}.Compile(nil).Parse("a", parser.NewScanner("<299>"))
	if err != nil {
		t.Fatal(err)
	}
	if c := e.(parser.Node).Extra; c != parser.Choice(299) {
		t.Fatal(c)
	}
}''', "fmt github.com/arr-ai/wbnf/parser")),
 dict(id="C04-quant-nil-item", property="C04", pkg="wbnf",
  edits=[(PP, "		result = append(result, v)\n		*input = start\n", "		if len(result) == 0 || start.Offset() > input.Offset() {\n			result = append(result, v)\n		}\n		*input = start\n"),
         (PP, "len(result) >= p.t.Min && start.Offset()", "start.Offset()")],
  needs="a bounded repetition with an item that can match nothing and a minimum reached only by such items",
  breaks="accepted items that consumed nothing are missing from the tree",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{"a": parser.Quant{Term: parser.RE("x?"), Min: 3, Max: 3}}
	e, err := g.Compile(nil).Parse("a", parser.NewScanner("x"))
	if err != nil {
		t.Skip(err)
	}
	if n := e.(parser.Node).Count(); n != 3 {
		t.Fatal(n)
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C05-blank-rest", property="C05", pkg="wbnf",
  edits=[(T, "	if input.String() == \"\" {\n		return e, nil\n	}\n", "	if strings.Trim(input.String(), \"\\n\") == \"\" {\n		return e, nil\n	}\n")],
  needs="input whose unconsumed rest consists of line breaks only",
  breaks="the parse is reported as successful although line breaks are left over",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{"a": parser.S("x")}
	if _, err := g.Compile(nil).Parse("a", parser.NewScanner("x\\n")); err == nil {
		t.Fatal("left-over input accepted")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C06-merge-nested", property="C06", pkg="wbnf",
  edits=[(SC, "\n		if v.sliceStart+v.sliceLength > r {\n			r = v.sliceStart + v.sliceLength\n		}", " else if v.sliceStart+v.sliceLength > r {\n			r = v.sliceStart + v.sliceLength\n		}"), (SC, "			l = v.sliceStart\n", "			l = v.sliceStart\n")],
  needs="merging pieces of which a later one contains all earlier ones",
  breaks="the merged piece ends where the earlier pieces end and does not cover the later one",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	s := parser.NewScanner("abcdef")
	m, err := parser.MergeScanners(*s.Slice(1, 3), *s.Slice(0, 5))
	if err != nil {
		t.Fatal(err)
	}
	if m.String() != "abcde" {
		t.Fatal(m.String())
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C06-capture-base", property="C06", pkg="wbnf",
  edits=[(SC, "			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])\n", "			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])\n			if i > 0 && captures[i].sliceLength == 0 {\n				captures[i] = captures[i-1]\n			}\n")],
  needs="a pattern with two groups the second of which matches the empty string",
  breaks="the second capture is not the range its group matched but the first group's",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	s := parser.NewScanner("abc")
	var c [2]parser.Scanner
	if _, ok := s.EatRegexp(regexp.MustCompile(`\\A(a)(x*)`), nil, c[:]); !ok {
		t.Fatal("no match")
	}
	if c[1].String() != "" || c[1].Offset() != 1 {
		t.Fatal(c[1].String(), c[1].Offset())
	}
}''', "regexp github.com/arr-ai/wbnf/parser")),

 dict(id="C07-wrap-no-clone", property="C07", pkg="wbnf",
  edits=[(PP, "			g = g.clone()\n			g.resolveStacks()", "			if _, wrapped := g[WrapRE]; !wrapped {\n				g = g.clone()\n			}\n			g.resolveStacks()")],
  needs="a grammar with precedence stacks and a .wrapRE rule",
  breaks="compiling rewrites the caller's grammar",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{"a": parser.Stack{parser.Delim{Term: parser.At, Sep: parser.S("+")}, parser.RE("[0-9]+")}, parser.WrapRE: parser.RE(`\\s*()\\s*`)}
	g.Compile(nil)
	if _, ok := g["a"].(parser.Stack); !ok || len(g) != 2 {
		t.Fatal("the grammar was modified")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C08-print-unsorted", property="C08", pkg="wbnf",
  edits=[(T, "	sort.Strings(keys)\n\n	var sb strings.Builder", "	sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })\n\n	var sb strings.Builder")],
  needs="a grammar with several rules whose names have the same length",
  breaks="printing a grammar depends on map order",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := parser.Grammar{}
	for _, r := range []parser.Rule{"ab", "cd", "ef", "gh", "ij", "kl"} {
		g[r] = parser.S("x")
	}
	first := g.String()
	for i := 0; i < 200; i++ {
		if g.String() != first {
			t.Fatal("two texts of the same grammar")
		}
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C09-unparse-count", property="C09", pkg="wbnf",
  edits=[("parser/unparse.go", "	if err == nil {\n		*N += n\n	}\n	return err\n", "	*N += n\n	if err != nil && n > 0 {\n		return nil\n	}\n	return err\n")],
  needs="a writer that fails after having written part of the text",
  breaks="the failure is lost and unparsing goes on",
  demo=T_('''
type short struct{ n int }

func (s *short) Write(b []byte) (int, error) {
	s.n++
	if s.n == 1 {
		return len(b) - 1, io.ErrShortWrite
	}
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	p := parser.Grammar{"a": parser.Seq{parser.S("xx"), parser.S("yy")}}.Compile(nil)
	e := p.MustParse("a", parser.NewScanner("xxyy"))
	if _, err := p.Unparse(e, &short{}); err == nil {
		t.Fatal("the failure was swallowed")
	}
}''', "io github.com/arr-ai/wbnf/parser")),
 dict(id="C12-delim-sep", property="C12", pkg="wbnf",
  edits=[("parser/diff/terms.go", "		Sep:             Terms(a.Sep, b.Sep),", "		Sep:             Terms(b.Sep, b.Sep),")],
  needs="two separated lists that differ in the separator alone",
  breaks="the comparison says they are equal",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	a := parser.Delim{Term: parser.S("x"), Sep: parser.S(",")}
	b := parser.Delim{Term: parser.S("x"), Sep: parser.S(";")}
	if diff.Terms(a, b).Equal() {
		t.Fatal("equal")
	}
}''', "github.com/arr-ai/wbnf/parser github.com/arr-ai/wbnf/parser/diff")),
 dict(id="C14-macro-args-stay", property="C14", pkg="wbnf",
  edits=[("wbnf/validation.go", "	prevRules := v.knownRules\n	defer func() { v.knownRules = prevRules }()\n\n", "")],
  needs="a rule that uses the name of a macro's parameter behind the macro",
  breaks="the undefined name is accepted",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if _, err := Compile(`.macro M(x) { x "," } a -> %!M("q") x;`, nil); err == nil {
		t.Fatal("an undefined rule was accepted")
	}
}''')),
 dict(id="C15-dup-rule-dropped", property="C15", pkg="wbnf",
  edits=[("wbnf/compile.go", '	a["stmt"] = append(a["stmt"].(ast.Many), b.Many("stmt")...)\n	return a', '	known := map[string]bool{}\n	for _, s := range NewGrammarNode(a).AllStmt() {\n		if p := s.OneProd(); p != nil {\n			known[p.OneIdent().String()] = true\n		}\n	}\n	for _, s := range NewGrammarNode(b).AllStmt() {\n		if p := s.OneProd(); p != nil && known[p.OneIdent().String()] {\n			continue\n		}\n		a["stmt"] = append(a["stmt"].(ast.Many), s.Node)\n	}\n	return a')],
  needs="an imported file that defines a rule the importing one has too",
  breaks="the imported rule is dropped silently instead of being part of the grammar (and refused as a duplicate)",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(d+"/x.wbnf", []byte(`a -> "one"; b -> "two";`), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
	if _, err := Compile(`.import x.wbnf a -> b;`, nil); err == nil {
		t.Fatal("a rule of the imported file was dropped")
	}
}''', "os")),
 dict(id="C16-default-uncounted", property="C16", pkg="wbnf",
  edits=[("wbnf/cutpoints.go", "		case parser.REF:\n			out = out.Merge(forTerm(t.Default), mergeFn)\n", ""), ("wbnf/cutpoints.go", "		case parser.RE, parser.Rule, parser.ExtRef: // do nothing", "		case parser.RE, parser.Rule, parser.ExtRef, parser.REF: // do nothing")],
  needs="a literal that occurs once as such and once as the default of a back reference",
  breaks="it becomes a cut point although it occurs twice",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	g := insertCutPoints(parser.Grammar{"a": parser.Seq{parser.S("x"), parser.REF{Ident: "q", Default: parser.S("x")}}})
	if _, cut := g["a"].(parser.Seq)[0].(parser.CutPoint); cut {
		t.Fatal("x is a cut point")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C17-choice-union", property="C17", pkg="wbnf",
  edits=[("ast/counter.go", "			ds.union(newCounters(child))\n		}\n		ctrs.mul(ds, parent)", "			ds.union(newCounters(child))\n		}\n		if parent == oneOne {\n			ctrs.union(ds)\n			return\n		}\n		ctrs.mul(ds, parent)")],
  needs="a rule with a name in front of a choice that may hold the name again",
  breaks="the name counts as single although it can occur twice",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	p := MustCompile(`a -> x (x | y); x -> "x"; y -> "y";`, nil)
	e := p.MustParse("a", parser.NewScanner("xx"))
	b := ast.FromParserNode(p.Grammar(), e)
	if len(b.Many("x")) != 2 {
		t.Fatal(b)
	}
}''', "github.com/arr-ai/wbnf/parser github.com/arr-ai/wbnf/ast")),
 dict(id="C18-right-trailing", property="C18", pkg="wbnf",
  edits=[(PP, "			v := result[n-1]\n			for i := 1; i < n; i += 2 {\n				j := n - 1 - i", "			v := result[n-1]\n			first := 1\n			if _, none := v.(Empty); none && n > 3 {\n				v, first = result[n-3], 3\n			}\n			for i := first; i < n; i += 2 {\n				j := n - 1 - i")],
  needs="a right-associative list of at least two items that ends with its separator",
  breaks="the trailing separator is dropped from the tree",
  demo=T_('''
func count(e parser.TreeElement) int {
	if n, ok := e.(parser.Node); ok {
		sum := 0
		for _, c := range n.Children {
			sum += count(c)
		}
		return sum
	}
	if _, ok := e.(parser.Scanner); ok {
		return 1
	}
	return 0
}

func TestZZDemo(t *testing.T) {
	p := parser.Grammar{"a": parser.Delim{Term: parser.S("x"), Sep: parser.S(","), CanEndWithSep: true, Assoc: parser.RightToLeft}}.Compile(nil)
	if e := p.MustParse("a", parser.NewScanner("x,x,")); count(e) != 4 {
		t.Fatal(e)
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C19-close-missing", property="C19", pkg="wbnf",
  edits=[(PP, '				return false, fmt.Errorf("missing escape terminator")', '				*input = before\n				return false, nil'), (PP, "		var match Scanner\n		if _, ok := input.EatRegexp(esc.openDelim", "		var match Scanner\n		before := *input\n		if _, ok := input.EatRegexp(esc.openDelim")],
  needs="an escape that is not closed, at a term that accepts the text of the escape as well",
  breaks="the text of the unclosed escape is parsed as ordinary input",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	p := parser.Grammar{"a": parser.RE(".*")}.Compile(nil)
	exts := parser.ExternalRefs{`*\\$\\{()\\}`: func(_ parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		var m parser.Scanner
		input.EatString("x", &m)
		return m, nil
	}}
	if _, err := p.ParseWithExternals("a", parser.NewScanner("${x}"), exts); err != nil {
		t.Fatal(err)
	}
	if _, err := p.ParseWithExternals("a", parser.NewScanner("${x never closed"), exts); err == nil {
		t.Fatal("an escape that is not closed was taken as text")
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C20-extref-cause", property="C20", pkg="wbnf",
  edits=[(PP, '		return newParseError(Rule(string(t)), "External handler not found")(Cutpointdata(1),\n			func() error { return stk.push(string(t), t.AsTerm()) },', '		return newParseError(Rule(string(t)), "External handler not found")(Cutpointdata(1),\n			func() error { return out },\n			func() error { return stk.push(string(t), t.AsTerm()) },')],
  needs="an external reference without a handler inside a choice or at the top, whose error is rendered before it is stored",
  breaks="the cause is the error itself: rendering it does not come to an end",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	p := parser.Grammar{"a": parser.ExtRef("nope")}.Compile(nil)
	_, err := p.Parse("a", parser.NewScanner("x"))
	if err == nil || err.Error() == "" {
		t.Fatal(err)
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C21-octal-rune", property="C21", pkg="wbnf",
  edits=[("wbnf/compile.go", """s[i:i+3], 8, 8)
				if err != nil {
					panic(err)
				}
				sb.WriteByte(uint8(n))
""", """s[i:i+3], 8, 8)
				if err != nil {
					panic(err)
				}
				sb.WriteRune(rune(n))
""")],
  needs="an octal escape of a byte above 0x7f",
  breaks="the literal matches the two bytes of the character with that number instead of the byte",
  demo=T_("""
func TestZZDemo(t *testing.T) {
	p := MustCompile(`a -> "\\303\\251";`, nil)
	if _, err := p.Parse("a", parser.NewScanner("é")); err != nil {
		t.Fatal(err)
	}
}""", "github.com/arr-ai/wbnf/parser")),
 dict(id="C22-grandparent", property="C22", pkg="wbnf",
  edits=[(PP, "			// must be from the previous scope, add it to the previous scopes cache\n			for _, rulePtr := range rulePtrs {\n				c.registerRule(rulePtr)", "			// must be from the previous scope, add it to the previous scopes cache\n			for _, rulePtr := range rulePtrs {\n				if _, has := c.grammar[rule]; !has {\n					continue\n				}\n				c.registerRule(rulePtr)")],
  needs="a reference two grammars deep to a rule of the outermost grammar",
  breaks="the reference stays unbound",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	inner := parser.ScopedGrammar{Term: parser.Seq{parser.Rule("c"), parser.Rule("z")}, Grammar: parser.Grammar{"c": parser.S("c")}}
	p := parser.Grammar{
		"a": parser.ScopedGrammar{Term: parser.Seq{inner, parser.Rule("b")}, Grammar: parser.Grammar{"b": parser.S("b")}},
		"z": parser.S("z"),
	}.Compile(nil)
	if _, err := p.Parse("a", parser.NewScanner("czb")); err != nil {
		t.Fatal(err)
	}
}''', "github.com/arr-ai/wbnf/parser")),
 dict(id="C23-quant-order", property="C23", pkg="wbnf",
  edits=[("wbnf/compile.go", "		next = gb.buildQuant(quants[len(quants)-1-i], next)", "		q := quants[len(quants)-1-i]\n		if len(quants) > 2 {\n			q = quants[i]\n		}\n		next = gb.buildQuant(q, next)")],
  needs="a term with three quantifiers",
  breaks="they are applied in the wrong order",
  demo=T_('''
func TestZZDemo(t *testing.T) {
	d := MustCompile(`a -> "x"{2,}{3,}{4,};`, nil).Grammar()["a"]
	e := MustCompile(`a -> (("x"{4,}){3,}){2,};`, nil).Grammar()["a"]
	if d.String() != e.String() {
		t.Fatal(d)
	}
}''')),

 dict(id="C11-stack-sorted", property="C11", pkg="cmd/codegen",
  edits=[(CG, """			for i := 1; ; i++ {
				stackname := fmt.Sprintf("%s@%d", rule, i)
				if node, ok := rules[stackname]; ok {
					stack.Add(node)
					delete(rules, stackname)
				} else {
					break
				}
			}
""", """			for _, stackname := range keys {
				if strings.HasPrefix(stackname, rule+parser.StackDelim) {
					stack.Add(rules[stackname])
					delete(rules, stackname)
				}
			}
""")],
  needs="a stack of more than ten levels",
  breaks="its levels are written in the order of their names, in which 10 comes before 2",
  demo=T_(GEN + """
func TestZZDemo(t *testing.T) {
	s := parser.Stack{}
	for i := 0; i < 12; i++ {
		s = append(s, parser.Delim{Term: parser.At, Sep: parser.S(fmt.Sprint("op", i))})
	}
	check(t, parser.Grammar{"e": append(s, parser.RE("[0-9]+"))})
}""", GENI, "codegen")),
 dict(id="C11-delim-one-flag", property="C11", pkg="cmd/codegen",
  edits=[(CG, """			node.Add(stringNode("CanStartWithSep: true"))
		}
		if t.CanEndWithSep {
""", """			node.Add(stringNode("CanStartWithSep: true"))
		} else if t.CanEndWithSep {
""")],
  needs="a list that may both start and end with its separator",
  breaks="the generated grammar no longer allows the separator at the end",
  demo=T_(GEN + """
func TestZZDemo(t *testing.T) {
	check(t, parser.Grammar{"e": parser.Delim{Term: parser.RE("[0-9]+"), Sep: parser.S(","), CanStartWithSep: true, CanEndWithSep: true}})
}""", GENI, "codegen")),
 dict(id="C11-some-min", property="C11", pkg="cmd/codegen",
  edits=[(CG, "		if t.Min == 0 && t.Max == 0 {", "		if t.Min <= 0 && t.Max <= t.Min {"), (CG, "		} else if t.Min == 1 && t.Max == 0 {", "		} else if t.Min >= 1 && t.Max < t.Min {")],
  needs="a repetition without maximum and a minimum of two or more",
  breaks="the minimum is written as one",
  demo=T_(GEN + """
func TestZZDemo(t *testing.T) {
	check(t, parser.Grammar{"e": parser.Seq{parser.Quant{Term: parser.S("x"), Min: 2}, parser.S("y")}})
}""", GENI, "codegen")),

 dict(id="C13-leaf-abort", property="C13", pkg="cmd/codegen",
  edits=[("cmd/codegen/walkerinterface.go", """				if s.ExitNode() { return nil } else if s.Abort() { return s} } 
			}
""", """				if s.ExitNode() { return nil } else if s.Abort() { return nil } } 
			}
""")],
  needs="a walk over generated types whose callback aborts at one of several leaves of a kind",
  breaks="the walk of that parent goes on behind the leaf, and the request to abort is lost",
  demo=T_(GEN2 + """
func TestZZDemo(t *testing.T) {
	walks(t, `single -> leaf+ other?; leaf -> "x"; other -> "y";`, `
	n := 0
	tree, err := ParseString("xxx")
	if err != nil {
		panic(err)
	}
	s := WalkerOps{EnterLeafNode: func(LeafNode) Stopper { n++; return Aborter }}.Walk(tree)
	if n != 1 || s == nil || !s.Abort() {
		panic("not aborted")
	}`)
}""", GENI2, "codegen")),
 dict(id="C13-nested-abort", property="C13", pkg="wbnf",
  edits=[("wbnf/wbnfgrammar.go", """	for _, child := range node.AllGrammar() {
		if s := w.WalkGrammarNode(child); s != nil {
			if s.ExitNode() {
				return nil
			} else if s.Abort() {
				return s
			}
		}
	}
""", """	for _, child := range node.AllGrammar() {
		if s := w.WalkGrammarNode(child); s != nil {
			if s.ExitNode() || s.Abort() {
				return nil
			}
		}
	}
""")],
  needs="a callback that aborts inside a scoped grammar",
  breaks="the walk goes on behind the term that holds the scoped grammar",
  demo=T_("""
func TestZZDemo(t *testing.T) {
	tree, err := ParseString(`a -> b { b -> "x"; }; c -> "y";`)
	if err != nil {
		t.Fatal(err)
	}
	var seen []string
	s := WalkerOps{EnterStrNode: func(n StrNode) Stopper {
		seen = append(seen, n.String())
		return Aborter
	}}.Walk(tree)
	if len(seen) != 1 || s == nil || !s.Abort() {
		t.Fatal(seen, s)
	}
}""")),
 dict(id="C13-self-missed", property="C13", pkg="cmd/codegen",
  edits=[("cmd/codegen/walkerinterface.go", """		if funcs != nil {
			walker""", """		if funcs != nil && (funcs.isMany || funcs.getter+"Node" != GoTypeName(t.TypeName())) {
			walker""")],
  needs="a type with at most one child of its own name",
  breaks="the generated walk does not go down into that child",
  demo=T_(GEN2 + """
func TestZZDemo(t *testing.T) {
	walks(t, `single -> chain; chain -> "(" name chain? ")"; name -> /{[a-z]+};`, `
	n := 0
	tree, err := ParseString("(a(b(c)))")
	if err != nil {
		panic(err)
	}
	WalkerOps{EnterNameNode: func(NameNode) Stopper { n++; return nil }}.Walk(tree)
	if n != 3 {
		panic(n)
	}`)
}""", GENI2, "codegen")),

 dict(id="C24-longer-list", property="C24", pkg="ast",
  edits=[("ast/node.go", "				if len(v) != len(otherNodes) {", "				if len(v) > len(otherNodes) {")],
  needs="two nodes that agree except that the second has more children of one name",
  breaks="they compare as equal, in one direction only",
  demo=T_("""
func TestZZDemo(t *testing.T) {
	leaf := func(s string) Node { return Leaf(*parser.NewScanner(s)) }
	a, b := Branch{"x": Many{leaf("1"), leaf("2")}}, Branch{"x": Many{leaf("1"), leaf("2"), leaf("3")}}
	if a.ContentEquals(b) || b.ContentEquals(a) {
		t.Fatal("equal")
	}
}""", "github.com/arr-ai/wbnf/parser", "ast")),
 dict(id="C24-which-unnamed", property="C24", pkg="ast",
  edits=[("ast/helpers.go", """		if children, has := b[name]; has {
""", """		children, has := b[name]
		if many, ok := children.(Many); ok {
			has = len(many) > 1
		}
		if has {
""")],
  needs="a name under which exactly one child is kept as a list",
  breaks="the name is passed over and a later one, or none, is reported",
  demo=T_("""
func TestZZDemo(t *testing.T) {
	b := Branch{"x": Many{Leaf(*parser.NewScanner("1"))}, "y": One{Leaf(*parser.NewScanner("2"))}}
	if name, _ := Which(b, "x", "y"); name != "x" {
		t.Fatal(name)
	}
}""", "github.com/arr-ai/wbnf/parser", "ast")),
]
