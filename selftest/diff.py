D = "parser/diff/terms.go"; N = "parser/diff/nodes.go"
M = [
 ("cutpoint self", [(D, "return Terms(a.Term, b.(parser.CutPoint).Term)", "return Terms(a.Term, a.Term)")]),
 ("lookahead self", [(D, "return Terms(a.Term, b.(parser.LookAhead).Term)", "return Terms(a.Term, a.Term)")]),
 ("extref swapped", [(D, "diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))", "diffSes(parser.S(string(b.(parser.ExtRef))), parser.S(string(a)))")]),
 ("ref default presence", [(D, "return d.A.Default == nil && d.B.Default == nil", "return true")]),
 ("ref ident only", [(D, "		return Terms(d.A.Default, d.B.Default).Equal()\n", "		return true\n")]),
 ("len dropped", [(D, "	return d.Len.Equal() && d.Terms == nil\n", "	return d.Terms == nil\n")]),
 ("terms overwritten", [(D, "			tsd.Terms = append(tsd.Terms, td)\n", "			tsd.Terms = nil\n")]),
 ("skip first", [(D, "	for i, term := range a {\n		if td", "	for i, term := range a {\n		if i == 0 && len(a) > 2 {\n			continue\n		}\n		if td")]),
 ("skip fourth", [(D, "	for i, term := range a {\n		if td", "	for i, term := range a {\n		if i == 3 {\n			break\n		}\n		if td")]),
 ("delim assoc", [(D, "		d.Assoc.Equal() &&\n", "")]),
 ("delim canend self", [(D, "diffInterfaces(a.CanEndWithSep, b.CanEndWithSep)", "diffInterfaces(a.CanEndWithSep, a.CanEndWithSep)")]),
 ("delim canend cross", [(D, "diffInterfaces(a.CanEndWithSep, b.CanEndWithSep)", "diffInterfaces(a.CanEndWithSep, b.CanStartWithSep)")]),
 ("delim sep term", [(D, "Sep:             Terms(a.Sep, b.Sep),", "Sep:             Terms(a.Sep, b.Term),")]),
 ("quant or", [(D, "return d.Term.Equal() && d.Min.Equal() && d.Max.Equal()", "return d.Term.Equal() && (d.Min.Equal() || d.Max.Equal())")]),
 ("quant max", [(D, "		Max:  diffInterfaces(a.Max, b.Max),\n", "		Max:  diffInterfaces(a.Max, max(a.Max, b.Max)),\n"), (D, "func diffQuants", "func max(a, b int) int {\n	if a > b {\n		return a\n	}\n	return b\n}\n\nfunc diffQuants")]),
 ("named name", [(D, "return d.Name.Equal() && d.Term.Equal()", "return d.Term.Equal()")]),
 ("scoped grammar", [(D, "return d.Term.Equal() && d.Grammar.Equal()", "return d.Term.Equal()")]),
 ("scoped self", [(D, "Grammar: Grammars(a.Grammar, b.Grammar),", "Grammar: Grammars(a.Grammar, a.Grammar),")]),
 ("grammar only in b", [(D, "	return len(d.OnlyInA) == 0 && len(d.OnlyInB) == 0 && len(d.Prods) == 0\n", "	return len(d.OnlyInA) == 0 && len(d.Prods) == 0\n"), (D, "	if diff.Equal() != reflect.DeepEqual(a, b) {", "	if false {")]),
 ("types same name", [(D, "func (d TypesDiffer[T]) Equal() bool {\n	return false\n", "func (d TypesDiffer[T]) Equal() bool {\n	return d.InterfaceDiff.Equal()\n")]),
 ("s fold", [(D, "func (d SDiff) Equal() bool {\n	return d.A == d.B\n", "func (d SDiff) Equal() bool {\n	return strings.EqualFold(string(d.A), string(d.B))\n"), (D, '	"reflect"\n', '	"reflect"\n	"strings"\n')]),
 ("re trim", [(D, "func diffREs(a, b parser.RE) REDiff {\n	return REDiff{A: a, B: b}", "func diffREs(a, b parser.RE) REDiff {\n	if len(a) == len(b) {\n		b = a\n	}\n	return REDiff{A: a, B: b}")]),
 ("node extra", [(N, "		d.A.Extra == d.B.Extra &&\n", "")]),
 ("node types", [(N, "		len(d.Children) == 0 &&\n		len(d.Types) == 0\n", "		len(d.Children) == 0\n")]),
 ("node child self", [(N, "childNodeB := b.Children[i].(parser.Node)", "childNodeB := a.Children[i].(parser.Node)")]),
 ("node count", [(N, "	return len(d.A.Children) == len(d.B.Children) &&\n		d.A.Tag", "	return d.A.Tag")]),
 ("node last child", [(N, "	for i, x := range a.Children[:n] {", "	if n > 2 {\n		n--\n	}\n	for i, x := range a.Children[:n] {")]),
 ("node b swapped", [(N, "		A:        a,\n		B:        b,\n", "		A:        b,\n		B:        a,\n")]),
 ("onlyin swapped", [(D, "			diff.OnlyInA = append(diff.OnlyInA, rule)", "			diff.OnlyInB = append(diff.OnlyInB, rule)")]),
 ("=quant inline", [(D, "	return QuantDiff{\n		Term: Terms(a.Term, b.Term),\n		Min:  diffInterfaces(a.Min, b.Min),\n		Max:  diffInterfaces(a.Max, b.Max),\n	}\n", "	var d QuantDiff\n	d.Max = diffInterfaces(a.Max, b.Max)\n	d.Min = diffInterfaces(a.Min, b.Min)\n	d.Term = Terms(a.Term, b.Term)\n	return d\n")]),
 ("=equal early", [(D, "	return d.Term.Equal() && d.Min.Equal() && d.Max.Equal()\n", "	if !d.Min.Equal() || !d.Max.Equal() {\n		return false\n	}\n	return d.Term.Equal()\n")]),
 ("=ref early", [(D, "	if d.A.Ident == d.B.Ident {\n		if d.A.Default == nil || d.B.Default == nil {\n			return d.A.Default == nil && d.B.Default == nil\n		}\n		return Terms(d.A.Default, d.B.Default).Equal()\n	}\n	return false\n", "	switch {\n	case d.A.Ident != d.B.Ident:\n		return false\n	case d.A.Default == nil:\n		return d.B.Default == nil\n	case d.B.Default == nil:\n		return false\n	}\n	return Terms(d.A.Default, d.B.Default).Equal()\n")]),
 ("=index loop", [(D, "	lenDiff := len(a) - len(b)\n	switch {\n	case lenDiff < 0:\n		b = b[:len(a)]\n	case lenDiff > 0:\n		a = a[:len(b)]\n	}\n\n	for i, term := range a {\n		if td := Terms(term, b[i]); !td.Equal() {\n", "	for i := 0; i < len(a) && i < len(b); i++ {\n		if td := Terms(a[i], b[i]); !td.Equal() {\n")]),
 ("=node loop", [(N, "	n := len(a.Children)\n	if n > len(b.Children) {\n		n = len(b.Children)\n	}\n	for i, x := range a.Children[:n] {\n", "	for i, x := range a.Children {\n		if i >= len(b.Children) {\n			break\n		}\n")]),
 ("=no self check", [(D, "	if diff.Equal() != reflect.DeepEqual(a, b) {", "	if false {")]),
 ("=merge helper", [(D, "	for rule := range b {\n		if _, ok := a[rule]; !ok {\n			diff.OnlyInB = append(diff.OnlyInB, rule)\n		}\n	}\n", "	diff.OnlyInB = missing(b, a)\n"), (D, "func Grammars(", "func missing(a, b parser.Grammar) []parser.Rule {\n	var out []parser.Rule\n	for r := range a {\n		if _, ok := b[r]; ok {\n			continue\n		}\n		out = append(out, r)\n	}\n	return out\n}\n\nfunc Grammars(")]),
]
