C="ast/counter.go"; F="ast/from_parsernode.go"; T="ast/to_parsernode.go"; N="ast/node.go"
def c(*p): return [(C,a,b) for a,b in p]
def f(*p): return [(F,a,b) for a,b in p]
def t(*p): return [(T,a,b) for a,b in p]
M=[
# counting
("union min hi", c(("if c.hi < d.hi {","if c.hi > d.hi {"))),
("union keeps hi", c(("	if c.hi < d.hi {\n		c.hi = d.hi\n	}\n",""))),
("sep at most once", c(("parent.mul(zeroOrMore)","parent.mul(zeroOrOne)"))),
("term of list once", c(("		ctrs.termCountChildren(t.Term, parent.mul(oneOrMore))\n		ctrs.termCountChildren(t.Sep","		ctrs.termCountChildren(t.Term, parent)\n		ctrs.termCountChildren(t.Sep"))),
("list ignores parent", c(("		ctrs.termCountChildren(t.Sep, parent.mul(zeroOrMore))","		ctrs.termCountChildren(t.Sep, parent)"))),
("unbounded quant as zero", c(("	if max == 0 {\n		max = 2\n	}\n",""))),
("quant max 1", c(("		max = 2\n","		max = 1\n"))),
("quant swaps", c(("newCounter(q.Min, max)","newCounter(max, q.Min)"))),
("quant ignores parent", c(("parent.mul(newCounterFromQuant(t))","newCounterFromQuant(t)"))),
("ref once", c(("ctrs.count(t.Ident, parent.mul(oneOrMore))","ctrs.count(t.Ident, parent)"))),
("oneof first only", c(("			ds.union(newCounters(child))\n","			ds.union(newCounters(child))\n			break\n"))),
("oneof ignores parent", c(("		ctrs.mul(ds, parent)","		ctrs.mul(ds, oneOne)"))),
("count replaces", c(("ctrs[name] = ctrs[name].add(c)","ctrs[name] = c"))),
("count keeps hi", c(("hi: c.hi + d.hi}","hi: d.hi}"))),
("mul adds", c(("lo: c.lo * d.lo, hi: c.hi * d.hi","lo: c.lo * d.lo, hi: d.hi"))),
("leveled", c(("		name, _ := unlevel(string(t), nil)\n","		name := string(t)\n"))),
("named counts inner", c(("		ctrs.count(t.Name, parent)\n","		ctrs.termCountChildren(t.Term, parent)\n"))),
("extref not counted", c(("	case parser.ExtRef:\n		ctrs.count(string(t), parent)","	case parser.ExtRef:"))),
("seq skips last", c(("		for _, child := range t {\n			ctrs.termCountChildren(child, parent)","		for i, child := range t {\n			if i > 1 {\n				break\n			}\n			ctrs.termCountChildren(child, parent)"))),
("seq union", c(("		for _, child := range t {\n			ctrs.termCountChildren(child, parent)\n		}","		for _, child := range t {\n			ctrs.union(newCounters(child))\n		}"))),
("lookahead not counted", c(("	case parser.LookAhead:\n		ctrs.termCountChildren(t.Term, parent)","	case parser.LookAhead:"))),
("cutpoint optional", c(("	case parser.CutPoint:\n		ctrs.termCountChildren(t.Term, parent)","	case parser.CutPoint:\n		ctrs.termCountChildren(t.Term, parent.mul(counter{}))"))),
("whole zero", c(("result.termCountChildren(t, oneOne)","result.termCountChildren(t, zeroOrOne.mul(counter{}))"))),
("big const", c(("zeroOrMore = newCounter(0, 2)","zeroOrMore = newCounter(0, 1)"))),
# filing
("add one for many", f(("	case zeroOrOne, oneOne:","	case zeroOrOne, oneOne, oneOrMore:"))),
("add many for optional", f(("	case zeroOrOne, oneOne:","	case oneOne:"))),
("one overwrites", f(("	if _, has := b[name]; has {\n		panic(errors.Inconceivable)\n	}\n	b[name] = One","	b[name] = One"))),
("many prepends", f(("append(many.(Many), node)","append(Many{node}, many.(Many)...)"))),
("many replaces", f(("		b[name] = append(many.(Many), node)","		b[name] = append(many.(Many)[:0:0], node)"))),
("pull one for many", t(("	case zeroOrOne, oneOne:","	case zeroOrOne, oneOne, oneOrMore:"))),
("pull many for opt", t(("	case zeroOrOne, oneOne:","	case oneOne:"))),
("pull last", t(("			result := many[0]\n			if len(many) > 1 {\n				b[name] = many[1:]","			result := many[len(many)-1]\n			if len(many) > 1 {\n				b[name] = many[:len(many)-1]"))),
("pull keeps", t(("				delete(b, name)\n			}\n			return result","			}\n			return result"))),
("pull one keeps", t(("		delete(b, name)\n		return child","		return child"))),
# converting
("seq wrong term", f(("b.fromParserNode(g, t[i], ctrs, child)","b.fromParserNode(g, t[i/2], ctrs, child)"))),
("seq skips empty", f(("			b.fromParserNode(g, t[i], ctrs, child)","			if _, ok := child.(parser.Empty); ok {\n				continue\n			}\n			b.fromParserNode(g, t[i], ctrs, child)"))),
("quant first only", f(("	case parser.Quant:\n		node := e.(parser.Node)\n		for _, child := range node.Children {\n			b.fromParserNode(g, t.Term, ctrs, child)","	case parser.Quant:\n		node := e.(parser.Node)\n		for i, child := range node.Children {\n			if t.Max > 0 && i >= t.Max {\n				break\n			}\n			b.fromParserNode(g, t.Term, ctrs, child)"))),
("choice not filed", f(("		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})\n",""))),
("choice after", f(("		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})\n		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])","		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])\n		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})"))),
("choice once", f(("		b.many(ChoiceTag, Extra{","		b.one(ChoiceTag, Extra{"))),
("named by term", f(("b.add(t.Name, node, ctrs[t.Name])","b.add(t.Name, node, childCtrs[t.Name])"))),
("named outer counts", f(("		childCtrs := newCounters(t.Term)\n		b2 := Branch{}\n		b2.fromParserNode(g, t.Term, childCtrs, e)\n		var node Node = b2\n		// if name := childCtrs.singular(); name != nil {\n		// 	node = b2[*name].(One).Node\n		// 	// TODO: zeroOrOne\n		// }\n		b.add(t","		b2 := Branch{}\n		b2.fromParserNode(g, t.Term, ctrs, e)\n		var node Node = b2\n		b.add(t"))),
("rule outer count", f(("		childCtrs := newCounters(rule)\n","		childCtrs := ctrs\n"))),
("rule leveled name", f(("b.add(unleveled, node, ctrs[unleveled])","b.add(unleveled, node, ctrs[string(t)])"))),
("scoped outer rules", f(("b.fromParserNode(gcopy, t.Term","_ = gcopy\n		b.fromParserNode(g, t.Term"))),
("sep as term", f(("					b.fromParserNode(g, lrTerm, ctrs, child)","					b.fromParserNode(g, t.Term, ctrs, child)"))),
("empty dropped", f(("				b.many(\"@empty\", ","				_ = (Branch{}).getMany; b.many(\"@blank\", "))) if False else ("empty prefix swapped", f(("true: \"@prefix\", false: \"@suffix\"","true: \"@suffix\", false: \"@prefix\""))),
("empty eats term", f(("			lrTerm := tgen.Next()\n			if _, ok := child.(parser.Empty); ok {","			if _, ok := child.(parser.Empty); ok {"),("			} else {\n				// An assoc","			} else {\n				lrTerm := tgen.Next()\n				// An assoc"))),
("assoc any node", f(("; ok && sub.Tag == node.Tag && sub.Extra == node.Extra {","; ok && sub.Tag == node.Tag {"))),
("assoc wrong end", f(("if assoc > 0 && i == 0 || assoc < 0 &&","if assoc < 0 && i == 0 || assoc > 0 &&"))),
("whole no rule", f(("	result.one(\"@rule\", Extra{rule})\n","	result.one(\"@rules\", Extra{rule})\n"))),
("ref leaf other name", f(("b.add(t.Ident, Leaf(e), ctrs[t.Ident])","b.add(\"\", Leaf(e), ctrs[t.Ident])"))),
("extref dropped if filed", f(("				b.add(ident, b2, ctrs[ident])","				if _, has := b[ident]; !has {\n					b.add(ident, b2, ctrs[ident])\n				}"))),
("cutpoint fresh counts", f(("	case parser.CutPoint:\n		b.fromParserNode(g, t.Term, ctrs, e)","	case parser.CutPoint:\n		b.fromParserNode(g, t.Term, newCounters(t.Term), e)"))),
# back
("back token name", t(("b.pull(\"\", ctrs[\"\"])","b.pull(\"\", oneOne)"))),
("back rule own count", t(("b.pull(unleveled, ctrs[unleveled])","b.pull(unleveled, ctrs[name])"))),
("back rule raw name", t(("b.pull(unleveled, ctrs[unleveled])","b.pull(name, ctrs[unleveled])"))),
("back named counts", t(("b.pull(t.Name, ctrs[t.Name])","b.pull(t.Name, childCtrs[t.Name])"))),
("back named inner counts", t(("node.toParserNode(g, t.Term, childCtrs)","node.toParserNode(g, t.Term, ctrs.orSo(childCtrs))"),("func expandNode","func (c counters) orSo(counters) counters { return c }\n\nfunc expandNode"))),
("back choice peek", t(("b.pullFromMany(ChoiceTag)","b.pullFromOne(ChoiceTag)"))),
("back choice next", t(("b.toParserNode(g, t[extra], ctrs)","b.toParserNode(g, t[len(t)-1], ctrs)"))),
("back seq drops nil", t(("			} else {\n				return nil\n			}\n		}\n		return result\n	case parser.Oneof","			}\n		}\n		return result\n	case parser.Oneof"))),
("back quant one more", t(("for i := 1; !t.Max","for i := 0; !t.Max"))),
("back quant one less", t(("for i := 1; !t.Max","for i := 2; !t.Max"))),
("back scoped", t(("return b.toParserNode(gcopy, t.Term, ctrs)","_ = gcopy\n		return b.toParserNode(g, t.Term, ctrs)"))),
("scoped drops outer", t(("		gcopy := scopedGrammar(g, t.Grammar)","		gcopy := scopedGrammar(t.Grammar, g)"))),
# refactorings
("=counter ge2", f(("	switch ctr {\n	case counter{}:\n		panic(errors.Inconceivable)\n	case zeroOrOne, oneOne:\n		b.one(name, node)\n	default:\n		b.many(name, node)\n	}","	if ctr.hi == 0 {\n		panic(errors.Inconceivable)\n	}\n	if ctr.hi == 1 {\n		b.one(name, node)\n		return\n	}\n	b.many(name, node)"))),
("=pull if", t(("	switch ctr {\n	case counter{}:\n		panic(errors.Inconceivable)\n	case zeroOrOne, oneOne:\n		return b.pullFromOne(name)\n	default:\n		return b.pullFromMany(name)\n	}","	if ctr.hi == 0 {\n		panic(errors.Inconceivable)\n	}\n	if ctr.hi == 1 {\n		return b.pullFromOne(name)\n	}\n	return b.pullFromMany(name)"))),
("=single method", c(("func (c counter) String","func (c counter) single() bool { return c == zeroOrOne || c == oneOne }\n\nfunc (c counter) String"))+f(("	switch ctr {\n	case counter{}:\n		panic(errors.Inconceivable)\n	case zeroOrOne, oneOne:\n","	switch {\n	case ctr == counter{}:\n		panic(errors.Inconceivable)\n	case ctr.single():\n"))+t(("	switch ctr {\n	case counter{}:\n		panic(errors.Inconceivable)\n	case zeroOrOne, oneOne:\n","	switch {\n	case ctr == counter{}:\n		panic(errors.Inconceivable)\n	case ctr.single():\n"))),
("=many early", f(("	if many, has := b[name]; has {\n		b[name] = append(many.(Many), node)\n	} else {\n		b[name] = Many([]Node{node})\n	}","	many, has := b[name]\n	if !has {\n		b[name] = Many{node}\n		return\n	}\n	b[name] = append(many.(Many), node)"))),
("=many nil append", f(("	if many, has := b[name]; has {\n		b[name] = append(many.(Many), node)\n	} else {\n		b[name] = Many([]Node{node})\n	}","	var list Many\n	if many, has := b[name]; has {\n		list = many.(Many)\n	}\n	list = append(list, node)\n	b[name] = list"))),
("=index loop", f(("		for i, child := range node.Children {\n			b.fromParserNode(g, t[i], ctrs, child)","		for i := 0; i < len(node.Children); i++ {\n			b.fromParserNode(g, t[i], ctrs, node.Children[i])"))),
("=range terms", f(("		for i, child := range node.Children {\n			b.fromParserNode(g, t[i], ctrs, child)","		for i, term := range t {\n			b.fromParserNode(g, term, ctrs, node.Children[i])"))),
("=helper children", f(("	case parser.Quant:\n		node := e.(parser.Node)\n		for _, child := range node.Children {\n			b.fromParserNode(g, t.Term, ctrs, child)\n		}","	case parser.Quant:\n		b.fromAll(g, t.Term, ctrs, e.(parser.Node).Children)"),("func (b Branch) inc(","func (b Branch) fromAll(g parser.Grammar, t parser.Term, ctrs counters, es []parser.TreeElement) {\n	for _, e := range es {\n		b.fromParserNode(g, t, ctrs, e)\n	}\n}\n\nfunc (b Branch) inc("))),
("=helper named", f(("		childCtrs := newCounters(t.Term)\n		b2 := Branch{}\n		b2.fromParserNode(g, t.Term, childCtrs, e)\n		var node Node = b2\n		// if name := childCtrs.singular(); name != nil {\n		// 	node = b2[*name].(One).Node\n		// 	// TODO: zeroOrOne\n		// }\n		b.add(t.Name, node,","		b.add(t.Name, newBranch(g, t.Term, e),"),("func (b Branch) inc(","func newBranch(g parser.Grammar, t parser.Term, e parser.TreeElement) Branch {\n	b := Branch{}\n	b.fromParserNode(g, t, newCounters(t), e)\n	return b\n}\n\nfunc (b Branch) inc("))),
("=choice var", f(("		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})\n		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])","		choice := node.Extra.(parser.Choice)\n		b.many(ChoiceTag, Extra{Data: choice})\n		b.fromParserNode(g, t[choice], ctrs, node.Children[0])"))),
("=delim flat", f(("			if _, ok := child.(parser.Empty); ok {\n				b.many(\"@empty\", Extra{map[bool]string{true: \"@prefix\", false: \"@suffix\"}[i == 0]})\n			} else {","			if _, ok := child.(parser.Empty); ok {\n				where := \"@suffix\"\n				if i == 0 {\n					where = \"@prefix\"\n				}\n				b.many(\"@empty\", Extra{where})\n			} else {"))),
("=delim nests var", f(("				if assoc > 0 && i == 0 || assoc < 0 && i == len(node.Children)-1 {\n					if sub","				nests := assoc > 0 && i == 0\n				if assoc < 0 {\n					nests = i == len(node.Children)-1\n				}\n				if nests {\n					if sub"))),
("=count inline", c(("	ctrs[name] = ctrs[name].add(c)","	old := ctrs[name]\n	ctrs[name] = newCounter(old.lo+c.lo, old.hi+c.hi)"))),
("=saturate", c(("	return counter{lo: c.lo + d.lo, hi: c.hi + d.hi}","	r := counter{lo: c.lo + d.lo, hi: c.hi + d.hi}\n	if r.hi > 2 {\n		r.hi = 2\n	}\n	if r.lo > 1 {\n		r.lo = 1\n	}\n	return r"))),
("=union max", c(("	if c.lo > d.lo {\n		c.lo = d.lo\n	}\n	if c.hi < d.hi {\n		c.hi = d.hi\n	}\n	return c","	r := d\n	if c.lo < r.lo {\n		r.lo = c.lo\n	}\n	if c.hi > r.hi {\n		r.hi = c.hi\n	}\n	return r"))),
("=merged cases", c(("	case parser.CutPoint:\n		ctrs.termCountChildren(t.Term, parent)\n	case parser.LookAhead:\n		ctrs.termCountChildren(t.Term, parent)","	case parser.LookAhead:\n		ctrs.termCountChildren(t.Term, parent)\n	case parser.CutPoint:\n		inner := t.Term\n		ctrs.termCountChildren(inner, parent)"))),
("=pull early", t(("	if node, has := b[name]; has {\n		many := node.(Many)\n		if len(many) > 0 {\n			result := many[0]\n			if len(many) > 1 {\n				b[name] = many[1:]\n			} else {\n				delete(b, name)\n			}\n			return result\n		}\n	}\n	return nil","	node, has := b[name]\n	if !has {\n		return nil\n	}\n	many := node.(Many)\n	if len(many) == 0 {\n		return nil\n	}\n	if len(many) == 1 {\n		delete(b, name)\n	} else {\n		b[name] = many[1:]\n	}\n	return many[0]"))),
("=back seq early", t(("			if node := b.toParserNode(g, child, ctrs); node != nil {\n				result.Children = append(result.Children, node)\n			} else {\n				return nil\n			}","			node := b.toParserNode(g, child, ctrs)\n			if node == nil {\n				return nil\n			}\n			result.Children = append(result.Children, node)"))),
("=back quant", t(("		for i := 1; !t.MaxLessThan(i); i++ {\n			if v := b.toParserNode(g, t.Term, ctrs); v != nil {\n				result.Children = append(result.Children, v)\n			} else {\n				break\n			}\n		}","		for !t.MaxLessThan(len(result.Children) + 1) {\n			v := b.toParserNode(g, t.Term, ctrs)\n			if v == nil {\n				break\n			}\n			result.Children = append(result.Children, v)\n		}"))),
("=back helper", t(("			switch node := node.(type) {\n			case Branch:\n				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))\n			case Leaf:\n				return parser.Scanner(node)\n			default:\n				panic(fmt.Errorf(\"wrong node type: %v\", node))\n			}","			return sub(g, t.Term, node, t.Name, childCtrs)"),("func (b Branch) pull(","func sub(g parser.Grammar, t parser.Term, node Node, name string, ctrs counters) parser.TreeElement {\n	switch node := node.(type) {\n	case Branch:\n		return relabelNode(name, node.toParserNode(g, t, ctrs))\n	case Leaf:\n		return parser.Scanner(node)\n	}\n	panic(fmt.Errorf(\"wrong node type: %v\", node))\n}\n\nfunc (b Branch) pull("))),
("=nop", f(("	var tag string\n","	var tag string\n	_ = len(ctrs)\n"))+c(("	switch t := term.(type) {\n	case parser.S","	_ = parent\n	switch t := term.(type) {\n	case parser.S"))),
]
