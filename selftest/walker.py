W="wbnf/wbnfgrammar.go"; V="cmd/codegen/walkerinterface.go"; T="cmd/codegen/types.go"; P="cmd/codegen/template.go"
src=open("/repo/"+W).read()
def fn(name):
    i=src.index("func (w WalkerOps) "+name+"("); return src[i:src.index("\n}\n",i)+3]
def w(name,*p):
    f=fn(name); g=f
    for a,b in p:
        assert g.count(a)>=1,(name,a)
        g=g.replace(a,b)
    return [(W,f,g)]
def w1(name,a,b):
    f=fn(name); assert a in f,(name,a); return [(W,f,f.replace(a,b,1))]
def wl(name,a,b):
    f=fn(name); i=f.rindex(a); return [(W,f,f[:i]+b+f[i+len(a):])]
def acc(sig,a,b):
    i=src.index("func (c "+sig); f=src[i:src.index("\n}\n",i)+3]; assert a in f,(sig,a); return [(W,f,f.replace(a,b,1))]
def v(*p): return [(V,a,b) for a,b in p]
def t(*p): return [(T,a,b) for a,b in p]
CH="""	for _, child := range node.AllQuant() {
		if s := w.WalkQuantNode(child); s != nil {
			if s.ExitNode() {
				return nil
			} else if s.Abort() {
				return s
			}
		}
	}
"""
M=[
("abort lost", wl("WalkTermNode","return s\n			}\n		}\n	}\n\n","return nil\n			}\n		}\n	}\n\n")),
("abort on exit lost", wl("WalkGrammarNode","s != nil && s.Abort()","s != nil && s.ExitNode()")),
("exit result lost", wl("WalkGrammarNode","			return s\n","			return nil\n")),
("kind missing", w("WalkTermNode",(CH,""))),
("kind twice", w("WalkTermNode",(CH,CH+CH))),
("only first", w("WalkTermNode",("child := range node.AllQuant() {","child := range node.AllQuant()[:1] {"))),
("skip first", w("WalkTermNode",("child := range node.AllQuant() {","child := range node.AllQuant()[1:] {"))),
("wrong enter", w("WalkNamedNode",("w.EnterIdentNode","w.EnterIdentNode; w.EnterIntNode != nil || fn != nil && w.EnterIdentNode == nil { return nil } else if fn := w.EnterIdentNode"))),
("early if unset", w1("WalkNamedNode","	if fn := w.EnterNamedNode; fn != nil {","	if w.EnterNamedNode == nil && w.ExitNamedNode == nil {\n		return nil\n	}\n	if fn := w.EnterNamedNode; fn != nil {")),
("abort as exit", w1("WalkNamedNode","			} else if s.Abort() {\n				return s","			} else if s.Abort() {\n				return nil")),
("exit continues", w1("WalkNamedNode","			if s.ExitNode() {\n				return nil","			if s.ExitNode() {\n				return s")),
("ignore enter", w1("WalkNamedNode","				return nil\n			} else if s.Abort() {\n","				_ = s\n			} else if s.Abort() {\n")),
("exit before", [(W,fn("WalkGrammarNode"),fn("WalkGrammarNode").replace("\n	if fn := w.ExitGrammarNode; fn != nil {\n		if s := fn(node); s != nil && s.Abort() {\n			return s\n		}\n	}\n","").replace("	for _, child := range node.AllStmt","	if fn := w.ExitGrammarNode; fn != nil {\n		if s := fn(node); s != nil && s.Abort() {\n			return s\n		}\n	}\n	for _, child := range node.AllStmt"))]),
("dispatch", w1("Walk","return w.WalkGrammarNode(node)","return w.WalkStmtNode(StmtNode{node.Node})")),
("dispatch dropped", w1("Walk","		return w.WalkGrammarNode(node)\n","		if fn := w.EnterGrammarNode; fn != nil {\n			return fn(node)\n		}\n")),
("accessor other name", acc("TermNode) AllQuant",'"quant"','"named"')),
("accessor partial", acc("TermNode) AllQuant","range ast.All(","range ast.All(")+[] if False else acc("TermNode) AllQuant","	return out","	if len(out) > 2 {\n		return out[:2]\n	}\n	return out")),
("accessor one", acc("NamedNode) OneAtom",'"atom"','"ident"')),
("exiter aborts", [(W,"func (n *nodeExiter) Abort() bool    { return false }","func (n *nodeExiter) Abort() bool    { return true }"),(W,"func (n *nodeExiter) ExitNode() bool { return true }","func (n *nodeExiter) ExitNode() bool { return false }")]),
("vars swapped", [(W,"NodeExiter = &nodeExiter{}\n","NodeExiter = &aborter{}\n")]),
("gen vars swapped", [(P,"NodeExiter = &nodeExiter{}\n","NodeExiter = &aborter{}\n")]),
("gen aborter false", [(P,"func (n *aborter) Abort() bool { return true }","func (n *aborter) Abort() bool {return false }")] if "func (n *aborter) Abort() bool {return true }" in open("/repo/"+P).read() else []),
("gen abort lost", v(("if s.ExitNode() { return nil } else if s.Abort() { return s} } }`+\"\\n\", funcs.walker)\n	} else","if s.ExitNode() || s.Abort() { return nil } } }`+\"\\n\", funcs.walker)\n	} else"))),
("gen leaf abort lost", v(("				if s.ExitNode() { return nil } else if s.Abort() { return s} } \n			}\n","				if s.ExitNode() || s.Abort() { return nil } } \n			}\n"))),
("gen many is one", v(("	if funcs.isMany {","	if funcs.isMany && isWalker {"))),
("gen stack skipped", v(("			walker += getWalkerFuncs(funcs, true)\n			continue\n		}\n		if","			continue\n		}\n		if"))),
("gen leaf stops", v(("					walker += getWalkerFuncs(funcs, false)\n					continue\n","					walker += getWalkerFuncs(funcs, false)\n					break\n"))),
("gen no exit", v(("if s := fn(node); s != nil && s.Abort() { return s } }\n","fn(node) }\n"))),
("gen leaf dispatch", v(("if fn := w.Enter%s; fn != nil { return fn(node) }","if fn := w.Enter%s; fn != nil { fn(node) }"))),
("gen single child", v(("	for _, child := range t.Children() {","	for i, child := range t.Children() {\n		if i > 0 && child.Ident() == t.Children()[i-1].Ident() {\n			continue\n		}"))),
("gen self skipped", v(("		if funcs != nil {","		if funcs != nil && funcs.walker != GoTypeName(t.TypeName()) {"))),
("gen isMany", t(("isMany: t.count.wantAll()}","isMany: !t.count.wantOne()}"))),
("gen isMany true", t(("isMany: t.count.wantAll()}","isMany: true}"))),
("gen accessor name", t(("""		"{{name}}", IdentName(t.name),
	)
	out := ""
	if t.count.wantOne() {
		out += replacer.Replace(`
func (c {{parent}}) One{{child}}()""","""		"{{name}}", IdentName(t.returnType),
	)
	out := ""
	if t.count.wantOne() {
		out += replacer.Replace(`
func (c {{parent}}) One{{child}}()"""))),
("gen stack one", t(("		count:      countManager{int: wantAllGetter},","		count:      countManager{int: wantOneGetter},"))),
# must stay quiet
("=var loop", w1("WalkTermNode","	for _, child := range node.AllQuant() {","	quants := node.AllQuant()\n	for i := 0; i < len(quants); i++ {\n		child := quants[i]")),
("=nested", w1("WalkNamedNode","			if s.ExitNode() {\n				return nil\n			} else if s.Abort() {\n				return s\n			}\n","			switch {\n			case s.ExitNode():\n				return nil\n			case s.Abort():\n				return s\n			}\n")),
("=helper", [(W,fn("WalkGrammarNode"),fn("WalkGrammarNode").replace("		if s := w.WalkStmtNode(child); s != nil {\n			if s.ExitNode() {\n				return nil\n			} else if s.Abort() {\n				return s\n			}\n		}\n","		if s, stop := stopped(w.WalkStmtNode(child)); stop {\n			return s\n		}\n")+"""
func stopped(s Stopper) (Stopper, bool) {
	if s == nil {
		return nil, false
	}
	if s.ExitNode() {
		return nil, true
	}
	return s, s.Abort()
}
""")]),
("=order of kinds", w("WalkTermNode",(CH,""))[:0]+[(W,fn("WalkTermNode"),(lambda f: f.replace(CH,"").replace("	if child := node.OneNamed()",CH+"	if child := node.OneNamed()"))(fn("WalkTermNode")))]),
("=accessor", acc("TermNode) AllQuant","	return out","	if len(out) == 0 {\n		return nil\n	}\n	return out")),
("=gen sprintf", v(("		walker += fmt.Sprintf(\"for _, child := range node.All%s() {\\n\", funcs.getter)","		walker += \"for _, child := range node.All\" + funcs.getter + \"() {\\n\""))),
("=gen switch", v(("if s.ExitNode() { return nil } else if s.Abort() { return s} } }`+\"\\n\", funcs.walker)\n	} else","if s.ExitNode() { return nil }; if s.Abort() { return s} } }`+\"\\n\", funcs.walker)\n	} else"))),
("=gen builder", v(("	for _, child := range t.Children() {","	children := t.Children()\n	for i := range children {\n		child := children[i]"))),
("=gen count", t(("isMany: t.count.wantAll()}","isMany: t.count.int != 0 && t.count.wantAll()}"))),
]
