package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
	"verif/internal/load"
)

// importScen is a set of files that import each other.
type importScen struct {
	name     string
	resolver bool
	main     []gStmt
	files    map[string][]gStmt
}

func isErrFailure(r *gateRun, o *absint.Outcome) bool { return len(r.logOf(o.St, "failed")) > 0 }

func (m *gateModel) importScen(s importScen) {
	const rule = "C15.imports"
	x := m.exec()
	st := absint.NewState()
	u := m.u
	r := &gateRun{gateModel: m, trees: map[string]*Val{}, files: map[string]string{}}
	x.Hooks.Call = r.hook
	m.text = map[*Val]*Val{}
	r.trees[mainText] = m.tree(st, s.main...)
	var paths []string
	for p := range s.files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		r.trees[p] = m.tree(st, s.files[p]...)
		r.files[p] = p
		st.TS["keep."+p] = r.trees[p]
	}
	st.TS["keep"] = r.trees[mainText]
	// what each tree holds at first, and what it imports
	stmts := map[string][]*Val{}
	reach := map[string]bool{}
	var want []string // (from, path) handed to the resolver
	missing := false
	absent := map[string]bool{}
	var visit func(text, from string)
	visit = func(text, from string) {
		l := r.snapshot(x, st, r.trees[text])
		for l.Op == absint.OIface {
			l = l.Args[0]
		}
		stmts[text] = l.Args
		for _, p := range r.importsOf(x, st, r.trees[text]) {
			to := filepath.Clean(p)
			if s.resolver {
				want = append(want, from+" -> "+p)
				to = filepath.Clean(resolveLike(from, p))
			}
			if r.trees[to] == nil {
				missing = true
				absent[to] = true
				continue
			}
			if !reach[to] {
				reach[to] = true
				visit(to, to)
			}
		}
	}
	visit(mainText, "")
	ps := m.compile.Params
	args := make([]*Val, len(ps))
	for i, p := range ps {
		args[i] = u.Nil(nil)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			args[i] = u.Str(mainText)
		} else if s.resolver {
			args[i] = u.Sym("resolver", p.Type())
			x.Assume(st, x.EqVal(args[i], u.Nil(nil)), false)
		}
	}
	m.c.Check(rule, s.name, missing == strings.Contains(s.name, "missing"), m.compile.Pos(), "the files of this case are not the ones meant")
	good := 0
	ends := x.Run(m.compile, args, st)
	for _, o := range ends {
		say := func(format string, args ...any) { x.Report(o.St, o.Pos, rule, format, args...) }
		if o.Panic != nil {
			say("loading these files panics")
			continue
		}
		isNil, known := x.Decide(o.St, x.EqVal(o.Res[1], u.Nil(nil)))
		if !known {
			say("whether compiling fails is open: %s", show(o.Res[1]))
			continue
		}
		reads := map[string]int{}
		for _, v := range r.logOf(o.St, "read") {
			if p, ok := v.StrConst(); ok {
				reads[filepath.Clean(p)]++
			}
		}
		wrong := false
		for _, v := range r.logOf(o.St, "absent") {
			if p, _ := v.StrConst(); !absent[p] {
				say("%s is read, which nothing imports", p)
				wrong = true
			}
		}
		var got []string
		for _, v := range r.logOf(o.St, "resolved") {
			f, _ := v.Args[0].StrConst()
			p, _ := v.Args[1].StrConst()
			got = append(got, f+" -> "+p)
		}
		if s.resolver {
			for _, g := range got {
				if !contains(want, g) {
					say("the resolver is asked for %s", g)
					wrong = true
				}
			}
		}
		if wrong {
			continue
		}
		if strings.Contains(s.name, "defined twice") {
			if isNil {
				say("a rule that two files define is accepted")
			} else {
				good++
			}
			continue
		}
		if isErrFailure(r, o) || missing {
			if isNil {
				say("compiling succeeds although %s", r.why(o.St, missing))
			} else {
				good++
			}
			continue
		}
		if !isNil {
			say("files that can all be read and parsed do not compile")
			continue
		}
		good++
		for p := range reach {
			if reads[p] != 1 {
				say("%s is imported, but it is never read", p)
			}
		}
		for p := range reads {
			if !reach[p] {
				say("%s is read, which nothing imports", p)
			}
		}
		if s.resolver {
			for _, w := range want {
				if !contains(got, w) {
					say("an import is not resolved against the file it is in: %s among %s", w, strings.Join(got, ", "))
				}
			}
		}
		if why := r.merged(x, o.St, o.Res[0], reach, stmts); why != "" {
			say("%s", why)
		}
	}
	m.c.Done(x, rule, s.name, m.compile)
	m.c.Check(rule, s.name, good > 0, m.compile.Pos(), "no way through the loading of these files was found")
	m.c.Check(rule, s.name, len(ends) > 1, m.compile.Pos(), "no failure of reading or parsing was considered")
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func (r *gateRun) why(st *State, missing bool) string {
	var out []string
	for _, v := range r.logOf(st, "failed") {
		s, _ := v.StrConst()
		out = append(out, "this failed: "+s)
	}
	if missing {
		out = append(out, "a file is missing")
	}
	return strings.Join(out, ", ")
}

// importsOf lists the paths a tree imports.
func (r *gateRun) importsOf(x *Exec, st *State, n *Val) []string {
	var out []string
	var walk func(v *Val, in string)
	seen := map[*Val]bool{}
	kids := func(v *Val) []*Val { // entries of a node
		if v.Op == absint.OIface && types.Identical(v.Typ, r.branchT) {
			es, _ := x.Entries(st, v.Args[0])
			return es
		}
		return nil
	}
	walk = func(v *Val, in string) {
		if seen[v] {
			return
		}
		seen[v] = true
		if in == "path" && kids(v) != nil {
			var parts []string
			for _, e := range kids(v) {
				if s, ok := e.Args[0].StrConst(); ok && s == "" {
					l := x.Reify(st, e.Args[1])
					for l.Op == absint.OIface {
						l = l.Args[0]
					}
					for _, t := range l.Args {
						if s, ok := r.textOf(t).StrConst(); ok {
							parts = append(parts, s)
						}
					}
				}
			}
			out = append(out, filepath.Join(parts...))
			return
		}
		for _, e := range kids(v) {
			s, _ := e.Args[0].StrConst()
			walk(e.Args[1], s)
		}
		if kids(v) == nil {
			for _, a := range v.Args {
				walk(a, in)
			}
		}
	}
	walk(n, "")
	return out
}

// merged: the parsers are made of one tree which holds every statement of
// every file once.
func (r *gateRun) merged(x *Exec, st *State, res *Val, reach map[string]bool, stmts map[string][]*Val) string {
	if res.Op != absint.OCall || res.Aux != "parsersOf" || res.Args[0].Op != absint.OCall || res.Args[0].Aux != "grammarOf" {
		return "the result is " + show(res) + " instead of the parsers of the grammar"
	}
	g := res.Args[0]
	if r.nodeIn(res.Args[1]) != g.Args[0] {
		return "the parsers carry another tree than the one they were made of"
	}
	l := g.Args[1]
	for l.Op == absint.OIface {
		l = l.Args[0]
	}
	if l.Op != absint.OList {
		return "the statements of the whole grammar are not known: " + show(l)
	}
	count := map[*Val]int{}
	for _, s := range l.Args {
		count[s]++
	}
	check := func(text, what string) string {
		for i, s := range stmts[text] {
			switch n := count[s]; {
			case n == 0:
				return fmt.Sprintf("statement %d of %s is missing from the grammar", i+1, what)
			case n > 1:
				return fmt.Sprintf("statement %d of %s is in the grammar %d times", i+1, what, n)
			}
			delete(count, s)
		}
		return ""
	}
	if why := check(mainText, "the grammar itself"); why != "" {
		return why
	}
	for p := range reach {
		if why := check(p, p); why != "" {
			return why
		}
	}
	if len(count) > 0 {
		return "the grammar has statements that are in none of the files"
	}
	return ""
}

func importScens() []importScen {
	lit := func(t string) gTerm { return gL(gStr(t)) }
	rule := func(n string) gStmt { return gProd(n, gT(lit("s"))) }
	type fs = map[string][]gStmt
	imp := gImport
	var out []importScen
	add := func(name string, main []gStmt, files fs) {
		out = append(out, importScen{"paths as they are: " + name, false, main, files})
	}
	res := func(name string, main []gStmt, files fs) {
		out = append(out, importScen{"with a resolver: " + name, true, main, files})
	}
	add("no import", []gStmt{rule("m")}, fs{"a": {rule("a")}})
	add("one import", []gStmt{imp("a"), rule("m")}, fs{"a": {rule("a"), gComment(), rule("a2")}})
	add("behind the rules", []gStmt{rule("m"), rule("n"), imp("a")}, fs{"a": {rule("a")}})
	add("two imports", []gStmt{imp("a"), imp("b"), rule("m")}, fs{"a": {rule("a")}, "b": {rule("b"), rule("b2")}})
	add("one behind the other", []gStmt{imp("a"), rule("m")}, fs{"a": {imp("b"), rule("a")}, "b": {rule("b"), imp("c")}, "c": {rule("c")}})
	add("the same twice", []gStmt{imp("a"), rule("m"), imp("a")}, fs{"a": {rule("a")}})
	add("the same, spelled differently", []gStmt{imp(".", "/", "a"), rule("m"), imp("x", "/", "..", "/", "a")}, fs{"a": {rule("a")}})
	add("along two ways", []gStmt{imp("a"), imp("b"), rule("m")}, fs{"a": {imp("c"), rule("a")}, "b": {rule("b"), imp("c")}, "c": {rule("c")}})
	add("along two ways, the long one first", []gStmt{imp("a"), imp("b"), rule("m")}, fs{"a": {imp("b"), rule("a")}, "b": {rule("b")}})
	add("one that is known, then another", []gStmt{imp("a"), imp("b"), imp("c"), rule("m")}, fs{"a": {imp("b"), rule("a")}, "b": {rule("b")}, "c": {rule("c")}})
	add("in a circle, then another", []gStmt{imp("a"), imp("c"), rule("m")}, fs{"a": {imp("a"), imp("b"), rule("a")}, "b": {imp("a"), imp("d"), rule("b")}, "c": {rule("c")}, "d": {rule("d")}})
	add("a rule defined twice", []gStmt{imp("a"), rule("m"), rule("n")}, fs{"a": {rule("n"), rule("a")}})
	add("a rule defined twice, behind it", []gStmt{rule("m"), imp("a")}, fs{"a": {rule("m")}})
	add("a rule defined twice, farther away", []gStmt{imp("a"), rule("m")}, fs{"a": {rule("a"), imp("b")}, "b": {rule("a")}})
	add("a rule defined twice, in both imports", []gStmt{imp("a"), imp("b"), rule("m")}, fs{"a": {rule("a")}, "b": {rule("a")}})
	add("itself", []gStmt{imp("a"), rule("m")}, fs{"a": {rule("a"), imp("a")}})
	add("each other", []gStmt{imp("a"), rule("m")}, fs{"a": {rule("a"), imp("b")}, "b": {imp("a"), rule("b")}})
	add("three in a circle", []gStmt{rule("m"), imp("b")}, fs{"a": {rule("a"), imp("b")}, "b": {imp("c"), rule("b")}, "c": {rule("c"), imp("a")}})
	add("a macro", []gStmt{imp("a"), gProd("m", gT(gL(gCall("M", gT(lit("s"))))))}, fs{"a": {gMacro("M", []string{"x"}, gT(gL(gIdent("x"))))}})
	add("a missing file", []gStmt{imp("a"), rule("m")}, fs{"b": {rule("b")}})
	add("a missing file next to another", []gStmt{imp("a"), imp("b"), rule("m")}, fs{"b": {rule("b")}})
	add("another next to a missing file", []gStmt{imp("b"), imp("a"), rule("m")}, fs{"b": {rule("b")}})
	add("a missing file farther away", []gStmt{imp("b"), rule("m")}, fs{"b": {imp("a"), rule("b")}})
	add("only imports", []gStmt{imp("a")}, fs{"a": {rule("a")}})
	res("one import", []gStmt{imp("a"), rule("m")}, fs{"/base/a": {rule("a")}})
	res("in other directories", []gStmt{imp("x", "/", "a"), rule("m")}, fs{"/base/x/a": {imp("..", "/", "y", "/", "b"), rule("a")}, "/base/y/b": {rule("b"), imp("c")}, "/base/y/c": {rule("c")}})
	res("one name in two directories", []gStmt{imp("a"), imp("x", "/", "b"), rule("m")}, fs{"/base/a": {rule("a")}, "/base/x/b": {imp("a"), rule("b")}, "/base/x/a": {rule("c")}})
	res("along two ways", []gStmt{imp("x", "/", "a"), imp("c"), rule("m")}, fs{"/base/x/a": {imp("..", "/", "c"), rule("a")}, "/base/c": {rule("c")}})
	res("each other", []gStmt{imp("x", "/", "a"), rule("m")}, fs{"/base/x/a": {rule("a"), imp("..", "/", "b")}, "/base/b": {imp("x", "/", "a"), rule("b")}})
	return out
}

// Imports decides C15.
func (c *Ctx) Imports() {
	all := importScens()
	c.parallel(len(all), func(i int, sub *Ctx) { sub.gateModel().importScen(all[i]) })
	c.resolvers()
}

// resolvers: every resolver of the module takes a path as relative to the
// file the import is in, and to the file the first text is from.
func (c *Ctx) resolvers() {
	const rule = "C15.resolver"
	ri := c.Named("wbnf", "ImportResolver")
	n := 0
	pkgs := map[*ssa.Package]bool{}
	for _, p := range c.P.Prog.AllPackages() {
		if p.Pkg == nil || !strings.HasPrefix(p.Pkg.Path(), load.Mod) {
			continue
		}
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) || strings.HasSuffix(c.P.Prog.Fset.Position(tn.Pos()).Filename, "_test.go") {
				continue
			}
			t := tn.Type()
			if !types.Implements(t, iface(ri)) {
				t = types.NewPointer(t)
			}
			if !types.Implements(t, iface(ri)) {
				continue
			}
			n++
			pkgs[p] = true
			c.resolve(rule, t)
		}
	}
	c.Check(rule, "resolvers", n > 0, 0, "no import resolver was found")
	c.madeFor(pkgs)
}

// pathHook gives the functions on paths names.
func pathHook(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
	u := x.U
	strT := types.Typ[types.String]
	if ci.Fn == nil {
		return nil, false
	}
	ret := func(v *Val) ([]absint.Out, bool) { return []absint.Out{{St: st, Val: v}}, true }
	switch ci.Fn.RelString(nil) {
	case "path/filepath.Clean":
		return ret(u.Call("clean", 0, strT, ci.Args[0]))
	case "path/filepath.Dir":
		return ret(u.Call("dir", 0, strT, ci.Args[0]))
	case "path/filepath.Join":
		if l := x.Norm(st, x.Reify(st, ci.Args[0])); l.Op == absint.OList {
			return ret(u.Call("join", 0, strT, l.Args...))
		}
	}
	return nil, false
}

// resolves checks one call of Resolve.
func (c *Ctx) resolvesPath(x *Exec, rule string, t types.Type, recv, from, base *Val, st *State) (*ssa.Function, int) {
	u := x.U
	strT := types.Typ[types.String]
	sel := c.P.Prog.MethodSets.MethodSet(t).Lookup(nil, "Resolve")
	if sel == nil {
		return nil, 0
	}
	fn := c.P.Prog.MethodValue(sel)
	file := u.Sym("path", strT)
	good := 0
	for _, p := range x.Run(fn, []*Val{recv, from, file}, st) {
		if p.Panic != nil {
			x.Report(p.St, p.Pos, rule, "resolving a path panics")
			continue
		}
		got := unclean(p.Res[0])
		ok := false
		for _, b := range []*Val{base, u.Call("clean", 0, strT, base)} {
			ok = ok || got == u.Call("join", 0, strT, u.Call("dir", 0, strT, b), file)
		}
		if !ok {
			x.Report(p.St, p.Pos, rule, "an import resolves to %s, which is not the path next to %s", show(got), show(base))
			continue
		}
		good++
	}
	return fn, good
}

func (c *Ctx) resolve(rule string, t types.Type) {
	x := c.Exec()
	u := x.U
	x.Hooks.Call = pathHook
	st := absint.NewState()
	from := u.Sym("from", types.Typ[types.String])
	x.Assume(st, x.EqVal(from, u.Str("")), false)
	recv := u.Sym("resolver", t)
	if _, ok := t.(*types.Pointer); ok {
		x.Assume(st, x.EqVal(recv, u.Nil(t)), false)
	}
	fn, good := c.resolvesPath(x, rule, t, recv, from, from, st)
	cons := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	c.Done(x, rule, cons, fn)
	c.Check(rule, cons, good > 0, fn.Pos(), "no import was resolved")
}

// unclean drops cleaning where the path is clean already.
func unclean(v *Val) *Val {
	for v.Op == absint.OCall && v.Aux == "clean" && v.Args[0].Op == absint.OCall && (v.Args[0].Aux == "join" || v.Args[0].Aux == "clean") {
		v = v.Args[0]
	}
	return v
}

// madeFor: where a text read from a file is compiled, the resolver is made
// for that file.
func (c *Ctx) madeFor(pkgs map[*ssa.Package]bool) {
	const rule = "C15.base"
	compiles := map[*ssa.Function]bool{}
	for _, n := range []string{"Compile", "MustCompile"} {
		if f := c.P.Func("wbnf", n); f != nil {
			compiles[f] = true
		}
	}
	// the functions of those packages that lead to a compilation, and of
	// these the ones no other of them calls
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.allFuncs() {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if !pkgs[top.Pkg] {
			continue
		}
		if callees[top] == nil {
			callees[top] = map[*ssa.Function]bool{}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						callees[top][g] = true
					}
				}
			}
		}
	}
	leads := map[*ssa.Function]bool{}
	for more := true; more; {
		more = false
		for f, gs := range callees {
			for g := range gs {
				if (compiles[g] || leads[g]) && !leads[f] {
					leads[f], more = true, true
				}
			}
		}
	}
	called := map[*ssa.Function]bool{}
	for f := range leads {
		for g := range callees[f] {
			if g != f {
				called[g] = true
			}
		}
	}
	var roots []*ssa.Function
	for f := range leads {
		if !called[f] {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	c.Check(rule, "roots", len(roots) > 0, 0, "no command that compiles a grammar was found")
	for _, root := range roots {
		c.baseOf(rule, root, compiles)
	}
}

func (c *Ctx) baseOf(rule string, root *ssa.Function, compiles map[*ssa.Function]bool) {
	x := c.Exec()
	u := x.U
	errT := types.Universe.Lookup("error").Type()
	byteS := types.NewSlice(types.Typ[types.Byte])
	strip := func(v *Val) *Val {
		for v.Op == absint.OConv || v.Op == absint.OIface || v.Op == absint.OCall && v.Aux == "clean" {
			v = v.Args[0]
		}
		return v
	}
	seen := 0
	type job struct {
		st             *State
		path, resolver *Val
		pos            token.Pos
	}
	var jobs []job
	x.Hooks.Call = func(x *Exec, st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
		if ci.Fn == nil {
			return nil, false
		}
		if compiles[ci.Fn] {
			seen++
			if text := strip(ci.Args[0]); text.Op == absint.OCall && text.Aux == "content" {
				jobs = append(jobs, job{st.Clone(), strip(text.Args[0]), ci.Args[1], ci.Pos})
			}
			return []absint.Out{}, true
		}
		if outs, ok := pathHook(x, st, ci); ok {
			return outs, true
		}
		switch ci.Fn.RelString(nil) {
		case "os.ReadFile", "io/ioutil.ReadFile":
			bad := st.Clone()
			e := u.Tok("read.err", errT)
			x.Assume(bad, x.EqVal(e, u.Nil(nil)), false)
			return []absint.Out{
				{St: st, Val: u.Tuple(u.Call("content", 0, byteS, ci.Args[0]), u.Nil(nil))},
				{St: bad, Val: u.Tuple(u.Nil(nil), e)}}, true
		case "io.ReadAll", "io/ioutil.ReadAll":
			return []absint.Out{{St: st, Val: u.Tuple(u.Sym("stdin", byteS), u.Sym("stdin.err", errT))}}, true
		}
		return nil, false
	}
	args := make([]*Val, len(root.Params))
	for i, p := range root.Params {
		args[i] = u.Sym(p.Name(), p.Type())
	}
	x.Run(root, args, absint.NewState())
	good := 0
	for _, j := range jobs {
		if j.resolver.Op != absint.OIface {
			x.Report(j.st, j.pos, rule, "the text compiled is read from %s, but its imports are resolved by %s", show(j.path), show(j.resolver))
			continue
		}
		j.st.Frames = nil
		_, n := c.resolvesPath(x, rule, j.resolver.Typ, j.resolver.Args[0], u.Str(""), j.path, j.st)
		good += n
	}
	c.Done(x, rule, root.Name(), root)
	c.Check(rule, root.Name()+" resolves", good > 0 || len(jobs) == 0, root.Pos(), "no import was resolved")
	c.Check(rule, root.Name(), seen > 0, root.Pos(), "no way to the compilation was found")
}

func init() {
	register(&Prop{ID: "C15", Run: func(c *Ctx) { c.Imports() }, Groups: []string{"C15.", "gate."}, Technique: absTechnique, MinObl: 34,
		Covers: "Compile is evaluated on the SSA form for 29 graphs of files that import each other (none, one, several, chains, diamonds, circles, the same file spelled differently, missing files at different places, rules that two files define, which have to be refused; paths taken as they are and through a resolver that returns uncleaned paths), with symbolic rules, every reading and every parsing allowed to fail at will: every file that is imported is read exactly once and no other, the resolver is asked for each import with the file it is in, the parsers are made of one tree that holds each statement of each file exactly once, and any failure makes compiling fail. For every resolver type of the module, Resolve(from, path) for a symbolic file is the path next to that file; where a command compiles a text it read from a file, Resolve(\"\", path) of the resolver it passes is the path next to that file (all ways of the command from its entry)."})
}
