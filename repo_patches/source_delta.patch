From 620b492ed41be374b5f63793b007b3df7f9f1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 01/31] fix: regexps with several or optional capture groups no
 longer panic or yield bogus leaves

---
 parser/parser.go  | 3 +++
 parser/scanner.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..dbb1bb1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -196,6 +196,9 @@ func getErrorStrings(input *Scanner) string {
 func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
 	var eaten [2]Scanner
 	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
+		if n > len(eaten) {
+			n = len(eaten)
+		}
 		*output = eaten[n-1]
 		return true
 	}
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..00be671 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -197,6 +197,11 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 			captures = captures[:n]
 		}
 		for i := range captures {
+			if loc[2*i] < 0 {
+				// This group took no part in the match.
+				captures[i] = *s.Slice(0, 0)
+				continue
+			}
 			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
 		}
 
-- 
2.43.0


From e9750f59c1d3018574b1e63a5c7c755b95ccfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:42 +0000
Subject: [PATCH 02/31] fix: unbounded repetition of an item that consumes
 nothing terminates

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index dbb1bb1..2c40007 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -577,8 +577,13 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		stuck := p.t.Max == 0 && len(result) >= p.t.Min && start.Offset() == input.Offset()
 		result = append(result, v)
 		*input = start
+		if stuck {
+			// An item that consumes nothing would match forever.
+			break
+		}
 	}
 
 	if len(result) >= p.t.Min {
-- 
2.43.0


From 69a9e0caeed7ed6eeae9d2e8d9cef70cf2d7122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:53 +0000
Subject: [PATCH 03/31] fix: nodes with different numbers of children are not
 equal

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2c40007..e5fa69b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -319,11 +319,12 @@ func nodesEqual(a, b any) bool {
 		switch a := a.(type) {
 		case Node:
 			b := b.(Node)
-			if a.Count() == b.Count() {
-				for i := range a.Children {
-					if !nodesEqual(a.Children[i], b.Children[i]) {
-						return false
-					}
+			if a.Count() != b.Count() {
+				return false
+			}
+			for i := range a.Children {
+				if !nodesEqual(a.Children[i], b.Children[i]) {
+					return false
 				}
 			}
 			return true
-- 
2.43.0


From b55d70c5bdb88f035ac7b568920ccbcd79866be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:06 +0000
Subject: [PATCH 04/31] fix: parsing from an unknown rule is an error, not a
 nil dereference

---
 parser/terms.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..777a424 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -49,9 +49,13 @@ func (p Parsers) Unparse(e TreeElement, w io.Writer) (n int, err error) {
 
 // Parse parses some source per a given rule.
 func (p Parsers) ParseWithExternals(rule Rule, input *Scanner, exts ExternalRefs) (TreeElement, error) {
+	parser, has := p.parsers[rule]
+	if !has {
+		return nil, fmt.Errorf("unknown rule: %s", rule)
+	}
 	scope := Scope{}.WithExternals(exts)
 	var e TreeElement
-	if err := p.parsers[rule].Parse(scope, input, &e, nil); err != nil {
+	if err := parser.Parse(scope, input, &e, nil); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 0b1136693b923017ec96a9aec2a16809c33d60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:17 +0000
Subject: [PATCH 05/31] fix: printing the repetition {1,1} no longer panics

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 777a424..b73ef1d 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -246,8 +246,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From 3d138865399167fd03ec15fddf653e597f2fae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 06/31] fix: an optional trailing separator is never a cut
 point

---
 wbnf/cutpoints.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..031de0e 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -85,8 +85,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 			out = out.Merge(forTerm(t.Sep), mergeFn)
-			if t.CanStartWithSep {
-				// ensure that a starting sep will never be a cutpoint
+			if t.CanStartWithSep || t.CanEndWithSep {
+				// ensure that a starting or trailing sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
 		case parser.Quant:
-- 
2.43.0


From e05d4bd16c99041f49a887a61d00017b0fb6e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:47 +0000
Subject: [PATCH 07/31] fix: every occurrence in a nested grammar counts when
 looking for cut points

---
 wbnf/cutpoints.go   | 7 +++----
 wbnf/wbnfgrammar.go | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 031de0e..37545a3 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -95,10 +95,9 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			for _, t := range t.Grammar {
+				out = out.Merge(forTerm(t), mergeFn)
+			}
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 3766729381599f7ea4b8b6b5d02268ab66927ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:23 +0000
Subject: [PATCH 08/31] fix: lookahead terms take part in cut point counting
 and macro expansion

---
 wbnf/cutpoints.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 37545a3..a5120cc 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -102,7 +102,11 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-		case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing
+		case parser.LookAhead:
+			// A lookahead doesn't consume what it matches, so its strings must never be cutpoints.
+			out = out.Merge(forTerm(t.Term), mergeFn)
+			out = out.Merge(forTerm(t.Term), mergeFn)
+		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
 		}
@@ -162,7 +166,10 @@ func fixTerm(term parser.Term, callback func(t parser.Term) parser.Term) parser.
 	case parser.CutPoint:
 		t.Term = fixTerm(t.Term, callback)
 		return callback(t)
-	case parser.S, parser.REF, parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead:
+	case parser.LookAhead:
+		t.Term = fixTerm(t.Term, callback)
+		return callback(t)
+	case parser.S, parser.REF, parser.RE, parser.Rule, parser.ExtRef:
 		return callback(term)
 	default:
 		panic(fmt.Errorf("fixTerm: unexpected term type: %v %[1]T", t))
-- 
2.43.0


From 571a5930589e169b086ce617eb9d0c66a3aa253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 09/31] fix: converting a tree no longer adds scoped rules to
 the caller's grammar

---
 ast/from_parsernode.go |  5 +----
 ast/helpers.go         | 12 ++++++++++++
 ast/to_parsernode.go   |  5 +----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..23029e7 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -135,10 +135,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
+		gcopy := scopedGrammar(g, t.Grammar)
 		b.fromParserNode(gcopy, t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
diff --git a/ast/helpers.go b/ast/helpers.go
index 04a1329..1b272a4 100644
--- a/ast/helpers.go
+++ b/ast/helpers.go
@@ -17,6 +17,18 @@ func Which(b Branch, names ...string) (string, Children) {
 	return "", nil
 }
 
+// scopedGrammar returns a copy of outer in which the rules of inner take precedence
+func scopedGrammar(outer, inner parser.Grammar) parser.Grammar {
+	g := make(parser.Grammar, len(outer)+len(inner))
+	for rule, term := range outer {
+		g[rule] = term
+	}
+	for rule, term := range inner {
+		g[rule] = term
+	}
+	return g
+}
+
 // Choice attempts to check for the @choice tag, and if found returns the value
 // The return is the 0-based index of the chosen option. -1 means there was no @choice tag
 func Choice(n Node) int {
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..201ef0a 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,10 +105,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
+		gcopy := scopedGrammar(g, t.Grammar)
 		return b.toParserNode(gcopy, t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
-- 
2.43.0


From a2f8f6e305f6f9bcdf991873c270dab1e607d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:37 +0000
Subject: [PATCH 10/31] fix: cycle detection no longer corrupts paths by
 appending to a shared slice

---
 wbnf/recursion.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..017c373 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -60,14 +60,19 @@ func checkForRecursion(tree GrammarNode) error {
 
 func findPaths(name string, node *gnode, seen frozen.Set[string], current []string) [][]string {
 	if name != "" {
-		current = append(current, name)
+		current = append(current[:len(current):len(current)], name)
 	}
+	keys := make([]string, 0, len(node.next))
+	for k := range node.next {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
 	var possibles [][]string
-	for k, next := range node.next {
+	for _, k := range keys {
 		if seen.Has(k) {
-			possibles = append(possibles, append(current[:], k))
+			possibles = append(possibles, append(current[:len(current):len(current)], k))
 		} else {
-			possibles = append(possibles, findPaths(k, next, seen.With(k), current)...)
+			possibles = append(possibles, findPaths(k, node.next[k], seen.With(k), current)...)
 		}
 	}
 
-- 
2.43.0


From 0a1576d4db7981387e21090e964421eea082cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:46 +0000
Subject: [PATCH 11/31] fix: the tree view no longer depends on map iteration
 order

---
 ast/treeview.go  | 9 ++++++++-
 gotree/gotree.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..424a65a 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,7 +34,13 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			val := n[name]
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..57e0ff4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 41cdc3d4beff6e95978a4bc92df2259c40902fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 12/31] fix: gen reports a failure to write its output

---
 cmd/gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index c43687b..6622809 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -79,10 +79,10 @@ func gen(c *cli.Context) error {
 
 	switch outFile {
 	case "", "-":
-		os.Stdout.Write(out)
+		_, err = os.Stdout.Write(out)
 	default:
-		os.WriteFile(outFile, out, 0644) //nolint:errcheck,gosec
+		err = os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 3602fc4a50fce25c17f588b27fbd3c8a31c10bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:54 +0000
Subject: [PATCH 13/31] fix: the walker's Aborter aborts the walk rather than
 just exiting the node

---
 cmd/codegen/template.go | 2 +-
 wbnf/wbnfgrammar.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/template.go b/cmd/codegen/template.go
index 1346fb0..2cb78ce 100644
--- a/cmd/codegen/template.go
+++ b/cmd/codegen/template.go
@@ -40,7 +40,7 @@ func (n *nodeExiter) ExitNode() bool {return true }
 func (n *nodeExiter) Abort() bool {return false }
 
 type aborter struct{}
-func (n *aborter) ExitNode() bool {return true }
+func (n *aborter) ExitNode() bool {return false }
 func (n *aborter) Abort() bool {return true }
 var (
 	NodeExiter = &nodeExiter{}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index d9d1f87..bd29f2e 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -119,7 +119,7 @@ func (n *nodeExiter) Abort() bool    { return false }
 
 type aborter struct{}
 
-func (n *aborter) ExitNode() bool { return true }
+func (n *aborter) ExitNode() bool { return false }
 func (n *aborter) Abort() bool    { return true }
 
 var (
-- 
2.43.0


From 118bdf6f69f4f7ce95f7bcb24adfb19c6a720932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:17 +0000
Subject: [PATCH 14/31] fix: files that import each other no longer recurse
 forever

---
 wbnf/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..93290c6 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -347,6 +347,8 @@ func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 		if err != nil {
 			return GrammarNode{}, err
 		}
+		// Mark the file as being loaded, so that an import cycle stops here.
+		c.imports[filename] = GrammarNode{}
 		g, err := c.makeGrammar(filename, string(text))
 		if err != nil {
 			return GrammarNode{}, err
-- 
2.43.0


From bbb76ba999dffbd3edf4711ef49c2e9f6d2bf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:20 +0000
Subject: [PATCH 15/31] fix: an import inside an imported file is relative to
 that file

---
 cmd/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..7d931ba 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,7 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From 3cbf9006f3bd62ffd830e95b319fff2425c54a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:24 +0000
Subject: [PATCH 16/31] fix: generated code for a bounded repetition compiles

---
 cmd/codegen/grammar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..8b3465d 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -116,6 +116,7 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.children = []GoNode{prefixName("Term: ", walkTerm(t.Term))}
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
-- 
2.43.0


From 05c72625c42802167b8ab2b24f9756de8822af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:32 +0000
Subject: [PATCH 17/31] fix: grammar diffs compare external references and
 backref defaults on both sides

---
 parser/diff/terms.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..2d9f8de 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -111,7 +111,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -171,7 +171,10 @@ type RefDiff struct {
 
 func (d RefDiff) Equal() bool {
 	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+		if d.A.Default == nil || d.B.Default == nil {
+			return d.A.Default == nil && d.B.Default == nil
+		}
+		return Terms(d.A.Default, d.B.Default).Equal()
 	}
 	return false
 }
-- 
2.43.0


From 9cb5c317a216b47989aa435c19ec790d61e35d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 18/31] fix: node diffs compare the types of both children

---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..543074d 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -62,8 +62,8 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(b.Children[i])
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-- 
2.43.0


From bf7652e1a89409c2107925dca849b9e6340fd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:15 +0000
Subject: [PATCH 19/31] fix: a file imported along several paths is merged only
 once

---
 wbnf/compile.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 93290c6..40a8c28 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -342,20 +342,21 @@ func (c *compiler) makeGrammar(filename, text string) (GrammarNode, error) {
 
 func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 	filename = filepath.Clean(filename)
-	if _, has := c.imports[filename]; !has {
-		text, err := os.ReadFile(filename)
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		// Mark the file as being loaded, so that an import cycle stops here.
-		c.imports[filename] = GrammarNode{}
-		g, err := c.makeGrammar(filename, string(text))
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		c.imports[filename] = g
+	if _, has := c.imports[filename]; has {
+		// Already merged by an earlier import, or being loaded by an import cycle.
+		return GrammarNode{}, nil
+	}
+	text, err := os.ReadFile(filename)
+	if err != nil {
+		return GrammarNode{}, err
+	}
+	c.imports[filename] = GrammarNode{}
+	g, err := c.makeGrammar(filename, string(text))
+	if err != nil {
+		return GrammarNode{}, err
 	}
-	return c.imports[filename], nil
+	c.imports[filename] = g
+	return g, nil
 }
 
 func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
-- 
2.43.0


From 822be26ffbba85905bb3fc3b880df8e2ed570cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:40 +0000
Subject: [PATCH 20/31] fix: numeric escapes in string literals decode instead
 of panicking

---
 wbnf/compile.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 40a8c28..4bde1cd 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -32,33 +32,33 @@ func parseString(s string) string {
 			i++
 			switch s[i] {
 			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
+				n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
+				n, err := strconv.ParseUint(s[i+1:i+5], 16, 16)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 2
+				sb.WriteRune(rune(n))
+				i += 4
 			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
+				n, err := strconv.ParseUint(s[i+1:i+9], 16, 32)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 4
+				sb.WriteRune(rune(n))
+				i += 8
 			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
+				n, err := strconv.ParseUint(s[i:i+3], 8, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
-- 
2.43.0


From 29fa0baa224fbc0aaa858016be88211b39c51306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 21/31] fix: the error of a failed repetition is not its own
 cause, so it can be printed

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5fa69b..bc69f22 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -591,10 +591,12 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	// Not out itself: the closure below would then return the new error, making it its own cause.
+	cause := out
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return cause }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From b0af41c26f0bdfbf802a2993af1cdc8de1ac09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 22/31] fix: the error of a failed literal shows the input
 where it failed, not where its caller went on

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bc69f22..8f5cfee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -239,9 +239,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input // the caller moves input on before the error is printed
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
@@ -269,9 +270,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input // the caller moves input on before the error is printed
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From f9e4eede391fef7e3337be17a36827cdb9a0b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 23/31] fix: a rule that is just a named or scoped reference
 runs the rule it refers to

---
 parser/parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 8f5cfee..ce4d64c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -69,6 +69,25 @@ func tag(rule Rule, alt Rule) putter {
 	}
 }
 
+// followRules replaces the parser of each rule that is just a reference to
+// another rule, e.g. a -> x=b, by the parser of the latter.
+func (c cache) followRules() {
+	for rule, p := range c.parsers {
+		for range c.parsers { // stops at a cycle
+			ref, ok := p.(ruleParser)
+			if !ok {
+				break
+			}
+			next, has := c.parsers[ref.t]
+			if !has {
+				break
+			}
+			p = next
+		}
+		c.parsers[rule] = p
+	}
+}
+
 func (g Grammar) clone() Grammar {
 	clone := make(Grammar, len(g))
 	for rule, term := range g {
@@ -120,6 +139,7 @@ func (g Grammar) Compile(node any) Parsers {
 		}
 		c.parsers[rule] = term.Parser(rule, c)
 	}
+	c.followRules()
 
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
-- 
2.43.0


From 4c77c3ca677d2d6083a5c41752c1f2db225ad345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:04 +0000
Subject: [PATCH 24/31] fix: a nested rule that is just a reference to an
 enclosing rule runs that rule

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ce4d64c..57fe344 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -796,13 +796,17 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		for {
 			switch r := term.(type) {
 			case Rule:
-				term = t.Grammar[r]
-				continue
+				// other rules are those of the enclosing grammar
+				if local, has := t.Grammar[r]; has {
+					term = local
+					continue
+				}
 			}
 			break
 		}
 		cc.parsers[rule] = term.Parser(rule, cc)
 	}
+	cc.followRules()
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
@@ -815,6 +819,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				c.registerRule(rulePtr) // p may refer to a rule of the enclosing grammar
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From 20a50bd54aa9cc8069c08e9d2a2d75118535a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 25/31] fix: differences between trees and grammars are
 reported in a fixed order

---
 parser/diff/nodes.go | 16 ++++++++++++++--
 parser/diff/terms.go |  7 +++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 543074d..01da7bf 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/parser"
@@ -38,14 +39,25 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if len(d.A.Children) != len(d.B.Children) {
 		fmt.Fprintf(w, "%slen(Children): %v != %v", prefix, len(d.A.Children), len(d.B.Children))
 	}
-	for i, t := range d.Types {
+	for _, i := range sortedKeys(d.Types) {
+		t := d.Types[i]
 		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
 	}
-	for i, d := range d.Children {
+	for _, i := range sortedKeys(d.Children) {
+		d := d.Children[i]
 		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
 	}
 }
 
+func sortedKeys[T any](m map[int]T) []int {
+	keys := make([]int, 0, len(m))
+	for i := range m {
+		keys = append(keys, i)
+	}
+	sort.Ints(keys)
+	return keys
+}
+
 func (d NodeDiff) Equal() bool {
 	return len(d.A.Children) == len(d.B.Children) &&
 		d.A.Tag == d.B.Tag &&
diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 2d9f8de..d338c0d 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -3,6 +3,7 @@ package diff
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/arr-ai/wbnf/parser"
 )
@@ -38,6 +39,10 @@ func (d GrammarDiff) Equal() bool {
 	return len(d.OnlyInA) == 0 && len(d.OnlyInB) == 0 && len(d.Prods) == 0
 }
 
+func sortRules(rules []parser.Rule) {
+	sort.Slice(rules, func(i, j int) bool { return rules[i] < rules[j] })
+}
+
 func Grammars(a, b parser.Grammar) GrammarDiff {
 	diff := GrammarDiff{
 		Prods: map[parser.Rule]TermDiff{},
@@ -56,6 +61,8 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
+	sortRules(diff.OnlyInA)
+	sortRules(diff.OnlyInB)
 	if diff.Equal() != reflect.DeepEqual(a, b) {
 		panic(fmt.Sprintf(
 			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
-- 
2.43.0


From 9f61ad8b1a0498fa7cdde4c6b6ec91a8b7a37cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 26/31] fix: types are generated from the rules in a fixed
 order

---
 cmd/codegen/typebuilder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..d481f2b 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -2,6 +2,7 @@ package codegen
 
 import (
 	"math/rand"
+	"sort"
 
 	"github.com/arr-ai/frozen"
 	"github.com/arr-ai/wbnf/parser"
@@ -40,7 +41,14 @@ func mergeGrammarRules(prefix string, g parser.Grammar, knownRules frozen.Map[st
 
 func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules frozen.Map[string, any]) TypeMap {
 	result := map[string]GrammarType{}
-	for r, term := range g {
+	rules := make([]string, 0, len(g))
+	for r := range g {
+		rules = append(rules, string(r))
+	}
+	sort.Strings(rules) // different rules may contribute to one type
+	for _, rule := range rules {
+		r := parser.Rule(rule)
+		term := g[r]
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
 			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
-- 
2.43.0


From 0505a91ee8194dfd3c3d76be8d86349d53d2f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 27/31] fix: trees of associative lists whose terms are not
 single tokens convert to ASTs

The first or last operand was taken for a nested list whenever it was a node,
and terms were compared with ==, which panics for terms that hold slices.
---
 ast/from_parsernode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 23029e7..f51948d 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -149,14 +149,16 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
+		assoc := node.Extra.(parser.Associativity)
 		tgen := t.LRTerms(node)
 		for i, child := range node.Children {
 			lrTerm := tgen.Next()
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
 			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
+				// An associative list nests in its first or last operand, whose other occupant is the term.
+				if assoc > 0 && i == 0 || assoc < 0 && i == len(node.Children)-1 {
+					if sub, ok := child.(parser.Node); ok && sub.Tag == node.Tag && sub.Extra == node.Extra {
 						childCtrs := newCounters(lrTerm)
 						b2 := Branch{}
 						childCtrs.termCountChildren(t, ctrs[""])
-- 
2.43.0


From 5b239722156e84d6533611532b2ad0ab268822b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 28/31] fix: converting an AST back takes no more children than
 a repetition allows

---
 ast/to_parsernode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 201ef0a..34ff822 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -147,7 +147,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
+		for i := 1; !t.MaxLessThan(i); i++ {
 			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
 				result.Children = append(result.Children, v)
 			} else {
-- 
2.43.0


From 6fd529244f80ef2f9a99f6d8838aa24df048339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 29/31] fix: all levels of a stack count as one name when a
 tree is converted to an AST

---
 ast/counter.go         | 4 +++-
 ast/from_parsernode.go | 2 +-
 ast/to_parsernode.go   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..769acd0 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -99,7 +99,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		// All levels of a stack are filed under the same name.
+		name, _ := unlevel(string(t), nil)
+		ctrs.count(name, parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f51948d..e463ceb 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -133,7 +133,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		// 	// TODO: zeroOrOne
 		// }
 		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
 		gcopy := scopedGrammar(g, t.Grammar)
 		b.fromParserNode(gcopy, t.Term, ctrs, e)
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 34ff822..edc43b5 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -86,7 +86,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		name := string(t)
 		term := g[t]
 		unleveled, level := unlevel(name, g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
 			}
-- 
2.43.0


From 637cff35455429e913e524be6b4dfa74359780c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 30/31] fix: the bodies of macros are validated like the rest
 of the grammar

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..d3e8219 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -216,7 +216,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
-- 
2.43.0


From c5f5f7f3a5928d9708ded1eedf1182497d0d4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 31/31] fix: generated grammars keep text that raw string
 literals cannot hold

---
 cmd/codegen/grammar.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 8b3465d..e208908 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,7 +3,9 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/frozen"
 
@@ -44,9 +46,21 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
+// safeString prepares src for a raw string literal. What such a literal cannot
+// hold is spliced in as an interpreted one.
 func safeString(src string) string {
-	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+	var sb strings.Builder
+	for len(src) > 0 {
+		r, n := utf8.DecodeRuneInString(src)
+		switch {
+		case r == '`', r == '\r', r == 0, r == '\uFEFF', r == utf8.RuneError && n == 1:
+			sb.WriteString("`+" + strconv.Quote(src[:n]) + "+`")
+		default:
+			sb.WriteString(src[:n])
+		}
+		src = src[n:]
+	}
+	return sb.String()
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
-- 
2.43.0

