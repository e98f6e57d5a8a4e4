#!/usr/bin/env python3
# Regenerates properties.jsonl (one source of truth for ids, titles, statements).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
I=["inputs","programs"]
p("C01","Backtracking never leaks an input position",
 "Whenever a parse succeeds, each element of a sequence and each item of a repetition was attempted exactly where the previous accepted one stopped, every alternative of a choice was attempted where the choice itself began, and the input is left exactly where the last accepted element stopped. An attempt that failed never influences where anything that is accepted starts. A lookahead leaves the input exactly where it was.",
 I,"every grammar and every input text","Tests run a few dozen grammar/input pairs; the law is about every nesting of constructs and every point at which an attempt can fail.",
 ["parser/parser.go"],[("Parse methods of the compiled parsers work on a copy of the scanner and commit it only on success","parser/parser.go: seqParser.Parse, quantParser.Parse, oneofParser.Parse, lookaheadParser.Parse, delimParser.Parse, cutPointParser.Parse, REF.Parse")],
 [("*input","the scanner the caller continues from","parser.Parser.Parse")],["Parsers.Parse result trees and residues"])
p("C02","A matched cut point commits the parse; nothing else does",
 "Once a cut point has matched in a sequence, a failure of the rest of that sequence is final: it is passed straight up through every enclosing choice and repetition, none of which tries another alternative or settles for the items it already has. A failure with no cut point behind it stays recoverable: the choice goes on to its next alternative and the repetition ends with what it has. A choice or repetition that begins after a cut point may still backtrack inside itself, but if it fails as a whole that failure is final again.",
 I,"every grammar with cut points and every input","Tests exercise two or three cut-point grammars; whether a failure is recoverable depends on the interaction of every enclosing construct.",
 ["parser/parser.go","parser/scope.go","parser/error.go"],[("fresh cut-point identities in the scope","parser/scope.go: ReplaceCutPoint/GetCutPoint"),("fatal error classification","parser/error.go: isFatal, isNotMyFatalError, newParseError"),("commit after a cutPointParser element","parser/parser.go: seqParser.Parse")],
 [("cut point identity","which enclosing construct may recover from a failure","Scope under cutpointkey")])
p("C03","Repetitions honour their bounds, are greedy and terminate",
 "A successful repetition holds at least its minimum and, when bounded, at most its maximum number of items, and it stops early only because the next item does not match. It terminates even when its item can match the empty string. The operators ?, *, + and {m,n} mean 0..1, 0 or more, 1 or more and m..n (an omitted bound being 0 or unbounded).",
 I,"every repetition bound, item and input","Bounds and nullable items form an unbounded family; the suite samples a handful.",
 ["parser/parser.go","parser/terms.go","wbnf/compile.go"],[("loop guard, minimum test and no-progress stop","parser/parser.go: quantParser.Parse"),("Opt/Any/Some constructors","parser/terms.go"),("operator to bounds mapping","wbnf/compile.go: grammarBuilder.buildQuant")])
p("C04","Parse trees record exactly what was accepted, in order",
 "On success a sequence's node has exactly one child per element in grammar order, a repetition's node one child per accepted item in input order, a choice's node exactly the accepted alternative's subtree together with that alternative's index, and a lookahead's node the subtree it matched. Nothing produced by a failed attempt appears in the tree. A node is labelled with the name of its rule, or with its construct's fixed tag when it has none.",
 I,"every grammar and every input","Tests compare a few concrete trees.",
 ["parser/parser.go"],[("result slices and the put closures","parser/parser.go: Parse methods, tag, ruleOrAlt")])
p("C05","A top-level parse reports success only for fully consumed input",
 "Parsing from a start rule returns a tree without an error only if that rule matched and consumed the entire input. If input is left over, the error carries both the tree and exactly the unconsumed rest; if the rule did not match, its error is returned and no tree. A start rule that does not exist is an error, not a crash, and the convenience that panics does so exactly when there is an error.",
 I,"every compiled grammar, start rule and input","Tests assert this for chosen inputs only.",
 ["parser/terms.go","parser/error.go"],[("full-consumption test and UnconsumedInput","parser/terms.go: ParseWithExternals, Parse, MustParse"),("UnconsumedInputError accessors","parser/error.go")])
p("C06","Tokens are exact slices of the source they came from",
 "Every piece of text taken from an input denotes the same source at its true offset: eating n bytes yields the n bytes at the current position and advances the position by n while shrinking what is left by n, a matched pattern or capture yields exactly the matched range, and a failed match changes nothing. Merging pieces yields the smallest range covering all of them and is refused when they come from different sources.",
 ["inputs"],"every source text, slice range and pattern","Scanner tests check a few fixed offsets.",
 ["parser/scanner.go","parser/parser.go"],[("offset arithmetic","parser/scanner.go: Slice, Skip, Eat, EatString, EatRegexp, MergeScanners, NewScanner*"),("capture selection","parser/parser.go: eatRegexp")])
p("C07","Compiled grammars, grammars and trees are never modified by use",
 "Parsing, unparsing, converting trees to and from ASTs, printing and comparing never modify the compiled parser, the grammar, the tree handed in or any package-level state. One compiled grammar can therefore be used by any number of goroutines at once, and every use sees the same grammar.",
 ["schedules","inputs","histories"],"every interleaving and history of uses of one compiled grammar","Tests use each compiled grammar once and single-threaded.",
 ["parser/parser.go","parser/terms.go","parser/unparse.go","parser/scanner.go","parser/scope.go","ast/from_parsernode.go","ast/to_parsernode.go","ast/node.go","ast/treeview.go","parser/diff/terms.go"],
 [("per-call state lives in locals and persistent maps","all functions reachable from the public use API")])
p("C08","Results do not depend on map order, randomness or time",
 "The same grammar text and the same input always produce the same tree, AST, rendered views, unparsed text, validation verdict, cut points, reported differences and generated code. Neither map iteration order, random numbers, time nor addresses influence any of these results.",
 ["inputs","histories","schedules"],"every run of the same operation","A test that runs once cannot see run-to-run variation; map order is randomised per run.",
 ["parser","ast","wbnf","cmd/codegen","gotree"],[("sorting before emitting; order-insensitive accumulation","every range over a map"),("random cut-point identities are only compared for equality","parser/scope.go")])
p("C09","Failures are never swallowed",
 "When something the library or the command-line tool depends on fails - reading a grammar, an import or an input, compiling, parsing, an external handler, formatting or writing generated code - the operation that needed it reports a failure as well. No such failure is dropped, overwritten, or turned into an apparently successful result.",
 ["fault_sequences","inputs"],"every failing call, in every public operation","No test injects I/O or handler failures.",
 ["cmd/gen.go","cmd/test.go","cmd/main.go","cmd/codegen/template.go","wbnf/compile.go","parser/parser.go","parser/terms.go","parser/unparse.go","wbnf/validation.go"],[("error returns checked and propagated","every call that yields an error")])
p("C10","Every grammar construct is handled at every stage",
 "Every kind of term a grammar can contain is accepted by every stage that grammars pass through - parser construction, stack resolution, cut point search and insertion, macro expansion, tree to AST conversion, printing, comparison and code generation - and each stage takes all of the construct's parts into account, in order, dropping none. The only exceptions are the combinations listed as unsupported in the design notes.",
 ["programs"],"every term kind and nesting, at every stage","Tests cover the constructs that their sample grammars happen to use.",
 ["parser/parser.go","parser/resolve.go","parser/terms.go","parser/unparse.go","parser/diff/terms.go","ast/counter.go","ast/from_parsernode.go","ast/to_parsernode.go","wbnf/cutpoints.go","cmd/codegen/grammar.go","cmd/codegen/types.go"],[("one arm per term kind in each traversal","the listed files")])
p("C11","Generated code denotes the same grammar",
 "The grammar literal that the generator writes denotes exactly the grammar it was given: every rule, every term with its constructor, every component and every non-default option, with strings quoted so that they read back unchanged, and in a form that compiles. Stacked rules are emitted as one stack in level order.",
 ["programs"],"every grammar given to the generator","The suite regenerates three small grammars.",
 ["cmd/codegen/grammar.go"],[("literal emission per term kind","cmd/codegen/grammar.go: walkTerm, MakeGrammarString, safeString, GoNode.String")])
p("C12","Grammar and tree comparison is exact",
 "Comparing two grammars reports equality only if both define the same rules and corresponding terms agree in kind and in every component; any difference in a rule set, literal, bound, option, name, child count or nested grammar is reported. The comparison always relates the left operand to the right one and never one operand to itself. The same holds for the node comparison's tags, extras, child counts and child node structure.",
 ["programs","inputs"],"every pair of grammars (and of trees)","Only equal grammars are compared by the suite, so a comparison that misses differences passes.",
 ["parser/diff/terms.go","parser/diff/nodes.go"],[("component-wise diffs and conjunctive Equal methods","parser/diff")])
p("C13","Walking a generated syntax tree visits everything and obeys the visitor",
 "A walk over a generated syntax tree calls the enter callback of every node it visits and, for a node that has children, the enter callback before and the exit callback after its descendants; it visits every child of every node exactly once, the children of a kind in their order. A callback that asks to leave its node skips no more than the remaining children of that node (for a node without children, of its parent), and one that asks to abort stops the whole walk and its request is returned. A callback that is not set is skipped without skipping what is below. From the node types of any other grammar, the generator writes walkers of the same behaviour, and accessors that return all the children of their name.",
 ["programs","inputs"],"every tree, every set of callbacks","Tests install one or two callbacks on small trees and never abort.",
 ["wbnf/wbnfgrammar.go","cmd/codegen/walkerinterface.go","cmd/codegen/template.go","cmd/codegen/types.go"],[("Walk* methods","wbnf/wbnfgrammar.go"),("generator of those methods","cmd/codegen/walkerinterface.go")])
p("C14","Only validated grammars are compiled",
 "Compiling grammar text returns a usable parser only after the text parsed and every validation passed: no undefined or duplicated rule or macro, no invalid regular expression, no label or macro parameter that clashes with a rule, no repeated label in one term, no minimum above its maximum, no call of a non-macro or with the wrong number of arguments, and no left-recursive cycle. Every such finding, wherever it is in the grammar (nested scoped grammars aside, which are not validated), makes compilation fail with an error; a grammar without findings is not refused, and the parsers that are returned are those of the tree that was validated.",
 ["inputs","programs"],"every grammar text","Each validation is tested with one or two offending grammars.",
 ["wbnf/compile.go","wbnf/validation.go","wbnf/recursion.go"],[("validate is on every path to success","wbnf/compile.go: Compile"),("validators registered for every node kind","wbnf/validation.go: validator.walk, findDefinedRules")])
p("C15","Imports are merged completely, once, and terminate",
 "Every file a grammar imports, directly or through other files, is read at most once, its rules become part of the importing grammar, and files that import each other do not cause endless loading. A file that cannot be read or parsed makes the compilation fail. Import paths are resolved relative to the file that contains the import.",
 ["programs","fault_sequences","configurations"],"every graph of importing files","One test imports one file.",
 ["wbnf/compile.go","cmd/test.go"],[("load-once cache and merging","wbnf/compile.go: compiler.makeGrammar, loadGrammarFile, mergeGrammarNodes"),("path resolution","cmd/test.go: resolver.Resolve")])
p("C16","Cut points are inserted only at literals that occur exactly once",
 "A literal becomes a cut point only if it occurs exactly once in the whole grammar, counting every occurrence in alternatives, sequences, stacks, repetitions, separators, names, back-reference defaults and nested grammars, and only if it is neither an optional leading or trailing separator nor part of a lookahead. Inserting cut points changes nothing else in the grammar.",
 ["programs"],"every grammar","Two unit tests check one grammar each.",
 ["wbnf/cutpoints.go"],[("occurrence counting","wbnf/cutpoints.go: findUniqueStrings"),("rewriting","wbnf/cutpoints.go: insertCutPoints, fixTerm, rebuildGrammar")])
p("C17","Tree and AST conversion agree on names and multiplicities",
 "In an AST, a name holds a single child only when the grammar guarantees at most one occurrence of it, and a list otherwise; converting a tree to an AST files each child under the same name and multiplicity that converting back looks it up with. Conversion never overwrites a child already filed under the same name, and it converts every child of a tree node once, in order, with the term that produced it.",
 ["programs","inputs"],"every grammar and tree","Tests round-trip a few sample grammars.",
 ["ast/counter.go","ast/from_parsernode.go","ast/to_parsernode.go"],[("multiplicity arithmetic","ast/counter.go"),("filing and pulling children","ast/from_parsernode.go: add/one/many; ast/to_parsernode.go: pull*")])
p("C18","Separated lists keep order, separators and associativity",
 "A separated list matches a term followed by any number of separator-term pairs, with an extra leading or trailing separator accepted exactly when the grammar says so. Its tree holds terms and separators strictly alternating in input order, with an explicit empty marker before a leading or after a trailing separator, and nests to the left or to the right exactly as its associativity demands, losing nothing.",
 I,"every separated list, associativity and input","Tests cover a few list lengths and rarely leading or trailing separators with associativity.",
 ["parser/parser.go"],[("desugaring to a sequence","parser/parser.go: Delim.Parser"),("reassembly and folding","parser/parser.go: delimParser.Parse"),("associativity table","parser/terms.go: NewAssociativity")])
p("C19","Host-language escapes are bracketed and transparent",
 "When the input offers the configured opening delimiter, the external handler takes over exactly behind it, its tree becomes the result, and parsing resumes behind the closing delimiter, which must follow where the handler stopped; a missing closing delimiter or a handler failure fails the parse. Without the opening delimiter, or without a configured escape, the input is untouched and the ordinary construct is parsed; every construct offers the escape first.",
 I+["fault_sequences"],"every construct, input and handler outcome","One test embeds one handler.",
 ["parser/parser.go","parser/scope.go"],[("parseEscape and its call at the head of every Parse","parser/parser.go"),("escape registration","parser/scope.go: WithExternals, getParserEscape")])
p("C20","A parse failure can always be rendered",
 "The causes recorded in a parse error are those that were known when the error was created: rendering it terminates and shows each failed attempt's own error and, for a literal or pattern, the input at which it failed. No recorded cause can later turn into the error itself or into another attempt's error.",
 I,"every failing parse","Tests look at error texts of very few failures.",
 ["parser/parser.go","parser/error.go"],[("cause closures","parser/parser.go: closures passed to newParseError")])
p("C21","String literal escapes decode the text they consume",
 "In a grammar's string literals each escape sequence decodes exactly the digits that belong to it and consumes precisely those characters; every other character stands for itself and the surrounding quotes are removed. No character is decoded twice or skipped.",
 ["inputs"],"every string literal","The suite uses only simple escapes.",
 ["wbnf/compile.go"],[("escape decoding","wbnf/compile.go: parseString")])
p("C22","Rule references run the rule they name",
 "In a compiled grammar each reference to a rule runs that rule's own definition, wherever the reference occurs: in a sequence, choice, repetition, lookahead, list or nested grammar. Inside a nested grammar its own rules take precedence and all others resolve in the enclosing grammar. In a stack of precedence levels the recursive reference of each level denotes the next level, and that of the last level the whole stack.",
 ["programs"],"every grammar, nesting and reference position","Tests use few reference positions; an unresolved slot only crashes when it is reached by some input.",
 ["parser/parser.go","parser/resolve.go"],[("slot registration and patching","parser/parser.go: cache.registerRule(s), makeParsers, Grammar.Compile, ScopedGrammar.Parser, resolveStacks")])
p("C23","A compiled grammar means what its text says",
 "Each rule of a grammar text defines exactly one rule of the compiled grammar, whose body is built from every part of the text in the order written: names label the term they are attached to, literals, patterns, references, lookaheads, macro calls and groups become the corresponding construct, bars and angle brackets the choice or stack of all their parts, and postfix operators apply left to right to the term they follow. A macro call yields the macro's body with every parameter replaced by the argument at the same position; macros are known wherever the grammar uses them.",
 ["programs"],"every grammar text","Tests compile a few grammars; the combinations of constructs, counts and options are unbounded.",
 ["wbnf/compile.go","wbnf/wbnfgrammar.go"],[("one builder function per kind of syntax node","wbnf/compile.go: grammarBuilder, NewFromAst"),("generated accessors","wbnf/wbnfgrammar.go")])
p("C24","Queries on a syntax tree answer exactly",
 "Asking a syntax tree node for a child of a name yields the child stored under that name, the first of several, or nothing if there is none; asking for all yields every child of that name, in order, and nothing else; asking which of several names is there yields the first of them, in the order asked, that has children, with those children; the number of the chosen alternative is the one recorded, or -1. Two nodes are content-equal exactly when they are of one kind, have the same names, each as a single child or as equally many, and all their texts, extras and children agree pairwise in order.",
 ["inputs"],"every tree and name","Tests compare a few trees that differ visibly.",
 ["ast/node.go","ast/helpers.go"],[("ContentEquals of Leaf, Branch and Extra; One and Many","ast/node.go"),("First, All, Which, Choice","ast/helpers.go")])
N=[
 ("N01","Unparsing a tree reproduces the source text","Writing a parsed tree back with the grammar that produced it yields the source text again, apart from text dropped by whitespace patterns."),
 ("N02","Tree to AST to tree is the identity","Converting a parse tree to an AST and back yields an equal tree for every grammar and input."),
 ("N03","Left recursion is always detected","Every grammar whose parse can recurse without consuming input is rejected by validation, and no other grammar is."),
 ("N04","Compiling never panics","Compiling any text, however malformed, returns an error instead of panicking."),
 ("N05","Parsing terminates in reasonable time","Every parse terminates in time polynomial in the length of the input."),
 ("N06","Error positions name the right line and column","The line and column shown in an error are those of the failure in the source text."),
 ("N07","The grammar language describes itself","Parsing the grammar of the grammar language with the hand-written parser yields the grammar the hand-written parser was built from."),
]
for id,t,s in N:
    p(id,t,s,["inputs","programs"],"every grammar and input","Tests sample a few grammars and inputs.",["parser","ast","wbnf"],[("see DESIGN.md","not decided here")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
