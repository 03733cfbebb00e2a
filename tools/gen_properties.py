import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Syntax trees are lossless and well formed",
 "For every language and every text, the leaves of the parse tree, read left to right, reproduce the input text exactly, including whitespace, comments and invalid characters. Every node's range is exactly the concatenation of its children's ranges, siblings are adjacent without gap or overlap, and parent and child links agree. A node that was given tokens by the grammar never loses them.",
 ["inputs","programs"],"all Unicode texts, for every shipped language and for arbitrary (also randomly generated) grammars, for first parses and reparses",
 "The tests compare dumps of about a hundred hand-written inputs, most of them without whitespace nodes; losslessness is a claim about every text, in particular broken ones.",
 ["fall/tree/src/node/tree_builder.rs","fall/parse/src/syn_engine/convert.rs","fall/parse/src/lex_engine.rs","fall/parse/src/syn_engine/expr.rs"],
 [("tree construction from parse events, re-inserting skipped tokens","fall/parse/src/syn_engine/convert.rs"),("adjacency assertion while ranges grow","fall/tree/src/node/tree_builder.rs"),("leftover tokens wrapped into an error node","fall/parse/src/syn_engine/expr.rs")])
p("C02","Parsing any text succeeds and is deterministic",
 "Parsing any text whatsoever with any shipped language, however malformed, returns a tree: it never panics, never loops forever and never reads outside the text. Parsing the same text again, with the same or a freshly created language object, returns an identical tree.",
 ["inputs"],"all Unicode texts (including the empty text, truncated programs, garbage and exotic code points) for every shipped language",
 "Tests parse well-formed or lightly damaged samples; totality quantifies over all texts.",
 ["fall/parse/src/syn_engine/expr.rs","fall/parse/src/lex_engine.rs","fall/parse/src/lib.rs","lang/rust/syntax/src/rust.rs","lang/fall/syntax/src/fall.rs","lang/json/src/json.rs","lang/bnf/src/bnf.rs"],
 [("error tokens for unlexable input","fall/parse/src/lex_engine.rs"),("error recovery and leftover handling","fall/parse/src/syn_engine/expr.rs")])
p("C03","Incremental reparse equals a fresh parse",
 "After any sequence of edits applied to a file, the resulting tree (types, ranges, whitespace, errors) is identical to the one obtained by parsing the resulting text from scratch. The file's text is exactly the edited text.",
 ["inputs","histories"],"all texts and all histories of edits made of ordered, non-overlapping insertions, deletions and replacements, for every shipped language",
 "Two property tests apply a single random edit to a few fixed files; reuse of stale tokens or cached subtrees depends on the particular edit boundary, on lookahead and on the preceding history.",
 ["fall/parse/src/lex_engine.rs","fall/parse/src/syn_engine/mod.rs","fall/parse/src/syn_engine/parser.rs","fall/parse/src/lib.rs","fall/tree/src/lang.rs"],
 [("relexing only around edits","fall/parse/src/lex_engine.rs relex"),("salvaging cached event segments","fall/parse/src/syn_engine/mod.rs salvage_segments"),("cache lookup by text position","fall/parse/src/syn_engine/parser.rs get_from_cache")],
 state=[("incremental data","tokens and parse events of the previous version","fall/parse/src/lib.rs")])
p("C04","Text and file edits compute exactly the described text",
 "Applying an edit built from ordered insertions, deletions and replacements gives exactly the text obtained by performing these operations on a plain string; text outside the edited ranges is preserved byte for byte. The same holds for tree-level edits (delete, replace, replace substring, insert after a node). Text slices, searches and range arithmetic agree with the same operations on plain strings and integer intervals.",
 ["inputs"],"all texts (multi-byte included), all ordered lists of edit operations, all nodes of all trees",
 "One unit test builds one edit of one ASCII string; tree-level edits are only exercised through a handful of editor actions.",
 ["fall/text/src/text_edit.rs","fall/tree/src/edit.rs","fall/text/src/text.rs","fall/text/src/text_range.rs"],
 [("edit builder","fall/text/src/text_edit.rs"),("tree edit to text edit","fall/tree/src/edit.rs"),("text views","fall/text/src/text.rs")])
p("C05","Tokenization is longest-match, earliest-rule, total",
 "Every text splits into tokens left to right, each being the longest match among the lexical rules, with ties going to the rule listed first and a custom scanning function, when given, deciding the token's extent. Characters no rule accepts form an error token that extends exactly to the next position where some rule does produce a token.",
 ["inputs","programs"],"all texts and all sets of lexical rules (regular expressions, literals and custom functions), including those of the shipped languages",
 "Tests never look at tokens directly and only see a few dozen distinct token texts; overlap between rules, error tokens and custom scanners need systematic inputs.",
 ["fall/parse/src/lib.rs","fall/parse/src/lex_engine.rs","lang/rust/syntax/src/rust.rs","lang/fall/syntax/src/fall.rs"],
 [("rule table to lexer","fall/parse/src/lib.rs RegexLexer"),("tokenization loop","fall/parse/src/lex_engine.rs lex")])
p("C06","The engine implements the grammar operators exactly",
 "For every grammar and text, the tree is the one the operators prescribe: ordered choice takes the first alternative that matches and undoes failed ones completely, sequence, repetition, option and negative lookahead are greedy and side-effect free on failure, end-of-input and any-token behave as named, contextual tokens match by text, parameterized rules substitute their arguments, and contexts are visible exactly inside the expression that enters them and until one exits them. Commit turns a failure after the commit point into an error node at the failure position and success, a layer confines its body to the tokens its delimiter covers and marks the unconsumed ones as an error, and skipping wraps exactly the skipped tokens in one error node.",
 ["inputs","programs"],"all grammars (operator trees over tokens and rules, including type-replacing, injected and parameterized rules) and all texts",
 "The tests use seven fixed grammars; interactions between operators (rollback inside lookahead inside a layer...) are only defined over all grammars.",
 ["fall/parse/src/syn_engine/expr.rs","fall/parse/src/syn_engine/parser.rs","fall/parse/src/syn_engine/convert.rs"],
 [("expression interpreter","fall/parse/src/syn_engine/expr.rs"),("event rollback and predicate mode","fall/parse/src/syn_engine/parser.rs"),("forward parents","fall/parse/src/syn_engine/convert.rs")])
p("C07","Damage inside a delimited block stays inside it",
 "In the shipped languages with brace-delimited blocks, replacing the inside of a block by arbitrary tokens with balanced braces (balanced, too, in any other delimiters the block itself stands in) changes nothing in the tree outside that block: every other top-level item keeps its node, type and contents, and the damaged item itself remains an item of its kind.",
 ["inputs"],"all programs, all blocks in them and all brace-balanced replacements of a block's contents",
 "Tests contain a few recovery examples per language with one fixed piece of garbage each.",
 ["fall/parse/src/syn_engine/expr.rs","lang/rust/syntax/src/rust.fall","lang/rust/syntax/src/rust.rs","lang/fall/syntax/src/fall.fall","lang/fall/syntax/src/fall.rs"],
 [("layers","fall/parse/src/syn_engine/expr.rs parse_layer"),("skip to a synchronizing token","fall/parse/src/syn_engine/expr.rs parse_with_skip"),("balanced-block rules","lang/rust/syntax/src/rust.fall")])
p("C08","Operator expressions follow priority and associativity",
 "An expression grammar declared with atoms, prefix, postfix and binary operators parses every operator sequence into the tree its priorities prescribe: a higher priority binds tighter, equal priorities associate to the left, postfix and prefix operators apply by their own priority. A binary operator without a right operand still yields its node, with an error node in place of the operand.",
 ["inputs","programs"],"all operator tables and all expressions over them, including incomplete ones",
 "Tests check one table with two binary levels on nine expressions.",
 ["fall/parse/src/syn_engine/pratt.rs","fall/gen/src/generate/codegen.rs"],
 [("precedence climbing loop","fall/parse/src/syn_engine/pratt.rs"),("re-parenting of the left operand","fall/parse/src/syn_engine/convert.rs reshuffle_events")])
p("C09","Generated parsers implement the grammar they come from",
 "A parser generated from a grammar text free of diagnostics compiles, and accepts and structures every input exactly as the grammar text says: token list in order with their patterns, public rules as nodes under their declared type, operators, calls with their arguments, contexts, attributes (pratt, replaceable, cached...) and generated accessor code for every declared method. Generation is deterministic and depends only on the tokens of the grammar text, and malformed grammars are refused with an error, not with a panic.",
 ["programs","inputs"],"all grammars free of diagnostics (whose names are usable as Rust names and do not collide with the generated file's own), and all inputs of the resulting language",
 "The only test regenerates the repository's own seven grammars; nothing checks the generator on another grammar.",
 ["fall/gen/src/generate/codegen.rs","fall/gen/src/generate/mod.rs","lang/fall/src/analysis/query/resolve_call.rs","lang/fall/src/analysis/query/resolve_pratt_variant.rs","lang/fall/syntax/src/ast_ext.rs"],
 [("compilation of rule bodies","fall/gen/src/generate/codegen.rs"),("template","fall/gen/src/generate/mod.rs")])
p("C10","Tree navigation and typed views agree with the tree",
 "For every tree, node and offset, the leaf or pair of leaves at an offset, the smallest node covering a range, siblings, ancestors, descendants by type, traversals and visitors return exactly what a naive scan of the whole tree returns. Typed accessors return exactly the children their type selects, and wrap exactly the node types they declare.",
 ["inputs"],"all trees (broken programs and empty nodes included), all offsets, ranges and nodes",
 "Navigation is used indirectly by a few editor tests on small well-formed files.",
 ["fall/tree/src/search.rs","fall/tree/src/visitor.rs","fall/tree/src/ast.rs","fall/tree/src/util.rs","fall/tree/src/node/imp.rs","lang/fall/syntax/src/fall.rs","lang/rust/syntax/src/rust.rs"],
 [("offset search","fall/tree/src/search.rs"),("visitors","fall/tree/src/visitor.rs"),("typed children","fall/tree/src/ast.rs")])
p("C11","Editor queries are total and stay inside the file",
 "Every editor query (syntax tree, structure, highlighting, diagnostics, formatting, context actions and applying them, selection extension, definition and usages, breadcrumbs, typing assists) answers for every text, offset and range without panicking, however broken the text. All reported ranges lie inside the file on character boundaries, and all proposed edits apply cleanly to the text.",
 ["inputs"],"all texts for the grammar editor and the Rust editor, all offsets and ranges on character boundaries",
 "Editor tests use well-formed snippets with one caret; editors call these on every keystroke, that is, mostly on incomplete text.",
 ["lang/fall/src/editor/mod.rs","lang/fall/src/editor/highlighting.rs","lang/fall/src/analysis/query/mod.rs","lang/fall/src/analysis/query/resolve_method.rs","lang/fall/src/analysis/query/resolve_pratt_variant.rs","lang/rust/src/editor/mod.rs","lang/rust/src/editor/actions.rs","fall/editor/src/lib.rs"],
 [("queries tolerate missing children","lang/fall/src/analysis/query"),("rust editor","lang/rust/src/editor/mod.rs")])
p("C12","Extending the selection grows along the tree to the file",
 "Extending a non-empty selection yields a range that contains it and is strictly larger, equals the range of a tree node, and is the smallest such range above the nodes covering it; repeating it reaches the whole file in finitely many steps and then reports no further extension. Extending from a caret selects the token at the caret, preferring a non-whitespace one; a caret in the indentation of a line selects the node that covers the rest of that line.",
 ["inputs"],"all texts, all starting offsets and ranges",
 "One test extends one caret three times.",
 ["fall/editor/src/extend_selection.rs","fall/tree/src/search.rs"],
 [("selection by covering node","fall/editor/src/extend_selection.rs")])
p("C13","Context actions apply exactly when offered and preserve content",
 "An action listed for a range can be applied there, and an action not listed cannot. Swapping (comma-separated elements or alternatives) is offered at separators between two siblings of the same kind, exchanges exactly these two and keeps all other text, and doing it twice at the separator restores the text; extracting a rule (from an expression that is not itself the body of a rule) replaces the selected expression by a reference to a new rule holding exactly that expression, set apart by a blank only from words that touch it, so inlining the new rule restores the original text.",
 ["inputs"],"all texts, all ranges, every offered action in the grammar and Rust editors",
 "Tests apply each action to one or two snippets.",
 ["fall/editor/src/actions.rs","lang/fall/src/editor/actions/swap_alternatives.rs","lang/fall/src/editor/actions/extract_rule.rs","lang/rust/src/editor/actions.rs"],
 [("dry run versus apply flag","fall/editor/src/actions.rs"),("tree edits","fall/tree/src/edit.rs")])
p("C14","Formatting changes only whitespace, as its rules say, once",
 "Formatting a grammar file changes nothing but whitespace inside lines: the sequence of non-whitespace tokens, the comments, the line structure and the parse tree apart from whitespace are unchanged. White space containing line ends is left alone. In files without syntax errors, pipes that share a line with their neighbours have single spaces around them afterwards and angle brackets have none inside. Formatting again changes nothing.",
 ["inputs"],"all grammar texts, well formed and broken",
 "Two snippets are formatted in tests.",
 ["lang/fall/src/editor/formatter.rs","fall/tree/src/edit.rs"],
 [("spacing rules","lang/fall/src/editor/formatter.rs")])
p("C15","Definitions and usages agree with the scoping rules",
 "In a grammar file, going to the definition of a name yields the parameter of the enclosing rule if there is one of that name, otherwise the first rule, otherwise a token of that name, and nothing for undefined names; the selector of a method argument leads to the node, class or token type it names. The usages of a declaration are exactly the references that resolve to it, each reported once, and asking from a usage gives the same set as asking from the declaration.",
 ["inputs","programs"],"all grammar texts, all offsets",
 "One test asks for usages at one offset.",
 ["lang/fall/src/editor/references/mod.rs","lang/fall/src/editor/references/refdec.rs","lang/fall/src/analysis/query/resolve_ref_expr.rs","lang/fall/src/analysis/query/resolve_call.rs","lang/fall/src/analysis/query/resolve_method.rs","lang/fall/src/analysis/query/mod.rs"],
 [("reference providers","lang/fall/src/editor/references/mod.rs"),("name resolution queries","lang/fall/src/analysis/query")])
p("C16","Diagnostics are complete, precise and reported once",
 "For a grammar file without syntax errors, the diagnostics are exactly the problems present: each unresolved reference, call or trait, wrong number of arguments, duplicate rule or token, unused rule, malformed operator rule, context that is not a string literal and context used only once is reported once at the place it occurs, and nothing else is. They come ordered, errors before warnings and by position, and asking again, in whatever order other queries ran before, gives the same list.",
 ["inputs","programs","histories"],"all syntactically valid grammar texts and all orders of queries",
 "Unit tests check about fifteen single-problem snippets on a fresh analysis.",
 ["lang/fall/src/analysis/mod.rs","lang/fall/src/analysis/db.rs","lang/fall/src/analysis/diagnostics.rs","lang/fall/src/analysis/query"],
 [("diagnostics recorded when a query result is first cached","lang/fall/src/analysis/db.rs"),("sorted collection","lang/fall/src/analysis/mod.rs")],
 state=[("diagnostics list","accumulated by query executions","lang/fall/src/analysis/db.rs")])
p("C17","Concurrent use gives the sequential answers",
 "Any number of threads may share languages, files, analyses and symbol indexes and query them concurrently: every answer equals the one a single thread gets, no diagnostic is lost or duplicated, and no interleaving deadlocks or races.",
 ["schedules"],"all interleavings of parses, reparses and analysis queries over shared objects",
 "The only concurrency test asserts at compile time that the analysis type may be shared.",
 ["lang/fall/src/analysis/db.rs","lang/fall/src/analysis/mod.rs","fall/tree/src/lang.rs","fall/tree/src/metrics.rs","lang/rust/src/editor/symbol_index.rs","indxr/src/lib.rs"],
 [("per-query locked caches, inserted once","lang/fall/src/analysis/db.rs"),("immutable trees","fall/tree/src/node"),("lazily created languages","generated parsers")])
p("C18","The file index converges to the files on disk",
 "A file index over a set of roots contains, once the file system has been quiet, exactly one up-to-date entry for every matching file under the roots, whatever creations, modifications, deletions, renames and directory moves happened before, during and after its start. It never reports files that do not match the extension, and queries may run at any time. (The roots themselves stay in place; symbolic links are not followed.)",
 ["histories","schedules"],"all histories of file-system operations under the roots, concurrent with indexing and querying; convergence is checked within a bounded time of quiescence",
 "There are no tests for the index at all.",
 ["indxr/src/lib.rs"],
 [("initial walk plus change notifications","indxr/src/lib.rs"),("per-file cache keyed by path","indxr/src/lib.rs")])
p("C19","Symbol search finds exactly the matching symbols",
 "Searching the Rust symbol index returns only symbols of the indexed files whose name, lowercased letter by letter, contains the lowercased query letters in order, and every such symbol up to the result limit. Without a '#' in the query only types are searched, falling back to all symbols when no type matches. Each result carries its file, its exact name, the byte range of its item in that file, and the zero-based lines and columns of that range, columns counting UTF-16 code units as editors do.",
 ["inputs","histories"],"all sets of Rust files and all queries",
 "There are no tests for the symbol index.",
 ["lang/rust/src/editor/symbol_index.rs","lang/rust/src/editor/line_index.rs","lang/rust/src/editor/fst_subseq.rs","lang/rust/src/editor/mod.rs"],
 [("subsequence automaton over a sorted symbol map","lang/rust/src/editor/fst_subseq.rs"),("line index","lang/rust/src/editor/line_index.rs")])
p("C20","Whitespace and comments attach where the language says",
 "Skipped tokens never appear as the first or last child of a node other than the file, except when the language's attachment rule claims them; they are placed as far up the tree as possible. In Rust, the line comments directly above a struct, with no other line break between, are part of the struct, and comments separated from it by a blank line, block comments, and the comments above other items are not.",
 ["inputs"],"all texts in all shipped languages; all layouts of comments and blank lines before items",
 "Two Rust test files show attached comments.",
 ["fall/parse/src/syn_engine/convert.rs","lang/rust/syntax/src/lib.rs","lang/rust/syntax/src/rust.rs","lang/rust/syntax/src/rust.fall"],
 [("whitespace binder","fall/parse/src/syn_engine/convert.rs and the language's verbatim code")])
p("C21","Reparsing a local edit does local work",
 "After an edit inside one item of a large file without errors, reparsing relexes only a bounded neighbourhood of the edit and reuses the parse of the untouched items, so that the measured work is a small fraction of a full parse and does not grow with the size of the untouched part beyond a small per-item cost.",
 ["inputs","histories"],"all large error-free files of the languages that declare reusable rules, and all edits local to one item",
 "Nothing in the tests looks at the work done; a disabled cache produces the same trees.",
 ["fall/parse/src/lex_engine.rs","fall/parse/src/syn_engine/mod.rs","fall/parse/src/syn_engine/parser.rs","fall/parse/src/syn_engine/expr.rs","fall/tree/src/metrics.rs"],
 [("token reuse","fall/parse/src/lex_engine.rs relex"),("event reuse","fall/parse/src/syn_engine/mod.rs"),("work metrics","fall/tree/src/metrics.rs")])
p("C22","The editor extensions keep editor and library exactly in step",
 "After any history of document events (open, single and multiple changes, switching, close and reopen, formatting, actions), the native file behind the VS Code extensions has exactly the document's text. Positions and ranges convert exactly between the editor (lines, UTF-16 columns) and the library (byte offsets), also behind non-ASCII text, and every text edit of the library becomes equivalent editor edits. Whatever the extensions show or change (colours, diagnostics, outline, definitions, usages, formatting, actions, selection, breadcrumbs, symbols, syntax tree, tests) is what the library answers for that document at that place.",
 ["histories","inputs"],"all histories of document events over grammar and Rust documents with any text, and all questions and edits",
 "The extensions and their native modules have no tests and are not even built by the workspace.",
 ["code/common.ts","code/fall/src/main.ts","code/rust/src/main.ts","code/generic_backend/src/lib.rs","code/fall/native/src/lib.rs","code/rust/native/src/lib.rs","fall/editor/src/lib.rs"],
 [("documents mirrored by native files, updated by change events","code/common.ts"),("conversion of positions, ranges and edits","code/common.ts and code/generic_backend/src/lib.rs")])
p("C23","Shipped grammars accept well-formed programs faithfully",
 "Every well-formed program of a shipped language, in any layout, parses without error nodes into the tree its structure dictates: each item, expression, member or element appears as a node of its kind, in order and with the right nesting. In JSON and BNF, texts outside the language contain an error node.",
 ["programs","inputs"],"all programs derivable from the languages' grammars (JSON, BNF, arithmetic, s-expressions, the grammar language itself and a large subset of Rust), in all whitespace layouts",
 "Tests pin a few dozen samples.",
 ["lang/json/src/json.fall","lang/json/src/json.rs","lang/bnf/src/bnf.rs","lang/fall/syntax/src/fall.rs","lang/rust/syntax/src/rust.rs","fall/test/src/arith.rs","fall/test/src/sexp.rs"],
 [("grammars and the parsers generated from them","lang/*/src"),("engine","fall/parse/src/syn_engine")])
p("C24","An edited editor file behaves like a freshly opened one",
 "After any history of edits, every editor query on the current file (diagnostics, highlighting, structure, definitions, usages, actions, formatting, breadcrumbs) gives exactly the answer of a file freshly opened with the same text; earlier versions of the file still give their own answers.",
 ["histories","inputs"],"all histories of edits on grammar and Rust files, and all interleavings with queries on old and new versions",
 "Tests never query a file after editing it.",
 ["lang/fall/src/editor/mod.rs","lang/fall/src/analysis/mod.rs","lang/rust/src/editor/mod.rs","fall/tree/src/lang.rs"],
 [("edit returns a new immutable file with a fresh analysis","lang/fall/src/editor/mod.rs")])
p("C25","No undefined behaviour while parsing and analysing",
 "Driving parsing, reparsing, tree navigation and grammar analysis on any input, from any number of threads, executes no undefined behaviour: no out-of-bounds or use-after-free access, no uninitialized read, no data race, and no arithmetic overflow.",
 ["inputs","schedules"],"all inputs and schedules that reach the unsafe code (event rollback, self-referential analysis)",
 "Undefined behaviour usually leaves test results unchanged, and no test runs under a sanitizer.",
 ["fall/parse/src/syn_engine/parser.rs","lang/fall/src/analysis/mod.rs"],
 [("length assertion before truncation","fall/parse/src/syn_engine/parser.rs rollback"),("self-referential cell","lang/fall/src/analysis/mod.rs")])
p("C26","Highlighting, outline, breadcrumbs and typing assists describe the code",
 "In a grammar file every keyword, string, comment, rule definition, token, reference and call gets exactly the colour of its kind, and the test at an offset is the one around it; in a Rust file errors are coloured. The outline lists each rule, tokenizer and AST block (in Rust: each named function, type, trait and module) exactly once, with its name and range, and breadcrumbs name exactly the items around the offset from the outside in. The Rust typing assists react where, and only where, the code before the caret calls for it, and change just that. The shown syntax tree lists exactly the nodes of the parse tree, without blanks, with their depths and texts.",
 ["inputs"],"all grammar and Rust texts (sound or broken) and all offsets in them",
 "A handful of small fixed samples show one highlighting, one outline and four typing assists.",
 ["lang/fall/src/editor/highlighting.rs","lang/fall/src/editor/structure.rs","lang/fall/src/editor/mod.rs","lang/rust/src/editor/mod.rs","lang/rust/src/editor/file_symbols.rs","fall/editor/src/hl.rs","fall/editor/src/lib.rs","fall/tree/src/util.rs","fall/tree/src/visitor.rs"],
 [("visitors over the syntax tree","fall/tree/src/visitor.rs"),("colour map","fall/editor/src/hl.rs"),("name owners","lang/rust/src/editor/file_symbols.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
