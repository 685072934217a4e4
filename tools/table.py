prop("C01", "Parsing loses and changes no text",
  "Parsing splits text into pieces and never alters it: the texts of all nodes of all scopes, joined in order, are byte for byte the parsed text from its first scope on. For a gofmt-formatted Go file that begins with a comment or the package clause at the start of a line this is the whole file, whatever comments, literals, generics, nesting or line ends it holds.",
  ["inputs", "programs"], "Every byte sequence handed to ParseScope and every formatted Go file.",
  "The tests parse about twenty fixed snippets and compare a few node lists; they never compare the joined text for arbitrary token sequences, lexical states or comment positions.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go", "node.go"],
  [("byte-wise extraction into nodes", "extractor.go: extract"), ("splitting the chain into scopes", "scope.go: ParseScope"), ("merging the nodes of a type", "kind_resetter_type.go, kind_resetter_parenthesis.go; node.go: CombineNext")],
  "Exhaustive over the stated token, byte and program alphabets up to their bounds; nothing is claimed beyond them. " + ORC_ST,
  ENUM + "token, byte and program sequences; oracle: joined text == input",
  observe=["ParseScope -> Scope.Node -> Node.IterNext -> Node.Text"])

prop("C02", "Literals, comments and tokens are single nodes with the right kind",
  "Every string, raw string and rune literal and every comment of the input is exactly one node (or lies whole inside one type node), and no delimiter or quote inside it opens, closes or splits anything. In scopes other than func and type every node is exactly one lexical token with that token's own kind, and in func and type scopes a node that spans several tokens is a type.",
  ["inputs", "programs"], "Every byte sequence and every formatted Go file: all nestings and orders of quotes, escapes, comment marks and delimiters.",
  "The tests hold a handful of literals; the lexical state machine has unbounded state sequences (escapes before quotes, comment marks in strings, quotes in comments, ends of text in the middle).",
  ["extractor.go", "charset/charset.go", "kind/kind.go"],
  [("lexical state machine", "extractor.go"), ("separator set", "charset/charset.go"), ("initial kind of a token", "kind/kind.go: New")],
  "Exhaustive over the stated alphabets up to their bounds. " + ORC_ST,
  ENUM + "token, byte and program sequences; oracle: reference lexer validated against go/scanner on every program")

prop("C03", "Line numbers of nodes and scopes are the lines of the text",
  "The line number of every node is the number of line breaks before its first byte, plus the start line handed to the parser (so 0-based from 0), also after multi-line comments, raw strings and merged nodes. A scope's line is the 1-based line of its first node, and a node chain made from texts numbers its nodes the same way from its start line.",
  ["inputs", "programs"], "Every text, every start line, every placement of line breaks inside and between tokens.",
  "Tests compare single line numbers of a few snippets with start line 0; line counting depends on every preceding token.",
  ["extractor.go", "scope.go", "node.go"],
  [("line counter of the extractor", "extractor.go"), ("start line offset", "scope.go: ParseScope"), ("scope line", "scope.go: Line"), ("line of chained nodes", "node.go: NewNodes")],
  "Exhaustive over the stated alphabets up to their bounds. " + ORC_ST,
  ENUM + "token, byte and program sequences and start lines; oracle: line breaks counted in the text")

prop("C04", "Scopes are exactly the top-level declarations and comments",
  "A parsed text has one scope for every top-level line that starts with a declaration keyword (package, import, var, const, type, func) or a comment, in order, with the matching kind, reaching to the start of the next one. Lines inside of brackets, literals or multi-line comments start none, nor do identifiers that merely begin like a keyword.",
  ["inputs", "programs"], "Every text and every formatted Go file, with any nesting, literal contents and blank or comment lines between declarations; a comment or keyword at the start of a line outside of brackets starts a scope even within a declaration.",
  "Tests check the scopes of a few fixed files; whether a line is at top level depends on everything before it.",
  ["scope.go", "scope/scope_kind.go", "extractor.go"],
  [("bracket depth and keyword at line start", "scope.go: ParseScope, newScopeKind"), ("scope keywords", "scope/scope_kind.go")],
  "Exhaustive over the stated alphabets up to their bounds; declarations preceded by a comment on the same line belong to the comment's scope (the library's documented line rule). " + ORC_ST,
  ENUM + "token, byte and program sequences; oracle: reference scoping validated against go/parser on every program")

prop("C05", "Func, method and receiver names are the declared ones",
  "For every func or method declaration of a formatted Go file the func name getter yields its declared name; the method getters yield the name and the receiver's type as written (star included, up to its type arguments) exactly when the declaration has a receiver. For every other scope these getters report false.",
  ["programs"], "Every func or method declaration: any name, receiver form, type parameters, parameters, results, body and comments, as long as no line of it starts another scope (C04).",
  "Tests call the getters on a few samples; a name is found by scanning node kinds which every other part of the signature influences.",
  ["scope.go", "kind_resetter_func.go", "kind_resetter_all.go"],
  [("name and receiver marking", "kind_resetter_func.go"), ("getters", "scope.go: GetFuncName, GetMethodName, GetMethodReceiver")],
  "Exhaustive over the program grammar up to the stated number of departures from the default program. " + ORC_ST,
  ENUM + "programs; oracle: go/ast declarations")

prop("C06", "Type, struct and interface names are the declared ones",
  "For every ungrouped type declaration of a formatted Go file the type name getter yields the declared name; the struct and the interface name getter report true, with that name, exactly when the declared type itself (or the type it is an alias for) is a struct or an interface literal. For every scope that is no type declaration they report false.",
  ["programs"], "Every type declaration: names, type parameters, aliases, all forms of declared type, comments in between, as long as no line of it starts another scope (C04).",
  "Tests call the getters on a few samples; struct or interface may occur anywhere in the declared type.",
  ["scope.go", "kind_resetter_type.go"],
  [("type name marking", "kind_resetter_type.go"), ("getters", "scope.go: GetTypeName, GetStructName, GetInterfaceName, typeNode")],
  "Exhaustive over the program grammar up to the stated number of departures. " + ORC_ST,
  ENUM + "programs; oracle: go/ast type specs")

prop("C07", "Declared names and types carry their role as node kind",
  "In func, method and ungrouped type declarations the node of each declared func, type, receiver, parameter, result and struct field name, and of each interface method name, carries the kind of that role; the node of a named or pointer type of a parameter, result, named field or receiver carries the parameter type or receiver type kind. Every other token outside of a type keeps the kind of the token itself.",
  ["programs"], "Every func, method, struct, interface and other type declaration, with grouped and unnamed parameters, variadics, nested func types, tags, embedded fields and comments, as long as no line starts another scope (C04) and no comment stands for a semicolon by its line breaks.",
  "Tests list the kinds of a few signatures; roles depend on look-ahead and look-behind over arbitrary nested types.",
  ["kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go", "kind_resetter_all.go"],
  [("parameter list", "kind_resetter_parenthesis.go"), ("func", "kind_resetter_func.go"), ("struct and interface bodies", "kind_resetter_type.go")],
  "Exhaustive over the program grammar up to the stated number of departures; members of structs, interfaces and funcs nested inside another type, and tokens inside a type, are only required to keep their own kind or the type kind. " + ORC_ST,
  ENUM + "programs; oracle: roles derived from go/ast")

prop("C08", "Node chains are doubly linked lists under every edit",
  "Under every sequence of node edits (InsertPrev/InsertNext, ReplacePrev/ReplaceNext, RemovePrev/RemoveNext, TakePrev/TakeNext, Isolate and the like) the nodes form doubly linked lists: next and prev are mutual, no node is lost, duplicated or in two places, and every list is what the edit says. Each edit returns the nodes that it detached (the old neighbours), changes nothing else, and never alters a node's text, kind or line; iteration, First and Last agree with the links, and an iteration whose callback edits the list goes on along the links as they then are.",
  ["histories"], "Every set of chains, every node and argument (nil included) and every sequence of edits.",
  "Tests link two or three nodes in one way each; pointer surgery goes wrong for particular relative positions (neighbours, same list, ends, self) and only after particular histories.",
  ["node.go"],
  [("linking", "node.go: setPrev, setNext, InsertPrev, InsertNext, ReplacePrev, ReplaceNext"), ("unlinking", "node.go: RemovePrev, RemoveNext, TakePrev, TakeNext, Isolate"), ("iteration", "node.go: IterNext, IterPrev, First, Last")],
  "Exhaustive over chains and histories up to the bounds, on the real nodes: the list model only says what to expect. Edits without a specified result (a nil receiver with a node to insert, a replacement that would close a ring) are outside.",
  "explicit-state model checking: breadth-first search of all reachable list states, every transition replayed on real nodes; exhaustive edit histories; oracle: list model",
  observe=["Node.Next", "Node.Prev", "Node.IterNext", "Node.IterPrev", "Node.First", "Node.Last"])

prop("C09", "Copies of nodes, scopes and asts are equal and independent",
  "A copied node has the same text, kind and line, alone or with copies of all of its relatives in the same order and at the same position; a copied scope or ast has the same kind, line, names, path, nodes and package. No node is shared: any edit of the copy leaves the original as it was, and the other way round.",
  ["histories", "inputs"], "Every chain shape, every node of it, every parsed program, and every edit of either side.",
  "Tests copy one small chain; sharing shows only when a particular node of one side is edited afterwards.",
  ["node.go", "scope.go", "ast.go"],
  [("node copy", "node.go: Copy, deepCopy"), ("scope copy", "scope.go: Copy"), ("ast copy", "ast.go: Copy")],
  "Exhaustive over chain shapes, single edits and the program grammar up to the bounds; chains up to 100000 nodes at single lengths.",
  "exhaustive enumeration of chain shapes, copied nodes and edits on the real code; oracle: list model and link-by-link comparison",
  observe=["Node.Copy", "Scope.Copy", "Ast.Copy"])

prop("C10", "Asts are values: no history of one ast changes another",
  "After every history of NewAst, SetScope, AppendScope and Copy each ast has exactly the scopes that its own history gave it, in order; SetScope returns a new ast with the same path and leaves its receiver alone. AppendScope never changes another ast or a slice that a caller holds; IterScope visits the scopes in order and stops when told; Package is the name of the first package scope.",
  ["histories"], "Every history of ast operations over several asts that share scope slices with spare capacity.",
  "Tests set or append once on one ast; aliasing of slices needs two asts, spare capacity and a particular order of appends.",
  ["ast.go", "scope.go"],
  [("append", "ast.go: AppendScope"), ("set", "ast.go: SetScope"), ("copy", "ast.go: Copy"), ("package name", "ast.go: findPackageName")],
  "Exhaustive over histories of 3 (thorough: 4) operations over up to 4 (5) asts, 7 scope lists and 3 files, and single appends up to 600 (5000) times; whether a copy's scopes are deep is C09's.",
  "exhaustive enumeration of operation histories on the real code; oracle: list model compared after every step",
  observe=["Ast.Scope", "Ast.IterScope", "Ast.Package"])

prop("C11", "Saving writes the gofmt form of the scopes' text, and it parses back",
  "Saving scopes or an ast to a file writes exactly the joined text of all of their nodes, formatted as gofmt does, and with auto import also with its imports fixed as goimports does; text that cannot be formatted is written as it is. The file is replaced completely, missing directories are made and a missing .go suffix is added; parsing the saved file yields the same scopes as parsing the formatted text.",
  ["inputs", "programs"], "Every program and every list of scopes, saved to new and existing files.",
  "Tests save one file and look at nothing but the error; whether the contents survive depends on the text, the old contents and the path.",
  ["ast.go", "scope.go", "helper/helper.go"],
  [("join and save", "ast.go: Save; scope.go: scopes.Save"), ("format and write", "helper: SaveFile, FormatCode")],
  "Exhaustive over the program grammar and token sequences up to the bounds. go/format (and goimports) define the expected bytes; each input is formatted by them on its own.",
  ENUM + "programs and token sequences through real files; oracle: go/format, goimports, byte comparison",
  observe=["Scope.Save", "Ast.Save", "ParseAst"])

prop("C12", "A failed save or read is reported, leaks nothing and harms no other file",
  "Whenever the file does not hold the whole formatted text after a save, the save returns an error, and it returns none when it does; a read that fails returns an error (ErrNotExist for a missing file). No file descriptor stays open after any call, failing or not, and no file other than the target is changed.",
  ["fault_sequences", "histories"], "Every byte at which the file system stops taking data, every kind of broken place, every sequence of failing and successful calls.",
  "The tests never make an operation fail; short writes, full disks, missing rights and exhausted descriptors do not happen in them.",
  ["helper/helper.go", "ast.go", "scope.go"],
  [("write and close", "helper: SaveFile"), ("read", "helper: ReadFile"), ("errors", "ast.go: ParseAst")],
  "Every byte limit from 0 to beyond the text's size is enforced by the real kernel (RLIMIT_FSIZE) in a scratch directory; errors that only close(2) reports are not produced.",
  "exhaustive fault enumeration on the real code: every write cut-off, 17 kinds of places, all call histories up to 4 (thorough: 5)",
  level="fault_enumeration", observe=["Ast.Save", "ParseAst", "/proc/self/fd"])

prop("C13", "Any bytes are parsed without panic, hang or loss",
  "Parsing any byte sequence at all (invalid Go, broken UTF-8, unbalanced brackets, text that ends anywhere, deep nesting, long repetition) ends without a panic and without taking unreasonable time, and no text of its scopes is lost. All read accesses of the result, and all operations on nil nodes and empty inputs that the library documents or guards, work without a panic.",
  ["inputs"], "Every byte sequence, every nesting depth and size.",
  "Tests parse valid Go only; a crash needs a cut in the middle of some state or a deep or long input.",
  ["extractor.go", "scope.go", "node.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go"],
  [("extraction", "extractor.go"), ("look-ahead on node chains", "node.go: findNext, skipNestNext"), ("resetters", "kind_resetter_*.go")],
  "Exhaustive over byte pairs (thorough: triples) in 12 lexical states, token sequences up to 3, and 56 one-parameter families up to size 64 (300) and at single sizes up to 10000 (each has to end within 100 s); 58 units repeated 100000 (500000) times at 27 places of declarations (15 s each, func types excepted, whose nesting costs quadratic time).",
  ENUM + "bytes, tokens and one-parameter families; oracle: no panic, bounded time, joined text == input",
  observe=["ParseScope", "panics"])

prop("C14", "Results depend on the inputs alone and inputs are left alone",
  "Parsing a text, and reading, copying or describing nodes, scopes and asts, depend on nothing but their inputs and change none of them: the same bytes and start line give the same scopes in whatever order, after whatever other calls and edits of other results, with debug output on or off, and when several goroutines parse, read or copy at once, without data races. The input bytes are neither modified nor referred to by the result, and with debug output off nothing is printed.",
  ["inputs", "schedules", "histories"], "Every text, every history of calls in a process, every order of iterations over maps, every schedule of goroutines that share no more than what they read.",
  "A test runs one call after the other in one process, under the schedule and the map order it happens to get; shared state, aliasing and order dependence show in none of them.",
  ["extractor.go", "scope.go", "node.go", "ast.go", "helper/helper.go", "charset/charset.go"],
  [("package-level extractors and tables", "extractor.go: _commonExtractor, _deeperExtractTable, deeperExtract.PrefixFit"), ("buffer and line counter of one extraction", "extractor.go: extract"), ("debug switch", "helper/helper.go: SetDebug"), ("reading and copying", "scope.go, node.go, ast.go")],
  "Exhaustive over preemption-bounded schedules (1; thorough 2 in the smallest scenarios) of 10 scenarios at statement granularity, histories of up to 2 or 3 calls, single map iterations; a switch within a statement is only seen by the race detector, which runs on every schedule with the scheduler's own synchronisation hidden. Trusts the race detector's happens-before computation.",
  "stateless model checking of the real code under a controlled scheduler (every schedule up to a preemption bound, also in fresh processes and under the race detector), controlled map order, exhaustive histories and buffers; oracle: the result of the same call alone in a fresh process",
  observe=["ParseScope", "NewNodes", "NewAst", "Ast.Copy", "Ast.Save", "stdout"], state=[{"name": "package-level variables", "meaning": "extractor and separator tables, debug switch", "where": "extractor.go, charset/charset.go, helper/helper.go"}])

prop("C15", "Texts are classified by the token classes of Go",
  "The kind of a text made without an explicit kind is that of its Go token class: keyword, basic type, number (digits only), string, comment, operator symbol, bracket, space or plain text, decided by the whole text and not by a part of it. Kind and scope-kind names, predicates and conversions are mutually consistent, each opening bracket has its own closing one, and a character set contains exactly its elements.",
  ["inputs"], "Every string.",
  "Tests try a few strings of some classes; neighbours of keywords, mixed bytes and single bytes of tables are not tried.",
  ["kind/kind.go", "charset/charset.go", "scope/scope_kind.go", "node.go"],
  [("classification", "kind/kind.go: New"), ("tables and sets", "charset/charset.go"), ("scope kinds", "scope/scope_kind.go")],
  "Exhaustive over strings up to 2 (thorough: 3) bytes, up to 5 (6) of 12 bytes, all strings at edit distance one of every keyword and basic type, and all tables.",
  "exhaustive enumeration of strings and tables on the real code; oracle: two independent references after the Go specification",
  observe=["kind.New", "NewNode -> Node.Kind"])

prop("C16", "Parsing a file yields its package name and path, or the right error",
  "Parsing a file and making an ast succeed exactly when there is a package clause with a name, and then Package yields that name, whatever it looks like and whatever comments surround it; otherwise the error is ErrNoPackage, ErrNotExist for a missing file, and another error for one that cannot be read. File, Dir, Filename and Ext are the path's parts as given.",
  ["inputs", "programs"], "Every file content around a package clause, every package name, every path.",
  "Tests parse two files; the name is found by scanning node kinds, which a name like a keyword, type or symbol influences.",
  ["ast.go", "helper/helper.go"],
  [("package name", "ast.go: findPackageName"), ("errors and path parts", "ast.go: ParseAst"), ("reading and formatting", "helper: ReadFile")],
  "Exhaustive over token sequences around a package clause, names, programs and 29 kinds of path up to the bounds.",
  ENUM + "package clauses, names, programs and paths through real files; oracle: go/format and a reference scan, go/parser",
  observe=["ParseAst", "NewAst", "Ast.Package"])

prop("C17", "A prefix tree answers for exactly the texts it was given",
  "The prefix tree (trie.go) is a map from byte strings, whatever bytes they hold: after every history of AddText and Insert, and for every order of the map it is made from, a text is found exactly when it was added or an added text begins with it. It then yields the value last given to exactly that text, and the zero value if none was; FindText and FindByte agree, the Reversely forms answer for the text read backwards, and a missing (nil) tree answers without a panic that nothing is there.",
  ["inputs", "histories"], "Every sequence of calls on a tree and on the nodes that its calls return, every text (prefixes of each other, multi-byte, invalid UTF-8) and every order of a map.",
  "The tests add two texts of the same length in ASCII and look three up; the errors need a text that begins another one, an order or a multi-byte character.",
  ["trie.go"],
  [("adding", "trie.go: AddText, Insert, newTrie"), ("finding", "trie.go: FindText, FindTextReversely, FindByte, FindByteReversely, Next, Value")],
  "Exhaustive over histories of up to 3 (thorough: 4) of 96 calls, maps of up to 3 of 12 texts, all texts of 2 bytes and 5 families up to 300 (2000). The tree is unexported and reached through one overlaid constructor; if a tree no longer has it, the evidence says that nothing was explored.",
  "exhaustive enumeration of call histories on the real code; oracle: a map of byte strings",
  observe=["newTrie", "AddText", "Insert", "Find*", "Next", "Value"])

prop("C18", "Editing nodes of a parsed program edits exactly that text",
  "Combining nodes puts their texts together in list order around the target, gives it the stated kind, and leaves every other node alone. Setting a node's text, or removing a node such as a comment, in a parsed program changes the joined and the saved text at that node's place only, and undoing it restores the source; the name getters yield the names as the nodes then hold them.",
  ["programs", "histories"], "Every node of every program, every sequence of nodes to combine, in both directions.",
  "Tests combine once and print; an edit that disturbs its neighbours needs a particular position or combination.",
  ["node.go", "scope.go", "ast.go"],
  [("combination", "node.go: CombineNext, CombinePrev"), ("edits of parsed nodes", "node.go: SetText, RemoveNext, RemovePrev, Isolate"), ("saving edited scopes", "scope.go, ast.go: Save")],
  "Exhaustive over combinations of up to 3 (thorough: 4) nodes of chains up to 5, and over every comment and every node (saved: up to 12 of them) of the programs of the grammar up to the bounds. A node is not combined into another twice in one call.",
  ENUM + "combinations, and programs with every comment removed or nodes renamed; oracle: edited list of texts",
  observe=["Node.CombineNext", "Node.CombinePrev", "Node.SetText", "Ast.Save"])

prop("C19", "Helpers and descriptions do what they say for every string",
  "HasPrefix and HasSuffix agree with the standard library on every byte string, AppendUnrepeatable joins two slices without repeating the boundary element and without touching its inputs, and TidyText shows every text on one line with its blanks made visible. The description of a node, scope or ast is made of exactly its lines, kinds and texts, in order; Print shows it on a line of its own, and DebugPrint prints exactly when debug output is on.",
  ["inputs"], "Every string and slice, also multi-byte, invalid UTF-8, empty and overlapping ones.",
  "Tests try two or three ASCII strings; the errors need multi-byte characters, equal lengths or shared arrays.",
  ["helper/helper.go", "node.go", "scope.go", "ast.go"],
  [("affixes", "helper: HasPrefix, HasSuffix"), ("append", "helper: AppendUnrepeatable"), ("descriptions", "Node.Description, Scope.Description, Ast.Description")],
  "Exhaustive over strings of 7 pieces up to 3 (thorough: 4), texts of 6 pieces up to 6 (7), slices up to 4 of 3 elements, and the program grammar up to the bounds.",
  "exhaustive enumeration of inputs on the real code; oracle: strings package and a restatement of the documented formats",
  observe=["helper.*", "Description"])

prop("C20", "Test assertions fail exactly when their condition is false",
  "Nil and NotNil hold exactly for values that are nil (untyped, or a nil pointer, map, slice, func, channel or interface) and never panic; Equal and NotEqual compare as == on values of one type does, values of different types being unequal, and they, NoError, Error, Require, Panic and NoPanic fail the test exactly when their condition is false. A failed assertion ends that test, and its report names the line of the call, the test, the values and every message; a successful one has no effect and writes nothing.",
  ["inputs"], "Every kind of value and every pair of comparable values, with any messages.",
  "The tests use the assertions in passing form only: an assertion that never fails would pass them all.",
  ["assert/assert.go"],
  [("verdicts", "assert/assert.go")],
  "Exhaustive over 83 values of all kinds and all pairs of them, sequences of up to 3 (thorough: 4) of 20 assertions in one test, 18 uses of the other assertions, 4 sets of messages; the reports of 24 assertions with every sequence of up to 2 (3) of 5 messages. Values that Go cannot compare are outside of Equal's quantifier.",
  "exhaustive enumeration of values and pairs, each in a real test of its own; oracle: declared classes of the values",
  observe=["testing.T.Failed", "go test output"])
