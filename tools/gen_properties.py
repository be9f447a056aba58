#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Parsing loses, duplicates and reorders nothing",
 "For every input text, the node texts of the parsed scopes, concatenated in order, reproduce exactly the input from the first top-level declaration or comment onward, byte for byte. Classifying the nodes (names, parameters, types) may merge neighbouring nodes but never drops, repeats, reorders or edits text.",
 ["inputs"], "every byte string, including text that is not valid Go; every arrangement of declarations, comments and brackets",
 "Tests parse a handful of sample files and check a few nodes; losslessness has to hold for every source text, and is only ever endangered by unusual arrangements (comments between a name and its type, unterminated literals, nested func/struct types).",
 ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go", "node.go"],
 [("tokenizer flushes its buffer before every split", "extractor.go extractor.Run"), ("scope heads are cut from the chain at their previous link", "scope.go ParseScope"), ("type nodes merged in place by the kind resetters", "kind_resetter_all.go paramResetter.Run, kind_resetter_func.go handleSingleReturnType")],
 [("node chain", "doubly linked list of text fragments", "node.go Node")],
 ["concatenation of Node().Text() over ParseScope's scopes"])

prop("C02", "String, rune and comment literals are atomic tokens",
 "Every interpreted string, raw string, rune literal and comment in Go source becomes exactly one node whose text is exactly that literal, and whatever it contains (brackets, quotes, backslashes, comment markers, newlines) neither ends it early nor starts anything else. Outside literals and comments every separator byte (space, tab, CR, LF, brackets, comma, colon, semicolon) is its own node and every maximal run of other bytes is one node. (The classification of func and type declarations may afterwards join the nodes of one type; the other scopes keep exactly these nodes.)",
 ["inputs"], "every source text; literals with arbitrary contents, positioned anywhere, followed by arbitrary text",
 "The tests contain a few plain strings and comments; a mis-terminated literal depends on the exact bytes (\\\\ before the closing quote, a quote in a rune, /*/) and swallows the rest of the file.",
 ["extractor.go", "helper/helper.go", "charset/charset.go"],
 [("per-literal extractors with close and skip markers", "extractor.go extractor.Run and its tables"), ("separator set", "charset/charset.go SeparatorCharset")],
 [], ["Text() of every node of the tokenized text"])

prop("C03", "A node's kind is a fixed function of its text",
 "A newly created node with no explicit kind gets the kind its text determines: the specific separator, bracket, keyword kind for those texts, Number for all-digit text, String for text starting with a quote or backquote, Keyword / BasicType for the remaining Go keywords and predeclared basic types, Symbol for text made only of operator characters, None for empty text, Raw for everything else; literals and comments found by the parser are String and Comment. The matching-bracket lookup maps each of the six brackets to its partner, is its own inverse, and fails for every other kind.",
 ["inputs"], "every text and every kind value",
 "Tests check a few kinds on sample files; the classification is an ordered chain of overlapping tests, and one wrong entry only shows for that text.",
 ["kind/kind.go", "charset/charset.go", "node.go", "extractor.go"],
 [("ordered classification", "kind/kind.go New"), ("bracket pairing", "kind/kind.go Kind.GetClose"), ("keyword, type, symbol tables", "charset/charset.go")],
 [], ["NewNode(line, text).Kind()", "kind.New", "Kind.GetClose"])

prop("C04", "Line numbers are exact",
 "Every parsed node reports the 0-based line on which its first byte stands, counted from the start line given to the parser, also after multi-line strings, comments and nested brackets; a scope reports the 1-based line of its first node. Chains built from texts number each node by the newlines in the texts before it.",
 ["inputs"], "every source text, every start line",
 "Tests print line numbers but compare none; errors appear only after particular constructs (a bracket that opens a line, a multi-line literal).",
 ["extractor.go", "scope.go", "node.go"],
 [("line counter shared by nested extraction", "extractor.go extractor.Run"), ("start line handling", "scope.go ParseScope"), ("NewNodes line accumulation", "node.go NewNodes")],
 [("line", "line of a node", "node.go Node.line")], ["Node.Line()", "Scope.Line()"])

prop("C05", "Scopes are exactly the top-level declarations and comments",
 "A new scope starts at exactly those lines whose first token is the keyword package, import, var, const, type or func, or a // or /* comment, in column 0 (a byte order mark at the very beginning does not count) outside any literal or comment; its kind is that keyword or comment kind, its nodes run up to the next such line, and nothing else (indented code, closing brackets, identifiers or labels that merely begin with a keyword) starts a scope. Source in which a keyword or comment directly follows the end of a multi-line literal or comment on that same line is left open. Scopes come in source order, are disconnected from each other, and each one's first node has no predecessor.",
 ["inputs"], "every source text; every sequence of declarations, bodies and comments",
 "Tests parse two sample files and count scopes; a spurious or missing split depends on the exact text at the start of a line.",
 ["scope.go", "scope/scope_kind.go", "extractor.go"],
 [("line-start scan of the node chain", "scope.go ParseScope"), ("keyword match", "scope.go newScopeKind/isScopeKind"), ("line numbering that gates the scan", "extractor.go")],
 [], ["ParseScope's scopes: Kind(), Node(), Line()"])

prop("C06", "Declared names are reported exactly",
 "For every ungrouped func, method and type declaration with a name, the function, method, receiver, type, struct and interface name lookups return exactly the declared identifier with true when the declaration is of that sort, and false otherwise; parameter lists, result types, bodies, type parameters, tags and comments around or inside the declaration never change the answer. A method's name is also its function name; a receiver is reported as its type is written, with its * and without type arguments; struct and interface names belong to declarations whose type itself is a struct or interface (aliases included), not to those that merely mention one.",
 ["inputs", "programs"], "every well-formed gofmt-formatted single declaration: arbitrary identifiers, receiver forms (named, unnamed, pointer, generic), parameter and result shapes, comments and bodies",
 "The tests look up names in a few sample declarations with one receiver form each.",
 ["scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
 [("name kinds assigned by the resetters", "kind_resetter_func.go handleGeneralFunc, kind_resetter_type.go typeResetter.Run, kind_resetter_parenthesis.go handleParenthesisParam"), ("getters scan for the first node of a kind", "scope.go GetFuncName etc.")],
 [], ["Scope.GetFuncName/GetMethodName/GetMethodReceiver/GetTypeName/GetStructName/GetInterfaceName"])

prop("C07", "Parameters and fields are split into names and types",
 "In gofmt's layout, in function, method, func-type and interface-method parameter lists and in the rows of structs, each parameter or field name node is classified as a name and each user-defined type identifier as a type (receiver names and types as such), whatever the identifiers, their number, and whatever comments or bodies surround them; unnamed parameters and single results are classified as types. (Left open: directional channel types, what stands inside square brackets, and the contents of anonymous struct and interface types within parameter lists, within results, and on a single line within fields.)",
 ["inputs", "programs"], "parameter lists and struct bodies of every length in bounds over arbitrary identifiers, pointer and qualified types",
 "Tests print the classification of sample declarations and assert only a few of them.",
 ["kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
 [("parameter classification", "kind_resetter_parenthesis.go handleParenthesisParam"), ("struct rows", "kind_resetter_type.go structResetter")],
 [], ["Node.Kind() of the nodes of a parsed declaration"])

prop("C08", "Parsing and lookups never panic and always terminate",
 "For every byte string, parsing it and then calling every lookup, description, iteration and copy operation of the resulting scopes and nodes returns normally: no panic and no endless loop. The same holds for nil nodes: every node method may be called on a nil node, and given nil nodes, without panicking: accessors return the zero answer, iteration visits nothing, taking and removing do nothing.",
 ["inputs"], "every byte string and every nil receiver",
 "Tests parse only well-formed samples; malformed and truncated inputs (unbalanced brackets, unterminated literals, a lone keyword) are not tried.",
 ["extractor.go", "scope.go", "node.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
 [("nil-safe accessors", "node.go"), ("index guards", "extractor.go extractor.Run")],
 [], ["return of ParseScope and of the Scope/Node methods"])

prop("C09", "Results depend only on the input",
 "Parsing the same text twice, in any order with other parses and edits, concurrently, and under every iteration order of internal tables, gives equal scopes; parsing writes no shared package-level state, and the result shares no memory with the caller's byte slice or with another parse's result.",
 ["inputs", "schedules", "histories"], "every pair of inputs, every internal map iteration order, every interleaving of parses",
 "A test runs one order once; order-dependent or shared-state behaviour only shows under another map order or a particular interleaving.",
 ["extractor.go", "scope.go", "kind/kind.go", "charset/charset.go", "trie.go"],
 [("extractors hold no per-run state", "extractor.go"), ("prefixes in the table are mutually exclusive at a position", "extractor.go deeperExtract.PrefixFit")],
 [("package-level tables", "shared by every parse", "extractor.go, charset/charset.go")], ["ParseScope"])

prop("C10", "Node links stay consistent under every edit",
 "After every node operation, from every consistent linked state, the links are consistent again: a node's successor has that node as its predecessor and the reverse, and no node is its own neighbour; only replacing a node by another one of its own chain can ever close a chain into a cycle; inserting, taking, removing, isolating and combining never do.",
 ["histories", "inputs"], "every consistent arrangement of nodes into chains, every operation and every choice of argument nodes (including nil, neighbours and nodes of the same chain)",
 "Tests apply each operation once to one fixed chain; histories and aliasing arguments are unbounded.",
 ["node.go"],
 [("setPrev/setNext clear the old neighbour's back link", "node.go setPrev, setNext")],
 [("prev/next", "neighbour links", "node.go Node")], ["Next(), Prev() of every node involved"])

prop("C11", "Insert, replace, take, remove and isolate do what they say",
 "Each insertion, replacement, take, removal and isolation changes exactly the links its documentation names: the incoming node ends up at the stated place, the nodes it leaves behind or pushes out are detached, all other nodes keep their neighbours, and the returned nodes are the documented old neighbours. No operation changes any node's text, kind or line; on an already adjacent or identical node they change nothing. (The incoming node is not nil here; nil arguments are C08's.)",
 ["histories", "inputs"], "every consistent arrangement of nodes and every choice of receiver and argument",
 "Tests use one or two fixed chains per operation.",
 ["node.go"],
 [("InsertPrev/InsertNext/ReplacePrev/ReplaceNext/TakePrev/TakeNext/RemovePrev/RemoveNext/Isolate", "node.go")],
 [("prev/next", "neighbour links", "node.go Node")], ["links, return values, text/kind/line of all nodes"])

prop("C12", "Combining nodes joins text in order",
 "Combining nodes sets the receiver's kind to the requested one and its text to the receiver's text joined with the argument texts in chain order (arguments after the receiver for a forward combine, before it in reverse for a backward combine), skipping nil arguments and the receiver itself, isolating every combined argument and leaving every other node alone; with a nil receiver the first argument takes its place.",
 ["inputs", "histories"], "every receiver, kind and argument list, including nil, repeated and self arguments, in every consistent arrangement",
 "Tests combine one fixed list of three nodes per direction.",
 ["node.go"], [("CombineNext/CombinePrev", "node.go")], [], ["Text(), Kind(), links"])

prop("C13", "Copies are equal and independent",
 "Copying a node, a scope or a whole file tree yields new nodes with equal text, kind, line and order, sharing no node with the original, so that later edits to either never show in the other; copying a single node yields one detached node.",
 ["inputs", "histories"], "every chain, every start position in it, every edit applied afterwards to either side",
 "Tests copy one chain and change one text.",
 ["node.go", "scope.go", "ast.go"], [("deepCopy", "node.go"), ("scopeStruct.Copy", "scope.go"), ("ast.Copy", "ast.go")], [], ["Copy() results"])

prop("C14", "Iteration and construction agree with the links",
 "Iterating forwards (backwards) visits exactly the node, then its successors (predecessors) in order, each once, stops where the callback says so and returns that node, or nil when it ran to the end (a callback that edits the chain is followed along the links as they stand after it returns); the first/last lookups return the ends of the chain. A chain built from texts holds exactly those texts in order, and the accessors return exactly what was set.",
 ["inputs", "histories"], "every chain, start node and stopping point; every list of texts",
 "Tests iterate a few fixed chains to the end.",
 ["node.go"], [("loop, IterPrev, IterNext, First, Last, NewNodes, SetText, SetKind", "node.go")], [], ["IterNext, IterPrev, First, Last, NewNodes"])

prop("C15", "Helper predicates and sets are byte-exact",
 "The exported prefix and suffix helpers answer exactly whether the bytes begin or end with the given string; the append-without-repeat helper returns the slice followed by the elements, dropping the first element only when it equals the slice's last; the text tidier replaces exactly newline, carriage return, space and tab; sets contain exactly the elements they were built from.",
 ["inputs"], "every byte string, prefix, suffix, slice and element list, including non-ASCII text",
 "Table tests cover seven ASCII cases each.",
 ["helper/helper.go", "charset/charset.go"], [("HasPrefix, HasSuffix, AppendUnrepeatable, TidyText", "helper/helper.go"), ("New, NewSlice, Contain", "charset/charset.go")], [], ["helper and charset functions"])

prop("C16", "Saving writes exactly the concatenated nodes, loading reads them back",
 "Saving writes to the requested file (with .go appended when missing) the formatter's output for the node texts of all scopes concatenated in order, or that text itself when the formatter rejects it, replacing whatever the file held and writing no other file; loading a formatted file and saving it unedited leaves its content identical, and an edit to a node's text or links shows in the saved file exactly where it was made.",
 ["inputs", "histories"], "every formatted source, every edit, every file name, with and without automatic imports",
 "Tests save samples to disk and compare nothing.",
 ["ast.go", "helper/helper.go", "extractor.go", "scope.go"],
 [("Save concatenates node texts", "ast.go ast.Save"), ("SaveFile", "helper/helper.go")],
 [], ["bytes and path handed to the file system"])

prop("C17", "Save and load report every failure",
 "Saving returns an error whenever creating the directory, creating the file, writing or closing fails, and nil only when every byte was written; saving an empty text is refused before anything on disk is touched. Loading returns an error whenever opening, reading or formatting fails; an opened file is always closed, and no failure panics.",
 ["fault_sequences", "inputs"], "every single or combined failure of the file-system and formatter calls, including short writes and formatter rejection",
 "Tests run on a healthy file system with formattable input.",
 ["helper/helper.go", "ast.go"], [("error returns of ReadFile and SaveFile", "helper/helper.go")], [], ["returned error and the recorded file-system calls"])

prop("C18", "Opening a file reports its package, path parts and failures",
 "Loading returns the not-exist error exactly when the file does not exist, the no-package error exactly when the text has no package clause, and any other failure as it is; otherwise the result's package name is the identifier of the package clause, whatever comments surround it, and its path, directory, file name and extension are those of the given path. Building from scopes applies the same package rule.",
 ["inputs", "fault_sequences"], "every path, every formatted source, every outcome of reading the file",
 "Tests load existing files only.",
 ["ast.go", "helper/helper.go"], [("ParseAst", "ast.go"), ("findPackageName", "ast.go")], [], ["ParseAst, NewAst, Package(), File(), Dir(), Filename(), Ext()"])

prop("C19", "Scope lists are held exactly as given",
 "A file tree holds exactly the scopes it was given, in order: appending adds at the end, replacing returns a tree with the new scopes and the same path data and leaves the original unchanged, and iteration visits each scope once in order and stops when told. A list of scopes handed over or handed out is never written to, so trees made from one list and the caller's own use of it do not disturb each other. A scope built by hand reports the kind, 1-based line and node it was given, and its description names that line and kind; a tree's description lists its scopes' and nodes' descriptions in order.",
 ["histories", "inputs"], "every sequence of append, replace and iterate operations over every list of scopes",
 "Tests never append or replace scopes.",
 ["ast.go", "scope.go"], [("Scope, IterScope, SetScope, AppendScope", "ast.go"), ("NewScope", "scope.go")], [], ["Scope(), IterScope()"])

prop("C20", "The prefix tree is an exact map",
 "After adding any set of texts in any order, looking up a text (as text or bytes, forwards or from the end) finds exactly the value last added for it; extending or sharing prefixes never changes a stored value, and a text that is not on any stored path is not found.",
 ["histories", "inputs"], "every sequence of insertions and lookups over arbitrary texts, including prefixes of each other and non-ASCII text",
 "Tests insert two fixed sets of words without a prefix relation.",
 ["trie.go"], [("AddText, Insert, FindText, FindByte and reverse variants", "trie.go")], [], ["lookup results"])

prop("C21", "Kinds, their names and descriptions agree",
 "Every node kind reports the name of its constant (BasicType for Basic, nothing for None), through values and pointers, and no two kinds or names are equal; every scope kind reports the name of its constant and converts to the node kind of that keyword (both comment kinds to Comment, Unknown to Raw), any other text has no name and converts to None. In every parsed text a scope has one of the exported kinds other than Unknown, its first node begins with that kind's text, and the scope kind converts to exactly that node's kind. The description of a node is its 1-based line, its tidied text and its kind's name, that of a scope its line and kind, that of a nil node <nil>.",
 ["inputs"], "every kind, every text as scope kind, every source text, every node",
 "Tests print a few descriptions and compare none; no test converts a scope kind.",
 ["kind/kind.go", "scope/scope_kind.go", "scope.go", "node.go"],
 [("names and conversion", "scope/scope_kind.go String, ToKind; kind/kind.go String, PointerString"), ("descriptions", "node.go Node.Description, scope.go scopeStruct.Description"), ("first node of a scope", "scope.go ParseScope")],
 [], ["kind.Kind.String", "scope.Kind.String/ToKind", "Node.Description", "Scope.Description"])

prop("C22", "Test assertions pass exactly when their condition holds",
 "Each assertion of the assert package passes exactly when its condition holds: Nil for a nil interface and for a nil pointer, map, slice, channel or function and NotNil for every other value, of whatever kind; Equal when both values have the same type and are equal, NotEqual otherwise (values that Go cannot compare are left open); Error and NoError by whether the error is nil, Require by its argument, Panic and NoPanic by whether the function, called once, panics. A passing assertion leaves the test untouched; a failing one fails it once, stops it and reports the test's name and, where it is given one, the whole message. Call never panics and returns whether the function panicked, with which value and stack.",
 ["inputs"], "values of every kind, all contents within bounds, all messages, all ways for a function to end",
 "Failing assertions end the test that runs them, so no test calls them.",
 ["assert/assert.go"],
 [("conditions", "assert/assert.go Nil, NotNil, Equal, NotEqual, isNil"), ("panics", "assert/assert.go Call")],
 [], ["assert.Assert"])

prop("C23", "Only names and types of declarations are reclassified",
 "Parsing gives a node another kind than its text has only where a declaration names something. In every closed text, every node of a scope that is neither a function nor a type has exactly the kind of its text (String for string literals, Comment for comments, otherwise the kind kind.New gives), and every node of a function or type scope has that kind or one of FuncName, TypeName, ParamName, ParamType, MethodReceiverName and MethodReceiverType; a comment is never given one of these. In every function, method and type declaration in gofmt's layout each node outside the names of functions, methods, types, fields, parameters and receivers and their types (keywords, brackets, separators, comments, tags, and everything in a function's body, local functions and types included) has the kind of its text. None of this depends on what was parsed before.",
 ["inputs", "histories"], "every source text, every declaration, every function body, every text parsed before",
 "Tests compare the kinds of a few declarations' names and never the rest.",
 ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go", "scope.go"],
 [("where classification starts", "scope.go ParseScope, kind_resetter_all.go resetKind"), ("where it stops", "kind_resetter_*.go returnKinds, skipNestNext")],
 [], ["Node.Kind of every node of every scope"])

prop("C24", "Nothing is printed unasked",
 "Printing a node writes a tab, a space, its description and a newline to standard error, printing a scope its description and a newline, and nothing else. Apart from that no operation of the library (parsing, lookups, descriptions, iteration, editing and copying nodes and scopes, building trees, loading and saving files, helpers, sets, kinds) writes anything to standard output or standard error for any input, however it fails; only saving logs a text the formatter rejects, to standard error. Debug printing is off until it is turned on and silent again as soon as it is turned off; while it is on it writes lines to standard output that begin with what was given, and every result is the same as without it.",
 ["inputs", "histories"], "every source text, node state, file fault and history of switching debug output",
 "Tests neither capture the standard streams nor turn debug output on.",
 ["node.go", "scope.go", "helper/helper.go", "ast.go", "extractor.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
 [("debug output", "helper/helper.go SetDebug, DebugPrint"), ("printing", "node.go Print, scope.go Print"), ("logged failures", "helper/helper.go SaveFile")],
 [], ["standard output and standard error", "Node.Print, Scope.Print"])

prop("C25", "Each scope is parsed on its own",
 "For every input text and every scope of it, parsing the text of that scope by itself, with the line it starts on as start line, gives exactly that one scope again: the same kind and line, and the same nodes with the same text, kind and line. So what stands before or behind a declaration never changes how it is split into nodes and classified, and parsing texts of complete declarations put together gives the scopes of each, in order, with only the lines shifted.",
 ["inputs", "programs"], "every source text, every scope of it, every declaration among every others, every start line",
 "Tests parse whole sample files; state carried from one declaration to the next shows only for particular neighbours.",
 ["scope.go", "extractor.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
 [("scopes are cut out of one chain and classified one by one", "scope.go ParseScope (tryAppendScope, nodesToResetKind)"), ("nested extraction returns to the state around it", "extractor.go extractor.Run")],
 [], ["ParseScope's scopes: Kind(), Line(), and text, kind and line of their nodes"])

prop("C26", "Looking changes nothing",
 "Every lookup, accessor, description, iteration, copy, question to a tree and save leaves every scope, node, link, line, kind, text and list it was given or can reach exactly as it was, for every input text and for scopes built by hand, and asking the same again, in any order, gives the same answers.",
 ["inputs", "histories"], "every source text, every scope and tree of handmade nodes in any arrangement, every lookup after every other",
 "Tests look each thing up once and compare one answer; a lookup that changes what it looks at shows in a later one.",
 ["scope.go", "node.go", "ast.go"],
 [("getters scan the chain", "scope.go GetTypeName .. GetMethodReceiver"), ("iteration and copies", "node.go IterNext, IterPrev, CopyNext; scope.go Copy; ast.go Copy"), ("output built from the nodes", "ast.go String, Bytes, Save")],
 [], ["every exported method without a result of its own making, asked twice"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
