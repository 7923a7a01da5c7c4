LINKS = [("prev", "the node before", "node.go: type Node"), ("next", "the node after", "node.go: type Node")]

prop("C01", "Links between nodes stay symmetric",
 "After any operation that inserts, replaces, takes, removes, isolates or combines nodes of a list with symmetric links, every node's links are symmetric again: the next node's previous node is the node itself and vice versa, also for the nodes that were cut off. No other part of the library changes the links of a node that already is in a list.",
 ["inputs", "histories"],
 "every list length on both sides, every relative position of the two nodes (same list before/after/adjacent/identical, different lists), nil receivers and nil arguments; by induction every history of operations. Replacing a link with a node that already leads back to the current node (closing a ring) is excluded.",
 "The tests build a handful of three- to five-node lists; they never look at the pieces that were cut off, nor at combinations where both nodes are in the same list.",
 ["node.go"], [("link setters that first detach the old neighbour", "node.go: setPrev, setNext"), ("mutators built on them", "node.go: InsertPrev..Isolate")],
 "shape analysis (abstract interpretation with list segments) of every mutator, plus a who-may-write rule for links",
 ABS % "each mutator is explored once per configuration of explicit nodes and list segments of any length, and the links of every node are compared afterwards; a query over stores shows that no other function writes links.",
 ["Next", "Prev"], LINKS)

prop("C02", "Insert and replace put the given node at exactly the requested place",
 "Inserting puts exactly the given single node directly before or after the current node and keeps everything else of the current list in order; replacing puts the given node, with everything that hangs on its far side, directly before or after the current node in place of what was there. The operations return the nodes that were cut off there (the inserted node's old neighbours, or the current node's old neighbour and the given node's old neighbour on the near side), every node keeps text, line and kind, and giving the node itself or the node that already stands there changes nothing.",
 ["inputs", "histories"],
 "every list length around both nodes and every relative position of the two nodes, including both being in the same list; replacing with a node that already leads to the current node (closing a ring) is excluded.",
 "Tests insert a fresh node into one list; a node that is taken out of the middle of another or the same list, at any distance, is not sampled.",
 ["node.go"], [("relinking of four neighbours", "node.go: InsertPrev, InsertNext"), ("relinking of one side", "node.go: ReplacePrev, ReplaceNext")],
 "shape analysis of the insert and replace operations against a list model",
 ABS % "every operation is explored for every configuration and compared with a model of the list, node by node.",
 ["returned nodes", "Next", "Prev"], LINKS)

prop("C03", "Take, remove and isolate cut exactly the requested nodes",
 "Taking the previous or next node removes exactly that node from the list and returns it alone; removing returns everything on that side as one intact list and leaves the current node as the end of its list; isolating leaves the node alone and cuts its former neighbours apart as well. Without a node on that side, taking and removing return nil and change nothing; texts, lines and kinds never change.",
 ["inputs", "histories"],
 "every list length on both sides of the node.",
 "Tests take and remove once from one fixed list, and never look at both sides of the cut.",
 ["node.go"], [("cut operations", "node.go: TakePrev, TakeNext, RemovePrev, RemoveNext, Isolate")],
 "shape analysis of the take, remove and isolate operations against a list model",
 ABS % "every operation is explored for every configuration and compared with a model of the list, node by node.",
 ["returned node", "Next", "Prev"], LINKS)

prop("C04", "Traversal visits every node once, in order, and stops where told",
 "Iterating forwards or backwards calls the callback with the starting node and then with each following node of that direction in list order, and returns the node for which the callback answered false, or nil when the list ended. The node after the visited one is looked up only after its callback returned, so a callback may cut or replace what follows. The first and last node of a list are the ends reached that way, from every node of the list.",
 ["inputs", "histories"],
 "every list length, every starting node, every pattern of callback answers, and callbacks that cut off or replace the rest of the list.",
 "Tests iterate over one list to its end; stopping at each position and changing the list during iteration are not sampled.",
 ["node.go"], [("iteration loop", "node.go: loop, IterPrev, IterNext"), ("ends", "node.go: First, Last")],
 "shape analysis of the traversals with a loop fixpoint and a recording callback",
 ABS % "the loop is explored to a fixpoint over lists of any length with a callback that answers freely and may alter the list behind the visited node; the sequence of visited nodes is compared with the list.",
 ["callback calls", "returned node"])

prop("C06", "Combining joins the texts in direction order and releases the given nodes",
 "Combining forwards sets the node's kind to the given one and its text to its own text followed by the texts of the given nodes in the given order; combining backwards puts each given node's text in front of what has been joined so far. Nil entries and the node itself are skipped, every other given node ends up isolated, and all other nodes keep text, kind and line. A nil receiver is replaced by the first given node that is not nil, and without any the result is nil.",
 ["inputs"],
 "every text, every list of distinct given nodes of any length, including nil entries, the node itself and its neighbours, given nodes standing in other lists.",
 "Tests combine two or three fresh nodes; order, duplicates with the node itself, nil entries and linked nodes are not sampled together.",
 ["node.go"], [("text join and detaching", "node.go: CombinePrev, CombineNext")],
 "abstract interpretation with symbolic texts (a loop fixpoint over an argument list of any length)",
 ABS % "symbolic texts, explicit argument lists up to three entries in every combination, and an argument list of unknown length through a loop invariant.",
 ["Text", "Kind", "links of the given nodes"])

prop("C22", "A nil node is harmless in every operation",
 "Every exported operation of a node can be called on a nil node, and with nil nodes as arguments, without panicking; accessors of a nil node answer with no text, no kind, no neighbours and a negative line, and mutators change nothing but the nodes that are not nil, whose links stay symmetric. A callback given to an iteration over a nil node is never called.",
 ["inputs"],
 "every exported method of the node type, nil receivers, nil and non-nil node arguments, every list length around the non-nil argument.",
 "Tests call three accessors on nil; the mutators' behaviour on nil receivers and arguments is not sampled.",
 ["node.go"], [("nil checks in accessors and link setters", "node.go")],
 "abstract interpretation of every exported method with nil receivers and arguments",
 ABS % "the method set is enumerated from the type-checked program; every method is explored with nil receivers and arguments.",
 ["panics", "results"])

prop("C07", "Splitting a text into nodes loses, adds and reorders nothing",
 "For every text, the nodes it is split into during parsing form one list with symmetric links whose texts, joined in list order, are exactly the given text, byte for byte. No node has an empty text, an empty text has no nodes, and splitting never fails or panics, however the text is formed: unterminated strings, comments and brackets, stray closers, escapes, any bytes.",
 ["inputs"],
 "every byte sequence of every length (valid Go or not), every start line, every nesting depth of brackets, literals and comments, every iteration order of the delimiter tables.",
 "Tests split two short declarations; nesting, escapes, unterminated literals and the byte at which a text ends combine without bound.",
 ["extractor.go", "node.go", "helper/helper.go", "charset/charset.go"],
 [("splitting loop with nested extractors", "extractor.go: extractor.Run"), ("delimiter tables", "extractor.go: _commonDeeperExtract, _deeperExtractTable"), ("pending text and node list", "extractor.go: pushNode, insertNode")],
 "abstract interpretation of the splitting loop with symbolic texts, list segments and tabulated recursion",
 ABS % "the text is one symbol of unknown length, every node's text must be a non-empty piece of it, and the loop and recursion invariants (found by a fixpoint over entry contexts) show that the pieces of the list join to the consumed part of the text. The kind lookup of a node is replaced by an unknown kind.",
 ["ParseScope", "Node.Text"])

prop("C18", "Every node is one whole token of the source",
 "The text of every node that parsing makes is one whole token: one separator (blank, tab, carriage return, line feed, a bracket of any form, comma, colon or semicolon), a literal, a comment, or a longest run of other bytes that neither are separators nor begin a literal or a comment. A string or a rune ends at the first matching quote that no backslash escapes, a raw string at the next back quote, a block comment at the first star and slash behind its opener, and a line comment right before its line feed; unterminated ones reach to the end of the text. Within literals and comments, nothing else counts: no quote of another form, no bracket, no comment mark.",
 ["inputs"],
 "every byte sequence of every length (valid Go or not), every nesting depth of brackets, literals and comments, every run length of backslashes, every iteration order of the delimiter tables.",
 "Whether a quote or a slash counts depends on everything before it; tests sample a few short declarations with hardly any escapes and no unterminated text.",
 ["extractor.go", "helper/helper.go", "charset/charset.go"],
 [("splitting loop with nested extractors", "extractor.go: extractor.Run"), ("delimiter and escape tables", "extractor.go: _commonDeeperExtract, the extractors"), ("separators", "charset/charset.go: SeparatorCharset")],
 "abstract interpretation of the splitting loop beside a symbolic text of labels that says where tokens begin",
 ABS % "beside the symbolic input runs a second symbolic text that labels each byte with its part in its token; only its local rules are given (which byte may carry a label, which label and byte may follow which), what the code finds out about bytes decides labels, and every node must hold exactly one label that begins a token, as its first, and be followed by another one or by the end.",
 ["ParseScope", "Node.Text"])

prop("C08", "Every node carries the line its text starts on",
 "After parsing a text with some start line, the line of every node is the start line plus the number of newline bytes that stand before the node's first byte in the text. This also holds for nodes that span several lines, for nodes inside brackets, and for texts cut off in the middle of a string or comment.",
 ["inputs"],
 "every byte sequence of every length, every start line, every nesting depth.",
 "Tests check no line numbers of nodes behind multi-line literals, escapes or unterminated texts.",
 ["extractor.go", "node.go"],
 [("line counter", "extractor.go: lineStep"), ("line of pending text", "extractor.go: bufLine, pushNode")],
 "abstract interpretation of the splitting loop with newline counting over symbolic texts",
 ABS % "as for the splitting itself; in addition every created node's line is proved equal to the symbolic newline count at the position where its text starts.",
 ["Node.Line", "Scope.Line"])

prop("C10", "Working out node kinds changes no source text and no line",
 "While the parts of declarations (names, parameters, receivers, types) are worked out after splitting, nodes only change their kind and neighbouring nodes may be merged into one: for every scope, the texts of its nodes joined in order stay the same, the links stay symmetric, the first node stays the first, and no node's line changes. This holds for code of any shape, including incomplete or odd declarations.",
 ["inputs"],
 "every list of nodes of any kinds and texts handed to the classification code, every list of nodes to be merged (nil entries, gaps, nodes of other lists), every option of the classifying helpers.",
 "Tests look at kinds of a few tidy declarations; text is lost only when some unusual piece (comment, bracket, function type) stands inside a type.",
 ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go", "node.go"],
 [("merging of adjacent type nodes", "kind_resetter_all.go: combineAdjacent"), ("classification functions that may only set kinds", "kind_resetter_*.go")],
 "interprocedural effect analysis, with a shape analysis of every function that merges nodes",
 ABS % "every function reachable from ParseScope behind the splitting either has no store to a node's text, links or line on any call path, or is explored with unknown nodes and shown to keep the text of every list it touches.",
 ["Scope.Node", "Node.Text", "Node.Line"])

prop("C24", "Only words become names, and only in functions and types",
 "Working out kinds touches only declarations of functions and types: in every other scope each node keeps the kind that its text has. In functions and types, the kinds of a function's, type's or parameter's name and of a method receiver's name and type are given only to nodes that were plain words by their text or had before been given one of these kinds or the kind of a parameter's type; separators, comments, keywords, basic types, literals and symbols never get them. No other kind than these and the kind of a parameter's type is given to any node.",
 ["inputs"],
 "every text, every declaration however odd or incomplete, every combination of options and callbacks of the classifying code.",
 "Tests look at the kinds of names in a few tidy declarations; that nothing else is taken for a name shows only with names of basic types, keywords, constraints and function types in odd places.",
 ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go", "scope.go"],
 [("places where kinds are given", "kind_resetter_*.go: SetKind, combineAdjacent"), ("which scopes are looked at", "kind_resetter_all.go: resetKind; scope.go: ParseScope")],
 "modular abstract interpretation of every function that gives kinds, with a flow-insensitive analysis of the kinds given",
 ABS % "every function and closure behind the parser that may give kinds is explored alone with unknown nodes, variables and callee results; at every place where a kind is given, the kinds it may be (collected over all assignments of the module) and the kinds the node may have on that path are compared with the rule. The parser is explored to see that only first nodes of scopes are handed over, and that nothing happens unless such a node begins a function or type.",
 ["Node.Kind"])

prop("C25", "Comments and strings are told by form, everything else by its text",
 "When a text has been split, before kinds of names are worked out, every node that is a comment has the kind of comments, also when the text ends inside it, and no other node has. Strings and raw strings have the kind of strings; every other node, a rune literal included, has the kind that its own whole text calls for, whatever stands before or behind it.",
 ["inputs"],
 "every byte sequence of every length (valid Go or not), every nesting depth, every iteration order of the delimiter tables; which kind a text calls for is a property of its own.",
 "Tests look at the kinds in a few complete declarations; cut-off literals and words that touch literals without a blank are not sampled.",
 ["extractor.go", "node.go"],
 [("kinds of the delimited pieces", "extractor.go: the extractors, extractor.Kind"), ("making of nodes", "extractor.go: pushNode, insertNode; node.go: NewNode")],
 "abstract interpretation of the splitting loop beside a symbolic text of labels; each node's kind is compared with the label its text begins with",
 ABS % "as for whole tokens; as soon as a node has a text and a kind, the label of its first byte must be that of a comment or a string if the kind is, and otherwise the kind must be the result of asking for the kind of exactly this text.",
 ["Node.Kind"])

prop("C12", "Saving writes exactly the nodes' text to exactly the named file",
 "Saving joins the texts of all nodes of all scopes in order, formats the result (with import fixing only if asked for) and writes it as the whole new content of the named file, with .go appended when it is missing, after creating the directory of that file. Text that cannot be formatted is written unchanged; saving nothing is an error and touches no file. Success is reported exactly if every step succeeded, and nothing else in the file system is touched.",
 ["inputs", "faults"],
 "every list of scopes and nodes, every text, every file name, every value of the option, and a failure of each single step (formatting, making the directory, creating, writing).",
 "Tests save one file in a working directory and never see a step fail; which nodes, which name and which failing step combine freely.",
 ["ast.go", "helper/helper.go"],
 [("joining of node texts", "ast.go: ast.Save"), ("formatting and writing", "helper/helper.go: SaveFile")],
 "abstract interpretation of Save and SaveFile with an event model of the file system",
 ABS % "Save is explored for scopes and nodes of any number with symbolic texts, formatting and file-system calls succeed or fail freely, and the recorded calls and their operands are compared with what was to be written on every path. The error of closing the file may be ignored.",
 ["file system", "returned error"])

prop("C13", "Loading reports the right error and an Ast that fits its file",
 "Parsing a file reads exactly the named file (with .go appended when it is missing), formats its text and parses that text from line 0; a missing file is reported as ErrNotExist, any other failing step by its own error, and a file without a package name as ErrNoPackage. Otherwise the new Ast holds exactly the parsed scopes, its path parts are those of the given name, and its package name is the first name behind the package keyword of the first package scope; the result is never both an Ast and an error, and nothing is written. Building an Ast from scopes accepts the same scopes and refuses the others with ErrNoPackage.",
 ["inputs", "faults"],
 "every file name, every file content, a failure of each single step with any error, every list of scopes with or without a package scope, package keyword and name at any distance from each other.",
 "Tests load one well-formed file; the failing steps, odd package clauses and error identities are not sampled.",
 ["ast.go", "helper/helper.go"],
 [("error mapping", "ast.go: ParseAst"), ("package name search", "ast.go: findPackageName"), ("reading", "helper/helper.go: ReadFile")],
 "abstract interpretation of ParseAst, NewAst and the Ast's accessors with an event model of the file system",
 ABS % "every reading step succeeds or fails freely with an unknown error, the parser returns any list of scopes, told apart by where a package scope, keyword and name stand, and error identity, result and accessor answers are compared with what was given on every path.",
 ["returned error", "Ast accessors"])

prop("C11", "Parsing cuts the text into the scopes its lines begin, and loses nothing",
 "Parsing a text makes one scope for every line whose first token is package, import, var, const, type or func, or begins with // or /*, in the order of the lines, with the kind that belongs to that token and, as its line, the number of that line counted from 1 behind the given start line. A scope's nodes are the tokens from there to the next such line or the end, as one list of their own that is linked to no other scope, so that the scopes' texts one after the other are the input from the first scope on. No token is dropped, changed, shared or moved, and parsing reports no error.",
 ["inputs"],
 "every text, every start line, any number of lines and tokens; the tokens and their lines are those the text is split into (other properties). Text in front of the first scope is not part of any scope.",
 "Tests parse some well-formed files and look at single scopes; they never compare all scopes with the input, nor lines, links between scopes or keywords in odd places.",
 ["scope.go"],
 [("cutting", "scope.go: ParseScope"), ("kind of a line", "scope.go: newScopeKind")],
 "abstract interpretation of ParseScope over a token list of any length with line marks",
 ABS % "the token list is an unknown segment whose nodes are told apart by whether they are the first of their line and by the word they hold; every scope is checked when its list is complete and then folded into its text, and the remembered text is compared with the input. The function from text to kind is checked separately for every text.",
 ["Scope list", "Kind", "Line", "Node"])

prop("C09", "Parsing and asking the result never panic",
 "Parsing never panics, whatever the text or file holds: working out the kinds of names, parameters, receivers and types copes with code that is incomplete, unbalanced, cut off anywhere or no Go at all. Every operation of the scopes and Asts that come out of it (kind, line, names, description, printing, copying, changing the scope list, iterating) can be called at any time without a panic as well.",
 ["inputs"],
 "every list of nodes with any kinds, texts and links handed to any function behind the parser (splitting the text and the operations of nodes are covered by properties of their own); stack exhaustion, endless loops and functions given by the caller are excluded.",
 "Tests parse well-formed declarations; a panic needs a declaration that ends or breaks off where some function looks one node further.",
 ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go", "scope.go", "ast.go", "node.go", "helper/helper.go"],
 [("classification functions", "kind_resetter_*.go"), ("search helpers of nodes", "node.go: findNext, skipNestNext, debugText"), ("accessors", "scope.go, ast.go")],
 "modular abstract interpretation: every function in the region is shown to be total",
 ABS % "every function and closure reachable from the parser and from the scope and Ast methods is explored with unknown arguments, captured variables and callee results; every nil dereference, index, slice, map, conversion and explicit panic must be impossible. A function that is not total alone is explored within each of its callers instead.",
 ["panics"])

prop("C17", "A scope's names are those its nodes declare",
 "A func scope's function name is the text of its first node of kind function name and its receiver that of the first node of kind receiver type; it has a method name, the function name, exactly if it has a receiver. A type scope's type name is the text of its first node of kind type name, and that is also its struct (interface) name exactly if the declared type itself, the first thing behind the name, its type parameters and an alias sign, white space and comments aside, is of kind struct (interface). In every other case the answer is empty and false; asking changes no node and needs nothing but the scope.",
 ["inputs"],
 "every list of nodes of any kinds and texts, every scope kind; names in odd places, nested type parameters, aliases, pointers, arrays and maps of structs, scopes without any name.",
 "Tests ask a few tidy scopes for their names; a second name further on, a struct inside another type or a missing receiver are not sampled.",
 ["scope.go"],
 [("accessors", "scope.go: GetFuncName, GetTypeName, GetStructName, GetInterfaceName, GetMethodName, GetMethodReceiver")],
 "abstract interpretation of the accessors over node lists told apart by where the deciding nodes stand",
 ABS % "a scope is made from a list of nodes in which the deciding nodes stand at any distance from each other between runs of other nodes, and each accessor's answer is compared with the node it must come from on every path.",
 ["Get*Name", "GetMethodReceiver"])

prop("C05", "Copies are equal to and independent of their originals",
 "A node copied alone is an unlinked node with the same text, kind and line; copied with its neighbours, the whole list is copied and the copy stands where the original stands. Copying a scope copies its kind, line and node list, copying an Ast copies all its scopes and the parts of its file name; the original stays as it was and shares nothing that can be changed with its copy. Replacing the scopes of an Ast gives a new Ast with exactly those scopes and the same file name and leaves the old one alone, appending adds the scopes in order to that Ast only, and so through any sequence of these operations, even on Asts that were given the same list.",
 ["inputs", "histories"],
 "every list of nodes with any texts, kinds and lines, copied from every position; every sequence of copying, replacing and appending on an Ast and the Asts that come out of it, with lists that have room for more elements. Bounded: lists of up to 4 nodes (9 in the thorough check), sequences of up to 3 operations.",
 "Tests copy one list of five nodes; sharing shows only when a copy is changed afterwards or when two Asts that share a list are both extended.",
 ["node.go", "scope.go", "ast.go"],
 [("node copies", "node.go: Copy, deepCopy"), ("scope copies", "scope.go: Copy"), ("Ast copies and scope lists", "ast.go: Copy, SetScope, AppendScope")],
 "abstract interpretation of the copy operations and of operation sequences, with identity and spare capacity of slices modelled",
 ABS % "every object that exists before an operation is compared with what it held, every object of a copy must be a new one and hold equal texts, kinds and lines (symbolic), and after every step of a sequence every Ast must hold exactly the scopes it was given.",
 ["Copy", "SetScope", "AppendScope"])

prop("C14", "Nothing is shared between calls behind the caller's back",
 "No operation of the library changes data that outlives the call and that the caller did not hand in: tables and settings keep what they held after initialisation, apart from the debug switch, which only decides about diagnostic output. So the answer of a call depends on its arguments (and files read) alone and not on earlier calls, and calls on separate data can run at the same time in several goroutines.",
 ["histories", "schedules"],
 "every sequence and every interleaving of calls of exported functions and methods, on data that the calls do not share; the assertion helpers for tests, functions given by the caller and the standard library are left out.",
 "Tests call each operation once in one goroutine; a cache or a table that is reordered goes wrong only with certain earlier or simultaneous calls.",
 ["ast.go", "scope.go", "node.go", "extractor.go", "kind/kind.go", "charset/charset.go", "helper/helper.go"],
 [("tables", "charset/charset.go: package variables"), ("debug switch", "helper/helper.go: SetDebug, DebugPrint"), ("kind working-out", "kind_resetter_*.go, kind/kind.go: New")],
 "interprocedural escape and effect analysis of package-level variables over the call graph",
 "A flow-insensitive points-to analysis follows every package-level variable and everything reachable from it through the functions reachable from the exported ones; any store, map update, append or call that may change such data outside of initialisation is a violation. Data guarded by locks or atomics is reported as well, since an answer may then depend on earlier calls.",
 ["every exported operation"])

prop("C15", "Equal input gives the equal answer, every time",
 "Called with equal arguments, and equal files where files are read, every operation of the library gives the same answer in every call and every run of the program: the same scopes, nodes, kinds and lines, the same printed and saved text. Nothing in an answer depends on the order in which a map is gone through, on time, random numbers, the environment, memory addresses or the timing of goroutines.",
 ["inputs", "schedules"],
 "every exported operation, every argument; diagnostic output, the assertion helpers for tests and the standard library itself are left out.",
 "Tests call an operation once or twice; with a lookup in map order, two entries that both fit give one answer most of the time.",
 ["extractor.go", "scope.go", "ast.go", "node.go", "helper/helper.go", "kind/kind.go", "charset/charset.go"],
 [("longest opening token", "extractor.go: PrefixFit over the extractor tables"), ("shown texts", "helper/helper.go: TidyText"), ("tables", "charset/charset.go")],
 "search for sources of chance over the call graph, and commutation of the rounds of every loop over a map",
 "Every function reachable from the exported ones or run at initialisation is searched for calls, conversions and formatting whose outcome differs from run to run. A loop over a map must only gather (and sort), only ask whether an entry fits, or have rounds that commute: for every pair of entries of the tables it can go over, both orders are run symbolically on unknown data and must come to the same.",
 ["every exported operation"])

prop("C16", "The kind of a text is the one its characters call for",
 "The kind given to a text depends on the text alone: a bracket, blank, punctuation mark or keyword with a kind of its own gets that kind, nothing gets none, digits only make a Number, another single separator a Separator, what starts with a double quote or a backquote a String, another Go keyword a Keyword, a basic type a Basic, operator characters only a Symbol, and everything else is Raw. This holds for texts of any length and any bytes. Kinds differ from each other and in their names, each bracket and its partner lead to each other and nothing else has a partner, and each kind of scope has a name and the kind that fits it.",
 ["inputs"],
 "every text, every kind and every kind of scope; the single characters * and & count as symbols.",
 "The tests never ask for the kind of most texts; the exceptions (a long number, a name with letters outside ASCII, an unfinished string) are endless.",
 ["kind/kind.go", "charset/charset.go", "scope/scope_kind.go", "helper/helper.go"],
 [("kind of a text", "kind/kind.go: New, over charset/charset.go"), ("partners of brackets", "kind/kind.go: GetClose"), ("kinds of scopes", "scope/scope_kind.go: String, ToKind")],
 "abstract interpretation over classes of texts given by the bytes of their parts",
 "The source is run on the empty text, on every text of one byte, on every word with a meaning of its own, and on eight classes that make up all other texts: unknown length, each part's bytes known only as a set. Loops are followed to a fixed point; on every path the kind must be the one that belongs to the class. The tables of kinds are read off and compared pairwise.",
 ["kind.New for every text", "kind.Kind and scope.Kind methods for every kind"])

prop("C23", "Nodes, scopes and Asts hold what they were given",
 "A new node has the given line and text, the first given kind or else the kind of its text, and no neighbours; a list of nodes made of texts has one node per text in that order, each on the line that the texts before it end on. Setting the text or the kind of a node changes that attribute of that node and nothing else. A new scope has the given kind and node and reports the line after the given one; an Ast has the scopes it was made of, given or had added, in that order, and iterating passes each of them on once, in that order, until told to stop.",
 ["inputs"],
 "every line, text and kind, every number of given kinds, every position in a list; lists of texts up to 7 and of scopes up to 8.",
 "Tests read back one or two typical values; an empty text, a text with several line ends, a kind given twice or a scope without nodes is not sampled.",
 ["node.go", "scope.go", "ast.go"],
 [("nodes", "node.go: NewNode, NewNodes, Text, Line, Kind, SetText, SetKind"), ("scopes", "scope.go: NewScope, Kind, Line, Node"), ("Asts", "ast.go: NewAst, Scope, IterScope, SetScope, AppendScope")],
 "abstract interpretation of constructors, setters and iterations with unknown attributes",
 "Constructors are run on unknown lines, texts and kinds (texts by the classes used for kinds, lists up to a fixed length); what the accessors then report must be provably the given values. After each setter the whole memory is compared with the one before. Iterations are run with a callback that may stop at any call.",
 ["NewNode, NewNodes, NewScope, NewAst", "accessors, setters and IterScope"])
