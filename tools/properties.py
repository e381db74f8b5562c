PARSER = ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/function.rs", "parser/src/literal.rs"]
JOINT = "static analysis: product of the MIR of each parser production with the MIR of a reference grammar (never executed), abstract interpretation to a fixpoint over all tokens, contexts and subtrees"
JNOTE = " Relational, production by production (assume/guarantee at calls); a production the analysis cannot follow is printed as UNDECIDED and listed in the evidence."
prop("C01", "No input makes the parser panic",
     "Whatever the source text, parsing it as a script or module ends in a syntax tree or an error value: no unwrap of an absent value, failed assertion, out-of-range index or arithmetic fault is reachable in any production of the parser.",
     ["inputs"], "every token sequence (including lexical errors and the end of input at every position), every parser context, script and module",
     "Panics hide behind token sequences nobody wrote a test for (an end of input in the middle of a production, a keyword in an odd place)",
     PARSER + ["parser/src/module.rs", "parser/src/class.rs", "parser/src/method.rs", "parser/src/binding.rs", "parser/src/assignment_pattern.rs"],
     [("productions", "parser/src/*.rs"), ("token source", "common/src/io/peek_reader.rs")],
     claim=JOINT + "; obligation: no path of the implementation reaches a panic", note="Covers the parser's productions for every stream of tokens; the lexer's own code is C14/C17/C18." + JNOTE)
prop("C02", "Parsing terminates: every loop and recursion consumes input",
     "For every finite source text the parser stops: no loop of a production goes round, and no chain of productions comes back to itself, without having consumed at least one token in between, and looking ahead and rewinding happens at most once per visit of a place.",
     ["inputs"], "every token sequence and context; all loops and all recursion cycles of the parser",
     "An endless loop shows only on the input that enters it; a test that does not know it passes",
     PARSER, [("productions", "parser/src/*.rs"), ("repetition helpers", "parser/src/lib.rs")],
     claim="static analysis: consumption graph of every production from the abstract interpretation of its MIR; no cycle without consumption, no left recursion (strongly connected components)",
     note="Shows termination, not running time: the parser may look at a token more than once per nesting level (cover grammars)." + JNOTE)
prop("C03", "Only complete, lexically valid sources are accepted",
     "A parse succeeds only if the whole text was consumed: no accepted source has tokens left over, and a lexical error anywhere in the text is reported as an error and never swallowed, turned into the end of input or stepped over.",
     ["inputs"], "every token sequence with an end of input or a lexical error at any position",
     "Tests end their sources where the grammar ends; leftovers and errors in the middle are only sampled",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "common/src/io/peek_reader.rs"],
     [("entry points", "parser/src/lib.rs"), ("reading the next token", "common/src/io/peek_reader.rs")],
     claim=JOINT + "; outcomes at the end of input and at lexical errors", note="Decides the behaviour of the parser at the end of input and at lexical errors in every production." + JNOTE)
prop("C04", "The span of every node is its source range",
     "The span of every node of the tree runs from the first byte of its first token to the last byte of its last token (parentheses, keywords and terminating semicolons that belong to the construct included); children lie within their parents.",
     ["inputs"], "every node of every tree, for every way in which its optional parts can be present",
     "Spans of rare forms (optional parts missing, semicolon inserted, nested covers) are not in the snapshots",
     PARSER, [("span_from, position", "parser/src/lib.rs"), ("node constructors", "parser/src/*.rs")],
     claim=JOINT + "; spans are compared as pairs of token boundaries", note="Spans as pairs of token boundaries; that tokens know their own byte range is C14. " + JNOTE)
prop("C05", "Statements parse to the tree of the grammar",
     "Every statement and declaration list derivable by the grammar of ECMA-262 (blocks, variable declarations, if, all loops, with, switch, try, labels, jumps, throw, debugger, expression statements and the declarations among them) is accepted and gives the node with exactly these parts in these places; what the grammar does not derive is rejected. Checks of jump targets, labels and redeclaration are not part of this.",
     ["inputs"], "every token sequence at statement level, every context", "The grammar is infinite; the snapshots contain a few dozen statements",
     ["parser/src/stmt.rs", "parser/src/iteration.rs", "parser/src/variable.rs", "parser/src/lib.rs"],
     [("statements", "parser/src/stmt.rs"), ("loops", "parser/src/iteration.rs"), ("variable declarations", "parser/src/variable.rs")],
     claim=JOINT + "; productions of statements", note="Decides which tokens are accepted, which productions are entered and which node is built." + JNOTE)
prop("C06", "Operators group by the precedence and associativity of the language",
     "An expression built from unary, binary, logical, conditional, assignment, yield, await and comma operators is parsed into the tree that the precedence levels and associativities of ECMA-262 prescribe, with each operator token mapped to its own operator; `in` is an operator exactly where the grammar parameter [In] allows it.",
     ["inputs", "programs"], "every sequence of operators and operands, every context", "Pairs and triples of ~40 operators: the tests combine a handful",
     ["parser/src/expr.rs", "parser/src/binary_expr.rs"], [("binary operators", "parser/src/binary_expr.rs"), ("unary, assignment, conditional", "parser/src/expr.rs")],
     claim=JOINT + "; productions of operators and the [In] parameter", note="Decides the productions of all operators. Deviations pinned by the snapshot tests are listed as known findings." + JNOTE)
prop("C07", "Semicolons are inserted exactly where the rules say",
     "A statement without its semicolon is accepted exactly when a line terminator, a closing brace or the end of input follows (or the do-while rule applies), and a line terminator ends or splits the construct at every restricted place: return, throw, break, continue, yield, postfix `++`/`--`, `async` before function, arrow parameters or method name, and `=>`. Nowhere else do line terminators change the tree.",
     ["inputs"], "every statement and restricted production, with and without a line terminator between any two tokens",
     "Line terminators can be anywhere; tests have them in a few places",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "lexer/src/token.rs"],
     [("consume_optional_semicolon", "parser/src/lib.rs"), ("followed_by_new_line", "parser/src/lib.rs"), ("first_on_line", "lexer/src/lexer.rs")],
     claim=JOINT + "; outcomes that depend on a line terminator before the current or next token or on a semicolon", note="Decides all places where a line terminator or semicolon is looked at, and that no others depend on it." + JNOTE)
prop("C08", "Parsing contexts reach exactly the code they govern",
     "Strict mode, [Await], [Yield], [In], [Return], [Default], `super` call and method contexts hold for exactly the code that ECMA-262 gives them: they are entered at the construct that establishes them, inherited by what is nested where the grammar says so, reset by the constructs that reset them, and never leak to siblings or to the code after the construct.",
     ["inputs", "configurations"], "every production with every combination of the context flags", "Nesting of contexts is unbounded; tests nest two or three deep in a few combinations",
     ["parser/src/lib.rs", "parser/src/function.rs", "parser/src/method.rs", "parser/src/class.rs", "parser/src/expr.rs"],
     [("Context and its modifiers", "parser/src/lib.rs"), ("functions", "parser/src/function.rs"), ("methods", "parser/src/method.rs")],
     claim=JOINT + "; the context passed at every call of a production and every outcome that depends on a flag", note="Decides the flow of all context flags over all call sites." + JNOTE)
prop("C09", "Destructuring patterns parse like the grammar, in both forms",
     "Binding patterns, assignment patterns and parameters accept exactly the grammar's forms (holes, defaults, nesting, rest only at the end) and give a tree with exactly these elements in order; an expression becomes an assignment pattern exactly when it is the target of `=` or of for-in/of, with the same meaning as when written as a pattern.",
     ["inputs"], "every pattern, nested to any depth", "Nesting and optional parts multiply; tests have about thirty patterns",
     ["parser/src/binding.rs", "parser/src/assignment_pattern.rs", "parser/src/expr.rs", "parser/src/cover.rs"],
     [("binding patterns", "parser/src/binding.rs"), ("assignment patterns", "parser/src/assignment_pattern.rs")],
     claim=JOINT + "; productions of patterns and of assignment", note="Decides the productions of patterns, parameters and assignment targets. Deviations pinned by the snapshot tests are listed as known findings." + JNOTE)
prop("C10", "Module syntax: imports, exports and module-only rules",
     "Import and export declarations are accepted in every form of the grammar and only at the top level of modules, give nodes with exactly the written names, aliases and sources, and module code is strict; scripts never accept them, and import calls and `import.meta` stay expressions.",
     ["inputs", "configurations"], "every form of import and export declaration; source type script and module",
     "Combinations of default, namespace and named clauses with and without aliases; tests have some of them",
     ["parser/src/module.rs", "parser/src/lib.rs", "parser/src/stmt.rs"], [("import and export declarations", "parser/src/module.rs"), ("source type", "parser/src/lib.rs")],
     claim=JOINT + "; productions of modules and the source type", note="Decides import and export declarations and everything that depends on the source type." + JNOTE)
prop("C11", "Member, call, template and optional chains parse by the grammar",
     "Primary, member, call, `new`, `super`, `import()`, meta property, tagged template, optional chain, array literal and parenthesised expressions are accepted as the grammar has them and nest from left to right with the right base, arguments and flags; template literals keep their strings and substitutions in order.",
     ["inputs"], "every chain of accesses and calls, every argument list, every template", "Chains mix six kinds of links in any order; tests have two or three links",
     ["parser/src/member_access.rs", "parser/src/expr.rs", "parser/src/literal.rs", "parser/src/cover.rs"],
     [("member access and calls", "parser/src/member_access.rs"), ("literals and templates", "parser/src/literal.rs")],
     claim=JOINT + "; productions of primary and left-hand-side expressions", note="Decides these productions, given the contents of the tokens." + JNOTE)
prop("C12", "Functions, arrows, classes, methods and object literals parse by the grammar",
     "Function, async, generator and arrow forms, classes with their members and heritage, methods, getters, setters, property names and object literals (shorthand, spread, computed, keyword names such as `get`, `set`, `static`, `async`) are accepted as the grammar has them and give nodes with the right kind, name, flags, parameters and body.",
     ["inputs"], "every function, class and object form, every member list", "Modifiers and contextual keywords multiply; tests have the common combinations",
     ["parser/src/function.rs", "parser/src/method.rs", "parser/src/class.rs", "parser/src/literal.rs"],
     [("functions and arrows", "parser/src/function.rs"), ("methods", "parser/src/method.rs"), ("classes", "parser/src/class.rs"), ("object literals", "parser/src/literal.rs")],
     claim=JOINT + "; productions of functions, classes and object literals", note="Decides these productions, given the contents of the tokens." + JNOTE)
prop("C13", "Early errors of targets, parameters and directives are raised, and only they",
     "Assignment and update targets must be simple, in strict mode not `eval` or `arguments`; `delete` of a (parenthesised) name is an error in strict mode; getters take no parameter, setters exactly one that is not a rest parameter; methods have no duplicate parameter names (names inside of patterns included); a \"use strict\" directive makes the code strict and is an error in a method with non-simple parameters. No source that respects these rules is rejected because of them.",
     ["inputs"], "every expression, parameter list and directive list", "The rules look through nesting (parentheses, patterns, lists of any length)",
     ["parser/src/static_semantics/mod.rs", "parser/src/method.rs", "parser/src/function.rs", "parser/src/expr.rs"],
     [("static semantics", "parser/src/static_semantics/mod.rs"), ("use", "parser/src/method.rs, parser/src/expr.rs, parser/src/iteration.rs")],
     claim=JOINT + "; functions of the static semantics and the productions that call them; bound names and duplicate search as automata", note="Decides the rules and where they are applied." + JNOTE)
LEXJ = "static analysis: product of the MIR of the lexer with the MIR of a reference lexer (never executed), abstract interpretation to a fixpoint over all character classes"
LNOTE = " Characters are classes (every character the code or the grammar mentions is a class of its own), texts are pairs of positions. A part the analysis cannot follow is printed as UNDECIDED and listed in the evidence."
prop("C14", "The source is cut into exactly the tokens of the lexical grammar",
     "Whatever the text, the lexer cuts it into the tokens of ECMA-262 chapter 12, each as long as possible and of the kind its text has (the punctuators of the language level that fajt implements, identifiers and keywords with unicode escapes, literals), skips exactly white space, line terminators and comments (HTML-like ones only in scripts), knows for every token its byte range and whether a line terminator, also one inside a comment, came before it, and rejects every character that starts no token.",
     ["inputs"], "every character sequence (classes of characters over all of Unicode) in every lexer state (HTML comments, regexp, template)",
     "Texts are unbounded and comments, escapes and the longest-match rule interact; tests have a few dozen texts",
     ["lexer/src/lib.rs", "lexer/src/unicode_escape_sequence.rs", "lexer/src/code_point.rs"],
     [("token dispatch, trivia", "lexer/src/lib.rs"), ("unicode escapes", "lexer/src/unicode_escape_sequence.rs"), ("character classes", "lexer/src/code_point.rs")],
     claim=LEXJ + "; token boundaries, kinds, trivia, spans and the line terminator flag", note="Decides every path of the lexer from any start position." + LNOTE)
prop("C15", "Reserved words are reserved exactly in their contexts",
     "A word that the language reserves can never be used as a binding or reference name, and every other word always can: the words of the language reserved everywhere are rejected everywhere, `await`, `yield` and the strict mode words only in the contexts that reserve them, contextual words such as `async`, `get` or `of` never.",
     ["inputs", "configurations"], "every keyword, every combination of await, yield and strict mode context",
     "53 keywords times 8 contexts; the snapshot tests try about ten of these combinations",
     ["lexer/src/token.rs", "parser/src/lib.rs"], [("reservation predicate over keyword and context flags", "lexer/src/token.rs"), ("flags from the parser context", "parser/src/lib.rs")],
     claim="static analysis: abstract interpretation of the reservation predicate (MIR), exhaustive case split compared with the table of ECMA-262",
     note="Decides all keyword/context combinations.")
prop("C16", "Every token and operator has one spelling, used in both directions",
     "Each keyword, punctuator, operator and declaration kind is recognised from exactly one source text, that text is the one ECMA-262 gives it, and rendering the token or operator (in generated code, in messages) yields the same text again.",
     ["inputs", "programs"], "every variant of the token and operator enumerations, both directions",
     "The tables have 157 entries that are generated by a macro from attributes; tests touch a fraction of them and mostly in one direction",
     ["lexer/src/token.rs", "ast/src/expr.rs", "ast/src/stmt.rs", "macros/src/enum_from_string.rs"],
     [("derived conversions", "macros/src/enum_from_string.rs"), ("spelling attributes", "lexer/src/token.rs, ast/src/expr.rs, ast/src/stmt.rs")],
     claim="static analysis: abstract interpretation of the conversion functions (MIR), exhaustive case split compared with the spelling table",
     note="Decides all variants in both directions.")
prop("C17", "Literals have the forms and texts of the language",
     "A number (decimal, fraction, exponent, hexadecimal, octal, binary, separators only between digits), string (escapes, line continuations, no bare line terminator), template part and regular expression (classes, escapes, flags) is accepted exactly in the forms of the lexical grammar, ends exactly where the grammar ends it, is never accepted unterminated or directly followed by an identifier or digit where that is forbidden, and the token carries exactly the text that stands in the source.",
     ["inputs"], "every character sequence inside literals, every lexer state",
     "Malformed and unusual literals (separators, prefixes, escapes, unterminated forms) are unbounded in number; tests have single examples",
     ["lexer/src/number.rs", "lexer/src/string.rs", "lexer/src/regexp.rs", "lexer/src/lib.rs"],
     [("numbers", "lexer/src/number.rs"), ("strings", "lexer/src/string.rs"), ("regular expressions", "lexer/src/regexp.rs"), ("templates", "lexer/src/lib.rs")],
     claim=LEXJ + "; paths and texts of literals", note="Strings keep the notation the snapshot tests fix (their value is the text without the backslashes); the pattern inside a regular expression is not parsed." + LNOTE)
prop("C18", "Looking ahead, going back and re-reading lose and invent nothing",
     "The reader between lexer and parser hands out every item once and in order, always knows the next one, reports an error of the source exactly at the place where it occurs, and its position is the end of the last item handed out. After going back to an item it continues with that item, with the same line terminator flag; reading the current item again in another lexer state changes that item only, and the lexer state is restored even when this fails.",
     ["inputs", "histories"], "every state of the reader and the lexer (items and errors in both places), every operation",
     "What an operation leaves behind shows only in the operations that come after it; the tests of the parser see few sequences",
     ["common/src/io.rs", "common/src/io/char_reader.rs", "lexer/src/lib.rs"],
     [("PeekReader", "common/src/io.rs"), ("characters with positions", "common/src/io/char_reader.rs"), ("seek, rewind_before, read_with_state, LexerState", "lexer/src/lib.rs")],
     claim="static analysis: abstract interpretation of every operation (MIR) on an opaque state, each path compared with the specified requests, state and result", note="Decides each operation for every state; sequences follow because the states are arbitrary. Positions after characters outside ASCII are a known finding.")
prop("C20", "Tree traversal visits every node exactly once, in source order",
     "Walking a syntax tree with a visitor announces every node of the tree exactly once on entry and once on exit, properly nested and in the order in which the nodes appear in the source; children are skipped only below a node whose entry callback asked for it.",
     ["inputs", "programs"], "every tree: all node types, all variants, all combinations of present and absent optional children and list lengths",
     "The unit tests walk a handful of small trees, the table of about 100 node types is written by hand and an omitted field compiles",
     ["ast/src/traverse/mod.rs", "ast/src/traverse/macros.rs"], [("table of children per node type", "ast/src/traverse/mod.rs"), ("generated traversal", "ast/src/traverse/macros.rs")],
     claim="static analysis: abstract interpretation of the traversal functions (MIR) to event automata, compared with automata derived from the type definitions",
     note="Decides all node types, variants and option combinations.")

prop("C21", "Generated code contains every part of the tree, in order",
     "The code generated from a parsed tree, pretty or minified, contains for every node exactly its tokens, texts and children in the order of the grammar: no operator, keyword, bracket, separator, modifier, option, list element, hole or rest element is lost, added, repeated or moved, and generating it never panics.",
     ["inputs", "programs", "configurations"], "every tree: all node types, all variants, all combinations of options and list lengths, both output modes",
     "The generator is one hand-written method per node type with many options each; tests print a few trees",
     ["codegen/src/lib.rs"], [("one method per node type", "codegen/src/lib.rs"), ("sequences and brackets", "codegen/src/lib.rs")],
     claim="static analysis: abstract interpretation of the generator (MIR) to an output automaton per node type, case and mode; inclusion in the automaton of the grammar template",
     note="Decides all node types, cases and both modes. Trees that no source parses to (holes next to each other in impossible ways, two adjacent template strings) are left out. A node type the analysis cannot follow is printed as UNDECIDED.")
prop("C22", "Generated code keeps tokens apart, and its white space means nothing",
     "In generated code, pretty or minified, two neighbouring tokens never merge into another token (words, numbers, operators such as `+ ++`, comments, the dot after an integer, flags after a regular expression), white space and line breaks are only written where they do not change the meaning (not inside of template literals, no line break after `return`, `throw`, `async`, before `=>` or `++`), and only semicolons that are redundant are left out.",
     ["inputs", "programs", "configurations"], "every pair of tokens that can meet, over all nestings of node types, both output modes",
     "What meets depends on two nodes that know nothing of each other; tests have a handful of combinations",
     ["codegen/src/lib.rs"], [("separation", "codegen/src/lib.rs"), ("line breaks and removed semicolons", "codegen/src/lib.rs")],
     claim="static analysis: fixpoint of the possible ends of the output over the output automata of all node types (MIR), each write checked against what may precede it",
     note="Decides all combinations of neighbouring node types in both modes; the contents of strings, regular expressions and directives are taken as they are.")

prop("C24", "Parsing, generating, traversing and reporting have no effects and no memory",
     "What the libraries compute (tokens, trees, generated code, error reports) depends on their arguments alone: no function of the library crates reads or writes files, standard streams, the environment, the clock, randomness or other processes, keeps state between two calls (static, thread local), or lets the order of a hash table or a memory address into its result. Two calls with equal arguments give equal results, on every thread and in every order.",
     ["histories", "schedules"], "every body of the library crates, compiled as it is",
     "A result that depends on earlier calls, the environment or a random order shows in no single test run",
     ["ast/src", "common/src", "lexer/src", "parser/src", "codegen/src"], [("entry points of the parser", "parser/src/lib.rs"), ("lexer", "lexer/src/lib.rs"), ("code generator", "codegen/src/lib.rs"), ("error reports", "parser/src/error/emitter.rs")],
     claim="static analysis: effect analysis over all compiled bodies of the library crates (MIR): every named function, static, thread local and address cast is judged", note="The functions of core, alloc and serde are taken to have no effects except the listed ones. What the caller passes in (a writer, a visitor, a serializer) is the caller's.")
prop("C23", "A serialised tree reads back as the same tree",
     "For every syntax tree, token and lexical error: what its serde implementation writes, read back with the serde implementation of the same type, is a value equal to the one written. Every field of every node is written and read back as that field, every variant of every enumeration is read back as that variant, every span with its start and end; in formats that go by name and in formats that go by position. Reading malformed input (a span that is no pair of numbers) is an error and does not panic.",
     ["inputs"], "every serialised type, every variant, every value of the fields",
     "The snapshot tests write and read the trees of the sources they have; most optional parts and variants do not occur in all combinations, and malformed input does not occur",
     ["ast/src", "lexer/src/token.rs", "lexer/src/error.rs"], [("derives of the nodes", "ast/src/macros/mod.rs"), ("span as text", "ast/src/span.rs")],
     claim="static analysis: abstract interpretation of the serde implementations (MIR) with opaque fields: the recorded document of each variant is the script of the deserializer; the value read is compared with the value written", note="serde's own implementations for Option, Box, Vec, String and scalars are trusted, as is the data format.")
prop("C25", "Error reports show the error where it is",
     "The report of a parse error starts with the description of the error, followed by file:line:column of the place where the error starts (the file alone for an error without a position); unless the source ended too early, it shows the source lines the error covers, each tab as four spaces, with a mark below the place where the error starts that is as long as the error (both at most 65535), and the explanation that belongs to the kind of error. Line and column are those of the start of the error: one plus the number of line ends before it, one plus the distance from the start of its line. Reporting never panics and never cuts the source inside a character, whatever the source and the span.",
     ["inputs"], "every error kind, every span inside the source, every source",
     "Tests compare the reports of a few short sources",
     ["parser/src/error/emitter.rs", "parser/src/error"], [("emit_error", "parser/src/error/emitter.rs")],
     claim="static analysis: abstract interpretation of the emitter (MIR) over all paths with an abstract source text; what is printed on each path is decoded from the format templates and compared with what the report must contain; each place where the source is cut is an obligation", note="Width of characters on screen is left open; formatting of the description of each kind is that of thiserror/Display.")

prop("C26", "The command line program does what its options and the file name say",
     "A run of fajt reads the named file, parses it as a module exactly if its name ends with .mjs or .module.js and as a script otherwise. If that fails, the error is reported once on the standard error output for this file and source, the status is 1 and nothing is printed on the standard output. Otherwise the status is 0 and: with --check (-c) the program is not printed; with --format (-f) exactly the generated code and a line end are printed, minified exactly if the value is `minified`; else the syntax tree is printed.",
     ["inputs", "configurations"], "every path of main: all options, file names and results of reading and parsing",
     "No test runs the program",
     ["src/main.rs"], [("main", "src/main.rs"), ("options", "src/main.rs")],
     claim="static analysis: abstract interpretation of main (MIR) over all paths; the effects of each path compared with what its options and results ask for", note="The option parser (clap) is trusted; how an unreadable file fails is left open (it panics).")

prop("C19", "Resources stay in proportion to the source",
     "Parsing and generating take time and stack that are bounded by a polynomial of small degree in the length of the source: no source of a few kilobytes makes the parser run for minutes or overflows the stack.",
     ["inputs"], "every source", "Tests are short and flat; nesting and backtracking show on sources they do not have",
     ["parser/src", "codegen/src"], [("re-parsing of parenthesised expressions", "parser/src/expr"), ("recursive descent", "parser/src/lib.rs")],
     na="A bound on running time and stack depth is a quantity of the run. The recursion of the descent has no depth limit, so the stack needed is proportional to the nesting of the source and there is no constant to check against; the number of times a part is parsed again after a rewind depends on how often rewinds nest at run time. A static rule (no rewind inside a rewind) would alarm on code that is correct, and reporting call-graph cycles would flag the design itself.")

prop("C27", "Generated code parses to the same tree",
     "For every tree that the parser makes: the code generated from it, minified or not, parses again, and the tree that results equals the first one but for spans.",
     ["inputs"], "every tree and both styles", "Tests round-trip the sources they have",
     ["codegen/src", "parser/src"], [("code generator", "codegen/src/lib.rs"), ("parser", "parser/src/lib.rs")],
     na="The composition of generator, lexer and parser over an unbounded recursive tree is outside what these analyses can follow: it needs an induction over the tree with an invariant that relates printed text, token boundaries and parser state at once. The parts are claimed separately: what the generator prints for each node, with its parentheses and token separation (C21, C22), and what the lexer and the parser make of a text (C01 to C18). The equality of the whole is not claimed.")
