TESTS = "The existing tests compare a few dozen fixed queries over fixed rows with golden files"

prop("C01", "Expressions evaluate by the documented operators, precedence and NULL rules",
     "Every expression evaluates to the value given by the documented precedence (member access, * and /, + and -, comparisons and NOT, OR, AND), left associativity, "
     "short circuit, truth values, and type rules of the operators. "
     "Numbers mix by promotion to floating point, division by zero and operators that do not apply to their operands give NULL, and nothing else does.",
     ["inputs", "programs"],
     "all expressions over literals and variables of every type: integers (to the limits of 64 bits), floats, strings, booleans, NULL, lists, dicts and lists of rows",
     TESTS + ", one operand type at a time; precedence, associativity and type mixes are a product of operators, types and nesting.",
     ["vfilter.go", "protocols/protocol_add.go", "protocols/protocol_sub.go", "protocols/protocol_mul.go", "protocols/protocol_div.go",
      "protocols/protocol_eq.go", "protocols/protocol_lt.go", "protocols/protocol_gt.go", "protocols/protocol_bool.go",
      "protocols/protocol_membership.go", "protocols/protocol_regex.go", "protocols/protocol_associative.go"],
     [("grammar of expressions, one level per precedence", "vfilter.go: _AndExpression ... _Value"),
      ("type dispatch of each operator", "protocols/*.go")],
     "property-based differential testing against a reference interpreter",
     MODEL + "Trusts Go's arithmetic, strconv and regexp.")

prop("C02", "SELECT filters, projects, names and limits rows exactly",
     "A SELECT emits, in the order of its source, one row for every source row for which WHERE holds, with exactly the columns listed, in their order, under their aliases; "
     "WHERE sees the columns of the source and the aliases, * adds the columns of the source, and a later column replaces an earlier one of the same name. "
     "LIMIT n keeps the first n of these rows.",
     ["inputs", "programs"],
     "all SELECT statements over all tables of rows of mixed types, including nested sources",
     TESTS + "; combinations of *, aliases that mask columns, filters over aliases and nested sources are not sampled.",
     ["vfilter.go", "lazy.go"],
     [("transform of a row to a lazy row", "vfilter.go: _SelectExpression.Transform"),
      ("filter and limit", "vfilter.go: _Select.Eval"), ("lazy columns", "lazy.go: LazyRowImpl")],
     "property-based differential testing against a reference interpreter",
     MODEL)

prop("C03", "GROUP BY puts each row in one bin and aggregates over exactly its rows",
     "GROUP BY emits one row for every distinct value of its key expressions, in order of first appearance, and each aggregate function in it is computed over exactly the rows of that bin "
     "that pass WHERE, independently of other bins and of other aggregates in the same query. "
     "Without GROUP BY an aggregate runs over the rows seen so far.",
     ["inputs", "programs"],
     "all tables, one or more key expressions, any number of count, sum, min, max and enumerate calls per query",
     TESTS + " with one or two bins; which rows share a bin depends on the values.",
     ["vfilter_group.go", "grouper/grouper.go", "functions/aggregates.go", "aggregators/aggregators.go", "scope/aggregators.go"],
     [("key of a row", "vfilter_group.go"), ("bins", "grouper/grouper.go"), ("aggregate state", "functions/aggregates.go")],
     "property-based differential testing against a reference interpreter",
     MODEL + "Key values with the same text representation (1 and \"1\") share a bin by design and are not told apart.")

prop("C04", "ORDER BY sorts all rows without loss; LIMIT keeps the first of them",
     "ORDER BY emits exactly the rows of the query without it, each as often, in ascending (DESC: descending) order of the column, with NULL and missing values as the smallest. "
     "With LIMIT n the result is the first n rows of that order.",
     ["inputs", "programs"],
     "all tables with comparable keys (numbers of every kind, strings, NULLs, ties), ascending and descending, any LIMIT, grouped and nested sources",
     TESTS + " with a handful of rows; ties, NULLs and limits interact with the order of the input.",
     ["vfilter.go", "sort/sort.go"],
     [("sorter", "sort/sort.go"), ("feeding the sorter and applying LIMIT afterwards", "vfilter.go: _Select.Eval")],
     "property-based testing with a permutation and sortedness oracle",
     "Rows without ORDER BY come from the reference interpreter; any order of ties is accepted. Bounded to 120 rows.")

prop("C05", "LET stores, materializes and parameterizes expressions and queries",
     "A name defined by LET = stands for its definition, evaluated where it is used with the variables visible there; one defined by LET <= is evaluated once, at its definition, and keeps that value. "
     "A parameterized definition sees its arguments, and its defaults for missing ones; later definitions mask earlier ones.",
     ["inputs", "programs"],
     "all sequences of definitions of expressions and queries that use and mask each other, and queries over them",
     TESTS + "; what a name means depends on the sequence of definitions and on the place of its use.",
     ["vfilter.go", "stored.go", "scope/scope.go", "materializer/in_memory.go"],
     [("definitions", "vfilter.go: VQL.Eval"), ("calls and defaults", "stored.go"), ("resolution of names", "scope/scope.go: Resolve")],
     "property-based differential testing against a reference interpreter",
     MODEL)

prop("C06", "foreach, chain, if, flatten and range compose as documented",
     "foreach emits the rows of its query for every row of its row argument, with that row's columns visible to the query; chain emits the rows of its queries one query after the other in the order they are given; "
     "if runs only the branch chosen by its condition; flatten emits the cartesian product of the list cells of every row; range counts from start to end by step. "
     "With several workers foreach emits the same rows, in any order.",
     ["inputs", "programs", "schedules"],
     "all nestings of the plugins over queries, stored queries, lists, rows and scalars, and any number of workers",
     TESTS + " for each plugin alone; nestings, scalar arguments and worker counts are not sampled.",
     ["plugins/foreach.go", "plugins/chain.go", "plugins/if.go", "plugins/flatten.go", "plugins/range.go", "arg_parser/args.go", "protocols/protocol_iterate.go"],
     [("worker pool", "plugins/foreach.go"), ("order of the queries", "plugins/chain.go"), ("iteration over any value", "protocols/protocol_iterate.go")],
     "property-based differential testing against a reference interpreter",
     MODEL + "Schedules are those the Go scheduler produces.")

prop("C07", "Formatting any parsed program gives a program with the same meaning",
     "FormatToString of any program that parses gives text that parses again, has the same syntax tree, is the same text when formatted once more, and gives the same rows and columns when it is evaluated.",
     ["inputs", "programs"],
     "all programs of the whole grammar (every statement, operator, literal, quoted name, plugin, subquery, lambda and clause)",
     TESTS + "; the text of an element depends on what it is nested in (parentheses, quoting, escapes), which has no finite sample.",
     ["visitor.go", "vfilter.go", "utils/unquote.go"],
     [("printing of the tree", "visitor.go"), ("parse", "vfilter.go: MultiParse"), ("quoting of names and strings", "utils/unquote.go")],
     "property-based round-trip testing with a grammar-based generator",
     "Compares the tree before and after, and the rows of both programs on generated tables. Programs are bounded in depth.")

prop("C08", "Reformatting keeps the program and all its comments and is stable",
     "Reformatting a program (the visitor with comments and line breaks) keeps its tokens, in order, and each of its comments exactly once, next to the same tokens; the result parses to the same program, "
     "and reformatting it again changes nothing. CollectComments and the Visitor see every comment.",
     ["inputs", "programs"],
     "all programs of the whole grammar with any layout, one-line and multi-line comments at every place where the grammar allows them, multi-line strings",
     "The existing tests reformat a dozen fixed programs; where a comment may stand, what is broken over lines and what is next to it multiply.",
     ["visitor.go", "reformat/", "vfilter.go"],
     [("layout and line breaks", "visitor.go"), ("public entry", "reformat/"), ("comments in the grammar", "vfilter.go")],
     "property-based metamorphic testing with an independent lexer as oracle",
     "The token streams are compared by an independent lexer. Text stability is required for programs without comments; comments may move across a comma. Programs are bounded in depth.")

prop("C09", "Source tooling: tokens, call sites, definitions and outlines match the text",
     "Tokenize covers the text with non-overlapping tokens in order, whose types, values, lines, columns and byte offsets match the text; "
     "the visitor and the outline report each call site (with its arguments) and each definition (with its name, parameters and their defaults) of the program exactly once and at the place where it stands in the text.",
     ["inputs", "programs"],
     "all programs of the whole grammar with any layout, non-ASCII text and comments",
     "The existing tests look at a few fixed programs in ASCII; positions depend on everything that precedes them.",
     ["tokenizer.go", "visitor.go", "outline.go", "vfilter.go"],
     [("tokens", "tokenizer.go: Tokenize"), ("call sites and definitions", "visitor.go")],
     "property-based testing against the generated syntax tree and an independent lexer",
     "The expected call sites, definitions and spans come from the generator which wrote the program.")

prop("C10", "The parser accepts exactly the grammar and never fails in another way",
     "A program of the grammar parses to the same tree whatever its white space, comments and case of keywords are; text is either parsed as a whole, so that every token of it is in the result, or gives an error; "
     "no text makes the parser panic or hang.",
     ["inputs"],
     "all programs in any layout, all mutations of programs (tokens removed, repeated, swapped, replaced), and arbitrary bytes",
     "The existing tests contain two or three syntax errors; the texts which are nearly programs are not enumerable.",
     ["vfilter.go"],
     [("grammar", "vfilter.go: struct tags of VQL, _Select, _AndExpression ..."), ("lexer", "vfilter.go: vqlLexer")],
     "grammar-based generation, mutation fuzzing and differential testing against an independent lexer",
     "That all of the text is in the result is decided by formatting the result and comparing the tokens by an independent lexer.")

prop("C11", "Evaluating any program over values of any Go type never panics",
     "Whatever the values are which the host put into the scope (nil in all forms, typed nil pointers, maps, channels, functions, structs, wrong types for any operator or argument), evaluating any program ends without a panic, and without being cut short: "
     "operators and functions that do not apply to their operands give NULL (or an error in the log). "
     "Recursion without an end is cut off with an error and does not exhaust the stack, wherever it passes through (functions, queries, defaults, lazy arguments, rows); recursion with an end gives its value.",
     ["inputs", "programs"],
     "all programs over all operators, functions, plugins and odd Go values; all recursive cycles of stored expressions and queries",
     "Each operator, function and plugin has a type switch over each operand; a panic in one of the goroutines of a query ends the whole host process.",
     ["protocols/", "functions/", "plugins/", "vfilter.go", "callable.go", "stored.go", "scope/scope.go", "utils/", "arg_parser/", "marshal/", "types/"],
     [("type switches of operators", "protocols/protocol_*.go"), ("evaluation", "vfilter.go: Reduce"), ("limit of the recursion", "scope/scope.go: CheckForOverflow, vfilter.go")],
     "structured fuzzing with crash detection over every value kind, and property-based testing of recursion against a reference",
     "Memory and time which the program asks for (huge ranges of workers, values doubled by each level of a recursion) are not limited by the engine and not generated; nor are host types which panic in their own methods.")

prop("C12", "Go values of any type behave as the VQL value of the same content",
     "Variables, columns and list elements may be of any Go type: every integer and floating point size, typed and untyped slices and arrays, nil in all its forms, structs and pointers to structs. "
     "Operators, indexing, member access, sorting and grouping give what they give for the VQL value of the same content. "
     "Struct fields are members under their names and JSON tags, as are methods without arguments; unexported ones are not. "
     "Times compare with each other and with seconds since the epoch, consistently over all comparison operators.",
     ["inputs", "programs"],
     "all expressions and queries over variables of random Go types; all pairs of times and numbers; structs with nested pointers, slices and methods",
     "The existing tests hold a handful of values of the most common types; the type switches of each operator are a product of both operand types.",
     ["protocols/", "utils/utils.go", "types/null.go", "arg_parser/args.go"],
     [("type switches of each operator", "protocols/protocol_*.go"), ("conversions", "utils/utils.go: ToInt64, ToFloat"), ("fields and methods", "protocols/protocol_associative.go: DefaultAssociative")],
     "property-based differential testing against a reference interpreter",
     MODEL + "Maps, named types and pointers to numbers are not generated.")

prop("C18", "A scope which is marshalled and restored answers every query the same",
     "Marshalling a scope gives JSON; restoring it in another scope gives one in which every query gives the rows it gives in the original: variables, materialized expressions and queries, "
     "definitions of expressions and queries with their parameters, defaults and quoted names, with the masking of the original. "
     "Variables to be ignored are not restored, those of the new scope are seen where nothing was restored, and the restored scope is marshalled the same again.",
     ["programs", "inputs"],
     "all variables of JSON types, all programs of definitions, and all queries using them after they were restored",
     "The existing test marshals seven scopes, and runs its queries in the original scope.",
     ["marshal.go", "marshal/", "scope/marshal.go", "visitor.go"],
     [("definitions", "marshal.go: Marshal"), ("values", "marshal/marshaller.go, marshal/unmarshal.go"), ("scopes", "scope/marshal.go")],
     "property-based round-trip testing against a reference interpreter",
     MODEL + "A fraction without decimals is an integer after a round trip, and NULL variables are unknown ones. Values which are not JSON (times, bytes, structs) are not specified.")

prop("C19", "Literals and quoted names denote exactly the text they contain",
     "A string literal denotes the bytes it is written with, after the escapes \\n \\r \\t \\xHH and backslash-quotes; a ''' literal denotes exactly the bytes between its quotes; integers (decimal or hexadecimal) and fractions denote the exact number. "
     "A name in backticks may have any characters but a backtick, and refers to the variable, column, member, function or parameter of exactly that name wherever a name may stand.",
     ["inputs"],
     "all string literals, over all bytes; all numbers; all names, as variables, functions, parameters, columns, members, arguments and keys",
     "The existing tests have ten literals and two quoted names.",
     ["utils/unquote.go", "vfilter.go"],
     [("string escapes", "utils/unquote.go: Unquote"), ("quoted names", "utils/unquote.go: SplitIdent, Unquote_ident"), ("numbers", "vfilter.go: maybeParseStrNumber")],
     "property-based testing with literals constructed from their values",
     "Numbers with leading zeros, truncated escapes at the end of a literal and out of range numbers are not generated, as their meaning is not documented.")

prop("C13", "An expression is evaluated only when it is needed, and once for each row",
     "A column is evaluated once for each row, also if WHERE and GROUP BY use it too, and not at all for a row which WHERE rejects without it. "
     "AND, OR and if() evaluate only the operands they need. An argument is evaluated once, and one which a function does not use is not. "
     "LET = evaluates at each use and never without one, LET <= exactly once.",
     ["programs"],
     "all programs with expressions that have side effects at any place, also with workers",
     "The existing tests count the evaluations in a few fixed queries; a repeated evaluation does not change any result unless it has side effects.",
     ["lazy.go", "vfilter.go", "stored.go", "functions/if.go", "arg_parser/", "plugins/"],
     [("cache of a row", "lazy.go: LazyRowImpl"), ("cache of an argument", "lazy.go: LazyExprImpl"), ("order of evaluation", "vfilter.go: processSingleRow"), ("operators", "vfilter.go: _AndExpression, _OrExpression")],
     "property-based differential testing of evaluation counts against a reference interpreter",
     MODEL + "Queries which end early (LIMIT, truth of a query, an index in a query) may have begun another row, and are not counted.")

prop("C14", "Cancelling a query ends it, with nothing left running",
     "When the context of a query is cancelled, at any moment, its output channel is closed, whether or not the consumer reads on, and every plugin, worker and goroutine it started ends; "
     "the rows delivered until then are a part of what the query would have given. "
     "A query that ends by itself, or because of LIMIT, leaves nothing running either.",
     ["schedules", "histories"],
     "all nestings of sources, cancelled at any row or any moment, with a consumer that reads on or stops",
     "The existing tests never cancel a query in the middle; every plugin and every nesting has its own goroutines and channels to leave blocked.",
     ["vfilter.go", "vfilter_group.go", "plugins/", "lazy.go", "grouper/", "sorter/"],
     [("goroutines of a query", "vfilter.go: Eval, processSingleRow"), ("workers", "plugins/foreach.go"), ("feeding of the sorter and the grouper", "vfilter.go, vfilter_group.go")],
     "property-based testing with a virtual clock, cancellation injected at generated points and goroutine leak detection",
     "Sources of the harness return when cancelled, which is their contract. Interleavings are those of the Go scheduler in a synctest bubble.")

prop("C20", "Queries and scopes may be used by many goroutines at once",
     "A parsed query can be evaluated by several goroutines at the same time, in one scope, in copies of it or in unrelated scopes with other variables, and by the workers of foreach: each evaluation gives what it gives alone. "
     "Variables, contexts, aggregates, destructors and copies of a scope may be used by several goroutines. There are no data races, also while queries are cancelled and scopes closed.",
     ["schedules", "programs"],
     "all programs, numbers of goroutines and interleavings; all concurrent sequences of operations on scopes",
     "The existing tests run one query at a time, and not under the race detector; what is cached in the syntax tree is shared by all evaluations.",
     ["vfilter.go", "visitor.go", "scope/", "lazy.go", "plugins/", "arg_parser/cache.go", "aggregators/"],
     [("caches in the syntax tree", "vfilter.go: callFunction, _AliasedExpression, Plugin.Eval, _SymbolRef, _Value"), ("scopes", "scope/scope.go"), ("reformatting for $Query", "visitor.go: visitSelectExpression"), ("workers", "plugins/foreach.go")],
     "property-based testing of concurrent programs and histories under the race detector, against a reference interpreter",
     MODEL + "Interleavings are those of the Go scheduler; races are found by happens-before, whether or not they change a result. Functions and plugins are added before the scope is shared; aggregates of one scope which several queries use at the same time are not specified.")

prop("C21", "Responses carry every row once, in order, in parts of the right size and time",
     "GetResponseChannel delivers every row of the query once and in order, encoded by the given encoder, in parts of at most the given number of rows; parts are numbered from 0 without gaps, "
     "each names the columns of its first row and its row count, and no row waits longer than the maximum wait. OutputJSON and Eval give the same rows.",
     ["inputs", "schedules"],
     "all sequences of rows and times between them, part sizes, waits, consumers and cancellation times",
     "The existing tests use it on a fixed query with no delays.",
     ["api.go", "vfilter.go"],
     [("parts and waits", "api.go: GetResponseChannel"), ("encoding", "api.go: OutputJSON")],
     "stateful property-based testing on a virtual clock against a reference model",
     "The consumer must read the channel to its end, also after it cancelled.")

prop("C22", "EXPLAIN reports what a query does and changes nothing",
     "A query with EXPLAIN gives the same rows as without it. Its explainer is told of every row a plugin gives to the query and to the queries in it, of every row they give and of every row their WHERE rejects, each once; "
     "also with GROUP BY, ORDER BY, in foreach and in stored queries. Statements without EXPLAIN are not reported. Copies of a scope, and scopes made from it, report to its explainer.",
     ["inputs", "programs"],
     "all programs of the query language with EXPLAIN on some statements",
     "The existing tests compare the log of four queries of one plugin with a golden file.",
     ["vfilter.go", "vfilter_group.go", "grouper/grouper.go", "scope/scope.go", "scope/dispatcher.go", "explain/logging_explainer.go"],
     [("reports", "vfilter.go: _Select.Eval, processSingleRow"), ("groups", "vfilter_group.go: GetNextRow; grouper/grouper.go"), ("inheritance", "scope/scope.go: Explainer, EnableExplain, Copy")],
     "property-based differential testing against a reference interpreter",
     MODEL + "The numbers of reports are not compared where a query ends early (LIMIT).")

prop("C23", "What is wrong in a program is logged when it is evaluated, and nothing else",
     "Each evaluation of a symbol, function or source which is not found, of a value which is called but can not be, of a call with missing, unknown or bad arguments, of a repetition which is negative or too large or of an expression which panics and is recovered "
     "is logged with the name it is about, and the program goes on with NULL or no rows; a regular expression which does not compile is logged once in a scope; definitions which mask a function, or materialize with parameters, are logged. "
     "What is not evaluated is not logged, and a program with nothing wrong logs nothing. Messages go to the logger, traces to the tracer, set last in the scope, its copies or what it was made from before, with the level in front.",
     ["inputs", "programs", "histories"],
     "all programs of the query language with mistakes at any place; all sequences of setting loggers, copying scopes and logging",
     "The existing tests look at a few messages of single queries.",
     ["vfilter.go", "stored.go", "scope/dispatcher.go", "scope/scope.go", "arg_parser/parser.go", "protocols/", "functions/", "plugins/", "types/scope.go"],
     [("symbols and sources", "vfilter.go: getFunction, _SymbolRef.Reduce, Plugin.resolveSymbol, evalSymbolWithArgs"), ("arguments", "stored.go: checkCallingArgs; arg_parser/parser.go: Parse"), ("loggers", "scope/dispatcher.go: Log, Trace, Copy; types/scope.go: RecoverVQL")],
     "property-based differential testing against a reference interpreter which counts what is wrong; stateful model-based testing of loggers",
     MODEL + "Which of several things wrong in one call is told of, and what is logged behind a LIMIT, is not specified; messages of level DEBUG are not looked at.")

prop("C26", "What the host adds to a scope is what programs use",
     "Implementations of the protocols which the host adds decide what operators, conditions, IN, =~, members, *, foreach and FROM do with its values: of those which apply the latest added, with the operands each evaluated once and in order; "
     "other values are treated as before. A wrapped type has the attributes listed and no others, and getters are called only when their column is used. A sorter, grouper or materializer the host sets is given all rows and its rows are the result.",
     ["inputs", "programs"],
     "all sets of implementations of the protocols for host types, with values of every kind as the other operand; all programs over such values; all lists of getters",
     "The existing tests have two lazy wrappers and no other protocol of the host.",
     ["protocols/", "scope/dispatcher.go", "scope/scope.go", "vfilter.go", "sorter/sorter.go", "grouper/grouper.go", "materializer/materializer.go"],
     [("dispatch", "protocols/protocol_*.go: the dispatchers, AddImpl"), ("adding", "scope/scope.go: AddProtocolImpl; scope/dispatcher.go"), ("wrappers", "protocols/lazy_wrapper.go"), ("sorting, grouping, materializing", "vfilter.go: Eval, EvalToRow; vfilter_group.go")],
     "property-based differential testing against a reference interpreter",
     MODEL + "One protocol per Go type is registered. The text of host values in GROUP BY is not specified.")

prop("C25", "Lambdas give what their expression gives with the arguments bound",
     "A lambda `x, y => expr` which the host parses and calls gives what expr gives where x and y are the arguments, in order, and mask other names; other names are those of the scope of the call, which is unchanged afterwards. "
     "With a wrong number of arguments it is NULL and this is logged. It can be called again, in any scope, also by several goroutines, by functions in rows and by other lambdas.",
     ["inputs", "programs"],
     "all lambdas of the expression language; all arguments; all scopes",
     "The existing tests call two lambdas which do not use their argument.",
     ["lambda.go", "vfilter.go"],
     [("parameters", "lambda.go: GetParameters, ParseLambda"), ("calls", "lambda.go: Reduce")],
     "property-based differential testing against a reference interpreter", MODEL)

prop("C27", "Every row a query reads is charged to its throttler and counted",
     "The throttler of a scope, also where copies of it are used, is charged once for each row which each FROM of a program reads, and for each row which OutputJSON encodes; those of other scopes are not. "
     "A TimeThrottler of a rate lets that many operations through per second (all, where it is 0 or at least 100); it is closed with its scope, once, and then nobody waits. "
     "The statistics of a scope and its copies count the rows read, the plugins and called stored queries, and the functions and definitions called.",
     ["inputs", "programs"],
     "all programs of the query language; all rates",
     "The existing tests neither throttle nor read statistics.",
     ["throttle.go", "vfilter.go", "api.go", "scope/scope.go", "scope/dispatcher.go", "types/stats.go"],
     [("charging", "vfilter.go: _From.Eval; api.go: OutputJSON"), ("rate", "throttle.go"), ("inheritance", "scope/scope.go: SetThrottler, Copy"), ("statistics", "types/stats.go; vfilter.go")],
     "property-based differential testing against a reference interpreter, on a virtual clock", MODEL + "Not counted where a query ends early (LIMIT). The number of copies of scopes and of searches for protocols is not specified.")

prop("C24", "Descriptions of functions, plugins and arguments are true",
     "Describe, of any scope, tells of each function and plugin which can be called there once and of no others, with the name, text, version and metadata of the one which is called (that added last to the scope, or to that it was made from before). "
     "The described type of arguments has exactly the fields of the struct, with their names, types, repetition and tags, and just those with a tag are accepted as arguments and needed if required: this also holds for the library. "
     "GetSimilarPlugins gives the sorted names which contain a part of the name. Generic functions and plugins get the arguments and give what the function of the host gives.",
     ["inputs", "histories"],
     "all sequences of adding functions and plugins to scopes; all types of arguments; all functions and plugins of the library",
     "The existing tests do not describe anything.",
     ["scope/dispatcher.go", "scope/scope.go", "types/introspection.go", "types/functions.go", "functions/", "plugins/", "arg_parser/"],
     [("descriptions", "scope/dispatcher.go: Describe, Info, GetSimilarPlugins"), ("types", "types/introspection.go: AddType"), ("generic", "functions/generic.go, plugins/generic.go"), ("arguments", "arg_parser/parser.go: BuildParser, Parse; Info of each function and plugin")],
     "stateful model-based testing and differential testing of descriptions against the argument parser",
     "Types of nested structs and methods are not specified. An argument `workers` is at most 5.")

prop("C15", "Destructors run exactly once, when their scope is closed, and never too early",
     "A destructor is called exactly once: when its scope or an ancestor of it is closed, those of children before those of their parents and in the reverse order on one scope; one added to a closed scope is refused and never called, "
     "also when scopes are closed while destructors are added. "
     "Resources which plugins and functions open in a query stay valid while their query or row is evaluated and are all released when the query has ended or was cancelled, those of functions row by row.",
     ["histories", "schedules"],
     "all trees of scopes and sequences of copies, destructors and closes; all interleavings of adding and closing; all queries over functions and plugins with resources",
     "The existing tests compare the markers of ten queries with a golden file.",
     ["scope/scope.go", "vfilter.go", "stored.go", "grouper/grouper.go", "plugins/", "lazy.go"],
     [("destructors", "scope/scope.go: Close, AddDestructor"), ("scope of a row and of a query", "vfilter.go: processSingleRow, Eval"), ("scope of a stored query", "stored.go")],
     "stateful model-based testing, concurrent stress and property-based testing of resource lifetimes on a virtual clock",
     "Closing a scope in its own destructors, copies of a closed scope, and rows evaluated behind a LIMIT are not specified. A resource used outside of the query which opened it is not valid, as docs/destructors.md explains.")

prop("C16", "Scopes isolate: what is done in one is seen exactly where it should be",
     "A copy of a scope sees the variables the scope had, and neither sees what is appended to the other later; inner variables mask outer ones. "
     "The context is shared by copies, and new scopes have a new one; aggregates are those of the nearest scope with its own. A new scope has the functions, plugins and protocols of its origin and changes to either do not affect the other. "
     "A query leaves no variables behind in the scope it was run in.",
     ["histories"],
     "all sequences of operations on all trees of scopes",
     "No existing test looks at more than one scope; sharing through slices and maps only shows in particular histories.",
     ["scope/scope.go", "scope/dispatcher.go", "aggregators/"],
     [("copies", "scope/scope.go: Copy, NewScope, AppendVars"), ("shared state", "scope/dispatcher.go: Copy, WithNewContext"), ("lookup", "scope/scope.go: Resolve")],
     "stateful model-based testing",
     "What functions and protocols added after ClearContext are seen by is not specified.")

prop("C17", "Arguments of calls fill the fields of their struct by the documented conversions",
     "ExtractArgsWithContext fills every field of the struct of arguments with the argument of its name converted to its type: strings (also from numbers and from a query or list of a single value), "
     "lists (a single value is a list of one), booleans by truth, numbers, dicts, and queries (lists and rows are queries of their elements); lazy fields are not evaluated, all others once. "
     "A missing required argument, an unknown one and one that cannot be converted are errors; ** passes a dict as the arguments; ExtractKWArgs returns the other arguments.",
     ["inputs"],
     "all structs with fields of the supported types and of types derived from them, and all calls with any arguments",
     "The existing tests parse two fixed structs.",
     ["arg_parser/parser.go", "arg_parser/args.go", "arg_parser/cache.go", "vfilter.go"],
     [("conversion by type of the field", "arg_parser/parser.go: BuildParser, *Parser"), ("lists, queries and lazy expressions", "arg_parser/args.go"), ("evaluation of arguments", "vfilter.go: callFunction, buildArgsFromParameters")],
     "property-based testing of random structs and calls against a table of conversions",
     "The text of dicts and of lists of several values as a string is not specified, nor are numbers out of the range of the field.")

prop("C28", "The functions of every scope compute what they document",
     "format fills its format with its arguments (a list, the rows of a query or a single value); split cuts a string at every match of the regular expression, or at every occurrence of the string; "
     "get follows a path of members and indexes from an item or a variable; encode gives hex, text, or decodes UTF-16 of either byte order; len counts the elements of lists, dicts, queries and the bytes of strings; "
     "timestamp converts seconds and Windows file times; if gives the branch its condition chooses. Arguments they can not use give NULL.",
     ["inputs", "programs"],
     "all calls of these functions, nested in each other, in all operators and in queries",
     "The existing tests call each of them a few times with constants.",
     ["functions/functions.go", "functions/format.go", "functions/if.go", "arg_parser/"],
     [("functions", "functions/functions.go"), ("format", "functions/format.go"), ("if", "functions/if.go")],
     "property-based differential testing against a reference interpreter",
     MODEL + "Trusts fmt.Sprintf and regexp of Go's library. The text of lists and dicts is not specified.")
