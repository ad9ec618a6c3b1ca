"""The properties: what properties.jsonl, MANIFEST.json and the evidence say about them."""

COMMON_ASSUME = "The Go tool chain, the C compiler and their run time checkers are trusted; what is not reached by the generated workload is not decided."

P = []


def prop(id, title, statement, over, quantifier, why, files, mech, technique, note, rule, assumptions=(), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files, mech=mech,
                  technique=technique, note=note, rule=rule, assumptions=list(assumptions) or [COMMON_ASSUME], observe=list(observe), state=list(state)))


V6P = "v6/pkg/parser/"
V6T = "v6/pkg/tsl/"
V6W = "v6/pkg/walkers/"

prop("C01", "v6: a phrase means the tree its precedence, associativity and parentheses give",
     "For every valid phrase the v6 parser returns the tree with the documented precedence (unary operators, NOT, * / %, + -, comparisons, AND, OR), left associativity and parentheses, with every operand in its place. "
     "The spelling of the phrase does not matter: case of keywords, white space, redundant parentheses, trailing commas of lists, the quotes of strings, != and <>, and the NOT form of an operator, which is NOT of the operator.",
     ["inputs"], "every valid phrase of the v6 language, any nesting of its operators",
     "The tests parse some dozens of phrases with one or two operators; a grammar conflict, a wrong action or a swapped operand shows for a particular combination of operators, one of hundreds of pairs and triples.",
     [V6P + "tsl_parser.y", V6T + "tsl_ast.c", V6T + "tsl.go"],
     [("precedence declarations and actions of the grammar", V6P + "tsl_parser.y"), ("node constructors", V6T + "tsl_ast.c"), ("conversion of C nodes to Go", V6T + "tsl.go")],
     "differential monitor: real parser vs independent tree model over generated phrases",
     "Every pair of operators in both nestings and random trees to depth 6 are printed as phrases and parsed by the real parser, the tree is compared node by node with the model that was printed. Bounded exploration, not a proof.",
     "Cases are expression trees (every pair of operators nested both ways, triples, then random trees of depth up to 6) written as phrases with random spelling, parsed by the real parser and compared node by node. Non trivial: the tree has at least 4 nodes; distinct: by canonical tree.",
     observe=["the tree ParseTSL returns"])

prop("C02", "v6: the parser accepts exactly the phrases of the language",
     "The v6 parser accepts a text if and only if it is a phrase of the documented language; every other text (any bytes at all) is rejected with an error and no tree. "
     "No part of the text is ignored, and no valid phrase is rejected whatever its tokens, their order or the space between them.",
     ["inputs"], "every byte string",
     "The tests hold a handful of bad phrases; the language is decided by the interplay of a longest match scanner and an LALR parser, for every sequence of tokens and bytes.",
     [V6P + "tsl_lexer.l", V6P + "tsl_parser.y", V6T + "tsl.go"],
     [("token patterns", V6P + "tsl_lexer.l"), ("grammar", V6P + "tsl_parser.y"), ("error result of the parse", V6T + "tsl.go")],
     "differential monitor: real scanner and parser vs independent recursive descent recognizer",
     "All token sequences up to length 3 of 26 tokens, a large share of length 4, and random valid, mutated, soup and byte phrases; acceptance and tree have to agree with an independent hand written parser.",
     "Cases are all sequences of up to 3 of 26 tokens, sequences of 4, and random phrases: valid, mutated bytes, token edits, token soup, random bytes; the real parser and an independent recursive descent parser must agree on acceptance and tree. Non trivial: rejected phrases and accepted ones of more than one node; distinct: by phrase.",
     observe=["error and tree of ParseTSL"])

prop("C03", "v6: any input gives a tree or a located error, whatever was parsed before",
     "Parsing any byte string with v6 ends with either a tree or an error, never both, never neither and never a crash; an error has a message, a position that is inside the input (or at its end), the word at that position as its context, and a text that shows the message, the position and a marker below it. "
     "The outcome depends on the input only, it is the same whatever was parsed, failed or freed before.",
     ["inputs", "histories"], "every byte string, after every history of parses",
     "The parser is C code with state in globals and malloc; tests parse good phrases one after the other and look at a few error messages.",
     [V6T + "tsl.go", V6T + "errors.go", V6T + "tsl_ast.c", V6P + "tsl_lexer.l"],
     [("global parse state is reset for each parse", V6T + "tsl.go"), ("error message and position", V6P + "tsl_parser.y"), ("syntax error type", V6T + "errors.go")],
     "online monitor of outcome form, error position and history independence over hostile inputs",
     "Hostile and valid inputs in random order; each outcome is checked for form and bounds of the position, and inputs are parsed again after other histories and have to give the identical outcome.",
     "Cases are valid and hostile phrases, including NUL bytes, invalid UTF-8 and long inputs; the outcome is checked for form, position and independence of the inputs parsed before. Distinct: by phrase.",
     observe=["error message, position and tree of ParseTSL"])

prop("C04", "v6: literals and identifiers keep their exact value",
     "Every literal in a v6 phrase has exactly the written value: the nearest float64 of a number (with sign, fraction, exponent, K to P and Ki to Pi suffixes that are powers of 1000 and 1024), the exact bytes of a string after its escapes in any of the three quotes, true or false in any case, the text of a date, the instant of a timestamp in any offset. "
     "An identifier keeps its exact spelling, including dots, slashes and bracketed parts. "
     "A quoted string is a date or timestamp literal only if the whole of it is spelled like one.",
     ["inputs"], "every literal and identifier, alone and as any operand",
     "The tests check a few literals of each type; values pass a scanner, C number parsing, escapes and a union on their way to Go.",
     [V6P + "tsl_lexer.l", V6T + "tsl_ast.c", V6T + "tsl.go"],
     [("scanner rules of numbers, strings, dates", V6P + "tsl_lexer.l"), ("union of literal values", V6T + "tsl_ast.c"), ("conversion to Go values", V6T + "tsl.go")],
     "differential monitor: parsed values vs independently computed ones",
     "Spellings are generated with the value they have to have, computed by independent code; parsed value compared bit by bit.",
     "Cases are spellings of literal values alone and inside expressions; the parsed value is compared with an independently computed one. Distinct: by value.",
     observe=["Value() of the leaves"])

prop("C05", "v6: concurrent use from many goroutines gives the results of sequential use",
     "Any number of goroutines may parse, clone, evaluate, walk, marshal and free their own trees, and read a shared tree, at the same time: every call returns what it returns alone. "
     "No data race, crash or mixed up tree or error message can result.",
     ["schedules"], "every schedule of concurrent calls on separate trees and of read only calls on shared trees",
     "The tests are sequential; the bison parser keeps its state in C globals, which the Go race detector does not even see.",
     [V6T + "tsl.go", V6P + "tsl_parser.y", V6T + "tsl_ast.c"],
     [("mutex around the C parser", V6T + "tsl.go"), ("C nodes are owned by one tree", V6T + "tsl_ast.c")],
     "concurrent stress with result oracle under Go race detector and ThreadSanitizer",
     "Goroutines run mixed operations, each result is compared with the one the same call gave alone; the Go side runs under the race detector, the C side is compiled with ThreadSanitizer (verified to catch the removal of the lock).",
     "Cases are operations (parse of good and bad phrases with their expected tree or message, clone, evaluation, SQL, ident, JSON, graph, free) that 4 to 16 goroutines run at the same time on separate and shared trees, in three builds: plain, Go race detector, ThreadSanitizer for the C code. Non trivial: concurrent parses; distinct: by phrase.",
     observe=["results of each call", "race reports of both detectors"])

prop("C06", "v6: no memory error, undefined behaviour or leak in the native parser",
     "No sequence of parsing (valid or invalid input), cloning, attaching, detaching, walking and freeing through the v6 API reads or writes outside live native memory or has undefined behaviour. "
     "When all the trees that the caller got have been freed, no native memory remains allocated for them; a parse that fails leaves none behind.",
     ["inputs", "histories"], "every input and every legal history of tree operations",
     "The tests run without sanitizers and free nothing they can measure; leaks on error paths and overflows in the C code do not change a test's result.",
     [V6T + "tsl_ast.c", V6P + "tsl_lexer.l", V6P + "tsl_parser.y", V6T + "tsl.go"],
     [("%destructor of discarded symbols, free of partial trees", V6P + "tsl_parser.y"), ("recursive copy and free", V6T + "tsl_ast.c"), ("Detach, Attach, Clone, Free", V6T + "tsl.go")],
     "AddressSanitizer with live heap accounting and UndefinedBehaviorSanitizer on the C code",
     "The C code is rebuilt with -fsanitize=address and with -fsanitize=undefined; hostile parses and tree histories run under both, and the native heap has to come back to its starting size after every batch of histories.",
     "Cases are phrases (valid, mutated, soup, random bytes, long) that are parsed, and histories of clone, attach, detach, ident walks and free; AddressSanitizer and UndefinedBehaviorSanitizer watch the C code and the allocator statistics are read before and after each batch. Non trivial: the input has at least one token; distinct: by phrase.",
     observe=["sanitizer reports", "bytes of the native heap"])

prop("C07", "v6: tree editing (clone, detach, attach, free) keeps trees whole and independent",
     "Cloning a v6 tree gives an equal tree that shares nothing with it: editing or freeing one never shows in the other. "
     "Attaching a child, on the left, the right or as an array element, replaces exactly that child, detaching removes and returns exactly that child, and the rest of the trees stays as it was. "
     "Freeing is safe for nil, for a tree that was freed before, and for a tree whose parts were detached.",
     ["histories"], "every history of clone, attach, detach and free on any number of trees",
     "Unit tests run one edit on one tree; ownership mistakes show in particular histories of edits.",
     [V6T + "tsl.go", V6T + "tsl_ast.c"],
     [("Clone, Detach, AttachLeft, AttachRight, AttachElement, Free", V6T + "tsl.go"), ("deep copy", V6T + "tsl_ast.c")],
     "model based monitor: every live tree is compared with a pure model after each operation",
     "Random histories over a pool of trees run in step with a pure value model, after each operation every live tree is read back and compared.",
     "Cases are histories of up to tens of clone, detach, attach and free operations on a pool of trees, after each operation all the live trees are compared with the model. Non trivial: at least one attach or detach; distinct: by history.",
     observe=["all the live trees after each operation"])

prop("C08", "v6: identifier mapping rewrites every identifier once and nothing else",
     "Walking a v6 tree with a mapping calls it exactly once for every identifier occurrence, wherever it is, and returns a tree in which each identifier is replaced by its mapped name and everything else is unchanged. "
     "The original tree is not changed and stays valid, and is independent of the new tree; if the mapping fails for any identifier the walk fails with that error and returns no tree.",
     ["inputs"], "every tree, every mapping function including failing ones",
     "The tests map one or two identifiers on the left side of comparisons.",
     [V6W + "ident/walk.go", V6T + "tsl.go"],
     [("clone and replace of identifiers", V6W + "ident/walk.go"), ("AttachElement and friends", V6T + "tsl.go")],
     "differential monitor with recording callback vs model substitution",
     "Random trees and mapping functions (renames, swaps, failures at the n-th call); calls are recorded and the result is compared with the substitution in the model.",
     "Cases are random trees with a random mapping (rename, swap, identity, failing at a random identifier); the recorded calls and the new and old trees are compared with the model. Non trivial: at least two identifiers; distinct: by tree and mapping.",
     observe=["calls of the mapping", "new and old tree", "error"])

prop("C09", "v6: SQL text holds no literals and its structure does not depend on them",
     "For every v6 phrase that SQL can express, the SQL walker gives a condition whose text is made of column names, operators, parentheses and placeholders only: every literal is an argument, in the order of the placeholders, and its value is the one of the literal. "
     "The condition has the same structure as the phrase and two phrases that differ in literals only (hostile strings included) have the same text. "
     "What SQL can not express is an error, never a different condition.",
     ["inputs"], "every phrase, every literal value",
     "Tests compare a few fixed texts; injection and lost parentheses need particular nestings and particular strings.",
     [V6W + "sql/walk.go"],
     [("placeholders for literals", V6W + "sql/walk.go"), ("parentheses of nested conditions", V6W + "sql/walk.go")],
     "monitor that parses the generated SQL back and compares it with the phrase",
     "The text and arguments of the real walker are parsed back by an independent SQL condition parser and have to be the tree of the phrase; literals are changed and the text has to stay.",
     "Cases are trees over all the operators, two thirds of which SQL can express; the SQL text is parsed back with its arguments and compared with the tree. Non trivial: more than two nodes; distinct: by tree.",
     observe=["SQL text and arguments"])

prop("C10", "v6: the rows an SQL database selects are the rows the phrase is true for",
     "Running the condition of the v6 SQL walker on a database selects exactly the rows for which the phrase is true by SQL's three valued logic: comparisons, arithmetic, LIKE, ILIKE, regular expressions, IN, BETWEEN, IS NULL, AND, OR and NOT in any nesting, over columns that may be null, including boolean, date and timestamp literals. "
     "For rows without nulls these are the rows the in memory evaluator finds true.",
     ["inputs"], "every typed condition over a table, every content of the table",
     "No test runs the SQL; an operator with wrong precedence or a swapped operand gives valid SQL that selects other rows.",
     [V6W + "sql/walk.go", V6W + "semantics/walk.go"],
     [("SQL of each operator, parentheses", V6W + "sql/walk.go")],
     "differential monitor: real SQLite database vs three valued reference evaluator",
     "Typed conditions run on a real SQLite database in memory over tables with nulls, the selected ids are compared with a reference evaluator and, for rows without nulls, with the in memory walker.",
     "Cases are typed conditions of depth up to 4 over 14 columns of 24 random rows, that are changed every 4000 cases; the ids SQLite selects are compared with a three valued reference. Non trivial: some of the rows are selected and some are not; distinct: by condition.",
     ["SQLite stands for SQL databases; ILIKE and REGEXP, which it does not have, are functions of the harness on columns that are not null.", "Dates are texts in UTC as the walker documents; integer division and overflow are not part of the workload."],
     observe=["ids of the selected rows"])

prop("C11", "v6: evaluating a phrase for a record gives the value the language defines",
     "Evaluating a v6 phrase for a record gives the value the language defines for every combination of operators and operand types: numbers of any Go type, strings, booleans, dates and nulls, equality and order, IN, BETWEEN, IS NULL, arithmetic, AND, OR, NOT and minus. "
     "Where there is no such value (an unknown field, operands of the wrong type, division by zero) evaluation is an error that tells which of these it is, wherever in the phrase it occurs, and never a value.",
     ["inputs"], "every phrase over scalar fields, every record",
     "The tests evaluate dozens of phrases on one record; there are thousands of combinations of operator and operand types, and errors deep in a phrase.",
     [V6W + "semantics/walk.go", V6W + "semantics/evaluators.go", V6W + "semantics/numeric.go", V6W + "semantics/dates.go"],
     [("evaluation of each operator", V6W + "semantics/evaluators.go"), ("conversion of field values", V6W + "semantics/walk.go")],
     "differential monitor: real evaluator vs independent reference evaluator",
     "All operators on all pairs of a pool of values of all types, then random typed phrases and records; value and kind of error are compared with an independent reference evaluator.",
     "Cases are every operator on every pair of a pool of field values of every Go type, and random typed phrases for random records; value or kind of error has to be the one of the reference. Non trivial: more than two nodes; distinct: by phrase and the fields it uses.",
     ["Not specified and not checked: BETWEEN with a null bound, text matching of dates, % beyond 2^52."],
     observe=["value or error of the evaluation"])

prop("C12", "v6: array fields are evaluated element by element and summed up as documented",
     "In v6 an operator whose left operand is an array (a literal or a field) is applied to each element, in order, and gives the array of the results; LEN is the number of elements, SUM their sum, ANY is true if some element is true, ALL is true if there are elements and all are true. "
     "An element that has no value for the operator is an error, and empty arrays, nested operators, IN lists and fields that are arrays follow the same rules.",
     ["inputs"], "every phrase over array fields and array literals, every record",
     "The tests hold one phrase for each array function on one array.",
     [V6W + "semantics/walk.go", V6W + "semantics/evaluators.go"],
     [("element wise application", V6W + "semantics/walk.go"), ("ANY, ALL, LEN, SUM", V6W + "semantics/evaluators.go")],
     "differential monitor: real evaluator vs independent reference evaluator on arrays",
     "Random typed phrases with array functions and element wise operators over random records with arrays of 0 to many elements of every type, compared with the reference.",
     "Cases are random phrases with array functions and element wise operators for records with arrays of different types and lengths; value or kind of error has to be the one of the reference. Non trivial: the phrase uses an array; distinct: by phrase and the fields it uses.",
     observe=["value or error of the evaluation"])

prop("C13", "v6: LIKE, ILIKE and regular expressions match exactly what they say",
     "In v6, LIKE matches if and only if the whole string matches the pattern, where % is any run of characters (also none, also line breaks), _ is exactly one character and every other character, also those special in regular expressions, is itself; ILIKE is the same for any case of letters. "
     "~= is true if and only if the regular expression matches somewhere in the string, ~! is its negation, and a bad regular expression is an error.",
     ["inputs"], "every string and pattern",
     "The tests match two or three simple patterns.",
     [V6W + "semantics/walk.go", V6W + "semantics/evaluators.go"],
     [("translation of LIKE patterns", V6W + "semantics/evaluators.go")],
     "differential monitor: real matching vs independent matchers",
     "Patterns are made from the strings by mutation so that they match often; the result is compared with a dynamic programming LIKE matcher and a set based regular expression matcher.",
     "Cases are strings with patterns derived from them by mutation, with characters special to regular expressions, line breaks, multi byte characters and every case; results have to be those of independent matchers. Non trivial: the pattern has a wildcard or a special character; distinct: by pattern and string.",
     observe=["value or error of the evaluation"])

prop("C14", "v6: evaluation never panics, is repeatable and changes nothing",
     "Evaluating any v6 tree with any field values of any Go type (maps, structs, slices, NaN, infinities and nil pointers included) returns a value or an error and never panics. "
     "The same tree and record always give the same outcome, neither the tree nor the record is changed, and only fields named in the phrase are asked for.",
     ["inputs", "histories"], "every tree, every field value, any number of evaluations",
     "Tests evaluate well typed phrases once.",
     [V6W + "semantics/walk.go", V6W + "semantics/evaluators.go"],
     [("type switches with error results", V6W + "semantics/walk.go")],
     "totality and purity monitor over hostile values",
     "Any tree (typed or not) with hostile Go values; panics, changed trees or records, different second outcomes and lookups of other names are violations.",
     "Cases are any trees, typed or not, with records that hold any Go value; each is evaluated more than once and the record and the tree are compared with copies. Non trivial: more than two nodes; distinct: by phrase and record.",
     observe=["outcome, record, tree and looked up names"])

prop("C15", "v6: the JSON and YAML forms of a tree are the tree",
     "The JSON and the YAML form of every v6 tree is valid and holds the whole tree: types, operators, left and right operands, array elements in order, and exact values of literals and identifiers, so the tree can be read back from it. "
     "It can be part of a larger document, and marshalling does not change the tree.",
     ["inputs"], "every tree",
     "Tests marshal a couple of small trees.",
     [V6T + "marshal.go"],
     [("MarshalJSON, MarshalYAML", V6T + "marshal.go")],
     "round trip monitor: the document is read back by an independent decoder",
     "Documents are decoded by an independent reader to the model and compared with the tree of the phrase.",
     "Cases are random trees of all the types; the JSON and YAML documents are read back and compared with the model. Non trivial: more than two nodes; distinct: by tree.",
     ["YAML strings that start with white space and have control characters are left out: the YAML library itself does not keep them."],
     observe=["JSON and YAML documents"])

prop("C16", "v6: the graph of a tree is valid DOT and shows the whole tree",
     "The graphviz output of every v6 tree is valid DOT, whatever characters are in its strings and identifiers: one node for every node of the tree with its operator or its type and value, and edges from every operator and array to its operands in order. "
     "The root has the given name, all the other names are unique, and the tree is not changed.",
     ["inputs"], "every tree",
     "Tests look for a few substrings in the graph of a small tree.",
     [V6W + "graphviz/walk.go"],
     [("escaping of labels, unique names", V6W + "graphviz/walk.go")],
     "round trip monitor: an independent DOT parser rebuilds the tree",
     "The output is parsed by an independent DOT and record label parser, checked to be a tree and compared node by node.",
     "Cases are random trees with hostile strings; the DOT text is parsed back to a tree and compared with the model. Non trivial: more than two nodes; distinct: by tree.",
     observe=["DOT text"])

prop("C17", "v6: the commands print what the library computes and fail when it fails",
     "The v6 commands tsl, tsl_parser and tsl_mem print, for every phrase, the whole tree (as text, JSON, YAML or DOT), the SQL and arguments, or exactly the demo books, in order and with all their fields, that the phrase is true for. "
     "A phrase that the library rejects, an unknown column or output format, wrong usage, and a phrase that can not be evaluated or expressed in SQL end the command with a non zero exit code and no result.",
     ["inputs", "configurations"], "every phrase and option of the commands",
     "No test runs the commands.",
     ["v6/cmd/tsl/main.go", "v6/cmd/tsl/printer.go", "v6/cmd/tsl_parser/main.go", "v6/cmd/tsl_mem/main.go", "v6/cmd/tsl_mem/model.go", "v6/cmd/model/model.go"],
     [("tree printer", "v6/cmd/tsl/printer.go"), ("book filter", "v6/cmd/tsl_mem/main.go"), ("column names", "v6/cmd/tsl_mem/model.go")],
     "monitor of real command runs: output read back and compared with the reference",
     "The real commands are built and run with generated phrases and options; output is read back by independent readers and compared with the model, exit codes with the outcome of the library.",
     "Cases are runs of the real commands with generated phrases and options; the output is read back and compared with the model. Non trivial: the output is a tree, a condition or some of the books; distinct: by command and tree.",
     observe=["exit code and output of the commands"])

prop("C18", "v6: long and deep phrases are parsed, walked and freed without a crash",
     "A v6 phrase of any length made of chained operators or long lists, strings, numbers and identifiers is accepted with all of its parts, and so is nesting to a depth of at least a thousand; deeper nesting is either accepted or a syntax error. "
     "Parsing, cloning, evaluating, mapping identifiers, SQL, JSON, drawing and freeing such trees does not crash the process.",
     ["inputs"], "every length and depth of phrases up to those of the workload",
     "The tests use short phrases; stack and buffer limits show with thousands of operands.",
     [V6P + "tsl_parser.y", V6P + "tsl_lexer.l", V6T + "tsl_ast.c", V6T + "tsl.go"],
     [("stack depth of the parser", V6P + "tsl_parser.y"), ("copy and free without deep recursion", V6T + "tsl_ast.c")],
     "stress monitor with generated large phrases and a size oracle",
     "Chains and lists to hundreds of thousands of parts and nesting of all kinds to thousands of levels; the parts of the tree are counted and compared and a crash or hang of the worker is a violation.",
     "Cases are phrases of one shape (chains of each operator, lists, parentheses, prefix operators, brackets, strings, numbers, identifiers) at growing sizes; the tree has to have all the parts and every operation on it has to end. Non trivial: more than 100 parts; distinct: by shape and size.",
     observe=["result, size and spine of the tree", "the worker survives"])

def both(*paths):
    return [v + p for v in ("v4/pkg/", "v5/pkg/") for p in paths]


V5G = "v5/pkg/parser/"

prop("C19", "v6: repeated use keeps no memory, goroutine or file behind",
     "A long running program may use v6 for ever: once trees are freed and results dropped, parsing any number of phrases and texts that are none, editing, mapping and walking trees, matching patterns and writing documents keeps nothing of them. The Go heap, the C heap, the goroutines and the open files do not grow with the number of uses.",
     ["histories"], "every sequence of uses, however long",
     "What is kept shows after thousands of different inputs only; the tests use some hundred and end.",
     [V6T + "tsl.go", V6T + "tsl_ast.c", V6T + "tsl_parser.tab.c", V6W],
     [("release of the C tree and of the parser's memory", V6T + "tsl.go"), ("patterns of LIKE and of regular expressions", V6W + "semantics/evaluators.go")],
     "monitors of the Go heap, the C heap, goroutines and open files over epochs of use",
     "Epochs of 120 to 3000 uses with new phrases run after two that fill what caches there are; heap in use after collection, C heap in use, goroutines and file descriptors are read after each of up to five, growth in every epoch is a violation.",
     "Cases are workloads: all walkers, syntax errors, edited trees, one tree walked for ever, documents, long phrases, new patterns. What the process holds is compared from epoch to epoch. Distinct: by workload and round.",
     observe=["bytes in use of both heaps", "goroutines", "open files"])

prop("C34", "v6: trees with detached parts are safe to read, print, evaluate and rewrite",
     "Detaching any parts of a v6 tree leaves a tree that all its readers handle without a crash: it, its clone, its JSON, YAML and graph show exactly the parts that are there, in their places; it evaluates as if each missing part were NULL, and identifiers that remain are replaced by the ident walker. "
     "A tree with a missing part gives no SQL condition but an error. Putting the parts back, or attaching others, gives a whole tree again with all its forms. "
     "A nil tree is null in JSON and YAML, has no value and no identifiers, and gives no SQL.",
     ["inputs", "histories"], "every tree, every set of parts detached from it",
     "No test detaches a part and then uses what remains; which readers are reached and where the hole is decide if a nil part is followed.",
     [V6T + "tsl.go", V6T + "marshal.go", V6W + "ident/walk.go", V6W + "sql/walk.go", V6W + "semantics/walk.go", V6W + "graphviz/walk.go"],
     [("wrapping of C children", V6T + "tsl.go"), ("nil trees in marshalling", V6T + "marshal.go"), ("nil trees in the walkers", V6W)],
     "model based monitor of every reader over trees with parts detached at random",
     "Random trees lose 1 to 3 parts anywhere; each reader's outcome is read back and compared with the model that lost the same parts, evaluation with the reference evaluator.",
     "Cases are random trees, typed and not, with 1 to 3 parts detached, then cloned, filled with NULL or put back; JSON, YAML, DOT, value, SQL error and replaced identifiers are compared with the model. Non trivial and distinct: by tree with its holes.",
     observe=["every reader's outcome for trees with missing parts"])

prop("C20", "v4 and v5: a phrase gives the tree of its precedence and parentheses",
     "For every valid phrase v4 and v5 return the tree with the documented operators, every operand in its place and every literal with its exact value: NOT binds tighter than AND, AND tighter than OR, * / % tighter than + and -, operators of one level group to the left, parentheses override. "
     "The elements of IN and BETWEEN are all there, dates are instants, quoted names lose their quotes in v5 only, '' in a string is one quote. "
     "Letter case of keywords, white space, redundant parentheses, != and <>, IS and = do not matter.",
     ["inputs"], "every valid phrase of the v4 and of the v5 language",
     "The tests parse a few phrases with one or two operators each; trees are built by a listener with a stack, where a mistake shows for particular combinations and orders of operators.",
     both("tsl/listener.go", "tsl/tsl.go", "tsl/node.go"),
     [("listener that builds the tree with a stack", "v5/pkg/tsl/listener.go"), ("generated parser", V5G + "tsl_parser.go")],
     "differential monitor: real parser vs independent tree model over generated phrases",
     "Pairs of operators in both nestings and random trees are printed as phrases in many spellings, the real tree is compared node by node with the model that was printed. Bounded exploration, not a proof.",
     "Cases are trees of conditions, arithmetic (v5: on both sides), lists, literals and names that are written as phrases with random spelling and parsed; the tree is compared node by node with the model. Non trivial: at least 4 nodes; distinct: by tree and module.",
     ["Doubled quotes inside quoted names and invalid UTF-8 are not specified and not part of the workload."],
     observe=["the tree ParseTSL returns"])

prop("C21", "v4 and v5: the parser accepts exactly the phrases of the language",
     "ParseTSL of v4 and v5 accepts a text if and only if it is a phrase of the language of that version, all of it; every other text is rejected with no tree and an error that has a message; that of a syntax error names a line and column inside the text. "
     "It never crashes and never gives a partial tree, and the outcome, error message included, depends on the text only, not on what was parsed before.",
     ["inputs", "histories"], "every text, after every history of parses",
     "The tests hold a handful of bad phrases; acceptance is decided by a longest match scanner, an adaptive parser that has error recovery and a listener that runs over recovered trees.",
     both("tsl/listener.go", "tsl/tsl.go", "tsl/error_listener.go", "tsl/errors.go"),
     [("error listener", "v5/pkg/tsl/error_listener.go"), ("generated lexer and parser", V5G + "tsl_parser.go"), ("tree of the stack", "v5/pkg/tsl/listener.go")],
     "differential monitor: real parser vs independent recursive descent recognizer",
     "All sequences of up to three tokens of 19, damaged phrases, edited and random token sequences and bytes; acceptance and tree have to agree with a hand written scanner and parser of both versions, some inputs are parsed again later.",
     "Cases are all the sequences of up to 3 of 19 tokens and random texts: phrases, damaged ones, edited and random tokens, bytes; the real parser and a hand written one have to agree on acceptance and tree, also when the text is parsed again after others. Distinct: by text and module.",
     observe=["error and tree of ParseTSL"])

prop("C22", "v4 and v5: evaluating a phrase for a record gives the value it has",
     "The semantics walker of v4 and v5 gives, for every phrase and record, the truth value the language defines: numbers of the Go types it knows, strings, and in v5 booleans, times (as instants) and arithmetic on both sides; order and equality, IN, BETWEEN with both ends included, LIKE and ILIKE for whole strings, regular expressions, IS NULL, AND, OR, NOT. "
     "A comparison with a null is false and its operands of different types are an error, also anywhere inside of the phrase; in v5 a list of strings is IN a set if one of its elements is.",
     ["inputs"], "every phrase and every record",
     "Tests evaluate dozens of phrases on one record; there are thousands of pairs of operator and operand types.",
     both("walkers/semantics/walk.go"),
     [("comparison by operand type", "v5/pkg/walkers/semantics/walk.go"), ("LIKE translation", "v5/pkg/walkers/semantics/walk.go")],
     "differential monitor: real evaluator vs independent reference evaluator",
     "Every operator on a pool of field values of every Go type and literals, then random typed phrases and records with nulls and missing fields; value or error has to be the one of an independent reference with its own LIKE and regular expression matchers.",
     "Cases are every operator on pairs of a pool of field values and literals, and random typed phrases for random records; value or error has to be that of the reference. Distinct: by phrase and record and module.",
     ["IS NULL of arithmetic in v4, which has no arithmetic in its evaluator, is not specified."],
     observe=["value or error of the walk"])

prop("C23", "v4 and v5: SQL text holds the structure and no compared literal",
     "For every phrase without a regular expression the SQL walker of v4 and v5 gives a condition with exactly the structure of the phrase (operators, columns, order of operands, grouping), the compared literals, elements of lists and patterns are arguments in the order of the placeholders with their exact values, and only numbers, booleans and dates inside of arithmetic are text. "
     "Phrases that differ in compared literals only have the same text whatever the strings are; regular expressions are an error; the tree is not changed.",
     ["inputs"], "every phrase, every literal value",
     "Tests compare a few fixed texts; lost grouping, swapped operands and injection need particular nestings and strings.",
     both("walkers/sql/walk.go", "walkers/sql/ops.go"),
     [("arguments of comparisons", "v5/pkg/walkers/sql/walk.go"), ("parentheses of NOT and arithmetic", "v5/pkg/walkers/sql/ops.go")],
     "monitor that parses the generated SQL back and compares it with the phrase",
     "The text and arguments of the real walker are parsed back by an independent SQL condition parser and have to be the phrase; the literals are changed and the text has to stay.",
     "Cases are random phrases over all the operators; the SQL text is parsed back with its arguments and compared with the phrase. Non trivial: more than three nodes; distinct: by tree and module.",
     ["Column names are inserted as they are: the ident walker is where callers check them."],
     observe=["SQL text and arguments"])

prop("C24", "v4 and v5: a MongoDB filter selects the documents the phrase is true for",
     "The mongo walker of v4 and v5 gives, for every phrase of comparisons, IN, BETWEEN, regular expressions, IS NULL, AND and OR of a field with literals, a valid filter that MongoDB matches exactly with the documents for which the phrase is true, with every literal in it as a value. "
     "What it can not translate (NOT, LIKE, arithmetic, a field on the right, lists of other types) is an error and never a filter that selects something else.",
     ["inputs"], "every phrase, every document",
     "Tests compare a few filters as texts; there is no database in the tests.",
     both("walkers/mongo/walk.go"),
     [("filter of each operator", "v5/pkg/walkers/mongo/walk.go")],
     "differential monitor: filter run by a MongoDB filter evaluator vs reference evaluator",
     "Filters are encoded as BSON, decoded, validated and matched with random documents by a small independent evaluator of MongoDB filters, the result is compared with the reference evaluator of phrases; literals of any phrase have to be conserved.",
     "Cases are typed phrases with six random documents each, and any phrases whose literals are counted; the filter is matched by an evaluator of MongoDB filters and compared with the value of the phrase. Non trivial: more than three nodes; distinct: by tree and module.",
     ["No MongoDB is here: its filters are evaluated by the harness, for scalar fields.", "Where MongoDB differs by design (a negative operator on a missing field, operands of different types) nothing is decided."],
     observe=["filter and error of the walk"])

prop("C25", "v4 and v5: identifier mapping renames every identifier once, nothing else",
     "The ident walker of v4 and v5 calls the mapping exactly once for every identifier of the tree, on both sides of operators and at any depth, and returns a tree that differs in these names only. "
     "The tree that was given is not changed; if the mapping fails for an identifier the walk fails with its error.",
     ["inputs"], "every tree, every mapping, also failing ones",
     "The tests map a few identifiers on the left side of comparisons.",
     both("walkers/ident/walk.go"),
     [("recursive walk on a copy", "v5/pkg/walkers/ident/walk.go")],
     "differential monitor with recording callback vs model substitution",
     "Parsed and built random trees with renaming, swapping, emptying and failing mappings; calls, new tree and old tree are compared with the model.",
     "Cases are random trees, parsed and built, with a random mapping; the recorded calls and the new and old trees are compared with the model. Non trivial: at least two identifiers, or a failing mapping; distinct: by tree, mapping and module.",
     observe=["calls of the mapping", "new and old tree", "error"])

prop("C26", "v4 and v5: concurrent use gives the results of sequential use",
     "Any number of goroutines may parse phrases and evaluate, map and translate (SQL, MongoDB, JSON, DOT) their own or a shared tree at the same time with v4 and v5: every call returns what it returns alone. "
     "No data race is possible.",
     ["schedules"], "every schedule of concurrent calls on separate trees and of walks on shared trees",
     "The tests are sequential; the generated parsers share tables that grow while phrases of new forms are parsed.",
     both("tsl/tsl.go", "walkers/semantics/walk.go", "walkers/ident/walk.go", "walkers/sql/walk.go", "walkers/mongo/walk.go", "walkers/graphviz/walk.go"),
     [("lock around the generated parser", "v5/pkg/tsl/tsl.go"), ("walkers do not write to trees", "v5/pkg/walkers/ident/walk.go")],
     "concurrent stress with result oracle, plain and under the Go race detector",
     "2 to 16 goroutines parse phrases, many for the first time, and walk own and shared trees, on 1 to 8 processors; each result is compared with the one of the same call alone afterwards, in a plain and a race detector build.",
     "Cases are rounds of 2 to 16 goroutines that parse and walk 40 phrases, good and bad ones, and shared trees; every result is compared with the one the same calls give alone. Distinct: pairs of phrases that were seen in flight together, by module.",
     observe=["results of each call", "reports of the race detector", "pairs of calls in flight together"])

prop("C27", "v4 and v5: the commands print what the library computes, or fail",
     "tsl_parser of v4 and v5 prints for every phrase its whole tree (JSON, YAML, coloured JSON, DOT) or the SQL and arguments of the library; tsl_mem, tsl_sqlite and tsl_gorm print exactly the demo books, with all their fields, that the phrase is true for. "
     "A phrase that is not valid, has an unknown column, can not be evaluated or expressed ends the command with a message and a non zero exit code, without a crash.",
     ["inputs", "configurations"], "every phrase and option of these commands",
     "No test runs the commands.",
     [v + "/cmd/" + t for v in ("v4", "v5") for t in ("tsl_parser/main.go", "tsl_mem/main.go", "tsl_mem/model.go", "tsl_sqlite/main.go", "tsl_sqlite/model.go", "tsl_gorm/main.go", "tsl_gorm/model.go", "model/model.go")],
     [("column names", "v5/cmd/tsl_gorm/main.go"), ("book filter", "v5/cmd/tsl_mem/main.go"), ("query and scan", "v5/cmd/tsl_sqlite/main.go")],
     "monitor of real command runs: output read back and compared with the reference",
     "The real commands run with generated phrases and options and real SQLite files in a scratch folder; output is read back by independent readers and compared with reference evaluators of memory and SQL semantics.",
     "Cases are runs of the real commands with generated phrases and options; output is read back and compared with the model and the reference evaluators. Non trivial: a tree, an SQL text, a rejected phrase or some, not all, of the books; distinct: by command, phrase and module.",
     ["tsl_mongo has a check of its own, C33.", "An unknown output format of tsl_parser is not specified."],
     observe=["exit code and output of the commands"])

prop("C28", "v4 and v5: the JSON and YAML documents of a tree are the tree",
     "The JSON and the YAML document of every v4 and v5 tree is valid and has the whole tree, in objects with func, left and right: operators, operands in order, elements of lists, exact values of literals (dates as instants) and names, so that the tree can be read back from it.",
     ["inputs"], "every tree",
     "Tests marshal a few small trees.",
     both("tsl/node.go", "tsl/listener.go"),
     [("field names and empty values of the documents", "v5/pkg/tsl/node.go")],
     "round trip monitor: the document is read back by an independent reader",
     "Documents of parsed and built trees with hostile strings, zero numbers, false and empty lists are decoded by an independent reader and compared with the model.",
     "Cases are random trees; the JSON, and for a quarter the YAML, document is read back and compared with the model. Non trivial: more than three nodes; distinct: by tree and module.",
     ["Strings that the YAML library itself does not keep are left out."],
     observe=["JSON and YAML documents"])

prop("C29", "v4 and v5: the graph of a tree is valid DOT and shows the whole tree",
     "The graphviz output of every v4 and v5 tree is valid DOT whatever its strings and names hold: one node for every node of the tree, with its operator, or its type and value, edges from each operator and list to its operands in order, the given name for the root and unique names for the others. "
     "The tree is not changed.",
     ["inputs"], "every tree, also large ones",
     "Tests look for a few substrings; colliding random names and characters special to DOT show for large trees and particular strings.",
     both("walkers/graphviz/walk.go"),
     [("random names of nodes", "v5/pkg/walkers/graphviz/walk.go"), ("escaping of labels", "v5/pkg/walkers/graphviz/walk.go")],
     "round trip monitor: an independent DOT parser rebuilds the tree",
     "The output is parsed by an independent DOT and record label parser, checked to be a tree of the given root and compared node by node; large graphs are checked for colliding names.",
     "Cases are random trees with hostile strings, and lists of 1500 elements; the DOT text is parsed back to a tree and compared with the model. Non trivial: more than three nodes; distinct: by tree and module.",
     observe=["DOT text"])

prop("C30", "v4 and v5: evaluation never panics, is repeatable, missing means null",
     "Evaluating any v4 or v5 phrase with field values of any Go type returns a truth value or an error and never panics; it asks for fields of the phrase only, changes neither the tree nor the record and gives the same outcome again. "
     "A field that the lookup does not find is null, whatever value comes with it.",
     ["inputs", "histories"], "every phrase, every field value of every Go type",
     "Tests evaluate well typed phrases once, with fields of a few types.",
     both("walkers/semantics/walk.go"),
     [("type switches with error results", "v5/pkg/walkers/semantics/walk.go")],
     "totality and purity monitor over hostile values",
     "Any phrase with hostile Go values is evaluated more than once; panics, changed trees or records, different outcomes and lookups of other names are violations.",
     "Cases are any phrases, typed or not, with records that hold any Go value, each evaluated more than once. Distinct: by phrase and record and module.",
     observe=["outcome, record, tree and looked up names"])

prop("C31", "v4 and v5: the rows a database selects are those the phrase is true for",
     "Running the condition of the v4 or v5 SQL walker on a database selects exactly the rows for which the phrase is true by the three valued logic of SQL: comparisons, arithmetic (v5: on both sides), LIKE, ILIKE, IN, BETWEEN, IS NULL, AND, OR, NOT in any nesting over columns that may be null. "
     "For rows without nulls these are the rows the in memory evaluator of the same version finds true.",
     ["inputs"], "every typed condition over a table, every content of the table",
     "No test runs the SQL; a wrong operator, a lost grouping or a swapped argument is valid SQL that selects other rows.",
     both("walkers/sql/walk.go", "walkers/sql/ops.go", "walkers/semantics/walk.go"),
     [("SQL of each operator", "v5/pkg/walkers/sql/walk.go"), ("parentheses", "v5/pkg/walkers/sql/ops.go")],
     "differential monitor: real SQLite database vs three valued reference evaluator",
     "Typed conditions run on a real SQLite database in memory over tables with nulls; the selected ids are compared with a reference evaluator and, where both are defined, with the in memory walker.",
     "Cases are typed conditions of depth up to 4 over columns of 24 random rows that are changed every 4000 cases; the ids SQLite selects are compared with a three valued reference. Non trivial: some rows are selected and some are not; distinct: by condition and module.",
     ["SQLite stands for SQL databases; ILIKE, which it does not have, is a function of the harness on columns that are not null.", "Times are texts in UTC of whole seconds; the division of two integers is not part of the workload."],
     observe=["ids of the selected rows"])

prop("C32", "v4 and v5: the GraphQL server answers all requests with the right books",
     "tsl_graphql of v4 and v5 answers every request, also concurrent ones and after any number of others, with exactly the demo books the filter is true for and the fields that were asked for. "
     "A filter that is not a phrase, names an unknown column or can not be SQL is an error in the answer; the server stays up, has no data race and its open files do not grow with the number of requests.",
     ["schedules", "histories"], "every sequence and interleaving of requests",
     "No test starts the server; leaks and races show after many and concurrent requests only.",
     [v + "/cmd/tsl_graphql/" + f for v in ("v4", "v5") for f in ("main.go", "model.go")],
     [("query for each request", "v5/cmd/tsl_graphql/main.go"), ("database connection", "v5/cmd/tsl_graphql/model.go")],
     "stress of the real server under the race detector with a result oracle",
     "The server, built with the race detector and limited to 64 open files, gets thousands of generated requests from 1 to 8 clients; each answer is compared with the reference evaluator, exhaustion and races end it.",
     "Cases are rounds of 32 requests by 1 to 8 concurrent clients to the real server; each answer is compared with the reference. Non trivial: some, not all, of the books are selected; distinct: by query and module.",
     ["The server has a fixed port, 8080, on the loopback network, which has to be free."],
     observe=["answers", "exit of the server", "race reports", "open files"])

prop("C33", "v4 and v5: tsl_mongo prints the documents the phrase is true for, or fails",
     "tsl_mongo of v4 and v5 prints exactly the books of the collection it is given that the phrase is true for, each once and with all its fields, for all the columns of its column map and whatever the number of batches of the server's answer; with -p the collection holds the demo books and nothing else before the query. "
     "A query changes nothing in the database. A text that is not a phrase, an unknown column, what MongoDB can not express and every failure of the server (also in the middle of an answer) end the command with a message and a non zero exit code.",
     ["inputs", "histories"], "every phrase, content of the collection and failure of the server",
     "No test runs the command, there is no MongoDB in the tests; the filter, the column map and the documents of the demo have to fit to each other.",
     [v + "/cmd/" + t for v in ("v4", "v5") for t in ("tsl_mongo/main.go", "tsl_mongo/model.go", "model/model.go")] + both("walkers/mongo/walk.go"),
     [("column map", "v5/cmd/tsl_mongo/main.go"), ("read of the cursor", "v5/cmd/tsl_mongo/main.go"), ("prepared collection", "v5/cmd/tsl_mongo/model.go")],
     "monitor of real command runs against a MongoDB protocol server of the harness",
     "The real command talks to a server of the harness on the loopback network that speaks the wire protocol, keeps collections, matches filters with an independent evaluator, sends small batches and injects failures; output and server state are compared with the reference evaluator.",
     "Cases are runs of the real command with generated phrases, collections and options; the printed books and the content of the server are compared with the reference. Non trivial: some, not all, of the documents are selected; distinct: by phrase and module.",
     ["The server is the harness's, not MongoDB.", "Where MongoDB differs by design (a negative operator on a missing field) nothing is decided for that book."],
     observe=["exit code and output of the command", "commands and filters that reach the server", "content of the collections"])

prop("C35", "v4 and v5: trees joined in code act as the joined phrase and keep parts",
     "A v4 or v5 tree that code makes by joining trees with AND, OR and NOT nodes (trees that were parsed, mapped or joined before, also one tree more than once) acts as the phrase that joins the phrases of its parts: it has the same value for every record, the same SQL condition, MongoDB filter, JSON document and graph, and its names are mapped in every part. "
     "Whatever is done with a joined tree, its parts stay what they were and can be used again. A node with an operator that the walker does not know, wherever it is in the conditions, is an error of evaluation, SQL and MongoDB and is never left out.",
     ["inputs", "histories"], "every set of trees, every sequence of joining, mapping and walking them",
     "Joining a filter of a user with one of the application is what the trees are for; no test does it, the tests walk what was parsed just before.",
     both("tsl/node.go", "walkers/semantics/walk.go", "walkers/ident/walk.go", "walkers/sql/walk.go", "walkers/mongo/walk.go", "walkers/graphviz/walk.go"),
     [("walkers work on copies of nodes", "v5/pkg/walkers/ident/walk.go"), ("unknown operators", "v5/pkg/walkers/sql/walk.go")],
     "model based monitor of pools of shared trees under joins, mappings and walks",
     "A pool of trees grows by parsing, mapping and joining; after each step all walkers of one tree are compared with the reference, and every tree of the pool with its model.",
     "Cases are histories of 1 to 7 steps on a pool of shared trees, and chains of up to 2000 conditions; value, SQL, filter, JSON and graph are compared with the model and every tree of the pool has to stay what it is; then an unknown operator is put into the tree. Distinct: by last tree and module.",
     observe=["value, condition, filter, document and graph of joined trees", "all trees of the pool after each step"])

prop("C36", "v4 and v5: long phrases are parsed, walked and answered without a crash",
     "A phrase of tens of thousands of conditions, list elements, NOTs, math operators or bytes, in v4 and v5, is parsed into a tree that holds every part of it; evaluating it, mapping its identifiers, its SQL condition, MongoDB filter, JSON form and graph are complete, and the same text that breaks off is an error. Nothing crashes, hangs or is cut at a size. Nested parentheses, and identifiers chained by math operators, are judged up to 30: the parser takes a time that grows with their cube.",
     ["inputs"], "every phrase length, list length and NOT depth",
     "Limits show only at the size where a buffer, a counter or a recursion ends; the tests parse phrases of at most some ten tokens.",
     both("tsl/listener.go", "walkers/semantics/walk.go", "walkers/sql/walk.go", "walkers/mongo/walk.go", "walkers/ident/walk.go", "walkers/graphviz/walk.go"),
     [("stack of the listener", "v5/pkg/tsl/listener.go"), ("list literals", "v5/pkg/tsl/listener.go")],
     "monitors of node counts, values and walker outputs on generated phrases of doubling size",
     "Phrases of 15 to 18 shapes grow from 1 to 20000 repetitions, through the powers of two; the nodes, identifiers and literals of each tree and of its mapped copy are counted, its value, filter, SQL text, document and graph are compared with what the shape says.",
     "Cases are pairs of shape and size, sizes around powers of two and of ten; the tree, its value and the output of every walker are counted and compared with the shape. Distinct: by shape, size and module.",
     observe=["node, identifier and literal counts", "value, SQL text, filter, document and graph"])

prop("C37", "v4 and v5: repeated use keeps no memory, goroutine or file behind",
     "A long running program may use v4 and v5 for ever: parsing any number of phrases of the same forms with new names and values, and texts that are no phrase, walking trees with every walker and matching new patterns keeps nothing of them. The heap, the goroutines and the open files do not grow with the number of uses; the parser's own tables, which grow with new sequences of tokens, are not judged.",
     ["histories"], "every sequence of uses, however long",
     "What is kept shows after thousands of different inputs only; the tests use some hundred and end.",
     both("tsl/tsl.go", "tsl/listener.go", "walkers/semantics/walk.go", "walkers/sql/walk.go", "walkers/ident/walk.go"),
     [("parser and listener of a phrase", "v5/pkg/tsl/tsl.go"), ("patterns of LIKE and of regular expressions", "v5/pkg/walkers/semantics/walk.go")],
     "monitors of the heap, goroutines and open files over epochs of use",
     "Epochs of 1600 to 3000 uses with new names and values run after two that fill what caches there are; heap in use after collection, goroutines and file descriptors are read after each of up to five, growth in every epoch is a violation.",
     "Cases are workloads: all walkers, syntax errors, one tree walked for ever, new patterns. What the process holds is compared from epoch to epoch. Distinct: by workload, round and module.",
     observe=["bytes of the heap in use", "goroutines", "open files"])

NOT_APPLICABLE = []
