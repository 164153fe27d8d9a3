CK, VA, PN_, JS, LI = "validator/checker.go", "validator/validator.go", "pn/pn.go", "json/json.go", "literal/literal.go"
VNOTE = "The validators of /repo run on trees that the parser of /repo made; their issues (code, severity, line, column, multiset, identifying words of the message) are compared with those of an independent validator (mc/model/validate.go) that works on the accessors of the same tree. Every tree in the spaces listed in the evidence is judged. "
TNOTE = "Every source in the spaces listed in the evidence is parsed by the code in /repo; the outcome is compared with what mc/model/pn.go computes from the accessors of the same tree. "
TECH = "bounded exhaustive enumeration of programs against an executable reference model"

p("P24", "Traversal reaches every node exactly once with the right path",
  "Visiting the contents of a node yields each of its direct children once, and visiting all contents yields each descendant once, containers before their contents and the children of each node in order: that of the source, except that the return type of a lambda comes last and the parent of a node definition first. The path given with each visit is the chain of nodes from the root of the traversal to the container of the visited node, appended to the path that the caller provided.",
  ["inputs"], "all trees of the programs enumerated for the grammar (nestings of all forms to a depth, token sequences to a length) x an empty and a non-empty initial path with spare capacity",
  "Each of some 80 node types has its own visiting code; the tests traverse none but the definitions that validators meet.",
  [EX], [("Contents and AllContents of each node type, deepVisit, shallowVisit", EX)], ["visits made by Contents and AllContents", "accessors of nodes"], TNOTE)
p("P25", "The PN of a program reflects its whole syntax tree",
  "The Puppet Extended S-Expression Notation of a tree has the operation, names, flags and children of every node, in order, so that programs with different meaning have different notation; optional parts are included exactly when they are present. Labels name the kind of node.",
  ["inputs"], "all trees of the programs enumerated for the grammar; the notation of every single node in nestings of all forms",
  "Each node type has its own conversion with optional parts; tests show few combinations.",
  [EX, PN_, "pn.md"], [("ToPN of each node type", EX), ("Label", "parser/label.go")], ["ToPN().String()", "ToPN().ToData()", "Label()"], TNOTE)
p("P26", "The text of a PN can be read back unambiguously",
  "The text of every PN reads back, by the published grammar of the notation, as the same calls, lists, maps, keys, strings, numbers, booleans and nil (floats to 16 significant digits and always recognizable as floats). Map keys that the grammar does not allow are refused, and use of a PN never changes it.",
  ["inputs"], "all PN trees up to a depth, all strings over special characters up to a length, numbers of all magnitudes, all keys over the characters of keys up to a length, the PN of all programs enumerated for the grammar",
  "Quoting and number formatting have infinitely many inputs; tests show ten.",
  [PN_], [("Format of literal, list, map, call", PN_), ("keyPattern", PN_)], ["String, Format, ToString, AsCall, AsParameters, WithName"],
  "Every PN in the spaces is formatted by /repo and read back by an independent reader (mc/model/pn.go).")
p("P27", "PN data and its JSON are faithful",
  "The data of a PN consists of primitive values, lists and the documented maps for calls and maps, and its JSON, when read by any JSON decoder, yields exactly that data on one line; reported errors have the same quality. Nothing is lost, duplicated or re-escaped.",
  ["inputs"], "as for the text of a PN, and the errors of all short token sequences",
  "Tests cover ten small JSON values.",
  [PN_, JS], [("ToData", PN_), ("ToJson", JS), ("ReportedToPN", PN_)], ["ToData()", "bytes written by json.ToJson"],
  "The JSON that /repo writes for every case is decoded with encoding/json and compared with the data and with the model's data.")
p("P28", "Literal evaluation yields the value an expression denotes, or nothing",
  "An expression has a literal value exactly when it is a literal (number, string or heredoc without interpolation, boolean, undef, default, regular expression, name, or type name), or an array or hash of expressions with a literal value where no key is an array or hash; that value is what the literal denotes, and of duplicate keys the last counts. All other expressions have none; evaluation never fails for any expression and repeats with the same result.",
  ["inputs"], "all nestings of literal and non literal forms up to a depth, all pairs of hash keys, every node of every tree of the enumerated programs",
  "Tests show one example per type of literal.",
  [LI], [("ToLiteral, toLiteral, lists and hashes", LI)], ["literal.ToLiteral"], TNOTE)
p("P29", "The Puppet validator reports exactly the violations of its rules",
  "For every syntax tree the Puppet validator reports each violation of a semantic rule (illegal assignments, operators, names, placement of definitions, duplicate keys, attributes or defaults, missing values, idle expressions, illegal queries and host names) once, with the code, severity and location of the offending expression and a message that identifies it; it reports nothing else.",
  ["inputs"], "all trees of the programs enumerated for the grammar, all rule violations nested in all forms up to a depth, dedicated products of names, parameters, keys, attributes, hosts, calls, mappings",
  "Tests show one violating example for some of the rules and few of the contexts in which they do not apply.",
  [CK, "validator/validator.go", "validator/issues.go"], [("check_* methods", CK), ("Check", CK), ("isIdem, checkRValue, checkTop", CK)], ["Issues() of ValidatePuppet"], VNOTE)
p("P30", "Strictness only changes the severity of the soft rules",
  "The strictness of the validator decides the severity (none, warning or error) of exactly the rules that are documented as soft, and of no others; a result is an error exactly when it has an issue of severity error. Names of strictness levels convert in both directions and unknown ones are refused.",
  ["inputs", "configurations"], "the three strictness levels x all combinations of rule violations up to a length, nested in all forms up to a depth",
  "Tests use two levels with single violations.",
  [VA, CK], [("Strictness, demote", VA), ("NewChecker", CK)], ["Issues(), Error(), Strict()"], VNOTE)
p("P31", "The tasks and workflow validators enforce their own subset of the language",
  "With the tasks or workflow validator, the constructs that have no meaning there (operations on a catalog) are each reported once, with the name of what is illegal and at its location, and all other rules apply as for the Puppet validator.",
  ["inputs", "configurations"], "as for the Puppet validator, with both other validators",
  "Tests show a few examples of each.",
  ["validator/tasks_checker.go", "validator/workflow_checker.go", CK], [("tasksChecker", "validator/tasks_checker.go"), ("workflowChecker", "validator/workflow_checker.go")], ["Issues() of ValidateTasks and ValidateWorkflow"], VNOTE)
p("P32", "Validation is repeatable and leaves the syntax tree unchanged",
  "Validating a tree does not change it, gives the same issues each time, and a validator that is used again after it has been cleared gives the issues that a new one gives, regardless of what it validated before. A validating parser returns the tree with exactly the issues of parser and validator for the given source.",
  ["inputs", "histories"], "all sequences of programs validated by one validator up to a length, in three flavours; all sequences of sources given to one validating parser; all nestings of forms",
  "Tests use a new validator for each source.",
  [CK, VA, "validator/validator.go"], [("path, issues and definitions in AbstractValidator", "validator/validator.go"), ("Clear", "validator/validator.go"), ("ParserValidator", VA)], ["Issues(), Clear(), tree before and after"], VNOTE,
  state=[("issues, severities, path", "what was found so far and where the checker is", "validator/validator.go")], technique="bounded exhaustive enumeration of operation histories on the real validator, compared with fresh instances")
p("P22", "A parser instance can be used for any number of sources",
  "Each use of a parser gives the same tree (with the same locations) or the same error as a new parser with the same options would, whatever was parsed before by it or by another parser, including sources that were rejected at any point and single expressions; results that were given out earlier never change. Nothing of one source is carried over to the next.",
  ["inputs", "histories"], "all sequences of sources up to a length given to one parser, all prefixes of programs followed by sequences of other sources, all pairs of forms of the language",
  "Tests create a new parser for each source.",
  [LX, PA], [("Parse, parse", PA), ("fields of context and stringReader", LX)], ["outcomes of successive calls of Parse"],
  "Differential on the real code: each outcome in a history, including all locations and the text of errors, is compared with the outcome of a new parser for the same source. ",
  state=[("lexer fields and locator", "scanning state of the current source", LX)], technique="bounded exhaustive enumeration of operation histories on the real parser, compared with fresh instances")
p("P23", "Separate parsers and shared trees can be used concurrently",
  "Goroutines that use separate parsers and validators, or that read one syntax tree (traversal, notation, validation, locations), do not interfere: there is no data race, deadlock or panic, and each gets the result that it gets when it runs alone, for every interleaving.",
  ["schedules", "inputs"], "all schedules of two threads with a bounded number of preemptions, at every statement of the code, for all ordered pairs of 25 operations",
  "No test uses more than one goroutine, and those that did would see one interleaving.",
  ["parser/factory.go", EX, VA, PA, LX], [("Locator and its line index", EX), ("DefaultFactory and other package level variables", "parser/factory.go"), ("NewChecker and package level data", VA)], ["results of both threads", "reports of the Go race detector"],
  "A controlled scheduler runs the real code, instrumented before every statement through a build overlay, under the race detector (happens-before, so that it reports every racing pair of accesses that is executed, in any schedule). ",
  state=[("line index of Locator", "computed when a location is first asked for, under sync.Once", EX)], technique="stateless model checking: preemption bounded exploration of all schedules of the real code under a controlled scheduler and the Go race detector")
p("P33", "The command line tool reports what the parser and the validator found",
  "For every combination of its flags and every source, the tool exits with zero exactly when the file can be read, parsed and validated without an error, and it writes the issues, the notation or the JSON of the result as the library computes them; missing files and wrong usage give a message and a status, never a crash.",
  ["inputs", "configurations"], "all combinations of the flags x files of each extension x programs that parse, have warnings, have errors, or do not parse",
  "No test runs the tool.",
  ["parse/parser.go", JS, VA], [("main", "parse/parser.go"), ("flags", "parse/parser.go")], ["exit code", "standard output", "standard error"],
  "The tool is built from /repo and run as a process, in a scratch directory; its output and status are compared with what is computed from the library's own results. ",
  technique="bounded exhaustive enumeration of configurations and inputs on the real program against an executable reference model")
p("P36", "Offsets convert to lines and positions",
  "For every text and every offset in it, the line is one more than the number of newlines before the offset, and the position is one more than the number of characters between the start of the line and the offset; what is past the end counts as the end. The answer does not depend on what was asked earlier, and an expression that is initialized with an offset and a length has that location and that text.",
  ["inputs"], "all texts over newline, carriage return, tab, NUL, characters of one to four bytes and invalid bytes up to a length x all offsets, in two orders of queries",
  "Tests check some forty locations in short sources.",
  [EX, "parser/factory.go"], [("Locator.LineForOffset, PosOnLine", EX)], ["LineForOffset, PosOnLine, File, String"],
  "Every answer of the real Locator is compared with a direct count. ")
p("P34", "The tokens that the simple lexer reads",
  "NewSimpleLexer yields, for every source, the tokens that the lexical rules of the language define (a string with interpolation is one token), one for each NextToken, and the end token again and again after the last. SyntaxError and a failing AssertToken report the kind of the current token and its end or start, and text that is no token makes NextToken panic with the issue that says so and where. After SetPos to the end of an earlier token, the tokens that follow it are read again.",
  ["inputs", "histories"], "all sequences of operators, words, layout and characters up to a length, all pairs of keywords and names, all contexts of regular expressions, all prefixes of programs x queries at each token x positions to go back to",
  "No test uses the simple lexer.",
  [PA, LX], [("NewSimpleLexer, lexer", PA), ("nextToken", LX)], ["NextToken, CurrentToken, IsKeywordToken", "issues that SyntaxError, AssertToken and NextToken panic with"],
  "Each source is read with the reference lexer and with three real ones (reading only, asked at each token, set back); kinds, starts and ends of all tokens must agree. The numbers of the kinds are learned once, from one source for each kind. ",
  state=[("position, line start, current token", "what decides how the next character is read", "parser/lexer.go context")])
p("P37", "A reader yields the characters of its text from any position",
  "A StringReader yields the character that starts at its position, with its size or start, from every position of every text, and moves exactly past it when asked to; at the end it yields zero again and again. Invalid UTF-8 is never taken for a character but gives an error with its offset, and leaves the position where it was. No operation changes the text, and From returns what lies between two positions.",
  ["inputs", "histories"], "all texts over characters of each length, NUL and invalid encodings up to a length x all start positions x all sequences of up to three operations",
  "No test uses a reader with malformed text or moves it back.",
  ["parser/reader.go"], [("Next, Peek, Advance, SetPos, From", "parser/reader.go")], ["what the operations return, the position"],
  "The only state is the position; all positions of each text are start states. ",
  state=[("i", "the position in the text", "parser/reader.go stringReader")])
p("P38", "Validators that are written by users of the library",
  "Validate gives each expression of a tree exactly once to a validator, containers first, and while it does, Container and ContainerOf lead from that expression up to the top. An accepted issue is reported with the severity it was demoted to, unless that is to ignore it; only soft issues can be demoted, and only to a severity that exists. Demotions stay, and issues go, when the validator is cleared or used again.",
  ["inputs", "histories"], "all nestings of the forms of the language up to a depth; all sequences of demotions, issues, clearing and validation up to a length, with each kind of validator",
  "Tests only use the built in checkers, once, and never Demote or ContainerOf.",
  [VA, CK], [("Validate, AbstractValidator", VA)], ["calls of Validate", "Container, ContainerOf", "Issues"],
  "A validator written in terms of the public API, and an extension of each checker, are given the trees that the real parser makes. What they see is compared with the children of each node and with a model of severities. ",
  state=[("path, subject", "where the validation is", VA), ("issues, severities", "what has been reported and how", VA)])
p("P39", "Nodes tell what they were made from",
  "Each method of the factory gives a node of its kind that contains exactly the given parts, in order and at the given location, for all combinations of parts, including those that may be left out; a tree that is built with the factory from the parts of a parsed one equals it in shape, locations, notation, traversal and issues. What a node offers in other ways (its value as a number or string, lookup in a hash, views as a definition, a literal or a unary, binary or query expression) agrees with its parts. Copies of calls and references with another name differ in that name only, and do not change the original.",
  ["inputs"], "all methods of the factory x all combinations of arguments out of pools; all nestings of the forms of the language, and the spaces of the grammar properties, rebuilt node by node",
  "Tests only see trees that the parser makes, with the combinations of parts in their sources.",
  ["parser/factory.go", EX, "parser/workflow.go"], [("DefaultFactory and all methods of ExpressionFactory", "parser/factory.go"), ("accessors of nodes, WithFunctor, WithName, Get", EX)], ["results of accessors", "ToPN, Contents, AllContents", "Issues() of both trees"],
  "Nodes are compared with model nodes that are made from the arguments alone; rebuilt trees are compared with the parsed ones. ")
