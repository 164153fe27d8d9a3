#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Usage: tools/meta.py ID... (the ids that 'mc list' prints)"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, tests, files, mech, observe, note, technique="bounded exhaustive enumeration of programs against an executable reference model", state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a}, note, technique))

PA, LX, EX = "parser/parser.go", "parser/lexer.go", "parser/expression.go"
AST = ["result of Parse: the syntax tree or the error"]
NOTE = "Every source in the spaces that are listed in the evidence file is parsed by the code in /repo and by the reference parser in mc/model; the trees (kinds, children, values, locations where relevant) or issues must agree. A branch of the enumeration is pruned only when the model has proven that no continuation can change the outcome, and that pruned prefix is compared too. "

p("P01", "Parsing is total: every source yields a tree or an error",
  "For every source text and every parser configuration, parsing terminates with either a complete syntax tree or a reported error that has a message; it never panics, hangs, or returns neither. Everything that can be done with a tree (converting it to its other notations, visiting it, reading labels and locations, validating it) also completes normally.",
  ["inputs", "configurations"], "all byte sequences as source x all 32 combinations of parser options, bounded by length and alphabet",
  "The tests parse some hundred well formed snippets; totality is about all malformed and truncated ones too.",
  [PA, LX, EX, "validator/checker.go"], [("recover in Parse turns panics with issues into errors", "parser/parser.go Parse"), ("end of input tests in every lexer loop", "parser/lexer.go")], AST + ["ToPN, Contents, AllContents, Label, Validate*"],
  "Executions that panic, hang or run out of memory are caught by a supervisor process. Inputs longer than the bounds are not explored.")
p("P02", "Operator precedence and associativity",
  "An expression with operators is parsed so that tighter binding operators group first and operators of equal strength group as the language defines (left, or right for assignment and relations); parentheses override, prefix operators bind tighter than all binary operators except access, and each operator has its own distinct node with its operands in source order.",
  ["inputs"], "all sequences of operators, operands, parentheses up to a number of tokens, and all nestings of operator forms up to a depth",
  "Tests show single operators and a few pairs; precedence is a relation between all pairs and triples in all nestings.",
  [PA], [("one function per precedence level", "parser/parser.go relationship..unaryExpression")], AST, NOTE)
p("P03", "Calls, access, method chains, lambdas and statement calls",
  "Function calls with or without parentheses, method calls, index access and lambdas nest and chain from left to right as written, with every argument present once and in order; a bracket or parenthesis on a new line starts a new expression. A statement function name that starts a statement takes the expressions that follow it as its arguments, and no other expression does.",
  ["inputs"], "all token sequences of the call and access grammar up to a length, and all nestings of call forms up to a depth",
  "Tests show one call form at a time; ambiguities arise when the forms are combined.",
  [PA], [("primaryExpression, arguments, lambda", PA), ("transformCalls", PA)], AST, NOTE)
p("P04", "Conditionals, case expressions, selectors and blocks",
  "Conditionals, case expressions, selectors and blocks parse to nodes where every test, option, value, branch and statement is present once, in source order, and belongs to the construct that lexically encloses it; an absent branch or an empty block is represented as such. Sources that do not conform are rejected.",
  ["inputs"], "all token sequences of the conditional grammar up to a length, and all nestings of control forms up to a depth",
  "Tests show isolated examples; which branch an else or a value belongs to depends on arbitrary nesting.",
  [PA], [("ifExpression, caseExpression, selectorsExpression", PA), ("expressions", PA)], AST, NOTE)
p("P05", "Resource declarations, defaults and overrides",
  "Resource declarations, resource defaults and resource overrides are recognized in all positions where the language allows them, with their form (regular, virtual or exported), every title, every body, and every attribute with its operator, name and value in source order. A resource-like source that is not one of these is rejected rather than partially parsed.",
  ["inputs"], "all token sequences of the resource grammar up to a length, all attribute names, and all nestings of resource forms up to a depth",
  "The shape of a resource is decided by lookahead over an arbitrary expression; the tests try a handful of titles and attributes.",
  [PA], [("resourceExpression, resourceShape, resourceBodies, attributeOperations", PA)], AST, NOTE)
p("P06", "Collectors and queries",
  "A collector keeps its type, whether it is virtual or exported, its query and its attribute operations; the query uses normal expression grammar between the matching delimiters, and mismatched delimiters are rejected.",
  ["inputs"], "all token sequences of the collector grammar up to a length, and all nestings up to a depth",
  "Tests show four collectors.", [PA, LX], [("collectExpression", PA), ("<| |> <<| |>> tokens", LX)], AST, NOTE)
p("P07", "Definitions: class, define, function, plan, node, site, application",
  "Every kind of definition keeps its name, parameters, parent, return type, host names and body as written, accepts exactly the names and parts that are legal for that kind of definition, and rejects all others.",
  ["inputs", "configurations"], "all token sequences of the definition grammars up to a length, all candidate names in all name positions, all nestings up to a depth",
  "The tests show one or two examples of each definition.", [PA], [("classExpression, resourceDefinition, functionDefinition, planDefinition, nodeDefinition, siteDefinition, capabilityMapping", PA)], AST, NOTE)
p("P08", "A program lists its definitions; names are qualified by enclosing classes",
  "The program node of a parsed source lists every definition that occurs anywhere in the source exactly once and in the order in which the definitions end, regardless of how deep it is nested or how the source was scanned. The name of a class is qualified by the classes that enclose it and is never affected by classes that do not.",
  ["inputs", "histories"], "all sequences of class starts, other definitions and block ends up to a length, definitions nested in every other form",
  "The list and the name stack are mutable parser state; the tests look at single definitions.", [PA], [("addDefinition", PA), ("nameStack in className", PA)], ["Program.Definitions", "names of definitions"], NOTE,
  state=[("definitions, nameStack", "what has been defined so far and the enclosing classes", "parser/parser.go context")])
p("P09", "Type aliases, type definitions and parameter lists",
  "Type aliases, type mappings and type definitions keep their name, parent and type expression; parameters keep their type, name, default value and captures-rest marker. Every other shape in these positions is rejected.",
  ["inputs"], "all token sequences of the type and parameter grammar up to a length, all nestings up to a depth",
  "Tests show single examples.", [PA], [("typeAliasOrDefinition", PA), ("parameterList, parameter", PA)], AST, NOTE)
p("P10", "Numeric literals",
  "Decimal, octal, hexadecimal and floating point literals have exactly the value and radix that is written, with sign when signed, and a number that cannot be represented or that is followed by a letter is reported as an error instead of being silently altered.",
  ["inputs"], "all strings over the number characters up to a length, long numbers of all lengths around the limits of the representation",
  "Numbers are infinitely many; tests use about ten.", [LX], [("nextToken, consumeFloat, parseInt", LX)], AST, NOTE)
p("P11", "Quoted strings and escape sequences",
  "The value of a single quoted, double quoted or back-ticked string is the written text with each defined escape sequence replaced by the character it denotes and everything else retained verbatim; unterminated strings and malformed escapes are rejected. Which escapes are recognized depends only on the kind of string and the parser options.",
  ["inputs", "configurations"], "all strings over the relevant characters up to a length, all escape sequences with all ASCII characters, selected unicode and invalid UTF-8",
  "Tests show single escapes; neighbouring characters, end of input and unicode are not covered.", [LX, "parser/reader.go"], [("consumeDelimitedString, consumeDoubleQuotedString, appendUnicode, appendHexadec", LX)], AST, NOTE)
p("P12", "String interpolation",
  "A double quoted string is the concatenation of its literal segments and interpolated expressions in source order with no text lost, duplicated or moved; an interpolation that starts with a name denotes the variable of that name (also as receiver of access and method calls), and an unescaped dollar that starts neither a variable nor an interpolation is reported as malformed interpolation.",
  ["inputs"], "all strings over interpolation delimiters, names and access tokens up to a length, all keywords and names in interpolation, all language forms interpolated",
  "Interpolation is a recursive use of the parser from the lexer with state saved and restored; tests cover some ten strings.", [LX], [("handleInterpolation, interpolate, convertNamedAccessLHS", LX), ("consumeDoubleQuotedString", LX)], AST, NOTE)
p("P13", "Heredoc text",
  "The value of a heredoc is the text between its declaration line and its end marker, with margin and trailing newline removed exactly as the end marker states, escapes limited to the declared flags, and interpolation only when the tag is quoted; the syntax name is retained. Source code continues after the declaration on the same line, and again after the end marker, also when several heredocs start on one line.",
  ["inputs"], "all combinations of declarations, text lines, margins, end markers up to a number of lines and characters; all flag subsets; heredocs in every other form",
  "Tests show about ten heredocs.", [LX], [("consumeHeredocString, extractFlags, applyEscapes, stripIndent", LX)], AST, NOTE,
  state=[("nextLineStart", "where scanning continues when the current line ends", "parser/lexer.go")])
p("P14", "EPP templates",
  "A template yields its literal text verbatim apart from comments, trimmed white space and escaped delimiters, its output tags as rendered expressions, and its code tags as code, all in source order; code that spans tags nests as if the text in between were statements. Parameters are recognized only at the start of a template, and the tree tells whether they were specified.",
  ["inputs"], "all sequences of EPP delimiters, text, layout and code up to a length; every language form in output tags, and spread over tags",
  "Tests show about fifteen templates.", [LX, PA], [("consumeEPP", LX), ("parseTopExpression", PA)], AST, NOTE)
p("P15", "Names, keywords, variables, and regexp versus division",
  "Characters group into names, keywords, type names, variables, operators and regular expressions by the longest match rules of the language; keywords are reserved except where a name is explicitly allowed, and a slash starts a regular expression only where an operand is expected.",
  ["inputs", "configurations"], "all strings over the characters of names, variables and operators up to a length; all keywords in all name positions; all regexp contexts",
  "Context dependent lexing has as many cases as pairs of tokens; tests show a few.", [LX, PA], [("nextToken, consumeQualifiedName, isRegexpAcceptable", LX), ("identifier, keyword", PA)], AST, NOTE)
p("P16", "Layout and comments do not change the meaning of a program",
  "Adding white space, newlines or comments between two tokens changes neither the syntax tree of a program, apart from locations, nor whether it is accepted, except where the language gives a newline meaning.",
  ["inputs"], "all forms of the language x all gaps between tokens x fifteen kinds of layout (pairs of gaps in the thorough tier)",
  "A metamorphic relation between programs; tests check one layout of each form.", [LX], [("skipWhite", LX)], AST,
  "Differential: both variants are parsed by the code in /repo and their trees are compared with each other, no model is involved. One space puts layout at each gap of whole programs.",
  technique="bounded exhaustive enumeration of program pairs, metamorphic oracle on the real parser")
p("P17", "Rejected programs are reported with the issue that describes what is wrong",
  "When a program is rejected, the error carries the issue code that corresponds to the first violation of the grammar, and the same kind of violation is reported with the same code wherever it occurs; a program that conforms is never rejected.",
  ["inputs"], "all truncations, deletions of a range, insertions and replacements of a token at every position in every form and in larger programs, all short token sequences",
  "Tests pin some forty errors; every position of every program can be erroneous.", [PA, LX, "parser/issues.go"], [("parseIssue", LX), ("assertToken, SyntaxError", PA)], ["code, arguments and message of the error that Parse returns"], NOTE)
p("P18", "Reported errors point at the place that is wrong",
  "The file, line and column of a reported error is the place in the source where the violation is found, also after multi-line strings, heredocs, comments, different newlines and multi-byte characters.",
  ["inputs"], "as for the issue codes, with sources that contain multi-line tokens and multi-byte characters",
  "Tests check the location of some forty errors in single line sources.", [PA, LX, EX], [("Locator", "parser/factory.go, expression.go"), ("parseIssue2", LX)], ["Location of the error that Parse returns"], NOTE)
p("P19", "Syntax tree nodes know where in the source they are",
  "Every node of a syntax tree has the offset of the first character of the source text it was parsed from, and a length that covers all of that text and never more than the one token (with the layout before it) that follows. Thus its text, line and column are right, also within strings, heredocs and templates.",
  ["inputs"], "all nestings of the forms of the language up to a depth, with varying layout and multi-byte characters; token sequences of postfix, operator, string and statement grammars up to a length",
  "Tests check no node locations but those of a few errors.", [PA, LX, EX], [("factory calls with start and length", PA)], ["ByteOffset, ByteLength, String, Line, Pos of each node"], NOTE)
p("P20", "Workflow steps",
  "With workflow support enabled, workflows, resources, actions and state handlers keep their name, style, properties (input, output, iteration and others) and definition or nested steps as written; sources that do not conform are rejected. ",
  ["inputs", "configurations"], "all token sequences of the step grammar up to a length, all names, all nestings of steps up to a depth, all small edits of two workflows",
  "Tests show about ten workflows.", [PA, "parser/workflow.go"], [("stepDeclaration, stepProperty, stateHash, activities", PA)], AST, NOTE)
p("P21", "Parser options only change what they are documented to change",
  "Each parser option enables exactly its own feature: a source that does not use the feature of an option gives the same tree or error with and without it, in every combination with the other options.",
  ["inputs", "configurations"], "all 32 option combinations x all forms of the language and all sequences of the option specific features up to a length",
  "Tests use four of the 32 combinations.", [PA, LX], [("CreateParser", PA), ("option tests in nextToken, consumeQualifiedName", LX)], AST, NOTE)
p("P35", "Single expression mode",
  "In single expression mode exactly one expression is parsed and returned, with the same tree as the same expression has within a program; anything but layout that follows the expression is an error.",
  ["inputs", "configurations"], "all token sequences up to a length and all forms of the language, alone and followed by more source",
  "Tests use the mode as a tool, not as the subject.", [PA], [("parseTopExpression, parse", PA)], AST, NOTE)
exec(open(os.path.join(root, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(root, "tools", "meta2.py")) else None

ids = sys.argv[1:]
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        if d["id"] in ids:
            f.write(json.dumps(d) + "\n")
missing = set(ids) - {d["id"] for d, _, _ in P}
assert not missing, missing
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are bounded exhaustive exploration of the code in /repo (built from its working tree) by /verif/mc; see DESIGN.md. No hooks are needed in /repo."}
for d, note, tech in P:
    if d["id"] in ids:
        assert len(d["title"]) <= 80, d["title"]
        m["checks"].append({"property": d["id"], "quick_cmd": "bash check.sh %s quick" % d["id"], "thorough_cmd": "bash check.sh %s thorough" % d["id"],
            "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "model_checking", "level_note": note.strip()})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
