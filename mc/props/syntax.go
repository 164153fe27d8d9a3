package props

import (
	"strings"

	"verif/mc/drive"
	"verif/mc/spaces"
)

const everything = drive.Accept | drive.Shape | drive.Code | drive.Loc | drive.ErrLoc | drive.Defs

func init() {
	add("P02", "Operator precedence and associativity", func() list {
		ops := w(`+ - * / % << >> == != < > <= >= =~ !~ in and or = += -= -> ~> <- <~ ?`)
		return list{
			sizes("P02"),
			token{Name: "operators", Alphabet: append(w(`$a 1 ( ) ! {b=>1}`), ops...), Sep: " ", Depth: lim(4, 5)}.Space(),
			token{Name: "operators-deep", Alphabet: w(`$a ( ) - * + << < == and or = -> in`), Sep: " ", Depth: lim(5, 7)}.Space(),
			product{Name: "operator-chains", Sep: " ", Pos: [][]string{
				w(`$a -$a !$a *$a ($a)`), ops[:len(ops)-1], w(`$b -$b !$b`), ops[:len(ops)-1], w(`$c -$c`), ops[:len(ops)-1], w(`$d`)},
				TPos: [][]string{ops[:len(ops)-1], w(`$e !$e`)}}.Space(),
			product{Name: "unary-chains", Pos: [][]string{{"", "1 ", "$a "}, {"-", "!", "*", "- ", "! ", "* "}, {"", "-", "!", "*", "- ", "("}, {"", "-", "!", "*"},
				{"1", "1.5", "$a", "$a[1]", "a(1)", "$a.b", "(1)", "[1]", "'x'"}, {"", ")", " + 1", " * 2", "[1]", ".c"}, {"", ")"}}}.Space(),
			nest{Name: "operator-nesting", Outer: spaces.Operators, Middle: spaces.Join(spaces.Operators, w(`(\x01)`)), Inner: spaces.Join(spaces.Operators, spaces.Literals), Depth: lim(3, 4)}.Space(),
			token{Name: "newlines", Alphabet: w(`$a \n [ ] ( ) - ? { } => + . b`), Depth: lim(5, 6)}.Space(),
		}
	})
	add("P03", "Calls, access, method chains, lambdas and statement calls", func() list {
		return list{
			sizes("P03"),
			lists("P03"),
			token{Name: "postfix", Alphabet: w(`$a a A [ ] ( ) , . | => 1`), Depth: lim(6, 7)}.Space(),
			token{Name: "lambda", Alphabet: w(`a $x | { } ( ) , . = *$y A >> 1`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "statement-calls", Alphabet: w(`notice fail a 1 $a , [ ] ( ) ; => { } \n`), Sep: " ", Depth: lim(5, 6)}.Space(),
			token{Name: "every-statement-function", Alphabet: w(`require realize include contain tag debug info notice warning err fail import break next return alert emerg crit other`), Suffix: " 1, 2", Depth: lim(1, 2), Sep: " "}.Space(),
			nest{Name: "call-nesting", Outer: spaces.Join(spaces.Calls, w(`\x01[\x01]`)), Middle: spaces.Join(spaces.Calls, spaces.Collections), Inner: spaces.Join(spaces.Calls, spaces.Literals, spaces.Collections), Depth: lim(3, 4)}.Space(),
			token{Name: "space-and-newline", Alphabet: w(`$a b \x20 \n [ ] ( ) 1 .`), Depth: lim(6, 7)}.Space(),
			token{Name: "arguments", Alphabet: w(`a( [ ] { } ) , 1 => *$b type attr c, `), Depth: lim(6, 7)}.Space(),
		}
	})
	add("P04", "Conditionals, case and selectors", func() list {
		return list{
			sizes("P04"),
			lists("P04"),
			token{Name: "if", Alphabet: w(`if unless elsif else { } $a 1`), Sep: " ", Depth: lim(8, 10)}.Space(),
			token{Name: "case", Prefix: "case $a ", Alphabet: w(`{ } : , 1 default $b ; a`), Sep: " ", Depth: lim(7, 8)}.Space(),
			token{Name: "selector", Prefix: "$a ? ", Alphabet: w(`{ } => , 1 default $b ? ( )`), Sep: " ", Depth: lim(7, 8)}.Space(),
			token{Name: "block", Alphabet: w(`{ } ; $a if else = , 1 ( )`), Sep: " ", Depth: lim(6, 7)}.Space(),
			nest{Name: "control-nesting", Outer: spaces.Control, Middle: spaces.Join(spaces.Control, spaces.Operators), Inner: spaces.Join(spaces.Control, spaces.Operators, spaces.Literals, spaces.Calls), Depth: lim(3, 3)}.Space(),
			nest{Name: "control-in-everything", Outer: spaces.Core(), Middle: spaces.Control, Inner: spaces.Control, Depth: lim(3, 3)}.Space(),
		}
	})
	add("P05", "Resource declarations, defaults and overrides", func() list {
		return list{
			sizes("P05"),
			characters("P05"),
			lists("P05"),
			token{Name: "resource", Alphabet: w(`a 'b' { } : ; , => c`), Depth: lim(8, 9)}.Space(),
			token{Name: "type-resource", Alphabet: w(`A [ ] { } : ; => +> b , 1`), Depth: lim(7, 8)}.Space(),
			token{Name: "virtual", Alphabet: w(`@ @@ a A [ ] { } : b => 'c' @@@ \x20`), Depth: lim(6, 7)}.Space(),
			token{Name: "bodies", Prefix: "file {", Alphabet: w(`'x': 'y': a=>1 b+>2 *=>$h , ; } if=>3 default: $t: [1]: => :`), Depth: lim(5, 6)}.Space(),
			token{Name: "class-resource", Alphabet: w(`class { } 'a' : b => , ( ) ; 1`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "callee-resource", Alphabet: w(`$a. b( ) c { } 'd': e => 1 [ ] :: f`), Depth: lim(6, 6)}.Space(),
			nest{Name: "resource-nesting", Outer: spaces.Resources, Middle: spaces.Join(spaces.Resources, spaces.Collections), Inner: spaces.Core(), Depth: lim(3, 3)}.Space(),
			nest{Name: "resource-in-everything", Outer: spaces.Core(), Middle: spaces.Resources, Inner: spaces.Resources, Depth: lim(3, 3)}.Space(),
			product{Name: "overrides", Pos: [][]string{{"", "@", "@@"}, w(`Resource File Class A::B ::Resource resource $a a() Resource[1]`), {"", "[]", "['x']", "['x', 'y']", "[$z]", "[default, 2, 3]", "['x'][1]", "['x']['y', 2]"}, w(`{ \x20{`), {"}", "a=>1}", "a+>1}", "*=>$h}", "b=>1,}", "b=>1;}", "'t': b=>1}"}}}.Space(),
			product{Name: "attribute-names", Pos: [][]string{w(`a{ @a{ A{ A['x']{ A<||>{`), {"", "'t':", "$t:", "default:", "[1,2]:"}, keywordsAndNames(), w(`=> +> = :`), w(`1 $v [1]`), {"", ",", ";", ",;"}, w(`}`)}}.Space(),
		}
	})
	add("P06", "Collectors and queries", func() list {
		return list{
			sizes("P06"),
			lists("P06"),
			token{Name: "collector", Alphabet: w(`A a <| |> <<| |>> == != b and or ( ) 1 { } => \x20`), Depth: lim(5, 6)}.Space(),
			token{Name: "query", Prefix: "A<|", Alphabet: w(`b 1 == != and or ( ) 'c' $d |> < |>>`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "exported-query", Prefix: "A::B <<|", Alphabet: w(`b == and or ( ) |> |>> { c => +> 1 } ,`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "operations", Prefix: "A<| |>", Alphabet: w(`{ } a 'b' => +> * 1 , ; $c`), Sep: " ", Depth: lim(7, 8)}.Space(),
			nest{Name: "collector-nesting", Outer: spaces.Collectors, Middle: spaces.Join(spaces.Collectors, spaces.Operators), Inner: spaces.Core(), Depth: lim(3, 3)}.Space(),
		}
	})
	add("P07", "Definitions: class, define, function, plan, node, site, application", func() list {
		return list{
			sizes("P07"),
			characters("P07"),
			lists("P07"),
			token{Name: "class", Alphabet: w(`class a ::b { } ( ) $x = 1 , inherits default`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "define-function", Alphabet: w(`define function a::b a ( $x *$y ) { } >> A , [ ]`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "plan", Opts: opts("tasks", "plain"), Alphabet: w(`plan a::b a ( $x *$y ) { } >> A ,`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "node", Alphabet: w(`node a a.b 'c' /d/ default { } , . 1 inherits "e" $f -`), Sep: " ", Depth: lim(5, 6)}.Space(),
			token{Name: "node-dense", Prefix: "node ", Alphabet: w(`a . 1 1.5 , - :: 0x b {} \x20 inherits\x20 default _`), Depth: lim(6, 6)}.Space(),
			token{Name: "site-application", Alphabet: w(`site application a { } ( ) $x produces consumes A => 1 private [ ] ,`), Sep: " ", Depth: lim(5, 6)}.Space(),
			token{Name: "capability", Alphabet: w(`A private A::B produces consumes a::b { } x => * $y , 'z' [ ]`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "definition-in-definition", Alphabet: w(`class define function node site a b { } inherits`), Sep: " ", Depth: lim(7, 8)}.Space(),
			product{Name: "definition-names", Sep: " ", Opts: opts("plain", "tasks", "workflow"), Pos: [][]string{w(`class define function plan application`), definitionNames(), {"", "($x)", "inherits b"}, {"{}", "{ 1 }"}}}.Space(),
			nest{Name: "definition-nesting", Opts: opts("plain", "tasks"), Outer: spaces.Join(spaces.Definitions, spaces.Plans), Middle: spaces.Join(spaces.Definitions, spaces.Types), Inner: spaces.Join(spaces.Core(), spaces.Plans), Depth: lim(2, 3)}.Space(),
		}
	})
	add("P08", "Program lists its definitions; names are qualified by enclosing classes", func() list {
		lv := drive.Accept | drive.Shape | drive.Defs
		items := []string{"class a { ", "class b::c { ", "class ::d($x) inherits e { ", "define f { ", "function g { ", "node h { ", "site { ", "application i() { ", "type J = K ", "type L { ", "1 ", "A produces b {} ", "if $x { ", "} ", "m { 'n': } "}
		return list{
			sizes("P08"),
			token{Name: "definition-sequences", Alphabet: items, Depth: lim(5, 7), Level: lv}.Space(),
			token{Name: "definitions-with-tasks-and-workflow", Opts: opts("tasks", "workflow", "tasks+workflow"), Alphabet: append([]string{"plan n { ", "action o {} { ", "resource p {} {", "workflow q {} { "}, items...), Depth: lim(4, 5), Level: lv}.Space(),
			token{Name: "definitions-rescanned", Alphabet: w(`( ) class\x20a{ function\x20b{ type\x20C=D } x{ A{ : ; 'y' => , z`), Depth: lim(6, 7), Level: lv}.Space(),
			nest{Name: "definitions-everywhere", Outer: spaces.Core(), Middle: spaces.Join(spaces.Definitions, spaces.Types, spaces.Resources, spaces.Strings, spaces.Control), Inner: spaces.Definitions, Depth: lim(3, 3), Level: lv}.Space(),
			token{Name: "class-nesting", Alphabet: []string{"class a {", "class b::c {", "class ::d {", "class e inherits f {", "}", "define g {", "node h {", "class class {", " class ::i::j {"}, Depth: lim(7, 8), Level: lv}.Space(),
			nest{Name: "definitions-in-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Definitions, Inner: spaces.Definitions, Depth: lim(3, 3), Level: lv,
				Wrap: func(s string) string { return "x<% " + s + " %>y" }}.Space(),
		}
	})
	add("P09", "Type aliases, type definitions and parameter lists", func() list {
		return list{
			sizes("P09"),
			characters("P09"),
			lists("P09"),
			token{Name: "type-alias", Alphabet: w(`type A = B [ ] { } => , 'x' 1`), Sep: " ", Depth: lim(7, 8)}.Space(),
			token{Name: "type-definition", Alphabet: w(`type A ::B inherits C { } = a 1 ( $x`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "alias-initializers", Prefix: "type A = ", Alphabet: w(`Object TypeSet B { } [ ] attributes => 'x' , $y (`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "parameters", Prefix: "function a(", Alphabet: w(`$x *$y A A::B [ ] 1 = , ) { } | :: >>`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "lambda-parameters", Prefix: "a |", Alphabet: w(`$x *$y A [ ] 1 = , | { } ( ) $z::w $1`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "type-mapping", Alphabet: w(`type A [ ] Runtime 'x' = B , /r/ => $a`), Sep: " ", Depth: lim(6, 7)}.Space(),
			nest{Name: "type-nesting", Outer: spaces.Types, Middle: spaces.Join(spaces.Types, spaces.Collections, spaces.Operators), Inner: spaces.Core(), Depth: lim(3, 3)}.Space(),
		}
	})
	add("P10", "Numeric literals", func() list {
		lv := drive.Accept | drive.Shape | drive.Code
		big := func(prefix, first, rest string, n int) []string {
			var r []string
			for i := 1; i <= n; i++ {
				for _, f := range first {
					for _, d := range rest {
						r = append(r, prefix+string(f)+strings.Repeat(string(d), i-1))
					}
				}
			}
			return r
		}
		var nums []string
		nums = append(nums, big("", "123456789", "0123456789", 22)...)
		nums = append(nums, big("0x", "0123456789abcdefABCDEFg", "0123456789abcdefABCDEF", 18)...)
		nums = append(nums, big("0X", "17f", "0fF", 18)...)
		nums = append(nums, big("0", "01234567890", "01234567", 24)...)
		nums = append(nums, w(`9223372036854775806 9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 0x7fffffffffffffff 0x8000000000000000 0777777777777777777777 01000000000000000000000 1e308 1e309 1.7976931348623157e308 1.7976931348623159e308 1e-308 5e-324 1e-400 123456789012345678901234567890.5 0.1 0.30000000000000004 1e22 1e23`)...)
		var signed []string
		for _, n := range nums {
			signed = append(signed, n, "-"+n, "+"+n, "- "+n, n+".5", n+"e2", n+".", n+"a", "$x["+n+"]", n+"."+n, "1."+n, "1e"+n, "1e-"+n, "$"+n)
		}
		return list{
			sizes("P10"),
			characters("P10"),
			token{Name: "number-characters", Alphabet: spaces.Chars("0179aAeExX.+-_ "), Depth: lim(6, 7), Level: lv}.Space(),
			token{Name: "octal-hex", Prefix: "0", Alphabet: spaces.Chars("01789aFfGxX.e,"), Depth: lim(6, 7), Level: lv}.Space(),
			spaces.Fixed("long-numbers", lv, nil, signed),
			product{Name: "number-combinations", Level: lv, Pos: [][]string{{"", "-", "+", "$a ", "$a-", "$a-", "$a[", "(", "a."}, {"0", "1", "9", "10", "007", "08", "0x1F", "0xg", "0x", "0X0"},
				{"", ".", ".0", ".5", ".50", ".a", "..", ".5.5"}, {"", "e", "E", "e1", "E1", "e+1", "E-1", "e+", "e1.5", "e01", "ee1"}, {"", "a", " a", "]", ")", ".b", "-1", "+", "_", "é", "\n"}}}.Space(),
			product{Name: "number-context", Sep: "", Level: lv, Pos: [][]string{{"", "[", "{", "a(", "\"${", "x{1:y=>", "case 1{", "$a?{", "A<|b=="}, w(`1 -1 0x1 01 1.5 1e1 +1`), {"", "]", "}", ")", "}\"", "}", ":{}}", "=>1}", "|>"}, {"", " ", ",", "=>2"}}}.Space(),
		}
	})
	add("P11", "Quoted strings and escape sequences", func() list {
		return list{
			oneAmongMany(opts("plain")[0], []string{"'\x01'", "\"\x01\""}, []string{"\\'", "\\\"", "\\\\", "\\n", "\\u0041", "\\u{41}", "\\q", "\n", "\\$", "\x00", "\\", "'", "\""}),
			sizes("P11"),
			characters("P11"),
			token{Name: "single-quoted", Prefix: "'", Alphabet: []string{"a", "\\", "'", "\"", "n", "$", "\n", "é", " ", "{"}, Depth: lim(6, 7)}.Space(),
			token{Name: "double-quoted", Prefix: "\"", Alphabet: []string{"a", "\\", "'", "\"", "n", "$", "\n", "u", "{", "}", "1", "\r"}, Depth: lim(5, 6)}.Space(),
			token{Name: "hex-escapes", Opts: opts("hex", "plain", "hex+backtick"), Prefix: "\"", Alphabet: []string{"\\x", "\\", "a", "F", "0", "9", "g", "x", "\"", "é"}, Depth: lim(5, 6)}.Space(),
			token{Name: "unicode-escapes", Prefix: "\"\\u", Alphabet: []string{"{", "}", "0", "1", "d", "F", "8", "g", "\"", "\\u", " "}, Depth: lim(6, 7)}.Space(),
			token{Name: "unicode-digits", Prefix: "\"\\u{", Alphabet: []string{"0", "1", "F", "d", "8", "}", "\""}, Suffix: "}\"", Depth: lim(5, 7)}.Space(),
			product{Name: "unicode-lengths", Pos: [][]string{{"\"\\u", "\"\\u{", "\"${a}\\u{"}, append(w(`0 1 a F 00 10 fF`), ""), append(w(`0 1 a F 00 10 fF 0D8`), ""), append(w(`0 a F 00 fF 0000`), ""), {"}", "", "g}"}, {"\"", "0\"", "}\""}}}.Space(),
			product{Name: "unicode-values", Level: everything, Pos: [][]string{{"\"a\\u", "\"\\u{", "\"\\u{ ", "'\\u", "@(\"E\")\n\\u{"}, w(`00 0 1 d d8 df D7 FF fe 10 11 7f 80`), {"", "00", "ff", "FD", "800", "7F"}, {"}", "", "}}", " }"}, {"\"", "b\"", "'", "\nE\n", "é\""}}}.Space(),
			product{Name: "all-escapes", Opts: opts("plain", "hex", "backtick"), Pos: [][]string{{"\"", "'", "`", "\"a", "'a", "\"$b"}, allEscapes(), {"", "a", "1", "{", "\\"}, {"\"", "'", "`", "\"\""}}}.Space(),
			product{Name: "all-hex-escapes", Opts: opts("hex"), Pos: [][]string{{"\"\\x", "\"a\\x"}, spaces.Chars("0123456789abcdefABCDEFgG"), append(spaces.Chars("0123456789abcdefABCDEFgG"), ""), {"\"", "a\"", "${b}\"", "é\"", "\\n\""}}}.Space(),
			token{Name: "backtick", Opts: opts("backtick", "plain", "backtick+hex"), Prefix: "`", Alphabet: []string{"a", "`", "\\", "\"", "$", "{", "\n", "é", "'", "}"}, Depth: lim(5, 6)}.Space(),
			product{Name: "unicode-characters", Level: everything, Pos: [][]string{{"'", "\"", "/", "@(E)\n", "#", "", "$", "a"}, {"é", "€", "😀", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\u0001", "\u007f", "\t", "\v", "\xff", "\xc3", "\xf0\x9f", "\xed\xa0\x80", "\xc0\x80", "\x00"},
				{"", "a", "é", "\xff", "\x00"}, {"'", "\"", "/", "\nE\n", "\n", ""}}}.Space(),
			seq{Name: "long-strings", Items: []string{strings.Repeat("x", 70), "\\n", "\\t", "é", "$a", "${b}", "\\'", strings.Repeat("y\n", 40)}, Prefix: "\"", Suffix: "\"", Len: lim(4, 6), Level: everything}.Space(),
		}
	})
	add("P12", "String interpolation", func() list {
		return list{
			oneAmongMany(opts("plain")[0], []string{"\"\x01\"", "\"$x\x01\"", "\"\x01${y}\""}, []string{"$b", "${b}", "${b[1]} ", "$", "\\$b", "${\"c${d}\"}", "${'c'}", "$b::c "}),
			sizes("P12"),
			characters("P12"),
			lists("P12"),
			token{Name: "interpolation", Prefix: "\"", Alphabet: []string{"${", "}", "$", "a", "\"", "::", "[", "]", "1", "."}, Depth: lim(6, 7)}.Space(),
			token{Name: "expression", Prefix: "\"${", Alphabet: w(`a $b 1 } " . [ ] ( ) { |$x| :: , + =>`), Depth: lim(5, 6)}.Space(),
			token{Name: "expression-spaced", Prefix: "\"${", Alphabet: w(`a $b } "c" . [1] (2) { |$x| if unless case + = not !`), Sep: " ", Suffix: "}\"", Depth: lim(5, 5)}.Space(),
			token{Name: "variable", Prefix: "\"$", Alphabet: []string{"a", "B", "_", "::", ":", "1", "-", ".", "{", "}", "\"", "$", "é", "[", " "}, Depth: lim(5, 6)}.Space(),
			product{Name: "keyword-interpolation", Sep: "", Pos: [][]string{{"\"${", "\"$", "\"${ ", "\"${::", "\"${$"}, keywordsAndNames(), {"}", "", "[1]}", ".b}", "(1)}", " }", ".b(1)}", " + 1}", "::c}", "-d}", "[1][2]}", ".b.c[1]}", " |$x| {}}", " 1}", ", 1}", "=1}"}, {"\"", "\"\"", "x\""}}}.Space(),
			seq{Name: "chains", Items: []string{".b", ".c(1)", ".d |$x| { $y }", "[1]", "(2)", ".e(3) |$z| { 'z' }", ".if", " . f"}, Prefix: "\"x${a", Suffix: "}y\"", Len: lim(4, 5), Level: everything}.Space(),
			seq{Name: "variable-chains", Items: []string{".b", ".c(1)", ".d |$x| { $y }", "[1]", "(2)", "::k"}, Prefix: "\"${$a", Suffix: "}\"", Len: lim(4, 5), Level: everything}.Space(),
			product{Name: "interpolation-context", Pos: [][]string{regexpContexts(), {"", " ", "\n"}, {"\"${", "\"${\n", "\"$b${", "@(\"E\")\n${"}, {"/a/", "{a => 1}", "|$x| {}", "[1]", "(1)", "-1", "b", "$b", "/ 2", "B", "'c'", "\"${/d/}\"", "=> 1", "? {1 => 2}", "if", "{", "@(F)\nx\nF\n"}, {"}", " }", "\n}"}, {"\"", "\nE\n", "\" / 2", "\" /e/"}}}.Space(),
			nest{Name: "interpolated-forms", Outer: spaces.Strings, Middle: spaces.Join(spaces.Strings, spaces.Collections, spaces.Calls), Inner: spaces.Core(), Depth: lim(3, 3)}.Space(),
			nest{Name: "interpolation-in-everything", Outer: spaces.Core(), Middle: spaces.Strings, Inner: spaces.Join(spaces.Strings, spaces.Literals), Depth: lim(3, 3)}.Space(),
			seq{Name: "segments", Items: []string{"a", "$b", "${c}", "${d.e}", "${f[1]}", "$g-h", "$$", "\\$", " ", "::", "${\"i$j\"}", "-", "\\n", "${}"}, Prefix: "\"", Suffix: "\"", Len: lim(4, 5), Level: everything}.Space(),
		}
	})
	add("P13", "Heredoc", func() list {
		var texts [][]string
		texts = append(texts, []string{"@(E)", "@(\"E\")", "@(E/)", "@(\"E\"/$n)", "@(E/L)", "@(E:json)", "@(\"E\":x/ts$uLnr)", "@( E )", "@(E F)", "@(\"E\"/L)"},
			[]string{"\n", " + 1\n", "#c\n", ", 2\n", "\r\n", ""},
			[]string{"", "a\n", " a\n", "  a\n", "\n", "a\\\n", "$b\n", "${c}\\n\n", "\\$d\\t\n", "é\n"},
			[]string{"", "a\n", "  a\n", "   b\n", "\n", " \n", "\ta\n", "a\\\n", "E\n", "a"},
			[]string{"E", "  E", "|E", " | E", "|- E", "-E", "  |-E", " -  E", "E x", "EE", "|", "  - | E", "E F", "| -E"},
			[]string{"", "\n", "\n$x", " \n", "\r\n"})
		return list{
			oneAmongMany(opts("plain")[0], []string{"@(E)\n\x01\nE\n$y", "@(\"E\"/)\n  \x01\n  | E\n$y", "@(E/L) + $x\n \x01\n b\n |- E\n$y"}, []string{"\n", "\n ", "\n\n", "\\n", "\\", "\\\n", "${b}", "$b ", "E", "\nE", "|", "\t", "\r\n"}),
			sizes("P13"),
			characters("P13"),
			lists("P13"),
			product{Name: "heredoc-shapes", Pos: texts, Level: everything}.Space(),
			token{Name: "heredoc-lines", Prefix: "@(E)\n", Alphabet: []string{"a", " ", "\n", "E", "|", "-", "\t", "\r", "\\", "$"}, Depth: lim(6, 7), Level: everything}.Space(),
			token{Name: "heredoc-interpolated-lines", Prefix: "@(\"E\"/)\n", Alphabet: []string{"a", " ", "\n", "E", "|-", "$b", "${", "}", "\\n", "\\", "\""}, Depth: lim(5, 6), Level: everything}.Space(),
			token{Name: "rest-of-declaration-line", Prefix: "[@(A)", Suffix: "]\nx\n| A\n$y", Alphabet: []string{"'", "\"", "`", "\\", "/*", "*/", "#", ",", "a", " ", "\n", "é", "@(B)"}, Depth: lim(5, 6), Level: everything}.Space(),
			token{Name: "carriage-returns", Prefix: "@(\"E\"/L)\r\n", Alphabet: []string{"a", "\\\r\n", "\r\n", "\n", "\\", "\r", " ", "| E", "|- E", "$b"}, Depth: lim(6, 7), Level: everything}.Space(),
			token{Name: "declaration", Prefix: "@(", Suffix: ")\nx\nE\n", Alphabet: []string{"E", "\"", ":", "/", "n", "$", " ", ")", "j", "z", "L", "\n", "t"}, Depth: lim(5, 6), Level: everything}.Space(),
			seq{Name: "several-heredocs", Items: []string{"@(A)", "@(\"B\")", "+", "\n", "a\nA\n", "b$c\n| B\n", ",", "[", "]", "\"${", "}\""}, Len: lim(6, 7), Level: everything}.Space(),
			product{Name: "flags", Level: everything, Pos: [][]string{{"@(E", "@(\"E\""}, {"", "/", ":j/", "/ "}, flagSets(), {")\n"}, allEscapesLines(), {"E\n", "|- E\n"}}}.Space(),
			nest{Name: "heredoc-in-everything", Outer: spaces.Core(), Middle: spaces.Strings[3:], Inner: spaces.Join(spaces.Strings, spaces.Literals), Depth: lim(3, 3), Level: everything}.Space(),
			seq{Name: "margins", Prefix: "$x = @(\"E\"/L)\n", Items: []string{"    a\n", "  b\n", "\tc\n", "\n", "   \n", "   ${d}\n", "    e\\\n", "   | E\n", "  |-E\n", "  - E\n", "E\n"}, Len: lim(5, 6), Level: everything}.Space(),
		}
	})
	add("P14", "EPP templates", func() list {
		return list{
			oneAmongMany(opts("epp")[0], []string{"\x01", "\x01\n", "<% $x -%>\x01<%- $y %>"}, []string{"\n", " ", " \n", "<%", "<%%", "%%>", "%>", "<%= $b %>", "<%- $b -%>\n", "<%# c -%> ", "$b", "\\"}),
			sizes("P14"),
			characters("P14"),
			lists("P14"),
			token{Name: "epp-tags", Opts: opts("epp"), Alphabet: []string{"<%", "%>", "-%>", "<%-", "<%=", "<%#", "<%%", "%%>", "a", " ", "\n", "$x"}, Depth: lim(5, 6)}.Space(),
			token{Name: "epp-characters", Opts: opts("epp"), Alphabet: []string{"<", "%", ">", "-", "=", "#", "a", " ", "\n", "|"}, Depth: lim(6, 7)}.Space(),
			token{Name: "epp-after-tag", Opts: opts("epp"), Prefix: "<% $x -%>", Alphabet: []string{" ", "\t", "\r", "\n", "a", "<%-", "<%= 1 -%>", "<%#c-%>"}, Depth: lim(6, 7)}.Space(),
			token{Name: "epp-parameters", Opts: opts("epp"), Prefix: "<%-", Alphabet: []string{"|", "$x", "=", "1", ",", "%>", "-%>", "A", "a", "<%", " ", "*"}, Depth: lim(6, 7)}.Space(),
			token{Name: "epp-control", Opts: opts("epp"), Alphabet: []string{"<% if $a {", "%>", " -%>", "<% } %>", "<% } else {", "text", "\n", "<%= $b %>", "<%# c %>", "<% $d.each |$e| {", "<%-", " %>x<%= f("}, Depth: lim(5, 6)}.Space(),
			product{Name: "epp-layout", Opts: opts("epp"), Pos: [][]string{{"", "a", " ", "a \n", "\n", "\xff"}, {"<%", "<%-", "<%=", "<%#"}, {"", " ", "\n", " $x ", " |$p| ", "$y+1", " 'z' "}, {"%>", "-%>", ""}, {"", "b", "\n", " \n", "  c", "\t\n\nd", "\r\ne"}, {"", "<%-", "<%= 1 %>", "<% 2 -%>\n"}}}.Space(),
			nest{Name: "epp-forms", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 3), Wrap: func(s string) string { return "a <%= " + s + " %> b" }}.Space(),
			nest{Name: "epp-blocks", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 3), Wrap: func(s string) string { return strings.ReplaceAll("<% "+s+" %>", "{ ", "{ %>x<%- ") }}.Space(),
		}
	})
	add("P15", "Names, keywords, variables, and regexp versus division", func() list {
		kw := keywordsAndNames()
		return list{
			oneAmongMany(opts("plain")[0], []string{"$x = /\x01/ / 2", "# \x01\n$y", "/*\x01*/ ]", "$x\x01 = ]"}, []string{"\\/", "/", "\\", "\n", "*", "*/", "#", "/*", "\r\n", "[", "\t"}),
			sizes("P15"),
			characters("P15"),
			token{Name: "name-characters", Alphabet: []string{"a", "A", "_", "1", "::", ":", "-", "é", "Z", "z"}, Depth: lim(6, 7)}.Space(),
			token{Name: "variable-characters", Prefix: "$", Alphabet: []string{"a", "A", "_", "1", "::", ":", "-", "é", " ", "0", "$"}, Depth: lim(6, 7)}.Space(),
			token{Name: "regexp-or-division", Alphabet: []string{"/", "a", "1", "$b", " ", "(", ")", "]", "[", "\\", "A", "\n", "}", "{", ",", "/*"}, Depth: lim(5, 6)}.Space(),
			product{Name: "regexp-context", Pos: [][]string{regexpContexts(), {"", " ", "\n"}, {"/a/", "/ a /", "/a", "/", "//", "/[/]/", "/\\//", "/a\n/", "/a\\", "/*/"}, {"", "/", " b", ", c", "\n", "/ 2"}}}.Space(),
			product{Name: "regexp-in-interpolation", Pos: [][]string{regexpContexts(), {"", " ", "\n"}, {"\"${", "\"${\n", "\"$b${", "@(\"E\")\n${"}, {"/a/", "{a => 1}", "|$x| {}", "[1]", "(1)", "-1", "b", "$b", "/ 2", "B", "'c'", "\"${/d/}\"", "=> 1", "? {1 => 2}", "if", "{", "@(F)\nx\nF\n"}, {"}", " }", "\n}"}, {"\"", "\nE\n", "\" / 2", "\" /e/"}}}.Space(),
			product{Name: "keywords", Opts: opts("plain", "tasks", "workflow", "tasks+workflow"), Sep: " ", Pos: [][]string{kw, {"", "{", "(", ":", "=>", "::", "$a", "a", "A", "1", "+", "==", "[", "|$x|", ",", "}", "."}, {"", "}", "1", "a", "{", ")", "'x'"}}}.Space(),
			product{Name: "keyword-positions", Opts: opts("plain", "tasks", "workflow"), Pos: [][]string{keywordPositions(), kw, {"", " ", "::a", "x", "_", "1", "A", "("}, {"", "=> 1 }", "}", ": }", "]", ")", " {}"}}}.Space(),
			token{Name: "operator-characters", Alphabet: spaces.Chars("+-*/%=<>!~|&@?:;,.^ a1"), Depth: lim(4, 5)}.Space(),
			product{Name: "names-with-dashes", Pos: [][]string{{"", "$", "'x' ", "class ", "include ", "A<|", "a{x: "}, {"a", "A", "::a", "a::B", "A::b", "_a", "a1", "1a", "a_", "A1::B_", "a::b::c", "::A::B", "aB"}, {"", "-", "--", "-b", "-1", "- b", "-b-c", "::", "::-", "-::c", "_", "é", "-_"}, {"", " {}", "|>", " => 1}", "(1)", "[1]", ".c"}}}.Space(),
			nest{Name: "literals-in-everything", Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Join(spaces.Literals, spaces.Strings), Depth: lim(3, 3)}.Space(),
		}
	})
	add("P17", "Rejected programs are reported with the issue that describes what is wrong", func() list {
		lv := drive.Accept | drive.Code
		ins := []string{"{", "}", "(", ")", "[", "]", ",", ";", ":", "=>", "|", "'", "\"", "$", "\n", "%", "@", "#", "/*", "class ", "=", "\x00", "\xff"}
		return append(list{
			mutate{Name: "edited-forms", Corpus: oneLiners(), Ins: ins, Range: lim(6, 40), Level: lv}.Space(),
			mutate{Name: "edited-programs", Corpus: programs(), Ins: ins, Range: lim(8, 60), Level: lv}.Space(),
			mutate{Name: "edited-plans-and-steps", Opts: opts("workflow+tasks", "plain"), Corpus: filledAll(spaces.Join(spaces.Plans, spaces.Steps)), Ins: ins, Range: lim(6, 40), Level: lv}.Space(),
			mutate{Name: "edited-epp", Opts: opts("epp"), Corpus: eppPrograms(), Ins: append([]string{"<%", "%>", "-%>", "<%#"}, ins...), Range: lim(6, 40), Level: lv}.Space(),
			token{Name: "unexpected-tokens", Alphabet: w(`a A $a 1 'x' { } ( ) [ ] , ; : => . | @ class if case type ? = + %`), Sep: " ", Depth: lim(3, 5), Level: lv}.Space(),
		}, again(lv, 1, grammar...)...)
	})
	add("P18", "Reported errors point at the place that is wrong", func() list {
		lv := drive.Accept | drive.Code | drive.ErrLoc
		ins := []string{"{", "}", ")", "]", ",", "=>", "'", "\"", "$", "\n", "\r\n", "é", "%", "@", "\n\n", "/*", "1a", "\t"}
		return append(list{
			characters("P18"),
			mutate{Name: "edited-forms", Corpus: oneLiners(), Ins: ins, Range: lim(3, 30), Level: lv}.Space(),
			mutate{Name: "edited-programs", Corpus: programs(), Ins: ins, Range: lim(4, 40), Level: lv}.Space(),
			mutate{Name: "edited-plans-and-steps", Opts: opts("workflow+tasks"), Corpus: filledAll(spaces.Join(spaces.Plans, spaces.Steps)), Ins: ins, Range: lim(4, 30), Level: lv}.Space(),
			mutate{Name: "edited-epp", Opts: opts("epp"), Corpus: eppPrograms(), Ins: append([]string{"<%", "%>", "<%#"}, ins...), Range: lim(4, 30), Level: lv}.Space(),
			token{Name: "tokens-and-newlines", Alphabet: w(`a $a { } ( [ ] , é \n 'x' => "\n$b" @ /*\n*/ #\n`), Depth: lim(5, 6), Level: lv}.Space(),
			token{Name: "errors-after-heredoc", Prefix: "$x = @(E)\n é\n E\n", Alphabet: w(`a $a { } ( [ ] , é \n 'x' => "${ @ \x20`), Depth: lim(4, 5), Level: lv}.Space(),
			token{Name: "errors-within-strings", Prefix: "$x = \"é\n", Alphabet: []string{"${", "}", "\n", "a", "\\u", "é", "\"", "[", "(", " ", "{", "1a"}, Depth: lim(5, 6), Level: lv}.Space(),
		}, again(lv, 1, grammar...)...)
	})
	add("P19", "Syntax tree nodes know where in the source they are", func() list {
		lv := drive.Accept | drive.Shape | drive.Loc
		return append(list{
			characters("P19"),
			nest{Name: "nested-forms", Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(3, 3), Level: lv}.Space(),
			nest{Name: "nested-forms-spaced", Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2), Level: lv, Wrap: func(s string) string {
				return " \n# é\n" + strings.NewReplacer(" ", " /* é */\n ", "(", "( ", ")", " )", ",", " ,").Replace(s) + "\n\n"
			}}.Space(),
			nest{Name: "nested-plans-and-steps", Opts: opts("workflow+tasks"), Outer: spaces.Join(spaces.Plans, spaces.Steps), Middle: spaces.Join(spaces.Steps, spaces.Control), Inner: spaces.Join(spaces.Core(), spaces.Steps), Depth: lim(2, 3), Level: lv}.Space(),
			nest{Name: "nested-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 2), Level: lv, Wrap: func(s string) string { return "<%- | $p = 1 | -%>é\n <%= " + s + " %> b\n<% " + s + " -%>  " }}.Space(),
			token{Name: "postfix", Alphabet: w(`$a a A [ ] ( ) , . | => \x20 \n 1`), Depth: lim(5, 6), Level: lv}.Space(),
			token{Name: "operators", Alphabet: w(`$a - ! ( ) + * ? { => } if [ ] ,`), Sep: " ", Depth: lim(5, 6), Level: lv}.Space(),
			token{Name: "strings", Prefix: "\"", Alphabet: []string{"${", "}", "$", "a", "\"", "::", "[1]", ".b", "é", "\n", "\\n", " "}, Depth: lim(5, 6), Level: lv}.Space(),
			token{Name: "statements", Alphabet: w(`include a 1 , ; { } 'b' : => c [ ] \n`), Sep: " ", Depth: lim(5, 6), Level: lv}.Space(),
			seq{Name: "after-heredoc", Items: []string{"@(A)", "@(\"B\")", "+ ", "\n", "a é\n A\n", "b$c ${d.e}\n| B\n", "$x", "[", "]", " 'y' "}, Len: lim(5, 6), Level: lv}.Space(),
		}, again(lv, 1, grammar...)...)
	})
	add("P20", "Workflow steps", func() list {
		o := opts("workflow")
		return list{
			sizes("P20"),
			lists("P20"),
			token{Name: "steps", Opts: opts("workflow", "workflow+tasks"), Alphabet: w(`workflow action resource stateHandler a { } => type ( ) , b`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "step-properties", Opts: o, Prefix: "action a {", Alphabet: w(`parameters=>( returns=>( type=> iteration x => ( ) $y , }{} { A = b 'c' [ ]`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "resource-properties", Opts: o, Prefix: "resource a {", Alphabet: w(`parameters=>( returns=>( external_id type=> => ( ) $y , } { A b =`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "state", Opts: o, Prefix: "resource a {} {", Alphabet: w(`x => $y b ( ) [ ] , } 'c' { 1 +`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "iteration", Opts: o, Prefix: "workflow a {} ", Alphabet: w(`{ } each times range other ( ) $x , | $y = 1 A`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "iteration-deep", Opts: o, Prefix: "action a {} $z = each(", Alphabet: w(`) $x , | A $y {} = 1 |$y| |$y|{} x {`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "nested-steps", Opts: o, Prefix: "workflow a {} {", Alphabet: w(`workflow action resource b {} { } function c() ; , => stateHandler d`), Sep: " ", Depth: lim(6, 7)}.Space(),
			nest{Name: "step-nesting", Opts: opts("workflow", "workflow+tasks"), Outer: spaces.Steps, Middle: spaces.Join(spaces.Steps, spaces.Collections, spaces.Control), Inner: spaces.Join(spaces.Core(), spaces.Steps), Depth: lim(2, 3), Level: everything}.Space(),
			product{Name: "step-names", Opts: o, Sep: " ", Pos: [][]string{w(`workflow action resource stateHandler foo`), definitionNames(), {"{}", "{ }", "{ parameters => $x }", "{ returns => A $y }", "{ type => B }", "{ parameters => ($x, $y = 1), returns => ($z) }"}, {"{}", "", "{ function read() {} }", "{ a => 1 }", "{ resource b {} {} }"}, {"", "each($i) |$j|", "$k = times(3) |$l|"}}}.Space(),
			mutate{Name: "edited-steps", Opts: o, Corpus: stepPrograms(), Ins: []string{"{", "}", "(", ")", ",", "=>", "$x", " a ", "A", "=", "|", ";", "1"}, Range: lim(12, 60)}.Space(),
		}
	})
	add("P21", "Options only change what they are documented to change", func() list {
		a := []string{"`x`", "\"\\x41\"", "plan p {}", "workflow w {} {}", "<%", "%>", " ", "1", "plan", "workflow", "action", "$a", "resource r {} {}"}
		return append(list{
			seq{Name: "option-features", Opts: all32(), Items: a, Len: lim(3, 4), Level: everything}.Space(),
			nest{Name: "all-forms-in-all-configurations", Opts: all32(), Outer: spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps), Middle: spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps), Inner: spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps), Depth: lim(1, 2), Level: everything}.Space(),
			nest{Name: "nested-forms-in-non-epp-configurations", Opts: opts("tasks", "workflow", "hex", "backtick", "tasks+workflow+hex+backtick"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2), Level: everything}.Space(),
			token{Name: "option-keywords", Opts: opts("plain", "tasks", "workflow", "tasks+workflow"), Alphabet: w(`plan workflow action resource step a { } => ( ) 'x' :`), Sep: " ", Depth: lim(4, 5), Level: everything}.Space(),
			token{Name: "option-characters", Opts: all32(), Alphabet: []string{"`", "\"", "\\x", "4", "1", "<%", "%>", "a"}, Depth: lim(4, 5), Level: everything}.Space(),
		}, with("tasks+workflow+hex+backtick", 1, grammar...)...)
	})
	add("P16", "Layout and comments do not change the meaning of a program", layoutSpaces)
	add("P35", "Single expression mode", func() list {
		o := opts("single", "single+epp", "single+tasks+workflow")
		return append(list{
			token{Name: "single-expressions", Opts: o, Alphabet: w(`$a 1 + ( ) [ ] , ; a { } if => 'x' \n`), Sep: " ", Depth: lim(5, 6), Level: everything}.Space(),
			nest{Name: "single-forms", Opts: o, Outer: spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2), Level: everything}.Space(),
			nest{Name: "single-followed-by-more", Opts: opts("single"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2), Level: everything, Wrap: func(s string) string { return s + " $b" }}.Space(),
			seq{Name: "single-sequences", Opts: o, Items: []string{"1", " ", "\n", ";", ",", "$a", "#c\n", "}", "'x'", "include", "<%= ", " %>"}, Len: lim(4, 5), Level: everything}.Space(),
		}, with("single", 1, grammar...)...)
	})
}
