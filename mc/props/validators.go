package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

type judge = func(c engine.Case) engine.Verdict

// judged replaces how the cases of the spaces are judged
func judged(j judge, l ...*engine.Space) list {
	for _, s := range l {
		s.Judge = j
	}
	return l
}

// reuse explores the spaces of other properties, with smaller bounds, using another judge
func reuse(j judge, shrink int, ids ...string) list { return judged(j, again(0, shrink, ids...)...) }

// checkerFor returns a new validator
func checkerFor(flavour, strict string) validator.Checker {
	switch flavour {
	case "tasks":
		return validator.NewTasksChecker()
	case "workflow":
		return validator.NewWorkflowChecker()
	}
	return validator.NewChecker(validator.Strict(strict))
}

func run(e parser.Expression, flavour, strict string) []issue.Reported {
	switch flavour {
	case "tasks":
		return validator.ValidateTasks(e).Issues()
	case "workflow":
		return validator.ValidateWorkflow(e).Issues()
	}
	return validator.ValidatePuppet(e, validator.Strict(strict)).Issues()
}

func severity(s string) issue.Severity {
	switch s {
	case "error":
		return issue.SeverityError
	case "warning":
		return issue.SeverityWarning
	case "deprecation":
		return issue.SeverityDeprecation
	}
	return issue.SeverityIgnore
}

// sameIssues compares reported issues to what the model expects
func sameIssues(src string, want []model.Issue, got []issue.Reported) string {
	type key struct {
		code      string
		sev       issue.Severity
		line, pos int
	}
	text := func(m map[key][]string) string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprintf("%s %s@%d:%d x %d", k.code, k.sev, k.line, k.pos, len(v)))
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	w, g := map[key][]string{}, map[key][]string{}
	words := map[key][][]string{}
	for _, i := range want {
		l, p := drive.LineCol(src, i.At.Off)
		k := key{i.Code, severity(i.Severity), l, p}
		w[k] = append(w[k], "")
		words[k] = append(words[k], i.Words)
	}
	for _, i := range got {
		loc := i.Location()
		if loc == nil {
			return "issue has no location: " + string(i.Code())
		}
		if loc.File() != "f.pp" {
			return "issue has file " + loc.File()
		}
		m := i.Error()
		if f := drive.MessageFault(m); f != "" {
			// A source that contains such text
			if !strings.Contains(src, "%!") && !strings.Contains(src, "nil") {
				return f
			}
		}
		k := key{string(i.Code()), i.Severity(), loc.Line(), loc.Pos()}
		g[k] = append(g[k], m)
	}
	for k := range w {
		if len(w[k]) != len(g[k]) {
			return fmt.Sprintf("expected issues {%s}, got {%s}", text(w), text(g))
		}
	}
	for k := range g {
		if len(w[k]) == 0 {
			return fmt.Sprintf("expected issues {%s}, got {%s}", text(w), text(g))
		}
	}
	for k, ws := range words {
		for _, wl := range ws {
			found := false
			for i, m := range g[k] {
				ok := true
				lm := strings.ToLower(m)
				for _, x := range wl {
					if !strings.Contains(lm, strings.ToLower(x)) {
						ok = false
					}
				}
				if ok {
					found = true
					g[k] = append(append([]string{}, g[k][:i]...), g[k][i+1:]...)
					break
				}
			}
			if !found {
				return fmt.Sprintf("expected message of %s to contain %q, got %q", k.code, wl, g[k])
			}
		}
	}
	return ""
}

type mode struct{ flavour, strict string }

// judgeIssues compares the issues that are reported by validators with those of the model
func judgeIssues(modes ...mode) judge {
	return func(c engine.Case) engine.Verdict {
		out := drive.RunWith(parser.CreateParser(drive.Options(c.Options())...), c.Src(), c.Options().Single)
		if out.Panic != "" || out.Err != nil || out.Expr == nil {
			return engine.Verdict{Rejected: true}
		}
		r := drive.Reify(out.Expr)
		vd := engine.Verdict{}
		for _, m := range modes {
			vd.Transitions++
			want := model.Validate(r.Root, m.flavour, m.strict)
			vd.Validated++
			if s := sameIssues(c.Src(), want, run(out.Expr, m.flavour, m.strict)); s != "" {
				vd.Msg = m.flavour + "/" + m.strict + ": " + s
				return vd
			}
		}
		return vd
	}
}

func init() {
	puppet := judgeIssues(mode{"puppet", "error"})
	anyForm := spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps)
	all := opts("tasks+workflow")
	rules := func(j judge, nested int) list {
		return append(judged(j,
			nest{Name: "nested-forms", Opts: all, Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(nested, 3)}.Space(),
			nest{Name: "rules-in-everything", Opts: all, Outer: anyForm, Middle: spaces.Join(spaces.Control, spaces.Definitions, spaces.Steps), Inner: violations(), Depth: lim(3, 3)}.Space(),
			nest{Name: "rules-in-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: violations(), Depth: lim(2, 2), Wrap: func(s string) string { return "a <% " + s + " %> b" }}.Space(),
			product{Name: "epp-parameters", Opts: opts("epp"), Pos: [][]string{{"<%- |", "<% |"}, paramList(), {"", ", ", ","}, append(paramList(), ""), {"| -%>", "| %>", "| >> A -%>"}, {"", " a <%= $x %>", "<% 1; 2 %>"}}}.Space(),
			token{Name: "single-expressions", Opts: opts("single"), Alphabet: w(`$a 1 { } class b function type A = ( ) define if`), Sep: " ", Depth: lim(5, 6)}.Space(),
			product{Name: "definition-names", Opts: all, Sep: " ", Pos: [][]string{w(`class define function plan application type`), validatorNames(), {"", "($x)", "inherits b", "= A", "= {}", "($x, $x)"}, {"{}", "{ 1 }", "", "{ function f {} }"}}}.Space(),
			product{Name: "parameters", Opts: all, Pos: [][]string{{"class a(", "define a(", "function a(", "plan a(", "application a(", "a |", "type A = B{x => a |"}, paramList(), {"", ", ", ","}, append(paramList(), ""), {")", "|", ") >> A", ") >> Produces", "| >> 'a'", "| >> Application[1]", "| {$x}}"}, {" {}", " { }", " {1}", " { $x = 1 }", ""}}}.Space(),
			product{Name: "parameter-lists", Opts: all, Pos: [][]string{{"class a(", "function a(", "a |", "plan a("}, paramList(), {", "}, w(`$x *$x *$y $x=1 $name $1 *$x::y`), {", "}, w(`$x *$x *$z $y=($q=1) *$title`), {", "}, w(`$x *$w $z`), {")", "|"}, {" {}"}}}.Space(),
			manyIssues(all[0]),
			amongMany(all[0], true),
			branches(all[0]),
			product{Name: "hash-keys", Pos: [][]string{{"$x = {", "a({", "f("}, hashKeys(), {" => 1, "}, hashKeys(), {" => 2"}, {"", ", 'x' => 3, a => 1", ", 1 => 5"}, {"}", "})", ")"}}}.Space(),
			product{Name: "default-values", Pos: [][]string{{"function a($x = ", "f |$x = ", "class a($x = "}, {"$y = 1", "[$y = 1]", "f($y = 1)", "f() |$z| { $y = 1 }", "{a => ($y = 1)}", "if $q { $y = 1 } else { 2 }", "$y += 1", "\"${$y = 1}\"", "1", "[[$y = 1], $z = 2]"}, {") {}", "| {}", ", $w = ($v = 1)) {}"}}}.Space(),
			token{Name: "blocks", Alphabet: w(`$a 1 f() { } if else ( ) = class define b node`), Sep: " ", Depth: lim(6, 7)}.Space(),
			token{Name: "assignments", Alphabet: w(`$a $a::b $1 [ ] , = += -= a ( )`), Depth: lim(7, 8)}.Space(),
			token{Name: "selectors-and-cases", Prefix: "$x = $a ? {", Suffix: "}", Alphabet: w(`default => 1 , ( ) class\x20c{} A<||>`), Depth: lim(6, 7)}.Space(),
			token{Name: "cases", Prefix: "case $a {", Suffix: "}", Alphabet: w(`default : {} , ( ) 1 function\x20c{} {$x=1}`), Depth: lim(6, 7)}.Space(),
			token{Name: "queries", Prefix: "A<|", Alphabet: w(`a == != < and or ( ) 1 'x' $b =~ [1] ! .c in "y" undef |>`), Sep: " ", Depth: lim(5, 6), Suffix: "|>"}.Space(),
			product{Name: "attributes", Pos: [][]string{w(`file{'t': @file{'t': @@file{'t': File{ File['t']{ @File{ @@File['t']{ A<||>{ A<<||>>{ @class{'t': class{'t':`), w(`a=>1 a+>1 *=>$h`), {"", ",b+>2", ",*=>$i", ",*=>$i,*=>$j", ";'u':*=>$k"}, w(`} }}`)}}.Space(),
			product{Name: "hosts", Sep: " ", Pos: [][]string{{"node"}, hosts(), {"", ",", "inherits"}, append(hosts(), ""), {"{}", "{ 1 }", "{ f() }"}}}.Space(),
			product{Name: "type-mappings", Pos: [][]string{{"type "}, {"Runtime", "Runtime['go']", "Runtime['go', 'x']", "Runtime['go', [/a/, 'b']]", "Runtime['go', [/a/, \"${b}\"]]", "Runtime['go', ['a', 'b']]", "Runtime['go', [/a/, 'b'], 1]", "Runtime[[/a/, 'b']]", "Runtime['go', [/a/]]", "Other['go', [/a/, 'b']]", "runtime", "A", "A::Runtime['go', 'x']"}, {" = "}, {"A", "A[1]", "[/a/, 'b']", "[/a/, 'b', 1]", "'x'", "a", "$x", "['a', 'b']", "[/a/, b]", "a[1]", "[/a/, A]", "{a=>1}"}, {"", "\n1"}}}.Space(),
			product{Name: "capability-mappings", Sep: " ", Pos: [][]string{{"A", "a", "A::B", "::A", "a::b", "A[1]", "A['x']", "A[b]", "A[C]", "A[b, c]", "$a", "'x'", "A[1+1]", "private"}, {"produces", "consumes"}, {"A", "A::B", "::A", "a", "a::B", "A::b", "::a"}, {"{ }", "{ a => 1 }", "{ * => $x }", "{ a +> 1 }"}}}.Space(),
			product{Name: "calls", Pos: [][]string{{"", "$x = "}, {"a", "A", "A[1]", "A[1][2]", "$a", "$a[1]", "a[1]", "a::b", "A::B", "a.b", "A.b", "(a)", "1", "'x'", "a()", "private", "if"}, {"(1)", "() |$x| {}", ".b(1)", ".'b'(1)", ".B", ".$b", ".b.c", ".1", "[2](3)", ".\"x\"", " |$x| {}"}}}.Space(),
			product{Name: "rvalues", Opts: all, Pos: [][]string{{"$x + ", "!", "-", "[", "{", "{a=>", "if ", "case ", "case 1 {", "$x ? { ", "f(", "(", "$x = ", "$x -> ", "$x in ", "*", "\"${", "$y[", "$x =~ ", "a{b: c=>", "a{b: *=>", "unless "}, rvalues(), {"", "]", "}", "=>1}", ")", " {}", " ? {1=>2}", ":{}}", " => 1}", "}\"", " + 1", " -> 2"}}}.Space(),
		), reuse(j, 2, grammar...)...)
	}
	add("P29", "The Puppet validator reports exactly the violations of its rules", func() list { return rules(puppet, 3) },
		"the rules are those of the model in /verif/mc/model/validate.go, applied to the tree that the parser returned")
	add("P30", "Strictness only changes the severity of the soft rules", func() list {
		j := judgeIssues(mode{"puppet", "off"}, mode{"puppet", "warning"}, mode{"puppet", "error"})
		return append(judged(j,
			nest{Name: "rules-in-everything", Opts: all, Outer: anyForm, Middle: anyForm, Inner: violations(), Depth: lim(2, 3)}.Space(),
			product{Name: "hash-keys", Pos: [][]string{{"$x = {", "a({", "f("}, hashKeys(), {" => 1, "}, hashKeys(), {" => 2"}, {"", ", 'x' => 3, a => 1", ", 1 => 5"}, {"}", "})", ")"}}}.Space(),
			seq{Name: "issue-combinations", Opts: all, Items: violations(), Seps: []string{"\n"}, Len: lim(2, 3)}.Space(),
			token{Name: "blocks", Alphabet: w(`$a 1 f() { } if else ( ) = 'x' {b=>1,b=>2}`), Sep: " ", Depth: lim(6, 7)}.Space(),
		), judged(judgeStrict, strictSpace())...)
	})
	add("P31", "The tasks and workflow validators", func() list {
		return rules(judgeIssues(mode{"tasks", "error"}, mode{"workflow", "error"}), 2)
	}, "the rules are those of the model in /verif/mc/model/validate.go, applied to the tree that the parser returned")
	add("P32", "Validation is repeatable and leaves the syntax tree unchanged", func() list {
		l := list{separateValidators(), validatedManyTimes(), reuseSpace(), parserValidatorSpace()}
		return append(l, judged(judgeRepeat,
			branches(all[0]),
			amongMany(all[0], true),
			nest{Name: "nested-forms", Opts: all, Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 2)}.Space(),
			nest{Name: "rules-in-everything", Opts: all, Outer: anyForm, Middle: anyForm, Inner: violations(), Depth: lim(2, 3)}.Space(),
		)...)
	})
}

// violations is a list of sources that break the rules of validators
func violations() []string {
	return spaces.Lines(`
		$a[1] = 2
		[$a, $b[1]] = 2
		$a += 1
		$a -= 1
		$1 = 2
		$a::b = 1
		[$1, [$a::b]] = 1
		file { 'a': b +> 1 }
		file { 'a': * => $b }
		file { 'a': * => $b, * => $c }
		File { a +> 1 }
		File { * => $a }
		A<| |> { * => $a }
		@File { a => 1 }
		@@File['x'] { a => 1 }
		@class { 'a': }
		$x(1)
		a[1](1)
		A<| a < 1 |>
		A<| !a |>
		A<| (a == 1) or [1] |>
		'x'.'y'
		$a.$b
		$a.B
		a produces b { }
		$x produces A { }
		case 1 { default: {} default, default: {} }
		$x = 1 ? { default => 1, default => 2 }
		1 + (class a { })
		!(A<| |>)
		[function f {}]
		{ a => type A = B }
		1; 2
		if 1 { 2 } ; 3
		function f(*$x, $y) { }
		function f($x, $x) >> 'a' { }
		function F { }
		function application { }
		function integer { }
		f |*$x, $y| >> Application { }
		class a(*$x, $name) { 1 }
		class A { f() }
		define a($title) { 1 }
		node 'a b' { }
		node "a${b}" { 1 }
		node "a b", /x y/ { f() }
		function f($1, $A, $x = ($y = 1)) { }
		function f($x::y) { }
		$x = {a => 1, 'a' => 2, "a" => 3}
		$x = {[1] => 1, [1] => 2, /a/ => 3, '/a/' => 4}
		$x = {undef => 1, default => 2, undef => 3, 1 => 4, 1.0 => 5, 0x1 => 6}
		type Integer = A
		type a = B
		type A::b = B
		type A = 'x'
		type A = Consumes
		type Runtime['a', [/b/, 'c']] = D
		type Runtime['a', 'b'] = [/c/, 'd']
		type A[1] = B
		private
		attr
		notice(private)
		site { 1 }
		application a { }
		workflow w { } { resource r { } { } function f { } }
		action a { } { }
		plan p { 1 }
		plan P($x, $x) { }
		$a -> 1
		A<| |> -> (class b { })
		$x = @(E)¶a¶E
		if $x { class c { } }
		class c { function f { } type T = U }
		define d { define e { } node f { } }
		`)
}

// manyIssues consists of programs that violate the same rule any number of times
func manyIssues(o model.Opt) *engine.Space {
	s := &engine.Space{Name: "many-issues"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := counts(130)
		if tier == "thorough" {
			ns = counts(1100)
		}
		s.Bound = fmt.Sprintf("each violation {%v} times, in sequence and within each other", ns)
		for _, src := range filledAll(violations()) {
			for _, n := range ns {
				src, n := src, n
				tasks = append(tasks, func(v *engine.Visitor) {
					v.Source(o, strings.Repeat(src+"\n", n))
					v.Source(o, strings.Repeat("if $a {", n)+src+strings.Repeat("}", n))
					v.Source(o, strings.Repeat("class a {\n", n)+src+strings.Repeat("}", n))
				})
			}
		}
		return
	}
	return s
}

// amongMany consists of programs with one or two elements that break a rule among any number of those that don't
func amongMany(o model.Opt, some bool) *engine.Space {
	s := &engine.Space{Name: "among-many"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := []int{0, 1, 2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257}
		if some {
			ns = counts(270)
		}
		if tier == "thorough" {
			ns = counts(2100)
		}
		s.Bound = fmt.Sprintf("two elements that break a rule, alone or with each other, at the start, in the middle and at the end of {%v} others that differ from each other", ns)
		for _, c := range []struct{ pre, good, sep, a, b, post string }{
			{"class a(", "$p%d", ", ", "$x", "$x = 1", ") { }"},
			{"class a(", "$p%d", ", ", "$name", "$p1", ") { }"},
			{"define a(", "$p%d = %[1]d", ", ", "*$x", "$title", ") { }"},
			{"function a(", "$p%d", ", ", "$x", "$x", ") { }"},
			{"function a(", "$p%d", ", ", "*$x", "$y::z", ") { }"},
			{"plan a(", "A $p%d", ", ", "$1", "$x", ") { }"},
			{"f() |", "$p%d", ", ", "$x", "B $x", "| { }"},
			{"$x = {", "k%d => 1", ", ", "k0 => 2", "'k1' => 3", "}"},
			{"$x = {", "%d => 1", ", ", "0x1 => 2", "'1' => 3", "}"},
			{"$x = {", "'%d' => 1", ", ", "[a] => 2", "[a] => 3", "}"},
			{"$x = {", "{%d => 1} => 1", ", ", "{0 => 1} => 2", "undef => 3", "}"},
			{"f(", "k%d => 1", ", ", "a => 2", "a => 3", ")"},
			{"case $a {", "%d: { }", " ", "default: { }", "default: { 1; 2 }", "}"},
			{"case $a {", "%d: { }", " ", "1, default: { }", "default, default: { f() }", "}"},
			{"case $a { ", "%d", ", ", "default", "default", ": { } }"},
			{"$x = $a ? {", "%d => 1", ", ", "default => 1", "default => 2", "}"},
			{"", "f(%d)", "\n", "1", "$b[1] = 2", ""},
			{"function a() {", "f(%d)", ";", "'x'", "class b { }", "}"},
			{"class a {", "$v%d = 1", "\n", "function f { }", "$v0 += 1", "}"},
			{"if $a {", "class c%d { }", "\n", "1", "f()", "}"},
			{"file { 'a': ", "a%d => 1", ", ", "* => $x", "* => $y", "}"},
			{"file { 'a': ", "a%d => 1", ", ", "b +> 1", "* => $y", "}"},
			{"File { ", "a%d => 1", ", ", "b +> 1", "* => $y", "}"},
			{"A<| |> { ", "a%d => 1", ", ", "b +> 1", "* => $y", "}"},
			{"file { ", "'t%d': ", "; ", "'u': b +> 1", "'v': * => $x, * => $y", "}"},
			{"@class { ", "'t%d': ", "; ", "'u': b => 1", "$x: ", "}"},
			{"node ", "a%d", ", ", "'a b'", "\"a${b}\"", "{ }"},
			{"A<| ", "a == %d", " and ", "a < 1", "!b", " |>"},
			{"$x = [", "%d", ", ", "private", "class b { }", "]"},
			{"[", "$v%d", ", ", "$1", "$a::b", "] = $y"},
			{"f(", "%d", ", ", "attr", "$a += 1", ")"},
			{"$x = \"", "${v%d}", " ", "${private}", "${$a += 1}", "\""},
			{"A", "[b%d]", "", "[1]", "[$x = 1]", " produces C { }"},
			{"type Runtime['go', ", "[/%d/, 'a']", ", ", "['b', 'c']", "'x'", "] = B"},
			{"type A = B[", "%d", ", ", "attr", "function f { }", "]"},
			{"workflow w { } {", "resource r%d { } { }", "\n", "function f { }", "1", "}"},
			{"", "class c%d { }", "\n", "class A { }", "class c0($x, $x) { }", ""},
			{"", "function f%d { }", "\n", "function F { }", "function application { }", ""},
			{"", "type T%d = A", "\n", "type Integer = A", "type A::b = B", ""},
			{"site {", "f(%d)", "\n", "1", "class b { }", "}"},
			{"application a {", "f(%d)", "\n", "1", "class b { }", "}"},
		} {
			for _, n := range ns {
				c, n := c, n
				tasks = append(tasks, func(v *engine.Visitor) {
					var good []string
					for i := 0; i < n; i++ {
						g := c.good
						if strings.Contains(g, "%") {
							g = fmt.Sprintf(g, i)
						}
						good = append(good, g)
					}
					put := func(at ...string) {
						l := []string{}
						for i := 0; i < 3; i++ {
							if at[i] != "" {
								l = append(l, at[i])
							}
							if i == 0 {
								l = append(l, good[:n/2]...)
							} else if i == 1 {
								l = append(l, good[n/2:]...)
							}
						}
						v.Source(o, c.pre+strings.Join(l, c.sep)+c.post)
					}
					x := []string{"", c.a, c.b}
					for _, a := range x {
						for _, b := range x {
							for _, d := range x {
								put(a, b, d)
							}
						}
					}
				})
			}
		}
		return
	}
	return s
}

func validatorNames() []string {
	return w(`a A a::b ::a A::B ::A a_b a1 application produces consumes integer Integer Object String semver type A::b a::integer name title f Type TypeSet`)
}

func paramList() []string {
	return w(`$x *$x $y $x=1 A\x20$x $name $title $1 $x::y $X $_z *$name $x1 $0a`)
}

func hashKeys() []string {
	return []string{"a", "'a'", "\"a\"", "A", "'A'", "1", "1.0", "0x1", "'1'", "true", "'true'", "undef", "'undef'", "''", "default", "'default'", "/a/", "'/a/'", "[1]", "['1']", "[]", "{}", "{a=>1}", "{b=>1}", "$a", "(1)", "\"${a}\"", "-1", "private", "a::b", "[a, $b]", "[[1]]", "[A]", "['A']", "@(\"E\")\na\n|- E\n", "[undef]", "1 + 1", "{[1]=>1}", "{undef=>1}", "false", "{}"}
}

func hosts() []string {
	return []string{"a", "a.b", "'a'", "'a b'", "\"a\"", "\"a b\"", "\"a${b}\"", "\"${'x'}\"", "/a b/", "default", "1.2", "a-b", "'a_b.c-d'", "'é'", "''", "\"é\"", "'a,b'", "a.1"}
}

func rvalues() []string {
	return []string{"class b {}", "(class b {})", "A<||>", "(A<||>)", "-A<||>", "!!(A<||>)", "function f {}", "1", "type T = U", "$z", "node n {}", "define d {}", "a { 'b': }", "f()", "action g {} {}", "plan p {}", "site {}", "application h {}", "A produces b {}", "type T {}", "type Runtime['a','b'] = C", "if 1 {}", "(if 1 { class i {} })", "-(-1)", "*[A<||>]"}
}

// strictSpace consists of the names of strictness values
func strictSpace() *engine.Space {
	s := &engine.Space{Name: "strictness-names", Bound: "all strings over the letters of the names up to a length, all names in all letter cases"}
	s.Tasks = func(tier string) []func(v *engine.Visitor) {
		n := 3
		if tier == "thorough" {
			n = 5
		}
		return []func(v *engine.Visitor){func(v *engine.Visitor) {
			var rec func(p string, n int)
			rec = func(p string, n int) {
				v.Check(model.Opt{}, p)
				if n > 0 {
					for _, c := range "ofFeErRwarnig -0" {
						rec(p+string(c), n-1)
					}
				}
			}
			rec("", n)
			for _, name := range []string{"off", "warning", "error"} {
				for m := 0; m < 1<<uint(len(name)); m++ {
					b := []byte(name)
					for i := range b {
						if m&(1<<uint(i)) != 0 {
							b[i] -= 32
						}
					}
					v.Check(model.Opt{}, string(b))
					v.Check(model.Opt{}, string(b)+"x")
				}
			}
		}}
	}
	return s
}

func judgeStrict(c engine.Case) (vd engine.Verdict) {
	want := strings.ToLower(c.Src())
	if want == "" {
		want = "off"
	}
	ok := want == "off" || want == "warning" || want == "error"
	defer func() {
		if x := recover(); x != nil {
			vd = engine.Verdict{Rejected: true, Validated: 1}
			if ok {
				vd.Msg = fmt.Sprintf("strictness %q is not accepted: %v", c.Src(), x)
			}
		}
	}()
	s := validator.Strict(c.Src())
	vd.Validated = 1
	if !ok {
		vd.Msg = fmt.Sprintf("strictness %q is accepted as %s", c.Src(), s)
	} else if s.String() != want {
		vd.Msg = fmt.Sprintf("strictness %q is %s", c.Src(), s)
	}
	return
}

func issueList(l []issue.Reported) string {
	var r []string
	for _, i := range l {
		r = append(r, fmt.Sprintf("%s %s %s:%d:%d %s", i.Code(), i.Severity(), i.Location().File(), i.Location().Line(), i.Location().Pos(), i.Error()))
	}
	return strings.Join(r, "\n")
}

var allModes = []mode{{"puppet", "off"}, {"puppet", "warning"}, {"puppet", "error"}, {"tasks", "error"}, {"workflow", "error"}}

// judgeRepeat validates the same tree repeatedly with new validators, and with the same validator
func judgeRepeat(c engine.Case) engine.Verdict {
	out := drive.Run(c.Src(), c.Options())
	if out.Panic != "" || out.Err != nil {
		return engine.Verdict{Rejected: true}
	}
	before := drive.Reify(out.Expr).Root
	vd := engine.Verdict{}
	for _, m := range allModes {
		vd.Transitions += 3
		vd.Validated++
		a := issueList(run(out.Expr, m.flavour, m.strict))
		ck := checkerFor(m.flavour, m.strict)
		validator.Validate(ck, out.Expr)
		b := issueList(ck.Issues())
		validator.Validate(ck, out.Expr)
		d := issueList(ck.Issues())
		if a != b || b != d {
			vd.Msg = fmt.Sprintf("%s/%s: repeated validation differs: %q, %q, %q", m.flavour, m.strict, a, b, d)
			return vd
		}
	}
	after := drive.Reify(out.Expr).Root
	if s := model.SameShape(before, after); s != "" {
		vd.Msg = "validation changes tree: " + s
	} else if s := model.SameLoc(before, after); s != "" {
		vd.Msg = "validation changes location: " + s
	}
	return vd
}

// reuseSpace consists of all sequences of programs that are validated by the same validator
func reuseSpace() *engine.Space {
	progs := []string{"$x = 1", "1; 2", "class a { function f {} }", "{a => 1, 'a' => 2}", "application b { }", "workflow w {} { function f {} }", "", "if $a { define a {} }", "plan integer($x, $x) { }", "$a[1] = 2"}
	s := &engine.Space{Name: "validator-reuse", Bound: "all sequences of programs validated with one validator"}
	o := model.Opt{Tasks: true, Workflow: true}
	s.Judge = func(c engine.Case) engine.Verdict {
		vd := engine.Verdict{}
		for _, m := range allModes {
			ck := checkerFor(m.flavour, m.strict)
			// The issues of earlier validations and what they were when they were returned
			var lists [][]issue.Reported
			var texts []string
			for i, src := range c.Parts {
				out := drive.Run(src, o)
				vd.Transitions++
				if out.Err != nil || out.Panic != "" {
					continue
				}
				validator.Validate(ck, out.Expr)
				got, want := issueList(ck.Issues()), issueList(run(out.Expr, m.flavour, m.strict))
				vd.Validated++
				if got != want {
					vd.Msg = fmt.Sprintf("%s/%s: validation %d of %q gives %q, a new validator gives %q", m.flavour, m.strict, i+1, src, got, want)
					return vd
				}
				lists, texts = append(lists, ck.Issues()), append(texts, want)
				if i%2 == 0 {
					ck.Clear()
					if len(ck.Issues()) != 0 {
						vd.Msg = "issues remain after Clear"
						return vd
					}
				}
				for k, l := range lists {
					if t := issueList(l); t != texts[k] {
						vd.Msg = fmt.Sprintf("%s/%s: issues of validation %d were changed from %q to %q by the use of the validator for %q", m.flavour, m.strict, k+1, texts[k], t, src)
						return vd
					}
				}
			}
		}
		return vd
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 3
		if tier == "thorough" {
			n = 5
		}
		s.Bound += fmt.Sprintf(" (%d programs, length <= %d, all flavours)", len(progs), n)
		for _, p := range progs {
			p := p
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(l []string)
				rec = func(l []string) {
					if v.Stopped() {
						return
					}
					v.Check(o, l...)
					if len(l) < n {
						for _, q := range progs {
							rec(append(append([]string{}, l...), q))
						}
					}
				}
				rec([]string{p})
			})
		}
		return
	}
	return s
}

// validatedManyTimes consists of programs that are validated any number of times with one validator, then another
func validatedManyTimes() *engine.Space {
	progs := []string{"$x = 1", "1; 2", "class a { function f {} }", "{a => 1, 'a' => 2}", "if $a { define a {} }", "f([g([[1]])]) |$x| { $y = 2 }", "$a[1] = 2"}
	s := &engine.Space{Name: "validated-many-times"}
	o := model.Opt{Tasks: true, Workflow: true}
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		n, _ := strconv.Atoi(c.Parts[0])
		a, b := drive.Run(c.Parts[1], o), drive.Run(c.Parts[2], o)
		if a.Err != nil || b.Err != nil || a.Expr == nil || b.Expr == nil {
			return
		}
		for _, m := range allModes {
			ck := checkerFor(m.flavour, m.strict)
			wa, wb := issueList(run(a.Expr, m.flavour, m.strict)), issueList(run(b.Expr, m.flavour, m.strict))
			for i := 0; i <= n+2; i++ {
				e, want := a.Expr, wa
				if i == n {
					e, want = b.Expr, wb
				}
				validator.Validate(ck, e)
				vd.Transitions++
				vd.Validated++
				if got := issueList(ck.Issues()); got != want {
					vd.Msg = fmt.Sprintf("%s/%s: validation %d gives %q, a new validator gives %q", m.flavour, m.strict, i+1, got, want)
					return
				}
			}
		}
		return
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := []int{3, 5, 9, 17, 33, 65, 129, 257, 1025, 4097, 65537}
		if tier == "thorough" {
			ns = counts(66000)
		}
		s.Bound = fmt.Sprintf("each of %d programs validated {%v} times with one validator, then another program, then the first, all flavours", len(progs), ns)
		for _, n := range ns {
			for i, p := range progs {
				n, p, q := n, p, progs[(i+1)%len(progs)]
				tasks = append(tasks, func(v *engine.Visitor) { v.Check(o, strconv.Itoa(n), p, q) })
			}
		}
		return
	}
	return s
}

// parserValidatorSpace consists of all sequences of sources that are given to one ParserValidator
func parserValidatorSpace() *engine.Space {
	srcs := []string{"$x = 1", "1; 2", "class a { function f {} }", "class b { ", "'x", "\xff", "application c { }", "", "workflow w {} { function f {} }", "{a => 1, 'a' => 2}", "type A = {", "é = "}
	s := &engine.Space{Name: "parser-validator", Bound: "all sequences of sources given to one ParserValidator"}
	o := model.Opt{Tasks: true, Workflow: true}
	s.Judge = func(c engine.Case) engine.Verdict {
		vd := engine.Verdict{}
		for _, m := range allModes {
			pv := validator.NewParserValidator(parser.CreateParser(drive.Options(o)...), checkerFor(m.flavour, m.strict))
			for i, src := range c.Parts {
				vd.Transitions++
				vd.Validated++
				expr, res := pv.Parse("f.pp", src)
				want := drive.Run(src, o)
				at := fmt.Sprintf("%s/%s: source %d %q: ", m.flavour, m.strict, i+1, src)
				if want.Err != nil {
					if expr != nil {
						vd.Msg = at + "gives a tree for a source that is rejected"
						return vd
					}
					if res == nil || !res.Error() || len(res.Issues()) != 1 {
						vd.Msg = at + "expected one error"
						return vd
					}
					is := res.Issues()[0]
					if r, ok := want.Err.(issue.Reported); ok {
						if issueList([]issue.Reported{r}) != issueList(res.Issues()) {
							vd.Msg = at + "expected " + want.Err.Error() + " got " + is.Error()
							return vd
						}
					} else if !strings.Contains(is.Error(), want.Err.Error()) || is.Location().File() != "f.pp" || is.Severity() != issue.SeverityError {
						vd.Msg = at + "expected " + want.Err.Error() + " got " + is.Error()
						return vd
					}
					continue
				}
				if expr == nil {
					vd.Msg = at + "gives no tree"
					return vd
				}
				r := drive.Reify(expr)
				if d := model.SameShape(drive.Reify(want.Expr).Root, r.Root); d != "" {
					vd.Msg = at + d
					return vd
				}
				issues := model.Validate(r.Root, m.flavour, m.strict)
				if len(issues) == 0 {
					if res != nil {
						vd.Msg = at + "gives a result for a source that has no issues"
						return vd
					}
					continue
				}
				if res == nil {
					vd.Msg = at + "gives no result"
					return vd
				}
				bad := false
				for _, x := range issues {
					bad = bad || x.Severity == "error"
				}
				if res.Error() != bad {
					vd.Msg = at + fmt.Sprintf("Error() is %v", res.Error())
					return vd
				}
				if d := sameIssues(src, issues, res.Issues()); d != "" {
					vd.Msg = at + d
					return vd
				}
			}
		}
		return vd
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 2
		if tier == "thorough" {
			n = 4
		}
		s.Bound += fmt.Sprintf(" (%d sources, length <= %d, all flavours)", len(srcs), n)
		for _, p := range srcs {
			p := p
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(l []string)
				rec = func(l []string) {
					if v.Stopped() {
						return
					}
					v.Check(o, l...)
					if len(l) < n {
						for _, q := range srcs {
							rec(append(append([]string{}, l...), q))
						}
					}
				}
				rec([]string{p})
			})
		}
		return
	}
	return s
}
