package props

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/spaces"
)

// construct is a construct of the language that contains a list
type construct struct {
	id       string // of the property it belongs to
	opts     string
	pre      string
	elements []string
	sep      string
	post     string
}

var constructs = []construct{
	{"P03", "plain", "f(", []string{"$a", "b => 1", "*$c", "{ d => 2 }"}, ",", ")"},
	{"P03", "plain", "notice ", []string{"$a", "b => 1", "[3]"}, ",", ""},
	{"P03", "plain", "$x.f |", []string{"$a", "A[1] $b = 2", "*$c"}, ",", "| { $a }"},
	{"P03", "plain", "$x[", []string{"$a", "b => 1", "*$c"}, ",", "]"},
	{"P03", "plain", "[", []string{"$a", "b => 1", "type", "[2]"}, ",", "]"},
	{"P03", "plain", "$x = {", []string{"a => 1", "'b' => {c => 2}", "type => $d", "[3] => 4"}, ",", "}"},
	{"P03", "plain", "[$x] = [", []string{"$a", "($b)", "'c'"}, ",", "]"},
	{"P03", "plain", "$x", []string{".a", ".b(1)", "[2]", ".c |$d| { 3 }"}, "", ""},
	{"P04", "plain", "case $x {", []string{"1: { 2 }", "'a', b: { $c }", "default: { }"}, "", "}"},
	{"P04", "plain", "case $x {", []string{"1", "default", "*$b", "/r/"}, ",", ": { } }"},
	{"P04", "plain", "$x ? {", []string{"1 => 2", "default => 'b'", "$c => [3]"}, ",", "}"},
	{"P04", "plain", "if $x { }", []string{"elsif $a { 1 }", "elsif b { }"}, "", "else { 2 }"},
	{"P04", "plain", "if $x {", []string{"$a", "notice 1", "{ b => 2 }"}, ";", "}"},
	{"P04", "plain", "unless $x {", []string{"$a", "f(1)", "{ b => 2 }"}, "\n", "}"},
	{"P05", "plain", "file {", []string{"'a':", "$b: c => 1", "['d', 'e']: f => 2, *=> $g"}, ";", "}"},
	{"P05", "plain", "@file { 'x':", []string{"a => 1", "if +> [2]", "* => $b"}, ",", "}"},
	{"P05", "plain", "A {", []string{"a => 1", "class +> 2", "b => { c => 3 }"}, ",", "}"},
	{"P05", "plain", "A['x'] {", []string{"a => 1", "class +> 2", "b => [3]"}, ",", "}"},
	{"P06", "plain", "A<| |> {", []string{"a => 1", "class +> 2", "b => [3]"}, ",", "}"},
	{"P06", "plain", "A<|", []string{"a == 1", "(b != 2 or c == 3)", "d =~ /e/"}, "and", "|>"},
	{"P07", "plain", "class x(", []string{"$a", "B $b = 1", "*$c", "D[1] $d"}, ",", ") { }"},
	{"P07", "plain", "function x(", []string{"$a = [1]", "B $b", "*$c"}, ",", ") >> E { }"},
	{"P07", "plain", "define x {", []string{"$a", "class b { }", "notice 1"}, ";", "}"},
	{"P07", "plain", "node ", []string{"a.b", "'c'", "/d/", "default", "1.2"}, ",", "{ }"},
	{"P07", "plain", "application x {", []string{"a { 'b': }", "$c", "function d { }"}, "\n", "}"},
	{"P07", "plain", "A produces b {", []string{"a => 1", "* => 2", "if => [3]"}, ",", "}"},
	{"P07", "tasks", "plan x(", []string{"$a", "B $b = 1", "*$c"}, ",", ") { }"},
	{"P09", "plain", "type A = B[", []string{"1", "C[2]", "d => 3", "'e'"}, ",", "]"},
	{"P09", "plain", "type A = Object[{", []string{"a => 1", "attributes => { b => C }", "type => { }"}, ",", "}]"},
	{"P09", "plain", "type A = B {", []string{"a => 1", "'c' => D", "type => { }"}, ",", "}"},
	{"P09", "plain", "type Runtime['a', [", []string{"/b/", "'c'", "1"}, ",", "]] = D"},
	{"P12", "plain", "\"", []string{"a ", "$b ", "${c} ", "${d.e(1)} ", "\\n"}, "", "\""},
	{"P12", "plain", "\"${x", []string{".a", ".b(1)", "[2]", ".c |$d| { 3 }"}, "", "}\""},
	{"P13", "plain", "@(\"E\")\n", []string{" a\n", "  $b\n", "   ${c}d\n", "\n"}, "", " | E"},
	{"P14", "epp", "<%|", []string{"$a", "B $b = 1", "*$c"}, ",", "|%>x"},
	{"P14", "epp", "", []string{"a ", "<% $b %>", "<%= $c -%>\n", "<%# d %>"}, "", ""},
	{"P14", "epp", "<% if $x { %>", []string{"a ", "<% $b %>", "<%= $c -%>\n", "<%# d %>"}, "", "<% } %>"},
	{"P20", "workflow", "workflow x { parameters => (", []string{"$a", "B $b = 1", "$c = (d, e)"}, ",", ") } { }"},
	{"P20", "workflow", "action x { returns => (", []string{"$a", "B $b = c", "D $d = (e, f)"}, ",", ") } { }"},
	{"P20", "workflow", "action x {", []string{"a => 1", "parameters => ($b)", "returns => (C $d)"}, ",", "} { }"},
	{"P20", "workflow", "resource x { } {", []string{"a => 1", "type => $b", "c => [2, d(3)]"}, ",", "}"},
	{"P20", "workflow", "workflow x { } {", []string{"action a { } { }", "resource b { } { }", "workflow c { } { }"}, "\n", "}"},
	{"P20", "workflow", "action x { } {", []string{"function a { }", "$b", "function c($d) >> E { 1 }"}, "\n", "}"},
	{"P20", "workflow", "workflow x { } $z = each(", []string{"$a", "[1]", "b => 2"}, ",", ") |$y| { }"},
	{"P20", "workflow", "workflow x { } $z = each($a) |", []string{"$b", "C $c", "$d = 1"}, ",", "| { }"},
}

// lists consists of the constructs of a property with all lists of elements up to a length, and all layouts
func lists(id string) *engine.Space {
	layouts := []string{" ", "", "\n", "  \t ", " # é,;\n ", " /* } */ "}
	s := &engine.Space{Name: "list-lengths", Judge: spaces.JudgeSource(everything)}
	opt := forcedOpt()
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 4
		if tier == "thorough" {
			n = 5
		}
		s.Bound = fmt.Sprintf("all lists with at most %d elements, of each kind of element, in each construct with a list, with and without separators at the ends, in %d layouts", n, len(layouts))
		for _, c := range constructs {
			if c.id != id {
				continue
			}
			c := c
			o := opt(c.opts)
			var rec func(v *engine.Visitor, l []string, n int)
			rec = func(v *engine.Visitor, l []string, n int) {
				for _, y := range layouts {
					if y != " " && (id == "P12" || id == "P13" || id == "P14") && c.sep == "" {
						continue
					}
					if v.Stopped() {
						return
					}
					glue := y + c.sep + y
					if c.sep == "" || c.sep == "\n" {
						glue = c.sep + y
					}
					x := strings.Join(l, glue)
					v.Source(o, c.pre+y+x+y+c.post)
					if c.sep != "" {
						v.Source(o, c.pre+y+x+glue+c.post)
						v.Source(o, c.pre+glue+x+y+c.post)
						v.Source(o, c.pre+y+x+glue+glue+c.post)
					}
				}
				if n == 0 {
					return
				}
				for _, e := range c.elements {
					rec(v, append(append([]string{}, l...), e), n-1)
				}
			}
			tasks = append(tasks, func(v *engine.Visitor) { rec(v, nil, 0) })
			for _, e := range c.elements {
				l := []string{e}
				tasks = append(tasks, func(v *engine.Visitor) { rec(v, l, n-1) })
			}
		}
		return
	}
	return s
}
