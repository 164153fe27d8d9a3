package props

import (
	"strings"

	"verif/mc/spaces"
)

func keywordsAndNames() []string {
	return w(`and application attr case class consumes default define else elsif false function if import in inherits node or private produces site true type undef unless plan action resource workflow stateHandler step not each name title e attributes returns A B::C ::a a::b a_b x1 tag notice include 'q' 1 $v`)
}

func definitionNames() []string {
	return w(`a a::b ::a ::a::b A a-b _a a_b 1 'x' "y" $z class node if default inherits in true undef type application produces private site plan action resource workflow function name tag a::B a1 :: /r/ { (`)
}

func filledAll(l []string) (r []string) {
	for _, s := range l {
		r = append(r, strings.ReplaceAll(s, "\x01", "$a"))
	}
	return
}

func oneLiners() []string { return filledAll(spaces.Core()) }

func allEscapes() (r []string) {
	for c := 1; c < 128; c++ {
		r = append(r, "\\"+string(rune(c)))
	}
	return append(r, "\\é", "\\\x00", "\\\xff", "\\u{41}", "\\u00e9", "\\\r\n", "\\\\", "\\$a", "\\${a}")
}

func allEscapesLines() (r []string) {
	for _, e := range []string{"\\n", "\\t", "\\s", "\\r", "\\$", "$b", "${c}", "\\u00e9", "\\u{1F600}", "\\\n", "\\\\", "\\\"", "\\'", "\\a", "\\\r\n", "\\", "", "\\L", "\\x41"} {
		r = append(r, "d"+e+"f\n", e+"\n")
	}
	return
}

func flagSets() (r []string) {
	fl := "trns$uL"
	for m := 0; m < 1<<uint(len(fl)); m++ {
		s := ""
		for i := range fl {
			if m&(1<<uint(i)) != 0 {
				s += fl[i : i+1]
			}
		}
		r = append(r, s)
	}
	return append(r, "tt", "x", "T", " t", "t ", "Ln$", "$Lunsrt")
}

func regexpContexts() []string {
	return []string{"", "1", "$a", "a", "A", "'s'", "\"s\"", "\"$a\"", "(", "$a(", "a()", "[", "[1]", "$a[1]", "{", "{}", "}", ",", "=>", "=~", "!~", "==", "+", "-", "!", "node", "case $a {", "and", "or", "in", "if", "true", "undef", "default", ":", ";", "?", "$a ?", "|", "@(E)\n\nE\n", "1.5", "0x1", "if $a { }", "A<||>", "/r/", "include", "$a.b", "*", "|>", "%", "<", "="}
}

func keywordPositions() []string {
	return []string{"", "$", "$a.", "a{x: ", "a{", "{ ", "A{ ", "A['x']{ ", "a(", "A<|", "A<||>{ ", "class ", "define ", "function ", "node ", "class a inherits ", "[", "\"${", "\"$", "A produces ", "type A inherits ", "@", "case $a { ", "$a ? { ", "include ", "a |$", "type A = ", "A::", "::", "a::", "'x' => ", "node a inherits ", "{'k' => ", "!", "-"}
}

func programs() []string {
	return []string{
		`class a::b($x, A[1, 2] $y = {k => [1, 2]}) inherits c {
  file { "/tmp/${x}-${y['k'][0]}.txt": ensure => file, * => $z; 'b': mode => '0644' }
  if $x == 1 and !($y in [1, 2]) { include d } elsif $x { notice("é") } else { fail 'x', 2 }
  File['b'] -> Service<| title == 'c' or tag != 'd' |> { x +> 1 }
  $m = $x ? { /r/ => 1, default => 2 }
}
`, `define d(*$r) {
  case $r { 1, 'a': { } default: { $r.each |$i, $v = 1| { @@e { $i: } } } }
  @(H) + @("I"/L)
    heredoc é
    | H
  other ${$r[0]}\
    text
    |- I
}
node 'n', /m.*/, a.b.1 inherits default { }
`, `function f(Integer $x) >> String { type(1) unless $x { -1.5e2 * 0x1F } else { 017 } }
type T = Variant[Integer, Object[{attributes => {a => B}}]]
type U::V inherits W { }
site { }
application p($q) { }
A produces b { c => $d }
Exec { path => ['/bin'] }
`,
	}
}

func stepPrograms() []string {
	return []string{
		`workflow w { parameters => (A $x = b, $y), returns => ($z) } { resource r { type => T, external_id => e } { a => $x, b => [1, f(2)] } action s { } { function delete(){ } } }`,
		`stateHandler h { parameters => $p, x => 'y' } { function read() { 1 } }
action k { returns => (A $x = b, $y = (c, d),) } { $x } $q = each($l, 2) |A $i, $j| `,
	}
}

func eppPrograms() []string {
	return []string{
		"<%- | $x, A $y = 1 | -%>\ntext é <%= $x %> <%# c -%>\n<% if $y { -%> a <%% b <% } else { %> %%> <% } -%>\n",
		"a\n<%- $x.each |$i| { -%>\n  <%= $i %>\n<%- } -%>\n z",
	}
}
