package props

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/spaces"
)

// unit is something that can be repeated any number of times. The prefixes are nested when there's a closing part
type unit struct {
	id, opts             string
	pre, open, mid, shut string
	post                 string
}

var units = []unit{
	// Operators and nesting
	{"P02", "plain", "$x = ", "$a + ", "1", "", ""},
	{"P02", "plain", "$x = ", "$a -> ", "1", "", ""},
	{"P02", "plain", "", "$a = ", "1", "", ""},
	{"P02", "plain", "$x = ", "(", "1", ")", " * 2"},
	{"P02", "plain", "", "! ", "$a", "", ""},
	{"P02", "plain", "$x = ", "- ", "$a", "", " + 1"},
	{"P02", "plain", "$x = ", "$a and ", "1", " or $b", ""},
	{"P03", "plain", "$x", ".a", "", "", "(1)"},
	{"P03", "plain", "$x", ".a(1)", "", "", ""},
	{"P03", "plain", "$x", "[1]", "", "", ".b"},
	{"P03", "plain", "$x = ", "f(", "1", ")", ""},
	{"P03", "plain", "", "$a.f |$x| { ", "1", "}", ""},
	{"P03", "plain", "$x = ", "[", "1", "]", "[2]"},
	{"P03", "plain", "$x = ", "{ a => ", "1", "}", ""},
	{"P03", "plain", "", "f($a) ", "1", "", ""},
	{"P03", "plain", "", "include a\n", "1", "", ""},
	{"P04", "plain", "", "if $a { ", "1", " } else { 2 }", ""},
	{"P04", "plain", "", "unless $a { ", "1", " }", ""},
	{"P04", "plain", "if $a { } ", "elsif $a { 1 } ", "", "", "else { 2 }"},
	{"P04", "plain", "", "case $a { 1: { ", "2", " } }", ""},
	{"P04", "plain", "$x = ", "$a ? { 1 => ", "2", " }", ""},
	{"P04", "plain", "$x = ", "$a ? ( ", "2", " => 1)", ""},
	{"P04", "plain", "if $x { ", "$a;", "", "", "}"},
	{"P05", "plain", "", "file { 'a': b => 1 } ", "", "", "$x"},
	{"P06", "plain", "A<| ", "(", "a == 1", ")", " |>"},
	{"P06", "plain", "", "A<| a == 1 |> ", "", "", "$x"},
	{"P07", "plain", "", "class a { ", "1", " }", ""},
	{"P07", "plain", "", "class a { } ", "", "", "$x"},
	{"P07", "plain", "node a", ".b", "", "", " { }"},
	{"P08", "plain", "", "class a { ", "function b { }", " define c { } }", ""},
	{"P08", "plain", "", "class a { } define b { } ", "", "", ""},
	{"P09", "plain", "type A = ", "B[", "1", "]", ""},
	{"P09", "plain", "type A", "::B", "", "", " = C"},
	// Literals and names
	{"P10", "plain", "$x = 1.", "5", "", "", ""},
	{"P10", "plain", "$x = 0", "0", "7", "", ""},
	{"P10", "plain", "$x = 0x", "0", "7", "", ""},
	{"P11", "plain", "$x = '", "é", "", "", "'"},
	{"P11", "plain", "$x = '", "\\'", "", "", "' $y"},
	{"P11", "plain", "$x = \"", "a", "", "", "\\n\""},
	{"P11", "plain", "$x = \"", "\\n", "", "", "\" $y"},
	{"P11", "plain", "$x = \"", "\n", "", "", "\" ]"},
	{"P11", "plain", "$x = \"", "\\u{1F600}", "", "", "\""},
	{"P11", "hex", "$x = \"", "\\x41", "", "", "\""},
	{"P11", "backtick", "$x = `", "\\n\n", "", "", "` ]"},
	{"P12", "plain", "\"", "$a ", "", "", "\""},
	{"P12", "plain", "\"", "${a}x", "", "", "\""},
	{"P12", "plain", "$x = ", "\"a${", "b", "}c\"", ""},
	{"P12", "plain", "\"$a", "::a", "", "", "\""},
	{"P12", "plain", "\"${a", "x", "", "", "}\""},
	{"P12", "plain", "\"${a", "[1]", "", "", ".b}\""},
	{"P13", "plain", "@(E)\n", "a\n", "", "", " | E\n$y ]"},
	{"P13", "plain", "@(E)\n", "a", "", "", "\n |- E\n$y ]"},
	{"P13", "plain", "@(E)\n", " ", "a\n", " ", "| E\n$y"},
	{"P13", "plain", "@(\"E\")\n", "  ${a}b\n", "", "", "  | E\n"},
	{"P13", "plain", "@(\"E\"/L)\n", "  a\\\n", "", "", " b\n  | E\n$y"},
	{"P13", "plain", "@(a", "a", ")\nx\na", "a", "\n"},
	{"P13", "plain", "@(E:a", "a", "", "", ")\nx\nE\n"},
	{"P14", "epp", "", "a", "", "", "<%= $x %>"},
	{"P14", "epp", "", "\n", "", "", "<%= $x ] %>"},
	{"P14", "epp", "", "<% $x %>\n", "", "", ""},
	{"P14", "epp", "", "<%= $x -%>\n", "a", "", ""},
	{"P14", "epp", "<%#", "a\n", "", "", "-%>\nb<%= ] %>"},
	{"P14", "epp", "", "<% if $x { %>a", "b", "<% } %>\n", ""},
	{"P14", "epp", "a<%%", "<%%", "", "", "%>"},
	{"P15", "plain", "$x = a", "b", "", "", " $y"},
	{"P15", "plain", "$x = a", "::b", "", "", " $y"},
	{"P15", "plain", "$x = A", "::B", "", "", "[1]"},
	{"P15", "plain", "$x = $a", "b", "", "", " $y"},
	{"P15", "plain", "$x = a", "-b", "", "", " $y"},
	{"P15", "plain", "$x = /", "a", "", "", "/ $y"},
	{"P15", "plain", "$x = /", "\\/", "", "", "/ $y"},
	{"P15", "plain", "$", "1", "", "", " = 2"},
	{"P15", "plain", "$x ", " ", "", "", "= ]"},
	{"P15", "plain", "$x ", "\n", "", "", "= ]"},
	{"P15", "plain", "$x ", "\r\n", "", "", "= ]"},
	{"P15", "plain", "$x /* ", "é", "", "", " */ = ]"},
	{"P15", "plain", "$x # ", "é", "", "", "\n = ]"},
	{"P15", "plain", "$x ", "# é\n", "", "", "= 1 ; ]"},
	{"P15", "plain", "$x ", "/**/", "", "", "= 1"},
	// Steps and plans
	{"P20", "workflow", "", "workflow a { } { ", "", " }", ""},
	{"P20", "workflow", "", "resource a { } { } ", "", "", ""},
	{"P07", "tasks", "", "plan a { ", "1", " }", ""},
}

// counts are the numbers of repetitions: all small ones and those around powers of two
func counts(max int) (r []int) {
	for i := 0; i <= 40; i++ {
		r = append(r, i)
	}
	for p := 64; p <= max; p *= 2 {
		for d := -2; d <= 2; d++ {
			r = append(r, p+d)
		}
	}
	for p := 100; p <= max; p *= 10 {
		r = append(r, p-1, p, p+1)
	}
	return
}

// far are the numbers around the limits of 16 bit counters and of buffers
var far = []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537}

// nests is true for parts that nest what is in front of them, or what follows
func nests(part string) bool {
	return part[0] == '.' && part != ".b" || part[0] == '[' || strings.HasPrefix(part, "elsif")
}

// sizes consists of sources that contain something a number of times
func sizes(id string) *engine.Space {
	s := &engine.Space{Name: "sizes", Judge: spaces.JudgeSource(everything)}
	few, slow := spaces.Shrink+spaces.Base > 0, slow
	opt := forcedOpt()
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		long, deep := append(counts(2100), far...), counts(1100)
		if tier == "thorough" {
			long, deep = append(counts(8300), far[3:]...), counts(1100)
			if slow {
				long = counts(8300)
			}
			if (id == "P10" || id == "P11" || id == "P15") && !slow {
				long = counts(70000)
			}
		}
		if few && tier != "thorough" {
			long, deep = append(counts(1100), 4097), counts(300)
		}
		if few && !slow {
			long = append(long, 65537)
		}
		s.Bound = fmt.Sprintf("each repeatable part of a construct, repeated any number of times in {%v}, or nested in itself {%v} times", long, deep)
		for _, u := range units {
			if u.id != id {
				continue
			}
			u := u
			o := opt(u.opts)
			ns := long
			if u.shut != "" || id == "P02" || nests(u.open) {
				ns = deep
			}
			for _, n := range ns {
				n := n
				tasks = append(tasks, func(v *engine.Visitor) {
					v.Source(o, u.pre+strings.Repeat(u.open, n)+u.mid+strings.Repeat(u.shut, n)+u.post)
					if u.shut != "" && n > 0 {
						v.Source(o, u.pre+strings.Repeat(u.open, n)+u.mid+strings.Repeat(u.shut, n-1)+u.post)
						v.Source(o, u.pre+strings.Repeat(u.open, n-1)+u.mid+strings.Repeat(u.shut, n)+u.post)
					}
				})
			}
		}
		for _, c := range constructs {
			if c.id != id {
				continue
			}
			c := c
			o := opt(c.opts)
			ns := long
			if c.sep == "and" || nests(c.elements[0]) {
				ns = deep
			}
			for _, n := range ns {
				n := n
				tasks = append(tasks, func(v *engine.Visitor) {
					for _, y := range []string{" ", "\n"} {
						if y == "\n" && (c.sep == "" && (id == "P12" || id == "P13" || id == "P14")) {
							continue
						}
						var l []string
						for i := 0; i < n; i++ {
							l = append(l, c.elements[i%len(c.elements)])
						}
						v.Source(o, c.pre+y+strings.Join(l, y+c.sep+y)+y+c.post)
						v.Source(o, c.pre+y+strings.Join(l, y+c.sep+y)+y+c.post+y+"]")
					}
				})
			}
		}
		return
	}
	return s
}
