package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// place is where the character is put
const place = "\u2042"

// context has a place for a character
type charContext struct {
	id, opts string
	srcs     []string
}

var contexts = []charContext{
	{"P10", "", []string{"⁂1", "1⁂", "0⁂1", "0x⁂", "0x1⁂2", "1.⁂", "1.5⁂", "1⁂5", "1e⁂", "1e1⁂", "-⁂", "-⁂1", "01⁂", "$a[1⁂"}},
	{"P11", "", []string{"'⁂'", "'\\⁂'", "'\\\\⁂'", "\"⁂\"", "\"\\⁂\"", "\"a⁂b\\n⁂\"", "/⁂/", "/\\⁂/", "/[⁂]/", "\"\\u⁂000\"", "\"\\u000⁂\"", "\"\\u{⁂}\"", "\"\\u{1⁂\"", "⁂a'", "'⁂"}},
	{"P11", "hex", []string{"\"\\x⁂1\"", "\"\\x1⁂\"", "\"\\⁂\""}},
	{"P11", "backtick", []string{"`⁂`", "`\\⁂`", "`a`⁂"}},
	{"P12", "", []string{"\"$⁂\"", "\"$a⁂\"", "\"$a⁂b\"", "\"$⁂a\"", "\"$a::⁂\"", "\"$a:⁂\"", "\"${⁂}\"", "\"${a⁂}\"", "\"${⁂a}\"", "\"${a⁂b}\"", "\"⁂${a}⁂\"", "\"${a.⁂}\"", "\"${a.b⁂}\"", "\"${$⁂}\"", "\"${a[⁂]}\"", "\"$a[⁂]\"", "\"$a-⁂\"", "\"$$⁂\"", "\"⁂$\""}},
	{"P13", "", []string{"@(⁂)\nx\n⁂\n", "@(E⁂)\nx\nE⁂\n", "@(\"⁂E\")\n$x\n⁂E\n", "@(E)\n⁂\nE\n", "@(E)\n⁂E\nE\n", "@(E)\nE⁂\nE\n", "@(E)\n a\n⁂b\n | E\n", "@(E)\n⁂a\n⁂|E\n", "@(E)\na\n|⁂E\n", "@(E)\na\n-⁂E\n", "@(E)\na\n|-E⁂", "@(E:⁂)\nE\n", "@(E:a⁂b/n)\nE\n", "@(E/⁂)\n\\⁂\\n\nE\n", "@(\"E\"/⁂n)\n\\⁂\\n\nE\n", "@(E)⁂\na\nE\n", "@(E)\na\nE\n⁂", "@(E/L)\na\\⁂\nb\nE\n", "@(\"E\"/)\n\\⁂\nE\n", "@⁂(E)\na\nE\n"}},
	{"P14", "epp", []string{"⁂", "<⁂", "<%⁂ 1 %>", "<%⁂%>", "<% 1 ⁂%>", "<% 1 %⁂>", "<%#⁂%>", "<%#a⁂-%>\nb", "<%%⁂%%>⁂", "a⁂<%- 1 -%>⁂\nb", "\n⁂<%- 1 -%>\n", "<%= $a %>⁂", "<%= ⁂ %>", "<% |⁂| %>", "<%|$a⁂|%>", "⁂<% |$a| %>", "<%- | $a | -%>⁂\n", "%⁂>", "a\n \t⁂<%-#a%>"}},
	{"P15", "", []string{"⁂", "a⁂", "a⁂b", "⁂a", "A⁂", "A⁂B", "⁂A", "$⁂", "$a⁂", "$a⁂b", "$a::⁂", "a::⁂", "A::⁂", "a:⁂", "a ⁂ b", "$a ⁂= 1", "$a =⁂ 1", "$a <⁂ 1", "@⁂", "/a/⁂", "a/⁂/", "$a/⁂/", "_⁂", "if⁂ 1 {}", "true⁂", "a-⁂", "::⁂", "$_⁂", "$1⁂", "a.⁂", "f(⁂)", "[⁂]", "{⁂=>1}"}},
	{"P16", "", []string{"$a =⁂1", "$a⁂=1", "#⁂\n1", "#⁂1", "/*⁂*/1", "/**⁂/1*/", "/⁂*a*/1", "file⁂{'b':c⁂=>⁂d⁂}", "f(⁂1⁂,⁂2⁂)", "[1,⁂2]", "$a⁂[1]", "f⁂(1)", "if⁂true⁂{⁂}⁂else⁂{⁂}", "1⁂2", "⁂1⁂"}},
	{"P18", "", []string{"'⁂' 1a", "\"⁂", "'⁂\n⁂' ]", "# ⁂\n⁂ ]", "/*⁂*/ )", "\"⁂${b ]}\"", "\"⁂${b}⁂\" ]", "@(E)\n⁂\nE\n]", "@(\"E\")\n⁂${]}\nE\n", "/⁂/ ]", "$a = ⁂", "class ⁂ {}", "\"\\u{⁂\"", "0x⁂"}},
	{"P19", "", []string{"'⁂' + $a", "\"⁂${b}⁂\" + $a", "# ⁂\n f(/⁂/,/*⁂*/ $a)", "@(E)\n⁂\nE\n$a", "@(\"E\")\n⁂${b.c}⁂$d\n⁂| E\n$a", "['⁂', {'⁂' => $a}]", "\"$a⁂$b\"", "\"${'⁂'}$b\""}},
	{"P34", "", []string{"⁂", "a⁂", "A⁂b", "$a⁂b", "1⁂", "'\\⁂⁂'", "\"\\⁂$a⁂\"", "/⁂/", "#⁂\na", "/*⁂*/a", "@(⁂)\n⁂\n⁂\n", "<⁂"}},
	{"P07", "", []string{"class ⁂ {}", "class a⁂ {}", "class a::⁂ {}", "class a($⁂) {}", "class a inherits ⁂ {}", "define a⁂b {}", "function ⁂() {}", "function a() >> ⁂ {}", "node ⁂ {}", "node a⁂b {}", "node 'a⁂' {}", "node a.⁂ {}", "node /⁂/ {}", "site⁂{}", "application a⁂ {}"}},
	{"P09", "", []string{"type ⁂ = A", "type A⁂ = B", "type A::⁂ = B", "type A = ⁂", "type A = B⁂{}", "function a(⁂ $b) {}", "function a($b⁂) {}", "function a(*⁂$b) {}", "function a($b =⁂1) {}"}},
	{"P05", "", []string{"⁂{'b':}", "a⁂{'b':}", "@⁂a {'b':}", "a {⁂:}", "a {'b'⁂}", "a {'b': ⁂ => 1}", "a {'b': c⁂ => 1}", "a {'b': c ⁂> 1}", "a {'b': *⁂=> 1}", "A {⁂ => 1}", "A[⁂] { b => 1 }", "a {'⁂': '⁂' => 1}"}},
}

// characters consists of every character in every context of a property
func characters(id string) *engine.Space {
	s := &engine.Space{Name: "every-character"}
	lv := everything
	s.Judge = spaces.JudgeSource(lv)
	if id == "P34" {
		s.Judge = judgeLexer
	}
	few := spaces.Shrink+spaces.Base > 0
	opt := forcedOpt()
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		if few {
			tier = "few"
		}
		n := 0
		for _, c := range contexts {
			if c.id == id {
				n += len(c.srcs)
			}
		}
		s.Bound = fmt.Sprintf("%s, in %d contexts", everyCharacter(tier, func(all func(func(string))) {
			for _, c := range contexts {
				if c.id != id {
					continue
				}
				c := c
				o := opt(c.opts)
				tasks = append(tasks, func(v *engine.Visitor) {
					all(func(x string) {
						if v.Stopped() {
							return
						}
						for _, src := range c.srcs {
							v.Source(o, strings.ReplaceAll(src, place, x))
						}
					})
				})
			}
		}), n)
		return
	}
	return s
}

// eachCharacter consists of texts that are made from every character
func eachCharacter(name string, judge func(c engine.Case) engine.Verdict, texts func(c string) []string) *engine.Space {
	s := &engine.Space{Name: name, Judge: judge}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		s.Bound = everyCharacter(tier, func(all func(func(string))) {
			tasks = append(tasks, func(v *engine.Visitor) {
				all(func(x string) {
					if !v.Stopped() {
						for _, t := range texts(x) {
							v.Check(model.Opt{}, t)
						}
					}
				})
			})
		})
		return
	}
	return s
}

// everyCharacter divides all characters into parts, and describes them
func everyCharacter(tier string, part func(all func(func(string)))) string {
	const size = 0x400
	for lo := rune(0); lo <= utf8.MaxRune; lo += size {
		lo := lo
		if tier == "few" && lo != 0 && lo != 0x2000 && lo != 0x3000 && lo != 0xfc00 {
			continue
		}
		if tier != "thorough" && lo > 0xffff && lo&0xffff != 0 && lo&0xffff != 0x10000-size {
			continue
		}
		part(func(f func(string)) {
			for c := lo; c < lo+size; c++ {
				if utf8.ValidRune(c) {
					f(string(c))
				}
			}
		})
	}
	switch tier {
	case "few":
		return "4096 characters"
	case "quick":
		return "all characters up to U+FFFF and the first and last 1024 of each further plane"
	}
	return "all 1112064 characters"
}
