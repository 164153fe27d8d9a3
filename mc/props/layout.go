package props

import (
	"fmt"
	"strings"

	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// layoutSpaces compares a program with the same program when layout is inserted between its tokens. The tokens are
// given, hence the comparison doesn't involve the model
func layoutSpaces() list {
	var tasks []*engine.Space
	gaps := []string{" ", "\t", "\n", "\r\n", "\r", " # c\n", "/* c */", "/*\n*/", "/**/", "/* # */", "#\n", " \n\n ", "# é /* \n", "/* é \n # \n */ ", "#c\r\n"}
	progs := [][]string{}
	for _, f := range spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps) {
		if t := strings.Fields(strings.ReplaceAll(f, "\x01", " $a ")); !strings.Contains(f, "\n") && !strings.ContainsAny(f, "\"") {
			progs = append(progs, t)
		}
	}
	o := model.Opt{Tasks: true, Workflow: true}
	judge := func(c engine.Case) engine.Verdict {
		// A slash after a keyword may start a regular expression that ends with the slash of a comment
		if strings.Contains(c.Parts[0], " / ") && strings.Contains(c.Parts[1], "/*") {
			return engine.Verdict{Skipped: true}
		}
		// Part 0 is the program with a space in each gap, part 1 has other layout
		a, b := drive.Run(c.Parts[0], c.Options()), drive.Run(c.Parts[1], c.Options())
		return engine.Verdict{Msg: sameOutcome(a, b), Validated: 1, Transitions: 2, Rejected: a.Err != nil}
	}
	one := &engine.Space{Name: "layout-between-tokens", Bound: "each form of the language, each gap between tokens, each kind of layout", Judge: judge}
	one.Tasks = func(tier string) (r []func(v *engine.Visitor)) {
		for _, t := range progs {
			t := t
			r = append(r, func(v *engine.Visitor) {
				base := strings.Join(t, " ")
				// A newline in front of a bracket or parenthesis is significant
				ok := func(i int, g string) bool {
					return i == 0 || i >= len(t) || t[i][0] != '[' && t[i][0] != '(' || !strings.Contains(g, "\n")
				}
				for i := 0; i <= len(t); i++ {
					for _, g := range gaps {
						if !ok(i, g) {
							continue
						}
						v.Check(o, base, strings.Join(t[:i], " ")+" "+g+" "+strings.Join(t[i:], " "))
					}
					if tier == "thorough" {
						for j := i; j <= len(t); j++ {
							for _, g := range gaps {
								for _, h := range gaps {
									if !ok(i, g) || !ok(j, h) || i == j && !ok(i, g+h) {
										continue
									}
									v.Check(o, base, strings.Join(t[:i], " ")+" "+g+" "+strings.Join(t[i:j], " ")+" "+h+" "+strings.Join(t[j:], " "))
								}
							}
						}
					}
				}
				for _, g := range gaps {
					v.Check(o, base, interleave(t, g))
				}
			})
		}
		return
	}
	nested := &engine.Space{Name: "layout-in-nested-forms", Bound: "all nestings of two forms, layout in all gaps", Judge: judge}
	nested.Tasks = func(tier string) (r []func(v *engine.Visitor)) {
		forms := spaces.Join(spaces.Core(), spaces.Steps)
		for _, f := range forms {
			f := f
			if strings.ContainsAny(f, "\n\"") {
				continue
			}
			r = append(r, func(v *engine.Visitor) {
				ps := strings.Split(f, "\x01")
				for i := 1; i < len(ps); i++ {
					for _, g := range forms {
						if strings.ContainsAny(g, "\n\"") {
							continue
						}
						src := strings.Join(ps[:i], "$a") + " " + strings.ReplaceAll(g, "\x01", "$b") + " " + strings.Join(ps[i:], "$a")
						t := strings.Fields(src)
						base := strings.Join(t, " ")
						for k, l := range gaps {
							if tier == "thorough" || k == 2 || k == 5 || k == 7 {
								v.Check(o, base, interleave(t, l))
							}
						}
					}
				}
			})
		}
		return
	}
	lengths := &engine.Space{Name: "layout-lengths", Judge: judge}
	lengths.Tasks = func(tier string) (r []func(v *engine.Visitor)) {
		ns := append(counts(1100), far...)
		if tier == "thorough" {
			ns = counts(70000)
		}
		kinds := [][3]string{{"", " ", ""}, {"", "\t", ""}, {"", "\n", ""}, {"", "\r\n", ""}, {"", "#\n", ""}, {"", "/**/", ""}, {"/*", "x", "*/"}, {"/*", "*", "*/"}, {"/*", "\n", "*/"}, {"#", "x", "\n"}, {"#", "é", "\n"}, {"/*", " é", "*/"}, {"#", "#", "\r\n"}}
		some := []string{"$a = 1", "class a { $b = [ 1 , 'c' ] }", "file { 'a' : b => c , d => $e }", "if $a { f ( 1 , 2 ) } else { include b , c }", "$a ? { 1 => 2 , default => 3 }", "workflow a { } { resource b { } { c => $d } }", "A < | b == 1 | > { c => 2 }", "$a . each | $x , $y = 1 | { $x / $y }"}
		s := fmt.Sprintf("%d programs, each gap between tokens, %d kinds of layout repeated any number of times in {%v}", len(some), len(kinds), ns)
		for _, p := range some {
			t := strings.Fields(strings.ReplaceAll(strings.ReplaceAll(p, "< |", "<|"), "| >", "|>"))
			for i := 0; i <= len(t); i++ {
				i := i
				r = append(r, func(v *engine.Visitor) {
					base := strings.Join(t, " ")
					for _, k := range kinds {
						if strings.Contains(k[1]+k[2], "\n") && i > 0 && i < len(t) && (t[i] == "[" || t[i] == "(") || k[0] == "/*" && strings.Contains(base, "/") || k[1] == "/**/" && strings.Contains(base, "/") {
							continue
						}
						for _, n := range ns {
							v.Check(o, base, strings.Join(t[:i], " ")+" "+k[0]+strings.Repeat(k[1], n)+k[2]+" "+strings.Join(t[i:], " "))
						}
					}
				})
			}
		}
		lengths.Bound = s
		return
	}
	tasks = append(tasks, characters("P16"), lengths, one, nested,
		token{Name: "comments", Alphabet: []string{"#", "/*", "*/", "/", "*", "\n", "\r", " ", "a", "$b", "é", "'"}, Depth: lim(5, 6)}.Space(),
		token{Name: "significant-newlines", Alphabet: w(`$a \n \x20 /**/ #\n [ ] ( ) 1 { } a :`), Depth: lim(6, 6)}.Space(),
		product{Name: "end-of-file", Level: everything, Pos: [][]string{{"", "1", "$a", "a{'b':}", "@(E)\nx\nE"}, {"", " ", "\n", "\r\n", "\r", "\t", "#", "# c", "/*", "/* c", "/* c *", "/**/", "\x00", "\ufeff"}, {"", " ", "\n", "\r", "#", "*/", "\n#\n", "/", "é", "\xff", "# \xff\n", "/* \xff */"}}}.Space())
	return tasks
}

// sameOutcome compares the outcome of two parses while disregarding locations
func sameOutcome(a, b drive.Outcome) string {
	if a.Panic != "" || b.Panic != "" {
		return "panic: " + a.Panic + b.Panic
	}
	if (a.Err == nil) != (b.Err == nil) {
		return "layout changes verdict: " + errText(a.Err) + " versus " + errText(b.Err)
	}
	if a.Err != nil {
		if x, y := code(a.Err), code(b.Err); x != y {
			return "layout changes error: " + x + " versus " + y
		}
		return ""
	}
	if s := model.SameShape(drive.Reify(a.Expr).Root, drive.Reify(b.Expr).Root); s != "" {
		return "layout changes AST: " + s
	}
	return ""
}

// interleave inserts layout in all gaps
func interleave(t []string, g string) string {
	s := g
	for i, x := range t {
		if i > 0 && (x[0] == '[' || x[0] == '(') && strings.Contains(g, "\n") {
			s += " /* */ " + x
		} else {
			s += " " + g + " " + x
		}
	}
	return s + " " + g
}
