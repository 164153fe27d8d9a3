package props

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// branches consists of sources with two branches that are nested to different depths, below a third
func branches(o model.Opt) *engine.Space {
	s := &engine.Space{Name: "branches", Judge: spaces.JudgeSource(everything)}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		depths := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 33}
		below := []int{0, 1, 15}
		if tier == "thorough" {
			depths, below = nil, []int{0, 1, 2, 3, 7, 15, 31}
			for i := 0; i <= 40; i++ {
				depths = append(depths, i)
			}
		}
		s.Bound = fmt.Sprintf("two elements, each nested {%v} times, of a list or block that is nested {%v} times", depths, below)
		kinds := [][3]string{{"[", "]", ", "}, {"f(", ")", ", "}, {"f() |$x| { ", " }", "; "}, {"class a { ", " }", "\n"}, {"if $a { ", " }", "\n"}, {"case $b { 1: { ", " } }", "\n"}, {"{a => ", "}", ", "}, {"\"a${", "}\"", ""}, {"-(", ")", ""}, {"file { 'a': b => ", " }", ""}, {"node a { ", " }", "\n"}}
		join := kinds[0:3]
		for _, j := range join {
			for _, k := range kinds {
				if (k[0][0] == 'c' || k[0][0] == 'n') && j[0] != "f() |$x| { " {
					continue
				}
				for _, d1 := range depths {
					j, k, d1 := j, k, d1
					tasks = append(tasks, func(v *engine.Visitor) {
						for _, d2 := range depths {
							for _, b := range below {
								at := func(n int, leaf string) string { return strings.Repeat(k[0], n) + leaf + strings.Repeat(k[1], n) }
								v.Source(o, strings.Repeat(j[0], b)+j[0]+at(d1, "$x")+j[2]+at(d2, "1")+j[1]+strings.Repeat(j[1], b))
							}
						}
					})
				}
			}
		}
		return
	}
	return s
}

// lengths of strings
func lengths(tier string) []int {
	if tier == "thorough" {
		return append(counts(4200), far...)
	}
	return append(counts(1100), far...)
}

// oneAmongMany consists of strings with one or two characters of interest among many others
func oneAmongMany(o model.Opt, surround, special []string) *engine.Space {
	s := &engine.Space{Name: "one-among-many", Judge: spaces.JudgeSource(everything)}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := lengths(tier)
		s.Bound = fmt.Sprintf("each of %d parts, at the start, in the middle, at the end and twice in a text of {%v} characters, in %d kinds of text", len(special), ns, len(surround))
		for _, n := range ns {
			n := n
			tasks = append(tasks, func(v *engine.Visitor) {
				for _, t := range surround {
					pre, post := t[:strings.IndexByte(t, 1)], t[strings.IndexByte(t, 1)+1:]
					for _, fill := range []string{"a", "é"} {
						for _, x := range special {
							a, b := strings.Repeat(fill, n/2), strings.Repeat(fill, n-n/2)
							v.Source(o, pre+x+a+b+post)
							v.Source(o, pre+a+x+b+post)
							v.Source(o, pre+a+b+x+post)
							v.Source(o, pre+a+x+b+x+post)
						}
					}
				}
			})
		}
		return
	}
	return s
}

// longStrings consists of long values of strings with characters that need quoting
func longStrings(j func(c engine.Case) engine.Verdict) *engine.Space {
	s := &engine.Space{Name: "long-strings", Judge: j}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := lengths(tier)
		special := []string{"", "\"", "\\", "\n", "\t", "\r", "\x00", "\x01", "\x1f", "\x7f", "é", "\u2028", "<", "\U0001F600", "\ufffd", "\\n", "\n\n"}
		s.Bound = fmt.Sprintf("each of %d characters of interest, at the start, in the middle, at the end and twice in a string of {%v} others", len(special), ns)
		for _, n := range ns {
			n := n
			tasks = append(tasks, func(v *engine.Visitor) {
				for _, fill := range []string{"a", "é"} {
					a, b := strings.Repeat(fill, n/2), strings.Repeat(fill, n-n/2)
					for _, x := range special {
						v.Check(model.Opt{}, x+a+b)
						v.Check(model.Opt{}, a+x+b)
						v.Check(model.Opt{}, a+b+x)
						v.Check(model.Opt{}, x+a+x+b)
					}
				}
			})
		}
		return
	}
	return s
}
