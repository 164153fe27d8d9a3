package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// full describes a node including its location
func full(b *strings.Builder, n *model.Node) {
	fmt.Fprintf(b, "(%s %d+%d %q %q %d %v %d %v", n.K, n.Off, n.End, n.S, n.S2, n.I, n.F, n.R, n.B)
	for _, s := range n.Slots {
		b.WriteString(" " + s.Name)
		for _, c := range s.L {
			full(b, c)
		}
	}
	b.WriteByte(')')
}

func fullTree(e parser.Expression) string {
	r := drive.Reify(e)
	b := &strings.Builder{}
	full(b, r.Root)
	for _, d := range r.Defs {
		b.WriteString(" def ")
		full(b, d)
	}
	return b.String()
}

// fullOutcome describes everything that can be observed about an outcome
func fullOutcome(o drive.Outcome) string {
	switch {
	case o.Panic != "":
		return "panic " + o.Panic
	case o.Err != nil:
		s := "error " + o.Err.Error()
		if r, ok := o.Err.(issue.Reported); ok {
			s += fmt.Sprintf(" %s %s %s:%d:%d", r.Code(), r.Severity(), r.Location().File(), r.Location().Line(), r.Location().Pos())
		}
		return s
	case o.Expr == nil:
		return "nothing"
	}
	return fullTree(o.Expr)
}

var fresh sync.Map

// freshOutcome is what a new parser makes of a source
func freshOutcome(src string, o model.Opt) string {
	k := o.String() + "\x00" + src
	if x, ok := fresh.Load(k); ok {
		return x.(string)
	}
	s := fullOutcome(drive.Run(src, o))
	if len(src) > 1000 {
		return s
	}
	fresh.Store(k, s)
	return s
}

// judgeHistory gives all parts to one parser. A part that starts with an exclamation mark is parsed as a single
// expression. Each outcome must be what a new parser makes of it, and remain what it was
func judgeHistory(c engine.Case) (vd engine.Verdict) {
	o := c.Options()
	p := parser.CreateParser(drive.Options(o)...)
	outs := make([]drive.Outcome, len(c.Parts))
	want := make([]string, len(c.Parts))
	for i, src := range c.Parts {
		o.Single = strings.HasPrefix(src, "!")
		src = strings.TrimPrefix(src, "!")
		outs[i] = drive.RunWith(p, src, o.Single)
		want[i] = freshOutcome(src, o)
		vd.Transitions++
		vd.Validated++
		if got := fullOutcome(outs[i]); got != want[i] {
			vd.Msg = fmt.Sprintf("source %d %q: expected %s, got %s", i+1, src, want[i], got)
			return
		}
	}
	for i := range outs {
		if got := fullOutcome(outs[i]); got != want[i] {
			vd.Msg = fmt.Sprintf("outcome of source %d was changed by a later one: from %s to %s", i+1, want[i], got)
			return
		}
	}
	return
}

// histories consists of all sequences of sources up to a length
func histories(name string, srcs []string, q, t int, os ...model.Opt) *engine.Space {
	s := &engine.Space{Name: name, Judge: judgeHistory, Bound: "all sequences of sources that are parsed by one parser"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := q
		if tier == "thorough" {
			n = t
		}
		s.Bound += fmt.Sprintf(" (%d sources, length <= %d, %d configurations)", len(srcs), n, len(os))
		for _, o := range os {
			for _, a := range srcs {
				o, a := o, a
				tasks = append(tasks, func(v *engine.Visitor) {
					var rec func(l []string)
					rec = func(l []string) {
						if v.Stopped() {
							return
						}
						if len(l) == n {
							v.Check(o, l...)
							return
						}
						for _, b := range srcs {
							rec(append(append([]string{}, l...), b))
						}
					}
					rec([]string{a})
				})
			}
		}
		return
	}
	return s
}

// aborted consists of all prefixes of programs followed by other sources
func aborted(name string, corpus, probes []string, os ...model.Opt) *engine.Space {
	s := &engine.Space{Name: name, Judge: judgeHistory, Bound: "one parser is given a prefix of a program (all prefixes) and then"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 2
		if tier == "thorough" {
			n = 3
		}
		s.Bound += fmt.Sprintf(" all sequences of %d out of %d sources (%d programs, %d configurations)", n, len(probes), len(corpus), len(os))
		for _, o := range os {
			for _, c := range corpus {
				o, c := o, c
				tasks = append(tasks, func(v *engine.Visitor) {
					for i := 1; i <= len(c); i++ {
						for _, p := range probes {
							if v.Stopped() {
								return
							}
							for _, q := range probes {
								if n == 2 {
									v.Check(o, c[:i], p, q)
									continue
								}
								for _, r := range probes {
									v.Check(o, c[:i], p, q, r)
								}
							}
						}
					}
				})
			}
		}
		return
	}
	return s
}

// manyTimes consists of sources that are parsed a number of times by one parser, followed by each probe
func manyTimes(name string, srcs, probes []string, os ...model.Opt) *engine.Space {
	s := &engine.Space{Name: name}
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		n, _ := strconv.Atoi(c.Parts[1])
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, c.Parts[0])
		}
		return judgeHistory(engine.Case{Space: c.Space, Opt: c.Opt, Parts: append(append(l, c.Parts[2]), l...)})
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := []int{3, 5, 8, 11, 17, 33, 65, 129, 257}
		if tier == "thorough" {
			ns = counts(1100)
		}
		s.Bound = fmt.Sprintf("one parser is given each of %d sources {%v} times (and those of up to three bytes 65536 times), a probe out of %d, and the source again", len(srcs), ns, len(probes))
		for _, o := range os {
			for _, src := range srcs {
				for _, n := range ns {
					o, src, n := o, src, n
					tasks = append(tasks, func(v *engine.Visitor) {
						for _, p := range probes {
							v.Check(o, src, strconv.Itoa(n), p)
						}
					})
				}
				if len(src) < 4 {
					o, src := o, src
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(o, src, "65536", probes[0]) })
				}
			}
		}
		return
	}
	return s
}

// afterLarge consists of sources that contain something a number of times, each followed by a probe, and by itself
func afterLarge(probes []string) *engine.Space {
	s := &engine.Space{Name: "after-large-sources"}
	s.Judge = func(c engine.Case) engine.Verdict {
		i, _ := strconv.Atoi(c.Parts[0])
		n, _ := strconv.Atoi(c.Parts[1])
		u := units[i]
		src := u.pre + strings.Repeat(u.open, n) + u.mid + strings.Repeat(u.shut, n) + u.post
		if len(c.Parts) == 4 {
			src = src[:len(src)*2/3]
		}
		return judgeHistory(engine.Case{Space: c.Space, Opt: c.Opt, Parts: []string{src, c.Parts[2], src, c.Parts[2]}})
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := []int{5, 9, 17, 33, 65, 129, 257}
		if tier == "thorough" {
			ns = counts(600)
		}
		s.Bound = fmt.Sprintf("one parser is given each of %d repeatable constructs repeated {%v} times, whole and cut off, then one of %d probes, and both again", len(units), ns, len(probes))
		for i, u := range units {
			i, o := i, model.ParseOpt(u.opts)
			for _, n := range ns {
				n := n
				tasks = append(tasks, func(v *engine.Visitor) {
					for _, p := range probes {
						v.Check(o, strconv.Itoa(i), strconv.Itoa(n), p)
						v.Check(o, strconv.Itoa(i), strconv.Itoa(n), p, "cut")
					}
				})
			}
		}
		return
	}
	return s
}

// locatorQueries consists of sequences of queries to one locator
func locatorQueries() *engine.Space {
	s := &engine.Space{Name: "location-histories"}
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		src := c.Src()
		n := 2 * (len(src) + 2)
		ask := func(l *parser.Locator, q int) (got, want int) {
			off := q / 2
			line, pos := lineCol(src, off)
			if q%2 == 0 {
				return l.LineForOffset(off), line
			}
			return l.PosOnLine(off), pos
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				l := parser.NewLocator("f.pp", src)
				vd.Transitions += 3
				vd.Validated++
				for _, q := range []int{i, j, i} {
					if g, w := ask(l, q); g != w {
						vd.Msg = fmt.Sprintf("offset %d (after queries %d and %d): expected %d, got %d", q/2, i, j, w, g)
						return
					}
				}
			}
		}
		return
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 5
		if tier == "thorough" {
			n = 6
		}
		alpha := []string{"\n", "a", "\r", "é", "\U0001F600", "\xff"}
		s.Bound = fmt.Sprintf("all texts of at most %d characters out of %q, all sequences of two queries, and the first one again", n, alpha)
		for _, a := range alpha {
			a := a
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(src string, n int)
				rec = func(src string, n int) {
					v.Check(model.Opt{}, src)
					if n > 0 && !v.Stopped() {
						for _, c := range alpha {
							rec(src+c, n-1)
						}
					}
				}
				rec(a, n-1)
			})
		}
		return
	}
	return s
}

// largeTexts consists of something repeated a number of times
func largeTexts(judge func(c engine.Case) engine.Verdict) *engine.Space {
	s := &engine.Space{Name: "large-texts", Judge: judge}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		ns := append(counts(2100), far...)
		if tier == "thorough" {
			ns = counts(140000)
		}
		units := []string{"a", "\n", "\r\n", "é", "a\n", "€😀x\n", "\xff", "ab é\n\n", "\x00"}
		s.Bound = fmt.Sprintf("each of %q repeated {%v} times, alone and after and before other lines", units, ns)
		for _, n := range ns {
			n := n
			tasks = append(tasks, func(v *engine.Visitor) {
				for _, u := range units {
					x := strings.Repeat(u, n)
					v.Check(model.Opt{}, x)
					v.Check(model.Opt{}, "é\n"+x+"\na€b")
				}
			})
		}
		return
	}
	return s
}

// judgeFew asks for offsets at the start, at the end, in the middle and around powers of two
func judgeFew(c engine.Case) (vd engine.Verdict) {
	src := c.Src()
	set := map[int]bool{}
	for _, m := range []int{0, len(src) / 2, len(src)} {
		for d := -5; d <= 5; d++ {
			set[m+d] = true
		}
	}
	for p := 64; p <= len(src); p *= 2 {
		for d := -1; d <= 1; d++ {
			set[p+d], set[len(src)-p+d] = true, true
		}
	}
	a, b := parser.NewLocator("f.pp", src), parser.NewLocator("f.pp", src)
	var offs []int
	for o := range set {
		if o >= 0 && o <= len(src) {
			offs = append(offs, o)
		}
	}
	sort.Ints(offs)
	for i := range offs {
		for _, q := range []struct {
			l   *parser.Locator
			off int
		}{{a, offs[i]}, {b, offs[len(offs)-1-i]}} {
			line, pos := lineCol(src, q.off)
			vd.Transitions += 2
			vd.Validated++
			if g := q.l.LineForOffset(q.off); g != line {
				vd.Msg = fmt.Sprintf("offset %d: expected line %d, got %d", q.off, line, g)
				return
			}
			if g := q.l.PosOnLine(q.off); g != pos {
				vd.Msg = fmt.Sprintf("offset %d: expected position %d, got %d", q.off, pos, g)
				return
			}
		}
	}
	return
}

// lineCol is LineCol for offsets that may be beyond the end
func lineCol(src string, off int) (line, pos int) {
	if off > len(src) {
		off = len(src)
	}
	return drive.LineCol(src, off)
}

// node is an expression that is made by a user of the library
type node struct{ parser.Positioned }

// locatorSpace consists of texts
func locatorSpace() *engine.Space {
	s := &engine.Space{Name: "locations", Bound: "all texts over newline, carriage return, ASCII, multi byte and invalid characters up to a length x all offsets"}
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		src := c.Src()
		a, b := parser.NewLocator("some/file.pp", src), parser.NewLocator("", src)
		if a.File() != "some/file.pp" || a.String() != src || b.File() != "" {
			vd.Msg = "locator has wrong file or text"
			return
		}
		for off := 0; off <= len(src)+2; off++ {
			l, p := lineCol(src, off)
			if g := a.LineForOffset(off); g != l {
				vd.Msg = fmt.Sprintf("offset %d: expected line %d, got %d", off, l, g)
				return
			}
			// In the opposite order, and position before line
			q := len(src) + 2 - off
			m, r := lineCol(src, q)
			if g := b.PosOnLine(q); g != r {
				vd.Msg = fmt.Sprintf("offset %d: expected position %d, got %d", q, r, g)
				return
			}
			if g := b.LineForOffset(q); g != m {
				vd.Msg = fmt.Sprintf("offset %d: expected line %d, got %d", q, m, g)
				return
			}
			if g := a.PosOnLine(off); g != p {
				vd.Msg = fmt.Sprintf("offset %d: expected position %d, got %d", off, p, g)
				return
			}
			vd.Transitions += 4
			vd.Validated++
			if off > len(src) {
				continue
			}
			// An expression that is there
			x := &node{}
			for _, n := range []int{0, 1, len(src) - off} {
				if off+n > len(src) {
					continue
				}
				x.Init(a, off, n)
				if x.ByteOffset() != off || x.ByteLength() != n || x.String() != src[off:off+n] || x.File() != a.File() || x.Line() != l || x.Pos() != p || x.Locator() != a {
					vd.Msg = fmt.Sprintf("expression with %d characters at %d is wrong", n, off)
					return
				}
				if w := x.Location(); w.File() != a.File() || w.Line() != l || w.Pos() != p {
					vd.Msg = fmt.Sprintf("location of expression with %d characters at %d is wrong", n, off)
					return
				}
			}
		}
		return
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 7
		if tier == "thorough" {
			n = 8
		}
		alpha := []string{"\n", "a", "\r", "é", "\u20ac", "\U0001F600", "\x00", "\xff", "\t"}
		s.Bound += fmt.Sprintf(" (length <= %d)", n)
		tasks = append(tasks, func(v *engine.Visitor) {
			v.Check(model.Opt{}, "")
			// Long lines, and many lines
			for k := 1; k < 200; k++ {
				v.Check(model.Opt{}, strings.Repeat("é", k)+"\n"+strings.Repeat("\n", k)+"ab")
				v.Check(model.Opt{}, strings.Repeat("a\n", k))
			}
		})
		for _, a := range alpha {
			for _, b := range alpha {
				a, b := a, b
				tasks = append(tasks, func(v *engine.Visitor) {
					var rec func(src string, n int)
					rec = func(src string, n int) {
						v.Check(model.Opt{}, src)
						if n > 0 && !v.Stopped() {
							for _, c := range alpha {
								rec(src+c, n-1)
							}
						}
					}
					rec(a+b, n-2)
				})
			}
		}
		return
	}
	return s
}

func init() {
	add("P22", "A parser can be used for any number of sources", func() list {
		short := []string{"$a", "", "class a { class b { }", "class c { class d { function e { } } }", "@(E)\n x\n", "@(\"E\"/L) + [\n a${b}\n | E\n", "\"a${b[", "\"\"", "1.5e", "0x1F", "-1", "/a", "a / b", "\n\n$x = ", "\xff", "!1 + 2", "!1 2", "!(", "!", "type A = { a", "file { 'a': b => 1; }", "a $x", "/* c", "#", "if $x { class", "é"}
		epp := []string{"", "a", "<%", "<% | $x | %> a", "<%- if $a { -%> b", "<%= $a %>", "a <%# b %>\n<%- 1", "<%% %%>", "<% @(E) %>\n x\n E\n", "!<%= 1 %>", "\"${<%= 1 %>", "<% | $x"}
		steps := []string{"workflow w { } { resource a {", "workflow w { } { function read() { } }", "resource r { type => A } { x => $y }", "action a { returns => (", "plan p { }", "function f { }", "class c { workflow d {", "$x", "!$x", "'é", "stateHandler h { } each($x) |$y| { "}
		probes := []string{"$a", "class a { @(E)\n x\n  | E\n }", "\"${b}\"", "-1.5 / 2", "\n\n }", "!a(1)", "x => "}
		all := model.Opt{Tasks: true, Workflow: true, Hex: true, Backtick: true}
		return list{
			histories("sequences", short, 4, 5, model.Opt{}, all),
			histories("sequences-epp", epp, 4, 5, model.Opt{Epp: true}, model.Opt{Epp: true, Tasks: true, Workflow: true}),
			histories("sequences-steps", steps, 5, 6, model.Opt{Tasks: true, Workflow: true}),
			histories("pairs-of-forms", filledAll(spaces.Core()), 2, 2, model.Opt{}, all),
			histories("pairs-of-steps", filledAll(spaces.Join(spaces.Plans, spaces.Steps, spaces.Definitions, spaces.Strings)), 2, 3, all),
			histories("pairs-of-templates", append(eppPrograms(), epp...), 2, 3, model.Opt{Epp: true}),
			manyTimes("many-times", short, []string{"$a", "class a { @(E)\n x\n  | E\n }", "\"${b", "!a(1)"}, model.Opt{}, all),
			manyTimes("many-times-epp", append(epp, steps...), []string{"$a", "<% $x %>y", "workflow w { } { action a { } { } }"}, model.Opt{Epp: true}, all),
			aborted("aborted-programs", append(programs(), stepPrograms()...), probes, all),
			aborted("aborted-templates", eppPrograms(), append(probes, "a <%= $x %> b\n", "<%| $y | -%> b"), model.Opt{Epp: true}, model.Opt{Epp: true, Tasks: true}),
			separateParsers(),
			afterLarge(probes),
			aborted("aborted-forms", filledAll(spaces.Core()), probes, model.Opt{}),
		}
	}, "each outcome of one parser is compared with that of a new parser, those of separate parsers with the model")
	add("P36", "Offsets convert to lines and positions", func() list {
		l := locatorSpace()
		return list{l, locatorQueries(), largeTexts(judgeFew), eachCharacter("every-character", l.Judge, func(c string) []string { return []string{c, "a\n" + c + "b" + c, c + "\n" + c} })}
	})
}
