package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// custom is a validator that is written by a user of the library
type custom struct {
	validator.AbstractValidator
	f func(e parser.Expression)
}

func (c *custom) Validate(e parser.Expression) { c.f(e) }

// extended adds to the rules of a checker
type extended struct {
	validator.Checker
	f func(e parser.Expression)
}

func (x *extended) Validate(e parser.Expression) {
	x.Checker.Validate(e)
	x.f(e)
}

// containers is implemented by all validators
type containers interface {
	Container() parser.Expression
	ContainerOf(e parser.Expression) parser.Expression
}

// demotable is implemented by all validators
type demotable interface {
	validator.Validator
	Accept(code issue.Code, e parser.Expression, args issue.H)
	Demote(code issue.Code, severity issue.Severity)
}

// checkCustom validates the tree with a validator that only looks at where it is
func checkCustom(r *drive.Reified, e parser.Expression, src string) (msg string) {
	parent := map[parser.Expression]map[parser.Expression]bool{}
	occurs := map[parser.Expression]int{e: 1}
	kids := map[parser.Expression][]parser.Expression{}
	total := 0
	var index func(n *model.Node)
	index = func(n *model.Node) {
		total++
		for _, c := range n.Children() {
			x := r.Of[c]
			if parent[x] == nil {
				parent[x] = map[parser.Expression]bool{}
			}
			parent[x][r.Of[n]] = true
			kids[r.Of[n]] = append(kids[r.Of[n]], x)
			occurs[x]++
			index(c)
		}
	}
	index(r.Root)
	fail := func(f string, a ...interface{}) {
		if msg == "" {
			msg = fmt.Sprintf(f, a...)
		}
	}
	seen := map[parser.Expression]int{}
	count := 0
	look := func(c containers, x parser.Expression) {
		count++
		if seen[x]++; seen[x] > occurs[x] {
			fail("%T is validated too often, or isn't in the tree", x)
			return
		}
		p := c.Container()
		if x == e {
			if p != nil {
				fail("the container of the top expression is %T", p)
			}
		} else if p == nil {
			fail("%T has no container", x)
		}
		if q := c.ContainerOf(x); q != p {
			fail("the container of %T is %T, but ContainerOf finds %T", x, p, q)
		}
		for _, k := range kids[x] {
			if occurs[k] == 1 && c.ContainerOf(k) != nil {
				fail("ContainerOf finds the container of %T, which isn't validated yet", k)
			}
		}
		for i := 0; p != nil && msg == ""; i++ {
			if !parent[x][p] {
				fail("%d: %T isn't the container of %T", i, p, x)
			}
			if seen[p] == 0 {
				fail("%T is validated before %T", x, p)
			}
			if x, p = p, c.ContainerOf(p); p == nil && x != e {
				fail("%d: the containers end with %T", i, x)
			}
		}
	}
	done := func(what string) {
		if count != total {
			fail("%s: %d of %d expressions are validated", what, count, total)
		}
		count, seen = 0, map[parser.Expression]int{}
	}
	c := &custom{}
	c.f = func(x parser.Expression) { look(c, x) }
	for _, what := range []string{"validation", "repeated validation"} {
		validator.Validate(c, e)
		done(what)
	}
	for _, m := range allModes {
		x := &extended{Checker: checkerFor(m.flavour, m.strict)}
		cs, ok := x.Checker.(containers)
		if !ok {
			fail("%T has no Container and ContainerOf", x.Checker)
			break
		}
		x.f = func(y parser.Expression) { look(cs, y) }
		validator.Validate(x, e)
		done("extended " + m.flavour)
		if g, w := issueList(x.Issues()), issueList(run(e, m.flavour, m.strict)); g != w {
			fail("%s/%s: an extension that adds nothing gives %q, expected %q", m.flavour, m.strict, g, w)
		}
	}
	return
}

// softCodes are the issues that can be demoted
var softCodes = map[issue.Code]bool{validator.ValidateDuplicateKey: true, validator.ValidateFutureReservedWord: true, validator.ValidateIdemExpressionNotLast: true}

const demotedSource = "[{a => 1, 'a' => 2}]\n1\nfunction f() >> Application { private }\n$a::b = 1\n'x'"

// severitySpace consists of all histories of use of a validator
func severitySpace() *engine.Space {
	s := &engine.Space{Name: "severities", Bound: "all sequences of Demote, Accept, Validate and Clear"}
	codes := []string{validator.ValidateDuplicateKey, validator.ValidateFutureReservedWord, validator.ValidateIdemExpressionNotLast, validator.ValidateReservedWord, validator.ValidateCrossScopeAssignment}
	var ops []string
	for i, c := range codes {
		for sev := 1; sev <= 4; sev++ {
			if i < 3 || sev == 1 || sev == 3 {
				ops = append(ops, fmt.Sprintf("demote %s %d", c, sev))
			}
		}
		if i != 1 && i != 4 {
			ops = append(ops, "accept "+c)
		}
	}
	ops = append(ops, "demote "+codes[0]+" 0", "demote "+codes[2]+" 5", "demote "+codes[3]+" 5", "clear", "validate")
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		out := drive.Run(demotedSource, model.Opt{})
		if out.Err != nil || out.Panic != "" {
			return engine.Verdict{Msg: "can't parse: " + out.Panic + errText(out.Err)}
		}
		type reported struct {
			code issue.Code
			sev  issue.Severity
		}
		flavours := append([]mode{{"custom", ""}}, allModes...)
		for _, m := range flavours {
			var v demotable
			sev := map[issue.Code]issue.Severity{}
			// What validation of the source reports when nothing is ignored
			var base []issue.Code
			if m.flavour == "custom" {
				cu := &custom{}
				cu.f = func(e parser.Expression) {
					switch e.(type) {
					case *parser.LiteralHash:
						cu.Accept(validator.ValidateDuplicateKey, e, issue.H{"key": "a"})
					case *parser.ReservedWord:
						cu.Accept(validator.ValidateReservedWord, e, issue.H{"word": "b"})
					}
				}
				v = cu
				base = []issue.Code{validator.ValidateDuplicateKey}
				for _, i := range run(out.Expr, "puppet", "error") {
					if i.Code() == validator.ValidateReservedWord {
						base = append(base, i.Code())
					}
				}
			} else {
				var ok bool
				if v, ok = checkerFor(m.flavour, m.strict).(demotable); !ok {
					vd.Msg = m.flavour + ": no Accept and Demote"
					return
				}
				strict := m.strict
				if m.flavour == "puppet" {
					strict = "error"
				}
				for _, i := range run(out.Expr, m.flavour, strict) {
					base = append(base, i.Code())
				}
				sev[validator.ValidateFutureReservedWord] = issue.SeverityDeprecation
				if m.strict != "error" {
					x := issue.SeverityWarning
					if m.strict == "off" {
						x = issue.SeverityIgnore
					}
					sev[validator.ValidateDuplicateKey] = x
					sev[validator.ValidateIdemExpressionNotLast] = x
				}
			}
			var want []reported
			accept := func(code issue.Code) {
				x, ok := sev[code]
				if !ok {
					x = issue.SeverityError
				}
				if x != issue.SeverityIgnore {
					want = append(want, reported{code, x})
				}
			}
			for i, op := range c.Parts {
				f := strings.Fields(op)
				at := fmt.Sprintf("%s/%s: %d, %s: ", m.flavour, m.strict, i, op)
				vd.Transitions++
				vd.Validated++
				switch f[0] {
				case "demote":
					n, _ := strconv.Atoi(f[2])
					code := issue.Code(f[1])
					ok := softCodes[code] && n >= 1 && n <= 4
					p := panics(func() { v.Demote(code, issue.Severity(n)) })
					if ok != (p == nil) {
						vd.Msg = at + fmt.Sprintf("allowed %v, got %v", ok, p)
						return
					}
					if ok {
						sev[code] = issue.Severity(n)
					}
				case "accept":
					accept(issue.Code(f[1]))
					v.Accept(issue.Code(f[1]), out.Expr, issue.H{"key": "k", "word": "w", "expression": out.Expr, "name": "n"})
				case "clear":
					v.Clear()
					want = nil
				case "validate":
					validator.Validate(v, out.Expr)
					want = nil
					for _, b := range base {
						accept(b)
					}
				}
				var got []reported
				for _, r := range v.Issues() {
					got = append(got, reported{r.Code(), r.Severity()})
				}
				if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
					vd.Msg = at + fmt.Sprintf("expected issues %s, got %s", w, g)
					return
				}
			}
		}
		return
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		n := 3
		if tier == "thorough" {
			n = 4
		}
		s.Bound += fmt.Sprintf(" (%d operations, length <= %d) with each kind of validator", len(ops), n)
		for _, p := range ops {
			p := p
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(l []string)
				rec = func(l []string) {
					if v.Stopped() {
						return
					}
					if len(l) == n {
						v.Check(model.Opt{}, l...)
						return
					}
					for _, q := range ops {
						rec(append(append([]string{}, l...), q))
					}
				}
				rec([]string{p})
			})
		}
		return
	}
	return s
}

// panics returns what f panics with
func panics(f func()) (x interface{}) {
	defer func() { x = recover() }()
	f()
	return
}

// readerSpace consists of texts. A reader is in all states, and for each state all operations are done
func readerSpace(name string, alpha []string, q, t int) *engine.Space {
	s := seq{Name: name, Items: alpha, Len: lim(q, t), Judge: judgeReader}.Space()
	s.Bound += ", and for each text all sequences of up to three operations from all positions"
	return s
}

type readerOp struct {
	name byte
	arg  int
}

func judgeReader(c engine.Case) (vd engine.Verdict) {
	text := c.Src()
	var ops []readerOp
	ops = append(ops, readerOp{'n', 0}, readerOp{'p', 0}, readerOp{'a', 0})
	for i := 0; i <= len(text); i++ {
		ops = append(ops, readerOp{'s', i}, readerOp{'f', i})
	}
	depth := 3
	if len(text) > 6 {
		depth = 2
	}
	hist := make([]readerOp, depth)
	var rec func(n, from int)
	rec = func(n, from int) {
		if n == depth {
			vd.States++
			vd.Validated += depth
			vd.Transitions += depth
			if m := readText(text, from, hist); m != "" && vd.Msg == "" {
				vd.Msg = fmt.Sprintf("from %d, %s: %s", from, opText(hist), m)
			}
			return
		}
		for _, o := range ops {
			if vd.Msg == "" {
				hist[n] = o
				rec(n+1, from)
			}
		}
	}
	for from := 0; from <= len(text); from++ {
		rec(0, from)
	}
	if vd.Msg == "" {
		vd.Msg = readAll(text)
	}
	return
}

// judgeOnce reads a text, and does each single operation at each position
func judgeOnce(c engine.Case) (vd engine.Verdict) {
	text := c.Src()
	for from := 0; from <= len(text); from++ {
		for _, o := range []byte{'n', 'p', 'a'} {
			vd.Validated++
			vd.Transitions++
			if m := readText(text, from, []readerOp{{o, 0}}); m != "" {
				vd.Msg = fmt.Sprintf("from %d, %c: %s", from, o, m)
				return
			}
		}
	}
	vd.Msg = readAll(text)
	return
}

// bytesSpace consists of all sequences of bytes
func bytesSpace() *engine.Space {
	s := &engine.Space{Name: "byte-sequences", Judge: judgeOnce}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		// After the first two bytes
		rest := []string{"", "\x00", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\xff", "\x80\x80", "\xbf\xbf", "\x80a"}
		s.Bound = "all sequences of two bytes, alone and followed by each of 13 others"
		if tier == "thorough" {
			s.Bound = "all sequences of three bytes, alone and followed by each of 13 others"
		}
		for a := 0; a < 256; a++ {
			a := byte(a)
			tasks = append(tasks, func(v *engine.Visitor) {
				for b := 0; b < 256 && !v.Stopped(); b++ {
					if tier != "thorough" {
						for _, r := range rest {
							v.Check(model.Opt{}, string([]byte{a, byte(b)})+r)
						}
						continue
					}
					for c := 0; c < 256; c++ {
						for _, r := range rest {
							v.Check(model.Opt{}, string([]byte{a, byte(b), byte(c)})+r)
						}
					}
				}
			})
		}
		return
	}
	return s
}

func opText(l []readerOp) string {
	s := ""
	for _, o := range l {
		s += fmt.Sprintf(" %c%d", o.name, o.arg)
	}
	return s
}

// readAll reads the whole text and compares with the characters of the text
func readAll(text string) string {
	r := parser.NewStringReader(text)
	for i, want := range text {
		if want == utf8.RuneError && !strings.HasPrefix(text[i:], "\uFFFD") {
			if p := panics(func() { r.Next() }); p == nil {
				return fmt.Sprintf("invalid character at %d was accepted", i)
			}
			return ""
		}
		if c, at := r.Next(); c != want || at != i {
			return fmt.Sprintf("expected %q at %d, got %q at %d", want, i, c, at)
		}
	}
	for i := 0; i < 2; i++ {
		if c, _ := r.Next(); c != 0 || r.Pos() != len(text) {
			return fmt.Sprintf("expected 0 at the end, got %q, position %d", c, r.Pos())
		}
	}
	return ""
}

func readText(text string, pos int, ops []readerOp) string {
	r := parser.NewStringReader(text)
	if r.Pos() != 0 {
		return "doesn't start at 0"
	}
	r.SetPos(pos)
	for i, o := range ops {
		want, size := rune(0), 0
		if pos < len(text) {
			want, size = utf8.DecodeRuneInString(text[pos:])
		}
		bad := want == utf8.RuneError && size == 1
		fail := func(f string, a ...interface{}) string {
			return fmt.Sprintf("operation %d: ", i+1) + fmt.Sprintf(f, a...)
		}
		switch o.name {
		case 'n', 'p', 'a':
			var c rune
			var n int
			p := panics(func() {
				if o.name == 'n' {
					c, n = r.Next()
				} else {
					c, n = r.Peek()
				}
			})
			if bad {
				e, ok := p.(error)
				if !ok {
					return fail("invalid character at %d gives %v", pos, p)
				}
				if t := fmt.Sprintf("invalid unicode character at offset %d", pos); e.Error() != t {
					return fail("expected %q, got %q", t, e)
				}
				break
			}
			if p != nil {
				return fail("panic: %v", p)
			}
			if c != want {
				return fail("expected %q at %d, got %q", want, pos, c)
			}
			if o.name == 'n' {
				if n != pos {
					return fail("Next at %d says that it starts at %d", pos, n)
				}
				pos += size
				break
			}
			if n != size {
				return fail("Peek at %d gives size %d, expected %d", pos, n, size)
			}
			if o.name == 'a' {
				r.Advance(n)
				pos += n
			}
		case 's':
			r.SetPos(o.arg)
			pos = o.arg
		case 'f':
			if o.arg > pos {
				break
			}
			if s := r.From(o.arg); s != text[o.arg:pos] {
				return fail("From(%d) at %d gives %q", o.arg, pos, s)
			}
		}
		if r.Pos() != pos {
			return fail("expected position %d, got %d", pos, r.Pos())
		}
		if r.Text() != text {
			return fail("text is changed to %q", r.Text())
		}
	}
	return ""
}

func init() {
	add("P37", "A reader yields the characters of its text from any position", func() list {
		chars := []string{"a", "\n", "\x00", "é", "€", "😀", "\xff", "\xc3", "\x80", "\uFFFD"}
		all := func() (r []string) {
			// first and last of each length and class, and invalid encodings of them
			for _, c := range []rune{1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff} {
				r = append(r, string(c))
			}
			return append(r, "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xc0\x80", "\xe0\x80\x80", "\xf8", "\xef\xbf", "\xf0\x9f\x98", "\xbf", "a", "\x00", "")
		}()
		return list{
			readerSpace("short-texts", chars, 3, 4),
			eachCharacter("every-character", judgeOnce, func(c string) []string {
				return []string{c, "a" + c, c + "a", c + c, c + "\x80", c[:len(c)-1], "a" + c[1:], "\xff" + c}
			}),
			bytesSpace(),
			largeTexts(judgeOnce),
			product{Name: "limits", Pos: [][]string{{"", "a", "é"}, all, all}, Judge: judgeReader}.Space(),
		}
	})
	add("P38", "Validators that are written by users of the library", func() list {
		anyForm := spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps)
		return append(list{severitySpace()}, append(judged(treeJudge(checkCustom),
			branches(opts("tasks+workflow")[0]),
			amongMany(opts("tasks+workflow")[0], false),
			nest{Name: "containers", Opts: opts("tasks+workflow"), Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 3)}.Space(),
			nest{Name: "containers-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 2), Wrap: func(s string) string { return "<%- | $p = 1 | -%>é\n <%= " + s + " %> b\n<% " + s + " -%>  " }}.Space(),
			nest{Name: "containers-single", Opts: opts("single"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 2)}.Space(),
		), reuse(treeJudge(checkCustom), 3, `P05`, `P07`, `P14`, `P20`)...)...)
	})
}
