package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// checkTotal verifies that the outcome is complete, and uses everything that a syntax tree has to offer. Panics are
// caught by the engine
func checkTotal(src string, o model.Opt, out drive.Outcome) string {
	if out.Panic != "" {
		return "panic: " + out.Panic
	}
	if out.Err != nil {
		if out.Expr != nil {
			return "both a tree and an error: " + out.Err.Error()
		}
		m := out.Err.Error()
		if strings.TrimSpace(m) == "" {
			return "error without message"
		}
		r, ok := out.Err.(issue.Reported)
		if !ok {
			if utf8.ValidString(src) {
				return fmt.Sprintf("unexpected %T: %s", out.Err, m)
			}
			return ""
		}
		if s := drive.MessageFault(m); s != "" && drive.MessageFault(src) == "" {
			return s
		}
		if l := r.Location(); l == nil || l.File() != "f.pp" || l.Line() < 1 || l.Line() > strings.Count(src, "\n")+1 || l.Pos() < 1 {
			return "error has no proper location: " + m
		}
		if pn.ReportedToPN(r).String() == "" {
			return "empty PN of error"
		}
		return ""
	}
	if out.Expr == nil {
		return "neither a tree nor an error"
	}
	rf := drive.Reify(out.Expr)
	if len(rf.Of) > 600 {
		// Deep trees
		return useAll(out.Expr)
	}
	for n, x := range rf.Of {
		if n.K == "Epp" && n.Child("body") == nil {
			continue
		}
		if x.ToPN().String() == "" {
			return "empty PN of " + n.K
		}
		if x.Label() == "" {
			return "node without label: " + n.K
		}
		if x.ByteOffset() < 0 || x.ByteLength() < 0 || x.ByteOffset()+x.ByteLength() > len(src) {
			return fmt.Sprintf("%s at %d length %d is not within the source", n.K, x.ByteOffset(), x.ByteLength())
		}
		if x.String() != src[x.ByteOffset():x.ByteOffset()+x.ByteLength()] {
			return fmt.Sprintf("%s has text %q", n.K, x.String())
		}
		if x.Line() < 1 || x.Pos() < 1 || x.File() != "f.pp" || x.Locator().String() != src {
			return n.K + " has no proper location"
		}
		literal.ToLiteral(x)
	}
	return useAll(out.Expr)
}

func useAll(e parser.Expression) string {
	p := e.ToPN()
	if p.String() == "" {
		return "empty PN"
	}
	b := &bytes.Buffer{}
	json.ToJson(p.ToData(), b)
	if b.Len() == 0 {
		return "empty JSON"
	}
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {})
	for _, m := range []mode{{"puppet", "warning"}, {"tasks", ""}, {"workflow", ""}} {
		for _, i := range run(e, m.flavour, m.strict) {
			if i.Error() == "" || i.Location() == nil {
				return "incomplete validation issue"
			}
		}
	}
	return ""
}

func judgeTotal(c engine.Case) engine.Verdict {
	out := drive.Run(c.Src(), c.Options())
	return engine.Verdict{Msg: checkTotal(c.Src(), c.Options(), out), Rejected: out.Err != nil, Transitions: 1}
}

// repeated is the source that nests a form in itself
func repeated(parts []string) string {
	n, _ := strconv.Atoi(parts[2])
	return strings.Repeat(parts[0], n) + "$a" + strings.Repeat(parts[1], n)
}

// deepSpace nests each form in itself
func deepSpace(forms []string, o ...model.Opt) *engine.Space {
	s := &engine.Space{Name: "deep-nesting", Bound: "each form nested in itself, with and without terminators"}
	s.Judge = func(c engine.Case) engine.Verdict {
		src := repeated(c.Parts)
		out := drive.Run(src, c.Options())
		return engine.Verdict{Msg: checkTotal(src, c.Options(), out), Rejected: out.Err != nil, Transitions: 1}
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		depths := []string{"2", "3", "5", "8", "50", "400"}
		if tier == "thorough" {
			depths = append(depths, "4", "6", "7", "100", "200")
		}
		s.Bound += fmt.Sprintf(" (%d forms, depths %v)", len(forms), depths)
		for _, o := range o {
			for _, f := range forms {
				for _, h := range spaces.Holes(f) {
					o, h, f := o, h, f
					tasks = append(tasks, func(v *engine.Visitor) {
						for _, d := range depths {
							if len(d) > 1 && rescans(f) {
								continue
							}
							v.Check(o, h[0], h[1], d)
							v.Check(o, h[0], "", d)
							v.Check(o, "", h[1], d)
						}
					})
				}
			}
		}
		return
	}
	return s
}

// rescans is true for calls with a hash but no parentheses. Their first element is scanned twice, so the time to parse
// grows exponentially with the depth
func rescans(f string) bool {
	return strings.HasPrefix(f, "include {") || strings.HasPrefix(f, "notice {")
}

func init() {
	add("P01", "Parsing is total: every source yields a tree or an error", func() list {
		anyForm := spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps)
		allBytes := []string{}
		for i := 0; i < 256; i++ {
			allBytes = append(allBytes, string([]byte{byte(i)}))
		}
		chars := append(spaces.Chars("aA1_$'\"`\\/:;,.(){}[]<>=+-*%!?@#|~&^ \n\t0ex"), "\r", "\x00", "\xff", "é", "\xe2\x82", "\ufffd", "\u2028")
		tokens := w(`a A $a $ 1 0x 1. 'x' ' " ${ "a" { } ( ) [ ] , ; : :: => +> = += == =~ ! ? . .. | <| |> <<| |>> -> @ @@ @( /r/ / * + - < << in and or if else elsif unless case default class define function plan type node site inherits application produces workflow resource action stateHandler undef true attr private include a{ A{ a( $a[ # /* \n @(E)\n \nE\n <% %> <%= -%> <%# <%%`)
		configs := opts("plain", "epp", "tasks+workflow+hex+backtick", "single")
		every := append(all32(), model.Opt{Single: true}, model.Opt{Single: true, Epp: true})
		return append(judged(judgeTotal,
			seq{Name: "bytes", Opts: every, Items: allBytes, Len: lim(1, 2)}.Space(),
			seq{Name: "byte-pairs", Opts: configs, Items: allBytes, Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-string", Opts: opts("hex"), Prefix: "\"", Items: allBytes, Suffix: "\"", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-single-quotes", Prefix: "'", Items: allBytes, Suffix: "'", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-regexp", Prefix: "/", Items: allBytes, Suffix: "/", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-comment", Prefix: "a(#", Items: allBytes, Suffix: "\n)", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-tag", Prefix: "@(", Items: allBytes, Suffix: ")\na\nA\n", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-name", Prefix: "$a", Items: allBytes, Suffix: "b", Len: lim(2, 2)}.Space(),
			seq{Name: "bytes-in-heredoc", Prefix: "@(\"E\"/L)\n", Items: chars, Suffix: "\n| E\n", Len: lim(3, 4)}.Space(),
			seq{Name: "bytes-in-template", Opts: opts("epp"), Prefix: "<%", Items: chars, Len: lim(3, 4)}.Space(),
			seq{Name: "characters", Opts: opts("tasks+workflow+hex+backtick"), Items: chars, Len: lim(3, 4)}.Space(),
			seq{Name: "characters-epp", Opts: opts("epp"), Items: chars, Len: lim(3, 3)}.Space(),
			seq{Name: "tokens", Opts: opts("tasks+workflow"), Items: tokens, Seps: []string{"", " "}, Len: lim(3, 3)}.Space(),
			seq{Name: "tokens-epp", Opts: opts("epp"), Items: tokens, Seps: []string{" "}, Len: lim(2, 3)}.Space(),
			seq{Name: "tokens-single", Opts: opts("single"), Items: tokens, Seps: []string{" "}, Len: lim(2, 3)}.Space(),
			seq{Name: "tokens-in-block", Opts: opts("tasks+workflow"), Prefix: "class x { ", Items: tokens, Seps: []string{" "}, Suffix: " }", Len: lim(3, 3)}.Space(),
			seq{Name: "tokens-in-step", Opts: opts("workflow"), Prefix: "workflow x { ", Items: tokens, Seps: []string{" "}, Suffix: " } { }", Len: lim(2, 3)}.Space(),
			mutate{Name: "edited-forms", Opts: opts("tasks+workflow"), Corpus: filledAll(anyForm), Ins: append(w(`{ } ( ' " $ | @( E /* # <% => \\`), "\n", "\x00", "\xff", "é"), Range: lim(3, 40), Judge: judgeTotal}.Space(),
			mutate{Name: "edited-programs", Opts: opts("tasks+workflow"), Corpus: append(programs(), stepPrograms()...), Ins: chars, Range: lim(10, 100), Judge: judgeTotal}.Space(),
			mutate{Name: "edited-templates", Opts: opts("epp", "plain"), Corpus: eppPrograms(), Ins: chars, Range: lim(20, 100), Judge: judgeTotal}.Space(),
			nest{Name: "nested-forms", Opts: opts("tasks+workflow"), Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 3)}.Space(),
		), append(reuse(judgeTotal, 2, grammar...), deepSpace(anyForm, model.Opt{Tasks: true, Workflow: true}))...)
	})
}
