package drive

import (
	"fmt"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/model"
)

// Options returns the parser options that corresponds to the given configuration
func Options(o model.Opt) (r []parser.Option) {
	if o.Epp {
		r = append(r, parser.EppMode)
	}
	if o.Backtick {
		r = append(r, parser.HandleBacktickStrings)
	}
	if o.Hex {
		r = append(r, parser.HandleHexEscapes)
	}
	if o.Tasks {
		r = append(r, parser.TasksEnabled)
	}
	if o.Workflow {
		r = append(r, parser.WorkflowEnabled)
	}
	return
}

// Outcome is what the implementation made of a source
type Outcome struct {
	Expr  parser.Expression
	Err   error
	Panic string
}

// Run parses using a new parser
func Run(src string, o model.Opt) Outcome {
	return RunWith(parser.CreateParser(Options(o)...), src, o.Single)
}

// RunWith parses using the given parser
func RunWith(p parser.ExpressionParser, src string, single bool) (r Outcome) {
	defer func() {
		if x := recover(); x != nil {
			r = Outcome{Panic: fmt.Sprintf("%v\n%s", x, firstFrames(string(debug.Stack())))}
		}
	}()
	r.Expr, r.Err = p.Parse("f.pp", src, single)
	return
}

func firstFrames(s string) string {
	ls := strings.Split(s, "\n")
	var r []string
	for _, l := range ls {
		if strings.Contains(l, "/repo/") {
			r = append(r, strings.TrimSpace(l))
			if len(r) == 4 {
				break
			}
		}
	}
	return strings.Join(r, "\n")
}

// LineCol converts an offset to a line and a position on that line, both starting at 1
func LineCol(src string, off int) (int, int) {
	if off > len(src) {
		off = len(src)
	}
	nl := strings.LastIndexByte(src[:off], '\n')
	return strings.Count(src[:off], "\n") + 1, utf8.RuneCountInString(src[nl+1:off]) + 1
}

// CheckErr compares an error with the expected error. With args, the arguments are compared too
func CheckErr(src string, m *model.Err, err error, args bool) string {
	if m.Code == "INVALID_UNICODE" {
		var off int
		if _, ok := err.(issue.Reported); ok {
			return fmt.Sprintf("expected invalid unicode error, got %s", err)
		}
		if n, _ := fmt.Sscanf(err.Error(), "invalid unicode character at offset %d", &off); n != 1 {
			return fmt.Sprintf("expected invalid unicode error, got %s", err)
		}
		if off < m.Lo || off > m.Hi {
			return fmt.Sprintf("expected invalid unicode error at offset %d..%d, got %d", m.Lo, m.Hi, off)
		}
		return ""
	}
	r, ok := err.(issue.Reported)
	if !ok {
		// The character after a token may be looked at before the token is found to be unexpected
		var off int
		if n, _ := fmt.Sscanf(err.Error(), "invalid unicode character at offset %d", &off); n == 1 && off <= m.Hi+3 && off < len(src) {
			if c, sz := utf8.DecodeRuneInString(src[off:]); c == utf8.RuneError && sz == 1 {
				return ""
			}
		}
		return fmt.Sprintf("expected error %s, got %s", m, err)
	}
	if string(r.Code()) != m.Code {
		return fmt.Sprintf("expected error %s, got %s %s", m, r.Code(), err)
	}
	if f := MessageFault(r.Error()); f != "" && MessageFault(src) == "" {
		return f
	}
	if args {
		for k, v := range m.Args {
			if a := fmt.Sprint(r.Argument(k)); a != v {
				return fmt.Sprintf("expected argument %s of %s to be %q, got %q", k, m.Code, v, a)
			}
		}
	}
	return ""
}

// MessageFault returns what is wrong with a message
func MessageFault(m string) string {
	for _, s := range []string{"(MISSING)", "Positioned", "%!", "<nil>", "*parser."} {
		if strings.Contains(m, s) {
			return "message contains " + s + ": " + m
		}
	}
	return ""
}

// CheckErrLoc verifies the location of the error
func CheckErrLoc(src string, m *model.Err, err error) string { return checkErrLoc("f.pp", src, m, err) }

func checkErrLoc(file, src string, m *model.Err, err error) string {
	r, ok := err.(issue.Reported)
	if !ok {
		return ""
	}
	l := r.Location()
	if l == nil {
		return "error has no location"
	}
	if l.File() != file {
		return fmt.Sprintf("error has file %q", l.File())
	}
	l1, c1 := LineCol(src, m.Lo)
	l2, c2 := LineCol(src, m.Hi)
	ln, c := l.Line(), l.Pos()
	if ln < l1 || ln == l1 && c < c1 || ln > l2 || ln == l2 && c > c2 {
		return fmt.Sprintf("expected %s between %d:%d and %d:%d, got %d:%d", m.Code, l1, c1, l2, c2, ln, c)
	}
	return ""
}

// Level is the set of aspects that are compared
type Level int

const (
	// Accept compares the verdict
	Accept Level = 1 << iota
	// Shape compares the AST
	Shape
	// Code compares error codes and arguments
	Code
	// Loc compares the location of nodes
	Loc
	// ErrLoc compares the location of errors
	ErrLoc
	// Defs compares the list of definitions
	Defs
)

// Diff is how the implementation differs from the model
type Diff struct {
	Msg      string
	Res      model.Result
	Out      Outcome
	R        *Reified
	Accepted bool
	Skipped  bool
}

// Compare parses the source with the model and the implementation and returns the first difference
func Compare(src string, o model.Opt, lv Level) Diff {
	return CompareOutcome(src, o, lv, Run(src, o))
}

// CompareOutcome compares a given outcome with what the model expects
func CompareOutcome(src string, o model.Opt, lv Level, out Outcome) (d Diff) {
	return CompareFile("f.pp", src, o, lv, out)
}

// CompareFile compares the outcome of a source in a file
func CompareFile(file, src string, o model.Opt, lv Level, out Outcome) (d Diff) {
	d.Out = out
	if out.Panic != "" {
		d.Msg = "panic: " + out.Panic
		return
	}
	d.Res = model.Parse(src, o)
	if d.Res.Over {
		d.Skipped = true
		return
	}
	d.Accepted = d.Res.Err == nil
	if d.Res.Err != nil {
		if out.Err == nil {
			d.Msg = fmt.Sprintf("accepted, expected error %s", d.Res.Err)
			return
		}
		if lv&Code != 0 {
			if d.Msg = CheckErr(src, d.Res.Err, out.Err, true); d.Msg != "" {
				return
			}
		}
		if lv&ErrLoc != 0 {
			d.Msg = checkErrLoc(file, src, d.Res.Err, out.Err)
		}
		return
	}
	if out.Err != nil {
		d.Msg = fmt.Sprintf("rejected: %s", out.Err)
		return
	}
	if out.Expr == nil {
		d.Msg = "neither AST nor error"
		return
	}
	if lv&(Shape|Loc|Defs) == 0 {
		return
	}
	d.R = Reify(out.Expr)
	if lv&Shape != 0 {
		if d.Msg = model.SameShape(d.Res.Root, d.R.Root); d.Msg != "" {
			return
		}
	}
	if lv&Loc != 0 {
		if d.Msg = model.SameLoc(d.Res.Root, d.R.Root); d.Msg != "" {
			return
		}
	}
	if lv&Defs != 0 && !o.Single {
		d.Msg = CompareDefs(d.Res, d.R)
	}
	return
}

// CompareDefs compares the definitions of a program. They must be the nodes that are found in the AST
func CompareDefs(m model.Result, r *Reified) string {
	if len(m.Defs) != len(r.Defs) {
		return fmt.Sprintf("expected %d definitions, got %d", len(m.Defs), len(r.Defs))
	}
	mi, ri := map[*model.Node]int{}, map[*model.Node]int{}
	index(m.Root, mi)
	index(r.Root, ri)
	for i := range m.Defs {
		a, ok1 := mi[m.Defs[i]]
		b, ok2 := ri[r.Defs[i]]
		if a != b || ok1 != ok2 {
			return fmt.Sprintf("definition %d: expected %s, got %s", i, m.Defs[i].Dump(), r.Defs[i].Dump())
		}
		if !ok1 {
			if s := model.SameShape(m.Defs[i], r.Defs[i]); s != "" {
				return fmt.Sprintf("definition %d: %s", i, s)
			}
		}
	}
	return ""
}

func index(n *model.Node, m map[*model.Node]int) {
	m[n] = len(m)
	for _, c := range n.Children() {
		index(c, m)
	}
}
