// Command conc explores the interleavings of two threads that use the code under test. It is built from an
// instrumented copy of the code (see cmd/instr) and with the race detector.
//
// usage: conc list | conc want A | conc count A B | conc explore A B FIRST BOUND all|shared LO HI STATE
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
	"verif/mc/drive"
	"verif/mc/model"
	"verif/mc/vsched"
)

// shared is what both threads have access to
type shared struct {
	tree parser.Expression
	err  error
	loc  *parser.Locator
}

// op is an operation of a thread. It returns a function that describes its result
type op struct {
	name string
	f    func(s *shared) func() string
	// before is executed before the threads start. The name is then that of both with a '>' between
	before func(s *shared) func() string
}

const treeSrc = "class a($x) {\n  file { \"t${x}\": a +> 1 }\n  $y = {b => 1, 'b' => 0x1F}\n}"

func text(r string) func() string { return func() string { return r } }

func describe(o drive.Outcome) func() string {
	return func() string {
		if o.Panic != "" {
			return "panic " + o.Panic
		}
		if o.Err != nil {
			return "error " + o.Err.Error()
		}
		r := drive.Reify(o.Expr)
		b := make([]byte, 0, 1000)
		var rec func(n *model.Node)
		rec = func(n *model.Node) {
			b = append(append(b, '('), n.K...)
			for _, i := range []int64{int64(n.Off), int64(n.End), n.I, int64(n.F * 1000), int64(n.R)} {
				b = strconv.AppendInt(append(b, ' '), i, 10)
			}
			b = append(append(append(append(b, ' '), n.S...), ' '), n.S2...)
			if n.B {
				b = append(b, '+')
			}
			for _, s := range n.Slots {
				for _, c := range s.L {
					rec(c)
				}
			}
			b = append(b, ')')
		}
		rec(r.Root)
		for _, d := range r.Defs {
			b = strconv.AppendInt(append(append(b, ' '), d.K...), int64(d.Off), 10)
		}
		return string(b)
	}
}

func issues(l []issue.Reported) func() string {
	return func() string {
		var r []string
		for _, i := range l {
			r = append(r, i.String())
		}
		sort.Strings(r)
		return strings.Join(r, "\n")
	}
}

func walk(s *shared, f func(x parser.Expression) string) func() string {
	b := &strings.Builder{}
	s.tree.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
		b.WriteString(f(x) + "/" + strconv.Itoa(len(path)) + " ")
	})
	return text(b.String())
}

// accessors calls the methods that have no arguments and those that look up something by name
func accessors(x parser.Expression) string {
	b := &strings.Builder{}
	v := reflect.ValueOf(x)
	for i := 0; i < v.NumMethod(); i++ {
		m, t := v.Method(i), v.Method(i).Type()
		name := v.Type().Method(i).Name
		if t.IsVariadic() || name == "ToPN" || name == "String" || name == "Label" {
			continue
		}
		var args [][]reflect.Value
		switch {
		case t.NumIn() == 0:
			args = append(args, nil)
		case t.NumIn() == 1 && t.In(0).Kind() == reflect.String:
			for _, k := range []string{"b", "a", "none"} {
				args = append(args, []reflect.Value{reflect.ValueOf(k)})
			}
		}
		for _, a := range args {
			for _, r := range m.Call(a) {
				switch r.Kind() {
				case reflect.Slice:
					fmt.Fprint(b, r.Len())
				case reflect.String, reflect.Int, reflect.Int64, reflect.Bool, reflect.Float64:
					fmt.Fprint(b, r.Interface())
				case reflect.Interface, reflect.Ptr:
					fmt.Fprint(b, r.IsNil())
				}
			}
		}
	}
	return b.String()
}

func parse(src string, o model.Opt) func(*shared) func() string {
	return func(*shared) func() string { return describe(drive.Run(src, o)) }
}

var ops = []op{
	{name: "parse-numbers", f: parse("$a = -0x1F + 017 * 1.5e3", model.Opt{})},
	{name: "parse-strings", f: parse("'a\\'' \"b\\n${c}$d\" /r/", model.Opt{})},
	{name: "parse-heredoc", f: parse("@(\"E\"/tL)\n  a${b}\n  | E\n", model.Opt{})},
	{name: "parse-class", f: parse("class b { define c { include d } }", model.Opt{})},
	{name: "parse-resource", f: parse("@file { 'a': b => 1; } A<|x == 1|>", model.Opt{})},
	{name: "parse-call", f: parse("notice $a.b(1) |$c| {}", model.Opt{})},
	{name: "parse-template", f: parse("<% | $x | -%> é <%= $x %>", model.Opt{Epp: true})},
	{name: "parse-step", f: parse("resource a { type => $t } { x => [$y] }", model.Opt{Workflow: true})},
	{name: "parse-plan", f: parse("plan p($x) { `y` \"\\x41\" }", model.Opt{Tasks: true, Hex: true, Backtick: true})},
	{name: "parse-control", f: parse("if $a { 1 } else { case 2 { 3: {} } }", model.Opt{})},
	{name: "parse-type", f: parse("type A = B[C, {d => e}]", model.Opt{})},
	{name: "parse-syntax-error", f: parse("class a { $x = [1, ]]", model.Opt{})},
	{name: "parse-lexer-error", f: parse("\n\n 'abc", model.Opt{})},
	{name: "parse-invalid", f: parse("$a\xff", model.Opt{})},
	{name: "tree-lines", f: func(s *shared) func() string {
		n := 0
		return walk(s, func(x parser.Expression) string {
			if n++; n > 5 {
				return ""
			}
			return fmt.Sprint(x.Line(), ":", x.Pos(), x.File())
		})
	}},
	{name: "tree-text", f: func(s *shared) func() string {
		return walk(s, func(x parser.Expression) string { return x.String() + x.Label() })
	}},
	{name: "tree-pn", f: func(s *shared) func() string { return text(s.tree.ToPN().String()) }},
	{name: "tree-json", f: func(s *shared) func() string {
		b := &bytes.Buffer{}
		pjson.ToJson(s.tree.ToPN().ToData(), b)
		return text(b.String())
	}},
	{name: "tree-literals", f: func(s *shared) func() string {
		return walk(s, func(x parser.Expression) string {
			v, ok := literal.ToLiteral(x)
			if m, isMap := v.(map[interface{}]interface{}); isMap {
				v = len(m)
			}
			return fmt.Sprint(v, ok)
		})
	}},
	{name: "tree-accessors", f: func(s *shared) func() string { return walk(s, accessors) }},
	{name: "tree-parts", f: func(s *shared) func() string {
		return walk(s, func(x parser.Expression) string { return x.ToPN().String() })
	}},
	{name: "tree-contents", f: func(s *shared) func() string {
		return walk(s, func(x parser.Expression) string {
			n := 0
			x.Contents(nil, func(path []parser.Expression, c parser.Expression) { n++ })
			return strconv.Itoa(n)
		})
	}},
	{name: "notations", f: func(s *shared) func() string {
		r := ""
		for _, p := range []pn.PN{pn.Literal(1.5), pn.Literal("a\n"), pn.List([]pn.PN{pn.Literal(nil)}), pn.Map([]pn.Entry{pn.Literal(true).WithName("k")}), pn.Call("f", pn.Literal(2)), pn.Call("g").AsCall("h")} {
			r += p.String() + pn.ToString(p) + fmt.Sprint(p.ToData())
		}
		return text(r)
	}},
	{name: "issue-notation", f: func(s *shared) func() string {
		if r, ok := s.err.(issue.Reported); ok {
			return text(pn.ReportedToPN(r).String())
		}
		return text("not reported")
	}},
	{name: "error-text-again", f: func(s *shared) func() string { return text(s.err.Error()) }},
	{name: "new-names", f: func(s *shared) func() string {
		o := drive.Run("class a::fresh($n) { $n } \n class import::x { f($n) }", model.Opt{})
		return issues(validator.ValidatePuppet(o.Expr, validator.StrictWarning).Issues())
	}},
	{name: "tree-puppet", f: func(s *shared) func() string {
		return issues(validator.ValidatePuppet(s.tree, validator.StrictError).Issues())
	}},
	{name: "tree-tasks", f: func(s *shared) func() string { return issues(validator.ValidateTasks(s.tree).Issues()) }},
	{name: "tree-workflow", f: func(s *shared) func() string { return issues(validator.ValidateWorkflow(s.tree).Issues()) }},
	{name: "tree-definitions", f: func(s *shared) func() string {
		r := ""
		for _, d := range s.tree.(*parser.Program).Definitions() {
			r += d.ToDefinition().Label() + " "
		}
		return text(r)
	}},
	{name: "error-text", f: func(s *shared) func() string { return text(s.err.Error()) }},
	{name: "locator", f: func(s *shared) func() string {
		r := ""
		for i := 0; i < 12; i += 7 {
			r += fmt.Sprint(s.loc.LineForOffset(i), ":", s.loc.PosOnLine(11-i), " ")
		}
		return text(r)
	}},
}

func setup(l ...op) *shared {
	s := &shared{loc: parser.NewLocator("l", "a\né\n\ncd\n")}
	tree, err := false, false
	for _, o := range l {
		for _, n := range strings.Split(o.name, ">") {
			tree = tree || strings.HasPrefix(n, "tree-")
			err = err || strings.HasPrefix(n, "error-") || n == "issue-notation"
		}
	}
	if tree {
		s.tree = drive.Run(treeSrc, model.Opt{}).Expr
	}
	if err {
		s.err = drive.Run("é\n\n $x =", model.Opt{}).Err
	}
	if tree && s.tree == nil || err && s.err == nil {
		fmt.Fprintln(os.Stderr, "conc: the shared tree can't be made")
		os.Exit(2)
	}
	return s
}

func find(n string) op {
	if i := strings.IndexByte(n, '>'); i >= 0 {
		o := find(n[i+1:])
		o.name, o.before = n, find(n[:i]).f
		return o
	}
	for _, o := range ops {
		if o.name == n {
			return o
		}
	}
	panic("no operation " + n)
}

// execute runs a schedule
func execute(a, b op, p vsched.Plan) (vsched.Result, [2]string) {
	s := setup(a, b)
	if a.before != nil {
		a.before(s)
	}
	var fs [2]func() string
	r := vsched.Run(p, [2]func(){func() { fs[0] = a.f(s) }, func() { fs[1] = b.f(s) }})
	var out [2]string
	if r.Fault == "" {
		for i, f := range fs {
			out[i] = f()
		}
	}
	return r, out
}

// alone is what the operation returns when nothing else is running
func alone(o op) string { return o.f(setup(o))() }

type report struct {
	Schedules, Steps, Free int
	Cut                    bool // time is up
	Msg                    string
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, o := range ops {
			fmt.Println(o.name)
		}
	case "want":
		fmt.Print(alone(find(os.Args[2])))
	case "count":
		a, b := find(os.Args[2]), find(os.Args[3])
		r, _ := execute(a, b, vsched.Plan{})
		fmt.Println(r.Steps[0], r.Steps[1], r.SharedSteps[0], r.SharedSteps[1])
	case "explore":
		a, b := find(os.Args[2]), find(os.Args[3])
		num := func(i int) int { n, _ := strconv.Atoi(os.Args[i]); return n }
		explore(a, b, num(4), num(5), os.Args[6] == "shared", num(7), num(8), os.Args[9])
	}
}

func explore(a, b op, first, bound int, shared bool, lo, hi int, state string) {
	// What each operation returns when nothing else has been executed in the process
	var want [2]string
	for i, o := range []op{a, b} {
		t, err := os.ReadFile(filepath.Join(filepath.Dir(os.Args[0]), "want-"+o.name[strings.IndexByte(o.name, '>')+1:]))
		if err != nil {
			panic(err)
		}
		want[i] = string(t)
	}
	f, err := os.Create(state)
	if err != nil {
		panic(err)
	}
	rep := report{}
	start := time.Now()
	try := func(p vsched.Plan) bool {
		_, _ = f.WriteAt([]byte(p.String()+"                    \n"), 0)
		r, got := execute(a, b, p)
		rep.Schedules++
		rep.Steps += r.Steps[0] + r.Steps[1]
		if r.Free {
			rep.Free++
		}
		if r.Fault != "" {
			rep.Msg = fmt.Sprintf("%s and %s: %s: %s", a.name, b.name, p, r.Fault)
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				rep.Msg = fmt.Sprintf("%s and %s: %s: expected %s, got %s", a.name, b.name, p, want[i], got[i])
				return false
			}
		}
		if time.Since(start) > 8*time.Second {
			// Only when threads wait in ways that are not controlled
			rep.Cut = true
			return false
		}
		return r.Preempted == len(p.At)
	}
	// rec executes all schedules with one more preemption
	var rec func(at []int, lo, hi int)
	rec = func(at []int, lo, hi int) {
		for k := lo; hi < 0 || k < hi; k++ {
			next := append(append([]int{}, at...), k)
			if !try(vsched.Plan{First: first, At: next, Shared: shared}) {
				return
			}
			if len(next) < bound {
				if rec(next, 0, -1); rep.Msg != "" || rep.Cut {
					return
				}
			}
		}
	}
	rec(nil, lo, hi)
	_ = json.NewEncoder(os.Stdout).Encode(&rep)
}
