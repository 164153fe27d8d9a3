package props

import (
	"bytes"
	gojson "encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
	"verif/mc/engine"
	"verif/mc/model"
)

// binDir is where programs are built
func binDir() string {
	if d := os.Getenv("VERIF_BIN"); d != "" {
		return d
	}
	d := filepath.Join(os.TempDir(), fmt.Sprintf("mcbin%d", os.Getppid()))
	_ = os.MkdirAll(d, 0755)
	return d
}

func mcDir() string {
	if r := os.Getenv("VERIF_MC"); r != "" {
		return r
	}
	return "/verif/mc"
}

var (
	cliOnce sync.Once
	cliPath string
)

// cli builds the command line tool
func cli() string {
	cliOnce.Do(func() {
		cliPath = filepath.Join(binDir(), "puppet-parse")
		c := exec.Command("go", "build", "-o", cliPath, "github.com/lyraproj/puppet-parser/parse")
		c.Dir = mcDir()
		if out, err := c.CombinedOutput(); err != nil {
			fmt.Fprintln(os.Stderr, "mc: the command line tool does not build:", err, string(out))
			os.Exit(2)
		}
	})
	return cliPath
}

func lines(s string) (r []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, l)
		}
	}
	sort.Strings(r)
	return
}

func generic(x interface{}) (r interface{}) {
	b := &bytes.Buffer{}
	json.ToJson(x, b)
	d := gojson.NewDecoder(b)
	d.UseNumber()
	if d.Decode(&r) != nil {
		return nil
	}
	return
}

// judgeCli runs the tool with flags (first part) on a file (name and content are the other parts). No file is made
// when there's no third part
func judgeCli(c engine.Case) (vd engine.Verdict) {
	dir, err := os.MkdirTemp("", "mccli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	flags := strings.Fields(c.Parts[0])
	args := append([]string{}, flags...)
	if c.Parts[1] != "" {
		args = append(args, strings.Split(c.Parts[1], "|")...)
	}
	if len(c.Parts) > 2 {
		for _, d := range []string{"x.epp", "x.pp"} {
			if strings.Contains(c.Parts[1], d+"/") {
				_ = os.Mkdir(filepath.Join(dir, d), 0755)
			}
		}
		if err := os.WriteFile(filepath.Join(dir, strings.Split(c.Parts[1], "|")[0]), []byte(c.Parts[2]), 0644); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(cli(), args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	exit := 0
	if err := cmd.Run(); err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		exit = x.ExitCode()
	}
	vd.Transitions, vd.Validated = 1, 1
	fail := func(f string, a ...interface{}) engine.Verdict {
		vd.Msg = fmt.Sprintf(f, a...) + fmt.Sprintf("; exit %d, stdout %q, stderr %q", exit, stdout.String(), stderr.String())
		return vd
	}
	if strings.Contains(stderr.String(), "goroutine ") {
		return fail("the tool panics")
	}
	on := map[string]bool{}
	strict, valid := "off", true
	for i := 0; i < len(flags) && flags[i] != "--"; i++ {
		x := strings.TrimPrefix(strings.TrimPrefix(flags[i], "-"), "-")
		eq := strings.IndexByte(x, '=')
		switch {
		case x == "s":
			i++
			strict = strings.ToLower(flags[i])
		case strings.HasPrefix(x, "s="):
			strict = strings.ToLower(x[2:])
		case eq >= 0:
			on["-"+x[:eq]] = x[eq+1:] == "true"
		default:
			on["-"+x] = true
		}
	}
	has := func(f string) bool { return on[f] }
	switch strict {
	case "", "off", "warning", "error":
	default:
		valid = false
	}
	if len(c.Parts) < 3 || strings.Contains(c.Parts[1], "|") || !valid {
		// Improper use
		if exit != 1 || stdout.Len() > 0 || stderr.Len() == 0 {
			return fail("expected a message on stderr and exit code 1")
		}
		return
	}
	name, src := c.Parts[1], c.Parts[2]
	var po []parser.Option
	if strings.HasSuffix(name, ".epp") {
		po = append(po, parser.EppMode)
	}
	if has("-t") {
		po = append(po, parser.TasksEnabled)
	}
	if has("-w") {
		po = append(po, parser.WorkflowEnabled)
	}
	expr, perr := parser.CreateParser(po...).Parse(name, src, false)
	var issues []issue.Reported
	bad := perr != nil
	if perr == nil {
		if has("-w") {
			issues = validator.ValidateWorkflow(expr).Issues()
		} else {
			issues = validator.ValidatePuppet(expr, validator.Strict(strict)).Issues()
		}
	} else if r, ok := perr.(issue.Reported); ok {
		issues = []issue.Reported{r}
	}
	var want []string
	for _, i := range issues {
		bad = bad || i.Severity() == issue.SeverityError
		want = append(want, i.String())
	}
	if exit != 0 != bad || bad && exit != 1 {
		return fail("expected failure to be %v", bad)
	}
	ast := !bad && !has("-v")
	if !has("-j") {
		if perr != nil {
			want = []string{perr.Error()}
		}
		if g, w := strings.Join(lines(stderr.String()), "\n"), strings.Join(lines(strings.Join(want, "\n")), "\n"); g != w {
			return fail("expected %q on stderr", w)
		}
		text := ""
		if ast {
			text = expr.ToPN().String() + "\n"
		}
		if stdout.String() != text {
			return fail("expected %q on stdout", text)
		}
		return
	}
	if stderr.Len() > 0 {
		return fail("nothing is expected on stderr")
	}
	var got map[string]interface{}
	d := gojson.NewDecoder(&stdout)
	d.UseNumber()
	text := stdout.String()
	if err := d.Decode(&got); err != nil {
		return fail("stdout %q is not JSON: %s", text, err)
	}
	var rest interface{}
	if d.Decode(&rest) == nil {
		return fail("more than one JSON value on stdout %q", text)
	}
	keys := map[string]interface{}{}
	if perr != nil && issues == nil {
		keys["error"] = perr.Error()
	}
	if ast {
		keys["ast"] = generic(expr.ToPN().ToData())
	}
	for k, v := range keys {
		if s := fmt.Sprint(v); fmt.Sprint(got[k]) != s {
			return fail("expected %s to be %s in JSON %q", k, s, text)
		}
	}
	n := len(keys)
	if len(issues) > 0 {
		n++
		var w, g []string
		for _, i := range issues {
			w = append(w, fmt.Sprint(generic(pn.ReportedToPN(i).ToData())))
		}
		l, ok := got["issues"].([]interface{})
		if !ok {
			return fail("expected issues in JSON %q", text)
		}
		for _, i := range l {
			g = append(g, fmt.Sprint(i))
		}
		sort.Strings(w)
		sort.Strings(g)
		if strings.Join(w, "\n") != strings.Join(g, "\n") {
			return fail("expected issues %q in JSON %q", w, text)
		}
	}
	if len(got) != n {
		return fail("unexpected keys in JSON %q", text)
	}
	return
}

func init() {
	add("P33", "The command line tool", func() list {
		s := &engine.Space{Name: "command-lines", Bound: "all combinations of flags, file names and contents", Judge: judgeCli}
		s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
			cli()
			files := []string{"a.pp", "a.epp", "epp", "a.epp.pp", "é.pp"}
			contents := []string{"", "$x = 1\n", "1; 2", "1; $x = 2", "class a { function f {} }", "{a => 1, a => 2}", "{a => 1, a => 2} ; 3", "'a", "$x = {", "\xff", "plan p {}", "workflow w {} { resource r { type => A } { x => $y } }",
				"a <%= $x %>\n<%# c %>", "<% | $x | %>é", "<% 1; 2 %>", "notice(\"<é>&\\u2028\")", "file { 'a': b +> 1 }", "class import { }\n\n application b { }", "-1.5e10", "<%"}
			if tier == "thorough" {
				contents = append(contents, filledAll(violations())...)
			}
			strict := []string{"", "-s=off", "-s=warning", "-s=error", "-s=ERROR", "-s=", "-s=x"}
			var combos []string
			for m := 0; m < 16; m++ {
				f := ""
				for i, x := range w(`-v -j -t -w`) {
					if m&(1<<uint(i)) != 0 {
						f += " " + x
					}
				}
				for _, s := range strict {
					combos = append(combos, f+" "+s)
				}
			}
			for _, f := range combos {
				f := f
				tasks = append(tasks, func(v *engine.Visitor) {
					v.Check(model.Opt{}, f, "")
					v.Check(model.Opt{}, f, "missing.pp")
					v.Check(model.Opt{}, f, "a.pp|b.pp", "$a")
					for i, n := range files {
						for _, c := range contents {
							if v.Stopped() {
								return
							}
							if i > 1 && tier != "thorough" && len(c)%3 != 0 {
								continue
							}
							v.Check(model.Opt{}, f, n, c)
						}
					}
				})
			}
			return
		}
		return list{s, issueSequences()}
	}, "the trees, issues and texts that are expected are those of the library, given the same options")
}

// issueSequences consists of programs that have issues of different severities in all orders
func issueSequences() *engine.Space {
	kinds := []string{"$x = f()", "$a::b = 1", "$c = { a => 1, a => 2 }", "1", "$p = 'é'"}
	s := &engine.Space{Name: "issue-sequences", Judge: judgeCli}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		cli()
		n, max := 2, 270
		if tier == "thorough" {
			n, max = 4, 1100
		}
		s.Bound = fmt.Sprintf("all sequences of at most %d statements of %d kinds (no issue, error, warning or error depending on strictness), all outputs, all strictness values; 30 ways to write flags; {%v} issues of a kind; each byte at the start and at the end of a file", n, len(kinds), counts(max))
		var rec func(src string, n int)
		var all []string
		rec = func(src string, n int) {
			all = append(all, src)
			if n > 0 {
				for _, k := range kinds {
					rec(src+k+"\n", n-1)
				}
			}
		}
		rec("", n)
		for _, f := range []string{"", "-v", "-j", "-v -j", "-w", "-w -j"} {
			for _, st := range []string{"-s=off", "-s=warning", "-s=error"} {
				flags := f + " " + st
				for _, src := range all {
					src := src
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, flags, "a.pp", src) })
				}
			}
		}
		// Other ways to write flags
		for _, f := range w(`-v_-j -j_-v -w_-t_-j_-v -t_-w -w_-t --v --j -j=true -j=false -v=false -v=true_-j --v=true -s_off -s_warning -s_error --s=error --s_WARNING -s=off_-s=error -s=error_-s=off_-j -j_-s=warning_-v -v_-s=error -- -j_-- -s=error_-v_-- -t=false -w=false -w=true_-j -v_-v=false -j_-j`) {
			for _, name := range []string{"a.pp", "a.epp"} {
				for _, src := range append(all, "plan p { }", "workflow w { } { }", "1; 2", "'", "<% 1; 2 %>") {
					f, name, src := strings.ReplaceAll(f, "_", " "), name, src
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, f, name, src) })
				}
			}
		}
		// Numbers of issues
		for _, m := range counts(max) {
			for _, src := range []string{strings.Repeat("1; ", m), strings.Repeat("{ a => 1, a => 2 }\n", m), strings.Repeat("$a::b = { 'é' => 1, 'é' => 2 }\n", m), strings.Repeat("{ a => 1, a => 2 };", m) + "$a::b = 1", "$a::b = 1;" + strings.Repeat("{ a => 1, a => 2 };", m)} {
				src := src
				tasks = append(tasks, func(v *engine.Visitor) {
					for _, f := range []string{"-s=off", "-s=warning", "-s=error", "-j -s=warning", "-j -s=error", "-v -s=warning", "-v -j -w"} {
						v.Check(model.Opt{}, f, "a.pp", src)
					}
				})
			}
		}
		// Every byte, and sequences that other tools give a meaning, at the start and at the end of a file
		ends := []string{"\ufeff", "\ufeff\ufeff", "\ufffe", "\r\n", "\n\n", "\r\r", "\x1a\x1a", "\x00\x00", "\\\n", "#!/bin/x\n", "---\n", "\u2028", "\u0085", "%>", "<%", " \t", "\xff\xfe", "\xef\xbb"}
		for i := 0; i < 256; i++ {
			ends = append(ends, string([]byte{byte(i)}))
		}
		for _, x := range ends {
			x := x
			tasks = append(tasks, func(v *engine.Visitor) {
				for _, f := range []string{"", "-j", "-v -s=error"} {
					for _, t := range []string{"$x = 'a'", "1; 2", ""} {
						v.Check(model.Opt{}, f, "a.pp", x+t)
						v.Check(model.Opt{}, f, "a.pp", t+x)
						v.Check(model.Opt{}, f, "a.epp", x+t)
						v.Check(model.Opt{}, f, "a.epp", t+x)
					}
				}
			})
		}
		for _, src := range []string{strings.Repeat("$x = 'é'\n", 1000), "# " + strings.Repeat("é", 70000) + "\n$x = 1\n", "\ufeff$x = 1", "$x = 1\r\n$y =\r\n", "<%\r\n%>"} {
			for _, name := range []string{"b.pp", "./b.pp", "x.epp/../b.pp", "x.pp/../b.epp", "%s.pp", " b.pp", "b.EPP", ".epp"} {
				src, name := src, name
				tasks = append(tasks, func(v *engine.Visitor) {
					for _, f := range []string{"", "-j", "-v", "-t -w -v -j"} {
						v.Check(model.Opt{}, f, name, src)
					}
				})
			}
		}
		return
	}
	return s
}
