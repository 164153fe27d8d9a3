package props

import (
	"bytes"
	"context"
	gojson "encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
	"verif/mc/model"
)

var (
	concOnce sync.Once
	concPath string
)

// conc builds the program that explores schedules from an instrumented copy of the code, with the race detector
func conc() string {
	concOnce.Do(func() {
		dir := filepath.Join(binDir(), "instr")
		do := func(name string, args ...string) {
			c := exec.Command(name, args...)
			c.Dir = mcDir()
			c.Env = append(os.Environ(), "CGO_ENABLED=1")
			out, err := c.CombinedOutput()
			if err != nil {
				fmt.Fprintln(os.Stderr, "mc:", name, args, err, string(out))
				os.Exit(2)
			}
		}
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		do("go", "run", "./cmd/instr", repo, dir)
		concPath = filepath.Join(dir, "conc")
		do("go", "build", "-race", "-overlay", filepath.Join(dir, "overlay.json"), "-o", concPath, "./cmd/conc")
		// The expected results are each from a process of its own
		b, err := output("list")
		if err != nil {
			fmt.Fprintln(os.Stderr, "mc: conc list:", err)
			os.Exit(2)
		}
		for _, n := range strings.Fields(string(b)) {
			b, err := output("want", n)
			if err != nil {
				// It fails also when nothing else is running
				continue
			}
			if err = os.WriteFile(filepath.Join(dir, "want-"+n), b, 0644); err != nil {
				panic(err)
			}
		}
	})
	return concPath
}

// judgeSchedules explores a range of schedules: two operations, the one that is first, the number of preemptions, where
// preemption takes place, and the range of the first preemption
func judgeSchedules(c engine.Case) (vd engine.Verdict) {
	state, err := os.CreateTemp("", "mcstate")
	if err != nil {
		panic(err)
	}
	_ = state.Close()
	defer os.Remove(state.Name())
	cmd := exec.Command(conc(), append(append([]string{"explore"}, c.Parts...), state.Name())...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=1")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	if err != nil {
		b, _ := os.ReadFile(state.Name())
		at := strings.TrimSpace(strings.SplitN(string(b), "\n", 2)[0])
		what := "crash: " + err.Error()
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 66 {
			what = "data race"
		}
		vd.Msg = fmt.Sprintf("%s with %s: %s: %s\n%s", c.Parts[0], c.Parts[1], at, what, clipped(stderr.String()))
		return
	}
	var rep struct {
		Schedules, Steps, Free int
		Cut                    bool
		Msg                    string
	}
	if err := gojson.Unmarshal(stdout.Bytes(), &rep); err != nil {
		panic(err)
	}
	return engine.Verdict{Msg: rep.Msg, States: rep.Schedules, Transitions: rep.Steps, Validated: rep.Schedules, Skipped: rep.Cut}
}

func clipped(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// output runs conc without reports of races
func output(args ...string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, concPath, args...)
	c.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 exitcode=0 log_path=/dev/null")
	return c.Output()
}

// operations returns the names of the operations that succeed when nothing else is running
func operations() (r []string) {
	conc()
	b, err := output("list")
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: conc list:", err)
		os.Exit(2)
	}
	for _, n := range strings.Fields(string(b)) {
		if _, err := os.Stat(filepath.Join(filepath.Dir(concPath), "want-"+n)); err == nil {
			r = append(r, n)
		}
	}
	return
}

// steps returns the number of steps of each operation. All operations have steps, also when they can't be counted
func steps(where string) map[string]int {
	r := map[string]int{}
	for _, n := range operations() {
		b, _ := output("count", n, n)
		c := strings.Fields(string(b))
		i := 0
		if where == "shared" {
			i = 2
		}
		if len(c) != 4 {
			r[n] = 100
			continue
		}
		x, _ := strconv.Atoi(c[i])
		y, _ := strconv.Atoi(c[i+1])
		if x < y {
			x = y
		}
		r[n] = x
	}
	return r
}

// schedules consists of the schedules of all pairs of operations
//
// Only operations with at most that many steps are used, except in pairs of an operation with itself when same is true
func schedules(name string, bound int, where string, small int, same bool) *engine.Space {
	s := &engine.Space{Name: name, Judge: judgeSchedules, Bound: fmt.Sprintf("all schedules of two threads with at most %d preemptions, before any statement (%s), for ordered pairs of operations", bound, where)}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		all := steps(where)
		var names []string
		steps := map[string]int{}
		for _, n := range operations() {
			if small > 0 && all[n] > small && !same {
				continue
			}
			names = append(names, n)
			steps[n] = all[n]
		}
		pairs := 0
		defer func() { s.Bound += fmt.Sprintf(" (%d operations, %d pairs)", len(steps), pairs) }()
		for _, a := range names {
			for _, b := range names {
				na, nb := steps[a], steps[b]
				if small > 0 && a != b && (na > small || nb > small) {
					continue
				}
				pairs++
				// Executions per first preemption
				per := 1
				for i := 1; i < bound; i++ {
					per *= nb + 1
					nb, na = na, nb
				}
				size := 1500/per + 1
				for lo := 0; lo <= steps[a]; lo += size {
					hi := lo + size
					if hi > steps[a] {
						// The number of steps may depend on the schedule
						hi = -1
					}
					parts := []string{a, b, "0", fmt.Sprint(bound), where, fmt.Sprint(lo), fmt.Sprint(hi)}
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, parts...) })
					if hi < 0 {
						break
					}
				}
			}
		}
		return
	}
	return s
}

// cold consists of the schedules where each is executed in a new process, hence everything that is made on demand is
// made by the threads
func cold(name, where string, pairs func(a, b string) bool) *engine.Space {
	s := &engine.Space{Name: name, Judge: judgeSchedules}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		st := steps(where)
		names := operations()
		n := 0
		for _, a := range names {
			for _, b := range names {
				if !pairs(a, b) {
					continue
				}
				n++
				for k := 0; k <= st[a]; k++ {
					parts := []string{a, b, "0", "1", where, fmt.Sprint(k), fmt.Sprint(k + 1)}
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, parts...) })
				}
			}
		}
		s.Bound = fmt.Sprintf("all schedules of two threads with one preemption, before any statement (%s), for %d ordered pairs of operations, each in a process of its own", where, n)
		return
	}
	return s
}

// after consists of the schedules of pairs of operations when another operation has been executed before
func after(name, where string, pairs func(a, b string) bool) *engine.Space {
	s := &engine.Space{Name: name, Judge: judgeSchedules}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		names := operations()
		n := 0
		for _, before := range names {
			for _, a := range names {
				for _, b := range names {
					if !pairs(a, b) {
						continue
					}
					n++
					parts := []string{before + ">" + a, b, "0", "1", where, "0", "-1"}
					tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, parts...) })
				}
			}
		}
		s.Bound = fmt.Sprintf("all schedules of two threads with one preemption, before any statement (%s), when another operation has been executed before, for %d combinations of operations", where, n)
		return
	}
	return s
}

func init() {
	add("P23", "Concurrent use of separate parsers and of shared trees", func() list {
		same := func(a, b string) bool { return a == b }
		l := list{
			schedules("one-preemption", 1, "all", 520, true),
			schedules("one-preemption-at-shared-data", 1, "shared", 0, false),
			schedules("two-preemptions-at-shared-data", 2, "shared", 60, false),
			cold("cold-start", "shared", same),
			after("after-another-operation", "shared", same),
		}
		for _, s := range (list{
			schedules("one-preemption-all-pairs", 1, "all", 0, false),
			cold("cold-start-at-all-statements", "all", same),
			cold("cold-start-of-all-pairs", "shared", func(a, b string) bool { return a != b }),
			after("after-another-operation-all-pairs", "shared", func(a, b string) bool { return a != b }),
			schedules("two-preemptions-at-all-shared-data", 2, "shared", 0, false),
			schedules("two-preemptions", 2, "all", 320, false),
			schedules("three-preemptions-at-shared-data", 3, "shared", 40, false),
		}) {
			s.Thorough = true
			l = append(l, s)
		}
		return l
	}, "threads are preempted between statements of the code in /repo; the race detector observes every schedule, with the scheduler's own synchronization hidden from it",
		"the library github.com/lyraproj/issue and the standard library are executed without preemption")
}
