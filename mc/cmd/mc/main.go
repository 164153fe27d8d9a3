// Command mc decides properties by exhaustive exploration. A supervisor process starts a worker that explores. A
// crash, hang, or exhausted memory in the worker is traced back to the case that caused it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/mc/engine"
	"verif/mc/props"
)

type result struct {
	Counts     engine.Counts
	PerSpace   []*engine.SpaceCounts
	Samples    []string
	Violations []engine.Violation
	Known      []string
	Incomplete bool
}

type known struct {
	Known []struct {
		Property string   `json:"property"`
		Space    string   `json:"space"`
		Opt      string   `json:"opt"`
		Parts    []string `json:"parts"`
		What     string   `json:"what"`
	} `json:"known"`
	Fixed []string `json:"fixed"`
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "mc:", err)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 && !(len(os.Args) == 2 && os.Args[1] == "list") {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(os.Args[2], os.Args[3:]))
	case "worker":
		worker(os.Args[2], os.Args[3:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, id := range engine.SortedKeys(props.All) {
			fmt.Println(id, props.All[id].Title)
		}
	}
}

func mapFile(name string, n int) [][]byte {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		die(err)
	}
	defer f.Close()
	if err = f.Truncate(int64(n * engine.SlotSize)); err != nil {
		die(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, n*engine.SlotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die(err)
	}
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, m[i*engine.SlotSize:(i+1)*engine.SlotSize])
	}
	return r
}

func loadKnown() (k known) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.json"))
	if err == nil {
		if err = json.Unmarshal(b, &k); err != nil {
			die(err)
		}
	}
	return
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func worker(id string, args []string) {
	p := props.All[id]
	tier, limit, slots, out, only := args[0], args[1], args[2], args[3], args[4]
	lim, _ := strconv.Atoi(limit)
	kn := map[string]bool{}
	for _, k := range loadKnown().Known {
		kn[engine.KnownKey(k.Property, engine.Case{Opt: k.Opt, Parts: k.Parts})] = true
	}
	debug.SetGCPercent(400)
	r := engine.Explore(p, tier, time.Duration(lim)*time.Second, mapFile(slots, runtime.GOMAXPROCS(0)), kn, only)
	// What runs other processes may fail when the machine is busy. All else depends on nothing but what was executed before
	if len(r.Violations) == 0 && p.ID != "P23" && p.ID != "P33" {
		for _, v := range r.Unrepeatable {
			v.Msg = "not repeatable, depends on what was executed before in the process: " + v.Msg
			r.Violations = append(r.Violations, v)
		}
	}
	res := result{r.Counts, r.PerSpace, r.Samples, r.Violations, r.Known, r.Incomplete()}
	if err := engine.WriteJSON(out, &res); err != nil {
		die(err)
	}
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

func findSpace(p *engine.Property, name string) *engine.Space {
	for _, s := range p.Spaces() {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(err)
	}
	var v engine.Violation
	if err = json.Unmarshal(b, &v); err != nil {
		die(err)
	}
	v.Case = v.Case.Decode()
	p := props.All[v.Property]
	if p == nil {
		die(fmt.Errorf("no property %s", v.Property))
	}
	s := findSpace(p, v.Space)
	if s == nil {
		die(fmt.Errorf("no space %s", v.Space))
	}
	debug.SetMaxStack(256 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				fmt.Fprintln(os.Stderr, "heap limit exceeded")
				os.Exit(engine.MemExit)
			}
		}
	}()
	for _, c := range v.After {
		if a := findSpace(p, c.Space); a != nil {
			engine.Judge(a, c.Decode())
		}
	}
	vd := engine.Judge(s, v.Case)
	if vd.Msg != "" {
		fmt.Println("violates", v.Property+":", vd.Msg)
		return 1
	}
	fmt.Println("holds")
	return 0
}

// crashes runs a case in a process of its own and describes what happens when it doesn't terminate normally
func crashes(file string, limit time.Duration) string {
	c := exec.Command(os.Args[0], "replay", file)
	done := make(chan error, 1)
	var out []byte
	if err := c.Start(); err != nil {
		return ""
	}
	_ = out
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return ""
		}
		if x, ok := err.(*exec.ExitError); ok {
			switch x.ExitCode() {
			case 1:
				return "violation"
			case engine.MemExit:
				return "uses too much memory"
			}
		}
		return "crashes: " + err.Error()
	case <-time.After(limit):
		_ = c.Process.Kill()
		<-done
		return fmt.Sprintf("does not terminate in %s", limit)
	}
}

func run(id string, args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	limit := fs.Int("limit", 0, "seconds")
	only := fs.String("only", "", "space prefix")
	_ = fs.Parse(args)
	p := props.All[id]
	if p == nil {
		die(fmt.Errorf("no property %s", id))
	}
	if *limit == 0 {
		*limit = 180
		if *tier == "thorough" {
			*limit = 750
		}
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(tmp)
	slots, out := filepath.Join(tmp, "slots"), filepath.Join(tmp, "out.json")
	var res result
	note := ""
	n := runtime.GOMAXPROCS(0)
	c := exec.Command(os.Args[0], "worker", id, *tier, strconv.Itoa(*limit), slots, out, *only)
	c.Stderr = os.Stderr
	if err = c.Start(); err != nil {
		die(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(time.Duration(*limit)*time.Second + 60*time.Second):
		_ = c.Process.Kill()
		err = <-done
		note = "the worker was stopped"
	}
	if err == nil {
		b, err := os.ReadFile(out)
		if err != nil {
			die(err)
		}
		if err = json.Unmarshal(b, &res); err != nil {
			die(err)
		}
		for i := range res.Violations {
			res.Violations[i].Case = res.Violations[i].Case.Decode()
		}
	} else {
		res.Incomplete = true
		if note == "" {
			note = "the worker failed: " + err.Error()
		}
		fmt.Fprintln(os.Stderr, "mc:", note)
		for i, mem := range mapFile(slots, n) {
			cs, ok := engine.DecodeSlot(mem)
			if !ok {
				continue
			}
			res.Counts.States++
			res.Samples = append(res.Samples, cs.String())
			v := engine.Violation{Property: id, Case: cs}
			f := filepath.Join(tmp, fmt.Sprintf("c%d.json", i))
			e := v
			e.Case = e.Case.Encode()
			if err := engine.WriteJSON(f, &e); err != nil {
				die(err)
			}
			for k := 0; k < 3; k++ {
				if v.Msg = crashes(f, 40*time.Second); v.Msg == "" {
					break
				}
			}
			if v.Msg != "" {
				res.Violations = append(res.Violations, v)
				break
			}
		}
	}
	// Known findings
	for _, k := range loadKnown().Known {
		if k.Property != id {
			continue
		}
		if s := findSpace(p, k.Space); s != nil {
			if vd := engine.Judge(s, engine.Case{Space: k.Space, Opt: k.Opt, Parts: k.Parts}); vd.Msg != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			}
		}
	}
	for i, v := range res.Violations {
		f := filepath.Join(root(), "evidence", "replays", fmt.Sprintf("%s-%d.json", id, i+1))
		e := v
		e.Case = e.Case.Encode()
		if err := engine.WriteJSON(f, &e); err != nil {
			die(err)
		}
		fmt.Printf("%s %s\n  %s\n", id, clip(v.Case.String()), clip(v.Msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": res.Counts.States, "transitions": res.Counts.Transitions,
			"traces_validated_against_impl": res.Counts.Validated,
			"rejected_sources":              res.Counts.Rejected,
			"skipped":                       res.Counts.Skipped,
			"spaces":                        res.PerSpace,
			"samples":                       samples,
			"exhaustive":                    !res.Incomplete,
			"note":                          note,
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(res.Violations),
		"assumptions": append([]string{}, p.Assumptions...),
	}
	if err := engine.WriteJSON(filepath.Join(root(), "evidence", id+".json"), ev); err != nil {
		die(err)
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d compared, %d violations, complete=%v, %.1fs\n", id, *tier,
		res.Counts.States, res.Counts.Transitions, res.Counts.Validated, len(res.Violations), !res.Incomplete, time.Since(start).Seconds())
	for _, s := range res.PerSpace {
		if strings.Contains(s.Name, ":") && s.Complete {
			continue
		}
		fmt.Printf("  %-40s %10d states %6.1fs complete=%v\n", s.Name, s.States, s.Seconds, s.Complete)
	}
	if len(res.Violations) > 0 {
		return 1
	}
	if note != "" {
		// Nothing is known about what was not explored
		return 2
	}
	return 0
}
