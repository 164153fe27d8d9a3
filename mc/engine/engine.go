// Package engine explores state spaces and judges every state that is found
package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/model"
)

// Case is one execution to judge. Parts is interpreted by the space that it belongs to
type Case struct {
	Space string   `json:"space"`
	Opt   string   `json:"opt"`
	Parts []string `json:"parts"`
}

func (c Case) String() string { return fmt.Sprintf("%s/%s %q", c.Space, c.Opt, c.Parts) }

// Verdict is the judgement of a case
type Verdict struct {
	Msg         string // violation
	Rejected    bool   // the source was, correctly, rejected
	Skipped     bool   // the model gave up
	Transitions int    // number of steps that were executed, zero means one
	States      int    // number of states (executions) that the case stands for, zero means one
	Validated   int    // number of model results that were compared to results of the implementation
}

// Space is a bounded state space
type Space struct {
	Name  string
	Bound string // description of the bound
	// Tasks returns independent parts of the exploration
	Tasks func(tier string) []func(v *Visitor)
	Judge func(c Case) Verdict
	// Thorough is true for a space that is not explored by the quick tier
	Thorough bool
}

// Property is decided by the exploration of a number of spaces
type Property struct {
	ID          string
	Title       string
	Spaces      func() []*Space
	Assumptions []string
}

// Violation is a case that was judged to break the property
type Violation struct {
	Property string `json:"property"`
	Case
	Msg string `json:"message"`

	// After is the cases that must be judged before, in the same process
	After []Case `json:"after,omitempty"`
}

type slot struct {
	mem   []byte
	since int64 // unix nano of current case or zero
}

// Visitor is passed to tasks
type Visitor struct {
	r     *Run
	space *Space
	slot  *slot
	n     int
	prev  [4]Case // what was judged before, oldest first from n & 3
}

// Counts are totals of an exploration
type Counts struct {
	States, Transitions, Validated, Rejected, Skipped int64
}

// SpaceCounts are the totals of one space
type SpaceCounts struct {
	Name, Bound string
	States      int64
	Cases       int64 `json:"cases"`
	Rejected    int64 `json:"rejected_sources"` // sources with an error, when the result was an error
	Skipped     int64 `json:"skipped"`
	Complete    bool
	Seconds     float64
}

// Run is an exploration in progress
type Run struct {
	P          *Property
	Tier       string
	deadline   time.Time
	stop       int32
	incomplete int32
	Counts
	PerSpace   []*SpaceCounts
	cur        *SpaceCounts
	Samples    []string
	mu         sync.Mutex
	Violations []Violation

	// Unrepeatable cases depend on something other than the case itself and those before it on the same thread
	Unrepeatable []Violation
	slots        []*slot
	known        map[string]bool
	Known        []string
}

// SlotSize is the maximum size of a recorded case
const SlotSize = 1 << 20

// Options returns the options of the case
func (c Case) Options() model.Opt { return model.ParseOpt(c.Opt) }

// Src returns the first part
func (c Case) Src() string { return c.Parts[0] }

func (v *Visitor) record(c Case) {
	s := v.slot
	if s.mem != nil {
		n := 4
		put := func(x string) {
			if n+4+len(x) > len(s.mem) {
				return
			}
			s.mem[n], s.mem[n+1], s.mem[n+2], s.mem[n+3] = byte(len(x)), byte(len(x)>>8), byte(len(x)>>16), 0
			copy(s.mem[n+4:], x)
			n += 4 + len(x)
		}
		s.mem[0] = 0
		put(c.Space)
		put(c.Opt)
		for _, p := range c.Parts {
			put(p)
		}
		s.mem[1], s.mem[2], s.mem[3] = byte(n), byte(n>>8), byte(n>>16)
		s.mem[0] = 1
	}
	atomic.StoreInt64(&s.since, time.Now().UnixNano())
}

// DecodeSlot returns the case that is recorded in a slot
func DecodeSlot(mem []byte) (c Case, ok bool) {
	if mem[0] != 1 {
		return
	}
	end := int(mem[1]) | int(mem[2])<<8 | int(mem[3])<<16
	var l []string
	for n := 4; n+4 <= end; {
		x := int(mem[n]) | int(mem[n+1])<<8 | int(mem[n+2])<<16
		l = append(l, string(mem[n+4:n+4+x]))
		n += 4 + x
	}
	if len(l) < 2 {
		return
	}
	return Case{Space: l[0], Opt: l[1], Parts: l[2:]}, true
}

// Stopped returns true when no more cases should be checked
func (v *Visitor) Stopped() bool { return atomic.LoadInt32(&v.r.stop) != 0 }

// Source judges a source
func (v *Visitor) Source(o model.Opt, src string) Verdict {
	return v.Check(o, src)
}

// Check judges a case
func (v *Visitor) Check(o model.Opt, parts ...string) Verdict {
	r := v.r
	if atomic.LoadInt32(&r.stop) != 0 {
		return Verdict{}
	}
	v.n++
	if v.n&63 == 0 && time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.incomplete, 1)
		atomic.StoreInt32(&r.stop, 1)
		return Verdict{}
	}
	c := Case{Space: v.space.Name, Opt: o.String(), Parts: parts}
	v.record(c)
	vd := v.judge(c)
	if vd.Msg == "" {
		p := &v.prev[v.n&3]
		*p = Case{c.Space, c.Opt, append(p.Parts[:0], parts...)}
	}
	atomic.StoreInt64(&v.slot.since, 0)
	if v.slot.mem != nil {
		v.slot.mem[0] = 0
	}
	k := int64(vd.States)
	if k == 0 {
		k = 1
	}
	n := atomic.AddInt64(&r.States, k) - k + 1
	atomic.AddInt64(&r.cur.States, k)
	atomic.AddInt64(&r.cur.Cases, 1)
	t := vd.Transitions
	if t == 0 {
		t = 1
	}
	atomic.AddInt64(&r.Transitions, int64(t))
	atomic.AddInt64(&r.Validated, int64(vd.Validated))
	if vd.Rejected {
		atomic.AddInt64(&r.Rejected, 1)
		atomic.AddInt64(&r.cur.Rejected, 1)
	}
	if vd.Skipped {
		atomic.AddInt64(&r.Skipped, 1)
		atomic.AddInt64(&r.cur.Skipped, 1)
	}
	if n == 1 || n == 100 || n == 10000 || n == 1000000 {
		r.mu.Lock()
		r.Samples = append(r.Samples, clip(c.String()))
		r.mu.Unlock()
	}
	if vd.Msg != "" {
		// Must be repeatable, though not always, as the order in which Go iterates over a map is random
		for i := 0; i < 20; i++ {
			if v.judge(c).Msg != "" {
				r.violation(c, vd.Msg, nil)
				return vd
			}
		}
		v.afterOthers(c, vd.Msg)
	}
	return vd
}

// afterOthers tries to repeat a violation by judging what was judged before it
func (v *Visitor) afterOthers(c Case, msg string) {
	for i := 0; i < 5; i++ {
		for k := 1; k <= len(v.prev); k++ {
			var after []Case
			for j := k; j > 0; j-- {
				if p := v.prev[(v.n-j)&3]; v.n > j && p.Space != "" {
					p.Parts = append([]string{}, p.Parts...)
					after = append(after, p)
					v.judge(p)
				}
			}
			if v.judge(c).Msg != "" {
				for i := range after {
					after[i] = after[i].Encode()
				}
				v.r.violation(c, msg, after)
				return
			}
		}
	}
	v.r.mu.Lock()
	defer v.r.mu.Unlock()
	if len(v.r.Unrepeatable) < 3 {
		v.r.Unrepeatable = append(v.r.Unrepeatable, Violation{Property: v.r.P.ID, Case: c.Encode(), Msg: msg})
	}
}

func (v *Visitor) judge(c Case) Verdict { return Judge(v.space, c) }

// Judge runs the judgement of a case. An accessor of the implementation that panics is a violation
func Judge(s *Space, c Case) (vd Verdict) {
	defer func() {
		if x := recover(); x != nil {
			vd = Verdict{Msg: fmt.Sprintf("panic: %v\n%s", x, debug.Stack())}
		}
	}()
	return s.Judge(c)
}

func clip(s string) string {
	if len(s) > 240 {
		return s[:240] + "..."
	}
	return s
}

// KnownKey identifies a finding
func KnownKey(prop string, c Case) string {
	b, _ := json.Marshal(append([]string{prop, c.Opt}, c.Parts...))
	return string(b)
}

func (r *Run) violation(c Case, msg string, after []Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.known[KnownKey(r.P.ID, c)] {
		r.Known = append(r.Known, fmt.Sprintf("%q %s", c.Parts, clip(msg)))
		return
	}
	r.Violations = append(r.Violations, Violation{r.P.ID, c.Encode(), msg, after})
	if len(r.Violations) >= 3 {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Explore explores all spaces of a property
func Explore(p *Property, tier string, limit time.Duration, mem [][]byte, known map[string]bool, only string) *Run {
	workers := runtime.GOMAXPROCS(0)
	r := &Run{P: p, Tier: tier, deadline: time.Now().Add(limit), known: known}
	for i := 0; i < workers; i++ {
		s := &slot{}
		if i < len(mem) {
			s.mem = mem[i]
		}
		r.slots = append(r.slots, s)
	}
	debug.SetMaxStack(256 << 20)
	go r.watch()
	spaces := p.Spaces()
	for _, s := range spaces {
		if only != "" && !strings.HasPrefix(s.Name, only) {
			continue
		}
		if atomic.LoadInt32(&r.stop) != 0 {
			break
		}
		if s.Thorough && tier != "thorough" {
			continue
		}
		tasks := s.Tasks(tier)
		r.cur = &SpaceCounts{Name: s.Name, Bound: s.Bound}
		start := time.Now()
		ch := make(chan func(*Visitor), len(tasks))
		for _, t := range tasks {
			ch <- t
		}
		close(ch)
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v := &Visitor{r: r, space: s, slot: r.slots[i]}
				for t := range ch {
					if v.Stopped() {
						return
					}
					t(v)
				}
			}(i)
		}
		wg.Wait()
		r.cur.Seconds = time.Since(start).Seconds()
		r.cur.Complete = atomic.LoadInt32(&r.stop) == 0
		r.PerSpace = append(r.PerSpace, r.cur)
	}
	return r
}

// Incomplete is true when the time limit was reached
func (r *Run) Incomplete() bool { return atomic.LoadInt32(&r.incomplete) != 0 }

// HangExit is the exit code of a worker that is stuck
const HangExit = 77

// HangLimit is the time after which a case is suspected to hang
const HangLimit = 20 * time.Second

// MemExit is the exit code of a worker that uses too much memory
const MemExit = 78

func (r *Run) watch() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for i, s := range r.slots {
			if t := atomic.LoadInt64(&s.since); t != 0 && now-t > int64(HangLimit) {
				fmt.Fprintf(os.Stderr, "slot %d hangs\n", i)
				os.Exit(HangExit)
			}
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 12<<30 {
			fmt.Fprintln(os.Stderr, "heap limit exceeded")
			os.Exit(MemExit)
		}
	}
}

// WriteJSON writes a file
func WriteJSON(file string, x interface{}) error {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		return err
	}
	if err = os.MkdirAll(filepath.Dir(file), 0755); err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0644)
}

// SortedKeys returns the sorted keys of a map
func SortedKeys(m map[string]*Property) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// Encode makes the parts safe for JSON, which can't represent invalid unicode
func (c Case) Encode() Case {
	parts := make([]string, len(c.Parts))
	for i, p := range c.Parts {
		parts[i] = strconv.QuoteToASCII(p)
	}
	c.Parts = parts
	return c
}

// Decode is the inverse of Encode
func (c Case) Decode() Case {
	parts := make([]string, len(c.Parts))
	for i, p := range c.Parts {
		u, err := strconv.Unquote(p)
		if err != nil {
			u = p
		}
		parts[i] = u
	}
	c.Parts = parts
	return c
}
