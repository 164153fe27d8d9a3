// Package spaces defines the state spaces that are explored
package spaces

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
)

// Grammar is what is compared by properties that are about syntax
const Grammar = drive.Accept | drive.Shape | drive.Code

// Limits is the bound for quick and thorough exploration
type Limits struct{ Q, T int }

// Shrink is subtracted from the limits of spaces that are created
var Shrink int

// Base is subtracted too, when the machinery itself is tried against many changes of the code
var Base int

func (l *Limits) shrink() {
	if l.Q -= Shrink + Base; l.Q < 1 {
		l.Q = 1
	}
	if l.T -= Shrink + Base; l.T < 1 {
		l.T = 1
	}
}

func (l Limits) of(tier string) int {
	if tier == "thorough" {
		return l.T
	}
	return l.Q
}

// JudgeSource compares model and implementation
func JudgeSource(lv drive.Level) func(c engine.Case) engine.Verdict {
	return func(c engine.Case) engine.Verdict {
		d := drive.Compare(c.Src(), c.Options(), lv)
		if d.Skipped {
			return engine.Verdict{Skipped: true}
		}
		return engine.Verdict{Msg: d.Msg, Rejected: !d.Accepted, Skipped: d.Skipped, Validated: 1, Transitions: d.Res.Steps}
	}
}

// Force has the options that are turned on in the spaces that are made while it's set
var Force model.Opt

func forced(opts []model.Opt) (r []model.Opt) {
	for _, o := range opts {
		r = append(r, Or(o, Force))
	}
	return
}

// Or combines options
func Or(a, b model.Opt) model.Opt {
	return model.Opt{Epp: a.Epp || b.Epp, Backtick: a.Backtick || b.Backtick, Hex: a.Hex || b.Hex, Tasks: a.Tasks || b.Tasks, Workflow: a.Workflow || b.Workflow, Single: a.Single || b.Single}
}

// TokenSpace consists of all sequences of tokens up to a length. A sequence is extended as long as its prefix can
// be continued
type TokenSpace struct {
	Name     string
	Opts     []model.Opt
	Prefix   string
	Suffix   string
	Alphabet []string
	Sep      string
	Depth    Limits
	Level    drive.Level
}

// Words splits a string of words where each word may contain Go escapes
func Words(s string) (r []string) {
	for _, w := range strings.Fields(s) {
		x, err := strconv.Unquote(`"` + strings.ReplaceAll(w, `"`, `\"`) + `"`)
		if err != nil {
			panic(w)
		}
		r = append(r, x)
	}
	return
}

// Live returns true if there may be a way to continue the source so that it is accepted
func Live(src string, o model.Opt) bool {
	r := model.Parse(src, o)
	if r.Err == nil {
		return true
	}
	if !r.Saw {
		return false
	}
	return true
}

func (t TokenSpace) live(src string, o model.Opt) bool {
	if !Live(src, o) {
		return false
	}
	if t.Sep != "" {
		return Live(src+t.Sep, o)
	}
	return true
}

// Space creates the space
func (t TokenSpace) Space() *engine.Space {
	t.Depth.shrink()
	if t.Level == 0 {
		t.Level = Grammar
	}
	if len(t.Opts) == 0 {
		t.Opts = []model.Opt{{}}
	}
	t.Opts = forced(t.Opts)
	s := &engine.Space{Name: t.Name, Judge: JudgeSource(t.Level)}
	s.Bound = "token sequences over {" + strings.Join(t.Alphabet, " ") + "}"
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		depth := t.Depth.of(tier)
		s.Bound += fmt.Sprintf(" of length <= %d that start with %q, separated by %q", depth, t.Prefix, t.Sep)
		for _, o := range t.Opts {
			o := o
			var rec func(v *engine.Visitor, prefix string, depth int)
			rec = func(v *engine.Visitor, prefix string, depth int) {
				for _, a := range t.Alphabet {
					if v.Stopped() {
						return
					}
					src := prefix
					if src != t.Prefix {
						src += t.Sep
					}
					src += a
					v.Source(o, src+t.Suffix)
					if depth > 1 && t.live(src, o) {
						rec(v, src, depth-1)
					}
				}
			}
			if depth < 3 {
				tasks = append(tasks, func(v *engine.Visitor) { rec(v, t.Prefix, depth) })
				continue
			}
			for _, a := range t.Alphabet {
				a := a
				tasks = append(tasks, func(v *engine.Visitor) { v.Source(o, t.Prefix+a+t.Suffix) })
				if !t.live(t.Prefix+a, o) {
					continue
				}
				for _, b := range t.Alphabet {
					src := t.Prefix + a + t.Sep + b
					tasks = append(tasks, func(v *engine.Visitor) {
						v.Source(o, src+t.Suffix)
						if t.live(src, o) {
							rec(v, src, depth-2)
						}
					})
				}
			}
		}
		return
	}
	return s
}
