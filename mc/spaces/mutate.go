package spaces

import (
	"fmt"

	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
)

// MutSpace consists of all ways to edit the texts of a corpus: all truncations, all suffixes, all deletions of a
// range, and all insertions and replacements using a set of strings.
type MutSpace struct {
	Name   string
	Opts   []model.Opt
	Corpus []string
	Ins    []string
	Range  Limits // maximum length of deleted range
	Level  drive.Level
	Judge  func(c engine.Case) engine.Verdict
}

// Space creates the space
func (t MutSpace) Space() *engine.Space {
	t.Range.shrink()
	if t.Level == 0 {
		t.Level = Grammar
	}
	if len(t.Opts) == 0 {
		t.Opts = []model.Opt{{}}
	}
	t.Opts = forced(t.Opts)
	if t.Judge == nil {
		t.Judge = JudgeSource(t.Level)
	}
	s := &engine.Space{Name: t.Name, Judge: t.Judge, Bound: "all single edits of a corpus: truncation, suffix, deletion of a range, insertion, replacement"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		max := t.Range.of(tier)
		s.Bound += fmt.Sprintf(" (%d texts, %d insertions, deleted ranges <= %d)", len(t.Corpus), len(t.Ins), max)
		for _, o := range t.Opts {
			for _, c := range t.Corpus {
				o, c := o, c
				tasks = append(tasks, func(v *engine.Visitor) {
					v.Source(o, c)
					for i := 0; i <= len(c); i++ {
						if v.Stopped() {
							return
						}
						v.Source(o, c[:i])
						v.Source(o, c[i:])
						for j := i + 1; j <= len(c) && j-i <= max; j++ {
							v.Source(o, c[:i]+c[j:])
						}
						for _, x := range t.Ins {
							v.Source(o, c[:i]+x+c[i:])
							if i < len(c) {
								v.Source(o, c[:i]+x+c[i+1:])
							}
						}
					}
				})
			}
		}
		return
	}
	return s
}
