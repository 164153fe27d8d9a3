// Package props defines the properties and the state spaces that decide them
package props

import (
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// All properties by ID
var All = map[string]*engine.Property{}

func add(id, title string, f func() []*engine.Space, assumptions ...string) {
	All[id] = &engine.Property{ID: id, Title: title, Spaces: f, Assumptions: append(assumptions,
		"the reference model in /verif/mc/model is the specification",
		"only inputs within the bounds that are listed for each space were explored")}
}

func opts(l ...string) (r []model.Opt) {
	for _, s := range l {
		r = append(r, model.ParseOpt(s))
	}
	return
}

// all32 is all parser configurations
func all32() (r []model.Opt) {
	for i := 0; i < 32; i++ {
		r = append(r, model.Opt{Epp: i&1 != 0, Backtick: i&2 != 0, Hex: i&4 != 0, Tasks: i&8 != 0, Workflow: i&16 != 0})
	}
	return
}

func lim(q, t int) spaces.Limits { return spaces.Limits{Q: q, T: t} }

type (
	token   = spaces.TokenSpace
	nest    = spaces.NestSpace
	seq     = spaces.SeqSpace
	product = spaces.ProductSpace
	mutate  = spaces.MutSpace
	list    = []*engine.Space
)

var w = spaces.Words

// forcedOpt returns a function that gives the options with a name, and the options that are forced now
func forcedOpt() func(string) model.Opt {
	f := spaces.Force
	return func(s string) model.Opt { return spaces.Or(model.ParseOpt(s), f) }
}

// with explores the spaces of other properties with more options, and smaller bounds
func with(options string, shrink int, ids ...string) list {
	spaces.Force = model.ParseOpt(options)
	defer func() { spaces.Force = model.Opt{} }()
	r := again(everything, shrink, ids...)
	for _, s := range r {
		s.Name = options + ":" + s.Name
	}
	return r
}

// slow is true while spaces are made for judges that take time that isn't proportional to the size of the source
var slow bool

// again explores the spaces of other properties, with smaller bounds, and compares something else
func again(lv drive.Level, shrink int, ids ...string) (r list) {
	spaces.Shrink = shrink
	slow = lv == 0
	defer func() { spaces.Shrink, slow = 0, false }()
	for _, id := range ids {
		for _, s := range All[id].Spaces() {
			s.Name = id + ":" + s.Name
			s.Judge = spaces.JudgeSource(lv)
			r = append(r, s)
		}
	}
	return
}

var grammar = w(`P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P20`)
