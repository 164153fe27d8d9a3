package spaces

import (
	"fmt"
	"strings"

	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
)

// hole is where a form can be extended with another form
const hole = "\x01"

func lines(s string) (r []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			l = strings.ReplaceAll(l, "□", hole)
			l = strings.ReplaceAll(l, `¶`, "\n")
			r = append(r, l)
		}
	}
	return
}

// Forms of the language, by area
var (
	Literals = lines(`
		1
		0x1F
		017
		1.5e2
		'x'
		"y"
		true
		undef
		default
		/r/
		A
		A::B
		::A
		a
		a::b
		$a
		$a::b
		$1
		private
		-1
		+1.0
		`)
	Strings = lines(`
		"a${□}b"
		"${□}"
		"$a-${b.c}$1::d"
		@(E)¶  x $a\n¶  | E¶
		@("E")¶  x ${□}¶  |- E¶
		@("E":json/tL)¶x\ty${□}\¶z¶E¶
		`)
	Collections = lines(`
		[]
		[□]
		[□, □]
		[□ => □, □,]
		{}
		{□ => □}
		{a => □, type => □,}
		(□)
		□[□]
		□[□, □ => □]
		`)
	Operators = lines(`
		□ + □
		□ - □
		□ * □
		□ / □
		□ % □
		□ << □
		□ >> □
		□ == □
		□ != □
		□ < □
		□ >= □
		□ =~ □
		□ !~ □
		□ in □
		□ and □
		□ or □
		□ = □
		□ += □
		□ -> □
		□ <~ □
		-□
		!□
		*□
		`)
	Calls = lines(`
		a()
		a(□)
		a(□, □ => □)
		a(□ => □, □ => □)
		a(□) |$x| { □ }
		a |$x = □, *$y| { □ }
		A(□)
		□.a
		□.a(□)
		□.a.b(□)
		□.a |$x| >> A[□] { □ }
		□(□)
		notice □
		notice(□)
		notice □, □
		include [□]
		notice { □ => □ }
		type(□)
		{ □ => type(□) }
		`)
	Control = lines(`
		if □ { □ }
		if □ { □ } else { □ }
		if □ { □ } elsif □ { □ } else { □ }
		unless □ { □ }
		unless □ { □ } else { □ }
		case □ { □: { □ } }
		case □ { □, □: { □ } default: { □ } }
		□ ? { □ => □ }
		□ ? { □ => □, default => □, }
		□ ? □ => □
		`)
	Resources = lines(`
		file { □: }
		file { □: a => □ }
		file { □: a => □, if => □; □: b +> □, * => □; }
		@file { □: a => □ }
		@@file { □: * => □ }
		class { □: a => □ }
		A { □: a => □ }
		A { a => □, b +> □ }
		A[□] { a => □ }
		@A[□] { a => □ }
		Resource[□] { a => □ }
		`)
	Collectors = lines(`
		A<| |>
		A<| □ |>
		A<| a == □ |> { b => □, c +> □ }
		A<<| |>>
		A<<| (a == □ or b != □) and c == □ |>> { * => □ }
		`)
	Definitions = lines(`
		class a { □ }
		class ::a::b ($x, A[□] $y = □) inherits c { □ }
		class a inherits default { □ }
		define a(*$x) { □ }
		define a::b(A $x = □) { □ }
		function a { □ }
		function a::b(A[□] $x, *$y) >> A[□] { □ }
		node a { □ }
		node 'x', /y/, default inherits a.b.1 { □ }
		node "x${□}" { □ }
		site { □ }
		application a($x = □) { □ }
		a produces A { x => □ }
		A consumes a::b { x => □, * => □ }
		A[□] produces b { }
		private consumes b { }
		`)
	Types = lines(`
		type A = B
		type A = B[□]
		type A = □
		type A = Object[{□ => □}]
		type A = {□ => □}
		type A = [{□ => □}]
		type A = B{□ => □}
		type A = TypeSet{□ => □}
		type A::B[□] = □
		type A { □ }
		type A inherits B { □ }
		`)
	Plans = lines(`
		plan a { □ }
		plan a::b(A $x = □) >> A { □ }
		`)
	Steps = lines(`
		workflow a { } { }
		workflow a { x => □, parameters => (A $y = □) } { action b { } { □ } resource c { } { x => □ } }
		action a { returns => (A $x = b, $y = (c, d),) } { □ }
		resource a { type => □ } { x => [□, b(□)], y => {□ => $z} }
		stateHandler a { parameters => ($x = □, A[□] $y), } { □ }
		workflow a { } { workflow b { } { function c() { □ } } }
		action a { } each(A $x = □) |$y| { □ }
		workflow a { } $z = times($x) |$y| { resource b { } range($x) |$y| }
		`)
)

// Core is all forms that are available in all configurations
func Core() (r []string) {
	for _, l := range [][]string{Literals, Strings, Collections, Operators, Calls, Control, Resources, Collectors, Definitions, Types} {
		r = append(r, l...)
	}
	return
}

func join(ls ...[]string) (r []string) {
	for _, l := range ls {
		r = append(r, l...)
	}
	return
}

// NestSpace consists of all ways to nest forms. All holes but one are filled with a variable.
type NestSpace struct {
	Name   string
	Opts   []model.Opt
	Outer  []string // forms at the top
	Middle []string // used at all levels but first and last
	Inner  []string // used at the last level
	Depth  Limits
	Level  drive.Level
	Judge  func(c engine.Case) engine.Verdict
	Wrap   func(s string) string
}

func filled(s string) string { return strings.ReplaceAll(s, hole, "$a") }

// Holes returns the forms that are the result of replacing all holes but one
func Holes(form string) (r [][2]string) {
	ps := strings.Split(form, hole)
	for i := 1; i < len(ps); i++ {
		r = append(r, [2]string{strings.Join(ps[:i], "$a"), strings.Join(ps[i:], "$a")})
	}
	return
}

// Space creates the space
func (t NestSpace) Space() *engine.Space {
	t.Depth.shrink()
	if t.Level == 0 {
		t.Level = Grammar
	}
	if len(t.Opts) == 0 {
		t.Opts = []model.Opt{{}}
	}
	t.Opts = forced(t.Opts)
	if t.Judge == nil {
		t.Judge = JudgeSource(t.Level)
	}
	if t.Wrap == nil {
		t.Wrap = func(s string) string { return s }
	}
	if t.Inner == nil {
		t.Inner = t.Middle
	}
	s := &engine.Space{Name: t.Name, Judge: t.Judge, Bound: "all nestings of language forms up to a depth, one hole at a time"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		depth := t.Depth.of(tier)
		s.Bound += fmt.Sprintf(" (depth <= %d, %d outer, %d middle, %d inner forms)", depth, len(t.Outer), len(t.Middle), len(t.Inner))
		for _, o := range t.Opts {
			o := o
			var rec func(v *engine.Visitor, pre, post string, depth int)
			rec = func(v *engine.Visitor, pre, post string, depth int) {
				if depth == 1 {
					for _, f := range t.Inner {
						if v.Stopped() {
							return
						}
						v.Source(o, t.Wrap(pre+filled(f)+post))
					}
					return
				}
				for _, f := range t.Middle {
					for _, h := range Holes(f) {
						rec(v, pre+h[0], h[1]+post, depth-1)
					}
				}
			}
			for _, f := range t.Outer {
				f := f
				tasks = append(tasks, func(v *engine.Visitor) {
					v.Source(o, t.Wrap(filled(f)))
					for _, h := range Holes(f) {
						for d := 1; d < depth; d++ {
							rec(v, h[0], h[1], d)
						}
					}
				})
			}
		}
		return
	}
	return s
}

// SeqSpace consists of all sequences of items up to a length
type SeqSpace struct {
	Name   string
	Opts   []model.Opt
	Items  []string
	Seps   []string
	Prefix string
	Suffix string
	Len    Limits
	Level  drive.Level
	Judge  func(c engine.Case) engine.Verdict
	// Dead returns true for a source that isn't extended
	Dead func(src string) bool
}

// Space creates the space
func (t SeqSpace) Space() *engine.Space {
	t.Len.shrink()
	if t.Level == 0 {
		t.Level = Grammar
	}
	if len(t.Opts) == 0 {
		t.Opts = []model.Opt{{}}
	}
	t.Opts = forced(t.Opts)
	if len(t.Seps) == 0 {
		t.Seps = []string{""}
	}
	if t.Judge == nil {
		t.Judge = JudgeSource(t.Level)
	}
	s := &engine.Space{Name: t.Name, Judge: t.Judge, Bound: "all sequences of items up to a length"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		max := t.Len.of(tier)
		s.Bound += fmt.Sprintf(" (length <= %d, %d items)", max, len(t.Items))
		for _, o := range t.Opts {
			for _, sep := range t.Seps {
				o, sep := o, sep
				var rec func(v *engine.Visitor, prefix string, n int)
				rec = func(v *engine.Visitor, prefix string, n int) {
					if v.Stopped() {
						return
					}
					v.Source(o, prefix+t.Suffix)
					if n == 0 || t.Dead != nil && t.Dead(prefix) {
						return
					}
					for _, i := range t.Items {
						p := prefix + i
						if prefix != t.Prefix {
							p = prefix + sep + i
						}
						rec(v, p, n-1)
					}
				}
				tasks = append(tasks, func(v *engine.Visitor) { v.Source(o, t.Prefix+t.Suffix) })
				for _, i := range t.Items {
					i := i
					tasks = append(tasks, func(v *engine.Visitor) { rec(v, t.Prefix+i, max-1) })
				}
			}
		}
		return
	}
	return s
}

// ProductSpace consists of all combinations of the choices at each position
type ProductSpace struct {
	Name  string
	Opts  []model.Opt
	Pos   [][]string
	TPos  [][]string // positions added by thorough
	Sep   string
	Level drive.Level
	Judge func(c engine.Case) engine.Verdict
}

// Space creates the space
func (t ProductSpace) Space() *engine.Space {
	if t.Level == 0 {
		t.Level = Grammar
	}
	if len(t.Opts) == 0 {
		t.Opts = []model.Opt{{}}
	}
	t.Opts = forced(t.Opts)
	if t.Judge == nil {
		t.Judge = JudgeSource(t.Level)
	}
	s := &engine.Space{Name: t.Name, Judge: t.Judge, Bound: "all combinations of choices"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		pos := t.Pos
		if tier == "thorough" {
			pos = append(append([][]string{}, pos...), t.TPos...)
		}
		for _, p := range pos {
			s.Bound += fmt.Sprintf(" %d", len(p))
		}
		for _, o := range t.Opts {
			o := o
			var rec func(v *engine.Visitor, prefix string, i int)
			rec = func(v *engine.Visitor, prefix string, i int) {
				if i == len(pos) {
					if !v.Stopped() {
						v.Source(o, prefix)
					}
					return
				}
				for _, c := range pos[i] {
					rec(v, prefix+t.Sep+c, i+1)
				}
			}
			for _, a := range pos[0] {
				for _, b := range pos[1] {
					src := a + t.Sep + b
					tasks = append(tasks, func(v *engine.Visitor) { rec(v, src, 2) })
				}
			}
		}
		return
	}
	return s
}

// Fixed is a list of sources
func Fixed(name string, lv drive.Level, opts []model.Opt, srcs []string) *engine.Space {
	if len(opts) == 0 {
		opts = []model.Opt{{}}
	}
	return &engine.Space{Name: name, Judge: JudgeSource(lv), Bound: "fixed list", Tasks: func(string) []func(v *engine.Visitor) {
		return []func(v *engine.Visitor){func(v *engine.Visitor) {
			for _, o := range opts {
				for _, s := range srcs {
					v.Source(o, s)
				}
			}
		}}
	}}
}

// Chars returns the characters of a string
func Chars(s string) []string {
	var r []string
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

// Join concatenates lists
func Join(ls ...[]string) []string { return join(ls...) }

// Lines splits the string into trimmed lines where □ denotes a hole and ¶ denotes a newline
func Lines(s string) []string { return lines(s) }
