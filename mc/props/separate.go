package props

import (
	"fmt"
	"strings"
	"sync"

	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// use is one use of a new parser, and of new validators
type use struct{ opts, file, src string }

func (u use) String() string { return u.opts + "\x00" + u.file + "\x00" + u.src }

func useOf(s string) use {
	l := strings.SplitN(s, "\x00", 3)
	return use{l[0], l[1], l[2]}
}

// parse gives the source to a new parser
func (u use) parse() (o model.Opt, r drive.Outcome) {
	o = model.ParseOpt(u.opts)
	defer func() {
		if x := recover(); x != nil {
			r = drive.Outcome{Panic: fmt.Sprint(x)}
		}
	}()
	r.Expr, r.Err = parser.CreateParser(drive.Options(o)...).Parse(u.file, u.src, o.Single)
	return
}

// known is what uses gave when it was found to agree with the model
var known sync.Map

// agrees tells how an outcome differs from what the model says, or from what it was earlier
func agrees(kind string, u use, got string, model func() string) string {
	k := kind + u.String()
	if x, ok := known.Load(k); ok && x.(string) == got {
		return ""
	} else if m := model(); m != "" {
		return m
	} else if ok {
		return fmt.Sprintf("differs from what it was: from %s to %s", x, got)
	}
	known.Store(k, got)
	return ""
}

// judgeSeparate gives each source to a parser of its own
func judgeSeparate(c engine.Case) (vd engine.Verdict) {
	outs := make([]drive.Outcome, len(c.Parts))
	want := make([]string, len(c.Parts))
	for i, p := range c.Parts {
		u := useOf(p)
		o, out := u.parse()
		outs[i], want[i] = out, fullOutcome(out)
		vd.Transitions++
		vd.Validated++
		vd.Msg = agrees("parse", u, want[i], func() string { return drive.CompareFile(u.file, u.src, o, everything, out).Msg })
		if vd.Msg == "" && out.Expr != nil && out.Expr.File() != u.file {
			vd.Msg = "tree is of file " + out.Expr.File()
		}
		if vd.Msg != "" {
			vd.Msg = fmt.Sprintf("%q after %q: %s", u, c.Parts[:i], vd.Msg)
			return
		}
	}
	for i := range outs {
		if got := fullOutcome(outs[i]); got != want[i] {
			vd.Msg = fmt.Sprintf("outcome of %q was changed by the use of another parser: from %s to %s", c.Parts[i], want[i], got)
			return
		}
	}
	return
}

// judgeSeparateValidators validates each source with new validators
func judgeSeparateValidators(c engine.Case) (vd engine.Verdict) {
	vd.Rejected = true
	for i, p := range c.Parts {
		u := useOf(p)
		f := strings.SplitN(u.file, "/", 2)
		_, out := use{u.opts, "f.pp", u.src}.parse()
		if out.Expr == nil || out.Err != nil {
			continue
		}
		vd.Rejected = false
		vd.Transitions++
		vd.Validated++
		issues := run(out.Expr, f[0], f[1])
		vd.Msg = agrees("validate", u, issueList(issues), func() string {
			return sameIssues(u.src, model.Validate(drive.Reify(out.Expr).Root, f[0], f[1]), issues)
		})
		if vd.Msg != "" {
			vd.Msg = fmt.Sprintf("%q after %q: %s", u, c.Parts[:i], vd.Msg)
			return
		}
	}
	return
}

// separate consists of all sequences of two uses, and of all of three of some of them. They are made one at a time, as
// what is shared by all parsers or validators would be changed by others
func separate(name string, j judge, pairs, triples func(tier string) []use) *engine.Space {
	s := &engine.Space{Name: name, Judge: j}
	s.Tasks = func(tier string) []func(v *engine.Visitor) {
		p, t := pairs(tier), triples(tier)
		s.Bound = fmt.Sprintf("all pairs of %d and all triples of %d uses of new instances, in sequence", len(p), len(t))
		return []func(v *engine.Visitor){func(v *engine.Visitor) {
			for _, a := range p {
				for _, b := range p {
					if v.Stopped() {
						return
					}
					v.Check(model.Opt{}, a.String(), b.String())
				}
			}
			for _, a := range t {
				for _, b := range t {
					for _, d := range t {
						if v.Stopped() {
							return
						}
						v.Check(model.Opt{}, a.String(), b.String(), d.String())
					}
				}
			}
		}}
	}
	return s
}

func uses(opts, files, srcs []string) (r []use) {
	for _, src := range srcs {
		for _, o := range opts {
			for _, f := range files {
				r = append(r, use{o, f, src})
			}
		}
	}
	return
}

func separateParsers() *engine.Space {
	// Sources that differ a little, or that mean something else with other options
	alike := []string{"$a", "$b", "a", "A", "1", "2", "0x1", "01", "1.5", "'a'", "\"a\"", "\"b\"", "\"${a}\"", "\"\\x41\"", "`a`", "/a/", "[1, 2]", "[1, 3]", "plan p { }", "action a { } { }",
		"resource r { } { a => $b }", "class a { class b { } }", "class a { function c { } }", "@(E)\na\nE\n", "@(E)\nb\nE\n", "a <%= $b %>", "", "]", "'a", "\"${", "f(1)", "f(2)", "f(1) a", "\n]", "\xff"}
	few := []string{"plain", "tasks", "workflow", "tasks+workflow", "epp", "hex", "backtick", "single"}
	return separate("separate-parsers", judgeSeparate, func(tier string) []use {
		l := append(uses(few, []string{"f.pp"}, alike), uses([]string{"plain"}, []string{"g.pp", ""}, alike)...)
		if spaces.Shrink+spaces.Base > 0 {
			return l[:40]
		}
		l = append(l, uses([]string{"plain"}, []string{"f.pp"}, filledAll(spaces.Core()))...)
		l = append(l, uses([]string{"tasks+workflow"}, []string{"f.pp"}, filledAll(spaces.Join(spaces.Plans, spaces.Steps)))...)
		if tier == "thorough" {
			l = append(l, uses([]string{"hex+backtick+tasks+workflow"}, []string{"f.pp"}, filledAll(spaces.Core()))...)
			l = append(l, uses(few[2:], []string{"g.pp"}, alike)...)
		}
		return l
	}, func(tier string) []use {
		l := append(uses([]string{"plain"}, []string{"f.pp"}, alike), uses([]string{"workflow", "single"}, []string{"g.pp"}, alike[:6])...)
		if tier == "thorough" {
			l = append(l, uses([]string{"tasks+workflow", "epp"}, []string{"f.pp"}, alike)...)
		}
		return l
	})
}

func separateValidators() *engine.Space {
	modes := []string{"puppet/off", "puppet/warning", "puppet/error", "tasks/error", "workflow/error"}
	o := []string{"tasks+workflow"}
	return separate("separate-validators", judgeSeparateValidators, func(tier string) []use {
		if spaces.Shrink+spaces.Base > 0 {
			return uses(o, modes, violations()[:10])
		}
		l := uses(o, modes[1:2], violations())
		if tier == "thorough" {
			l = uses(o, modes, violations())
		}
		return append(l, uses(o, modes, violations()[:20])...)
	}, func(tier string) []use {
		if tier == "thorough" {
			return uses(o, modes[1:4], violations()[:30])
		}
		return uses(o, modes[1:4], violations()[:10])
	})
}
