package props

import (
	"fmt"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// kindSources have, as their last token before the end, all kinds of tokens. The numbers of the tokens aren't public
var kindSources = append([]string{"", "a", "'a'", "1", "1.5", "true", "$a", "/a/", "A", "1 [", "a[", "1 (", "(", "? {", "a {", "a |", "| |", "1 /"},
	w(`= += -= * % - + << >> == != < <= > >= =~ !~ <| <<| |> |>> => +> -> ~> <- <~ ! @ @@ ) ] } , . ? : ;
 and application attr case class consumes default define function if in inherits else elsif node or private produces site type undef unless`)...)

var kinds struct {
	sync.Once
	num  map[string]int
	kind map[int]string
	msg  string
}

func learnKinds() {
	kinds.num, kinds.kind = map[string]int{}, map[int]string{}
	for _, s := range kindSources {
		m, l := model.NewLexer(s), parser.NewSimpleLexer("f.pp", s)
		for {
			t, err := m.Next()
			n, e := lexNext(l)
			if err != nil || e != nil {
				kinds.msg = fmt.Sprintf("tokens of %q: %v", s, e)
				return
			}
			if k, ok := kinds.kind[n]; ok && k != t.Kind {
				kinds.msg = fmt.Sprintf("the tokens %q and %q have the same number, source %q", k, t.Kind, s)
				return
			}
			if x, ok := kinds.num[t.Kind]; ok && x != n {
				kinds.msg = fmt.Sprintf("the token %q has the numbers %d and %d, source %q", t.Kind, x, n, s)
				return
			}
			kinds.kind[n], kinds.num[t.Kind] = t.Kind, n
			if t.Name == "EOF" {
				break
			}
		}
	}
}

// guard runs f and returns the error that it panics with
func guard(f func()) (err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(error)
			if _, rt := x.(interface{ RuntimeError() }); !ok || rt {
				panic(x)
			}
			err = e
		}
	}()
	f()
	return
}

func lexNext(l parser.Lexer) (n int, err error) {
	err = guard(func() { n = l.NextToken() })
	return
}

type lexedToken struct {
	model.Tok
	m *model.Lexer // state after the token
}

func issueAt(src string, off int, err error, code issue.Code, args ...string) string {
	e := &model.Err{Code: string(code), Lo: off, Hi: off, Args: map[string]string{}}
	for i := 0; i < len(args); i += 2 {
		e.Args[args[i]] = args[i+1]
	}
	if err == nil {
		return fmt.Sprintf("expected %s, got no error", code)
	}
	if s := drive.CheckErr(src, e, err, true); s != "" {
		return s
	}
	return drive.CheckErrLoc(src, e, err)
}

func judgeLexer(c engine.Case) (v engine.Verdict) {
	if o := c.Options(); o != (model.Opt{}) {
		return engine.Verdict{Skipped: true} // the lexer has no options
	}
	kinds.Do(learnKinds)
	if kinds.msg != "" {
		return engine.Verdict{Msg: kinds.msg}
	}
	src := c.Src()
	fail := func(f string, a ...interface{}) engine.Verdict {
		v.Msg = fmt.Sprintf(f, a...)
		return v
	}
	m := model.NewLexer(src)
	// The first lexer only reads, the second one is asked about each token
	l1, l2 := parser.NewSimpleLexer("f.pp", src), parser.NewSimpleLexer("f.pp", src)
	toks := []lexedToken{{model.Tok{Kind: "EOF", Name: "EOF"}, m.Clone()}}
	var last *model.Err
	for i := 0; last == nil && i < len(src)+3; i++ {
		t, merr := m.Next()
		n, err := lexNext(l1)
		n2, err2 := lexNext(l2)
		v.Transitions += 2
		last = merr
		if merr != nil {
			for j, e := range []error{err, err2} {
				if e == nil {
					return fail("token %d: expected %s, got %q", i, merr, kinds.kind[[]int{n, n2}[j]])
				}
				if s := drive.CheckErr(src, merr, e, true); s != "" {
					return fail("token %d: %s", i, s)
				}
				if s := drive.CheckErrLoc(src, merr, e); s != "" {
					return fail("token %d: %s", i, s)
				}
			}
			break
		}
		if err != nil || err2 != nil {
			return fail("token %d: expected %q, got %v / %v", i, t.Kind, err, err2)
		}
		if n != kinds.num[t.Kind] || n2 != n || l1.CurrentToken() != n || l2.CurrentToken() != n {
			return fail("token %d: expected %q, got %q and %q, then %q and %q", i, t.Kind, kinds.kind[n], kinds.kind[n2], kinds.kind[l1.CurrentToken()], kinds.kind[l2.CurrentToken()])
		}
		if parser.IsKeywordToken(n) != t.Keyword() {
			return fail("IsKeywordToken(%q) is %v", t.Kind, !t.Keyword())
		}
		if s := issueAt(src, t.End, guard(l2.SyntaxError), "LEX_UNEXPECTED_TOKEN", "token", t.Name); s != "" {
			return fail("SyntaxError at token %d, %q: %s", i, t.Kind, s)
		}
		if err = guard(func() { l2.AssertToken(n) }); err != nil {
			return fail("AssertToken for the current token %q: %s", t.Kind, err)
		}
		other := kinds.num["identifier"]
		name := "identifier"
		if other == n {
			other, name = kinds.num["EOF"], "EOF"
		}
		if s := issueAt(src, t.Start, guard(func() { l2.AssertToken(other) }), "PARSE_EXPECTED_TOKEN", "expected", name, "actual", t.Name); s != "" {
			return fail("AssertToken(%s) at token %d, %q: %s", name, i, t.Kind, s)
		}
		l2.SetPos(t.End)
		toks = append(toks, lexedToken{t, m.Clone()})
		if k := len(toks); t.Name == "EOF" && k > 2 && toks[k-2].Name == "EOF" {
			break
		}
	}
	v.Validated = len(toks)
	v.Rejected = last != nil
	// Back to the end of an earlier token
	// Others are covered by shorter sources
	for k := maxi(1, len(toks)-3); k < len(toks); k++ {
		for i := maxi(0, k-8); i < k; i++ {
			want, have := toks[i].m.Clone(), toks[k].m.Clone()
			have.SetPos(toks[i].End)
			var l parser.Lexer
			for j := i + 1; ; j++ {
				a, e1 := want.Next()
				b, e2 := have.Next()
				if e1 != nil || e2 != nil || a != b {
					// depends on what the lexer has seen since
					break
				}
				if l == nil {
					l = parser.NewSimpleLexer("f.pp", src)
					for x := 0; x < k; x++ {
						l.NextToken()
					}
					l.SetPos(toks[i].End)
				}
				n, err := lexNext(l)
				v.Transitions++
				if err != nil || n != kinds.num[a.Kind] {
					return fail("after token %d and SetPos(%d): expected %q, got %q %v", k, toks[i].End, a.Kind, kinds.kind[n], err)
				}
				if s := issueAt(src, a.End, guard(l.SyntaxError), "LEX_UNEXPECTED_TOKEN", "token", a.Name); s != "" {
					return fail("after token %d and SetPos(%d), at token %q: %s", k, toks[i].End, a.Kind, s)
				}
				if a.Name == "EOF" {
					break
				}
			}
		}
	}
	return
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// lexDead is true for a source where an error occurs that doesn't depend on what comes next
func lexDead(src string) bool {
	l := model.NewLexer(src)
	for {
		t, err := l.Next()
		if err != nil {
			return !l.Saw
		}
		if t.Name == "EOF" {
			return false
		}
	}
}

func init() {
	add("P34", "The tokens that the simple lexer reads", func() list {
		sp := func(name string, q, t int, items []string) *engine.Space {
			return seq{Name: name, Items: items, Len: lim(q, t), Judge: judgeLexer, Dead: lexDead}.Space()
		}
		pr := func(name string, pos ...[]string) *engine.Space {
			return product{Name: name, Pos: pos, Judge: judgeLexer}.Space()
		}
		ops := w(`= == => =~ += -= + - +> -> * / % << >> <<| <| |> |>> | < <= > >= <- <~ ~> ! != !~ @ @@ ( ) [ ] { } , . ? : ; ~ ^ & \\`)
		words := append(w(`a A ::a A::B a-b a--b $a $a::b $::c $1 1 1.5 0x1F 017 'q' "r" "$s" /t/ true plan # _ ::`), " ", "\n", "# c\n", "/* d */", "\t")
		reuse := func(ids ...string) (r list) {
			spaces.Shrink = 2
			defer func() { spaces.Shrink = 0 }()
			for _, id := range ids {
				for _, s := range All[id].Spaces() {
					s.Name = id + ":" + s.Name
					s.Judge = judgeLexer
					r = append(r, s)
				}
			}
			return
		}
		return append(list{
			characters("P34"),
			sp("operators-and-words", 3, 4, append(ops, words...)),
			sp("operator-characters", 4, 6, spaces.Chars("=<>|~!-+@:%/ ")),
			sp("layout", 5, 6, append(spaces.Chars("a( \n[\t\r#/*{|"), "?")),
			sp("name-characters", 4, 6, spaces.Chars("aA1_-:$.é ")),
			sp("number-characters", 4, 6, spaces.Chars("0189afxXeE.+- ")),
			sp("strings", 4, 6, append(spaces.Chars("a'\"\\$u{}x0/ "), "\n", "`")),
			sp("heredocs", 4, 6, []string{"@(", "\"", "A", ")", "\n", "|", "-", " ", "/", "L", ":", "x", "\\", "$"}),
			sp("heredoc-lines", 4, 5, []string{"@(A)", "@(\"B\"/)", "@(C:j/tL) ", "\n", "A\n", "|B\n", "-C\n", "| - A", "$x", "\\t", "\\\n", " ", "(y"}),
			sp("bytes", 3, 4, []string{"\x00", "\xff", "\xc3", "\xa9", "é", "😀", "\uFFFD", "'", "\"", "a", "$", "/", "#", "\n", "1", "@(A)\n", "A\n", "\\u{41}", "\u00a0"}),
			pr("keywords", []string{"", "$", "a ", "a::", "::", "."}, keywordsAndNames(), []string{"", " ", "::", "(", "-", "1", "_", "/", "::A"}, append(keywordsAndNames(), "")),
			pr("regexp-contexts", regexpContexts(), []string{"", " ", "\n", "/* */"}, []string{"/r/", "/ r /", "/", "/\\//", "/\n/", "/\\"}, []string{"", " / 2", "/", "/2/"}),
		}, append(reuse(w(`P11 P13 P15`)...), &engine.Space{Name: "programs", Bound: "all prefixes of whole programs", Judge: judgeLexer, Tasks: func(string) (r []func(v *engine.Visitor)) {
			for _, s := range append(programs(), stepPrograms()...) {
				s := s
				r = append(r, func(v *engine.Visitor) {
					for i := 0; i <= len(s); i++ {
						v.Source(model.Opt{}, s[:i])
					}
				})
			}
			return
		}})...)
	})
}
