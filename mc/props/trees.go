package props

import (
	"bytes"
	gojson "encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// treeJudge judges the tree of accepted sources
func treeJudge(f func(r *drive.Reified, e parser.Expression, src string) string) judge {
	return func(c engine.Case) engine.Verdict {
		out := drive.Run(c.Src(), c.Options())
		if out.Panic != "" || out.Err != nil || out.Expr == nil {
			return engine.Verdict{Rejected: true}
		}
		r := drive.Reify(out.Expr)
		return engine.Verdict{Msg: f(r, out.Expr, c.Src()), Validated: 1, Transitions: len(r.Of)}
	}
}

// checkTraversal compares what visitors are given with the children of each node
func checkTraversal(r *drive.Reified, e parser.Expression, src string) string {
	// The same expression may occur more than once (the deferred call of a type uses one name twice)
	parent := map[parser.Expression]map[parser.Expression]bool{}
	occurs := map[parser.Expression]int{e: 1}
	idx := map[parser.Expression]*model.Node{}
	for n, x := range r.Of {
		idx[x] = n
	}
	// Definitions are part of the tree, but may be visited also when they are rescanned
	var index func(n *model.Node)
	total := 0
	index = func(n *model.Node) {
		total++
		for _, c := range n.Children() {
			x := r.Of[c]
			if parent[x] == nil {
				parent[x] = map[parser.Expression]bool{}
			}
			parent[x][r.Of[n]] = true
			occurs[x]++
			index(c)
		}
	}
	index(r.Root)
	ordered := func(n *model.Node, got []parser.Expression) string {
		want := n.Children()
		if len(got) != len(want) {
			return fmt.Sprintf("%s has %d children, %d are visited", n.K, len(want), len(got))
		}
		for i, c := range want {
			if !parent[got[i]][r.Of[n]] {
				return fmt.Sprintf("%s: visited child %d is not a child", n.K, i)
			}
			if got[i] != r.Of[c] {
				return fmt.Sprintf("%s: child %d is not visited in order", n.K, i)
			}
		}
		return ""
	}
	msg := ""
	fail := func(f string, a ...interface{}) {
		if msg == "" {
			msg = fmt.Sprintf(f, a...)
		}
	}
	for _, prefix := range [][]parser.Expression{nil, make([]parser.Expression, 1, 8)} {
		if len(prefix) > 0 {
			prefix[0] = e
		}
		// Direct children of each node
		var rec func(n *model.Node)
		rec = func(n *model.Node) {
			x := r.Of[n]
			var got []parser.Expression
			x.Contents(prefix, func(path []parser.Expression, c parser.Expression) {
				got = append(got, c)
				if len(path) != len(prefix)+1 || path[len(path)-1] != x || len(prefix) > 0 && path[0] != e {
					fail("%s: wrong path to child", n.K)
				}
			})
			if s := ordered(n, got); s != "" {
				fail("Contents: %s", s)
			}
			for _, c := range n.Children() {
				rec(c)
			}
		}
		rec(r.Root)
		// All descendants
		seen := map[parser.Expression]int{e: 1}
		count := 1
		kids := map[parser.Expression][]parser.Expression{}
		e.AllContents(prefix, func(path []parser.Expression, c parser.Expression) {
			if seen[c] == occurs[c] {
				fail("AllContents: %T visited too often", c)
			}
			if _, ok := idx[c]; !ok {
				fail("AllContents: visits %T that isn't in the tree", c)
			}
			seen[c]++
			count++
			if len(path) == 0 {
				fail("AllContents: empty path")
				return
			}
			kids[path[len(path)-1]] = append(kids[path[len(path)-1]], c)
			x := c
			for i := len(path) - 1; i >= len(prefix); i-- {
				if !parent[x][path[i]] {
					fail("AllContents: path to %T is wrong at %d", c, i)
					return
				}
				if seen[path[i]] == 0 {
					fail("AllContents: %T visited before its container", c)
				}
				x = path[i]
			}
			if x != e || len(prefix) > 0 && path[0] != e {
				fail("AllContents: path to %T doesn't start at the root", c)
			}
		})
		if count != total {
			fail("AllContents: visits %d of %d nodes", count, total)
		}
		for x, l := range kids {
			if occurs[x] > 1 {
				continue
			}
			if s := ordered(idx[x], l); s != "" {
				fail("AllContents: %s", s)
			}
		}
	}
	return msg
}

// checkPN compares the PN with what the model makes of the same tree
func checkPN(r *drive.Reified, e parser.Expression, src string) string {
	want := model.ToPN(r.Root)
	got := e.ToPN()
	if w, g := want.Format(), got.String(); w != g {
		return fmt.Sprintf("expected PN %s, got %s", w, g)
	}
	return model.SameData(want.Data(), got.ToData())
}

// checkParts compares the PN of every node, and its label
func checkParts(r *drive.Reified, e parser.Expression, src string) string {
	for n, x := range r.Of {
		if n.K == "Epp" && n.Child("body") == nil {
			continue
		}
		if w, g := model.ToPN(n).Format(), x.ToPN().String(); w != g {
			return fmt.Sprintf("%s: expected PN %s, got %s", n.K, w, g)
		}
		if w, g := n.Label(), x.Label(); w != g {
			return fmt.Sprintf("%s: expected label %s, got %s", n.K, w, g)
		}
	}
	return ""
}

// checkText reads the text of the PN back
func checkText(r *drive.Reified, e parser.Expression, src string) string {
	p := e.ToPN()
	return sameText(p.String(), p)
}

func sameText(text string, p pn.PN) string {
	b := bytes.NewBufferString("x")
	p.Format(b)
	if b.String() != "x"+text || pn.ToString(p) != text {
		return fmt.Sprintf("Format, String and ToString differ: %s, %s, %s", b, text, pn.ToString(p))
	}
	q, err := model.ReadPN(text)
	if err != nil {
		return err.Error()
	}
	return model.SameData(rounded(q.Data()), rounded(p.ToData()))
}

// rounded converts all floats to what remains of them after formatting
func rounded(x interface{}) interface{} {
	switch x := x.(type) {
	case []interface{}:
		r := []interface{}{}
		for _, v := range x {
			r = append(r, rounded(v))
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, v := range x {
			r[k] = rounded(v)
		}
		return r
	case float64:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%.16g", x), 64)
		return fmt.Sprintf("%.16e", f)
	case int:
		return int64(x)
	case string:
		// Bytes that aren't UTF-8 (from hexadecimal escapes) have no text
		return string([]rune(x))
	}
	return x
}

// checkJSON decodes the JSON of the data
func checkJSON(r *drive.Reified, e parser.Expression, src string) string {
	return sameJSON(e.ToPN().ToData(), model.ToPN(r.Root).Data())
}

func sameJSON(data, want interface{}) string {
	if s := model.SameData(want, data); s != "" {
		return s
	}
	b := &bytes.Buffer{}
	json.ToJson(data, b)
	if n := strings.Count(b.String(), "\n"); n != 1 || !strings.HasSuffix(b.String(), "\n") {
		return "JSON is not one line: " + b.String()
	}
	if e := needless(b.String()); e != "" {
		return "character is escaped although it need not be: " + e + " in " + b.String()
	}
	d := gojson.NewDecoder(b)
	d.UseNumber()
	var got interface{}
	if err := d.Decode(&got); err != nil {
		return "JSON can't be decoded: " + err.Error()
	}
	return decoded(want, got)
}

// needless returns the first unicode escape in the JSON that is of a character other than a control character, a line
// or paragraph separator, and the replacement of what isn't text
func needless(s string) string {
	for i := 0; i+1 < len(s); i++ {
		if s[i] != '\\' {
			continue
		}
		i++
		if s[i] != 'u' || i+5 > len(s) {
			continue
		}
		n, err := strconv.ParseUint(s[i+1:i+5], 16, 32)
		if err != nil || n >= ' ' && n != 0x7f && n != 0x2028 && n != 0x2029 && n != 0xfffd {
			return s[i-1 : i+5]
		}
	}
	return ""
}

// decoded compares data with what a JSON decoder returned
func decoded(want, got interface{}) string {
	bad := fmt.Sprintf("expected JSON of %v, got %v", want, got)
	switch x := want.(type) {
	case []interface{}:
		y, ok := got.([]interface{})
		if !ok || len(x) != len(y) {
			return bad
		}
		for i := range x {
			if s := decoded(x[i], y[i]); s != "" {
				return s
			}
		}
	case map[string]interface{}:
		y, ok := got.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return bad
		}
		for k := range x {
			v, ok := y[k]
			if !ok {
				return bad
			}
			if s := decoded(x[k], v); s != "" {
				return s
			}
		}
	case int64:
		if y, ok := got.(gojson.Number); !ok || y.String() != fmt.Sprint(x) {
			return bad
		}
	case float64:
		y, ok := got.(gojson.Number)
		if !ok {
			return bad
		}
		if f, err := y.Float64(); err != nil || f != x {
			return bad
		}
	case string:
		if string([]rune(x)) != got {
			return bad
		}
	default:
		if want != got {
			return bad
		}
	}
	return ""
}

// lits is a canonical description of a literal value
func lits(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "undef"
	case []interface{}:
		var l []string
		for _, e := range v {
			l = append(l, lits(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case map[interface{}]interface{}:
		var l []string
		for k, e := range v {
			l = append(l, lits(k)+" => "+lits(e))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ", ") + "}"
	case float64:
		return fmt.Sprintf("float %x", math.Float64bits(v))
	case model.Lit:
		return v.Kind
	}
	if x == interface{}(parser.DefaultInstance) {
		return "default"
	}
	return fmt.Sprintf("%T %q", x, fmt.Sprint(x))
}

// checkLiteral compares the literal value of all nodes
func checkLiteral(r *drive.Reified, e parser.Expression, src string) string {
	for n, x := range r.Of {
		want, ok := model.Literal(n)
		got, gok := literal.ToLiteral(x)
		if ok != gok {
			return fmt.Sprintf("%s: expected literal %v, got %v %s", n.Dump(), ok, gok, lits(got))
		}
		if ok && lits(want) != lits(got) {
			return fmt.Sprintf("%s: expected literal %s, got %s", n.Dump(), lits(want), lits(got))
		}
		if ok {
			again, _ := literal.ToLiteral(x)
			if lits(again) != lits(got) {
				return "literal value changes"
			}
		}
	}
	return ""
}

// pnSpace consists of all PN trees up to a size, described by a text
func pnSpace() *engine.Space {
	s := &engine.Space{Name: "pn-trees", Bound: "all PN trees built from literals, lists, maps and calls up to a depth"}
	s.Judge = func(c engine.Case) engine.Verdict {
		m, err := model.ReadPN(c.Parts[0])
		if err != nil {
			panic(err)
		}
		p := build(m)
		vd := engine.Verdict{Validated: 4, Transitions: 4}
		if w, g := m.Format(), p.String(); w != g {
			vd.Msg = fmt.Sprintf("expected %s, got %s", w, g)
			return vd
		}
		if vd.Msg = sameText(p.String(), p); vd.Msg != "" {
			return vd
		}
		if vd.Msg = sameJSON(p.ToData(), m.Data()); vd.Msg != "" {
			return vd
		}
		// Renaming and parameters
		if w, g := m.AsCall("xx").Format(), p.AsCall("xx").String(); w != g {
			vd.Msg = fmt.Sprintf("AsCall: expected %s, got %s", w, g)
			return vd
		}
		ps := p.AsParameters()
		want := m.AsCall("x").L
		if len(ps) != len(want) {
			vd.Msg = fmt.Sprintf("AsParameters returns %d elements, expected %d", len(ps), len(want))
			return vd
		}
		for i := range ps {
			if w, g := want[i].Format(), ps[i].String(); w != g {
				vd.Msg = fmt.Sprintf("AsParameters: expected %s, got %s", w, g)
				return vd
			}
		}
		if e := p.WithName("kk"); e.Key() != "kk" || e.Value().String() != m.Format() {
			vd.Msg = fmt.Sprintf("WithName: got %s %s", e.Key(), e.Value())
			return vd
		}
		if w, g := m.Format(), p.String(); w != g {
			vd.Msg = fmt.Sprintf("changed by use: expected %s, got %s", w, g)
		}
		return vd
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		leaves := []string{"nil", "true", "12", "1.5", `"a\n\"b"`, "[]", "{}", "(x)"}
		wrap := func(a, b string) []string {
			return []string{"[" + a + "]", "{:k " + a + "}", "(f " + a + ")", "[" + a + " " + b + "]", "{:k " + a + " :l-m::n " + b + "}", "(=> " + a + " " + b + ")"}
		}
		var level2 []string
		for _, a := range leaves {
			for _, b := range leaves {
				level2 = append(level2, wrap(a, b)...)
			}
		}
		for _, l := range leaves {
			l := l
			tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, l) })
		}
		for _, a := range level2 {
			a := a
			tasks = append(tasks, func(v *engine.Visitor) {
				v.Check(model.Opt{}, a)
				n := len(level2)
				if tier != "thorough" {
					n = 60
				}
				for _, b := range append(append([]string{}, leaves...), level2[:n]...) {
					for _, x := range wrap(a, b) {
						v.Check(model.Opt{}, x)
					}
					if tier == "thorough" {
						for _, x := range wrap(b, a) {
							for _, y := range wrap(x, a)[3:] {
								v.Check(model.Opt{}, y)
							}
						}
					}
				}
			})
		}
		return
	}
	return s
}

// build creates a PN using the API of the implementation
func build(m *model.PN) pn.PN {
	var l []pn.PN
	for _, x := range m.L {
		l = append(l, build(x))
	}
	switch m.Kind {
	case '[':
		return pn.List(l)
	case '(':
		return pn.Call(m.Name, l...)
	case '{':
		var es []pn.Entry
		for i, k := range m.Keys {
			es = append(es, l[i].WithName(k))
		}
		return pn.Map(es)
	}
	return pn.Literal(m.V)
}

// stringSpace consists of all strings over special characters and all single characters
func stringSpace() *engine.Space {
	s := &engine.Space{Name: "pn-strings", Bound: "all strings over characters that need quoting, all characters up to U+00FF"}
	s.Judge = func(c engine.Case) engine.Verdict {
		x := c.Parts[0]
		p := pn.Literal(x)
		if w, g := model.Quote(x), p.String(); w != g {
			return engine.Verdict{Msg: fmt.Sprintf("expected %s, got %s", w, g)}
		}
		if m := sameText(p.String(), p); m != "" {
			return engine.Verdict{Msg: m}
		}
		return engine.Verdict{Msg: sameJSON(p.ToData(), x), Validated: 2, Transitions: 2}
	}
	s.Tasks = func(tier string) []func(v *engine.Visitor) {
		n := 5
		if tier == "thorough" {
			n = 6
		}
		alpha := []string{"a", "\"", "\\", "\n", "\t", "\r", "\x01", "o", "0", "é", "n"}
		s.Bound += fmt.Sprintf(" (length <= %d)", n)
		tasks := []func(v *engine.Visitor){func(v *engine.Visitor) {
			v.Check(model.Opt{}, "")
			for r := rune(0); r < 256; r++ {
				v.Check(model.Opt{}, string(r))
				v.Check(model.Opt{}, "a"+string(r)+"1")
			}
			for _, r := range []rune{0x2028, 0x2029, 0xfeff, 0xfffd, 0x10ffff, 0x1f600, 0xd7ff, 0xe000} {
				v.Check(model.Opt{}, string(r))
			}
		}}
		for _, a := range alpha {
			a := a
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(s string, n int)
				rec = func(s string, n int) {
					v.Check(model.Opt{}, s)
					if n > 1 && !v.Stopped() {
						for _, c := range alpha {
							rec(s+c, n-1)
						}
					}
				}
				rec(a, n)
			})
		}
		return tasks
	}
	return s
}

func inText(c string) []string { return []string{c, "a" + c, c + "1", "a" + c + "b"} }

// floatSpace consists of numbers
func floatSpace() *engine.Space {
	s := &engine.Space{Name: "pn-numbers", Bound: "all mantissas up to a number of digits with all exponents, powers of two, integers of all types"}
	s.Judge = func(c engine.Case) engine.Verdict {
		var p pn.PN
		var want string
		var val interface{}
		if c.Parts[0] == "float" {
			var f float64
			if _, err := fmt.Sscan(c.Parts[1], &f); err != nil {
				panic(err)
			}
			p, want, val = pn.Literal(f), model.FloatText(f), f
		} else {
			var i int64
			if _, err := fmt.Sscan(c.Parts[1], &i); err != nil {
				panic(err)
			}
			want, val = fmt.Sprint(i), i
			for _, x := range []interface{}{int(i), int8(i), int16(i), int32(i), uint8(i), uint16(i), uint32(i), uint(i), uint64(i)} {
				if fmt.Sprint(x) == want {
					if g := pn.Literal(x).String(); g != want {
						return engine.Verdict{Msg: fmt.Sprintf("%T %d is formatted as %s", x, x, g)}
					}
				}
			}
			p = pn.Literal(i)
		}
		if g := p.String(); g != want {
			return engine.Verdict{Msg: fmt.Sprintf("expected %s, got %s", want, g)}
		}
		if m := sameText(p.String(), p); m != "" {
			return engine.Verdict{Msg: m}
		}
		return engine.Verdict{Msg: sameJSON(p.ToData(), val), Validated: 2, Transitions: 2}
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		max := 1000
		if tier == "thorough" {
			max = 100000
		}
		for e := -30; e <= 30; e++ {
			e := e
			tasks = append(tasks, func(v *engine.Visitor) {
				for m := 0; m < max; m++ {
					v.Check(model.Opt{}, "float", fmt.Sprintf("%de%d", m, e))
					if m < 100 {
						v.Check(model.Opt{}, "float", fmt.Sprintf("-%de%d", m, e))
						v.Check(model.Opt{}, "float", fmt.Sprintf("%d00000000000%de%d", m, m, e))
						v.Check(model.Opt{}, "float", fmt.Sprintf("%d.333333333333333333e%d", m, e*10))
					}
				}
			})
		}
		tasks = append(tasks, func(v *engine.Visitor) {
			for e := -1074; e < 1024; e++ {
				v.Check(model.Opt{}, "float", fmt.Sprintf("%.17g", math.Ldexp(1, e)))
			}
			for i := -300; i <= 300; i++ {
				v.Check(model.Opt{}, "int", fmt.Sprint(i))
			}
			for e := uint(8); e < 63; e++ {
				for d := int64(-2); d <= 2; d++ {
					v.Check(model.Opt{}, "int", fmt.Sprint(int64(1)<<e+d))
					v.Check(model.Opt{}, "int", fmt.Sprint(-(int64(1)<<e)+d))
				}
			}
			v.Check(model.Opt{}, "int", "9223372036854775807")
			v.Check(model.Opt{}, "int", "-9223372036854775808")
		})
		return
	}
	return s
}

// keySpace consists of strings that are used as the keys of maps
func keySpace() *engine.Space {
	s := &engine.Space{Name: "pn-keys", Bound: "all strings over the characters of keys up to a length"}
	s.Judge = func(c engine.Case) (vd engine.Verdict) {
		k := c.Parts[0]
		ok := validKey(k)
		vd.Validated = 1
		defer func() {
			if x := recover(); x != nil && ok {
				vd.Msg = fmt.Sprintf("key %q is rejected: %v", k, x)
			}
		}()
		m := pn.Map([]pn.Entry{pn.Literal(int64(1)).WithName(k), pn.List(nil).WithName("z")})
		if !ok {
			vd.Msg = fmt.Sprintf("key %q is accepted: %s", k, m)
			return
		}
		vd.Msg = sameText("{:"+k+" 1 :z []}", m)
		return
	}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		alpha := []string{"a", "A", "_", "-", "::", ":", "1", " ", "é", "\""}
		n := 5
		if tier == "thorough" {
			n = 6
		}
		s.Bound += fmt.Sprintf(" (length <= %d)", n)
		tasks = append(tasks, func(v *engine.Visitor) { v.Check(model.Opt{}, "") })
		for _, a := range alpha {
			a := a
			tasks = append(tasks, func(v *engine.Visitor) {
				var rec func(s string, n int)
				rec = func(s string, n int) {
					v.Check(model.Opt{}, s)
					if n > 1 && !v.Stopped() {
						for _, c := range alpha {
							rec(s+c, n-1)
						}
					}
				}
				rec(a, n)
			})
		}
		return
	}
	return s
}

func validKey(k string) bool {
	for i, p := range strings.Split(strings.TrimPrefix(k, "::"), "::") {
		if p == "" || i == 0 && p[0] >= '0' && p[0] <= '9' {
			return false
		}
		for _, c := range p {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '-') {
				return false
			}
		}
	}
	return true
}

// reportedSpace converts the errors of rejected sources to PN
func reportedSpace() *engine.Space {
	s := token{Name: "reported-errors", Alphabet: w(`a $a { } ( ' " [ = => 1x class @`), Sep: " ", Depth: lim(4, 5)}.Space()
	s.Judge = func(c engine.Case) engine.Verdict {
		out := drive.Run(c.Src(), c.Options())
		r, ok := out.Err.(issue.Reported)
		if !ok {
			return engine.Verdict{}
		}
		want := fmt.Sprintf(`{:code %s :severity %s :message %s}`, model.Quote(string(r.Code())), model.Quote(r.Severity().String()), model.Quote(r.Error()))
		p := pn.ReportedToPN(r)
		if p.String() != want {
			return engine.Verdict{Msg: fmt.Sprintf("expected %s, got %s", want, p), Rejected: true}
		}
		b := &bytes.Buffer{}
		json.ToJson(p.ToData(), b)
		var got map[string][]interface{}
		if err := gojson.Unmarshal(b.Bytes(), &got); err != nil {
			return engine.Verdict{Msg: err.Error(), Rejected: true}
		}
		if l := got["#"]; len(l) != 6 || l[0] != "code" || l[1] != string(r.Code()) || l[2] != "severity" || l[3] != r.Severity().String() || l[4] != "message" || l[5] != r.Error() {
			return engine.Verdict{Msg: "wrong JSON: " + b.String(), Rejected: true}
		}
		return engine.Verdict{Rejected: true, Validated: 1}
	}
	return s
}

func init() {
	anyForm := spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps)
	all := opts("tasks+workflow")
	trees := func(j judge, shrink int) list {
		return append(judged(j,
			branches(all[0]),
			amongMany(all[0], false),
			nest{Name: "nested-forms", Opts: all, Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 3)}.Space(),
			nest{Name: "nested-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 2), Wrap: func(s string) string { return "<%- | $p = 1 | -%>é\n <%= " + s + " %> b\n<% " + s + " -%>  " }}.Space(),
			nest{Name: "single-forms", Opts: opts("single"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 2)}.Space(),
		), reuse(j, shrink, grammar...)...)
	}
	add("P24", "Traversal of the syntax tree", func() list { return trees(treeJudge(checkTraversal), 2) })
	add("P25", "Conversion of syntax trees to PN", func() list {
		return append(trees(treeJudge(checkPN), 1), judged(treeJudge(checkParts),
			nest{Name: "every-node", Opts: all, Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 2)}.Space(),
			nest{Name: "every-node-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(1, 1), Wrap: func(s string) string { return "<%- | $p = 1 | -%>é\n <%= " + s + " %> b\n<% " + s + " -%>  " }}.Space(),
		)...)
	})
	add("P26", "The text of a PN is unambiguous", func() list {
		key := keySpace()
		return append(list{pnSpace(), stringSpace(), longStrings(stringSpace().Judge), floatSpace(), key, eachCharacter("characters-in-strings", stringSpace().Judge, inText),
			eachCharacter("characters-in-keys", key.Judge, inText)}, trees(treeJudge(checkText), 2)...)
	})
	add("P27", "PN data and JSON", func() list {
		return append(list{pnSpace(), stringSpace(), longStrings(stringSpace().Judge), floatSpace(), reportedSpace(), eachCharacter("characters-in-strings", stringSpace().Judge, inText)}, trees(treeJudge(checkJSON), 2)...)
	})
	add("P28", "Literal values", func() list {
		lv := treeJudge(checkLiteral)
		lits := spaces.Join(spaces.Literals, spaces.Lines(`
			"${□}"
			"$a"
			"\$a"
			@(E)¶  x¶  | E¶
			@("E")¶  x${□}¶  |- E¶
			@("E")¶x¶E¶
			[]
			[□]
			[□, □]
			{}
			{□ => □}
			{□ => 1, □ => 2}
			{'a' => □, "b" => □}
			(□)
			-□
			017
			-0x1F
			''
			""
			0
			-1.5
			false
			private
			attr
			`))
		return append(judged(lv,
			amongMany(model.Opt{}, true),
			nest{Name: "literal-nesting", Outer: lits, Middle: lits, Inner: lits, Depth: lim(3, 4), Wrap: func(s string) string { return strings.ReplaceAll(s, "$a", "'q'") }}.Space(),
			nest{Name: "literal-nesting-with-variables", Outer: lits, Middle: lits, Inner: lits, Depth: lim(3, 3)}.Space(),
			nest{Name: "literal-or-not", Opts: all, Outer: anyForm, Middle: anyForm, Inner: lits, Depth: lim(3, 3)}.Space(),
			product{Name: "hashes", Pos: [][]string{{"{", "[{"}, hashKeys(), {" => 1, "}, hashKeys(), {" => 2", " => [undef]"}, {"}", "}]"}, {"", "\n1"}}}.Space(),
		), reuse(lv, 2, `P10`, `P11`, `P12`, `P13`, `P15`)...)
	})
}
