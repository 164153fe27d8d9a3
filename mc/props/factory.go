package props

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/drive"
	"verif/mc/engine"
	"verif/mc/model"
	"verif/mc/spaces"
)

// makers tells the kind of node that each method of the factory makes, and what its arguments are: S, S2, I, F, R and B
// are the fields of the node, other names are those of parts, * marks a list of them and ? one that may be absent
var makers = map[string]string{
	"Access": "Access operand keys*", "Step": "Step S S2 properties definition?", "And": "And lhs rhs",
	"Application": "Application S parameters* body", "Array": "List elements*", "Arithmetic": "Arithmetic S lhs rhs",
	"Assignment": "Assignment S lhs rhs", "AttributeOp": "AttributeOp S2 S value", "AttributesOp": "AttributesOp expr",
	"Block": "Block statements*", "Boolean": "Boolean B", "CallMethod": "CallMethod functor arguments* lambda?",
	"CallNamed": "Call functor B arguments* lambda?", "CapabilityMapping": "CapabilityMapping S component S2 mappings*",
	"Case": "Case test options*", "Class": "Class S parameters* S2 body", "Collect": "Collect resourceType query operations*",
	"Comparison": "Comparison S lhs rhs", "ConcatenatedString": "ConcatenatedString segments*", "Default": "Default",
	"Definition": "Definition S parameters* body", "EppExpression": "Lambda parameters* body", "ExportedQuery": "ExportedQuery expr",
	"Float": "Float F", "Function": "Function S parameters* body returnType?", "Hash": "Hash entries*", "Heredoc": "Heredoc text S2",
	"If": "If test then else", "In": "In lhs rhs", "Integer": "Integer I R", "KeyedEntry": "KeyedEntry key value",
	"Lambda": "Lambda parameters* body returnType?", "Match": "Match S lhs rhs", "NamedAccess": "NamedAccess lhs rhs", "Negate": "Negate expr",
	"Node": "Node hostMatches* parent? body", "Nop": "Nop", "Not": "Not expr", "Or": "Or lhs rhs", "Parameter": "Parameter S value? type? B",
	"Parenthesized": "Paren expr", "Plan": "Plan S parameters* body returnType?", "Program": "Program body defs",
	"QualifiedName": "QualifiedName S", "QualifiedReference": "QualifiedReference S", "Regexp": "Regexp S", "RelOp": "Relationship S lhs rhs",
	"RenderExpression": "Render expr", "RenderString": "RenderString S", "ReservedWord": "ReservedWord S B",
	"Resource": "Resource S typeName bodies*", "ResourceBody": "ResourceBody title operations*",
	"ResourceDefaults": "ResourceDefaults S typeRef operations*", "ResourceOverride": "ResourceOverride S resources operations*",
	"Select": "Selector lhs selectors*", "Selector": "SelectorEntry matching value", "Site": "Site body", "String": "String S",
	"Text": "Text expr", "TypeAlias": "TypeAlias S type", "TypeDefinition": "TypeDefinition S S2 body", "TypeMapping": "TypeMapping type mapping",
	"Undef": "Undef", "Unfold": "Unfold expr", "Unless": "Unless test then else", "Variable": "Variable expr",
	"VirtualQuery": "VirtualQuery expr", "When": "CaseOption values* then",
}

// makerOf is the method that makes a kind of node
var makerOf = func() map[string]string {
	r := map[string]string{}
	for m, spec := range makers {
		if m != "EppExpression" {
			r[strings.Fields(spec)[0]] = m
		}
	}
	return r
}()

// makeNode calls a method of the factory. The value of an argument is given by its name
func makeNode(method string, arg func(name string, t reflect.Type) reflect.Value, loc *parser.Locator, off, length int) parser.Expression {
	f := reflect.ValueOf(parser.DefaultFactory()).MethodByName(method)
	var in []reflect.Value
	for i, name := range strings.Fields(makers[method])[1:] {
		t := f.Type().In(i)
		v := arg(name, t)
		if !v.IsValid() {
			v = reflect.Zero(t)
		} else {
			v = v.Convert(t)
		}
		in = append(in, v)
	}
	if len(in)+3 != f.Type().NumIn() {
		panic("wrong number of arguments: " + method)
	}
	in = append(in, reflect.ValueOf(loc), reflect.ValueOf(off), reflect.ValueOf(length))
	e, _ := f.Call(in)[0].Interface().(parser.Expression)
	return e
}

// rebuild makes a tree with the factory that equals one that was made by the parser
func rebuild(r *drive.Reified, loc *parser.Locator) parser.Expression {
	made := map[parser.Expression]parser.Expression{}
	var node func(n *model.Node) parser.Expression
	field := func(n *model.Node, name string) (v reflect.Value, ok bool) {
		switch name {
		case "S":
			return reflect.ValueOf(n.S), true
		case "S2":
			return reflect.ValueOf(n.S2), true
		case "I":
			return reflect.ValueOf(n.I), true
		case "F":
			return reflect.ValueOf(n.F), true
		case "R":
			return reflect.ValueOf(n.R), true
		case "B":
			return reflect.ValueOf(n.B), true
		}
		return
	}
	node = func(n *model.Node) parser.Expression {
		old := r.Of[n]
		if x, ok := made[old]; ok {
			return x
		}
		src, method := n, makerOf[n.K]
		if b := n.Child("body"); n.K == "Lambda" && b != nil && b.K == "Epp" {
			method = "EppExpression"
		}
		if method == "" {
			panic("no method makes " + n.K)
		}
		x := makeNode(method, func(name string, t reflect.Type) reflect.Value {
			if v, ok := field(src, name); ok {
				return v
			}
			if name == "defs" {
				var l []parser.Definition
				for _, d := range r.Defs {
					l = append(l, node(d).(parser.Definition))
				}
				return reflect.ValueOf(l)
			}
			at := src
			if method == "EppExpression" && name == "body" {
				at = src.Child("body")
			}
			if strings.HasSuffix(name, "*") {
				var l []parser.Expression
				if method == "EppExpression" && src.Child("body").B {
					l = []parser.Expression{}
				}
				for _, c := range at.List(name[:len(name)-1]) {
					l = append(l, node(c))
				}
				return reflect.ValueOf(l)
			}
			c := at.Child(strings.TrimSuffix(name, "?"))
			if c == nil {
				return reflect.Value{}
			}
			return reflect.ValueOf(node(c))
		}, loc, n.Off, n.End-n.Off)
		made[old] = x
		return x
	}
	return node(r.Root)
}

// checkRebuilt makes the same tree with the factory, and compares all that can be done with the two
func checkRebuilt(r *drive.Reified, e parser.Expression, src string) string {
	loc := e.Locator()
	x := rebuild(r, loc)
	q := drive.Reify(x)
	if a, b := r.Root.Dump(), q.Root.Dump(); a != b {
		return fmt.Sprintf("made from %s: %s", a, b)
	}
	if a, b := r.Root.DumpLoc(), q.Root.DumpLoc(); a != b {
		return fmt.Sprintf("made at %s: %s", a, b)
	}
	if len(r.Defs) != len(q.Defs) {
		return fmt.Sprintf("made with %d definitions, there are %d", len(r.Defs), len(q.Defs))
	}
	if a, b := e.ToPN().String(), x.ToPN().String(); a != b {
		return fmt.Sprintf("made from %s: %s", a, b)
	}
	if m := checkTraversal(q, x, src); m != "" {
		return m
	}
	for _, m := range []mode{{"puppet", "error"}, {"tasks", "error"}, {"workflow", "error"}} {
		if a, b := issueList(run(e, m.flavour, m.strict)), issueList(run(x, m.flavour, m.strict)); a != b {
			return fmt.Sprintf("%s: made from a tree with issues %q: %q", m.flavour, a, b)
		}
	}
	return checkOthers(q)
}

// checkOthers compares what single nodes tell, and gives calls other names
func checkOthers(r *drive.Reified) string {
	other := parser.DefaultFactory().QualifiedName("other", parser.NewLocator("", ""), 0, 0)
	for n, x := range r.Of {
		if a, b := n.Label(), x.Label(); a != b {
			return fmt.Sprintf("%s has label %s", n.Dump(), b)
		}
		if want, ok := model.Literal(n); true {
			if got, gok := literal.ToLiteral(x); ok != gok || ok && lits(want) != lits(got) {
				return fmt.Sprintf("%s has literal value %s", n.Dump(), lits(got))
			}
		}
		if x.IsNop() != (n.K == "Nop") {
			return fmt.Sprintf("%s: IsNop gives %v", n.K, x.IsNop())
		}
		if m := checkTold(n, x, r); m != "" {
			return n.Dump() + ": " + m
		}
		if c, ok := x.(*parser.CallNamedFunctionExpression); ok {
			before := n.Dump()
			y := c.WithFunctor(other)
			f := c.Functor()
			if y.Functor() != other || y == c || f == other {
				return "WithFunctor gives a call with the wrong name"
			}
			if a := drive.Reify(c).Root.Dump(); a != before {
				return fmt.Sprintf("WithFunctor changes the call to %s", a)
			}
			if a, b := drive.Reify(y.WithFunctor(f)), drive.Reify(c); a.Root.Dump() != b.Root.Dump() || a.Root.DumpLoc() != b.Root.DumpLoc() {
				return fmt.Sprintf("WithFunctor changes more than the name: %s", a.Root.Dump())
			}
		}
	}
	return ""
}

// checkTold compares the views of a node that the interfaces and small methods offer with its fields
func checkTold(n *model.Node, x parser.Expression, r *drive.Reified) string {
	if c, ok := x.(parser.Definition); ok && c.ToDefinition() != c {
		return "ToDefinition gives another one"
	}
	if c, ok := x.(parser.BooleanExpression); ok && c.ToBooleanExpression() != c {
		return "ToBooleanExpression gives another one"
	}
	if c, ok := x.(parser.QueryExpression); ok && (c.ToQueryExpression() != c || c.Expr() != r.Of[n.Child("expr")]) {
		return "ToQueryExpression or Expr gives another one"
	}
	if c, ok := x.(parser.UnaryExpression); ok && (c.ToUnaryExpression() != c || c.Expr() != r.Of[n.Child("expr")]) {
		return "ToUnaryExpression or Expr gives another one"
	}
	if c, ok := x.(parser.LiteralValue); ok {
		if c.ToLiteralValue() != c && n.K != "QualifiedReference" && n.K != "RenderString" {
			return "ToLiteralValue gives another one"
		}
		want := interface{}(n.S)
		switch n.K {
		case "Boolean":
			want = n.B
		case "Integer":
			want = n.I
		case "Float":
			want = n.F
		case "Default":
			want = parser.DefaultInstance
		case "Undef":
			want = nil
		}
		if v := c.Value(); v != want && !(n.K == "Float" && n.F != n.F) {
			return fmt.Sprintf("has value %v", v)
		}
	}
	switch c := x.(type) {
	case *parser.LiteralInteger:
		if c.Int() != n.I || c.Float() != float64(n.I) || c.Radix() != n.R {
			return "is another number"
		}
	case *parser.LiteralFloat:
		if c.Float() != n.F || n.F > -1e18 && n.F < 1e18 && c.Int() != int64(n.F) {
			return "is another number"
		}
	case *parser.LiteralString:
		if c.StringValue() != n.S {
			return "is another string"
		}
	case *parser.RegexpExpression:
		if c.PatternString() != n.S {
			return "has another pattern"
		}
	case *parser.QualifiedReference:
		before := n.DumpLoc() + c.DowncasedName()
		o := c.WithName("Zz::É")
		if o == c || o.Name() != "Zz::É" || o.DowncasedName() != "zz::é" || c.DowncasedName() != strings.ToLower(n.S) {
			return "WithName gives the wrong name"
		}
		if q := drive.Reify(c).Root; q.DumpLoc()+c.DowncasedName() != before {
			return "WithName changes the reference"
		}
		if a, b := drive.Reify(o.WithName(n.S)).Root, n; a.Dump() != b.Dump() || a.DumpLoc() != b.DumpLoc() || o.Locator() != c.Locator() {
			return "WithName changes more than the name"
		}
	case *parser.LiteralHash:
		count := map[string]int{}
		name := func(e *model.Node) (string, bool) {
			k := e.Child("key")
			return k.S, k.K == "String" || k.K == "QualifiedName" || k.K == "QualifiedReference"
		}
		for _, e := range n.List("entries") {
			if s, ok := name(e); ok {
				count[s]++
			}
		}
		for _, e := range n.List("entries") {
			if s, ok := name(e); ok && count[s] == 1 && c.Get(s) != r.Of[e.Child("value")] {
				return fmt.Sprintf("Get(%q) gives another value", s)
			} else if !ok && count[e.Child("key").S] == 0 && c.Get(e.Child("key").S) != nil {
				return fmt.Sprintf("Get(%q) gives a value", e.Child("key").S)
			}
		}
		if c.Get("no such key") != nil || count[""] == 0 && c.Get("") != nil {
			return "Get gives the value of a key that is not there"
		}
	}
	return ""
}

// pool is what may be given for a part
func pool(f parser.ExpressionFactory, l *parser.Locator, part string) []parser.Expression {
	name := f.QualifiedName("n", l, 1, 2)
	ref := f.QualifiedReference("A::B", l, 0, 3)
	v := f.Variable(f.QualifiedName("v", l, 2, 1), l, 1, 2)
	one := f.Integer(1, 10, l, 3, 1)
	str := f.String("s", l, 2, 3)
	hash := f.Hash([]parser.Expression{f.KeyedEntry(name, one, l, 0, 4), f.KeyedEntry(str, v, l, 1, 4)}, l, 0, 6)
	op := f.AttributeOp("=>", "a", one, l, 0, 4)
	block := f.Block([]parser.Expression{v, one}, l, 0, 7)
	switch strings.TrimRight(part, "*?") {
	case "entries":
		return []parser.Expression{f.KeyedEntry(name, one, l, 0, 4), f.KeyedEntry(ref, hash, l, 0, 4)}
	case "options":
		return []parser.Expression{f.When([]parser.Expression{one, f.Default(l, 0, 1)}, block, l, 0, 1), f.When([]parser.Expression{ref}, f.Nop(l, 0, 0), l, 0, 2)}
	case "selectors":
		return []parser.Expression{f.Selector(one, v, l, 0, 1), f.Selector(f.Default(l, 0, 0), str, l, 0, 2)}
	case "bodies":
		return []parser.Expression{f.ResourceBody(str, []parser.Expression{op}, l, 0, 3), f.ResourceBody(v, nil, l, 0, 3)}
	case "operations", "mappings":
		return []parser.Expression{op, f.AttributesOp(hash, l, 0, 4), f.AttributeOp("+>", "b", v, l, 0, 1)}
	case "parameters":
		return []parser.Expression{f.Parameter("p", nil, nil, false, l, 0, 2), f.Parameter("q", one, ref, true, l, 0, 2)}
	case "lambda":
		return []parser.Expression{f.Lambda([]parser.Expression{f.Parameter("p", nil, nil, false, l, 0, 2)}, block, nil, l, 0, 2), f.Lambda(nil, f.Nop(l, 0, 0), ref, l, 0, 3)}
	case "query":
		return []parser.Expression{f.VirtualQuery(f.Nop(l, 0, 0), l, 0, 2), f.ExportedQuery(f.Comparison("==", name, one, l, 0, 4), l, 0, 3)}
	case "properties":
		return []parser.Expression{f.Hash(nil, l, 0, 0), hash}
	case "segments":
		return []parser.Expression{str, f.Text(v, l, 0, 2), f.Text(block, l, 1, 2)}
	case "functor":
		return []parser.Expression{name, ref, f.NamedAccess(v, name, l, 0, 3)}
	case "text":
		return []parser.Expression{str, f.ConcatenatedString([]parser.Expression{str, f.Text(v, l, 0, 2)}, l, 0, 3)}
	}
	return []parser.Expression{name, v, str, block, f.Nop(l, 0, 0), f.Access(ref, []parser.Expression{one}, l, 0, 3)}
}

const factoryText = "é$n = [1,\n 2]\n"

// argument returns choice i of an argument, and whether there is one
func argument(method string, f parser.ExpressionFactory, l *parser.Locator, name string, t reflect.Type, i int) (reflect.Value, bool) {
	var r []interface{}
	switch name {
	case "B":
		r = []interface{}{false, true}
	case "I":
		r = []interface{}{int64(0), int64(1), int64(-9223372036854775808), int64(9223372036854775807)}
	case "R":
		r = []interface{}{8, 10, 16}
	case "F":
		r = []interface{}{0.0, 1.5, -1e300}
	case "S", "S2":
		r = []interface{}{"a", "A::B", "=>", "a b\n\"é"}
		if name == "S2" && method != "AttributeOp" || method == "String" || method == "RenderString" || method == "Regexp" {
			// No parent, no syntax and no text. Other names are never empty
			r = append(r, "")
		}
	case "defs":
		fn := f.Function("a", nil, f.Nop(l, 0, 0), nil, l, 0, 2).(parser.Definition)
		r = []interface{}{[]parser.Definition(nil), []parser.Definition{fn}, []parser.Definition{fn, f.TypeAlias("A", f.QualifiedReference("B", l, 0, 1), l, 0, 2).(parser.Definition)}}
	default:
		p := pool(f, l, name)
		if method == "Variable" {
			// The expression of a variable is its name or its number
			p = []parser.Expression{p[0], f.Integer(0, 10, l, 3, 1), f.Integer(12, 10, l, 3, 2)}
		}
		if strings.HasSuffix(name, "*") {
			r = append(r, []parser.Expression{}, []parser.Expression(nil), p)
			for _, x := range p {
				r = append(r, []parser.Expression{x})
			}
			break
		}
		for _, x := range p {
			r = append(r, x)
		}
		if strings.HasSuffix(name, "?") {
			r = append(r, nil)
		}
	}
	if i >= len(r) {
		return reflect.Value{}, false
	}
	return reflect.ValueOf(r[i]), true
}

// judgeMade calls a method of the factory with a choice for each argument, and compares the node with them
func judgeMade(c engine.Case) (vd engine.Verdict) {
	f, l := parser.DefaultFactory(), parser.NewLocator("f.pp", factoryText)
	method := c.Parts[0]
	spec := strings.Fields(makers[method])
	want := &model.Node{K: spec[0], Off: 3, End: 11, Max: 11, Alt: -1}
	slots := map[string]model.Slot{}
	k := 0
	x := makeNode(method, func(name string, t reflect.Type) reflect.Value {
		k++
		i, _ := strconv.Atoi(c.Parts[k])
		v, _ := argument(method, f, l, name, t, i)
		switch name {
		case "S":
			want.S = v.String()
		case "S2":
			want.S2 = v.String()
		case "I":
			want.I = v.Int()
		case "R":
			want.R = int(v.Int())
		case "F":
			want.F = v.Float()
		case "B":
			want.B = v.Bool()
		case "defs":
		default:
			s := model.Slot{Name: strings.TrimRight(name, "*?")}
			if strings.HasSuffix(name, "*") {
				s.List = true
				for _, e := range v.Interface().([]parser.Expression) {
					s.L = append(s.L, drive.Reify(e).Root)
				}
			} else if v.IsValid() {
				s.L = []*model.Node{drive.Reify(v.Interface().(parser.Expression)).Root}
			}
			slots[s.Name] = s
		}
		return v
	}, l, 3, 8)
	r := drive.Reify(x)
	for _, s := range r.Root.Slots {
		w, ok := slots[s.Name]
		if !ok {
			w = model.Slot{Name: s.Name, List: s.List}
		}
		want.Slots = append(want.Slots, w)
		delete(slots, s.Name)
	}
	for n := range slots {
		vd.Msg = fmt.Sprintf("%s: %s is lost", method, n)
		return
	}
	switch method {
	case "CallMethod":
		want.B = true
	case "EppExpression":
		// The parameters are specified when there is a list
		v, _ := argument(method, f, l, "parameters*", nil, func() int { i, _ := strconv.Atoi(c.Parts[1]); return i }())
		for i := range want.Slots {
			if s := &want.Slots[i]; s.Name == "body" {
				s.L = []*model.Node{{K: "Epp", B: !v.IsNil(), Off: 3, End: 11, Max: 11, Alt: -1, Slots: []model.Slot{{Name: "body", L: s.L}}}}
			}
		}
	}
	vd.Validated = 1
	if a, b := want.Dump(), r.Root.Dump(); a != b {
		vd.Msg = fmt.Sprintf("%s: expected %s, got %s", method, a, b)
		return
	}
	if a, b := want.DumpLoc(), r.Root.DumpLoc(); a != b {
		vd.Msg = fmt.Sprintf("%s: expected %s, got %s", method, a, b)
		return
	}
	if x.Locator() != l || x.File() != "f.pp" || x.Line() != 1 || x.Pos() != 3 || x.String() != factoryText[3:11] {
		vd.Msg = fmt.Sprintf("%s: wrong location or text", method)
		return
	}
	if p, ok := x.(*parser.Program); ok {
		i, _ := strconv.Atoi(c.Parts[2])
		v, _ := argument(method, f, l, "defs", nil, i)
		if len(p.Definitions()) != v.Len() {
			vd.Msg = fmt.Sprintf("%d definitions", len(p.Definitions()))
			return
		}
		for i, d := range v.Interface().([]parser.Definition) {
			if d.Label() != p.Definitions()[i].Label() {
				vd.Msg = "definitions in the wrong order"
				return
			}
		}
	}
	if vd.Msg = checkTraversal(r, x, factoryText); vd.Msg != "" {
		return
	}
	if a, b := model.ToPN(r.Root).Format(), x.ToPN().String(); a != b {
		vd.Msg = fmt.Sprintf("expected PN %s, got %s", a, b)
		return
	}
	vd.Msg = checkOthers(r)
	return
}

// factorySpace consists of all calls of methods of the factory
func factorySpace() *engine.Space {
	s := &engine.Space{Name: "factory-arguments", Judge: judgeMade, Bound: "all methods of the factory with all combinations of arguments out of pools"}
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		var names []string
		for m := range makers {
			names = append(names, m)
		}
		sort.Strings(names)
		s.Bound += fmt.Sprintf(" (%d methods)", len(names))
		for _, m := range names {
			m := m
			tasks = append(tasks, func(v *engine.Visitor) {
				args := strings.Fields(makers[m])[1:]
				f, l := parser.DefaultFactory(), parser.NewLocator("f.pp", factoryText)
				var rec func(parts []string)
				rec = func(parts []string) {
					if len(parts) == len(args)+1 {
						v.Check(model.Opt{}, parts...)
						return
					}
					for i := 0; ; i++ {
						if _, ok := argument(m, f, l, args[len(parts)-1], nil, i); !ok || v.Stopped() {
							return
						}
						rec(append(append([]string{}, parts...), strconv.Itoa(i)))
					}
				}
				rec([]string{m})
			})
		}
		return
	}
	return s
}

// lookupSpace consists of hashes with any number of entries
func lookupSpace() *engine.Space {
	s := &engine.Space{Name: "lookup", Bound: "hashes with 0 to 40 entries with each kind of key, and all of them in turn; another key first, in the middle or last"}
	keys := []string{"k%d", "'k%d'", "K%d", "'k %d'", "k::a%d", "K%d::B", "%d", "\"k%d\"", "\"$k%d\"", "'%d'", "k%d::b", "/k%d/", "$k%d", "private"}
	s.Judge = treeJudge(func(r *drive.Reified, e parser.Expression, src string) string { return checkOthers(r) })
	s.Tasks = func(tier string) (tasks []func(v *engine.Visitor)) {
		for n := 0; n <= 40; n++ {
			n := n
			tasks = append(tasks, func(v *engine.Visitor) {
				for a := 0; a <= len(keys); a++ {
					for b := range keys {
						for _, at := range []int{-1, 0, n / 2, n - 1} {
							l := []string{}
							for i := 0; i < n; i++ {
								k := keys[(a+i)%len(keys)]
								if a < len(keys) {
									k = keys[a]
								}
								if i == at {
									k = keys[b]
								}
								l = append(l, fmt.Sprintf(k+" => %d", i, i))
							}
							v.Source(model.Opt{}, "$x = {"+strings.Join(l, ", ")+"}")
							v.Source(model.Opt{}, "f({"+strings.Join(l, ", ")+", a => 'b', a => 'c'}, A)")
						}
					}
				}
			})
		}
		return
	}
	return s
}

func init() {
	add("P39", "Nodes that are made with the factory", func() list {
		anyForm := spaces.Join(spaces.Core(), spaces.Plans, spaces.Steps)
		j := treeJudge(checkRebuilt)
		return append(list{factorySpace(), lookupSpace()}, append(judged(j,
			branches(opts("tasks+workflow")[0]),
			amongMany(opts("tasks+workflow")[0], false),
			nest{Name: "rebuilt-forms", Opts: opts("tasks+workflow"), Outer: anyForm, Middle: anyForm, Inner: anyForm, Depth: lim(2, 3)}.Space(),
			nest{Name: "rebuilt-epp", Opts: opts("epp"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2), Wrap: func(s string) string { return "<%- | $p = 1 | -%>é\n <%= " + s + " %> b\n<% " + s + " -%>  " }}.Space(),
			nest{Name: "rebuilt-single", Opts: opts("single"), Outer: spaces.Core(), Middle: spaces.Core(), Inner: spaces.Core(), Depth: lim(2, 2)}.Space(),
		), reuse(j, 2, grammar...)...)...)
	})
}
