package model

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// PN is a node in the Puppet Extended S-Expression Notation. Kind is one of l, [, {, and (
type PN struct {
	Kind byte
	Name string   // of call
	Keys []string // of map
	L    []*PN
	V    interface{} // literal
}

func lit(v interface{}) *PN             { return &PN{Kind: 'l', V: v} }
func lst(l ...*PN) *PN                  { return &PN{Kind: '[', L: l} }
func call(name string, l ...*PN) *PN    { return &PN{Kind: '(', Name: name, L: l} }
func (p *PN) put(key string, v *PN) *PN { p.Keys, p.L = append(p.Keys, key), append(p.L, v); return p }
func (p *PN) opt(key string, n *Node) *PN {
	if n != nil {
		p.put(key, ToPN(n))
	}
	return p
}
func (p *PN) text(key, s string) *PN {
	if s != "" {
		p.put(key, lit(s))
	}
	return p
}

// AsCall returns a call where the given node is the argument, or arguments
func (p *PN) AsCall(name string) *PN {
	if p.Kind == '(' || p.Kind == '[' {
		return call(name, p.L...)
	}
	return call(name, p)
}

func pns(l []*Node) (r []*PN) {
	for _, n := range l {
		r = append(r, ToPN(n))
	}
	return
}

func stmts(n *Node) *PN {
	if n.is("Block") {
		return lst(pns(n.List("statements"))...)
	}
	return lst(ToPN(n))
}

func form(p *PN, n *Node) *PN {
	if n.S != "regular" {
		p.put("form", lit(n.S))
	}
	return p
}

func params(p *PN, n *Node) *PN {
	if l := n.List("parameters"); len(l) > 0 {
		m := &PN{Kind: '{'}
		for _, x := range l {
			m.put(x.S, paramPN(&PN{Kind: '{'}, x))
		}
		p.put("params", m)
	}
	return p
}

func paramPN(m *PN, n *Node) *PN {
	m.opt("type", n.Child("type"))
	if n.B {
		m.put("splat", lit(true))
	}
	return m.opt("value", n.Child("value"))
}

// ToPN converts a syntax tree
func ToPN(n *Node) *PN {
	c := func(s string) *PN { return ToPN(n.Child(s)) }
	m := &PN{Kind: '{'}
	pre := func(rv, other string) string {
		if n.B {
			return rv
		}
		return other
	}
	body := func() {
		if b := n.Child("body"); b != nil {
			m.put("body", stmts(b))
		}
	}
	switch n.K {
	case "Access":
		return call("access", append([]*PN{c("operand")}, pns(n.List("keys"))...)...)
	case "And", "Or", "In":
		return call(strings.ToLower(n.K), c("lhs"), c("rhs"))
	case "Arithmetic", "Assignment", "Comparison", "Match", "Relationship":
		return call(n.S, c("lhs"), c("rhs"))
	case "NamedAccess":
		return call(".", c("lhs"), c("rhs"))
	case "Application", "Definition", "Function", "Plan", "Class":
		m.put("name", lit(n.S))
		m.text("parent", n.S2)
		params(m, n)
		body()
		m.opt("returns", n.Child("returnType"))
		return call(map[string]string{"Application": "application", "Definition": "define", "Function": "function", "Plan": "plan", "Class": "class"}[n.K], m)
	case "AttributeOp":
		return call(n.S2, lit(n.S), c("value"))
	case "AttributesOp":
		return call("splat-hash", c("expr"))
	case "Block":
		return call("block", pns(n.List("statements"))...)
	case "Call", "CallMethod", "CallFunction":
		m.put("functor", c("functor")).put("args", lst(pns(n.List("arguments"))...)).opt("block", n.Child("lambda"))
		return call(pre("call", "invoke")+map[string]string{"Call": "", "CallMethod": "-method", "CallFunction": "-lambda"}[n.K], m)
	case "CapabilityMapping":
		return call(n.S, c("component"), lst(append([]*PN{lit(n.S2)}, pns(n.List("mappings"))...)...))
	case "Case":
		return call("case", c("test"), lst(pns(n.List("options"))...))
	case "CaseOption":
		return m.put("when", lst(pns(n.List("values"))...)).put("then", stmts(n.Child("then")))
	case "Collect":
		m.put("type", c("resourceType")).put("query", c("query"))
		if l := n.List("operations"); len(l) > 0 {
			m.put("ops", lst(pns(l)...))
		}
		return call("collect", m)
	case "ConcatenatedString":
		return call("concat", pns(n.List("segments"))...)
	case "Epp":
		return c("body").AsCall("epp")
	case "Site":
		return c("body").AsCall("site")
	case "VirtualQuery", "ExportedQuery":
		name := map[string]string{"VirtualQuery": "virtual-query", "ExportedQuery": "exported-query"}[n.K]
		if n.Child("expr").is("Nop") {
			return call(name)
		}
		return call(name, c("expr"))
	case "Heredoc":
		m.text("syntax", n.S2)
		return call("heredoc", m.put("text", c("text")))
	case "If", "Unless":
		m.put("test", c("test"))
		for _, s := range []string{"then", "else"} {
			if x := n.Child(s); !x.is("Nop") {
				m.put(s, stmts(x))
			}
		}
		return call(strings.ToLower(n.K), m)
	case "KeyedEntry":
		return call("=>", c("key"), c("value"))
	case "SelectorEntry":
		return call("=>", c("matching"), c("value"))
	case "Lambda":
		params(m, n).opt("returns", n.Child("returnType"))
		body()
		return call("lambda", m)
	case "Boolean":
		return lit(n.B)
	case "Default":
		return call("default")
	case "Float":
		return lit(n.F)
	case "Integer":
		if n.R == 10 {
			return lit(n.I)
		}
		return call("int", m.put("radix", lit(int64(n.R))).put("value", lit(n.I)))
	case "String":
		return lit(n.S)
	case "Undef":
		return lit(nil)
	case "Hash":
		return call("hash", pns(n.List("entries"))...)
	case "List":
		return call("array", pns(n.List("elements"))...)
	case "Node":
		m.put("matches", lst(pns(n.List("hostMatches"))...)).opt("parent", n.Child("parent"))
		body()
		return call("node", m)
	case "Nop":
		return call("nop")
	case "Not":
		return call("!", c("expr"))
	case "Negate":
		return call("-", c("expr"))
	case "Unfold", "Paren", "Render":
		return call(strings.ToLower(n.K), c("expr"))
	case "Text":
		return call("str", c("expr"))
	case "Parameter":
		return call("param", paramPN(m.put("name", lit(n.S)), n))
	case "Program":
		return c("body")
	case "QualifiedName":
		return call("qn", lit(n.S))
	case "QualifiedReference":
		return call("qr", lit(n.S))
	case "Regexp":
		return call("regexp", lit(n.S))
	case "RenderString":
		return call("render-s", lit(n.S))
	case "ReservedWord":
		return call("reserved", lit(n.S))
	case "ResourceBody":
		return call("resource-body", m.put("title", c("title")).put("ops", lst(pns(n.List("operations"))...)))
	case "ResourceDefaults":
		return call("resource-defaults", form(m.put("type", c("typeRef")).put("ops", lst(pns(n.List("operations"))...)), n))
	case "ResourceOverride":
		return call("resource-override", form(m.put("resources", c("resources")).put("ops", lst(pns(n.List("operations"))...)), n))
	case "Resource":
		var l []*PN
		for _, b := range n.List("bodies") {
			l = append(l, ToPN(b).L...)
		}
		return call("resource", form(m.put("type", c("typeName")).put("bodies", lst(l...)), n))
	case "Selector":
		return call("?", c("lhs"), lst(pns(n.List("selectors"))...))
	case "Step":
		m.put("name", lit(n.S)).put("style", lit(n.S2))
		return call("step", m.opt("properties", n.Child("properties")).opt("definition", n.Child("definition")))
	case "TypeAlias":
		return call("type-alias", lit(n.S), c("type"))
	case "TypeDefinition":
		return call("type-definition", lit(n.S), lit(n.S2), c("body"))
	case "TypeMapping":
		return call("type-mapping", c("type"), c("mapping"))
	case "Variable":
		x := n.Child("expr")
		if x.K == "Integer" {
			return call("var", lit(x.I))
		}
		return call("var", lit(x.S))
	}
	panic("no PN for " + n.K)
}

// Quote is the text of a string in PN
func Quote(s string) string {
	b := strings.Builder{}
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < ' ':
			fmt.Fprintf(&b, "\\o%03o", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// FloatText is the text of a float in PN. It has 16 significant digits with no trailing zeros and always looks like a
// float
func FloatText(f float64) string {
	s := strconv.FormatFloat(f, 'g', 16, 64)
	// FormatFloat 'g' with precision retains neither the decimal point nor zeros
	mant, exp := s, ""
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		mant, exp = s[:i], s[i:]
	}
	if strings.IndexByte(mant, '.') >= 0 {
		mant = strings.TrimRight(mant, "0")
		if mant[len(mant)-1] == '.' {
			mant += "0"
		}
		return mant + exp
	}
	if exp != "" {
		return s
	}
	// An integer. Scientific notation must be used
	s = strconv.FormatFloat(f, 'e', 16, 64)
	i := strings.IndexByte(s, 'e')
	mant = strings.TrimRight(s[:i], "0")
	if mant[len(mant)-1] == '.' {
		mant += "0"
	}
	return mant + s[i:]
}

// Format returns the text
func (p *PN) Format() string {
	b := strings.Builder{}
	p.format(&b)
	return b.String()
}

func (p *PN) format(b *strings.Builder) {
	switch p.Kind {
	case '[', '(':
		b.WriteByte(p.Kind)
		b.WriteString(p.Name)
		for i, x := range p.L {
			if i > 0 || p.Name != "" {
				b.WriteByte(' ')
			}
			x.format(b)
		}
		b.WriteByte(map[byte]byte{'[': ']', '(': ')'}[p.Kind])
	case '{':
		b.WriteByte('{')
		for i, x := range p.L {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(":" + p.Keys[i] + " ")
			x.format(b)
		}
		b.WriteByte('}')
	default:
		switch v := p.V.(type) {
		case nil:
			b.WriteString("nil")
		case string:
			b.WriteString(Quote(v))
		case int64:
			b.WriteString(strconv.FormatInt(v, 10))
		case bool:
			b.WriteString(strconv.FormatBool(v))
		case float64:
			b.WriteString(FloatText(v))
		default:
			fmt.Fprintf(b, "%v", v)
		}
	}
}

// Data returns the representation that consists of primitive values, slices, and maps
func (p *PN) Data() interface{} {
	l := []interface{}{}
	switch p.Kind {
	case '[':
		for _, x := range p.L {
			l = append(l, x.Data())
		}
		return l
	case '(':
		l = append(l, p.Name)
		for _, x := range p.L {
			l = append(l, x.Data())
		}
		return map[string]interface{}{"^": l}
	case '{':
		for i, x := range p.L {
			l = append(l, p.Keys[i], x.Data())
		}
		return map[string]interface{}{"#": l}
	}
	return p.V
}

// SameData compares data. Integers of different sizes are equal
func SameData(a, b interface{}) string {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("expected %v, got %v", a, b)
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return fmt.Sprintf("expected key %s in %v", k, b)
			}
			if d := SameData(v, w); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("expected %v, got %v", a, b)
		}
		for i := range x {
			if d := SameData(x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return ""
			}
		case int:
			if x == int64(y) {
				return ""
			}
		}
		return fmt.Sprintf("expected %v, got %T %v", a, b, b)
	}
	switch b.(type) {
	case map[string]interface{}, []interface{}:
		return fmt.Sprintf("expected %v, got %v", a, b)
	}
	if a != b {
		return fmt.Sprintf("expected %T %v, got %T %v", a, a, b, b)
	}
	return ""
}

// ReadPN parses the text of a PN
func ReadPN(s string) (p *PN, err error) {
	r := &pnReader{s: s}
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v at %d in %s", x, r.i, s)
		}
	}()
	p = r.value()
	if r.i != len(s) {
		panic("trailing text")
	}
	return
}

type pnReader struct {
	s string
	i int
}

func (r *pnReader) word() string {
	i := r.i
	for r.i < len(r.s) && !strings.ContainsRune(" ()[]{}", rune(r.s[r.i])) {
		r.i++
	}
	return r.s[i:r.i]
}

func (r *pnReader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *pnReader) expect(c byte) {
	if r.peek() != c {
		panic("expected " + string(c))
	}
	r.i++
}

func (r *pnReader) value() *PN {
	switch c := r.peek(); c {
	case '[':
		r.i++
		p := &PN{Kind: '['}
		for n := 0; r.peek() != ']'; n++ {
			if n > 0 {
				r.expect(' ')
			}
			p.L = append(p.L, r.value())
		}
		r.i++
		return p
	case '(':
		r.i++
		p := &PN{Kind: '(', Name: r.word()}
		for r.peek() != ')' {
			r.expect(' ')
			p.L = append(p.L, r.value())
		}
		r.i++
		return p
	case '{':
		r.i++
		p := &PN{Kind: '{'}
		for n := 0; r.peek() != '}'; n++ {
			if n > 0 {
				r.expect(' ')
			}
			r.expect(':')
			k := r.word()
			r.expect(' ')
			p.put(k, r.value())
		}
		r.i++
		return p
	case '"':
		r.i++
		b := strings.Builder{}
		for {
			c := r.peek()
			if r.i >= len(r.s) {
				panic("unterminated string")
			}
			r.i++
			if c == '"' {
				return lit(b.String())
			}
			if c < ' ' {
				panic("control character in string")
			}
			if c != '\\' {
				b.WriteByte(c)
				continue
			}
			c = r.peek()
			r.i++
			switch c {
			case 't':
				b.WriteByte('\t')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case '"', '\\':
				b.WriteByte(c)
			case 'o':
				x, err := strconv.ParseUint(r.s[r.i:r.i+3], 8, 8)
				if err != nil {
					panic(err)
				}
				r.i += 3
				b.WriteByte(byte(x))
			default:
				panic("bad escape")
			}
		}
	}
	w := r.word()
	switch w {
	case "nil":
		return lit(nil)
	case "true", "false":
		return lit(w == "true")
	}
	if i, err := strconv.ParseInt(w, 10, 64); err == nil {
		return lit(i)
	}
	f, err := strconv.ParseFloat(w, 64)
	if strings.ContainsAny(w, ".e") && (err == nil || math.IsInf(f, 0)) {
		// The largest floats can't be read back, since they are rounded up
		return lit(f)
	}
	panic("unrecognized literal " + w)
}
