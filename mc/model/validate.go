package model

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Issue is something that a validator reports. The words must be part of the message
type Issue struct {
	Code, Severity string
	At             *Node
	Words          []string
}

func set(s string) map[string]bool {
	r := map[string]bool{}
	for _, k := range strings.Fields(s) {
		r[k] = true
	}
	return r
}

var (
	definitionKinds = set(`Application CapabilityMapping Function Class Node Plan Definition Site TypeAlias TypeDefinition TypeMapping Step`)
	catalogKinds    = set(`Application CapabilityMapping Collect Class Node Relationship ResourceDefaults Resource ResourceOverride Definition Site`)
	unaryKinds      = set(`Not Paren Render Text Negate Unfold Variable`)
	reservedTypes   = set(`type any unit scalar boolean numeric integer float collection array hash tuple struct variant optional enum
		regexp pattern runtime init object sensitive semver semverrange string timestamp timespan typeset`)
	futureReserved = set(`application produces consumes`)
	alwaysIdem     = set(`Access ConcatenatedString Heredoc List Hash Nop Selector
		Boolean Default Float Integer String Undef QualifiedName QualifiedReference Regexp ReservedWord
		And Or Arithmetic Comparison In NamedAccess
		Not Text Negate Unfold Variable`)
	absoluteTop = set(`Function Plan TypeAlias TypeMapping`)

	declaredName = regexp.MustCompile(`^[a-z][A-Za-z0-9_]*(::[a-z][A-Za-z0-9_]*)*$`)
	declaredType = regexp.MustCompile(`^[A-Z][A-Za-z0-9_]*(::[A-Z][A-Za-z0-9_]*)*$`)
	typeRefName  = regexp.MustCompile(`^(::)?[A-Z][A-Za-z0-9_]*(::[A-Z][A-Za-z0-9_]*)*$`)
	paramName    = regexp.MustCompile(`^[a-z_][A-Za-z0-9_]*$`)
	hostName     = regexp.MustCompile(`^[-A-Za-z0-9_.]*$`)
)

var labels = map[string]string{
	"Step": "Step", "Access": "'[]' expression", "And": "'and' expression", "Application": "Application",
	"AttributesOp": "AttributesOperation", "Block": "Block Expression", "CallFunction": "Function Call", "CallMethod": "Method Call",
	"Call": "Function Call", "CapabilityMapping": "Capability Mapping", "Case": "'case' statement", "CaseOption": "CaseOption",
	"Collect": "CollectExpression", "ConcatenatedString": "Concatenated String", "Epp": "Epp Template", "ExportedQuery": "Exported Query",
	"Function": "Function Definition", "Plan": "Function Definition", "Heredoc": "Heredoc", "Class": "Host Class Definition", "If": "'if' statement",
	"In": "'in' expression", "KeyedEntry": "Hash Entry", "Boolean": "Literal Boolean", "Default": "'default' expression",
	"Float": "Literal Float", "Hash": "Hash Expression", "Integer": "Literal Integer", "List": "Array expression", "String": "Literal String",
	"Undef": "'undef' expression", "NamedAccess": "'.' expression", "Node": "Node Definition", "Nop": "Nop", "Not": "'!' expression",
	"Or": "'or' expression", "Parameter": "Parameter Definition", "Paren": "Parenthesized Expression", "Program": "Program",
	"QualifiedName": "Name", "QualifiedReference": "Type-Name", "Render": "Epp Interpolated Expression", "RenderString": "Epp Text",
	"Regexp": "Regular Expression", "ResourceBody": "Resource Instance Definition", "ResourceDefaults": "Resource Defaults Expression",
	"Resource": "Resource Statement", "ResourceOverride": "Resource Override", "Definition": "'define' expression",
	"SelectorEntry": "Selector option", "Selector": "Selector expression", "Site": "Site Definition", "Text": "Text expression",
	"TypeAlias": "Type Alias", "TypeDefinition": "Type Definition", "TypeMapping": "Type Mapping", "Negate": "Unary Minus",
	"Unfold": "Unfold", "Unless": "'unless' statement", "Variable": "Variable", "VirtualQuery": "Virtual Query", "Lambda": "Lambda",
}

// Label is what a node is called in messages. An empty string means that it isn't defined
func (n *Node) Label() string {
	switch n.K {
	case "Arithmetic", "Assignment", "Comparison", "Match", "Relationship":
		return "'" + n.S + "' expression"
	case "AttributeOp":
		return "'" + n.S2 + "' expression"
	case "ReservedWord":
		return "Reserved Word '" + n.S + "'"
	}
	return labels[n.K]
}

type validator struct {
	flavour, strict string
	path            []*Node
	issues          []Issue
}

// Validate returns what should be reported by the "puppet", "tasks", or "workflow" validator. The strictness is off,
// warning, or error
func Validate(root *Node, flavour, strict string) []Issue {
	v := &validator{flavour: flavour, strict: strict}
	v.visit(root)
	return v.issues
}

func (v *validator) visit(n *Node) {
	v.check(n)
	v.path = append(v.path, n)
	for _, c := range n.Children() {
		v.visit(c)
	}
	v.path = v.path[:len(v.path)-1]
}

// up returns the container at the given distance
func (v *validator) up(i int) *Node {
	if i > len(v.path) {
		return nil
	}
	return v.path[len(v.path)-i]
}

func (v *validator) report(code string, at *Node, words ...string) {
	sev := "error"
	switch code {
	case "FUTURE_RESERVED_WORD":
		sev = "deprecation"
	case "DUPLICATE_KEY", "IDEM_EXPRESSION_NOT_LAST":
		if sev = v.strict; sev == "off" {
			return
		}
	}
	v.issues = append(v.issues, Issue{"VALIDATE_" + code, sev, at, words})
}

func (n *Node) is(kinds ...string) bool {
	if n == nil {
		return false
	}
	for _, k := range kinds {
		if n.K == k {
			return true
		}
	}
	return false
}

func (v *validator) values(l ...*Node) {
	for _, e := range l {
		for e != nil && unaryKinds[e.K] {
			e = e.Child("expr")
		}
		if e != nil && (definitionKinds[e.K] || e.K == "Collect") {
			v.report("NOT_RVALUE", e, e.Label())
		}
	}
}

func (v *validator) check(n *Node) {
	if v.flavour != "puppet" && catalogKinds[n.K] {
		v.report("CATALOG_OPERATION_NOT_SUPPORTED", n)
		return
	}
	switch n.K {
	case "Step":
		if v.flavour != "workflow" {
			v.report("WORKFLOW_OPERATION_NOT_SUPPORTED", n)
		}
	case "Assignment":
		if n.S == "=" {
			v.assigned(n.Child("lhs"))
		} else {
			v.report("APPENDS_DELETES_NO_LONGER_SUPPORTED", n, n.S)
		}
	case "AttributeOp":
		if n.S2 == "+>" && !v.up(1).is("Collect", "ResourceOverride") {
			v.report("ILLEGAL_ATTRIBUTE_APPEND", n, n.S, v.up(1).Label())
		}
	case "AttributesOp":
		if c := v.up(1); c.is("Resource", "ResourceDefaults", "ResourceOverride", "Collect", "CapabilityMapping") {
			v.report("UNSUPPORTED_OPERATOR_IN_CONTEXT", c, "* =>", c.Label())
		}
		v.values(n.Child("expr"))
	case "And", "Or", "Arithmetic", "Comparison", "In", "Match":
		v.values(n.Child("lhs"), n.Child("rhs"))
	case "Block":
		l := n.List("statements")
		for i, s := range l {
			if i < len(l)-1 && idem(s) {
				v.report("IDEM_EXPRESSION_NOT_LAST", s, s.Label())
				break
			}
		}
	case "Call":
		f := n.Child("functor")
		if !f.is("QualifiedName", "QualifiedReference") && !(f.is("Access") && f.Child("operand").is("QualifiedReference")) {
			v.report("ILLEGAL_EXPRESSION", f, f.Label(), "function name", n.Label())
		}
	case "CapabilityMapping":
		c := n.Child("component")
		switch {
		case c.is("QualifiedReference"):
		case c.is("QualifiedName"):
			v.report("ILLEGAL_CLASSREF", c, c.S)
		case c.is("Access") && c.Child("operand").is("QualifiedReference") && len(c.List("keys")) == 1 && c.List("keys")[0].is("String", "QualifiedName", "QualifiedReference"):
		default:
			v.report("ILLEGAL_EXPRESSION", c, c.Label(), "capability mapping", n.Label())
		}
		if !typeRefName.MatchString(n.S2) {
			v.report("ILLEGAL_CLASSREF", n, n.S2)
		}
	case "Case":
		v.values(n.Child("test"))
		seen := false
		for _, o := range n.List("options") {
			for _, x := range o.List("values") {
				if x.is("Default") {
					if seen {
						v.report("DUPLICATE_DEFAULT", x, n.Label())
					}
					seen = true
				}
			}
		}
	case "CaseOption":
		v.values(n.List("values")...)
	case "Collect":
		if t := n.Child("resourceType"); !t.is("QualifiedReference") {
			v.report("ILLEGAL_EXPRESSION", t, t.Label(), "type name", n.Label())
		}
	case "Epp":
		if l := v.up(1); l.is("Lambda") {
			v.noCapture(l)
			v.unique(l)
		}
	case "Function", "Plan":
		v.named(n)
		v.captureLast(n)
		v.returns(n)
	case "Class", "Definition":
		v.named(n)
		v.noCapture(n)
		for _, p := range n.List("parameters") {
			if p.S == "name" || p.S == "title" {
				v.report("RESERVED_PARAMETER", n, p.S, n.Label())
			}
		}
		v.lastHasEffect(n)
	case "If", "Unless":
		v.values(n.Child("test"))
	case "KeyedEntry":
		v.values(n.Child("key"), n.Child("value"))
	case "Lambda":
		v.captureLast(n)
		v.returns(n)
	case "Hash":
		seen := map[string]bool{}
		for _, e := range n.List("entries") {
			if k, ok := literalKey(e.Child("key")); ok {
				if seen[k] {
					v.report("DUPLICATE_KEY", e)
				}
				seen[k] = true
			}
		}
	case "List":
		v.values(n.List("elements")...)
	case "NamedAccess":
		if r := n.Child("rhs"); !r.is("QualifiedName") {
			v.report("ILLEGAL_EXPRESSION", r, r.Label(), "method name")
		}
	case "Node":
		for _, h := range n.List("hostMatches") {
			s := h
			if h.is("ConcatenatedString") {
				if l := h.List("segments"); len(l) != 1 || l[0].K != "String" {
					v.report("ILLEGAL_HOSTNAME_INTERPOLATION", h)
					continue
				} else {
					s = l[0]
				}
			}
			if s.is("String") && !hostName.MatchString(s.S) {
				v.report("ILLEGAL_HOSTNAME_CHARS", h, s.S)
			}
		}
		v.top(n)
		v.lastHasEffect(n)
	case "Parameter":
		switch {
		case n.S != "" && n.S[0] >= '0' && n.S[0] <= '9':
			v.report("ILLEGAL_NUMERIC_PARAMETER", n, n.S)
		case !paramName.MatchString(n.S):
			v.report("ILLEGAL_PARAMETER_NAME", n, n.S)
		}
		if d := n.Child("value"); d != nil {
			v.noAssignment(d)
		}
	case "VirtualQuery", "ExportedQuery":
		if q := n.Child("expr"); q != nil && !q.is("Nop") {
			v.query(q)
		}
	case "Relationship":
		for _, s := range []string{"lhs", "rhs"} {
			if o := n.Child(s); !o.is("Collect", "Relationship") {
				v.values(o)
			}
		}
	case "ReservedWord":
		if n.B {
			v.report("FUTURE_RESERVED_WORD", n, n.S)
		} else {
			v.report("RESERVED_WORD", n, n.S)
		}
	case "ResourceBody":
		seen := false
		for _, o := range n.List("operations") {
			if o.is("AttributesOp") {
				if seen {
					v.report("MULTIPLE_ATTRIBUTES_UNFOLD", o)
				}
				seen = true
			}
		}
	case "ResourceDefaults", "ResourceOverride":
		if n.S != "regular" {
			v.report("NOT_VIRTUALIZABLE", n)
		}
	case "Resource":
		if t := n.Child("typeName"); n.S != "regular" && t.is("QualifiedName") && t.S == "class" {
			v.report("NOT_VIRTUALIZABLE", n)
		}
	case "SelectorEntry":
		v.values(n.Child("matching"))
	case "Selector":
		v.values(n.Child("lhs"))
		seen := false
		for _, e := range n.List("selectors") {
			if e.Child("matching").is("Default") {
				if seen {
					v.report("DUPLICATE_DEFAULT", e, n.Label())
				}
				seen = true
			}
		}
	case "TypeAlias":
		v.top(n)
		if !declaredType.MatchString(n.S) {
			v.report("ILLEGAL_DEFINITION_NAME", n, n.S, n.Label())
		}
		v.reservedType(n)
		v.typeRef(n, n.Child("type"))
	case "TypeMapping":
		v.top(n)
		v.mapping(n)
	default:
		if unaryKinds[n.K] {
			v.values(n.Child("expr"))
		}
	}
}

func (v *validator) assigned(e *Node) {
	switch e.K {
	case "Access":
		v.report("ILLEGAL_ASSIGNMENT_VIA_INDEX", e)
	case "List":
		for _, x := range e.List("elements") {
			v.assigned(x)
		}
	case "Variable":
		switch x := e.Child("expr"); x.K {
		case "QualifiedName":
			if strings.Contains(x.S, "::") {
				v.report("CROSS_SCOPE_ASSIGNMENT", e, x.S)
			}
		case "Integer":
			v.report("ILLEGAL_NUMERIC_ASSIGNMENT", e, fmt.Sprint(x.I))
		}
	}
}

func (v *validator) captureLast(n *Node) {
	ps := n.List("parameters")
	for i, p := range ps {
		if p.B && i < len(ps)-1 {
			v.report("CAPTURES_REST_NOT_LAST", p, "$"+p.S)
		}
	}
}

func (v *validator) noCapture(n *Node) {
	for _, p := range n.List("parameters") {
		if p.B {
			v.report("CAPTURES_REST_NOT_SUPPORTED", p, "$"+p.S, n.Label())
		}
	}
}

func (v *validator) unique(n *Node) {
	seen := map[string]bool{}
	for _, p := range n.List("parameters") {
		if seen[p.S] {
			v.report("DUPLICATE_PARAMETER", p, p.S)
		}
		seen[p.S] = true
	}
}

func (v *validator) named(n *Node) {
	v.top(n)
	if !declaredName.MatchString(n.S) {
		v.report("ILLEGAL_DEFINITION_NAME", n, n.S, n.Label())
	}
	v.reservedType(n)
	if futureReserved[n.S] {
		v.report("FUTURE_RESERVED_WORD", n, n.S)
	}
	v.unique(n)
}

func (v *validator) reservedType(n *Node) {
	if reservedTypes[strings.ToLower(n.S)] {
		v.report("RESERVED_TYPE_NAME", n, n.S, n.Label())
	}
}

func (v *validator) returns(n *Node) {
	if t := n.Child("returnType"); t != nil {
		v.typeRef(n, t)
	}
}

func (v *validator) typeRef(in, t *Node) {
	q := t
	if t.is("Access") {
		q = t.Child("operand")
	}
	if !q.is("QualifiedReference") {
		v.report("ILLEGAL_EXPRESSION", t, t.Label(), "a type reference", in.Label())
	} else if futureReserved[strings.ToLower(q.S)] {
		v.report("FUTURE_RESERVED_WORD", t, strings.ToLower(q.S))
	}
}

func (v *validator) lastHasEffect(n *Node) {
	if l := n.Child("body").List("statements"); len(l) > 0 && idem(l[len(l)-1]) {
		v.report("IDEM_NOT_ALLOWED_LAST", l[len(l)-1], l[len(l)-1].Label(), n.Label())
	}
}

func (v *validator) noAssignment(e *Node) {
	if e.is("Assignment") {
		v.report("ILLEGAL_ASSIGNMENT_CONTEXT", e)
		return
	}
	if e.is("Lambda") {
		return
	}
	for _, c := range e.Children() {
		v.noAssignment(c)
	}
}

func (v *validator) query(e *Node) {
	switch e.K {
	case "Comparison":
		if e.S != "==" && e.S != "!=" {
			v.report("ILLEGAL_QUERY_EXPRESSION", e, e.Label())
		}
	case "Paren":
		v.query(e.Child("expr"))
	case "And", "Or":
		v.query(e.Child("lhs"))
		v.query(e.Child("rhs"))
	case "Variable", "QualifiedName", "Integer", "Float", "String", "Boolean":
	default:
		v.report("ILLEGAL_QUERY_EXPRESSION", e, e.Label())
	}
}

// top verifies that a definition is where it is allowed. The containers are a sequence of program and classes, each
// with a block. Functions and types may not be in a class, but functions may be in steps
func (v *validator) top(n *Node) {
	for i := 1; ; i++ {
		c := v.up(i)
		if c == nil || c.is("Class", "Program") {
			return
		}
		if !c.is("Block") {
			v.report("NOT_TOP_LEVEL", n)
			return
		}
		cc := v.up(i + 1)
		if cc.is("Step") && n.K == "Function" {
			return
		}
		if !cc.is("Program") && absoluteTop[n.K] {
			v.report("NOT_ABSOLUTE_TOP_LEVEL", n, n.Label())
			return
		}
	}
}

func (v *validator) mapping(n *Node) {
	replacement := func(e *Node) bool {
		l := e.List("elements")
		return e.is("List") && len(l) == 2 && l[0].is("Regexp") && l[1].is("String")
	}
	t, m := n.Child("type"), n.Child("mapping")
	if !t.is("Access") || !t.Child("operand").is("QualifiedReference") || t.Child("operand").S != "Runtime" {
		v.report("UNSUPPORTED_EXPRESSION", n, n.Label())
		return
	}
	keys := t.List("keys")
	pattern := len(keys) == 2 && replacement(keys[1])
	q := m
	if m.is("Access") {
		q = m.Child("operand")
	}
	if pattern && !replacement(m) {
		v.report("ILLEGAL_REGEXP_TYPE_MAPPING", n, n.Label())
	} else if !pattern && (replacement(m) || !q.is("QualifiedReference")) {
		v.report("ILLEGAL_SINGLE_TYPE_MAPPING", n, n.Label())
	}
}

// idem is true for expressions that are known to have no effect other than producing a value
func idem(e *Node) bool {
	if e == nil || alwaysIdem[e.K] {
		return true
	}
	switch e.K {
	case "Block", "Case", "CaseOption", "If", "Unless", "Paren":
		for _, c := range e.Children() {
			if !idem(c) {
				return false
			}
		}
		return true
	}
	return false
}

// literalKey returns a string that is the same for keys that are equal
func literalKey(e *Node) (string, bool) {
	switch e.K {
	case "List", "Hash", "QualifiedReference", "Regexp":
		if _, ok := Literal(e); !ok {
			return "", false
		}
		return e.K + ":" + e.Dump(), true
	}
	x, ok := Literal(e)
	return fmt.Sprintf("%T:%v", x, x), ok
}

// Lit is a literal value other than nil, bool, int64, float64, string, and []interface{}
type Lit struct{ Kind, Text string }

// Literal returns the value of an expression that is literal
func Literal(e *Node) (interface{}, bool) {
	switch e.K {
	case "Program":
		return Literal(e.Child("body"))
	case "Boolean":
		return e.B, true
	case "Integer":
		return e.I, true
	case "Float":
		return e.F, true
	case "String", "QualifiedName", "Regexp", "QualifiedReference", "RenderString", "ReservedWord":
		return e.S, true
	case "Undef":
		return nil, true
	case "Default":
		return Lit{"default", ""}, true
	case "Heredoc":
		return Literal(e.Child("text"))
	case "ConcatenatedString":
		if l := e.List("segments"); len(l) == 1 && l[0].K == "String" {
			return l[0].S, true
		}
	case "List":
		r := []interface{}{}
		for _, x := range e.List("elements") {
			v, ok := Literal(x)
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	case "Hash":
		m := map[interface{}]interface{}{}
		for _, x := range e.List("entries") {
			k, ok := Literal(x.Child("key"))
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case []interface{}, map[interface{}]interface{}:
				return nil, false
			}
			v, ok := Literal(x.Child("value"))
			if !ok {
				return nil, false
			}
			m[k] = v
		}
		return m, true
	}
	return nil, false
}

// SortIssues sorts issues to make them comparable
func SortIssues(l []string) []string {
	sort.Strings(l)
	return l
}
