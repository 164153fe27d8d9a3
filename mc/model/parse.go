package model

import (
	"fmt"
	"strconv"
	"strings"
)

var statementCalls = map[string]bool{}
var stepStyles = map[string]bool{"action": true, "resource": true, "stateHandler": true, "workflow": true}

func init() {
	for _, n := range strings.Fields("require realize include contain tag debug info notice warning err fail import break next return") {
		statementCalls[n] = true
	}
}

// Result is the outcome of parsing a source
type Result struct {
	Root  *Node
	Defs  []*Node
	Err   *Err
	Saw   bool // the end of the source was seen, i.e. the outcome may change if something is appended to the source
	Steps int  // number of tokens that were scanned
	Over  bool // the work budget was exceeded. Nothing is known about the outcome
}

// Parse parses the given source
func Parse(src string, o Opt) (r Result) {
	return ParseBudget(src, o, 200000)
}

// ParseBudget parses the given source but gives up after the given number of tokens
func ParseBudget(src string, o Opt, budget int) (r Result) {
	p := &parser{src: src, o: o, budget: budget}
	p.nls = -1
	p.t = token{k: kEnd}
	defer func() {
		x := recover()
		defer func() { r.Steps = budget - p.budget }()
		switch x := x.(type) {
		case nil:
		case *Err:
			r = Result{Err: x, Saw: p.saw}
		case budgetExceeded:
			r = Result{Over: true, Saw: true}
		default:
			panic(x)
		}
	}()
	r.Saw = true
	if o.Epp {
		r.Root = p.epp()
	} else {
		p.lex()
		if o.Single {
			if p.t.k == kEnd {
				r.Root = &Node{K: "Undef", Off: p.t.start, End: p.t.start, Max: p.t.start, Alt: -1}
			} else {
				r.Root = p.relationship()
				p.expect(kEnd)
			}
		} else {
			r.Root = p.block(kEnd)
		}
	}
	if !o.Single {
		r.Root = (&Node{K: "Program", Off: 0, End: len(src), Max: len(src), Alt: -1}).add("body", r.Root)
		r.Defs = p.defs
	}
	return
}

// Tok is a token of the lexer that has no knowledge of interpolation. Kind distinguishes tokens that print the
// same way but differ with respect to layout
type Tok struct {
	Kind, Name string
	Start, End int
}

// Keyword is true for tokens of reserved words
func (t Tok) Keyword() bool { return strings.HasPrefix(t.Kind, "kw:") }

// Lexer is the lexer that has no knowledge of interpolation
type Lexer struct {
	p   *parser
	Saw bool // the end of the source has been seen
}

// NewLexer creates a lexer positioned before the first token
func NewLexer(src string) *Lexer {
	p := &parser{src: src, simple: true, budget: 200000}
	p.nls = -1
	p.t = token{k: kEnd}
	return &Lexer{p: p}
}

// Clone returns an independent copy
func (l *Lexer) Clone() *Lexer {
	p := *l.p
	return &Lexer{&p, l.Saw}
}

// SetPos changes the position where the next token is read
func (l *Lexer) SetPos(pos int) { l.p.pos = pos }

// Next returns the next token
func (l *Lexer) Next() (t Tok, err *Err) {
	defer func() {
		l.Saw = l.Saw || l.p.saw
		if x := recover(); x != nil {
			if e, ok := x.(*Err); ok {
				err = e
				return
			}
			panic(x)
		}
	}()
	l.p.lex()
	k := l.p.t.k
	return Tok{k, disp(k), l.p.t.start, l.p.pos}, nil
}

// mk creates a node that ends with the token that was most recently consumed
func (p *parser) mk(k string, off int) *Node {
	return &Node{K: k, Off: off, End: p.prevEnd, Max: maxi(p.pos, p.prevEnd), Alt: -1}
}

// leaf creates a node for the current token
func (p *parser) leaf(k, s string) *Node {
	return &Node{K: k, S: s, Off: p.t.start, End: p.t.end, Max: p.t.end, Alt: -1}
}

// err fails at some location in the current token
func (p *parser) err(code string, args ...string) { p.fail(code, p.t.start, p.pos, args...) }

// errAt fails at the start of the current token
func (p *parser) errAt(code string, args ...string) { p.fail(code, p.t.start, p.t.start, args...) }

func (p *parser) errNode(code string, n *Node, args ...string) {
	lo, hi := n.Off, n.Off
	if n.Alt >= 0 {
		if n.Alt < lo {
			lo = n.Alt
		} else {
			hi = n.Alt
		}
	}
	p.fail(code, lo, hi, args...)
}

func (p *parser) is(k string) bool { return p.t.k == k }

func (p *parser) expect(k string) {
	if p.t.k != k {
		p.errAt("PARSE_EXPECTED_TOKEN", "expected", disp(k), "actual", disp(p.t.k))
	}
}

func (p *parser) eat(k string) {
	p.expect(k)
	p.advance()
}

func in(k string, ks ...string) bool {
	for _, s := range ks {
		if s == k {
			return true
		}
	}
	return false
}

// epp

func (p *parser) epp() *Node {
	wrap := func(params []*Node, has bool, body *Node) *Node {
		if body.K != "Block" {
			body = (&Node{K: "Block", Off: 0, End: len(p.src), Max: len(p.src), Alt: -1}).addL("statements", []*Node{body})
		}
		e := (&Node{K: "Epp", B: has, Off: 0, End: len(p.src), Max: len(p.src), Alt: -1}).add("body", body)
		return (&Node{K: "Lambda", Off: 0, End: len(p.src), Max: len(p.src), Alt: -1}).
			addL("parameters", params).add("body", e).add("returnType", nil)
	}
	p.eppText(0)
	p.t.end = p.pos
	text := ""
	if p.is(kRendStr) {
		text = p.t.s
		p.advance()
	}
	if p.is(kEnd) {
		return wrap(nil, false, &Node{K: "RenderString", S: text, Off: 0, End: len(p.src), Max: len(p.src), Alt: -1})
	}
	if p.is("|") {
		if text != "" {
			p.err("PARSE_ILLEGAL_EPP_PARAMETERS")
		}
		params := p.pipeParams()
		p.advance()
		return wrap(params, true, p.block(kEnd))
	}
	var l []*Node
	if text != "" {
		l = append(l, &Node{K: "RenderString", S: text, Off: 0, End: 0, Max: p.t.start, Alt: -1})
	}
	l = p.statements(l, kEnd)
	return wrap(nil, false, (&Node{K: "Block", Off: 0, End: len(p.src), Max: len(p.src), Alt: -1}).addL("statements", l))
}

// blocks and statements

// block parses statements up to, and not including, the given token
func (p *parser) block(end string) *Node {
	start := p.t.start
	l := p.statements(nil, end)
	return (&Node{K: "Block", Off: start, End: maxi(start, p.t.start), Max: p.pos, Alt: -1}).addL("statements", l)
}

// braced parses '{' statements '}'
func (p *parser) braced() *Node {
	p.eat("{")
	b := p.block("}")
	if e := b.List("statements"); len(e) > 0 {
		b.End = p.prevEnd
	}
	p.advance()
	return b
}

func (p *parser) statements(l []*Node, end string) []*Node {
	for !p.is(end) {
		s := p.relationship()
		if p.is(",") {
			args := []*Node{s}
			for p.is(",") {
				p.advance()
				args = append(args, p.relationship())
			}
			s = p.mk("commas", s.Off).addL("elements", args)
		}
		l = append(l, s)
		if p.is(";") {
			p.advance()
		}
	}
	return p.statementLevelCalls(l)
}

// statementLevelCalls combines the name of a statement function and the expression that follows it into a call
func (p *parser) statementLevelCalls(l []*Node) (r []*Node) {
	for i := 0; i < len(l); i++ {
		e := l[i]
		if e.K == "QualifiedName" && statementCalls[e.S] && i+1 < len(l) {
			i++
			a := l[i]
			args := []*Node{a}
			if a.K == "commas" {
				args = a.List("elements")
			} else if a.K == "Call" {
				a.B = true
			}
			e = (&Node{K: "Call", Off: e.Off, End: a.End, Max: a.Max, Alt: -1}).add("functor", e).addL("arguments", args).add("lambda", nil)
		} else if e.K == "Call" {
			e.B = false
		}
		r = append(r, e)
	}
	for _, e := range r {
		if e.K == "commas" {
			f := e.List("elements")[0]
			p.fail("PARSE_EXTRANEOUS_COMMA", f.End, f.Max)
		}
	}
	return
}

// list parses a comma separated list and stops at the given end token
func (p *parser) list(end string, f func() *Node) (l []*Node) {
	for !p.is(end) {
		l = append(l, f())
		if !p.is(",") {
			if !p.is(end) {
				p.errAt("PARSE_EXPECTED_ONE_OF_TOKENS", "expected", fmt.Sprintf("',' or '%s'", disp(end)), "actual", disp(p.t.k))
			}
			return
		}
		p.advance()
	}
	return
}

// entry is an expression where some keywords are allowed as names
func (p *parser) entry() *Node {
	switch p.t.k {
	case "kw:type", "kw:function", "kw:plan", "kw:application", "kw:consumes", "kw:produces", "kw:site":
		n := p.leaf("QualifiedName", p.t.s)
		p.advance()
		if p.is("(") {
			return p.call(n)
		}
		return n
	}
	return p.relationship()
}

func (p *parser) argument() *Node {
	k := p.entry()
	if p.is("=>") {
		p.advance()
		v := p.entry()
		return p.mk("KeyedEntry", k.Off).add("key", k).add("value", v)
	}
	return k
}

// items parses elements up to the given end token. Adjacent entries are collected into hashes
func (p *parser) items(end string) (r []*Node) {
	var hash *Node
	for _, e := range p.list(end, p.argument) {
		if e.K != "KeyedEntry" {
			hash = nil
			r = append(r, e)
			continue
		}
		if hash == nil {
			hash = (&Node{K: "Hash", Off: e.Off, Alt: -1}).addL("entries", nil)
			r = append(r, hash)
		}
		hash.Slots[0].L = append(hash.Slots[0].L, e)
		hash.End, hash.Max = e.End, e.Max
	}
	return
}

func (p *parser) hashEntries() []*Node {
	return p.list("}", func() *Node {
		k := p.entry()
		if !p.is("=>") {
			p.err("PARSE_EXPECTED_FARROW_AFTER_KEY")
		}
		p.advance()
		v := p.entry()
		return p.mk("KeyedEntry", k.Off).add("key", k).add("value", v)
	})
}

// operators

func (p *parser) relationship() *Node {
	n := p.assignment()
	for in(p.t.k, "->", "~>", "<-", "<~") {
		op := p.t.k
		p.advance()
		r := p.assignment()
		n = p.bin("Relationship", op, n, r)
	}
	return n
}

func (p *parser) bin(k, op string, l, r *Node) *Node {
	n := p.mk(k, l.Off).add("lhs", l).add("rhs", r)
	n.S, n.Alt = op, l.Alt
	return n
}

func (p *parser) assignment() *Node {
	n := p.step()
	if in(p.t.k, "=", "+=", "-=") {
		op := p.t.k
		p.advance()
		r := p.assignment()
		n = p.bin("Assignment", op, n, r)
	}
	return n
}

func (p *parser) step() *Node {
	start := p.t.start
	n := p.expression()
	if p.is("{") {
		n = p.resource(n.Off, n, "regular")
	}
	if p.o.Workflow && n.K == "QualifiedName" && stepStyles[n.S] && p.hasName() {
		name := p.ident("")
		return p.stepDeclaration(start, n.S, name, true)
	}
	return n
}

func (p *parser) hasName() bool {
	return p.is(kIdent) || strings.HasPrefix(p.t.k, "kw:")
}

// ident consumes a name or keyword
func (p *parser) ident(code string, args ...string) string {
	if !p.hasName() {
		p.errAt(code, args...)
	}
	s := p.t.s
	p.advance()
	return s
}

func (p *parser) expression() *Node {
	n := p.binary(len(levels) - 1)
	for p.is("?") {
		n = p.selector(n)
	}
	if in(p.t.k, "kw:produces", "kw:consumes") && in(n.K, "QualifiedName", "QualifiedReference", "ReservedWord", "Access") {
		return p.capability(n)
	}
	return n
}

var levels = []struct {
	k   string
	ops []string
}{
	{"In", []string{"kw:in"}},
	{"Match", []string{"=~", "!~"}},
	{"Arithmetic", []string{"*", "/", "%"}},
	{"Arithmetic", []string{"+", "-"}},
	{"Arithmetic", []string{"<<", ">>"}},
	{"Comparison", []string{"==", "!="}},
	{"Comparison", []string{"<", "<=", ">", ">="}},
	{"And", []string{"kw:and"}},
	{"Or", []string{"kw:or"}},
}

func (p *parser) binary(level int) *Node {
	if level < 0 {
		return p.unary()
	}
	n := p.binary(level - 1)
	for in(p.t.k, levels[level].ops...) {
		op := p.t.k
		if strings.HasPrefix(op, "kw:") {
			op = ""
		}
		p.advance()
		r := p.binary(level - 1)
		n = p.bin(levels[level].k, op, n, r)
	}
	return n
}

func (p *parser) orExpression() *Node { return p.binary(len(levels) - 1) }

func (p *parser) unary() *Node {
	start := p.t.start
	one := func(k string, f func() *Node) *Node {
		p.advance()
		e := f()
		return p.mk(k, start).add("expr", e)
	}
	number := func() *Node {
		n := p.primary()
		n.Off, n.Alt = start, -1
		n.Max = maxi(n.Max, p.pos)
		return n
	}
	switch p.t.k {
	case "-":
		if dec(p.peek()) {
			p.neg = true
			p.advance()
			p.neg = false
			p.t.i, p.t.f = -p.t.i, -p.t.f
			return number()
		}
		return one("Negate", p.primary)
	case "+":
		if !dec(p.peek()) {
			p.err("LEX_UNEXPECTED_TOKEN", "token", "+")
		}
		p.advance()
		return number()
	case "!":
		return one("Not", p.unary)
	case "*":
		return one("Unfold", p.unary)
	case "@", "@@":
		form := "virtual"
		if p.is("@@") {
			form = "exported"
		}
		p.advance()
		n := p.primary()
		p.expect("{")
		return p.resource(start, n, form)
	}
	return p.primary()
}

func (p *parser) primary() *Node {
	n := p.atom()
	for {
		switch p.t.k {
		case "(", "|":
			n = p.call(n)
		case "<|", "<<|":
			n = p.collect(n)
		case "[":
			if n.K == "NamedAccess" {
				n = methodCall(n, nil, nil, n.End, n.Max)
			}
			bs := p.t.start
			p.advance()
			keys := p.items("]")
			p.advance()
			if n.K == "QualifiedName" && statementCalls[n.S] {
				a := p.mk("List", n.Off).addL("elements", keys)
				a.Alt = bs
				n = p.mk("Call", n.Off).add("functor", n).addL("arguments", []*Node{a}).add("lambda", nil)
			} else {
				alt := n.Alt
				n = p.mk("Access", n.Off).add("operand", n).addL("keys", keys)
				n.Alt = alt
			}
		case ".":
			p.advance()
			var r *Node
			if p.is("kw:type") {
				r = p.leaf("QualifiedName", p.t.s)
				p.advance()
			} else {
				r = p.atom()
			}
			n = p.bin("NamedAccess", "", n, r)
		default:
			if n.K == "NamedAccess" {
				n = methodCall(n, nil, nil, n.End, n.Max)
			}
			return n
		}
	}
}

// methodCall turns a named access into a call. Named accesses that are receivers are also turned into calls
func methodCall(ne *Node, args []*Node, lambda *Node, end, max int) *Node {
	if l := ne.Child("lhs"); l.K == "NamedAccess" {
		ne.Slots[0].L = []*Node{methodCall(l, nil, nil, l.End, l.Max)}
	}
	return (&Node{K: "CallMethod", B: true, Off: ne.Off, End: end, Max: max, Alt: ne.Alt}).
		add("functor", ne).addL("arguments", args).add("lambda", lambda)
}

func (p *parser) call(f *Node) *Node {
	var args []*Node
	if p.is("(") {
		p.advance()
		args = p.items(")")
		p.advance()
	}
	end := p.prevEnd
	max := p.pos
	var lambda *Node
	if p.is("|") {
		lambda = p.lambda()
		end = lambda.End
		max = p.pos
	}
	if f.K == "NamedAccess" {
		return methodCall(f, args, lambda, end, max)
	}
	return (&Node{K: "Call", B: true, Off: f.Off, End: end, Max: max, Alt: f.Alt}).
		add("functor", f).addL("arguments", args).add("lambda", lambda)
}

func (p *parser) lambda() *Node {
	start := p.t.start
	params := p.pipeParams()
	p.advance()
	ret := p.returns()
	body := p.braced()
	return p.mk("Lambda", start).addL("parameters", params).add("body", body).add("returnType", ret)
}

func (p *parser) atom() *Node {
	start := p.t.start
	lit := func(k, s string) *Node {
		n := p.leaf(k, s)
		n.B = p.is(kBool) && p.t.b
		n.F = p.t.f
		if p.is(kInt) {
			n.I, n.R = p.t.i, p.t.radix
		}
		p.advance()
		return n
	}
	switch p.t.k {
	case "(", "w(":
		p.advance()
		e := p.relationship()
		p.eat(")")
		return p.mk("Paren", start).add("expr", e)
	case "[", "l[":
		p.advance()
		l := p.items("]")
		p.advance()
		return p.mk("List", start).addL("elements", l)
	case "{":
		p.advance()
		l := p.hashEntries()
		p.advance()
		return p.mk("Hash", start).addL("entries", l)
	case kBool:
		return lit("Boolean", "")
	case kInt:
		return lit("Integer", "")
	case kFloat:
		return lit("Float", "")
	case kString:
		return lit("String", p.t.s)
	case "kw:attr", "kw:private":
		return lit("ReservedWord", p.t.s)
	case "kw:default":
		return lit("Default", "")
	case kConcat, kHeredoc:
		n := p.t.n
		p.advance()
		return n
	case kRegexp:
		return lit("Regexp", p.t.s)
	case "kw:undef":
		return lit("Undef", "")
	case kType:
		return lit("QualifiedReference", p.t.s)
	case kIdent:
		return lit("QualifiedName", p.t.s)
	case kVar:
		n := p.varNode(start, p.t.end, 0)
		p.advance()
		n.Max = p.pos
		n.Child("expr").Max = p.pos
		return n
	case "kw:case":
		return p.caseExpression()
	case "kw:if", "kw:unless":
		return p.ifExpression()
	case "kw:class":
		n := p.leaf("QualifiedName", p.t.s)
		p.advance()
		if p.is("{") {
			n.Max = p.pos
			return n
		}
		return p.classDefinition(start)
	case "kw:type":
		n := p.leaf("QualifiedName", p.t.s)
		p.advance()
		if p.is(kType) {
			return p.typeDefinition()
		}
		n.Max = p.pos
		return n
	case "kw:plan":
		return p.function("Plan", "PARSE_EXPECTED_NAME_AFTER_PLAN")
	case "kw:function":
		return p.function("Function", "PARSE_EXPECTED_NAME_AFTER_FUNCTION")
	case "kw:node":
		return p.nodeDefinition()
	case "kw:define", "kw:application":
		k := "Definition"
		if p.is("kw:application") {
			k = "Application"
		}
		p.advance()
		name := p.className()
		params := p.optParams()
		body := p.braced()
		n := p.mk(k, start).addL("parameters", params).add("body", body)
		n.S = name
		return p.define(n)
	case "kw:site":
		p.advance()
		body := p.braced()
		return p.define(p.mk("Site", start).add("body", body))
	case kRendStr:
		n := lit("RenderString", p.t.s)
		return n
	case kRendExp:
		p.advance()
		e := p.expression()
		return p.mk("Render", start).add("expr", e)
	}
	p.errAt("LEX_UNEXPECTED_TOKEN", "token", disp(p.t.k))
	return nil
}

// control flow

func (p *parser) ifExpression() *Node {
	start, kw := p.t.start, p.t.k
	p.advance()
	test := p.orExpression()
	then := p.braced()
	var els *Node
	switch p.t.k {
	case "kw:else":
		p.advance()
		els = p.braced()
	case "kw:elsif":
		if kw == "kw:unless" {
			p.err("PARSE_ELSIF_IN_UNLESS")
		}
		els = p.ifExpression()
	default:
		els = &Node{K: "Nop", Off: p.t.start, End: p.t.start, Max: p.t.start, Alt: p.prevEnd}
	}
	k := "If"
	if kw == "kw:unless" {
		k = "Unless"
	}
	return p.mk(k, start).add("test", test).add("then", then).add("else", els)
}

func (p *parser) selector(test *Node) *Node {
	p.advance()
	entry := func() *Node {
		start := p.t.start
		m := p.expression()
		p.eat("=>")
		v := p.expression()
		return p.mk("SelectorEntry", start).add("matching", m).add("value", v)
	}
	var l []*Node
	if p.is("s{") {
		p.advance()
		l = p.list("}", entry)
		p.advance()
	} else {
		l = []*Node{entry()}
	}
	n := p.mk("Selector", test.Off).add("lhs", test).addL("selectors", l)
	n.Alt = test.Alt
	return n
}

func (p *parser) caseExpression() *Node {
	start := p.t.start
	p.advance()
	test := p.expression()
	p.eat("{")
	var opts []*Node
	for len(opts) == 0 || !p.is("}") {
		s := p.t.start
		vs := p.list(":", p.expression)
		p.advance()
		body := p.braced()
		opts = append(opts, p.mk("CaseOption", s).addL("values", vs).add("then", body))
	}
	p.advance()
	return p.mk("Case", start).add("test", test).addL("options", opts)
}

// resources

func (p *parser) resource(start int, first *Node, form string) *Node {
	brace, ls, nd := p.t, p.lexState, len(p.defs)
	p.advance()
	var title *Node
	if !p.is("*") {
		title = p.expression()
	}
	finish := func(k string, slot1 string, slot2 string, l []*Node) *Node {
		p.eat("}")
		n := p.mk(k, start).add(slot1, first).addL(slot2, l)
		n.S = form
		if first.Off == start {
			n.Alt = first.Alt
		}
		return n
	}
	if p.is(":") {
		var bodies []*Node
		for {
			if !p.is(":") {
				p.errNode("PARSE_EXPECTED_TITLE", title)
			}
			p.advance()
			ops := p.attributes()
			b := p.mk("ResourceBody", title.Off).add("title", title).addL("operations", ops)
			b.Alt = title.Alt
			bodies = append(bodies, b)
			if !p.is(";") {
				break
			}
			p.advance()
			if p.is("}") {
				break
			}
			title = p.expression()
		}
		return finish("Resource", "typeName", "bodies", bodies)
	}
	// No title. The body is something else than it was assumed to be
	p.t, p.lexState, p.defs = brace, ls, p.defs[:nd]
	switch {
	case first.K == "QualifiedName":
		if !statementCalls[first.S] {
			p.fail("PARSE_RESOURCE_WITHOUT_TITLE", start, start, "name", first.S)
		}
		p.advance()
		es := p.hashEntries()
		p.advance()
		h := p.mk("Hash", brace.end).addL("entries", es)
		h.Alt = brace.start
		return p.mk("Call", start).add("functor", first).addL("arguments", []*Node{h}).add("lambda", nil).rval()
	case first.K == "QualifiedReference",
		first.K == "Access" && first.Child("operand").K == "QualifiedReference" && first.Child("operand").S == "Resource" && len(first.List("keys")) == 1:
		p.advance()
		return finish("ResourceDefaults", "typeRef", "operations", p.attributes())
	case first.K == "Access":
		p.advance()
		return finish("ResourceOverride", "resources", "operations", p.attributes())
	}
	p.errNode("PARSE_INVALID_RESOURCE", first)
	return nil
}

func (n *Node) rval() *Node {
	n.B = true
	return n
}

func (p *parser) attributes() (l []*Node) {
	for !p.is(";") && !p.is("}") {
		start := p.t.start
		if p.is("*") {
			p.advance()
			p.eat("=>")
			v := p.expression()
			l = append(l, p.mk("AttributesOp", start).add("expr", v))
		} else {
			name := p.ident("PARSE_EXPECTED_ATTRIBUTE_NAME")
			if !p.is("=>") && !p.is("+>") {
				p.err("PARSE_INVALID_ATTRIBUTE")
			}
			op := p.t.k
			p.advance()
			v := p.expression()
			n := p.mk("AttributeOp", start).add("value", v)
			n.S, n.S2 = name, op
			l = append(l, n)
		}
		if !p.is(",") {
			return
		}
		p.advance()
	}
	return
}

func (p *parser) collect(lhs *Node) *Node {
	start, k, end := p.t.start, "VirtualQuery", "|>"
	if p.is("<<|") {
		k, end = "ExportedQuery", "|>>"
	}
	p.advance()
	var q *Node
	if p.is(end) {
		q = &Node{K: "Nop", Off: p.t.start, End: p.t.start, Max: p.t.start, Alt: start}
		p.advance()
	} else {
		q = p.expression()
		p.eat(end)
	}
	query := p.mk(k, start).add("expr", q)
	var ops []*Node
	if p.is("{") {
		p.advance()
		ops = p.attributes()
		p.eat("}")
	}
	n := p.mk("Collect", lhs.Off).add("resourceType", lhs).add("query", query).addL("operations", ops)
	n.Alt = lhs.Alt
	return n
}

// definitions

func (p *parser) define(n *Node) *Node {
	p.defs = append(p.defs, n)
	return n
}

func (p *parser) qualified(name string) string {
	return strings.Join(append(append([]string{}, p.names...), name), "::")
}

func (p *parser) push(name string) { p.names = append(p.names, name) }
func (p *parser) pop()             { p.names = p.names[:len(p.names)-1] }

func (p *parser) className() string {
	switch p.t.k {
	case kType, kIdent:
		s := p.t.s
		p.advance()
		return s
	case kString, kConcat:
		p.errAt("PARSE_QUOTED_NOT_VALID_NAME")
	case "kw:class":
		p.errAt("PARSE_CLASS_NOT_VALID_HERE")
	}
	p.errAt("PARSE_EXPECTED_CLASS_NAME")
	return ""
}

func (p *parser) classDefinition(start int) *Node {
	name := strings.TrimPrefix(p.className(), "::")
	p.push(name)
	params := p.optParams()
	parent := ""
	if p.is("kw:inherits") {
		p.advance()
		if p.is("kw:default") {
			parent = "default"
			p.advance()
		} else {
			parent = p.className()
		}
	}
	body := p.braced()
	p.pop()
	n := p.mk("Class", start).addL("parameters", params).add("body", body)
	n.S, n.S2 = p.qualified(name), parent
	return p.define(n)
}

func (p *parser) function(k, code string) *Node {
	start := p.t.start
	p.advance()
	if !p.is(kIdent) && !p.is(kType) {
		p.errAt(code)
	}
	name := p.t.s
	p.advance()
	if k == "Plan" {
		p.push(name)
	}
	params := p.optParams()
	ret := p.returns()
	body := p.braced()
	if k == "Plan" {
		p.pop()
	}
	n := p.mk(k, start).addL("parameters", params).add("returnType", ret).add("body", body)
	n.S = name
	return p.define(n)
}

func (p *parser) returns() *Node {
	if p.is(">>") {
		p.advance()
		return p.typeRef()
	}
	return nil
}

func (p *parser) nodeDefinition() *Node {
	start := p.t.start
	p.advance()
	hosts := []*Node{p.hostname()}
	for p.is(",") {
		p.advance()
		if p.is("{") || p.is("kw:inherits") {
			break
		}
		hosts = append(hosts, p.hostname())
	}
	var parent *Node
	if p.is("kw:inherits") {
		p.advance()
		parent = p.hostname()
	}
	body := p.braced()
	return p.define(p.mk("Node", start).add("parent", parent).addL("hostMatches", hosts).add("body", body))
}

func (p *parser) hostname() *Node {
	switch p.t.k {
	case kRegexp, kString, "kw:default", kConcat, kHeredoc:
		return p.atom()
	case kIdent, kType, kInt, kFloat:
		start := p.t.start
		var s []string
		for {
			switch p.t.k {
			case kIdent, kType:
				s = append(s, p.t.s)
			case kInt:
				s = append(s, strconv.FormatInt(p.t.i, 10))
			case kFloat:
				s = append(s, strconv.FormatFloat(p.t.f, 'g', -1, 64))
			default:
				p.err("PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT")
			}
			p.advance()
			if !p.is(".") {
				n := p.mk("String", start)
				n.S = strings.Join(s, ".")
				return n
			}
			p.advance()
		}
	}
	p.err("PARSE_EXPECTED_HOSTNAME")
	return nil
}

func (p *parser) capability(c *Node) *Node {
	start, kind := p.t.start, p.t.s
	p.advance()
	name := p.className()
	p.eat("{")
	ops := p.attributes()
	p.eat("}")
	if c.K == "ReservedWord" {
		c = &Node{K: "QualifiedName", S: p.qualified(c.S), Off: c.Off, End: c.End, Max: c.Max, Alt: c.Alt}
	}
	n := p.mk("CapabilityMapping", start).add("component", c).addL("mappings", ops)
	n.S, n.S2, n.Alt = kind, p.qualified(name), c.Off
	return p.define(n)
}

// parameters and types

// optParams parses a parenthesized parameter list, if present
func (p *parser) optParams() (l []*Node) {
	if p.is("(") || p.is("w(") {
		p.advance()
		l = p.list(")", p.parameter)
		p.advance()
	}
	return
}

// pipeParams parses the parameter list between pipes. The final pipe is not consumed
func (p *parser) pipeParams() []*Node {
	p.advance()
	return p.list("e|", p.parameter)
}

func (p *parser) variableName() string {
	if !p.is(kVar) || !p.t.hasS || p.t.s == "" {
		p.err("PARSE_EXPECTED_VARIABLE")
	}
	s := p.t.s
	p.advance()
	return s
}

func (p *parser) parameter() *Node {
	start := p.t.start
	var typ, val *Node
	if p.is(kType) {
		typ = p.typeRef()
	}
	rest := p.is("*")
	if rest {
		p.advance()
	}
	name := p.variableName()
	if p.is("=") {
		p.advance()
		val = p.expression()
	}
	n := p.mk("Parameter", start).add("type", typ).add("value", val)
	n.S, n.B = name, rest
	return n
}

func (p *parser) typeRef() *Node {
	if !p.is(kType) {
		p.err("PARSE_EXPECTED_TYPE_NAME")
	}
	n := p.leaf("QualifiedReference", p.t.s)
	p.advance()
	if p.is("[") {
		p.advance()
		keys := p.items("]")
		p.advance()
		n = p.mk("Access", n.Off).add("operand", n).addL("keys", keys)
	}
	return n
}

func (p *parser) typeDefinition() *Node {
	start := p.t.start
	t := p.typeRef()
	if t.K == "Access" {
		if !p.is("=") {
			p.err("PARSE_EXPECTED_TYPE_NAME_AFTER_TYPE")
		}
		p.advance()
		m := p.expression()
		return p.define(p.mk("TypeMapping", start).add("type", t).add("mapping", m))
	}
	switch p.t.k {
	case "=":
		p.advance()
		bs := p.t.start
		body := p.expression()
		access := func(t *Node, keys []*Node) *Node {
			if t == nil {
				t = &Node{K: "QualifiedReference", S: "Object", Off: bs, End: bs, Max: bs, Alt: -1}
			}
			return p.mk("Access", bs).add("operand", t).addL("keys", keys)
		}
		switch body.K {
		case "QualifiedReference":
			if !p.is("{") {
				break
			}
			h := p.expression()
			if h.K != "Hash" {
				p.errNode("LEX_UNEXPECTED_TOKEN", h, "token", "{")
			}
			if body.S == "Object" || body.S == "TypeSet" {
				body = access(body, []*Node{h})
				break
			}
			pk := &Node{K: "String", S: "parent", Off: body.Off, End: body.Off, Max: body.Max, Alt: -1}
			ke := (&Node{K: "KeyedEntry", Off: body.Off, End: body.End, Max: body.Max, Alt: -1}).add("key", pk).add("value", body)
			nh := p.mk("Hash", bs).addL("entries", append([]*Node{ke}, h.List("entries")...))
			body = access(nil, []*Node{nh})
		case "List":
			if es := body.List("elements"); len(es) == 1 {
				body = access(nil, es)
			}
		case "Hash":
			body = access(nil, []*Node{body})
		}
		n := p.mk("TypeAlias", start).add("type", body)
		n.S = t.S
		return p.define(n)
	case "kw:inherits", "{":
		parent := ""
		if p.is("kw:inherits") {
			p.advance()
			if !p.is(kType) {
				p.err("PARSE_INHERITS_MUST_BE_TYPE_NAME")
			}
			parent = p.t.s
			p.advance()
		}
		body := p.braced()
		n := p.mk("TypeDefinition", start).add("body", body)
		n.S, n.S2 = t.S, parent
		return p.define(n)
	}
	p.err("LEX_UNEXPECTED_TOKEN", "token", disp(p.t.k))
	return nil
}

// workflow steps

func (p *parser) stepDeclaration(start int, style, name string, top bool) *Node {
	if style == "workflow" {
		p.push(name)
	}
	hs := p.t.start
	p.eat("{")
	entries := p.list("}", p.stepProperty)
	p.advance()
	hEnd := p.prevEnd
	zero := func(k, s string, at int) *Node { return &Node{K: k, S: s, Off: at, End: at, Max: p.pos, Alt: -1} }
	keyed := func(key string, at int, v *Node) *Node {
		return (&Node{K: "KeyedEntry", Off: at, End: at, Max: p.pos, Alt: -1}).add("key", zero("QualifiedName", key, at)).add("value", v)
	}
	iterName := name
	if p.is(kVar) {
		iterName = p.variableName()
		p.eat("=")
		p.expect(kIdent)
	}
	if p.is(kIdent) {
		f, at := p.t.s, p.t.start
		if !in(f, "times", "range", "each") {
			p.err("PARSE_EXPECTED_ITERATOR_STYLE", "style", f)
		}
		p.advance()
		ps := p.t.start
		if !p.is("(") && !p.is("w(") {
			p.expect("(")
		}
		params := p.optParams()
		vs := p.t.start
		p.expect("|")
		vars := p.pipeParams()
		p.advance()
		pl := zero("List", "", ps).addL("elements", params)
		vl := zero("List", "", vs).addL("elements", vars)
		h := zero("Hash", "", at).addL("entries", []*Node{
			keyed("name", at, zero("QualifiedName", iterName, at)),
			keyed("function", at, zero("QualifiedName", f, at)),
			keyed("params", ps, pl),
			keyed("vars", vs, vl)})
		entries = append(entries, keyed("iteration", at, h))
	}
	var props, def *Node
	if len(entries) > 0 {
		props = (&Node{K: "Hash", Off: hs, End: hEnd, Max: p.pos, Alt: -1}).addL("entries", entries)
	}
	switch style {
	case "workflow":
		if p.is("{") {
			s := p.t.start
			p.advance()
			var steps []*Node
			for !p.is("}") {
				steps = append(steps, p.nestedStep())
			}
			p.advance()
			if len(steps) > 0 {
				def = p.mk("Block", s).addL("statements", steps)
			}
		}
		p.pop()
	case "resource":
		if p.is("{") {
			s := p.t.start
			p.advance()
			es := p.list("}", func() *Node {
				s := p.t.start
				key := p.nameExpr()
				if !p.is("=>") {
					p.err("PARSE_INVALID_ATTRIBUTE")
				}
				p.advance()
				v := p.expression()
				return p.mk("KeyedEntry", s).add("key", key).add("value", v)
			})
			for i := range es {
				es[i] = deferred(es[i])
			}
			p.advance()
			if len(es) > 0 {
				def = p.mk("Hash", s).addL("entries", es)
			}
		}
	default:
		def = p.braced()
	}
	n := p.mk("Step", start).add("properties", props).add("definition", def)
	n.S, n.S2 = p.qualified(name), style
	if top {
		p.define(n)
	}
	return n
}

func (p *parser) nameExpr() *Node {
	if !p.hasName() {
		p.errAt("PARSE_EXPECTED_ATTRIBUTE_NAME")
	}
	n := p.leaf("QualifiedName", p.t.s)
	p.advance()
	return n
}

func (p *parser) nestedStep() *Node {
	start := p.t.start
	if p.is("kw:function") {
		return p.function("Function", "PARSE_EXPECTED_NAME_AFTER_FUNCTION")
	}
	if !p.is(kIdent) || !stepStyles[p.t.s] {
		p.err("PARSE_EXPECTED_STEP_STYLE")
	}
	style := p.t.s
	p.advance()
	name := p.ident("PARSE_EXPECTED_STEP_NAME", "step", style)
	return p.stepDeclaration(start, style, name, false)
}

func (p *parser) stepProperty() *Node {
	start := p.t.start
	key := p.nameExpr()
	if !p.is("=>") {
		p.err("PARSE_EXPECTED_FARROW_AFTER_KEY")
	}
	p.advance()
	vs := p.t.start
	list := func(f func() *Node) *Node {
		if !p.is("(") && !p.is("w(") {
			p.expect("(")
		}
		p.advance()
		l := p.list(")", f)
		p.advance()
		return p.mk("List", vs).addL("elements", l)
	}
	var v *Node
	switch key.S {
	case "parameters":
		v = list(p.parameter)
	case "returns":
		v = list(p.returnParameter)
	default:
		v = p.entry()
	}
	return p.mk("KeyedEntry", start).add("key", key).add("value", v)
}

func (p *parser) returnParameter() *Node {
	start := p.t.start
	var typ, val *Node
	if p.is(kType) {
		typ = p.typeRef()
	}
	name := p.variableName()
	if p.is("=") {
		p.advance()
		alias := func() *Node {
			n := p.nameExpr()
			n.K = "String"
			return n
		}
		if p.is("(") || p.is("w(") {
			s := p.t.start
			p.advance()
			l := p.list(")", alias)
			p.advance()
			val = p.mk("List", s).addL("elements", l)
		} else {
			val = alias()
		}
	}
	n := p.mk("Parameter", start).add("type", typ).add("value", val)
	n.S = name
	return n
}

// deferred replaces variables and calls with the creation of a Deferred
func deferred(n *Node) *Node {
	if n == nil {
		return nil
	}
	all := func(l []*Node) (r []*Node) {
		for _, e := range l {
			r = append(r, deferred(e))
		}
		return
	}
	same := func(k, s string) *Node { return &Node{K: k, S: s, Off: n.Off, End: n.End, Max: n.Max, Alt: n.Alt} }
	syn := func(k, s string) *Node { return &Node{K: k, S: s, Off: n.Off, End: n.Off, Max: n.Max, Alt: n.Alt} }
	create := func(args ...*Node) *Node {
		f := syn("NamedAccess", "").add("lhs", syn("QualifiedReference", "Deferred")).add("rhs", syn("QualifiedName", "new"))
		return same("CallMethod", "").rval().add("functor", f).addL("arguments", args).add("lambda", nil)
	}
	switch n.K {
	case "List":
		return same("List", "").addL("elements", all(n.List("elements")))
	case "Hash":
		return same("Hash", "").addL("entries", all(n.List("entries")))
	case "KeyedEntry":
		return same("KeyedEntry", "").add("key", deferred(n.Child("key"))).add("value", deferred(n.Child("value")))
	case "Variable":
		return create(syn("String", "$"+n.Child("expr").S))
	case "Call":
		f := n.Child("functor")
		switch f.K {
		case "QualifiedName":
			return create(syn("String", f.S), syn("List", "").addL("elements", all(n.List("arguments"))))
		case "QualifiedReference":
			return create(syn("QualifiedName", "new"), syn("List", "").addL("elements", all(append([]*Node{f}, n.List("arguments")...))))
		}
	}
	return n
}
