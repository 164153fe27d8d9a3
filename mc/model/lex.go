package model

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Token kinds are the printable names of the tokens. Tokens that print the same way but differ with respect to the
// layout of the source have a one letter prefix: w( for a parenthesis that is first on its line, l[ for a bracket
// preceded by whitespace, s{ for a brace after a question mark, and e| for a pipe that ends a parameter list.
const (
	kEnd     = "EOF"
	kIdent   = "identifier"
	kString  = "string literal"
	kInt     = "integer literal"
	kFloat   = "float literal"
	kBool    = "boolean literal"
	kConcat  = "dq string literal"
	kHeredoc = "heredoc"
	kVar     = "variable"
	kRegexp  = "regexp"
	kType    = "type name"
	kRendStr = "epp text"
	kRendExp = "<%="
)

func disp(k string) string {
	switch k {
	case "w(", "l[", "s{", "e|":
		return k[1:]
	}
	return strings.TrimPrefix(k, "kw:")
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("application and attr case class consumes default define function else elsif if in inherits node or plan private produces site type undef unless") {
		reserved[w] = true
	}
}

// lexical state. Copying the struct saves it.
type lexState struct {
	pos int // next character
	nls int // where the next newline continues (after a heredoc), or -1
	bol int // start of current line
}

type token struct {
	k          string
	start, end int
	s          string
	hasS       bool
	i          int64
	isI        bool
	f          float64
	b          bool
	radix      int
	n          *Node
}

type parser struct {
	lexState
	src     string
	o       Opt
	simple  bool // lexer without interpolation
	t       token
	prevEnd int
	neg     bool
	names   []string
	defs    []*Node
	segOff  int // start of current segment in interpolated text
	budget  int
	saw     bool // end of source has been seen
}

func (p *parser) fail(code string, lo, hi int, args ...string) {
	e := &Err{Code: code, Lo: lo, Hi: hi, Args: map[string]string{}}
	for i := 0; i < len(args); i += 2 {
		e.Args[args[i]] = args[i+1]
	}
	panic(e)
}

// at decodes the character at the given position. It yields 0, 0 at the end of the source
func (p *parser) at(i int) (rune, int) {
	if i >= len(p.src) {
		p.saw = true
		return 0, 0
	}
	if c := p.src[i]; c < utf8.RuneSelf {
		return rune(c), 1
	}
	c, n := utf8.DecodeRuneInString(p.src[i:])
	if c == utf8.RuneError && n == 1 {
		lo := p.pos
		if i < lo {
			lo = i
		}
		p.fail("INVALID_UNICODE", lo, i)
	}
	return c, n
}

func (p *parser) peek() rune { c, _ := p.at(p.pos); return c }

func (p *parser) next() (rune, int) {
	s := p.pos
	c, n := p.at(s)
	p.pos += n
	return c, s
}

func dec(c rune) bool   { return c >= '0' && c <= '9' }
func hexd(c rune) bool  { return dec(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
func low(c rune) bool   { return c >= 'a' && c <= 'z' }
func upp(c rune) bool   { return c >= 'A' && c <= 'Z' }
func word(c rune) bool  { return low(c) || upp(c) || dec(c) || c == '_' }
func blank(c rune) bool { return c == ' ' || c == '\t' || c == '\r' }

// newline is called when the newline preceding the current position has been passed
func (p *parser) newline() {
	if p.nls >= 0 {
		p.pos, p.nls = p.nls, -1
	}
	p.bol = p.pos
}

// white skips whitespace and comments and positions at the first significant character. With stop, it also
// stops at a newline
func (p *parser) white(stop bool) {
	for {
		c := p.peek()
		switch {
		case blank(c):
			p.pos++
		case c == '\n':
			if stop {
				return
			}
			p.pos++
			p.newline()
		case c == '#':
			for c = p.peek(); c != '\n' && c != 0; c = p.peek() {
				p.next()
			}
		case c == '/':
			if c2, _ := p.at(p.pos + 1); c2 != '*' {
				return
			}
			start := p.pos
			p.pos += 2
			for {
				c, _ := p.next()
				if c == 0 {
					p.fail("LEX_UNTERMINATED_COMMENT", start, start)
				}
				if c == '*' && p.peek() == '/' {
					p.pos++
					break
				}
			}
		default:
			return
		}
	}
}

func (p *parser) advance() {
	e := p.t.end
	p.lex()
	p.prevEnd = e
}

func (p *parser) lex() {
	p.budget--
	if p.budget < 0 {
		panic(budgetExceeded{})
	}
	prev := p.t.k
	from := p.pos
	p.white(false)
	start := p.pos
	p.lexAt(prev, from, start)
	p.t.end = p.pos
}

type budgetExceeded struct{}

func (p *parser) op(k string, start int) {
	p.pos = start + len(disp(k))
	p.t = token{k: k, start: start}
}

func (p *parser) lexAt(prev string, from, start int) {
	c, n := p.at(start)
	p.pos = start + n
	p.t = token{start: start}
	c2 := rune(0)
	if c != 0 && strings.ContainsRune("=:-+!>~@<|", c) || c == '%' && p.o.Epp {
		c2, _ = p.at(p.pos)
	}
	has := func(s string) bool {
		if strings.HasPrefix(p.src[start:], s) {
			return true
		}
		if strings.HasPrefix(s, p.src[start:]) {
			p.saw = true
		}
		return false
	}
	switch {
	case c >= '1' && c <= '9', c == '0':
		p.number(start, c)
	case upp(c):
		p.name(start, kType)
	case low(c):
		p.name(start, kIdent)
	case c == 0:
		if start < len(p.src) {
			p.fail("LEX_UNEXPECTED_TOKEN", start, start, "token", "\x00")
		}
		p.t.k = kEnd
	case c == '=':
		switch c2 {
		case '=', '~', '>':
			p.op(p.src[start:start+2], start)
		default:
			p.op("=", start)
		}
	case c == '{':
		p.t.k = "{"
		if prev == "?" {
			p.t.k = "s{"
		}
	case c == '[':
		p.t.k = "["
		if from < start || start == 0 {
			p.t.k = "l["
		}
	case c == '(':
		save := p.lexState
		p.pos = p.bol
		p.white(false)
		p.t.k = "("
		if p.pos == start {
			p.t.k = "w("
		}
		p.lexState = save
	case strings.ContainsRune("}]),;.?", c):
		p.t.k = string(c)
	case c == ':':
		p.t.k = ":"
		if c2 == ':' {
			p.pos++
			c3 := p.peek()
			switch {
			case upp(c3):
				p.pos++
				p.name(start, kType)
			case low(c3):
				p.pos++
				p.name(start, kIdent)
			default:
				p.fail("LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME", start, start)
			}
		}
	case c == '-':
		switch {
		case has("-="), has("->"):
			p.op(p.src[start:start+2], start)
		case p.o.Epp && c2 == '%':
			p.pos++
			if p.peek() != '>' {
				p.fail("LEX_INVALID_OPERATOR", start, p.pos, "op", "-%")
			}
			p.pos++
			for c := p.peek(); c == ' ' || c == '\t'; c = p.peek() {
				p.pos++
			}
			if strings.HasPrefix(p.src[p.pos:], "\r\n") {
				p.pos++
			}
			if p.peek() == '\n' {
				p.pos++
			}
			p.eppText(start)
		default:
			p.t.k = "-"
		}
	case c == '+':
		if c2 == '=' || c2 == '>' {
			p.op(p.src[start:start+2], start)
		} else {
			p.t.k = "+"
		}
	case c == '*':
		p.t.k = "*"
	case c == '%':
		p.t.k = "%"
		if p.o.Epp && c2 == '>' {
			p.pos++
			p.eppText(start)
		}
	case c == '!':
		if c2 == '=' || c2 == '~' {
			p.op(p.src[start:start+2], start)
		} else {
			p.t.k = "!"
		}
	case c == '>':
		if c2 == '=' || c2 == '>' {
			p.op(p.src[start:start+2], start)
		} else {
			p.t.k = ">"
		}
	case c == '~':
		if c2 != '>' {
			p.fail("LEX_UNEXPECTED_TOKEN", start, start, "token", "~")
		}
		p.op("~>", start)
	case c == '@':
		switch c2 {
		case '@':
			p.op("@@", start)
		case '(':
			p.pos++
			p.heredoc(start)
		default:
			p.t.k = "@"
		}
	case c == '<':
		switch {
		case has("<<|"):
			p.op("<<|", start)
		case has("<="), has("<<"), has("<|"), has("<-"), has("<~"):
			p.op(p.src[start:start+2], start)
		case p.o.Epp && c2 == '%':
			p.pos++
			switch p.peek() {
			case '=':
				p.pos++
				p.t.k = kRendExp
			case '-':
				p.pos++
				p.t.k = prev
				p.lex()
			default:
				p.t.k = prev
				p.lex()
			}
		default:
			p.t.k = "<"
		}
	case c == '|':
		switch {
		case has("|>>"):
			p.op("|>>", start)
		case has("|>"):
			p.op("|>", start)
		case prev == "|":
			p.t.k = "e|"
		default:
			save := p.lexState
			p.white(false)
			c := p.peek()
			p.lexState = save
			p.t.k = "|"
			if c == '{' || c == '>' || p.o.Epp && (c == '%' || c == '-') {
				p.t.k = "e|"
			}
		}
	case c == '"':
		p.dqString(start)
	case c == '\'':
		p.sqString(start)
	case c == '/':
		switch prev {
		case ")", "]", kType, kIdent, kBool, kInt, kFloat, kString, kHeredoc, kConcat, kRegexp, kVar:
			p.t.k = "/"
		default:
			p.regexp(start)
		}
	case c == '$':
		p.variable(start)
	case c == '`' && p.o.Backtick:
		i := strings.IndexByte(p.src[p.pos:], '`')
		e := p.pos + i
		if i < 0 {
			e, p.saw = len(p.src), true
		}
		for p.pos < e {
			if c, _ := p.next(); c == 0 {
				i = -1
				break
			}
		}
		if i < 0 {
			p.fail("LEX_UNTERMINATED_STRING", start, start, "string_type", "backtick")
		}
		p.setS(kString, p.src[start+1:e])
		p.pos++
	default:
		p.fail("LEX_UNEXPECTED_TOKEN", start, start, "token", string(c))
	}
}

func (p *parser) setS(k, s string) { p.t.k, p.t.s, p.t.hasS = k, s, true }

// digits skips decimal digits and returns how many there were
func (p *parser) digits() (n int) {
	for ; dec(p.peek()); n++ {
		p.pos++
	}
	return
}

func (p *parser) integer(start, digitStart, radix int) int64 {
	s := p.src[digitStart:p.pos]
	v, err := strconv.ParseInt(s, radix, 64)
	if err != nil && p.neg {
		v, err = strconv.ParseInt("-"+s, radix, 64)
	}
	if err != nil {
		p.fail("LEX_NUMBER_OUT_OF_RANGE", start, start)
	}
	return v
}

func (p *parser) number(start int, c rune) {
	set := func(v int64, radix int) { p.t.k, p.t.i, p.t.isI, p.t.radix = kInt, v, true, radix }
	if c == '0' {
		switch c := p.peek(); {
		case c == 'x' || c == 'X':
			p.pos++
			ds := p.pos
			for hexd(p.peek()) {
				p.pos++
			}
			if c := p.peek(); p.pos == ds || low(c) || upp(c) || c == '_' {
				p.fail("LEX_HEXDIGIT_EXPECTED", start, p.pos)
			}
			set(p.integer(start, ds, 16), 16)
			return
		case c == '.' || c == 'e' || c == 'E':
		default:
			ds := p.pos
			for c := p.peek(); c >= '0' && c <= '7'; c = p.peek() {
				p.pos++
			}
			if c := p.peek(); dec(c) || unicode.IsLetter(c) {
				p.fail("LEX_OCTALDIGIT_EXPECTED", start, p.pos)
			}
			if p.pos > ds {
				set(p.integer(start, ds, 8), 8)
			} else {
				set(0, 10)
			}
			return
		}
	} else {
		p.digits()
	}
	isFloat := false
	need := func() {
		if p.digits() == 0 {
			p.fail("LEX_DIGIT_EXPECTED", start, p.pos)
		}
		isFloat = true
	}
	if p.peek() == '.' {
		p.pos++
		need()
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.pos++
		if c := p.peek(); c == '+' || c == '-' {
			p.pos++
		}
		need()
	}
	if unicode.IsLetter(p.peek()) {
		p.fail("LEX_DIGIT_EXPECTED", start, p.pos)
	}
	if !isFloat {
		set(p.integer(start, start, 10), 10)
		return
	}
	v, err := strconv.ParseFloat(p.src[start:p.pos], 64)
	if err != nil {
		p.fail("LEX_NUMBER_OUT_OF_RANGE", start, start)
	}
	p.t.k, p.t.f = kFloat, v
}

// name consumes the rest of a possibly qualified name. The first character of the first segment has been consumed
func (p *parser) name(start int, k string) {
	code := map[string]string{kType: "LEX_INVALID_TYPE_NAME", kIdent: "LEX_INVALID_NAME", kVar: "LEX_INVALID_VARIABLE_NAME"}[k]
	private, dash := false, false
	for {
		for word(p.peek()) {
			p.pos++
		}
		if p.peek() == '-' && k == kIdent {
			// dashes are part of the word only when eventually followed by a word character
			i := p.pos
			c, _ := p.at(i)
			for c == '-' {
				i++
				c, _ = p.at(i)
			}
			if !word(c) {
				break
			}
			dash = true
			p.pos = i + 1
			continue
		}
		if p.peek() != ':' {
			break
		}
		if c, _ := p.at(p.pos + 1); c != ':' {
			break
		}
		c, _ := p.at(p.pos + 2)
		ok := false
		switch k {
		case kType:
			ok = upp(c)
		case kIdent:
			ok = low(c)
		case kVar:
			ok = low(c) || c == '_'
		}
		if !ok || private {
			p.fail(code, start, start)
		}
		private = c == '_'
		p.pos += 3
	}
	w := p.src[start:p.pos]
	switch {
	case k == kVar:
		p.setS(k, w[1:])
	case k == kType:
		p.setS(k, w)
	case dash:
		p.setS(kString, w)
	case w == "true" || w == "false":
		p.t.k, p.t.b = kBool, w == "true"
	case reserved[w] && (w != "plan" || p.o.Tasks):
		p.setS("kw:"+w, w)
	default:
		p.setS(k, w)
	}
}

func (p *parser) variable(start int) {
	c := p.peek()
	if c == ':' {
		if c, _ = p.at(p.pos + 1); c != ':' {
			p.fail("LEX_INVALID_VARIABLE_NAME", start, start)
		}
		p.pos += 2
		c = p.peek()
	}
	switch {
	case low(c):
		p.pos++
		p.name(start, kVar)
	case dec(c):
		p.digits()
		p.t.i, p.t.isI = p.integer(start, start+1, 10), true
		p.t.k = kVar
	case unicode.IsLetter(c):
		p.fail("LEX_INVALID_VARIABLE_NAME", start, p.pos)
	default:
		p.setS(kVar, "")
	}
}

func (p *parser) sqString(start int) {
	b := &strings.Builder{}
	for {
		c, _ := p.next()
		if c == '\\' {
			if c, _ = p.next(); c == 0 {
				break
			}
			if c != '\'' {
				b.WriteByte('\\')
			}
			if c != '\\' {
				b.WriteRune(c)
			}
			continue
		}
		if c == '\'' {
			p.setS(kString, b.String())
			return
		}
		if c == 0 {
			break
		}
		b.WriteRune(c)
	}
	p.fail("LEX_UNTERMINATED_STRING", start, start, "string_type", "single")
}

func (p *parser) regexp(start int) {
	b := &strings.Builder{}
	for {
		c, _ := p.next()
		if c == '\\' {
			if c, _ = p.next(); c == 0 {
				break
			}
			if c != '/' {
				b.WriteByte('\\')
			}
			b.WriteRune(c)
			continue
		}
		if c == '/' {
			p.setS(kRegexp, b.String())
			return
		}
		if c == 0 {
			break
		}
		b.WriteRune(c)
	}
	p.op("/", start)
}

func (p *parser) dqString(start int) {
	b := &strings.Builder{}
	segs := []*Node{}
	p.segOff = start
	for {
		c, at := p.next()
		if c == '"' {
			break
		}
		if c == '\\' {
			c, _ = p.next()
			switch c {
			case 0:
			case '"', '\\', '\'':
				b.WriteRune(c)
			case '$':
				if p.simple {
					b.WriteByte('\\')
				}
				b.WriteByte('$')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 's':
				b.WriteByte(' ')
			case 'u':
				p.unicodeEscape(b)
			case 'x':
				if p.o.Hex {
					p.hexEscape(b)
					break
				}
				fallthrough
			default:
				b.WriteByte('\\')
				b.WriteRune(c)
			}
			if c != 0 {
				continue
			}
		}
		if c == 0 {
			p.fail("LEX_UNTERMINATED_STRING", start, start, "string_type", "double")
		}
		if c == '$' && !p.simple {
			segs = p.segment(b, segs, at)
			continue
		}
		b.WriteRune(c)
	}
	if len(segs) == 0 {
		p.t = token{k: kString, start: start, s: b.String(), hasS: true}
		return
	}
	if b.Len() > 0 {
		segs = append(segs, &Node{K: "String", S: b.String(), Off: p.segOff, End: p.pos - 1, Max: p.pos, Alt: -1})
	}
	n := (&Node{K: "ConcatenatedString", Off: start, End: p.pos, Max: p.pos, Alt: -1}).addL("segments", segs)
	p.t = token{k: kConcat, start: start, n: n}
}

func (p *parser) segment(b *strings.Builder, segs []*Node, at int) []*Node {
	if b.Len() > 0 {
		segs = append(segs, &Node{K: "String", S: b.String(), Off: p.segOff, End: at, Max: at + 1, Alt: -1})
		b.Reset()
	}
	segs = append(segs, p.interpolation(at))
	p.segOff = p.pos
	return segs
}

func (p *parser) hexEscape(b *strings.Builder) {
	s := p.pos - 2
	v := rune(0)
	for i := 0; i < 2; i++ {
		c, _ := p.next()
		if !hexd(c) {
			p.fail("LEX_MALFORMED_HEX_ESCAPE", s, s)
		}
		v = v*16 + hexVal(c)
	}
	b.WriteByte(byte(v))
}

func hexVal(c rune) rune {
	switch {
	case dec(c):
		return c - '0'
	case low(c):
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

func (p *parser) unicodeEscape(b *strings.Builder) {
	s := p.pos - 2
	bad := func() { p.fail("LEX_MALFORMED_UNICODE_ESCAPE", s, s) }
	v := rune(0)
	c, _ := p.next()
	if c != '{' {
		for i := 0; i < 4; i++ {
			if i > 0 {
				c, _ = p.next()
			}
			if !hexd(c) {
				bad()
			}
			v = v*16 + hexVal(c)
		}
		b.WriteRune(v)
		return
	}
	n := 0
	for ; hexd(p.peek()); n++ {
		c, _ = p.next()
		if n < 6 {
			v = v*16 + hexVal(c)
		}
	}
	if n < 2 || n > 6 || p.peek() != '}' {
		bad()
	}
	p.pos++
	b.WriteRune(v)
}

// interpolation parses the expression after the $ sign found at the given position
func (p *parser) interpolation(at int) *Node {
	text := func(e *Node) *Node {
		return (&Node{K: "Text", Off: at, End: p.pos, Max: p.pos, Alt: -1}).add("expr", e)
	}
	c := p.peek()
	if c == '{' {
		p.pos++
		p.t = token{k: "{", start: at + 1, end: p.pos}
		p.lex()
		var e *Node
		if p.t.k == "}" {
			e = &Node{K: "Undef", Off: p.t.start, End: p.t.start, Max: p.t.start, Alt: -1}
		} else {
			e = p.relationship()
			p.expect("}")
		}
		return text(p.implicitVariable(e, at))
	}
	if c == ':' {
		if c2, _ := p.at(p.pos + 1); c2 == ':' {
			c, _ = p.at(p.pos + 2)
		}
	}
	if !low(c) && !dec(c) {
		p.fail("LEX_MALFORMED_INTERPOLATION", at, at)
	}
	p.pos = at + 1
	p.t = token{start: at}
	p.variable(at)
	n := p.varNode(at, p.pos, p.pos)
	return text(n)
}

func (p *parser) varNode(start, end, max int) *Node {
	var name *Node
	if p.t.isI {
		name = &Node{K: "Integer", I: p.t.i, R: 10, Off: start + 1, End: end, Max: max, Alt: -1}
	} else {
		name = &Node{K: "QualifiedName", S: p.t.s, Off: start + 1, End: start + 1 + len(p.t.s), Max: max, Alt: -1}
	}
	return (&Node{K: "Variable", Off: start, End: end, Max: max, Alt: -1}).add("expr", name)
}

// implicitVariable converts the name that starts the expression of an interpolation into a variable. The name starts
// a chain of index accesses and method calls. All of the chain then starts where the interpolation does
func (p *parser) implicitVariable(e *Node, at int) *Node {
	switch e.K {
	case "QualifiedName":
		return (&Node{K: "Variable", Off: at, End: e.End, Max: maxi(e.Max, p.pos), Alt: -1}).add("expr", e)
	case "Access", "NamedAccess", "CallMethod":
		first := e.Slots[0].L[0]
		if v := p.implicitVariable(first, at); v != first {
			c := *e
			c.Slots = append([]Slot{}, e.Slots...)
			c.Slots[0].L = []*Node{v}
			c.Off = at
			return &c
		}
	}
	return e
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// heredoc parses a heredoc. The position is after the '@(' found at start
func (p *parser) heredoc(start int) {
	tag, syntax, flags := "", "", ""
	quoted, hasFlags := false, false
	// Tag
	tagStart, sep, synStart, flagStart := p.pos, false, -1, -1
	takeTag := func() {
		if tag == "" && !sep {
			tag = p.src[tagStart:p.pos]
		}
	}
	for done := false; !done; {
		c := p.peek()
		switch c {
		case 0, '\n':
			p.fail("LEX_HEREDOC_DECL_UNTERMINATED", start, start)
		case ')':
			takeTag()
			if synStart >= 0 {
				syntax = p.src[synStart:p.pos]
			}
			if flagStart >= 0 {
				flags, hasFlags = p.src[flagStart:p.pos], true
				for _, f := range []byte(flags) {
					if !strings.ContainsRune("trnsu$L", rune(f)) {
						p.fail("LEX_HEREDOC_ILLEGAL_ESCAPE", flagStart, flagStart, "flag", string(rune(f)))
					}
				}
			}
			done = true
		case ':':
			if synStart >= 0 {
				p.fail("LEX_HEREDOC_MULTIPLE_SYNTAX", start, p.pos)
			}
			takeTag()
			sep = true
			synStart = p.pos + 1
		case '/':
			if flagStart >= 0 {
				p.fail("LEX_HEREDOC_MULTIPLE_ESCAPE", start, p.pos)
			}
			takeTag()
			sep = true
			if synStart >= 0 {
				syntax = p.src[synStart:p.pos]
				synStart = -1
			}
			flagStart = p.pos + 1
		case '"':
			if tag != "" {
				p.fail("LEX_HEREDOC_MULTIPLE_TAG", start, p.pos)
			}
			p.pos++
			q := p.pos
			for c = p.peek(); c != '"'; c = p.peek() {
				if c == 0 || c == '\n' {
					p.fail("LEX_HEREDOC_DECL_UNTERMINATED", start, start)
				}
				p.next()
			}
			if q == p.pos {
				p.fail("LEX_HEREDOC_EMPTY_TAG", start, start)
			}
			tag, quoted = p.src[q:p.pos], true
		}
		p.next()
	}
	if tag == "" {
		p.fail("LEX_HEREDOC_EMPTY_TAG", start, start)
	}
	declEnd := p.pos
	unterminated := func() { p.fail("LEX_HEREDOC_UNTERMINATED", start, start) }

	// The text starts on the next line
	for c := p.peek(); c != '\n'; c = p.peek() {
		switch {
		case c == 0:
			unterminated()
		case c == '#', c == '/' && strings.HasPrefix(p.src[p.pos:], "/*"):
			p.white(true)
		case c == '\'', c == '"', c == '`':
			// No comment starts in a string that ends on the line
			p.next()
			open := p.pos
			d, _ := p.next()
			for d != c && d != 0 && d != '\n' {
				if d == '\\' && c != '`' {
					d, _ = p.next()
					if d != 0 && d != '\n' {
						d = ' '
					}
					continue
				}
				d, _ = p.next()
			}
			if d != c {
				p.pos = open
			}
		default:
			p.next()
		}
	}
	p.pos++
	if p.nls >= 0 {
		p.pos, p.nls = p.nls, -1
	}
	text := p.pos

	// Find the line of the end tag
	textEnd, resume, indent := -1, -1, 0
	for textEnd < 0 {
		line := p.pos
		skip := func() rune {
			for blank(p.peek()) {
				p.pos++
			}
			return p.peek()
		}
		indent = 0
		chomp := false
		c := skip()
		if c == '|' {
			indent = p.pos - line
			p.pos++
			c = skip()
		}
		if c == '-' {
			chomp = true
			p.pos++
			c = skip()
		}
		if strings.HasPrefix(p.src[p.pos:], tag) {
			save := p.pos
			p.pos += len(tag)
			if c = skip(); c == '\n' || c == 0 {
				textEnd, resume = line, p.pos
				if c == '\n' {
					resume++
				}
				if chomp && textEnd > text {
					textEnd--
					if textEnd > text && p.src[textEnd-1] == '\r' {
						textEnd--
					}
				}
				break
			}
			p.pos = save
		}
		for c = p.peek(); c != '\n'; c = p.peek() {
			if c == 0 {
				unterminated()
			}
			p.next()
		}
		p.pos++
	}

	content := ""
	var segs []*Node
	if hasFlags || quoted || indent > 0 {
		p.pos = text
		p.segOff = text
		content, segs = p.heredocText(textEnd, indent, flags, quoted && !p.simple)
	} else {
		content = p.src[text:textEnd]
	}
	lim := len(p.src)
	var tn *Node
	if len(segs) > 0 {
		if content != "" {
			segs = append(segs, &Node{K: "String", S: content, Off: p.segOff, End: p.segOff, Max: lim, Alt: -1})
		}
		tn = (&Node{K: "ConcatenatedString", Off: text, End: textEnd, Max: textEnd, Alt: -1}).addL("segments", segs)
	} else {
		tn = &Node{K: "String", S: content, Off: text, End: textEnd, Max: textEnd, Alt: -1}
	}
	p.pos = declEnd
	p.nls = resume
	p.t = token{k: kHeredoc, start: start}
	if p.simple {
		p.setS(kString, content)
	} else {
		p.t.n = (&Node{K: "Heredoc", S2: syntax, Off: start, End: declEnd, Max: textEnd, Alt: -1}).add("text", tn)
	}
}

func (p *parser) heredocText(end, indent int, flags string, interpolate bool) (string, []*Node) {
	var segs []*Node
	b := &strings.Builder{}
	strip := func() {
		n := 0
		for n < indent {
			c, _ := p.at(p.pos + n)
			if c != ' ' && c != '\t' {
				return
			}
			n++
		}
		p.pos += n
	}
	plain := func(c rune, at int) {
		if c == '$' && interpolate {
			segs = p.segment(b, segs, at)
			return
		}
		b.WriteRune(c)
		if c == '\n' {
			strip()
		}
	}
	strip()
	for p.pos < end {
		c, at := p.next()
		if c != '\\' {
			plain(c, at)
			continue
		}
		if p.pos >= end {
			b.WriteByte('\\')
			p.next()
			break
		}
		c, at = p.next()
		switch {
		case c == '\r' && p.peek() == '\n' && p.pos < end && strings.Contains(flags, "L"):
			p.pos++
			strip()
		case c == '\n' && strings.Contains(flags, "L"):
			strip()
		case c == '\n' || c >= utf8.RuneSelf || c == 'L' || !strings.ContainsRune(flags, c):
			b.WriteByte('\\')
			plain(c, at)
		case c == 'r':
			b.WriteByte('\r')
		case c == 'n':
			b.WriteByte('\n')
		case c == 't':
			b.WriteByte('\t')
		case c == 's':
			b.WriteByte(' ')
		case c == 'u':
			p.unicodeEscape(b)
		default:
			b.WriteRune(c)
		}
	}
	return b.String(), segs
}

// eppText scans the verbatim text that starts at the current position. The token gets the given start
func (p *parser) eppText(start int) {
	b := &strings.Builder{}
	keep := 0 // length of text without trailing spaces and tabs
	prev := p.t.k
	p.t = token{start: start}
	textStart := p.pos
	for p.pos < len(p.src) {
		c, at := p.next()
		c2 := p.peek()
		switch {
		case c == '<' && c2 == '%':
			p.pos++
			switch c3 := p.peek(); c3 {
			case '%':
				p.pos++
				b.WriteString("<%")
				keep = b.Len()
				continue
			case '#':
				p.pos++
				prevC := '#'
				for {
					c, _ := p.next()
					if c == 0 {
						p.fail("LEX_UNBALANCED_EPP_COMMENT", at, at)
					}
					if c == '%' {
						c = p.peek()
						if c == '>' && prevC != '%' {
							p.pos++
							break
						}
					}
					prevC = c
				}
				continue
			case '-':
				s := b.String()[:keep]
				b.Reset()
				b.WriteString(s)
			}
			p.pos = at
			if b.Len() == 0 {
				p.t.k = kRendStr
				p.lex()
				return
			}
			p.setS(kRendStr, b.String())
			p.t.n = &Node{I: int64(textStart)}
			return
		case c == ' ' || c == '\t':
			b.WriteRune(c)
		case c == '%' && c2 == '%':
			p.pos++
			if p.peek() == '>' {
				p.pos++
				b.WriteString("%>")
			} else {
				b.WriteString("%%")
			}
			keep = b.Len()
		default:
			b.WriteRune(c)
			keep = b.Len()
		}
	}
	if b.Len() == 0 {
		p.t.k = kEnd
	} else {
		p.setS(kRendStr, b.String())
		p.t.n = &Node{I: int64(textStart)}
	}
	_ = prev
}
