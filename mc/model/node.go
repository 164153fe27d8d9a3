// Package model is an executable reference model of the Puppet language front end. It is written
// independently of the implementation (it never imports it) and is used as the oracle when the
// state spaces described in DESIGN.md are enumerated.
package model

import (
	"fmt"
	"strings"
)

// Opt is a parser configuration
type Opt struct {
	Epp, Backtick, Hex, Tasks, Workflow, Single bool
}

func (o Opt) String() string {
	s := ""
	for _, f := range []struct {
		b bool
		n string
	}{{o.Epp, "epp"}, {o.Backtick, "backtick"}, {o.Hex, "hex"}, {o.Tasks, "tasks"}, {o.Workflow, "workflow"}, {o.Single, "single"}} {
		if f.b {
			s += "+" + f.n
		}
	}
	if s == "" {
		return "plain"
	}
	return s[1:]
}

// ParseOpt is the inverse of Opt.String
func ParseOpt(s string) (o Opt) {
	for _, n := range strings.Split(s, "+") {
		switch n {
		case "epp":
			o.Epp = true
		case "backtick":
			o.Backtick = true
		case "hex":
			o.Hex = true
		case "tasks":
			o.Tasks = true
		case "workflow":
			o.Workflow = true
		case "single":
			o.Single = true
		}
	}
	return
}

// Slot is a named child, or list of children
type Slot struct {
	Name string
	L    []*Node
	List bool
}

// Node is the generic syntax tree node. The range of a node is [Off,e) where End <= e <= Max. Alt is an
// alternative offset or -1
type Node struct {
	K             string
	Off, End, Max int
	Alt           int
	S, S2         string
	I             int64
	F             float64
	R             int
	B             bool
	Slots         []Slot
}

// Err describes a rejected source. The reported offset is in the interval [Lo,Hi]
type Err struct {
	Code   string
	Lo, Hi int
	Args   map[string]string
}

func (e *Err) String() string { return fmt.Sprintf("%s@[%d,%d]%v", e.Code, e.Lo, e.Hi, e.Args) }

func (n *Node) Child(name string) *Node {
	for i := range n.Slots {
		if n.Slots[i].Name == name {
			if len(n.Slots[i].L) > 0 {
				return n.Slots[i].L[0]
			}
			return nil
		}
	}
	return nil
}

func (n *Node) List(name string) []*Node {
	for i := range n.Slots {
		if n.Slots[i].Name == name {
			return n.Slots[i].L
		}
	}
	return nil
}

func (n *Node) Children() (r []*Node) {
	for i := range n.Slots {
		r = append(r, n.Slots[i].L...)
	}
	return
}

func (n *Node) add(name string, c *Node) *Node {
	s := Slot{Name: name}
	if c != nil {
		s.L = []*Node{c}
	}
	n.Slots = append(n.Slots, s)
	return n
}

func (n *Node) addL(name string, l []*Node) *Node {
	n.Slots = append(n.Slots, Slot{Name: name, L: l, List: true})
	return n
}

// Dump renders the structure (without locations)
func (n *Node) Dump() string {
	b := &strings.Builder{}
	n.dump(b)
	return b.String()
}

func (n *Node) dump(b *strings.Builder) {
	if n == nil {
		b.WriteString("-")
		return
	}
	b.WriteString(n.K)
	if n.S != "" || n.S2 != "" {
		fmt.Fprintf(b, "%q", n.S)
		if n.S2 != "" {
			fmt.Fprintf(b, "%q", n.S2)
		}
	}
	switch n.K {
	case "Integer":
		fmt.Fprintf(b, "<%d/%d>", n.I, n.R)
	case "Float":
		fmt.Fprintf(b, "<%v>", n.F)
	}
	if n.B {
		b.WriteString("!")
	}
	if len(n.Slots) > 0 {
		b.WriteString("(")
		for i := range n.Slots {
			s := &n.Slots[i]
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(s.Name + ":")
			if s.List {
				b.WriteString("[")
				for j, c := range s.L {
					if j > 0 {
						b.WriteString(" ")
					}
					c.dump(b)
				}
				b.WriteString("]")
			} else if len(s.L) > 0 {
				s.L[0].dump(b)
			} else {
				b.WriteString("-")
			}
		}
		b.WriteString(")")
	}
}

// DumpLoc renders the structure with locations
func (n *Node) DumpLoc() string {
	b := &strings.Builder{}
	var f func(n *Node)
	f = func(n *Node) {
		fmt.Fprintf(b, "%s[%d,%d..%d", n.K, n.Off, n.End, n.Max)
		if n.Alt >= 0 {
			fmt.Fprintf(b, " or %d", n.Alt)
		}
		b.WriteString("]")
		if cs := n.Children(); len(cs) > 0 {
			b.WriteString("(")
			for i, c := range cs {
				if i > 0 {
					b.WriteString(" ")
				}
				f(c)
			}
			b.WriteString(")")
		}
	}
	f(n)
	return b.String()
}

// SameShape compares everything except locations and returns a description of the first difference
func SameShape(m, a *Node) string {
	return same(m, a, "", false)
}

// SameLoc compares everything including locations
func SameLoc(m, a *Node) string {
	return same(m, a, "", true)
}

func same(m, a *Node, path string, loc bool) string {
	if m == nil || a == nil {
		if m == a {
			return ""
		}
		return fmt.Sprintf("%s: expected %s, got %s", path, m.short(), a.short())
	}
	if m.K != a.K || m.S != a.S || m.S2 != a.S2 || m.I != a.I || m.R != a.R || m.B != a.B || m.F != a.F && !(m.F != m.F && a.F != a.F) {
		return fmt.Sprintf("%s: expected %s, got %s", path, m.short(), a.short())
	}
	if loc {
		if m.Off != a.Off && (m.Alt < 0 || m.Alt != a.Off) {
			return fmt.Sprintf("%s: expected offset of %s to be %d, got %d", path, m.K, m.Off, a.Off)
		}
		if a.End < m.End || a.End > m.Max {
			return fmt.Sprintf("%s: expected end of %s to be in %d..%d, got %d", path, m.K, m.End, m.Max, a.End)
		}
	}
	if len(m.Slots) != len(a.Slots) {
		return fmt.Sprintf("%s: expected %s, got %s", path, m.short(), a.short())
	}
	for i := range m.Slots {
		x, y := &m.Slots[i], &a.Slots[i]
		p := path + "/" + m.K + "." + x.Name
		if x.Name != y.Name || len(x.L) != len(y.L) {
			return fmt.Sprintf("%s: expected %d %s, got %d %s", p, len(x.L), x.Name, len(y.L), y.Name)
		}
		for j := range x.L {
			q := p
			if x.List {
				q = fmt.Sprintf("%s[%d]", p, j)
			}
			if d := same(x.L[j], y.L[j], q, loc); d != "" {
				return d
			}
		}
	}
	return ""
}

func (n *Node) short() string {
	s := n.Dump()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
