// Package drive connects the reference model to the implementation. It only uses the public API of the implementation.
package drive

import (
	"fmt"

	"github.com/lyraproj/puppet-parser/parser"
	"verif/mc/model"
)

type callExpr interface {
	parser.CallExpression
	RvalRequired() bool
}

// Reified is the generic representation of an AST that was created by the implementation
type Reified struct {
	Root *model.Node
	Defs []*model.Node
	// Of maps each node to the expression that it represents
	Of map[*model.Node]parser.Expression
}

// Reify converts an AST using only its accessors
func Reify(e parser.Expression) *Reified {
	r := &Reified{Of: map[*model.Node]parser.Expression{}}
	r.Root = r.node(e)
	if p, ok := e.(*parser.Program); ok {
		idx := map[parser.Expression]*model.Node{}
		for n, x := range r.Of {
			idx[x] = n
		}
		for _, d := range p.Definitions() {
			n, ok := idx[d.(parser.Expression)]
			if !ok {
				n = r.node(d.(parser.Expression))
			}
			r.Defs = append(r.Defs, n)
		}
	}
	return r
}

func (r *Reified) node(e parser.Expression) *model.Node {
	if e == nil {
		return nil
	}
	n := &model.Node{Off: e.ByteOffset(), End: e.ByteOffset() + e.ByteLength(), Alt: -1}
	n.Max = n.End
	one := func(name string, c parser.Expression) {
		s := model.Slot{Name: name}
		if c != nil {
			s.L = []*model.Node{r.node(c)}
		}
		n.Slots = append(n.Slots, s)
	}
	many := func(name string, cs []parser.Expression) {
		s := model.Slot{Name: name, List: true}
		for _, c := range cs {
			s.L = append(s.L, r.node(c))
		}
		n.Slots = append(n.Slots, s)
	}
	binary := func(k, op string, b parser.BinaryExpression) {
		n.K, n.S = k, op
		one("lhs", b.Lhs())
		one("rhs", b.Rhs())
	}
	unary := func(k string, x parser.Expression) {
		n.K = k
		one("expr", x)
	}
	call := func(k string, c callExpr) {
		n.K, n.B = k, c.RvalRequired()
		one("functor", c.Functor())
		many("arguments", c.Arguments())
		one("lambda", c.Lambda())
	}
	cond := func(k string, t, th, el parser.Expression) {
		n.K = k
		one("test", t)
		one("then", th)
		one("else", el)
	}
	named := func(k string, d parser.NamedDefinition) {
		n.K, n.S = k, d.Name()
		many("parameters", d.Parameters())
	}
	switch e := e.(type) {
	case *parser.AccessExpression:
		n.K = "Access"
		one("operand", e.Operand())
		many("keys", e.Keys())
	case *parser.AndExpression:
		binary("And", "", e)
	case *parser.ArithmeticExpression:
		binary("Arithmetic", e.Operator(), e)
	case *parser.Application:
		named("Application", e)
		one("body", e.Body())
	case *parser.AssignmentExpression:
		binary("Assignment", e.Operator(), e)
	case *parser.AttributeOperation:
		n.K, n.S, n.S2 = "AttributeOp", e.Name(), e.Operator()
		one("value", e.Value())
	case *parser.AttributesOperation:
		unary("AttributesOp", e.Expr())
	case *parser.BlockExpression:
		n.K = "Block"
		many("statements", e.Statements())
	case *parser.CallFunctionExpression:
		call("CallFunction", e)
	case *parser.CallMethodExpression:
		call("CallMethod", e)
	case *parser.CallNamedFunctionExpression:
		call("Call", e)
	case *parser.CapabilityMapping:
		n.K, n.S, n.S2 = "CapabilityMapping", e.Kind(), e.Capability()
		one("component", e.Component())
		many("mappings", e.Mappings())
	case *parser.CaseExpression:
		n.K = "Case"
		one("test", e.Test())
		many("options", e.Options())
	case *parser.CaseOption:
		n.K = "CaseOption"
		many("values", e.Values())
		one("then", e.Then())
	case *parser.CollectExpression:
		n.K = "Collect"
		one("resourceType", e.ResourceType())
		one("query", e.Query())
		many("operations", e.Operations())
	case *parser.ComparisonExpression:
		binary("Comparison", e.Operator(), e)
	case *parser.ConcatenatedString:
		n.K = "ConcatenatedString"
		many("segments", e.Segments())
	case *parser.EppExpression:
		n.K, n.B = "Epp", e.ParametersSpecified()
		one("body", e.Body())
	case *parser.ExportedQuery:
		unary("ExportedQuery", e.Expr())
	case *parser.PlanDefinition:
		named("Plan", e)
		one("returnType", e.ReturnType())
		one("body", e.Body())
	case *parser.FunctionDefinition:
		named("Function", e)
		one("returnType", e.ReturnType())
		one("body", e.Body())
	case *parser.HeredocExpression:
		n.K, n.S2 = "Heredoc", e.Syntax()
		one("text", e.Text())
	case *parser.HostClassDefinition:
		named("Class", e)
		n.S2 = e.ParentClass()
		one("body", e.Body())
	case *parser.UnlessExpression:
		cond("Unless", e.Test(), e.Then(), e.Else())
	case *parser.IfExpression:
		cond("If", e.Test(), e.Then(), e.Else())
	case *parser.InExpression:
		binary("In", "", e)
	case *parser.KeyedEntry:
		n.K = "KeyedEntry"
		one("key", e.Key())
		one("value", e.Value())
	case *parser.LambdaExpression:
		n.K = "Lambda"
		many("parameters", e.Parameters())
		one("body", e.Body())
		one("returnType", e.ReturnType())
	case *parser.LiteralBoolean:
		n.K, n.B = "Boolean", e.Bool()
	case *parser.LiteralDefault:
		n.K = "Default"
	case *parser.LiteralFloat:
		n.K, n.F = "Float", e.Float()
	case *parser.LiteralHash:
		n.K = "Hash"
		many("entries", e.Entries())
	case *parser.LiteralInteger:
		n.K, n.I, n.R = "Integer", e.Int(), e.Radix()
	case *parser.LiteralList:
		n.K = "List"
		many("elements", e.Elements())
	case *parser.RenderStringExpression:
		n.K, n.S = "RenderString", e.StringValue()
	case *parser.LiteralString:
		n.K, n.S = "String", e.StringValue()
	case *parser.LiteralUndef:
		n.K = "Undef"
	case *parser.MatchExpression:
		binary("Match", e.Operator(), e)
	case *parser.NamedAccessExpression:
		binary("NamedAccess", "", e)
	case *parser.NodeDefinition:
		n.K = "Node"
		one("parent", e.Parent())
		many("hostMatches", e.HostMatches())
		one("body", e.Body())
	case *parser.Nop:
		n.K = "Nop"
	case *parser.NotExpression:
		unary("Not", e.Expr())
	case *parser.OrExpression:
		binary("Or", "", e)
	case *parser.Parameter:
		n.K, n.S, n.B = "Parameter", e.Name(), e.CapturesRest()
		one("type", e.Type())
		one("value", e.Value())
	case *parser.ParenthesizedExpression:
		unary("Paren", e.Expr())
	case *parser.Program:
		n.K = "Program"
		one("body", e.Body())
	case *parser.QualifiedReference:
		n.K, n.S = "QualifiedReference", e.Name()
	case *parser.QualifiedName:
		n.K, n.S = "QualifiedName", e.Name()
	case *parser.RegexpExpression:
		n.K, n.S = "Regexp", fmt.Sprint(e.Value())
	case *parser.RelationshipExpression:
		binary("Relationship", e.Operator(), e)
	case *parser.RenderExpression:
		unary("Render", e.Expr())
	case *parser.ReservedWord:
		n.K, n.S, n.B = "ReservedWord", e.Name(), e.Future()
	case *parser.ResourceBody:
		n.K = "ResourceBody"
		one("title", e.Title())
		many("operations", e.Operations())
	case *parser.ResourceDefaultsExpression:
		n.K, n.S = "ResourceDefaults", string(e.Form())
		one("typeRef", e.TypeRef())
		many("operations", e.Operations())
	case *parser.ResourceExpression:
		n.K, n.S = "Resource", string(e.Form())
		one("typeName", e.TypeName())
		many("bodies", e.Bodies())
	case *parser.ResourceOverrideExpression:
		n.K, n.S = "ResourceOverride", string(e.Form())
		one("resources", e.Resources())
		many("operations", e.Operations())
	case *parser.ResourceTypeDefinition:
		named("Definition", e)
		one("body", e.Body())
	case *parser.SelectorEntry:
		n.K = "SelectorEntry"
		one("matching", e.Matching())
		one("value", e.Value())
	case *parser.SelectorExpression:
		n.K = "Selector"
		one("lhs", e.Lhs())
		many("selectors", e.Selectors())
	case *parser.SiteDefinition:
		n.K = "Site"
		one("body", e.Body())
	case *parser.StepExpression:
		n.K, n.S, n.S2 = "Step", e.Name(), string(e.Style())
		one("properties", e.Properties())
		one("definition", e.Definition())
	case *parser.TextExpression:
		unary("Text", e.Expr())
	case *parser.TypeAlias:
		n.K, n.S = "TypeAlias", e.Name()
		one("type", e.Type())
	case *parser.TypeDefinition:
		n.K, n.S, n.S2 = "TypeDefinition", e.Name(), e.Parent()
		one("body", e.Body())
	case *parser.TypeMapping:
		n.K = "TypeMapping"
		one("type", e.Type())
		one("mapping", e.Mapping())
	case *parser.UnaryMinusExpression:
		unary("Negate", e.Expr())
	case *parser.UnfoldExpression:
		unary("Unfold", e.Expr())
	case *parser.VariableExpression:
		unary("Variable", e.Expr())
	case *parser.VirtualQuery:
		unary("VirtualQuery", e.Expr())
	default:
		n.K = fmt.Sprintf("%T", e)
	}
	r.Of[n] = e
	return n
}
