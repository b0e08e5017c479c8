package main

import (
	"fmt"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

var binText = map[ast.BinaryOperator]string{
	ast.BinaryExponentOp: "**", ast.BinaryMultOp: "*", ast.BinaryDivOp: "/", ast.BinaryModOp: "%", ast.BinaryAddOp: "+", ast.BinarySubOp: "-",
	ast.BinaryLShiftOp: "<<", ast.BinaryRShiftOp: ">>", ast.BinaryUnsignedRShiftOp: ">>>", ast.BinaryLessThanOp: "<", ast.BinaryGreaterThanOp: ">",
	ast.BinaryLessThanEqualOp: "<=", ast.BinaryGreaterThanEqualOp: ">=", ast.BinaryInstanceOfOp: "instanceof", ast.BinaryInOp: "in",
	ast.BinaryEqualOp: "==", ast.BinaryNotEqualOp: "!=", ast.BinaryStrictEqualOp: "===", ast.BinaryStrictNotEqualOp: "!==",
	ast.BinaryBitAndOp: "&", ast.BinaryBitXorOp: "^", ast.BinaryBitOrOp: "|", ast.BinaryLogicalAndOp: "&&", ast.BinaryLogicalOrOp: "||", ast.BinaryCoalesceOp: "??",
}
var assignText = map[ast.AssignmentOperator]string{
	ast.AssignmentOp: "=", ast.AssignmentMultOp: "*=", ast.AssignmentDivOp: "/=", ast.AssignmentModOp: "%=", ast.AssignmentAddOp: "+=", ast.AssignmentSubOp: "-=",
	ast.AssignmentLShiftOp: "<<=", ast.AssignmentRShiftOp: ">>=", ast.AssignmentUnsignedRShiftOp: ">>>=", ast.AssignmentBitAndOp: "&=", ast.AssignmentBitXorOp: "^=",
	ast.AssignmentBitOrOp: "|=", ast.AssignmentExponentOp: "**=", ast.AssignmentLogicalAndOp: "&&=", ast.AssignmentLogicalOr: "||=", ast.AssignmentCoalesceOp: "??=",
}
var unaryText = map[ast.UnaryOperator]string{ast.UnaryDeleteOp: "delete", ast.UnaryVoidOp: "void", ast.UnaryTypeOfOp: "typeof", ast.UnaryPlusOp: "+", ast.UnaryMinusOp: "-", ast.UnaryBitNotOp: "~", ast.UnaryNotOp: "!"}
var kindText = map[ast.VarKind]string{ast.VarDeclaration: "var", ast.LetDeclaration: "let", ast.ConstDeclaration: "const"}

type badTree string

func bad(f string, a ...interface{}) string { panic(badTree(fmt.Sprintf(f, a...))) }

func opt(n ast.Node) string {
	if n == nil {
		return ""
	}
	return tree(n)
}

func trees(ns []ast.Node) []string {
	var xs []string
	for _, n := range ns {
		xs = append(xs, tree(n))
	}
	return xs
}

// tree writes a tree of the parser in the form of the reference parser.
func tree(n ast.Node) string {
	switch n := n.(type) {
	case nil:
		return bad("a node is missing")
	case *ast.UnaryExpression:
		return nd("Unary", unaryText[n.Operator], tree(n.Argument))
	case ast.UnaryExpression:
		return tree(&n)
	case *ast.UpdateExpression:
		switch n.Operator {
		case ast.UpdatePreIncrementOp:
			return nd("Update", "++", tree(n.Argument))
		case ast.UpdatePreDecrementOp:
			return nd("Update", "--", tree(n.Argument))
		case ast.UpdatePostIncrementOp:
			return nd("Update", tree(n.Argument), "++")
		case ast.UpdatePostDecrementOp:
			return nd("Update", tree(n.Argument), "--")
		}
		return bad("update operator %d", n.Operator)
	case ast.UpdateExpression:
		return tree(&n)
	case ast.BinaryExpression:
		return nd("Bin", tree(n.Left), binText[n.Operator], tree(n.Right))
	case ast.AssignmentExpression:
		return nd("Assign", tree(n.Left), assignText[n.Operator], tree(n.Right))
	case ast.ConditionalExpression:
		return nd("Cond", tree(n.Test), "?", tree(n.Consequent), ":", tree(n.Alternate))
	case ast.SequenceExpression:
		return nd("Seq", list(trees(n.Expressions), " , "))
	case ast.ParenthesizedExpression:
		return nd("Paren", tree(n.Expression))
	case ast.SpreadElement:
		return nd("Spread", "...", tree(n.Argument))
	case ast.CallExpression:
		return nd("Call", tree(n.Callee), nd("Args", list(trees(n.Arguments), " , ")))
	case ast.NewExpression:
		return nd("New", "new", tree(n.Callee), nd("Args", list(trees(n.Arguments), " , ")))
	case ast.MemberExpression:
		if n.Computed {
			return nd("Index", tree(n.Object), "[", tree(n.Property), "]")
		}
		id, ok := n.Property.(ast.Identifier)
		if !ok {
			return bad("property %T", n.Property)
		}
		return nd("Member", tree(n.Object), ".", id.Name)
	case ast.Identifier:
		return nd("Id", n.Name)
	case ast.ThisExpression:
		return nd("This", "this")
	case ast.NullLiteral:
		return nd("Lit", "null")
	case ast.BooleanLiteral:
		if n.Raw != fmt.Sprint(n.Value) {
			return bad("boolean %v written %q", n.Value, n.Raw)
		}
		return nd("Lit", n.Raw)
	case ast.NumberLiteral:
		if v, ok := refNumber(n.Raw); ok && v != n.Value {
			return bad("number %v written %q", n.Value, n.Raw)
		}
		return nd("Num", n.Raw)
	case ast.StringLiteral:
		if len(n.Raw) < 2 || n.Raw[1:len(n.Raw)-1] != n.Value {
			return bad("string %q written %q", n.Value, n.Raw)
		}
		return nd("Str", n.Raw)
	case ast.RegExpLiteral:
		if n.Raw != "/"+n.Pattern+"/"+n.Flags {
			return bad("regular expression %q %q written %q", n.Pattern, n.Flags, n.Raw)
		}
		return nd("Re", n.Raw)
	case ast.ArrayExpression:
		var xs []string
		for _, e := range n.Elements {
			if e == nil {
				xs = append(xs, nd("Hole"))
			} else {
				xs = append(xs, tree(e))
			}
		}
		return arr("Arr", xs)
	case ast.ObjectExpression:
		var xs []string
		for _, p := range n.Properties {
			xs = append(xs, propTree(p))
		}
		return nd("Obj", "{", list(xs, " , "), "}")
	case ast.FunctionExpression:
		a, g := "", ""
		if n.Async {
			a = "async"
		}
		if n.Generator {
			g = "*"
		}
		if n.Arrow {
			if n.Generator || n.ID != "" {
				return bad("arrow function with name or generator")
			}
			return nd("Arrow", a, paramTree(n.Params), "=>", tree(n.Body))
		}
		return nd("Func", a, "function", g, n.ID, paramTree(n.Params), tree(n.Body))
	case ast.FunctionDeclaration:
		if n.Async || n.Generator {
			return bad("async or generator declaration")
		}
		return nd("FuncDecl", "function", n.ID, paramTree(n.Params), tree(n.Body))
	case ast.ClassExpression:
		return nd("ClassExpr", "class", n.ID, classTree(n.SuperClass, n.Body))
	case ast.ClassDeclaration:
		return nd("ClassDecl", "class", n.ID, classTree(n.SuperClass, n.Body))
	case ast.MethodDefinition:
		var m []string
		if n.Static {
			m = append(m, "static")
		}
		switch n.Kind {
		case ast.GetMethod:
			m = append(m, "get")
		case ast.SetMethod:
			m = append(m, "set")
		}
		m = append(m, keyTree(n.Key, n.Computed), methodTree(n.Value))
		return nd("Method", m...)
	case ast.BlockStatement:
		return nd("Block", "{", list(trees(n.Body), " "), "}")
	case ast.EmptyStatement:
		return nd("Empty")
	case ast.ExpressionStatement:
		if n.Directive != "" {
			return nd("Directive", tree(n.Expression))
		}
		return nd("ExprStmt", tree(n.Expression))
	case ast.VariableDeclaration:
		var xs []string
		for _, d := range n.Declarations {
			b := bindTree(d.ID)
			if d.Init != nil {
				b += " = " + tree(d.Init)
			}
			xs = append(xs, nd("Decl", b))
		}
		return nd("Var", kindText[n.Kind], list(xs, " , "))
	case ast.ContinueStatement:
		return nd("Jump", "continue", n.Label)
	case ast.BreakStatement:
		return nd("Jump", "break", n.Label)
	case ast.ReturnStatement:
		return nd("Return", "return", opt(n.Argument))
	case ast.ThrowStatement:
		return nd("Throw", "throw", tree(n.Argument))
	case ast.IfStatement:
		if n.Alternate != nil {
			return nd("If", "if", tree(n.Test), tree(n.Consequent), "else", tree(n.Alternate))
		}
		return nd("If", "if", tree(n.Test), tree(n.Consequent))
	case ast.WhileStatement:
		return nd("While", "while", tree(n.Test), tree(n.Body))
	case ast.DoWhileStatement:
		return nd("DoWhile", "do", tree(n.Body), "while", tree(n.Test))
	case ast.ForStatement:
		return nd("For", "for", opt(n.Init), nd("Test", opt(n.Test)), nd("Update", opt(n.Update)), tree(n.Body))
	case ast.ForInStatement:
		return nd("ForIn", "for", tree(n.Left), "in", tree(n.Right), tree(n.Body))
	case ast.ForOfStatement:
		return nd("ForOf", "for", tree(n.Left), "of", tree(n.Right), tree(n.Body))
	case ast.SwitchStatement:
		var xs []string
		for _, c := range n.Cases {
			h := "default"
			if c.Test != nil {
				h = "case " + tree(c.Test)
			}
			xs = append(xs, nd("Case", h, ":", list(trees(c.Consequent), " ")))
		}
		return nd("Switch", "switch", tree(n.Discriminant), "{", list(xs, " "), "}")
	case ast.LabeledStatement:
		return nd("Label", n.Label, ":", tree(n.Body))
	case ast.TryStatement:
		c, f := "", ""
		if n.Handler != nil {
			c = tree(n.Handler)
		}
		if n.Finalizer != nil {
			f = "finally " + tree(n.Finalizer)
		}
		return nd("Try", "try", tree(n.Block), c, f)
	case ast.CatchClause:
		return nd("Catch", "catch", bindTree(n.Param), tree(n.Body))
	case ast.ScriptNode:
		return nd("Script", list(trees(n.Body), " "))
	case ast.ModuleNode:
		return nd("Module", list(trees(n.Body), " "))
	case ast.ImportDeclNode:
		var d, m string
		if n.DefaultBinding != nil {
			d = nd("Default", n.DefaultBinding.Identifier)
		}
		if n.NameSpace != nil {
			m = nd("NS", "* as", n.NameSpace.Identifier)
		}
		if n.NamedImports != nil {
			if m != "" {
				return bad("import with name space and names")
			}
			var xs []string
			for _, x := range n.NamedImports {
				s := x.Identifier
				if x.AsBinding != "" {
					s += " as " + x.AsBinding
				}
				xs = append(xs, s)
			}
			m = nd("Named", "{", list(xs, " , "), "}")
		}
		if d != "" && m != "" {
			m = ", " + m
		}
		if d == "" && m == "" {
			return nd("Import", "import", nd("Mod", n.Module))
		}
		return nd("Import", "import", d, m, "from", nd("Mod", n.Module))
	}
	return bad("unexpected node %T", n)
}

func keyTree(k ast.Node, computed bool) string {
	if computed {
		return nd("Computed", "[", tree(k), "]")
	}
	switch k := k.(type) {
	case ast.Identifier:
		return k.Name
	case ast.NumberLiteral, ast.StringLiteral:
		return tree(k)
	}
	return bad("property key %T", k)
}

func methodTree(f ast.FunctionExpression) string {
	if f.Arrow || f.ID != "" {
		return bad("method with a name or an arrow")
	}
	return paramTree(f.Params) + " " + tree(f.Body)
}

func propTree(p ast.Property) string {
	if p.DestructureInit != nil {
		return bad("initializer of a pattern in an object")
	}
	k := keyTree(p.Key, p.Computed)
	f, isF := p.Value.(ast.FunctionExpression)
	switch {
	case p.Kind == ast.GetProperty && isF && !f.Async && !f.Generator:
		return nd("P:get", "get", k, methodTree(f))
	case p.Kind == ast.SetProperty && isF && !f.Async && !f.Generator:
		return nd("P:set", "set", k, methodTree(f))
	case p.Kind != ast.InitProperty:
		return bad("getter or setter %T", p.Value)
	case p.Method && isF:
		a, g := "", ""
		if f.Async {
			a = "async"
		}
		if f.Generator {
			g = "*"
		}
		return nd("P:method", a, g, k, methodTree(f))
	case p.Method:
		return bad("method %T", p.Value)
	case p.Value == nil:
		if _, ok := p.Key.(ast.Identifier); !ok || p.Computed {
			return bad("shorthand %T", p.Key)
		}
		return nd("P:short", k)
	}
	return nd("P:init", k, ":", tree(p.Value))
}

func paramTree(p ast.FormalParameters) string {
	var xs []string
	for _, e := range p.Parameters {
		xs = append(xs, elemTree(bindTree(e.Value), e.Init))
	}
	if p.RestParameter != "" {
		xs = append(xs, "... "+p.RestParameter)
	}
	return params(xs)
}

func elemTree(b string, init ast.Node) string {
	if init != nil {
		return nd("Elem", b, "=", tree(init))
	}
	return nd("Elem", b)
}

func bindTree(b ast.BindingPattern) string {
	switch {
	case b.ArrayPattern != nil && b.ObjectPattern == nil && b.Identifier == "":
		var xs []string
		for _, e := range b.ArrayPattern.Elements {
			v := bindTree(e.Value)
			if v == "" && e.Init == nil {
				xs = append(xs, nd("Hole"))
			} else {
				xs = append(xs, elemTree(v, e.Init))
			}
		}
		if r := bindTree(b.ArrayPattern.RestElement); r != "" {
			xs = append(xs, nd("Rest", "...", r))
		}
		return arr("ArrPat", xs)
	case b.ObjectPattern != nil && b.ArrayPattern == nil && b.Identifier == "":
		var xs []string
		for _, p := range b.ObjectPattern.Properties {
			v := bindTree(p.Value)
			if v == "" {
				xs = append(xs, nd("PP", elemTree(p.PropertyName, p.Init)))
			} else {
				xs = append(xs, nd("PP", p.PropertyName, ":", elemTree(v, p.Init)))
			}
		}
		if r := b.ObjectPattern.RestElement; r != "" {
			xs = append(xs, nd("Rest", "...", r))
		}
		return nd("ObjPat", "{", list(xs, " , "), "}")
	case b.ObjectPattern == nil && b.ArrayPattern == nil:
		return b.Identifier
	}
	return bad("binding with more than one form")
}

func classTree(h ast.Node, body []ast.Node) string {
	s := ""
	if h != nil {
		s = "extends " + tree(h) + " "
	}
	return s + nd("Body", "{", list(trees(body), " "), "}")
}
