package main

import (
	"encoding/json"
	"math"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

type m = map[string]interface{}

func est(n ast.Node) interface{} {
	if n == nil {
		return nil
	}
	return esTree(n)
}

func ests(ns []ast.Node) []interface{} {
	xs := []interface{}{}
	for _, n := range ns {
		xs = append(xs, est(n))
	}
	return xs
}

func estID(s string) interface{} {
	if s == "" {
		return nil
	}
	return m{"type": "Identifier", "name": s}
}

func estPat(b ast.BindingPattern) interface{} {
	switch {
	case b.Identifier != "":
		return estID(b.Identifier)
	case b.ObjectPattern != nil:
		xs := []interface{}{}
		for _, p := range b.ObjectPattern.Properties {
			v := estPat(p.Value)
			short := v == nil
			if short {
				v = estID(p.PropertyName)
			}
			xs = append(xs, m{"type": "Property", "key": estID(p.PropertyName), "computed": false, "value": estDef(v, p.Init), "kind": "init", "method": false, "shorthand": short})
		}
		if r := b.ObjectPattern.RestElement; r != "" {
			xs = append(xs, m{"type": "RestElement", "argument": estID(r)})
		}
		return m{"type": "ObjectPattern", "properties": xs}
	case b.ArrayPattern != nil:
		xs := []interface{}{}
		for _, e := range b.ArrayPattern.Elements {
			xs = append(xs, estDef(estPat(e.Value), e.Init))
		}
		if r := estPat(b.ArrayPattern.RestElement); r != nil {
			xs = append(xs, m{"type": "RestElement", "argument": r})
		}
		return m{"type": "ArrayPattern", "elements": xs}
	}
	return nil
}

func estDef(v interface{}, init ast.Node) interface{} {
	if init == nil {
		return v
	}
	return m{"type": "AssignmentPattern", "left": v, "right": est(init)}
}

func estParams(p ast.FormalParameters) interface{} {
	xs := []interface{}{}
	for _, e := range p.Parameters {
		xs = append(xs, estDef(estPat(e.Value), e.Init))
	}
	if p.RestParameter != "" {
		xs = append(xs, m{"type": "RestElement", "argument": estID(p.RestParameter)})
	}
	return xs
}

// esTree is the ESTree form of a node, written from the ESTree specification.
func esTree(n ast.Node) interface{} {
	switch n := n.(type) {
	case *ast.UnaryExpression:
		return m{"type": "UnaryExpression", "operator": unaryText[n.Operator], "prefix": true, "argument": est(n.Argument)}
	case ast.UnaryExpression:
		return esTree(&n)
	case *ast.UpdateExpression:
		op, pre := "++", true
		if n.Operator == ast.UpdatePreDecrementOp || n.Operator == ast.UpdatePostDecrementOp {
			op = "--"
		}
		if n.Operator == ast.UpdatePostDecrementOp || n.Operator == ast.UpdatePostIncrementOp {
			pre = false
		}
		return m{"type": "UpdateExpression", "operator": op, "prefix": pre, "argument": est(n.Argument)}
	case ast.UpdateExpression:
		return esTree(&n)
	case ast.BinaryExpression:
		t := "BinaryExpression"
		switch n.Operator {
		case ast.BinaryLogicalAndOp, ast.BinaryLogicalOrOp, ast.BinaryCoalesceOp:
			t = "LogicalExpression"
		}
		return m{"type": t, "operator": binText[n.Operator], "left": est(n.Left), "right": est(n.Right)}
	case ast.AssignmentExpression:
		return m{"type": "AssignmentExpression", "operator": assignText[n.Operator], "left": est(n.Left), "right": est(n.Right)}
	case ast.ConditionalExpression:
		return m{"type": "ConditionalExpression", "test": est(n.Test), "consequent": est(n.Consequent), "alternate": est(n.Alternate)}
	case ast.SequenceExpression:
		return m{"type": "SequenceExpression", "expressions": ests(n.Expressions)}
	case ast.ParenthesizedExpression:
		return est(n.Expression)
	case ast.SpreadElement:
		return m{"type": "SpreadElement", "argument": est(n.Argument)}
	case ast.CallExpression:
		return optional(m{"type": "CallExpression", "callee": est(n.Callee), "arguments": ests(n.Arguments)}, n.Optional)
	case ast.NewExpression:
		return m{"type": "NewExpression", "callee": est(n.Callee), "arguments": ests(n.Arguments)}
	case ast.MemberExpression:
		return optional(m{"type": "MemberExpression", "computed": n.Computed, "object": est(n.Object), "property": est(n.Property)}, n.Optional)
	case ast.Identifier:
		return m{"type": "Identifier", "name": n.Name}
	case ast.ThisExpression:
		return m{"type": "ThisExpression"}
	case ast.NullLiteral:
		return m{"type": "Literal", "value": nil, "raw": "null"}
	case ast.BooleanLiteral:
		return m{"type": "Literal", "value": n.Value, "raw": n.Raw}
	case ast.NumberLiteral:
		return m{"type": "Literal", "value": n.Value, "raw": n.Raw}
	case ast.StringLiteral:
		return m{"type": "Literal", "value": n.Value, "raw": n.Raw}
	case ast.RegExpLiteral:
		return m{"type": "Literal", "value": n.Raw, "raw": n.Raw, "regex": m{"pattern": n.Pattern, "flags": n.Flags}}
	case ast.ArrayExpression:
		return m{"type": "ArrayExpression", "elements": ests(n.Elements)}
	case ast.ObjectExpression:
		xs := []interface{}{}
		for _, p := range n.Properties {
			k := est(p.Key)
			v := est(p.Value)
			if p.Value == nil {
				v = k
			}
			kind := map[ast.PropertyKind]string{ast.InitProperty: "init", ast.GetProperty: "get", ast.SetProperty: "set"}[p.Kind]
			xs = append(xs, m{"type": "Property", "key": k, "computed": p.Computed, "value": v, "kind": kind, "method": p.Method, "shorthand": p.Value == nil})
		}
		return m{"type": "ObjectExpression", "properties": xs}
	case ast.FunctionExpression:
		t := "FunctionExpression"
		_, block := n.Body.(ast.BlockStatement)
		if n.Arrow {
			t = "ArrowFunctionExpression"
		}
		return m{"type": t, "id": estID(n.ID), "params": estParams(n.Params), "body": est(n.Body), "generator": n.Generator, "async": n.Async, "expression": n.Arrow && !block}
	case ast.FunctionDeclaration:
		return m{"type": "FunctionDeclaration", "id": estID(n.ID), "params": estParams(n.Params), "body": est(n.Body), "generator": n.Generator, "async": n.Async, "expression": false}
	case ast.ClassExpression:
		return m{"type": "ClassExpression", "id": estID(n.ID), "superClass": est(n.SuperClass), "body": m{"type": "ClassBody", "body": ests(n.Body)}}
	case ast.ClassDeclaration:
		return m{"type": "ClassDeclaration", "id": estID(n.ID), "superClass": est(n.SuperClass), "body": m{"type": "ClassBody", "body": ests(n.Body)}}
	case ast.MethodDefinition:
		kind := map[ast.MethodKind]string{ast.Method: "method", ast.GetMethod: "get", ast.SetMethod: "set"}[n.Kind]
		if id, ok := n.Key.(ast.Identifier); ok && id.Name == "constructor" && kind == "method" && !n.Computed && !n.Static {
			kind = "constructor"
		}
		return m{"type": "MethodDefinition", "key": est(n.Key), "computed": n.Computed, "value": est(n.Value), "kind": kind, "static": n.Static}
	case ast.BlockStatement:
		return m{"type": "BlockStatement", "body": ests(n.Body)}
	case ast.EmptyStatement:
		return m{"type": "EmptyStatement"}
	case ast.ExpressionStatement:
		x := m{"type": "ExpressionStatement", "expression": est(n.Expression)}
		if n.Directive != "" {
			x["directive"] = n.Directive
		}
		return x
	case ast.VariableDeclaration:
		xs := []interface{}{}
		for _, d := range n.Declarations {
			xs = append(xs, m{"type": "VariableDeclarator", "id": estPat(d.ID), "init": est(d.Init)})
		}
		return m{"type": "VariableDeclaration", "declarations": xs, "kind": kindText[n.Kind]}
	case ast.ContinueStatement:
		return m{"type": "ContinueStatement", "label": estID(n.Label)}
	case ast.BreakStatement:
		return m{"type": "BreakStatement", "label": estID(n.Label)}
	case ast.ReturnStatement:
		return m{"type": "ReturnStatement", "argument": est(n.Argument)}
	case ast.ThrowStatement:
		return m{"type": "ThrowStatement", "argument": est(n.Argument)}
	case ast.IfStatement:
		return m{"type": "IfStatement", "test": est(n.Test), "consequent": est(n.Consequent), "alternate": est(n.Alternate)}
	case ast.WhileStatement:
		return m{"type": "WhileStatement", "test": est(n.Test), "body": est(n.Body)}
	case ast.DoWhileStatement:
		return m{"type": "DoWhileStatement", "test": est(n.Test), "body": est(n.Body)}
	case ast.ForStatement:
		return m{"type": "ForStatement", "init": est(n.Init), "test": est(n.Test), "update": est(n.Update), "body": est(n.Body)}
	case ast.ForInStatement:
		return m{"type": "ForInStatement", "left": est(n.Left), "right": est(n.Right), "body": est(n.Body)}
	case ast.ForOfStatement:
		return m{"type": "ForOfStatement", "left": est(n.Left), "right": est(n.Right), "body": est(n.Body)}
	case ast.SwitchStatement:
		xs := []interface{}{}
		for _, c := range n.Cases {
			xs = append(xs, m{"type": "SwitchCase", "test": est(c.Test), "consequent": ests(c.Consequent)})
		}
		return m{"type": "SwitchStatement", "discriminant": est(n.Discriminant), "cases": xs}
	case ast.LabeledStatement:
		return m{"type": "LabeledStatement", "label": estID(n.Label), "body": est(n.Body)}
	case ast.TryStatement:
		return m{"type": "TryStatement", "block": est(n.Block), "handler": est(n.Handler), "finalizer": est(n.Finalizer)}
	case ast.CatchClause:
		return m{"type": "CatchClause", "param": estPat(n.Param), "body": est(n.Body)}
	case ast.ScriptNode:
		return m{"type": "Program", "body": ests(n.Body), "sourceType": "script"}
	case ast.ModuleNode:
		return m{"type": "Program", "body": ests(n.Body), "sourceType": "module"}
	case ast.ImportDeclNode:
		xs := []interface{}{}
		if d := n.DefaultBinding; d != nil {
			xs = append(xs, m{"type": "ImportDefaultSpecifier", "local": estID(d.Identifier)})
		}
		if d := n.NameSpace; d != nil {
			xs = append(xs, m{"type": "ImportNamespaceSpecifier", "local": estID(d.Identifier)})
		}
		for _, i := range n.NamedImports {
			l := i.AsBinding
			if l == "" {
				l = i.Identifier
			}
			xs = append(xs, m{"type": "ImportSpecifier", "imported": estID(i.Identifier), "local": estID(l)})
		}
		return m{"type": "ImportDeclaration", "specifiers": xs, "source": m{"type": "Literal", "value": n.Module}}
	}
	panic(badTree("no ESTree form"))
}

func optional(x m, o bool) m {
	if o {
		x["optional"] = true
	}
	return x
}

// sameES compares two ESTree forms by their JSON; properties that are false
// and have no place in the other are passed over.
func sameES(got, want interface{}) (string, bool) {
	a, ok := toJSON(got)
	b, ok2 := toJSON(want)
	if !ok || !ok2 {
		return "", true // infinite numbers have no JSON form
	}
	return diffES(a, b, "")
}

func toJSON(v interface{}) (x interface{}, ok bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	return x, json.Unmarshal(b, &x) == nil
}

func diffES(a, b interface{}, at string) (string, bool) {
	switch a := a.(type) {
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok {
			return at, false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok {
				if v == false {
					continue
				}
				return at + "." + k, false
			}
			if p, ok := diffES(v, w, at+"."+k); !ok {
				return p, false
			}
		}
		for k := range b {
			if _, ok := a[k]; !ok {
				return at + "." + k, false
			}
		}
		return "", true
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return at, false
		}
		for i := range a {
			if p, ok := diffES(a[i], b[i], at+"[]"); !ok {
				return p, false
			}
		}
		return "", true
	case float64:
		b, ok := b.(float64)
		return at, ok && (a == b || math.IsNaN(a))
	}
	return at, a == b
}
