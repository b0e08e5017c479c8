package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

// Node values of every kind, made at random: the parser makes only some.

var nodeKinds = []ast.Node{
	&ast.UnaryExpression{}, &ast.UpdateExpression{}, ast.BinaryExpression{}, ast.AssignmentExpression{}, ast.ConditionalExpression{},
	ast.SequenceExpression{}, ast.ParenthesizedExpression{}, ast.SpreadElement{}, ast.CallExpression{}, ast.NewExpression{}, ast.MemberExpression{},
	ast.Identifier{}, ast.ThisExpression{}, ast.NullLiteral{}, ast.BooleanLiteral{}, ast.NumberLiteral{}, ast.StringLiteral{}, ast.RegExpLiteral{},
	ast.ArrayExpression{}, ast.ObjectExpression{}, ast.FunctionExpression{}, ast.FunctionDeclaration{}, ast.ClassExpression{}, ast.ClassDeclaration{},
	ast.MethodDefinition{}, ast.BlockStatement{}, ast.EmptyStatement{}, ast.ExpressionStatement{}, ast.VariableDeclaration{}, ast.ContinueStatement{},
	ast.BreakStatement{}, ast.ReturnStatement{}, ast.ThrowStatement{}, ast.IfStatement{}, ast.WhileStatement{}, ast.DoWhileStatement{}, ast.ForStatement{},
	ast.ForInStatement{}, ast.ForOfStatement{}, ast.SwitchStatement{}, ast.LabeledStatement{}, ast.TryStatement{}, ast.CatchClause{},
	ast.ScriptNode{}, ast.ModuleNode{}, ast.ImportDeclNode{},
}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

func anyOf(r *rand.Rand, table interface{}) reflect.Value {
	ks := reflect.ValueOf(table).MapKeys()
	min := ks[0]
	for _, k := range ks {
		if k.Int() < min.Int() {
			min = k
		}
	}
	v := reflect.New(min.Type()).Elem()
	v.SetInt(min.Int() + int64(r.Intn(len(ks))))
	return v
}

func fill(r *rand.Rand, v reflect.Value, d int) {
	switch v.Interface().(type) {
	case ast.BaseNode:
		if *prop == "C20" {
			v.Addr().Interface().(*ast.BaseNode).SetEnd(ast.Location{Row: 1 + r.Intn(5), Column: 1})
		}
		return
	case ast.BindingPattern:
		if d < -3 {
			v.FieldByName("Identifier").SetString("p")
			return
		}
		switch r.Intn(5) {
		case 0:
			fill(r, v.FieldByName("ObjectPattern"), d-1)
		case 1:
			fill(r, v.FieldByName("ArrayPattern"), d-1)
		case 2:
		default:
			fill(r, v.FieldByName("Identifier"), d)
		}
		return
	case ast.UnaryOperator:
		v.Set(anyOf(r, unaryText))
		return
	case ast.BinaryOperator:
		v.Set(anyOf(r, binText))
		return
	case ast.AssignmentOperator:
		v.Set(anyOf(r, assignText))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString([]string{"a", "b", "constructor", "use strict", "", "x1"}[r.Intn(6)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float64:
		v.SetFloat(float64(r.Intn(9)))
	case reflect.Interface:
		if v.Type() != nodeType || r.Intn(6) == 0 {
			return
		}
		k := nodeKinds[r.Intn(len(nodeKinds))]
		if d <= 0 {
			k = nodeKinds[11]
		}
		v.Set(randomNode(r, k, d-1))
	case reflect.Ptr:
		if r.Intn(4) == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(r, v.Elem(), d)
	case reflect.Slice:
		n := r.Intn(4)
		if n == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(r, v.Index(i), d-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && !(f.Name == "Expression" && f.Type.Kind() == reflect.Bool) {
				fill(r, v.Field(i), d)
			}
		}
	default:
		if k := v.Kind(); k >= reflect.Int && k <= reflect.Uint64 {
			// small enumerations
			if t, ok := enums[v.Type().Name()]; ok {
				if v.CanInt() {
					v.SetInt(t[r.Intn(len(t))])
				}
			}
		}
	}
}

var enums = map[string][]int64{
	"UpdateOperator": {int64(ast.UpdatePreIncrementOp), int64(ast.UpdatePostIncrementOp), int64(ast.UpdatePreDecrementOp), int64(ast.UpdatePostDecrementOp)},
	"PropertyKind":   {int64(ast.InitProperty), int64(ast.GetProperty), int64(ast.SetProperty)},
	"MethodKind":     {int64(ast.Method), int64(ast.GetMethod), int64(ast.SetMethod)},
	"VarKind":        {int64(ast.VarDeclaration), int64(ast.LetDeclaration), int64(ast.ConstDeclaration)},
}

func randomNode(r *rand.Rand, k ast.Node, d int) reflect.Value {
	t := reflect.TypeOf(k)
	if t.Kind() == reflect.Ptr {
		p := reflect.New(t.Elem())
		fill(r, p.Elem(), d)
		return p
	}
	v := reflect.New(t).Elem()
	fill(r, v, d)
	return v
}

// nodeOne compares the ESTree form of the n-th random node.
func nodeOne(n int64) {
	r := rand.New(rand.NewSource(n))
	k := nodeKinds[int(uint64(n)%uint64(len(nodeKinds)))]
	x := randomNode(r, k, int(uint64(n)/uint64(len(nodeKinds))%3)).Interface().(ast.Node)
	var want interface{}
	bad := func() (bad bool) {
		defer func() { bad = recover() != nil }()
		want = esTree(x)
		return
	}()
	if bad {
		return
	}
	b, _ := json.Marshal(x)
	in := reflect.TypeOf(x).String() + " " + string(b)
	mode := "node " + strconv.FormatInt(n, 10)
	begin(in, mode)
	es, pan := esOf(x)
	if pan != nil {
		found(in, mode, "conversion panics: %v", pan)
	}
	if at, ok := sameES(es, want); !ok {
		found(in, mode, "the ESTree form differs at %s", at)
	}
}
