package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
)

// look writes a value without spans, and counts the spans that are set: those
// that can be reset in place.
func look(v reflect.Value, addr bool, b *strings.Builder, left *[]string, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil ")
			return
		}
		b.WriteString("&")
		look(v.Elem(), true, b, left, path)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil ")
			return
		}
		fmt.Fprintf(b, "<%s>", v.Elem().Type())
		look(v.Elem(), addr, b, left, path)
	case reflect.Slice:
		fmt.Fprintf(b, "[%d %v ", v.Len(), v.IsNil())
		for i := 0; i < v.Len(); i++ {
			look(v.Index(i), true, b, left, path+"["+strconv.Itoa(i)+"]")
		}
		b.WriteString("] ")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			look(v.Index(i), addr, b, left, path+"["+strconv.Itoa(i)+"]")
		}
	case reflect.Struct:
		if x, ok := v.Interface().(ast.BaseNode); ok {
			if addr && x.Span() != (ast.Span{}) {
				*left = append(*left, path)
			}
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				look(v.Field(i), addr, b, left, path+"."+f.Name)
			}
		}
		b.WriteString("} ")
	default:
		fmt.Fprintf(b, "%#v ", v.Interface())
	}
}

func spansCheck(n ast.Node, in, mode string) {
	var before, after strings.Builder
	var left []string
	look(reflect.ValueOf(n), false, &before, &left, "root")
	left = nil
	pan := func() (x interface{}) {
		defer func() { x = recover() }()
		ast.ClearSpans(n)
		return
	}()
	if pan != nil {
		found(in, mode, "clearing the spans panics: %v", pan)
	}
	look(reflect.ValueOf(n), false, &after, &left, "root")
	if len(left) > 0 {
		found(in, mode, "%d spans are left, the first in %s", len(left), left[0])
	}
	if before.String() != after.String() {
		found(in, mode, "clearing the spans changes the tree")
	}
}

func spansParse(input, mode string) {
	begin(input, mode)
	o := runParser(strings.NewReader(input), mode)
	if o.err != nil || o.pan != nil || mode == "expression" {
		return
	}
	spansCheck(o.node, input, mode)
}

// spansNode is for the n-th random node, in a list.
func spansNode(n int64) {
	r := rand.New(rand.NewSource(n))
	k := nodeKinds[int(uint64(n)%uint64(len(nodeKinds)))]
	x := randomNode(r, k, int(uint64(n)/uint64(len(nodeKinds))%3)).Interface().(ast.Node)
	in, mode := reflect.TypeOf(x).String(), "node "+strconv.FormatInt(n, 10)
	begin(in, mode)
	spansCheck(ast.ScriptNode{Body: []ast.Node{x}}, in, mode)
}
