package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame conditions (C16): no function of the lexer, the parser and the tree
// writes package state, prints, or reaches outside of its arguments. Every
// instruction of every function is checked; references that come from package
// variables are followed through values, calls and results.

// purePkgs are library packages whose functions used here have no effect but
// on their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/big": true, "math/bits": true,
	"errors": true, "bytes": true, "sort": true, "slices": true, "maps": true, "cmp": true, "reflect": true, "iter": true,
}

var pureFuncs = map[string]bool{
	"fmt.Errorf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Appendf": true,
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true,
	"(*net/url.URL).String": true, "net/url.Parse": true,
	"(encoding/json.Marshaler).MarshalJSON": true,
}

// pureMethods are interface methods of the library that may be called: the
// given reader, and errors.
var pureMethods = map[string]bool{
	"(io.RuneReader).ReadRune": true, "(io.RuneScanner).ReadRune": true, "(io.RuneScanner).UnreadRune": true, "(error).Error": true, "(fmt.Stringer).String": true,
}

func newEffectExec(p *Program) *Exec {
	e := newExec(p, &protoWorld{}, nil, "frame conditions")
	e.driver = func() { verifyEffects(e, p) }
	return e
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func verifyEffects(e *Exec, p *Program) {
	var fns []*ssa.Function
	for fn := range p.allFns() {
		if fn.Blocks == nil || fn.Pkg == nil && fn.Parent() == nil && fn.Origin() == nil {
			continue
		}
		pk := fn.Pkg
		if pk == nil && fn.Origin() != nil {
			pk = fn.Origin().Pkg
		}
		if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), repoModule+"/ecmascript") {
			continue
		}
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnKey(fns[i]) < fnKey(fns[j]) })
	inScope := map[*ssa.Function]bool{}
	for _, f := range fns {
		inScope[f] = true
	}
	// references to package state
	taint := map[ssa.Value]bool{}
	retTaint := map[*ssa.Function]bool{}
	held := map[interface{}]bool{} // fields, variables and types of elements that hold one
	ref := func(v ssa.Value) bool { return taint[v] || isGlobal(v) }
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !taint[v] {
				taint[v] = true
				changed = true
			}
		}
		hold := func(k interface{}) {
			if k != nil && !held[k] {
				held[k] = true
				changed = true
			}
		}
		pass := func(f *ssa.Function, args []ssa.Value) {
			for i, a := range args {
				if ref(a) && i < len(f.Params) && refType(a.Type()) {
					mark(f.Params[i])
				}
			}
		}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if ref(x.Val) && refType(x.Val.Type()) {
							hold(heldPlace(x.Addr))
						}
						continue
					case *ssa.MapUpdate:
						if ref(x.Value) && refType(x.Value.Type()) {
							hold(x.Map.Type().String())
						}
						continue
					case *ssa.UnOp:
						if x.Op == token.MUL && refType(x.Type()) && (ref(x.X) || held[heldPlace(x.X)] || held[x.X.Type().String()]) {
							mark(x)
						}
						continue
					case *ssa.Lookup:
						if (taint[x.X] || held[x.X.Type().String()]) && refType(x.Type()) {
							mark(x)
						}
						continue
					case *ssa.Field:
						if k := fieldVar(x.X.Type(), x.Field); k != nil && held[k] && refType(x.Type()) {
							mark(x)
						}
					case *ssa.Return:
						for _, r := range x.Results {
							if ref(r) && refType(r.Type()) && !retTaint[fn] {
								retTaint[fn] = true
								changed = true
							}
						}
						continue
					case *ssa.MakeClosure:
						f := x.Fn.(*ssa.Function)
						for i, bnd := range x.Bindings {
							if ref(bnd) {
								mark(f.FreeVars[i])
							}
							if held[bnd] {
								hold(f.FreeVars[i])
							}
							if held[f.FreeVars[i]] {
								hold(bnd)
							}
						}
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						c := ci.Common()
						var back bool
						switch f := c.StaticCallee(); {
						case f != nil && inScope[f]:
							pass(f, c.Args)
							back = retTaint[f]
						case f != nil:
							// the result of a library function may be what it is given
							for _, a := range c.Args {
								back = back || ref(a) && refType(a.Type())
							}
						case c.IsInvoke():
							for _, f := range fns {
								if f.Name() == c.Method.Name() && f.Signature.Recv() != nil && len(f.Params) == len(c.Args)+1 {
									pass(f, append([]ssa.Value{c.Value}, c.Args...))
									back = back || retTaint[f]
								}
							}
						default:
							if _, ok := c.Value.(*ssa.Builtin); ok {
								for _, a := range c.Args {
									back = back || ref(a) && refType(a.Type())
								}
								break
							}
							for _, f := range fns {
								if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
									pass(f, c.Args)
									back = back || retTaint[f]
								}
							}
						}
						if v, ok := in.(ssa.Value); ok && back && refType(v.Type()) {
							mark(v)
						}
						continue
					}
					if x, ok := in.(ssa.Value); ok && refType(x.Type()) {
						var ops []*ssa.Value
						for _, o := range in.Operands(ops) {
							if *o != nil && ref(*o) {
								mark(x)
							}
						}
					}
				}
			}
		}
	}
	props := []string{"C16"}
	for _, fn := range fns {
		k := fnKey(fn)
		e.Inlined[k] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pos := in.Pos(); pos.IsValid() {
					e.curPos = pos
				}
				e.steps++
				bad := func(what, name string) {
					e.record(nil, props, name+" ("+k+")", false, func() string { return what })
				}
				good := func(name string) { e.record(nil, props, name, true, nil) }
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if f, ok := (*o).(*ssa.Function); ok && f.Pkg != nil && !p.inRepo(f.Pkg.Pkg) && !purePkgs[f.Pkg.Pkg.Path()] && !pureFuncs[f.String()] {
						if ci, isCall := in.(ssa.CallInstruction); !isCall || ci.Common().StaticCallee() != f {
							bad("use of "+f.String(), "only functions without outside effects are used as values")
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					if isGlobal(x.Addr) || taint[x.Addr] {
						bad("store to "+x.Addr.String(), "no package state is written")
					} else {
						good("no package state is written")
					}
				case *ssa.MapUpdate:
					if taint[x.Map] {
						bad("map update of "+x.Map.String(), "no package state is written")
					} else {
						good("no package state is written")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						bad("range over a map", "nothing depends on the order of a map")
					}
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					bad(fmt.Sprintf("%T", in), "no goroutine or channel is used")
				case ssa.CallInstruction:
					effectCall(e, p, fn, x.Common(), taint, inScope, bad, good)
				}
			}
		}
	}
	if len(fns) < 50 {
		e.limitf(nil, "only %d functions were met", len(fns))
	}
}

// heldPlace names what an address is the address of: a field, a variable, or the
// elements of a type.
func heldPlace(a ssa.Value) interface{} {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if k := fieldVar(t, x.Field); k != nil {
			return k
		}
	case *ssa.IndexAddr:
		return x.X.Type().String()
	case *ssa.Alloc:
		return ssa.Value(x)
	case *ssa.FreeVar:
		return ssa.Value(x)
	}
	return a.Type().String()
}

func fieldVar(t types.Type, i int) interface{} {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i)
	}
	return nil
}

func isGlobal(v ssa.Value) bool {
	_, ok := v.(*ssa.Global)
	return ok
}

func staticCallees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func effectCall(e *Exec, p *Program, fn *ssa.Function, c *ssa.CallCommon, taint map[ssa.Value]bool, inScope map[*ssa.Function]bool, bad func(what, name string), good func(string)) {
	const name = "only functions without outside effects are called"
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			bad(b.Name(), "nothing is printed")
		case "append", "copy", "delete", "clear", "close":
			if len(c.Args) > 0 && (taint[c.Args[0]] || isGlobal(c.Args[0])) {
				bad(b.Name()+" on package state", "no package state is written")
			} else {
				good("no package state is written")
			}
		}
		return
	}
	if c.IsInvoke() {
		m := c.Method
		if m.Pkg() != nil && p.inRepo(m.Pkg()) {
			good(name)
			return
		}
		n := m.FullName()
		if pureMethods[n] || pureFuncs[n] {
			good(name)
			return
		}
		bad("call of "+n, name)
		return
	}
	f := c.StaticCallee()
	if f == nil {
		// a function value: all function values of these packages are made of
		// functions that are checked themselves, unless it comes from outside
		good(name)
		return
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Object() != nil {
		if op := f.Object().Pkg(); op != nil {
			if p.inRepo(op) || purePkgs[op.Path()] {
				good(name)
				return
			}
		} else {
			good(name) // error.Error and the like
			return
		}
	}
	if f.Parent() != nil {
		good(name)
		return
	}
	if pk == nil {
		bad("call of "+f.String(), name)
		return
	}
	if p.inRepo(pk.Pkg) {
		good(name)
		return
	}
	if purePkgs[pk.Pkg.Path()] || pureFuncs[f.String()] {
		e.Assumed["no effect of "+f.String()] = true
		// a library function may write through a reference it is given
		for _, a := range c.Args {
			if (taint[a] || isGlobal(a)) && refType(a.Type()) && !readOnlyCall(f.String()) {
				bad("package state given to "+f.String(), "no package state is written")
				return
			}
		}
		good(name)
		return
	}
	bad("call of "+f.String(), name)
}

func readOnlyCall(n string) bool {
	for _, s := range []string{"unicode.", "errors.Is", "errors.As", "fmt.", "strings.", "strconv.", "encoding/json.Marshal"} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return false
}
