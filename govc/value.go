package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

// StructV is a struct (or array) value.
type StructV struct {
	T types.Type
	F []Val
}

// PtrV points into a heap cell.
type PtrV struct {
	Cell int
	Path []int
}

// ElemPtr points to an element of a slice value.
type ElemPtr struct {
	L   *ListV
	Idx *Term
}

// NilV is the nil pointer, interface, func or map.
type NilV struct{}

// SymPtr is an unknown pointer to an immutable value.
type SymPtr struct {
	T    types.Type // element type
	Term *Term
}

// IfaceV is an interface holding a value of a known type.
type IfaceV struct {
	T types.Type
	V Val
}

// SymIface is an unknown interface value; dyn(Term) is the number of its
// dynamic type, zero for nil.
type SymIface struct{ Term *Term }

// Atom is a part of a list: one element, or a run of elements of another list.
type Atom struct {
	E      Val
	Base   *Term
	Lo, Hi *Term
	F      string     // relation applied to each element ("" for identity)
	Src    types.Type // element type of Base
}

// ListV is a slice or string value as a concatenation of atoms.
type ListV struct {
	Atoms []Atom
	Elem  types.Type
	Str   bool
	IsNil bool
	NilT  *Term // when non-nil, the condition under which the slice is nil
}

// FuncV is a function value.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}

// MapV is a map with known contents.
type MapV struct {
	Keys   []*Term
	Vals   []Val
	Global string
	Elem   types.Type
}

// TupleV is a multiple result.
type TupleV []Val

// OpaqueV is a value the engine knows nothing about but its name.
type OpaqueV struct{ Term *Term }

// IterV is the state of a range over a string or map.
type IterV struct {
	L   *ListV
	Pos *Term // index of the next rune
	Src Val
}

// ArrV is the mutable backing array of a made slice: the elements written so
// far as a prefix, the rest is zero. Len is its length.
type ArrV struct {
	Pre *ListV
	Len *Term
}

// ArrSlice is a slice of a made array, from 0 to Hi (nil: its length).
type ArrSlice struct {
	Cell int
	Hi   *Term
}

// ArrElemPtr points to an element of a made array.
type ArrElemPtr struct {
	Cell int
	Idx  *Term
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		}
	}
	return SU
}

func mkNamed(name string, s Sort, args []*Term) *Term {
	if len(args) == 0 {
		return mkSym(name, s)
	}
	return mkApp(name, s, args...)
}

// symval makes an unknown value of type t called name(args).
func symval(t types.Type, name string, args ...*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return mkNamed(name, sortOf(t), args)
	case *types.Interface:
		return &SymIface{mkNamed(name, SU, args)}
	case *types.Pointer:
		return &SymPtr{u.Elem(), mkNamed(name, SU, args)}
	case *types.Slice:
		b := mkNamed(name, SU, args)
		return symList(b, u.Elem())
	case *types.Struct:
		s := &StructV{T: t, F: make([]Val, u.NumFields())}
		if name == "elt" && len(args) == 2 && args[0].Op == OApp && len(args[0].Args) == len(s.F) && args[0].Name == zipName(t) {
			for i := range s.F {
				s.F[i] = elemOf(args[0].Args[i], args[1], u.Field(i).Type())
			}
			return s
		}
		for i := range s.F {
			s.F[i] = symval(u.Field(i).Type(), name+"."+u.Field(i).Name(), args...)
		}
		return s
	case *types.Array:
		s := &StructV{T: t, F: make([]Val, u.Len())}
		for i := range s.F {
			s.F[i] = symval(u.Elem(), fmt.Sprintf("%s.%d", name, i), args...)
		}
		return s
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symval(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), args...))
		}
		return tv
	}
	return &OpaqueV{mkNamed(name, SU, args)}
}

func listLen(b *Term) *Term { return mkApp("len", SInt, b) }

func symList(b *Term, elem types.Type) *ListV {
	return &ListV{Atoms: []Atom{{Base: b, Lo: mkInt(0), Hi: listLen(b), Src: elem}}, Elem: elem, NilT: mkApp("isnil", SBool, b)}
}

// elemOf is element i of list b.
func elemOf(b, i *Term, t types.Type) Val { return symval(t, "elt", b, i) }

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return tFalse
		case SInt:
			return mkInt(0)
		case SStr:
			return mkStr("")
		}
		return mkApp("float0", SU)
	case *types.Slice:
		return &ListV{Elem: u.Elem(), IsNil: true}
	case *types.Struct:
		s := &StructV{T: t, F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := &StructV{T: t, F: make([]Val, u.Len())}
		for i := range s.F {
			s.F[i] = zeroVal(u.Elem())
		}
		return s
	}
	return &NilV{}
}

// lenOf is the length of a list.
func (l *ListV) lenOf() *Term {
	n := mkInt(0)
	for _, a := range l.Atoms {
		if a.Base != nil {
			n = mkAdd(n, mkSub(a.Hi, a.Lo))
			if a.F == "utf16" {
				n = mkAdd(n, mkSub(aOf(a.Hi), aOf(a.Lo)))
			}
		} else {
			n = mkPlus(n, 1)
		}
	}
	return n
}

func (l *ListV) with(atoms []Atom) *ListV {
	return &ListV{Atoms: atoms, Elem: l.Elem, Str: l.Str}
}

// isElt recognises v as element i of a list: elt(b, i).
func isElt(v Val) (b, i *Term, ok bool) {
	var t *Term
	switch x := v.(type) {
	case *Term:
		t = x
	case *SymIface:
		t = x.Term
	case *SymPtr:
		t = x.Term
	case *StructV:
		// struct element: every field is elt.f(b, i)
		if len(x.F) == 0 {
			return nil, nil, false
		}
		want := ""
		b, i, want = structElt(x)
		if b == nil || want != "elt" {
			return zipElt(x)
		}
		return b, i, true
	default:
		return nil, nil, false
	}
	if t.Op == OApp && t.Name == "elt" && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// zipElt recognises a struct whose fields are element i of one sequence each:
// it is element i of those sequences taken together.
func zipElt(x *StructV) (b, i *Term, ok bool) {
	var bs []*Term
	for _, f := range x.F {
		fb, fi, ok := isElt(f)
		if !ok || (i != nil && fi != i) {
			return nil, nil, false
		}
		i = fi
		bs = append(bs, fb)
	}
	if len(bs) < 2 {
		return nil, nil, false
	}
	return mkApp(zipName(x.T), SU, bs...), i, true
}

func zipName(t types.Type) string { return "zip:" + t.String() }

// structElt recognises a struct all of whose fields are fields of one opaque
// struct name(args), and returns its arguments and name.
func structElt(x *StructV) (b, i *Term, name string) {
	o := opaqueBase(x)
	if o == nil || len(o.Args) != 2 {
		return nil, nil, ""
	}
	return o.Args[0], o.Args[1], o.Name
}

// opaqueBase returns a term name(args) such that x == symval(x.T, name, args),
// or nil.
func opaqueBase(x *StructV) *Term {
	u, ok := x.T.Underlying().(*types.Struct)
	if !ok || len(x.F) == 0 {
		return nil
	}
	var fst *Term
	switch f := x.F[0].(type) {
	case *Term:
		fst = f
	case *SymIface:
		fst = f.Term
	case *SymPtr:
		fst = f.Term
	case *ListV:
		if len(f.Atoms) == 1 && f.Atoms[0].Base != nil {
			fst = f.Atoms[0].Base
		}
	case *StructV:
		if fb := opaqueBase(f); fb != nil {
			fst = fb
		}
	}
	if fst == nil || (fst.Op != OApp && fst.Op != OSym) {
		return nil
	}
	suf := "." + u.Field(0).Name()
	if !strings.HasSuffix(fst.Name, suf) {
		return nil
	}
	name := strings.TrimSuffix(fst.Name, suf)
	y := symval(x.T, name, fst.Args...).(*StructV)
	for i := range x.F {
		if !same(x.F[i], y.F[i]) {
			return nil
		}
	}
	return mkNamed(name, SU, fst.Args)
}

// normalise a list: drop empty runs, merge neighbours.
func normAtoms(p *PC, as []Atom) []Atom {
	var out []Atom
	for _, a := range as {
		if a.Base != nil {
			if a.Lo == a.Hi {
				continue
			}
		} else if a.F == "" {
			if b, i, ok := isElt(a.E); ok {
				a = Atom{Base: b, Lo: i, Hi: mkPlus(i, 1), Src: typeOfVal(a.E)}
			}
		}
		if n := len(out); n > 0 && a.Base != nil && out[n-1].Base == a.Base && out[n-1].F == a.F && out[n-1].Hi == a.Lo {
			o := out[n-1]
			o.Hi = a.Hi
			if o.Src == nil {
				o.Src = a.Src
			}
			out[n-1] = o
			continue
		}
		out = append(out, a)
	}
	return out
}

func typeOfVal(v Val) types.Type {
	switch x := v.(type) {
	case *StructV:
		return x.T
	}
	return nil
}

func appendLists(a, b *ListV) *ListV {
	if len(b.Atoms) == 0 {
		return a
	}
	r := a.with(normAtoms(nil, append(append([]Atom{}, a.Atoms...), b.Atoms...)))
	return r
}

// asList views a string or slice value as a list.
func asList(v Val) *ListV {
	switch x := v.(type) {
	case *ListV:
		return x
	case *Term:
		if x.Sort == SStr {
			if x.isConst() {
				l := &ListV{Str: true}
				for _, r := range x.Name {
					l.Atoms = append(l.Atoms, Atom{E: mkInt(int64(r))})
				}
				return l
			}
			if x.Op == OApp && x.Name == "strof" && len(x.Args) == 1 {
				return &ListV{Str: true, Atoms: []Atom{{Base: x.Args[0], Lo: mkInt(0), Hi: listLen(x.Args[0])}}}
			}
			return &ListV{Str: true, Atoms: []Atom{{Base: x, Lo: mkInt(0), Hi: listLen(x)}}}
		}
	}
	return nil
}

// strTerm folds a string list back into a term.
func strTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *ListV:
		all := true
		var b strings.Builder
		for _, a := range x.Atoms {
			c, ok := a.E.(*Term)
			if !ok || !c.isConst() {
				all = false
				break
			}
			b.WriteRune(rune(c.N))
		}
		if all {
			return mkStr(b.String())
		}
		if len(x.Atoms) == 1 {
			a := x.Atoms[0]
			if a.Base != nil && a.Base.Sort == SStr && a.Lo == mkInt(0) && a.Hi == listLen(a.Base) && a.F == "" {
				return a.Base
			}
		}
		var args []*Term
		name := "cat"
		for _, a := range x.Atoms {
			if a.Base != nil {
				name += "/sub" + a.F
				args = append(args, a.Base, a.Lo, a.Hi)
			} else if c, ok := a.E.(*Term); ok {
				name += "/e"
				args = append(args, c)
			} else {
				name += "/?"
			}
		}
		return mkApp(name, SStr, args...)
	}
	return nil
}

func isBaseNode(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "BaseNode"
}

// same reports structural identity, ignoring source spans.
func same(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if ok {
			return x == y
		}
		if l, ok := b.(*ListV); ok && x.Sort == SStr {
			return strTerm(l) == x
		}
		return false
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) || !types.Identical(x.T, y.T) {
			return false
		}
		u, _ := x.T.Underlying().(*types.Struct)
		for i := range x.F {
			if u != nil && isBaseNode(u.Field(i).Type()) {
				continue
			}
			if !same(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Cell != y.Cell || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *NilV:
		_, ok := b.(*NilV)
		return ok
	case *SymPtr:
		y, ok := b.(*SymPtr)
		return ok && x.Term == y.Term
	case *SymIface:
		y, ok := b.(*SymIface)
		return ok && x.Term == y.Term
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return ok && x.Term == y.Term
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && same(x.V, y.V)
	case *ListV:
		y, ok := b.(*ListV)
		if !ok {
			if t, ok := b.(*Term); ok && t.Sort == SStr {
				return strTerm(x) == t
			}
			return false
		}
		if len(x.Atoms) != len(y.Atoms) {
			return false
		}
		for i := range x.Atoms {
			p, q := x.Atoms[i], y.Atoms[i]
			if (p.Base == nil) != (q.Base == nil) || p.F != q.F {
				return false
			}
			if p.Base != nil {
				if p.Base != q.Base || p.Lo != q.Lo || p.Hi != q.Hi {
					return false
				}
			} else if !same(p.E, q.E) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !same(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *MapV:
		return false
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case *ElemPtr:
		y, ok := b.(*ElemPtr)
		return ok && x.Idx == y.Idx && same(x.L, y.L)
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Pos == y.Pos && same(x.L, y.L)
	case *ArrSlice:
		y, ok := b.(*ArrSlice)
		return ok && x.Cell == y.Cell && x.Hi == y.Hi
	case *ArrElemPtr:
		y, ok := b.(*ArrElemPtr)
		return ok && x.Cell == y.Cell && x.Idx == y.Idx
	}
	return false
}

// mapTerms rewrites every term in a value.
func mapTerms(v Val, f func(*Term) *Term) Val {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *StructV:
		n := &StructV{T: x.T, F: make([]Val, len(x.F))}
		for i := range x.F {
			n.F[i] = mapTerms(x.F[i], f)
		}
		return n
	case *SymPtr:
		return &SymPtr{x.T, f(x.Term)}
	case *SymIface:
		return &SymIface{f(x.Term)}
	case *OpaqueV:
		return &OpaqueV{f(x.Term)}
	case *IfaceV:
		return &IfaceV{x.T, mapTerms(x.V, f)}
	case *ListV:
		n := &ListV{Elem: x.Elem, Str: x.Str, IsNil: x.IsNil, Atoms: mapAtoms(x.Atoms, f)}
		if x.NilT != nil {
			n.NilT = f(x.NilT)
		}
		return n
	case *FuncV:
		if len(x.Bind) == 0 {
			return x
		}
		n := &FuncV{Fn: x.Fn, Bind: make([]Val, len(x.Bind))}
		for i := range x.Bind {
			n.Bind[i] = mapTerms(x.Bind[i], f)
		}
		return n
	case TupleV:
		n := make(TupleV, len(x))
		for i := range x {
			n[i] = mapTerms(x[i], f)
		}
		return n
	case *ElemPtr:
		return &ElemPtr{mapTerms(x.L, f).(*ListV), f(x.Idx)}
	case *FieldPtr:
		return &FieldPtr{mapTerms(x.P, f).(*SymPtr), x.F}
	case *FieldPtr2:
		return &FieldPtr2{mapTerms(x.P, f).(*FieldPtr), x.F}
	case *ElemFieldPtr:
		return &ElemFieldPtr{mapTerms(x.P, f).(*ElemPtr), x.Path}
	case *IterV:
		n := &IterV{Pos: f(x.Pos), Src: mapTerms(x.Src, f)}
		if x.L != nil {
			n.L = mapTerms(x.L, f).(*ListV)
		}
		return n
	case *ArrV:
		return &ArrV{mapTerms(x.Pre, f).(*ListV), f(x.Len)}
	case *ArrSlice:
		n := *x
		if x.Hi != nil {
			n.Hi = f(x.Hi)
		}
		return &n
	case *ArrElemPtr:
		return &ArrElemPtr{x.Cell, f(x.Idx)}
	}
	return v
}

func mapAtoms(as []Atom, f func(*Term) *Term) []Atom {
	out := make([]Atom, len(as))
	for i, a := range as {
		if a.Base != nil {
			a.Base, a.Lo, a.Hi = f(a.Base), f(a.Lo), f(a.Hi)
		} else {
			a.E = mapTerms(a.E, f)
		}
		out[i] = a
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func valString(v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case *Term:
		return x.String()
	case *StructV:
		var b strings.Builder
		b.WriteString(typeName(x.T) + "{")
		u, _ := x.T.Underlying().(*types.Struct)
		first := true
		for i := range x.F {
			if u != nil && isBaseNode(u.Field(i).Type()) {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			if u != nil {
				b.WriteString(u.Field(i).Name() + ":")
			}
			b.WriteString(valString(x.F[i]))
		}
		return b.String() + "}"
	case *PtrV:
		return fmt.Sprintf("&%d%v", x.Cell, x.Path)
	case *NilV:
		return "nil"
	case *SymPtr:
		return "*" + x.Term.String()
	case *SymIface:
		return x.Term.String()
	case *OpaqueV:
		return "?" + x.Term.String()
	case *IfaceV:
		return "(" + valString(x.V) + ":" + typeName(x.T) + ")"
	case *ListV:
		if x.IsNil && len(x.Atoms) == 0 {
			return "nil[]"
		}
		return atomsString(x.Atoms)
	case *FuncV:
		s := x.Fn.String()
		for _, b := range x.Bind {
			s += "," + valString(b)
		}
		return "func(" + s + ")"
	case *MapV:
		return "map:" + x.Global
	case TupleV:
		var s []string
		for _, e := range x {
			s = append(s, valString(e))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *ElemPtr:
		return "&" + valString(x.L) + "[" + x.Idx.String() + "]"
	case *FieldPtr:
		return fmt.Sprintf("&%s.%d", valString(x.P), x.F)
	case *FieldPtr2:
		return fmt.Sprintf("%s.%d", valString(x.P), x.F)
	case *ElemFieldPtr:
		return fmt.Sprintf("%s.%v", valString(x.P), x.Path)
	case *IterV:
		return "iter(" + valString(x.L) + "," + x.Pos.String() + ")"
	case *ArrV:
		return "arr(" + valString(x.Pre) + ";" + x.Len.String() + ")"
	case *ArrSlice:
		return fmt.Sprintf("arr%d[:%v]", x.Cell, x.Hi)
	case *ArrElemPtr:
		return fmt.Sprintf("&arr%d[%v]", x.Cell, x.Idx)
	}
	return fmt.Sprintf("%T", v)
}

func atomsString(as []Atom) string {
	var s []string
	for _, a := range as {
		if a.Base != nil {
			f := a.F
			if f != "" {
				f += ":"
			}
			s = append(s, fmt.Sprintf("%s%s[%s..%s)", f, a.Base, a.Lo, a.Hi))
		} else {
			s = append(s, valString(a.E))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// ---- dynamic type numbers ----

var (
	typeIDs   = map[string]int64{}
	typeByID  = map[int64]types.Type{}
	nodeTypes []types.Type // concrete types implementing ast.Node
)

func typeID(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	typeByID[id] = t
	return id
}

func dynTerm(t *Term) *Term { return mkApp("dyn", SInt, t) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
