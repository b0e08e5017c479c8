package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// spanWorld verifies clearSpans, for every type of value there is in a tree.
//
// A reflect.Value is a place: a term that tells how it was reached from the
// argument. The contract of clearSpans, also for its recursive calls: whatever
// can be reached from the place through fields, elements, pointers and
// interfaces has its span reset, as far as it can be changed from there, and
// nothing else changes. So at the end every part that may hold spans has to be
// cleared: spans themselves by having been reset, and other parts by a call.
type spanWorld struct {
	p     *Program
	pkg   *types.Package
	base  types.Type // BaseNode
	node  types.Type
	root  *place
	what  string
	calls bool // the unit is ClearSpans itself
	holds map[types.Type]bool
	rec   *ssa.Function
}

// place is a location in the tree, a copy of a part of it, or no value.
type place struct {
	t     *Term
	T     types.Type // nil for the zero Value
	dyn   types.Type // what an interface holds; nil for nothing
	known bool       // dyn is known
	addr  bool       // can be addressed
	ro    bool       // reached through an unexported field
	up    *place
	rel   string // field, index, elem, addr, new, zero
	idx   *Term
}

// places by term; the terms are shared, and so are the places.
var places = map[*Term]*place{}

func (w *spanWorld) mk(up *place, rel string, idx *Term, T types.Type, addr, ro bool) *place {
	args := []*Term{}
	name := "rv " + rel
	if up != nil {
		args = append(args, up.t)
	}
	if idx != nil {
		args = append(args, idx)
	}
	if T != nil && (up == nil || rel == "zero" || rel == "new") {
		name += " " + T.String()
	}
	name += fmt.Sprint(" ", addr, ro)
	t := mkApp(name, SU, args...)
	if p := places[t]; p != nil {
		return p
	}
	p := &place{t: t, T: T, addr: addr, ro: ro, up: up, rel: rel, idx: idx}
	places[t] = p
	return p
}

func placeOf(v Val) *place {
	switch x := v.(type) {
	case *OpaqueV:
		return places[x.Term]
	case *StructV:
		if x.T != nil && x.T.String() == "reflect.Value" {
			return places[invalidPlace]
		}
	}
	return nil
}

var invalidPlace *Term

func (p *place) val() Val { return &OpaqueV{p.t} }

type spanGhost struct {
	called map[*Term]bool // places clearSpans was called with
	list   *ListV         // the first elements of a list it was called with
	last   *ListV         // and the last
	of     *Term          // the list
	cells  map[*Term]int  // the memory of spans
	from   map[*Term]*Term
	fresh  map[*Term]bool // copies that are cleared
	set    map[*Term]bool // interfaces that hold a cleared copy of what they held
	n      int
}

func (g *spanGhost) Clone() Ghost {
	n := *g
	n.called, n.cells, n.from, n.fresh, n.set = map[*Term]bool{}, map[*Term]int{}, map[*Term]*Term{}, map[*Term]bool{}, map[*Term]bool{}
	for k, v := range g.called {
		n.called[k] = v
	}
	for k, v := range g.cells {
		n.cells[k] = v
	}
	for k, v := range g.from {
		n.from[k] = v
	}
	for k, v := range g.fresh {
		n.fresh[k] = v
	}
	for k, v := range g.set {
		n.set[k] = v
	}
	return &n
}

// The terms of places are not renamed: what is renamed in them are indices, and
// those are only kept in the list.
func (g *spanGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	if g.list != nil {
		g.list = vf(g.list).(*ListV)
		g.last = vf(g.last).(*ListV)
	}
}
func (g *spanGhost) Count(re func(Val) Val) Ghost {
	n := g.Clone().(*spanGhost)
	if g.list != nil {
		n.list = mapVal(g.list, re).(*ListV)
		n.last = mapVal(g.last, re).(*ListV)
	}
	return n
}
func (g *spanGhost) Visit(f func(Val)) {
	if g.list != nil {
		f(g.list)
		f(g.last)
	}
	for _, k := range sortedTerms(g.cells) {
		f(&PtrV{Cell: g.cells[k]})
	}
}
func (g *spanGhost) Key(vs func(Val) string) string {
	var ks []string
	for k := range g.called {
		ks = append(ks, "called "+k.String())
	}
	for k := range g.cells {
		ks = append(ks, "cell "+k.String()+" "+vs(&PtrV{Cell: g.cells[k]}))
	}
	for k, v := range g.from {
		ks = append(ks, "from "+k.String()+" "+v.String())
	}
	for k := range g.fresh {
		ks = append(ks, "cleared "+k.String())
	}
	for k := range g.set {
		ks = append(ks, "set "+k.String())
	}
	sort.Strings(ks)
	if g.list != nil {
		ks = append(ks, vs(g.list), vs(g.last))
	}
	return strings.Join(ks, "|")
}

func sortedTerms(m map[*Term]int) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

var pC20 = []string{"C20"}

func (w *spanWorld) gh(s *State) *spanGhost {
	n := s.g.Clone().(*spanGhost)
	s.g = n
	return n
}

// may tells whether a value of the type may hold spans.
func (w *spanWorld) may(t types.Type) bool {
	if r, ok := w.holds[t]; ok {
		return r
	}
	w.holds[t] = false
	r := false
	switch u := t.Underlying().(type) {
	case *types.Interface:
		r = true
	case *types.Pointer:
		r = w.may(u.Elem())
	case *types.Slice:
		r = w.may(u.Elem())
	case *types.Array:
		r = w.may(u.Elem())
	case *types.Map:
		r = w.may(u.Elem()) || w.may(u.Key())
	case *types.Struct:
		if types.Identical(t, w.base) {
			r = true
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && w.may(u.Field(i).Type()) {
				r = true
			}
		}
	}
	w.holds[t] = r
	return r
}

var reflectKinds = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
	types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func kindOf(t types.Type) int64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return reflectKinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return -1
}

func (w *spanWorld) isBase(p *place) bool { return p.T != nil && types.Identical(p.T, w.base) }

// cell is the memory of a node's span.
func (w *spanWorld) cell(s *State, p *place) int {
	g := w.gh(s)
	c, ok := g.cells[p.t]
	if !ok {
		c = s.alloc(symval(w.base, "span "+p.t.String()))
		g.cells[p.t] = c
	}
	return c
}

// nilTerm is the condition that the pointer, slice or interface is nil.
func (w *spanWorld) nilTerm(p *place) *Term {
	if kindOf(p.T) == 20 && p.known {
		return mkBool(p.dyn == nil)
	}
	return mkApp("rv nil", SBool, p.t)
}

func (w *spanWorld) length(p *place) *Term {
	if a, ok := p.T.Underlying().(*types.Array); ok {
		return mkInt(a.Len())
	}
	return listLen(p.t)
}

func (w *spanWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, pC20, "clearing spans does not panic", false, func() string { return valString(v) + " for " + w.what })
}

func (w *spanWorld) Unroll(n int64) bool { return true }

// Unwind: the fields of a struct are known one by one, and pointers lead down
// the type.
func (w *spanWorld) Unwind(n int64) bool {
	t := w.root.T
	for t != nil && kindOf(t) == 22 {
		t = t.Underlying().(*types.Pointer).Elem()
	}
	return kindOf(t) != 23 && n < 64
}

func (w *spanWorld) Header(e *Exec, s *State) []*State {
	clearDead(s)
	return []*State{s}
}

func (w *spanWorld) Progress(e *Exec, s *State) *Term {
	if g := s.g.(*spanGhost); g.list != nil && len(g.list.Atoms) == 1 {
		return mkAdd(g.list.Atoms[0].Hi, mkSub(w.length(places[g.of]), g.last.Atoms[0].Lo))
	}
	return nil
}

func (w *spanWorld) bad(e *Exec, s *State, name, detail string) {
	e.record(s, pC20, name, false, func() string { return detail + ", for " + w.what })
}

// begin starts counting the elements of a list that are cleared.
func (w *spanWorld) begin(g *spanGhost, p *place) {
	var el types.Type
	switch u := p.T.Underlying().(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Array:
		el = u.Elem()
	}
	g.of = p.t
	g.list = &ListV{Atoms: []Atom{{Base: p.t, Lo: mkInt(0), Hi: mkInt(0), F: "cleared", Src: el}}, Elem: el}
	g.last = g.list.with([]Atom{{Base: p.t, Lo: w.length(p), Hi: w.length(p), F: "cleared", Src: el}})
}

// clear is a call of clearSpans.
func (w *spanWorld) clear(e *Exec, s *State, p *place) {
	g := w.gh(s)
	switch {
	case p.T == nil:
		return
	case p.rel == "new":
		g.fresh[p.t] = true
		return
	}
	if p == w.root && !w.calls {
		w.bad(e, s, "recursive calls are for parts of the value", "a call for the value itself")
		return
	}
	if p.rel != "index" || p.idx.isConst() && kindOf(p.up.T) == 17 {
		g.called[p.t] = true
		return
	}
	if g.list == nil || g.of != p.up.t {
		w.begin(g, p.up)
	}
	a := g.list.Atoms[0]
	if s.pc.Entails(mkEq(p.idx, a.Hi)) {
		a.Hi = mkPlus(a.Hi, 1)
		g.list = g.list.with([]Atom{a})
	}
	b := g.last.Atoms[0]
	if s.pc.Entails(mkEq(mkPlus(p.idx, 1), b.Lo)) {
		b.Lo = mkPlus(b.Lo, -1)
		g.last = g.last.with([]Atom{b})
	}
}

// goal tells why a part is not cleared; "" if it is. Facts still open are
// returned as a condition.
func (w *spanWorld) goal(s *State, p *place) (string, *Term) {
	g := s.g.(*spanGhost)
	if g.called[p.t] || p.T == nil || !w.may(p.T) || p.ro {
		return "", tTrue
	}
	switch u := p.T.Underlying().(type) {
	case *types.Pointer:
		if s.pc.Entails(w.nilTerm(p)) {
			return "", tTrue
		}
		return w.goal(s, w.elem(p))
	case *types.Slice, *types.Array:
		if g.list == nil || g.of != p.t {
			return "", mkLe(w.length(p), mkInt(0))
		}
		return "", mkOr(mkGe(g.list.Atoms[0].Hi, w.length(p)), mkLe(g.last.Atoms[0].Lo, mkInt(0)))
	case *types.Interface:
		if s.pc.Entails(w.nilTerm(p)) {
			return "", tTrue
		}
		if !p.known {
			return "the content of " + w.path(p) + " is not cleared", tFalse
		}
		el := w.elem(p)
		done := g.called[el.t]
		for c, f := range g.from {
			if f == el.t && g.fresh[c] {
				done = true
			}
		}
		if kindOf(p.dyn) != 22 && p.addr && !g.set[p.t] {
			return "the spans of the " + p.dyn.String() + " in " + w.path(p) + " are not cleared", tFalse
		}
		if !done {
			return "the content of " + w.path(p) + " is not cleared", tFalse
		}
		return "", tTrue
	case *types.Struct:
		if w.isBase(p) {
			if !p.addr {
				return "", tTrue
			}
			c, ok := g.cells[p.t]
			if ok && same(s.heap[c], zeroVal(w.base)) {
				return "", tTrue
			}
			return "the span of " + w.path(p) + " is not reset", tFalse
		}
		for i := 0; i < u.NumFields(); i++ {
			if why, c := w.goal(s, w.field(p, i)); why != "" || c != tTrue {
				return why, c
			}
		}
		return "", tTrue
	}
	return "no way is known to clear " + w.path(p), tFalse
}

func (w *spanWorld) path(p *place) string {
	if p.up == nil {
		return "the value"
	}
	if p.rel == "field" {
		return w.path(p.up) + "." + p.up.T.Underlying().(*types.Struct).Field(int(p.idx.N)).Name()
	}
	return w.path(p.up) + " " + p.rel
}

func (w *spanWorld) field(p *place, i int) *place {
	f := p.T.Underlying().(*types.Struct).Field(i)
	return w.mk(p, "field", mkInt(int64(i)), f.Type(), p.addr, p.ro || !f.Exported())
}

// elem is what a pointer or interface that is not nil holds.
func (w *spanWorld) elem(p *place) *place {
	if pt, ok := p.T.Underlying().(*types.Pointer); ok {
		if p.rel == "addr" {
			return p.up
		}
		return w.mk(p, "elem", nil, pt.Elem(), true, p.ro)
	}
	if !p.known || p.dyn == nil {
		return nil
	}
	return w.mk(p, "elem", nil, p.dyn, false, p.ro)
}

func (w *spanWorld) Return(e *Exec, s *State, res Val) {
	g := s.g.(*spanGhost)
	if w.calls {
		ok := g.called[w.root.t] && len(g.called) == 1 || len(g.called) == 0 && s.pc.Entails(mkEq(dynTerm(w.root.t), mkInt(0)))
		e.record(s, pC20, "the whole tree is cleared", ok, func() string { return w.what })
		return
	}
	why, c := w.goal(s, w.root)
	if why != "" {
		w.bad(e, s, "every span that can be reached is reset", why)
	} else {
		e.oblige(s, pC20, "every span that can be reached is reset", c, "elements of "+w.what+" may be left out")
	}
	ok := true
	for t, k := range g.cells {
		if v := s.heap[k]; !same(v, zeroVal(w.base)) && !same(v, symval(w.base, "span "+t.String())) {
			ok = false
		}
	}
	e.record(s, pC20, "nothing but spans changes", ok, func() string { return "a span becomes something else, for " + w.what })
}

// The reflect.Type of a type is a constant, so that they can be compared.
var rtypes = map[*Term]types.Type{}

func rtypeOf(t types.Type) Val {
	c := mkStr("reflect.Type " + t.String())
	rtypes[c] = t
	return &SymIface{c}
}

func (w *spanWorld) typeOf(v Val) types.Type {
	if x, ok := v.(*SymIface); ok {
		return rtypes[x.Term]
	}
	return nil
}

func (w *spanWorld) NonNil(e *Exec, t *Term) bool { return rtypes[t] != nil }

func (w *spanWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	give := func(v Val) ([]*State, bool) {
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	}
	boolean := func(t *Term) ([]*State, bool) {
		y, n := e.branch(s, t)
		var outs []*State
		for i, o := range []*State{y, n} {
			if o != nil {
				e.setResult(o, c.dst, mkBool(i == 0))
				outs = append(outs, o)
			}
		}
		return outs, true
	}
	if c.fn == nil {
		if c.method == nil {
			return nil, false
		}
		t := w.typeOf(c.recv)
		if t == nil {
			return nil, false
		}
		switch c.method.Name() {
		case "Kind":
			return give(mkInt(kindOf(t)))
		case "NumField":
			if st, ok := t.Underlying().(*types.Struct); ok {
				return give(mkInt(int64(st.NumFields())))
			}
		case "Name", "String":
			return give(mkStr(t.String()))
		case "Elem":
			if u, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return give(rtypeOf(u.Elem()))
			}
		case "Field":
			i, ok := c.args[len(c.args)-1].(*Term)
			st, ok2 := t.Underlying().(*types.Struct)
			sf, ok3 := c.method.Type().(*types.Signature)
			if ok && ok2 && ok3 && i.isConst() && i.N >= 0 && i.N < int64(st.NumFields()) {
				f := st.Field(int(i.N))
				T := sf.Results().At(0).Type()
				v, ok := symval(T, fmt.Sprintf("structField %s %d", t, i.N)).(*StructV)
				u, ok2 := T.Underlying().(*types.Struct)
				if ok && ok2 {
					v = &StructV{T: v.T, F: append([]Val{}, v.F...)}
					for j := range v.F {
						switch u.Field(j).Name() {
						case "Name":
							v.F[j] = mkStr(f.Name())
						case "PkgPath":
							v.F[j] = mkStr("")
							if !f.Exported() {
								v.F[j] = mkStr(f.Pkg().Path())
							}
						case "Anonymous":
							v.F[j] = mkBool(f.Embedded())
						case "Type":
							v.F[j] = rtypeOf(f.Type())
						}
					}
					return give(v)
				}
			}
		}
		return nil, false
	}
	name := c.fn.String()
	if c.fn == w.rec {
		p := placeOf(c.args[0])
		if p == nil {
			e.limitf(s, "clearing %s", valString(c.args[0]))
			return []*State{}, true
		}
		w.clear(e, s, p)
		return give(nil)
	}
	if c.fn.Pkg == nil || c.fn.Pkg.Pkg.Path() != "reflect" {
		if c.fn.Signature.Recv() == nil || !strings.HasPrefix(name, "(reflect.") {
			return libCall(e, s, c)
		}
	}
	e.Assumed["package reflect does what its documentation says"] = true
	oops := func(why string) ([]*State, bool) {
		w.bad(e, s, "clearing spans does not panic", why)
		return []*State{}, true
	}
	switch name {
	case "reflect.ValueOf":
		if w.calls && same(c.args[0], &SymIface{w.root.t}) {
			return give(w.root.val())
		}
		return nil, false
	case "reflect.New", "reflect.Zero":
		t := w.typeOf(c.args[0])
		if t == nil {
			return nil, false
		}
		g := w.gh(s)
		if name == "reflect.Zero" {
			return give(w.mk(nil, "zero", nil, t, false, false).val())
		}
		p := w.mk(nil, "new", mkInt(int64(g.n)), t, true, false)
		g.n++
		return give(w.mk(p, "addr", nil, types.NewPointer(t), false, false).val())
	case "(reflect.StructField).IsExported":
		if v, ok := c.args[0].(*StructV); ok {
			if t, ok := field(v, "PkgPath").(*Term); ok {
				return give(mkBool(t == mkStr("")))
			}
		}
		return nil, false
	case "reflect.TypeOf":
		if i, ok := c.args[0].(*IfaceV); ok {
			return give(rtypeOf(i.T))
		}
		return nil, false
	case "reflect.Indirect":
		p := placeOf(c.args[0])
		if p == nil {
			return nil, false
		}
		if kindOf(p.T) != 22 {
			return give(p.val())
		}
		name = "(reflect.Value).Elem"
	}
	if !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	p := placeOf(c.args[0])
	if p == nil {
		e.limitf(s, "%s of %s", name, valString(c.args[0]))
		return []*State{}, true
	}
	k := kindOf(p.T)
	op := strings.TrimPrefix(name, "(reflect.Value).")
	if p.T == nil && op != "Kind" && op != "IsValid" && op != "CanAddr" && op != "CanSet" && op != "String" {
		return oops(op + " of no value")
	}
	switch op {
	case "Kind":
		return give(mkInt(k))
	case "IsValid":
		return give(mkBool(p.T != nil))
	case "Type":
		return give(rtypeOf(p.T))
	case "CanAddr":
		return give(mkBool(p.addr))
	case "CanSet":
		return give(mkBool(p.addr && !p.ro))
	case "CanInterface":
		return give(mkBool(!p.ro))
	case "IsNil":
		switch k {
		case 20, 22, 23, 18, 19, 21, 26:
			return boolean(w.nilTerm(p))
		}
		return oops("IsNil of " + p.T.String())
	case "Len":
		if k != 17 && k != 23 {
			if k == 24 || k == 21 || k == 18 {
				return give(listLen(p.t))
			}
			return oops("Len of " + p.T.String())
		}
		l := w.length(p)
		s.pc, _ = s.pc.Assume(mkGe(l, mkInt(0)))
		return give(l)
	case "NumField":
		if k != 25 {
			return oops("NumField of " + p.T.String())
		}
		return give(mkInt(int64(p.T.Underlying().(*types.Struct).NumFields())))
	case "Field":
		if k != 25 {
			return oops("Field of " + p.T.String())
		}
		i, ok := c.args[1].(*Term)
		st := p.T.Underlying().(*types.Struct)
		if !ok || !i.isConst() {
			e.limitf(s, "a field of %s that is not known", p.T)
			return []*State{}, true
		}
		if i.N < 0 || i.N >= int64(st.NumFields()) {
			return oops("a field that " + p.T.String() + " does not have")
		}
		return give(w.field(p, int(i.N)).val())
	case "Index":
		i, ok := c.args[1].(*Term)
		if !ok || k != 17 && k != 23 {
			return oops("Index of " + p.T.String())
		}
		e.oblige(s, pC20, "clearing spans does not panic", mkAnd(mkGe(i, mkInt(0)), mkLt(i, w.length(p))), "an element out of range")
		var el types.Type
		addr := true
		if sl, ok := p.T.Underlying().(*types.Slice); ok {
			el = sl.Elem()
		} else {
			el, addr = p.T.Underlying().(*types.Array).Elem(), p.addr
		}
		return give(w.mk(p, "index", i, el, addr, p.ro).val())
	case "Elem":
		if k != 20 && k != 22 {
			return oops("Elem of " + p.T.String())
		}
		if p.rel == "addr" {
			return give(p.up.val())
		}
		var outs []*State
		y, n := e.branch(s, w.nilTerm(p))
		if y != nil {
			e.setResult(y, c.dst, &OpaqueV{invalidPlace})
			outs = append(outs, y)
		}
		if n != nil {
			el := w.elem(p)
			if el == nil {
				e.limitf(n, "the content of an interface that is a part")
				return outs, true
			}
			e.setResult(n, c.dst, el.val())
			outs = append(outs, n)
		}
		return outs, true
	case "Addr":
		if !p.addr {
			return oops("the address of what has none")
		}
		return give(w.mk(p, "addr", nil, types.NewPointer(p.T), false, p.ro).val())
	case "Interface":
		if p.ro {
			return oops("Interface of an unexported field")
		}
		if p.rel == "addr" && w.isBase(p.up) {
			return give(&IfaceV{T: p.T, V: &PtrV{Cell: w.cell(s, p.up)}})
		}
		if k == 20 {
			if !p.known || p.dyn != nil {
				e.limitf(s, "the content of an interface")
				return []*State{}, true
			}
			return give(NilV{})
		}
		return give(&IfaceV{T: p.T, V: &OpaqueV{mkApp("the value", SU, p.t)}})
	case "Set", "SetZero":
		if !p.addr || p.ro {
			return oops("setting what cannot be set")
		}
		g := w.gh(s)
		var src *place
		if op == "Set" {
			src = placeOf(c.args[1])
		} else {
			src = w.mk(nil, "zero", nil, p.T, false, false)
		}
		switch {
		case src == nil || src.T == nil || src.ro:
			return oops("setting to " + valString(c.args[1]))
		case p.rel == "new":
			if !types.AssignableTo(src.T, p.T) {
				return oops("setting a " + p.T.String() + " to a " + src.T.String())
			}
			g.from[p.t] = src.t
			delete(g.fresh, p.t)
		case w.isBase(p) && src.rel == "zero":
			s.hset(w.cell(s, p), zeroVal(w.base))
		case k == 20 && p.known && p.dyn != nil && src.rel == "new" && g.from[src.t] == w.elem(p).t:
			if g.fresh[src.t] {
				g.set[p.t] = true
			}
		default:
			w.bad(e, s, "nothing but spans changes", w.path(p)+" is set")
		}
		return give(nil)
	}
	e.limitf(s, "reflect.Value.%s", op)
	return []*State{}, true
}

// spanTypes are the types of the values in trees: those reached through
// exported fields, and those that can only be looked at.
func (w *spanWorld) spanTypes(start []types.Type) (all, ro []types.Type) {
	seen := map[string]bool{}
	var walk func(t types.Type, r bool)
	walk = func(t types.Type, r bool) {
		k := fmt.Sprint(types.TypeString(t, nil), r)
		if seen[k] {
			return
		}
		seen[k] = true
		if r {
			ro = append(ro, t)
		} else {
			all = append(all, t)
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem(), r)
		case *types.Slice:
			walk(u.Elem(), r)
		case *types.Array:
			walk(u.Elem(), r)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), r || !u.Field(i).Exported())
			}
		}
	}
	for _, t := range start {
		walk(t, false)
	}
	return
}

func newSpanExec(p *Program, key string) *Exec {
	ew := newEstWorld(p)
	e := newExec(p, nil, nil, key)
	e.safe, e.term = pC20, pC20
	e.driver = func() {
		fn := p.findFn(key)
		if ew.pkg == nil || fn == nil || len(fn.Params) != 1 {
			e.limitf(nil, "there is no %s", key)
			return
		}
		base, node := ew.typ("BaseNode"), ew.typ("Node")
		var nodes []types.Type
		if base != nil && node != nil {
			it, _ := node.Underlying().(*types.Interface)
			for _, n := range ew.pkg.Scope().Names() {
				tn, ok := ew.pkg.Scope().Lookup(n).(*types.TypeName)
				if !ok || it == nil || tn.IsAlias() || types.IsInterface(tn.Type()) || n == "BaseNode" {
					continue
				}
				if types.Implements(tn.Type(), it) {
					nodes = append(nodes, tn.Type())
				}
				if types.Implements(types.NewPointer(tn.Type()), it) {
					nodes = append(nodes, types.NewPointer(tn.Type()))
				}
			}
		}
		if len(nodes) < 80 {
			e.limitf(nil, "only %d kinds of nodes were met", len(nodes))
			return
		}
		run := func(what string, mkRoot func(w *spanWorld) *place) {
			w := &spanWorld{p: p, pkg: ew.pkg, base: base, node: node, what: what, holds: map[types.Type]bool{}, rec: p.findFn(astPath + ".clearSpans")}
			x := newExec(p, w, fn, key)
			x.start, x.limit, x.focus = e.start, e.limit, e.focus
			x.safe, x.term = e.safe, e.term
			x.Inlined[key] = true
			if invalidPlace == nil {
				invalidPlace = w.mk(nil, "none", nil, nil, false, false).t
			}
			n := 0
			s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n}
			s.g = (&spanGhost{}).Clone()
			w.root = mkRoot(w)
			if w.root.T != nil && kindOf(w.root.T) == 23 {
				w.begin(s.g.(*spanGhost), w.root)
			}
			arg := w.root.val()
			if strings.HasSuffix(key, ".ClearSpans") {
				w.calls = true
				arg = &SymIface{w.root.t}
			}
			x.pushFrame(s, fn, []Val{arg}, fkCall, nil)
			x.push(s)
			x.run()
			e.merge(x)
		}
		if strings.HasSuffix(key, ".ClearSpans") {
			run("a node", func(w *spanWorld) *place { return w.mk(nil, "root", nil, node, false, false) })
			return
		}
		probe := &spanWorld{}
		all, ro := probe.spanTypes(nodes)
		run("no value", func(w *spanWorld) *place { return places[invalidPlace] })
		for i, t := range append(all, ro...) {
			readonly := i >= len(all)
			for _, addr := range []bool{true, false} {
				t, addr := t, addr
				what := types.TypeString(t, types.RelativeTo(ew.pkg))
				if !addr {
					what += " that cannot be changed"
				}
				if readonly {
					what += " in unexported fields"
				}
				if types.IsInterface(t) {
					for j := -1; j < len(nodes); j++ {
						var d types.Type
						wh := what + " holding nothing"
						if j >= 0 {
							d = nodes[j]
							wh = what + " holding " + types.TypeString(d, types.RelativeTo(ew.pkg))
						}
						run(wh, func(w *spanWorld) *place {
							q := *w.mk(nil, "root "+wh, nil, t, addr, readonly)
							q.dyn, q.known = d, true
							places[q.t] = &q
							return &q
						})
					}
					continue
				}
				run(what, func(w *spanWorld) *place { return w.mk(nil, "root", nil, t, addr, readonly) })
			}
		}
	}
	return e
}
