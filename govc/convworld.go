package main

import (
	"fmt"
	"go/types"
	"strings"
)

// convWorld verifies convertExprToArrowParams: the parameters it makes are
// those the elements of the parenthesised expression write, each in its place.
// What a loop has converted is a run "conv" of the elements it has read: the
// i-th is made of the i-th.
type convWorld struct {
	*parserWorld
	live map[*Term]bool // elements spoken of
	weak map[*Term]bool // facts that follow from others
	dead bool           // the state contradicts what is given
}

const kConv = "(*ecmascript/parser.Parser).convertExprToArrowParams"

// source is a list of elements of an expression.
type convSource struct {
	base *Term
	elem types.Type
}

// elemVal is element i of the expressions of a list.
func (c *convSource) at(i *Term) Val { return elemOf(c.base, i, c.elem) }

// is reports whether an interface value is known to hold a type, and gives
// what it holds.
func (w *convWorld) is(s *State, v Val, name string) (*StructV, bool) {
	switch x := v.(type) {
	case *SymIface:
		t := w.astT[name]
		if t == nil || !s.pc.Entails(mkIn(dynTerm(x.Term), setOf(typeID(t)))) {
			return nil, false
		}
		st, ok := payload(x.Term, t).(*StructV)
		return st, ok
	case *IfaceV:
		if !w.isAst(x.T, name) {
			return nil, false
		}
		st, ok := x.V.(*StructV)
		return st, ok
	}
	return nil, false
}

func (w *convWorld) isNil(s *State, v Val) bool {
	if isNilVal(v) {
		return true
	}
	x, ok := v.(*SymIface)
	return ok && s.pc.Entails(mkIn(dynTerm(x.Term), setOf(0)))
}

func (w *convWorld) eq(s *State, a, b Val) bool {
	if same(a, b) || w.isNil(s, a) && w.isNil(s, b) {
		return true
	}
	x, y := strTerm(a), strTerm(b)
	return x != nil && y != nil && s.pc.Entails(mkEq(x, y))
}

// given assumes what the parser guarantees of an expression in parentheses
// that may be a parameter list (the obligations of parseExpression,
// parseArrayTail and parseObjectTail): names are not empty, and a property
// with an initializer has no value.
func (w *convWorld) given(s *State, v Val) bool {
	name := func(x Val) bool {
		t := strTerm(x)
		return t == nil || s.assume(mkNot(mkEq(t, mkStr(""))))
	}
	if st, ok := v.(*StructV); ok && w.isAst(st.T, "Property") {
		d, ok1 := field(st, "DestructureInit").(*SymIface)
		x, ok2 := field(st, "Value").(*SymIface)
		if ok1 && ok2 && !s.assume(mkOr(mkIn(dynTerm(d.Term), setOf(0)), mkIn(dynTerm(x.Term), setOf(0)))) {
			return false
		}
		return w.given(s, field(st, "Key")) && w.given(s, field(st, "Value"))
	}
	for n, f := range map[string]string{"Identifier": "Name", "TemporalFloatingRestElement": "Identifier", "TemporalObjectRestElement": "Identifier"} {
		if st, ok := w.is(s, v, n); ok {
			return name(field(st, f))
		}
	}
	if st, ok := w.is(s, v, "AssignmentExpression"); ok {
		return w.given(s, field(st, "Left"))
	}
	return true
}

// binds: the element v of an expression writes the binding element b.
func (w *convWorld) binds(s *State, v Val, b *StructV, inArray bool) bool {
	val, init := field(b, "Value"), field(b, "Init")
	id, ob, ar := field(val, "Identifier"), field(val, "ObjectPattern"), field(val, "ArrayPattern")
	if st, ok := w.is(s, v, "Identifier"); ok {
		return w.eq(s, id, field(st, "Name")) && isNilVal(ob) && isNilVal(ar) && w.isNil(s, init)
	}
	if st, ok := w.is(s, v, "AssignmentExpression"); ok {
		left, ok := w.is(s, field(st, "Left"), "Identifier")
		return ok && w.isConst(s, field(st, "Operator"), "AssignmentOp") && w.eq(s, id, field(left, "Name")) && isNilVal(ob) && isNilVal(ar) && w.eq(s, init, field(st, "Right"))
	}
	if !emptyStr(id) || !w.isNil(s, init) {
		return false
	}
	if inArray && w.isNil(s, v) {
		return isNilVal(ob) && isNilVal(ar)
	}
	if st, ok := w.is(s, v, "ArrayExpression"); ok && isNilVal(ob) {
		p := w.matcher(nil, s).structOf(ar)
		return p != nil && w.whole(s, field(st, "Elements"), field(p, "Elements"), "array", func(rest Val) bool {
			r := field(p, "RestElement")
			if rest == nil {
				return w.matcher(nil, s).emptyPattern(r)
			}
			x, ok := w.is(s, rest, "TemporalArrayRestElement")
			return ok && same(r, field(x, "BindingPattern"))
		})
	}
	if st, ok := w.is(s, v, "ObjectExpression"); ok && isNilVal(ar) {
		p := w.matcher(nil, s).structOf(ob)
		return p != nil && w.whole(s, field(st, "Properties"), field(p, "Properties"), "object", func(rest Val) bool {
			r := field(p, "RestElement")
			if rest == nil {
				return emptyStr(r)
			}
			x, ok := w.is(s, field(rest, "Key"), "TemporalObjectRestElement")
			return ok && w.eq(s, r, field(x, "Identifier"))
		})
	}
	return false
}

// prop: a property of an object expression writes a property of a pattern.
func (w *convWorld) prop(s *State, p Val, b *StructV) bool {
	key, ok := w.is(s, field(p, "Key"), "Identifier")
	if !ok || !w.isFalse(s, field(p, "Computed")) || !w.eq(s, field(b, "PropertyName"), field(key, "Name")) {
		return false
	}
	v, init := field(b, "Value"), field(b, "Init")
	if !isNilVal(field(v, "ObjectPattern")) || !isNilVal(field(v, "ArrayPattern")) {
		return false
	}
	x := field(p, "Value")
	if w.isNil(s, x) {
		return emptyStr(field(v, "Identifier")) && w.eq(s, init, field(p, "DestructureInit"))
	}
	if !w.isNil(s, field(p, "DestructureInit")) {
		return false
	}
	if st, ok := w.is(s, x, "Identifier"); ok {
		return w.eq(s, field(v, "Identifier"), field(st, "Name")) && w.isNil(s, init)
	}
	if st, ok := w.is(s, x, "AssignmentExpression"); ok {
		left, ok := w.is(s, field(st, "Left"), "Identifier")
		return ok && w.isConst(s, field(st, "Operator"), "AssignmentOp") && w.eq(s, field(v, "Identifier"), field(left, "Name")) && w.eq(s, init, field(st, "Right"))
	}
	return false
}

// one: element i of the source writes an element of a list made of it.
func (w *convWorld) one(s *State, src Val, out Val, kind string) bool {
	b, ok := out.(*StructV)
	if !ok {
		return false
	}
	switch kind {
	case "object":
		return w.isAst(b.T, "BindingProperty") && w.prop(s, src, b)
	}
	return w.isAst(b.T, "BindingElement") && w.binds(s, src, b, kind == "array")
}

// progress gives how many elements of the source base a list is made of.
func (w *convWorld) made(s *State, base *Term, elem types.Type, out Val, kind string) *Term {
	n := mkInt(0)
	if isNilVal(out) {
		return n
	}
	l, ok := out.(*ListV)
	if !ok {
		return nil
	}
	for _, a := range l.Atoms {
		if a.Base != nil {
			if a.Base != base || a.F != "conv:"+kind || a.Lo != n {
				return nil
			}
			n = a.Hi
			continue
		}
		src := elemOf(base, n, elem)
		if !w.given(s, src) {
			w.dead = true
			return nil
		}
		if !w.one(s, src, a.E, kind) {
			return nil
		}
		n = mkPlus(n, 1)
	}
	return n
}

// whole: a list is made of all elements of the source but a rest element,
// which is the last; rest checks what has become of it (nil: there is none).
func (w *convWorld) whole(s *State, src, out Val, kind string, rest func(Val) bool) bool {
	if isNilVal(src) {
		return emptyList(out) && rest(nil)
	}
	l, ok := src.(*ListV)
	if !ok || len(l.Atoms) != 1 || l.Atoms[0].Base == nil || l.Atoms[0].Lo != mkInt(0) {
		return false
	}
	a := l.Atoms[0]
	n := w.made(s, a.Base, l.Elem, out, kind)
	if n == nil {
		return false
	}
	if s.pc.Entails(mkEq(n, a.Hi)) {
		return rest(nil)
	}
	// The parser puts rest elements last.
	return s.pc.Entails(mkLt(n, a.Hi)) && rest(elemOf(a.Base, n, l.Elem))
}

func (w *convWorld) kindOf(base *Term) string {
	switch base.Name {
	case "as:ast.SequenceExpression.Expressions":
		return "params"
	case "as:ast.ArrayExpression.Elements":
		return "array"
	case "as:ast.ObjectExpression.Properties":
		return "object"
	}
	return ""
}

func (w *convWorld) baseKind(b *Term) string {
	if b.Op != OApp {
		return ""
	}
	return w.kindOf(b)
}

func (w *convWorld) Header(e *Exec, s *State) []*State {
	f := s.top()
	back := f.prev != nil && f.blk.Dominates(f.prev)
	clearDead(s)
	w.dead = false
	rs := w.roots(s)
	// names are not empty
	for _, r := range rs {
		mapVal(r.get(), func(v Val) Val {
			if t := strTerm(v); t != nil && t.Op == OApp && t.Name == "as:ast.TemporalFloatingRestElement.Identifier" {
				s.assume(mkNot(mkEq(t, mkStr(""))))
			}
			return nil
		})
	}
	for n := 0; n < 4; n++ {
		for _, r := range rs {
			v := r.get()
			var ls []*ListV
			w.lists(v, &ls)
			for _, l := range ls {
				if l.pure() || !w.isAst(l.Elem, "BindingElement") && !w.isAst(l.Elem, "BindingProperty") {
					continue
				}
				if m := w.fold(e, s, rs, l); m != nil {
					w.everywhere(s, rs, func(y Val) Val {
						if z, ok := y.(*ListV); ok && same(z, l) {
							return m
						}
						return nil
					})
				}
			}
		}
	}
	if w.dead {
		return nil
	}
	if back {
		bad := ""
		for _, r := range rs {
			var ls []*ListV
			w.lists(r.get(), &ls)
			for _, l := range ls {
				if !l.pure() && (w.isAst(l.Elem, "BindingElement") || w.isAst(l.Elem, "BindingProperty")) {
					bad = valString(l)
				}
			}
		}
		e.record(s, []string{"C03"}, "each element is made of the element in its place", bad == "", func() string { return bad })
		if bad != "" {
			return nil
		}
	}
	w.live, w.weak = map[*Term]bool{}, map[*Term]bool{}
	for _, r := range w.roots(s) {
		mapTerms(r.get(), func(x *Term) *Term {
			walkTerm(x, map[*Term]bool{}, func(t *Term) {
				if w.isElem(t) {
					w.live[t] = true
				}
			})
			return x
		})
	}
	fs := s.pc.Facts()
	for _, a := range fs {
		for _, b := range fs {
			if x, y := a, b; x.Op == OGe0 && y.Op == OGe0 && weaker(x.Args[0], y.Args[0]) {
				w.weak[x] = true
			}
		}
	}
	return []*State{s}
}

// weaker: x is y plus a positive constant.
func weaker(x, y *Term) bool {
	d := mkSub(x, y)
	return d.isConst() && d.N > 0
}

func (w *convWorld) isElem(t *Term) bool {
	return t.Op == OApp && strings.HasPrefix(t.Name, "elt") && len(t.Args) == 2 && w.baseKind(t.Args[0]) != ""
}

// KeepFact: of the elements gone by nothing is remembered.
func (w *convWorld) KeepFact(s *State, t *Term) bool {
	if w.weak[t] {
		return false
	}
	keep := true
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if w.isElem(x) && !w.live[x] {
			keep = false
		}
	})
	return keep
}

func (w *convWorld) fold(e *Exec, s *State, rs []root, l *ListV) Val {
	var bs []*Term
	seen := map[*Term]bool{}
	for _, r := range rs {
		mapVal(r.get(), func(v Val) Val {
			if x, ok := v.(*ListV); ok && len(x.Atoms) == 1 && x.Atoms[0].Base != nil && w.baseKind(x.Atoms[0].Base) != "" {
				if b := x.Atoms[0].Base; !seen[b] {
					seen[b] = true
					bs = append(bs, b)
				}
			}
			return nil
		})
	}
	for _, b := range bs {
		kind := w.baseKind(b)
		elem := w.astT["Node"]
		if kind == "object" {
			elem = w.astT["Property"]
		}
		if elem == nil {
			continue
		}
		if n := w.made(s, b, elem, l, kind); n != nil {
			return l.with([]Atom{{Base: b, Lo: mkInt(0), Hi: n, F: "conv:" + kind, Src: elem}})
		}
	}
	return nil
}

func (w *convWorld) Return(e *Exec, s *State, res Val) {
	w.ended++
	inner := s.g.(*pGhost).args[1]
	x := inner.(*SymIface)
	w.dead = false
	st, ok := res.(*StructV)
	good := false
	if ok {
		params, rest := field(st, "Parameters"), field(st, "RestParameter")
		restIs := func(r Val) bool {
			if r == nil {
				return emptyStr(rest)
			}
			f, ok := w.is(s, r, "TemporalFloatingRestElement")
			return ok && w.eq(s, rest, field(f, "Identifier"))
		}
		if _, is := w.is(s, x, "TemporalEmptyArrowHead"); is {
			good = emptyList(params) && restIs(nil)
		} else if sq, is := w.is(s, x, "SequenceExpression"); is {
			good = w.whole(s, field(sq, "Expressions"), params, "params", restIs)
		} else if !w.given(s, x) {
			return
		} else if emptyList(params) {
			good = restIs(x)
		} else if l, ok := params.(*ListV); ok && len(l.Atoms) == 1 && l.Atoms[0].Base == nil {
			good = restIs(nil) && w.one(s, x, l.Atoms[0].E, "params")
		}
	}
	if w.dead {
		return
	}
	e.record(s, []string{"C03"}, "the parameters are those the expression in parentheses writes", good, func() string {
		return fmt.Sprintf("%s of a %s", valString(res), w.dynName(s, x))
	})
}

func (w *convWorld) dynName(s *State, x *SymIface) string {
	return fmt.Sprint(s.pc.DomOf(dynTerm(x.Term)))
}

func newConvExec(p *Program) *Exec {
	u := &pUnit{fn: "convertExprToArrowParams"}
	pw, err := newParserWorld(p, u)
	fn := p.findFn(kConv)
	e := newExec(p, &convWorld{parserWorld: pw}, fn, kConv)
	if err != nil {
		e.limitf(nil, "%v", err)
		return e
	}
	if fn == nil || sigOf(fn) != parserContracts[u.fn].sig {
		return e // callers do not use the contract
	}
	s := pw.initial(p, 1)
	g := s.g.(*pGhost)
	x := &SymIface{s.newSym("x", SU)}
	s.assume(mkNot(mkIn(dynTerm(x.Term), setOf(0))))
	g.args = []Val{g.self, x}
	e.Inlined[kConv] = true
	e.pushFrame(s, fn, g.args, fkCall, nil)
	e.push(s)
	return e
}

func emptyList(v Val) bool {
	l, ok := v.(*ListV)
	return isNilVal(v) || ok && len(l.Atoms) == 0
}
