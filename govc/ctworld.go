package main

import (
	"go/types"
	"sort"
	"strings"
)

// ctWorld verifies one ContainsTemporalNodes method: it tells whether the node
// is a placeholder or holds one. Calls of the method on parts of the node go by
// the same contract: the result is ct of the part.
//
// A list holds a placeholder if one of its elements does. Not: there is a
// ghost list of the elements known, which has to be all of them, none of them
// holding any, when the method returns false.
type ctWorld struct {
	p    *Program
	pkg  *types.Package
	name string
	list string // the field that may hold placeholders
}

// ctLists are the kinds of nodes the parser leaves placeholders in.
var ctLists = map[string]string{"ArrayExpression": "Elements", "ObjectExpression": "Properties", "SequenceExpression": "Expressions"}

type ctGhost struct {
	recv  Val
	clean *ListV // the first elements of the list, looked at
	found bool   // one of them holds a placeholder; else none does
}

func (g *ctGhost) Clone() Ghost { n := *g; return &n }
func (g *ctGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.recv = vf(g.recv)
	if g.clean != nil {
		g.clean = vf(g.clean).(*ListV)
	}
}
func (g *ctGhost) Count(re func(Val) Val) Ghost {
	n := *g
	if g.clean != nil {
		n.clean = mapVal(g.clean, re).(*ListV)
	}
	return &n
}
func (g *ctGhost) Visit(f func(Val)) {
	f(g.recv)
	if g.clean != nil {
		f(g.clean)
	}
}
func (g *ctGhost) Key(vs func(Val) string) string {
	k := vs(g.recv)
	if g.clean != nil {
		k += vs(g.clean)
		if g.found {
			k += " found"
		}
	}
	return k
}

// holds is the condition that element i of the list holds a placeholder.
func (w *ctWorld) holds(base, i *Term, elem types.Type) *Term {
	v := elemOf(base, i, elem)
	part := func(v Val) *Term {
		x, ok := v.(*SymIface)
		if !ok {
			return nil
		}
		return mkAnd(mkNot(mkIn(dynTerm(x.Term), setOf(0))), ctTerm(x.Term))
	}
	if w.name != "ObjectExpression" {
		return part(v)
	}
	init, ok := field(v, "DestructureInit").(*SymIface)
	k, x := part(field(v, "Key")), part(field(v, "Value"))
	if !ok || k == nil || x == nil {
		return nil
	}
	return mkOr(mkNot(mkIn(dynTerm(init.Term), setOf(0))), k, x)
}

// NonNil: the parts that are always there.
func (w *ctWorld) NonNil(e *Exec, t *Term) bool {
	if t.Op != OApp || len(t.Args) != 2 {
		return false
	}
	switch {
	case w.name == "SequenceExpression" && t.Name == "elt", w.name == "ObjectExpression" && t.Name == "elt.Key":
		e.Assumed["the expressions of a sequence and the keys of properties are not nil (follows from the parser's C03 contracts)"] = true
		return true
	}
	return false
}

// grow moves the ghost list on over elements now known to hold nothing.
func (w *ctWorld) grow(s *State) {
	g := s.g.(*ctGhost)
	if g.clean == nil {
		return
	}
	a := g.clean.Atoms[0]
	n := *g
	for i := 0; i < 4; i++ {
		h := w.holds(a.Base, a.Hi, a.Src)
		if h == nil {
			break
		}
		if s.pc.Entails(h) {
			n.found = true
		} else if !s.pc.Entails(mkNot(h)) {
			break
		}
		a.Hi = mkPlus(a.Hi, 1)
	}
	n.clean = g.clean.with([]Atom{a})
	s.g = &n
}

func (w *ctWorld) Header(e *Exec, s *State) []*State {
	clearDead(s)
	w.grow(s)
	return []*State{s}
}

func (w *ctWorld) KeepFact(s *State, t *Term) bool { return (&estWorld{}).KeepFact(s, t) }

// Progress: the elements seen.
func (w *ctWorld) Progress(e *Exec, s *State) *Term {
	w.grow(s)
	if g := s.g.(*ctGhost); g.clean != nil {
		return g.clean.Atoms[0].Hi
	}
	return nil
}

func (w *ctWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C05"}, "the search does not panic", false, func() string { return valString(v) })
}

func (w *ctWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil {
		x, ok := c.recv.(*SymIface)
		if !ok || c.method == nil || c.method.Name() != "ContainsTemporalNodes" {
			return nil, false
		}
		y, z := e.branch(s, ctTerm(x.Term))
		var outs []*State
		for i, o := range []*State{y, z} {
			if o != nil {
				e.setResult(o, c.dst, mkBool(i == 0))
				outs = append(outs, o)
			}
		}
		return outs, true
	}
	return libCall(e, s, c)
}

func (w *ctWorld) Return(e *Exec, s *State, res Val) {
	b, _ := res.(*Term)
	for _, yes := range []bool{true, false} {
		if b == nil || b.Sort != SBool {
			e.limitf(s, "the result of %s", w.name)
			return
		}
		is := b
		if !yes {
			is = mkNot(b)
		}
		if s.pc.Decide(is) == No {
			continue
		}
		pc, ok := s.pc.Assume(is)
		if !ok {
			continue
		}
		st := s.fork()
		st.pc = pc
		w.grow(st)
		g := st.g.(*ctGhost)
		switch {
		case strings.HasPrefix(w.name, "Temporal"):
			e.record(st, []string{"C05"}, "a placeholder is known for one", yes, nil)
		case g.clean == nil:
			e.record(st, []string{"C05"}, "the node holds no placeholder", !yes, nil)
		case yes:
			e.record(st, []string{"C05"}, "what is said to hold a placeholder does", g.found || w.some(st), func() string { return valString(g.recv) })
		default:
			a := g.clean.Atoms[0]
			e.record(st, []string{"C05"}, "what holds a placeholder is said to", !g.found, func() string { return valString(g.recv) })
			e.oblige(st, []string{"C05"}, "what is said to hold no placeholder holds none", mkGe(a.Hi, listLen(a.Base)), "the elements after the first "+a.Hi.String()+" may hold some")
		}
	}
}

// some: an element is known to hold a placeholder.
func (w *ctWorld) some(s *State) bool {
	a := s.g.(*ctGhost).clean.Atoms[0]
	is := map[*Term]bool{}
	for _, t := range s.pc.Facts() {
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if isElemTerm(x) && x.Args[0] == a.Base {
				is[x.Args[1]] = true
			}
		})
	}
	for i := range is {
		if h := w.holds(a.Base, i, a.Src); h != nil && s.pc.Entails(h) {
			return true
		}
	}
	return false
}

func ctTypes() []string {
	out := []string{"TemporalEmptyArrowHead", "TemporalArrayRestElement", "TemporalObjectRestElement", "TemporalFloatingRestElement"}
	for k := range estSpec {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func ctKey(name string) string { return "(" + astPath + "." + name + ").ContainsTemporalNodes" }

func newCtExec(p *Program, name string) *Exec {
	ew := newEstWorld(p)
	w := &ctWorld{p: p, pkg: ew.pkg, name: name, list: ctLists[name]}
	key := ctKey(name)
	e := newExec(p, w, nil, key)
	e.safe, e.term = []string{"C05"}, []string{"C05"}
	if w.pkg == nil {
		e.limitf(nil, "there is no package %s", astPath)
		return e
	}
	t := ew.typ(name)
	if t == nil {
		e.record(nil, []string{"C05"}, "there is no such kind of node", true, nil)
		return e
	}
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(w.pkg, "ContainsTemporalNodes")
	if sel == nil {
		sel = p.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(w.pkg, "ContainsTemporalNodes")
	}
	if sel == nil {
		e.record(nil, []string{"C05"}, "this part of nodes is no node", true, nil)
		return e
	}
	fn := p.Prog.MethodValue(sel)
	if fn == nil {
		e.limitf(nil, "%s has no body", key)
		return e
	}
	e.root = fn
	k := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
	g := &ctGhost{recv: symval(ew.typ(name), "n")}
	if w.list != "" {
		l, ok := field(g.recv, w.list).(*ListV)
		if !ok {
			e.limitf(nil, "%s has no list %s", name, w.list)
			return e
		}
		a := l.Atoms[0]
		g.clean = l.with([]Atom{{Base: a.Base, Lo: mkInt(0), Hi: mkInt(0), F: "clean", Src: a.Src}})
	}
	s.g = g
	e.Inlined[key] = true
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
		e.limitf(s, "%s takes a pointer", key)
		return e
	}
	e.pushFrame(s, fn, []Val{g.recv}, fkCall, nil)
	e.push(s)
	return e
}
