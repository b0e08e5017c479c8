package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Loops of the parser. At a loop header, what the loop has collected so far is
// replaced by a name: a list whose elements write back to the last tokens
// taken becomes an arbitrary such list, and a node that writes back to the
// last tokens taken becomes an arbitrary node of its kind. These are the loop
// invariants; the matching is their proof at every arrival.

// mapVal replaces parts of a value.
func mapVal(v Val, f func(Val) Val) Val {
	if v == nil {
		return nil
	}
	if r := f(v); r != nil {
		return r
	}
	switch x := v.(type) {
	case *StructV:
		var fs []Val
		for i, y := range x.F {
			if z := mapVal(y, f); z != y {
				if fs == nil {
					fs = append([]Val{}, x.F...)
				}
				fs[i] = z
			}
		}
		if fs != nil {
			return &StructV{T: x.T, F: fs}
		}
	case *IfaceV:
		if y := mapVal(x.V, f); y != x.V {
			return &IfaceV{x.T, y}
		}
	case *ListV:
		var as []Atom
		for i, a := range x.Atoms {
			if a.Base != nil {
				continue
			}
			if z := mapVal(a.E, f); z != a.E {
				if as == nil {
					as = append([]Atom{}, x.Atoms...)
				}
				as[i].E = z
			}
		}
		if as != nil {
			return x.with(as)
		}
	case TupleV:
		var ys TupleV
		for i, y := range x {
			if z := mapVal(y, f); z != y {
				if ys == nil {
					ys = append(TupleV{}, x...)
				}
				ys[i] = z
			}
		}
		if ys != nil {
			return ys
		}
	case *FuncV:
		var ys []Val
		for i, y := range x.Bind {
			if z := mapVal(y, f); z != y {
				if ys == nil {
					ys = append([]Val{}, x.Bind...)
				}
				ys[i] = z
			}
		}
		if ys != nil {
			return &FuncV{Fn: x.Fn, Bind: ys}
		}
	}
	return v
}

// root is a place a live value is in.
type root struct {
	get func() Val
	set func(Val)
}

// roots are the live registers and the cells they lead to.
func (w *parserWorld) roots(s *State) []root {
	var rs []root
	seen := map[int]bool{}
	var cells []int
	see := func(v Val) {
		valCells(v, func(c int) {
			if _, ok := s.heap[c]; ok && !seen[c] {
				seen[c] = true
				cells = append(cells, c)
			}
		})
	}
	for _, f := range s.frames {
		f := f
		for i, v := range f.regs {
			if v == nil {
				continue
			}
			i := i
			rs = append(rs, root{func() Val { return f.regs[i] }, func(v Val) { f.set(i, v) }})
			see(v)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				see(a)
			}
		}
	}
	see(s.g.(*pGhost).self)
	for i := 0; i < len(cells); i++ {
		c := cells[i]
		rs = append(rs, root{func() Val { return s.heap[c] }, func(v Val) { s.hset(c, v) }})
		see(s.heap[c])
	}
	return rs
}

// everywhere replaces parts of everything live.
func (w *parserWorld) everywhere(s *State, rs []root, f func(Val) Val) {
	for _, r := range rs {
		v := r.get()
		if n := mapVal(v, f); n != v {
			r.set(n)
		}
	}
}

// lists finds the lists of parts of the tree in a value.
func (w *parserWorld) lists(v Val, out *[]*ListV) {
	switch x := v.(type) {
	case *StructV:
		for _, y := range x.F {
			w.lists(y, out)
		}
	case *IfaceV:
		w.lists(x.V, out)
	case *ListV:
		if !x.Str && strings.HasPrefix(typeName(x.Elem), "ast.") {
			*out = append(*out, x)
		}
	}
}

func (l *ListV) pure() bool { return len(l.Atoms) == 0 || len(l.Atoms) == 1 && l.Atoms[0].Base != nil }

func (w *parserWorld) Header(e *Exec, s *State) []*State {
	g := s.g.(*pGhost)
	f := s.top()
	back := f.prev != nil && f.blk.Dominates(f.prev)
	clearDead(s)
	w.flush(s)
	rs := w.roots(s)
	// nodes
	for n := 0; n < 8; n++ {
		done := true
		for _, r := range rs {
			v, ok := r.get().(*IfaceV)
			if !ok || !strings.HasPrefix(strings.TrimPrefix(typeName(v.T), "*"), "ast.") || strings.HasPrefix(typeName(v.T), "ast.Temporal") {
				continue
			}
			if w.foldNode(e, s, rs, v) {
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	// lists
	for n := 0; n < 8; n++ {
		done := true
		for _, r := range rs {
			var ls []*ListV
			w.lists(r.get(), &ls)
			for _, l := range ls {
				if !l.pure() && w.foldList(e, s, rs, l) {
					done = false
					break
				}
			}
			if !done {
				break
			}
		}
		if done {
			break
		}
	}
	if back {
		bad := ""
		for _, r := range rs {
			var ls []*ListV
			w.lists(r.get(), &ls)
			for _, l := range ls {
				if !l.pure() {
					bad = valString(l)
				}
			}
		}
		e.record(s, []string{"C03"}, "what a loop has collected writes back to the tokens taken", bad == "", func() string { return bad + "; tokens: " + w.wsString(s) })
		if bad != "" {
			return nil
		}
	}
	if len(g.ws) > 40 {
		e.limitf(s, "the tokens taken by the loop in %s end up nowhere: %s", fnKey(f.fn), w.wsString(s))
		return nil
	}
	w.scrub(s, rs)
	w.detach(s)
	return []*State{s}
}

func (w *parserWorld) run(e *Exec, s *State, ctx, lev, asi, ct bool, f func(m *matcher, k kont) bool) *matcher {
	g := s.g.(*pGhost)
	m := w.matcher(e, s)
	m.ctxOn, m.levOn, m.asiOn, m.ctOn = ctx, lev, asi, ct
	if f(m, func(i int) bool { return i == len(g.ws) || m.miss(i, "the rest is in no part of the tree") }) {
		return nil
	}
	return m
}

// foldNode gives a name to a node that writes back to the last tokens taken.
func (w *parserWorld) foldNode(e *Exec, s *State, rs []root, v *IfaceV) bool {
	g := s.g.(*pGhost)
	from := -1
	for i := range g.ws {
		i := i
		if w.run(e, s, false, false, false, false, func(m *matcher, k kont) bool { return m.node(i, v, g.ws[i].ctx, k) }) == nil {
			from = i
			break
		}
	}
	if from < 0 {
		return false
	}
	first := g.ws[from]
	k := "expr"
	n := strings.TrimPrefix(typeName(v.T), "*")
	if strings.HasSuffix(n, "Statement") || strings.HasSuffix(n, "Declaration") || strings.HasSuffix(n, "DeclNode") {
		k = "stmt"
	}
	w.prints(e, s, "what a loop has parsed", func(m *matcher, k kont) bool {
		m.ctOn = m.ctOn && !strings.HasSuffix(n, ".SequenceExpression") && !strings.HasSuffix(n, ".ArrayExpression") && !strings.HasSuffix(n, ".ObjectExpression")
		return m.node(from, v, first.ctx, k)
	})
	info := n
	x := s.newSym("n", SU)
	s.assume(mkIn(dynTerm(x), setOf(typeID(v.T))))
	if l := w.levOf(s, v); l != nil {
		s.assume(mkEq(levTerm(x), l))
		info += fmt.Sprint(" ", l)
	}
	if c := w.ctOf(s, v); c != nil {
		if s.pc.Entails(mkNot(c)) {
			c = tFalse
		}
		s.assume(mkIff(ctTerm(x), c))
		info += fmt.Sprint(" ", c == tFalse, c == tTrue)
	}
	if o := w.openIf(s, v); o != nil {
		s.assume(mkIff(openTerm(x), o))
	}
	if st, ok := v.V.(*StructV); ok {
		if op, ok := field(st, "Operator").(*Term); ok && op.isConst() {
			if po, ok := field(payload(x, v.T), "Operator").(*Term); ok {
				s.assume(mkEq(po, op))
				info += fmt.Sprint(" op", op)
			}
		}
	}
	nv := &SymIface{x}
	w.everywhere(s, rs, func(y Val) Val {
		if i, ok := y.(*IfaceV); ok && same(i, v) {
			return nv
		}
		return nil
	})
	g.ws = append(append([]*pItem{}, g.ws[:from]...), &pItem{kind: "y", k: k, v: nv, ctx: first.ctx, first: w.blur(s, first.first), info: info})
	return true
}

// blur gives a token a name, and keeps what the rules may need of it.
func (w *parserWorld) blur(s *State, v Val) Val {
	n := s.freshVal(w.tokT, "first")
	for _, p := range []string{"CloseParen", "OpenParen", "OpenBrace"} {
		set := w.types("Punctuator" + p)
		if s.pc.Entails(mkNot(mkIn(tokType(v), set))) {
			s.assume(mkNot(mkIn(tokType(n), set)))
		}
	}
	if s.pc.Entails(mkNot(tokNL(v))) {
		s.assume(mkNot(tokNL(n)))
	}
	return n
}

// stmtLike: elements of a list without commas.
func (w *parserWorld) stmtLike(s *State, l *ListV) bool {
	for _, a := range l.Atoms {
		switch x := a.E.(type) {
		case *StructV:
			return w.isAst(x.T, "SwitchCase")
		case *IfaceV:
			n := strings.TrimPrefix(typeName(x.T), "*")
			for _, suf := range []string{"Statement", "Declaration", "DeclNode", "Definition"} {
				if strings.HasSuffix(n, suf) {
					return true
				}
			}
			return false
		case *SymIface:
			for _, it := range s.g.(*pGhost).ws {
				if it.kind == "y" && same(it.v, x) {
					return it.k == "stmt"
				}
			}
		}
		if a.Base != nil {
			for _, it := range s.g.(*pGhost).ws {
				if it.kind == "list" {
					if k, ok := it.v.(*ListV); ok && len(k.Atoms) == 1 && same(k, l.with([]Atom{a})) {
						return it.form == "plain"
					}
				}
			}
		}
	}
	return false
}

// foldList gives a name to a list that writes back to the last tokens taken.
func (w *parserWorld) foldList(e *Exec, s *State, rs []root, l *ListV) bool {
	g := s.g.(*pGhost)
	forms := []string{"cterm", "csep"}
	if w.stmtLike(s, l) {
		forms = []string{"plain"}
	}
	for from := range g.ws {
		from := from
		ctx := g.ws[from].ctx
		for _, form := range forms {
			var strict, pro *Term
			match := func(body bool) func(m *matcher, k kont) bool {
				return func(m *matcher, k kont) bool {
					switch form {
					case "plain":
						return m.stmts(from, l, body, ctx, func(i int) bool {
							strict, pro = m.strict, m.pro
							return k(i)
						})
					case "cterm":
						return m.commas(from, l, elemOpts{hole: true, spread: true, rest: true, trailing: "required"}, ctx, k)
					}
					return m.commas(from, l, elemOpts{hole: true, spread: true, rest: true, trailing: "never"}, ctx, k)
				}
			}
			if w.run(e, s, false, false, false, false, match(false)) != nil {
				continue
			}
			it := &pItem{kind: "list", form: form, ctx: ctx, first: w.blur(s, g.ws[from].first)}
			what := "what a loop has collected"
			for _, x := range []struct {
				p, n    string
				b, c, d bool
			}{{"C04", " respects precedence and associativity", true, false, false}, {"C12", " respects line breaks", false, true, false}, {"C05", " holds no placeholder", false, false, true}} {
				m := w.run(e, s, false, x.b, x.c, x.d, match(false))
				e.record(s, []string{x.p}, what+x.n, m == nil, func() string { return m.why + "; tokens: " + w.wsString(s) })
			}
			it.okBlock = w.run(e, s, true, false, false, false, match(false)) == nil
			if form == "plain" {
				it.okBody = w.run(e, s, true, false, false, false, match(true)) == nil
				if it.okBody {
					it.strict, it.pro = w.settle(s, strict), w.settle(s, pro)
				} else {
					it.strict, it.pro = tFalse, tFalse
				}
			}
			e.record(s, []string{"C03"}, what+" writes back to the tokens taken", true, nil)
			var flags []string
			for i, a := range l.Atoms {
				if a.Base != nil {
					for _, o := range g.ws[from:] {
						if o.kind == "list" && same(o.v, l.with([]Atom{a})) {
							flags = append(flags, strings.Fields(o.info)...)
						}
					}
					continue
				}
				if form == "plain" {
					continue
				}
				m := w.matcher(e, s)
				if m.isHole(a.E) {
					flags = append(flags, "hole")
					if i == len(l.Atoms)-1 && form == "csep" {
						flags = append(flags, "holelast")
					}
				}
				if n, _, _ := m.nodeStruct(a.E); n == "SpreadElement" {
					flags = append(flags, "spread")
				}
				if m.isRest(a.E) {
					flags = append(flags, "rest")
				}
			}
			set := map[string]bool{}
			for _, f := range flags {
				set[f] = true
			}
			it.info = strings.Join(keysOf(set), " ")
			base := s.newSym("run", SU)
			nl := &ListV{Atoms: []Atom{{Base: base, Lo: mkInt(0), Hi: listLen(base), Src: l.Elem}}, Elem: l.Elem}
			s.assume(mkGe(listLen(base), mkInt(1)))
			if ct := w.ctList(s, l); ct != nil && s.pc.Entails(mkNot(ct)) {
				s.assume(mkNot(ctlTerm(base)))
				it.info += " free"
			}
			it.v = nl
			w.everywhere(s, rs, func(y Val) Val {
				if k, ok := y.(*ListV); ok && !k.Str && len(k.Atoms) > 0 && types.Identical(k.Elem, l.Elem) && same(k, l) {
					return nl
				}
				return nil
			})
			g.ws = append(append([]*pItem{}, g.ws[:from]...), it)
			return true
		}
	}
	return false
}

// settle simplifies a condition by what is known.
func (w *parserWorld) settle(s *State, t *Term) *Term {
	if s.pc.Entails(t) {
		return tTrue
	}
	if s.pc.Entails(mkNot(t)) {
		return tFalse
	}
	for _, c := range s.g.(*pGhost).ctx0 {
		if s.pc.Entails(mkIff(c, t)) {
			return c
		}
	}
	if t.Op == OSym {
		return t
	}
	n := s.newSym("cond", SBool)
	s.assume(mkIff(n, t))
	return n
}

// scrub forgets values that speak of tokens that are gone.
func (w *parserWorld) scrub(s *State, rs []root) {
	g := s.g.(*pGhost)
	old := func(v Val) bool {
		bad := false
		mapTerms(v, func(t *Term) *Term {
			bad = bad || w.stale(s, t)
			return t
		})
		return bad
	}
	var walk func(v Val, top bool) Val
	walk = func(v Val, top bool) Val {
		switch x := v.(type) {
		case *StructV:
			switch {
			case types.Identical(x.T, w.locT):
				if same(x, elemOf(locSeq, g.c, w.locT)) {
					return x
				}
				return symval(w.locT, "before")
			case isBaseNode(x.T):
				return zeroVal(x.T)
			case types.Identical(x.T, w.tokT) || types.Identical(x.T, w.reT):
				if old(x) {
					return s.freshVal(x.T, "tok")
				}
				return x
			}
			var fs []Val
			for i, y := range x.F {
				if z := walk(y, false); z != y {
					if fs == nil {
						fs = append([]Val{}, x.F...)
					}
					fs[i] = z
				}
			}
			if fs != nil {
				return &StructV{T: x.T, F: fs}
			}
		case *IfaceV:
			if y := walk(x.V, false); y != x.V {
				return &IfaceV{x.T, y}
			}
		case *Term:
			if top && w.stale(s, x) {
				return s.newSym("old", x.Sort)
			}
		case *ListV:
			if top && x.Str && old(x) {
				if t := strTerm(x); t != nil {
					return s.newSym("old", SStr)
				}
			}
		}
		return v
	}
	for _, r := range rs {
		v := r.get()
		if n := walk(v, true); n != v {
			r.set(n)
		}
	}
}

// detach gives the positions of the tokens still spoken of names of their own,
// so that a loop does not tell how far behind they are.
func (w *parserWorld) detach(s *State) {
	g := s.g.(*pGhost)
	idx := map[*Term]*Term{}
	see := func(v Val) {
		if v == nil {
			return
		}
		mapTerms(v, func(x *Term) *Term {
			tokIndexes(x, func(i *Term) {
				if d := mkSub(i, g.c); d.isConst() && d.N >= 0 || freshSym(i) && i != g.c && strings.HasPrefix(i.Name, "at#") {
					return
				}
				if idx[i] == nil {
					idx[i] = s.newSym("at", SInt)
				}
			})
			return x
		})
	}
	for _, it := range g.ws {
		if it.kind == "tok" || it.kind == "re" {
			see(it.v)
			see(it.re)
		}
		see(it.first)
		see(it.next2)
	}
	if len(idx) == 0 {
		return
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		return subst(t, func(x *Term) *Term {
			if x.Op == OApp && len(x.Args) == 2 && (x.Args[0] == tokSeq || x.Args[0] == reSeq) && strings.HasPrefix(x.Name, "elt") {
				if j := idx[x.Args[1]]; j != nil {
					return rebuild(x, []*Term{x.Args[0], j})
				}
			}
			return nil
		}, memo)
	}
	vf := func(v Val) Val {
		if v == nil {
			return nil
		}
		return mapTerms(v, f)
	}
	s.g.Map(f, vf)
	for _, r := range w.roots(s) {
		r.set(vf(r.get()))
	}
	np := newPC()
	for _, t := range s.pc.Facts() {
		np.add(f(t))
	}
	s.pc = np
}
