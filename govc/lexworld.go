package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// lexGhost is the specification state that runs along with the lexer: the
// automaton state reached on the runes before spos, and the texts it expects.
type lexGhost struct {
	sp      *lexSpec
	q       int
	stuck   string // why the automaton could not go on
	stuckAt *Term
	nl      bool
	pos     *Term // position of the scanner in the rune sequence
	spos    *Term // the automaton has run up to here
	eof     bool  // the scanner has met the end of input
	canUn   bool  // the last operation was a read
	lit     *ListV
	pat     *ListV
	flg     *ListV
	folds   int
	self    Val // the receiver
}

func (g *lexGhost) Clone() Ghost { n := *g; return &n }
func (g *lexGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.pos, g.spos = f(g.pos), f(g.spos)
	if g.stuckAt != nil {
		g.stuckAt = f(g.stuckAt)
	}
	g.self = vf(g.self)
	g.lit, g.pat, g.flg = vf(g.lit).(*ListV), vf(g.pat).(*ListV), vf(g.flg).(*ListV)
}
func (g *lexGhost) Visit(f func(Val)) {
	f(g.pos)
	f(g.spos)
	f(g.self)
	f(g.lit)
	f(g.pat)
	f(g.flg)
}
func (g *lexGhost) Key(vs func(Val) string) string {
	return fmt.Sprintf("q=%s stuck=%s nl=%v pos=%s spos=%s eof=%v un=%v lit=%s pat=%s flg=%s", g.sp.states[g.q].name, g.stuck, g.nl, g.pos, g.spos, g.eof, g.canUn,
		vs(g.lit), vs(g.pat), vs(g.flg))
}

type lexWorld struct {
	p        *Program
	relex    bool
	nlStart  *Term
	typeIdx  int // field indexes of Token
	litIdx   int
	nlIdx    int
	nlField  int
	consts   map[string]int64
	kwMap    map[string]int64
	lastTok  *StructV
	lastIdx  int
	hadErr   bool
	locField [2]int
}

func runeAt(i *Term) *Term { return mkApp("R", SInt, i) }

func structField(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// tokenConsts are the token type constants of the lexer by name.
func tokenConsts(p *Program) map[string]int64 {
	m := map[string]int64{}
	for n, mem := range p.Pkgs["ecmascript/lexer"].Members {
		if c, ok := mem.(*ssa.NamedConst); ok {
			if nt, ok := c.Type().(*types.Named); ok && nt.Obj().Name() == "TokenType" {
				if v, ok := constant.Int64Val(c.Value.Value); ok {
					m[n] = v
				}
			}
		}
	}
	return m
}

// locVal is the location the scanner reports at a position of the tape.
func locVal(t types.Type, pos *Term) Val { return symval(t, "loc", pos) }

// scannerCall is the contract of lexer.Scanner, as seen by the lexer. It is
// verified separately against the code of Scanner.
func (w *lexWorld) scannerCall(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil || c.fn.Signature.Recv() == nil {
		return nil, false
	}
	g := s.g.(*lexGhost)
	switch fnKey(c.fn) {
	case "(*ecmascript/lexer.Scanner).Read":
		if s.catches() {
			e.record(s, []string{"C15"}, "no error of the reader is intercepted", false, func() string { return "a recover is pending during Read" })
		}
		if g.eof {
			e.setResult(s, c.dst, mkInt(-1))
			return []*State{s}, true
		}
		r := runeAt(g.pos)
		y, n := e.branch(s, mkIn(r, eofSet))
		var outs []*State
		if n != nil {
			h := n.g.(*lexGhost)
			e.setResult(n, c.dst, r)
			h.pos = mkPlus(h.pos, 1)
			h.canUn = true
			outs = append(outs, n)
		}
		if y != nil {
			h := y.g.(*lexGhost)
			h.eof = true
			h.canUn = true
			e.setResult(y, c.dst, mkInt(-1))
			outs = append(outs, y)
		}
		return outs, true
	case "(*ecmascript/lexer.Scanner).Unread":
		e.record(s, []string{"C09", "C01"}, "Unread follows a Read", g.eof || g.canUn, func() string { return "two reads are undone in a row, or nothing was read" })
		if !g.eof {
			if !g.canUn {
				return nil, true
			}
			g.pos = mkPlus(g.pos, -1)
		}
		g.canUn = false
		e.setResult(s, c.dst, nil)
		return []*State{s}, true
	case "(*ecmascript/lexer.Scanner).Location":
		e.setResult(s, c.dst, locVal(c.fn.Signature.Results().At(0).Type(), g.pos))
		return []*State{s}, true
	}
	return nil, false
}

func (w *lexWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if o, ok := w.scannerCall(e, s, c); ok {
		return o, true
	}
	return libCall(e, s, c)
}

func (w *lexWorld) Progress(e *Exec, s *State) *Term {
	g := s.g.(*lexGhost)
	if g.eof {
		// the end of the input is met once
		return mkPlus(g.pos, 1)
	}
	return g.pos
}

// advance runs the automaton up to the given position, splitting the state
// where the runes known so far do not determine its path.
func (w *lexWorld) advance(e *Exec, s *State, upto *Term) []*State {
	return w.advanceTo(e, s, upto, false)
}

// advanceTo does so; with undo, the last rune is left where it fits nothing and
// reading it may still be undone.
func (w *lexWorld) advanceTo(e *Exec, s *State, upto *Term, undo bool) []*State {
	g := s.g.(*lexGhost)
	if g.stuck != "" {
		return []*State{s}
	}
	d := mkSub(upto, g.spos)
	if !d.isConst() {
		e.limitf(s, "the automaton lost track of the position: %s", d)
		return nil
	}
	if d.N <= 0 {
		return []*State{s}
	}
	r := runeAt(g.spos)
	var outs []*State
	cur := s
	st := g.sp.states[g.q]
	for _, ed := range st.edges {
		if cur == nil {
			break
		}
		var y *State
		y, cur = e.branch(cur, mkIn(r, ed.set))
		if y == nil {
			continue
		}
		if y == cur {
			cur = nil
		}
		h := y.g.(*lexGhost)
		h.q = ed.to
		h.spos = mkPlus(h.spos, 1)
		if ed.nl {
			h.nl = true
		}
		add := func(l *ListV) *ListV {
			return l.with(append(append([]Atom{}, l.Atoms...), Atom{E: r}))
		}
		if ed.keep&keepLit != 0 {
			h.lit = add(h.lit)
		}
		if ed.keep&keepPat != 0 {
			h.pat = add(h.pat)
		}
		if ed.keep&keepFlag != 0 {
			h.flg = add(h.flg)
		}
		outs = append(outs, w.advanceTo(e, y, upto, undo)...)
	}
	if cur != nil {
		h := cur.g.(*lexGhost)
		if undo && h.canUn && d.N == 1 {
			return append(outs, cur)
		}
		h.stuck = fmt.Sprintf("after %q", st.name)
		h.stuckAt = h.spos
		outs = append(outs, cur)
	}
	return outs
}

func (w *lexWorld) KeepFact(s *State, t *Term) bool {
	g, ok := s.g.(*lexGhost)
	if !ok {
		return true
	}
	keep := true
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == OApp && x.Name == "R" {
			d := mkSub(x.Args[0], g.spos)
			if r := mkSub(x.Args[0], g.pos); r.isConst() && r.N >= 0 {
				return // still to be read (again)
			}
			if !d.isConst() || d.N < -1 || d.N == -1 && !(g.canUn && w.holds(s, x)) {
				keep = false
			}
		}
	})
	return keep
}

// decided splits a state at a loop header so that the conditions the loop goes
// by are known.
func decided(e *Exec, s *State) []*State {
	f := s.top()
	for _, in := range f.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := f.info.num[ph]
		if t, ok := f.regs[r].(*Term); ok && t.Sort == SBool && !t.isConst() {
			var outs []*State
			y, n := e.branch(s, t)
			for k, st := range []*State{y, n} {
				if st != nil {
					st.top().set(r, mkBool(k == 0))
					outs = append(outs, decided(e, st)...)
				}
			}
			return outs
		}
	}
	return []*State{s}
}

// holds says whether the code still has the rune r in a variable.
func (w *lexWorld) holds(s *State, r *Term) bool {
	for _, f := range s.frames {
		for _, v := range f.regs {
			if t, ok := v.(*Term); ok && t.Sort != SStr {
				in := false
				walkTerm(t, map[*Term]bool{}, func(x *Term) { in = in || x == r })
				if in {
					return true
				}
			}
		}
	}
	return false
}

func (w *lexWorld) Header(e *Exec, s *State) []*State {
	var outs []*State
	var sts []*State
	for _, st := range w.advanceTo(e, s, s.g.(*lexGhost).pos, true) {
		sts = append(sts, decided(e, st)...)
	}
	for _, st := range sts {
		g := st.g.(*lexGhost)
		if g.stuck != "" {
			// an error must follow; remember only that
			g.stuckAt = g.spos
		}
		w.fold(st, &g.lit, "lit")
		w.fold(st, &g.pat, "pat")
		w.fold(st, &g.flg, "flg")
		outs = append(outs, st)
	}
	return outs
}

// fold replaces a text built so far, where it equals the expected one, by an
// unknown text in both places.
func (w *lexWorld) fold(s *State, lp **ListV, name string) {
	l := *lp
	n := len(l.Atoms)
	if n == 0 || w.foldPart(s, lp, name, n) {
		return
	}
	// the code may still have to add the last rune
	if n > 1 && l.Atoms[n-1].Base == nil {
		w.foldPart(s, lp, name, n-1)
	}
}

// foldPart does so for the first n parts of the expected text.
func (w *lexWorld) foldPart(s *State, lp **ListV, name string, n int) bool {
	l := *lp
	found := false
	want := constAtoms(s.pc, l.Atoms[:n])
	eq := func(v Val) bool {
		x, ok := v.(*ListV)
		return ok && len(x.Atoms) == len(want) && sameAtoms(constAtoms(s.pc, x.Atoms), want)
	}
	t := s.newSym(name, SStr)
	as := []Atom{{Base: t, Lo: mkInt(0), Hi: listLen(t)}}[:1:1]
	var rep func(v Val) Val
	rep = func(v Val) Val {
		if eq(v) {
			found = true
			return v.(*ListV).with(as)
		}
		if sv, ok := v.(*StructV); ok {
			n := &StructV{T: sv.T, F: make([]Val, len(sv.F))}
			for i := range sv.F {
				n.F[i] = rep(sv.F[i])
			}
			return n
		}
		return v
	}
	for _, c := range sortedCells(s.heap) {
		if v := s.heap[c]; v != nil {
			s.hset(c, rep(v))
		}
	}
	for _, f := range s.frames {
		for i, v := range f.regs {
			if v != nil {
				f.set(i, rep(v))
			}
		}
	}
	if found {
		s.pc, _ = s.pc.Assume(mkGe(listLen(t), mkInt(1)))
		*lp = l.with(append(as, l.Atoms[n:]...))
		if g := s.g.(*lexGhost); lp != &g.lit {
			// the text of the whole element has it too
			at := 1
			if lp == &g.flg {
				at = len(g.lit.Atoms) - len(l.Atoms)
			}
			la := g.lit.Atoms
			if at >= 0 && at+n <= len(la) && sameAtoms(constAtoms(s.pc, la[at:at+n]), want) {
				rest := append(append(append([]Atom{}, la[:at]...), as...), la[at+n:]...)
				g.lit = g.lit.with(rest)
			}
		}
	}
	return found
}

// constAtoms replaces runes known to have one value by it.
func constAtoms(p *PC, as []Atom) []Atom {
	out := append([]Atom{}, as...)
	for i, a := range out {
		if t, ok := a.E.(*Term); ok && a.Base == nil && t.Sort == SInt && !t.isConst() {
			if v, ok := p.DomOf(t).single(); ok {
				out[i].E = mkInt(v)
			}
		}
	}
	return out
}

func sameAtoms(a, b []Atom) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].Base == nil) != (b[i].Base == nil) {
			return false
		}
		if a[i].Base != nil {
			if a[i].Base != b[i].Base || a[i].Lo != b[i].Lo || a[i].Hi != b[i].Hi || a[i].F != b[i].F {
				return false
			}
		} else if !same(a[i].E, b[i].E) {
			return false
		}
	}
	return true
}

func (w *lexWorld) Panic(e *Exec, s *State, v Val) {
	g := s.g.(*lexGhost)
	prop := func(st *State) string { return st.g.(*lexGhost).sp.states[st.g.(*lexGhost).q].prop }
	w.checkError(e, s, v, g.pos)
	upto := g.pos
	if g.eof {
		upto = mkPlus(upto, 1)
	}
	for _, st := range w.advance(e, s, upto) {
		h := st.g.(*lexGhost)
		state := h.sp.states[h.q]
		ok := h.stuck != ""
		if !ok && h.stuckAt == nil {
			// the last rune may be one that must not follow
			prev := mkPlus(h.spos, -1)
			_ = prev
		}
		e.record(st, []string{prop(st)}, fmt.Sprintf("an error is raised only where no element of the grammar fits (%s)", state.name), ok, func() string {
			return fmt.Sprintf("in state %q, at %s of %s", state.name, h.spos, upto)
		})
	}
}

// checkError checks a value that is panicked with: C15.
func (w *lexWorld) checkError(e *Exec, s *State, v Val, pos *Term) {
	checkErrorValue(e, s, v, pos)
}

func checkErrorValue(e *Exec, s *State, v Val, pos *Term) {
	iv, ok := v.(*IfaceV)
	name := ""
	if ok {
		name = typeName(iv.T)
	}
	isErr := name == "*errs.SyntaxError" || name == "*errs.ParserError" || name == "*errs.EncodingError"
	e.record(s, []string{"C01", "C15"}, "only documented errors are raised", isErr, func() string { return "panic with " + valString(v) })
	if !isErr {
		return
	}
	p, ok := iv.V.(*PtrV)
	if !ok {
		e.limitf(s, "error value %s", valString(iv.V))
		return
	}
	sv, ok := pathGet(s.heap[p.Cell], p.Path).(*StructV)
	if !ok {
		e.limitf(s, "error value %s", valString(iv.V))
		return
	}
	li, ei := structField(sv.T, "Location"), structField(sv.T, "Err")
	if li < 0 || ei < 0 {
		e.limitf(s, "error type %s has no Location or Err", name)
		return
	}
	st := sv.T.Underlying().(*types.Struct)
	want := locVal(st.Field(li).Type(), pos)
	e.record(s, []string{"C15"}, "an error carries the current position", same(sv.F[li], want), func() string {
		return fmt.Sprintf("%s instead of %s", valString(sv.F[li]), valString(want))
	})
	nn := false
	switch x := sv.F[ei].(type) {
	case *IfaceV:
		nn = true
	case *SymIface:
		nn = s.pc.Entails(mkNot(mkIn(dynTerm(x.Term), setOf(0))))
	}
	e.record(s, []string{"C15"}, "an error carries a cause", nn, func() string { return valString(sv.F[ei]) })
}

func (w *lexWorld) Return(e *Exec, s *State, res Val) {
	g := s.g.(*lexGhost)
	tok, ok := res.(*StructV)
	var pat, flg Val
	if ok && w.relex {
		ti, pi, fi := structField(tok.T, "Token"), structField(tok.T, "Pattern"), structField(tok.T, "Flags")
		pat, flg = tok.F[pi], tok.F[fi]
		tok, ok = tok.F[ti].(*StructV)
	}
	if !ok {
		e.limitf(s, "result %s", valString(res))
		return
	}
	typ, _ := tok.F[w.typeIdx].(*Term)
	lit := tok.F[w.litIdx]
	nl, _ := tok.F[w.nlIdx].(*Term)
	if typ == nil || nl == nil {
		e.limitf(s, "result %s", valString(res))
		return
	}
	for _, st := range w.advance(e, s, g.pos) {
		h := st.g.(*lexGhost)
		q := h.sp.states[h.q]
		prop := q.prop
		if h.stuck != "" {
			e.record(st, []string{prop}, fmt.Sprintf("what is accepted fits the grammar (%s)", q.name), false, func() string {
				return fmt.Sprintf("the rune at %s is in %s", h.spos, st.pc.DomOf(runeAt(h.spos)))
			})
			continue
		}
		next := st.pc.DomOf(runeAt(h.pos))
		if h.eof {
			next = eofSet
		}
		name := q.name
		switch {
		case q.skip:
			e.record(st, []string{prop}, "white space and comments end only before a token or at the end of input", next.subsetOf(eofSet), func() string { return "next rune in " + next.String() })
			e.record(st, []string{"C07"}, "the end of input gives no token", typ == mkInt(w.consts["TokenNone"]), func() string { return "type " + typ.String() })
			w.litIs(e, st, "C07", "text of the end of input", lit, &ListV{Str: true})
		case q.label == "":
			e.record(st, []string{prop}, fmt.Sprintf("an element is complete when it is returned (%s)", name), false, func() string { return "state " + name })
			continue
		default:
			// maximality
			for _, ed := range q.edges {
				if !next.inter(ed.set).empty() {
					e.record(st, []string{prop}, fmt.Sprintf("the longest element is taken (%s)", name), false, func() string {
						return fmt.Sprintf("the next rune may be in %s", next.inter(ed.set))
					})
				}
			}
			e.record(st, []string{prop}, fmt.Sprintf("the longest element is taken (%s)", name), true, nil)
			if !q.bad.empty() {
				e.record(st, []string{prop}, fmt.Sprintf("nothing follows that may not follow directly (%s)", name), next.inter(q.bad).empty(), func() string {
					return fmt.Sprintf("the next rune may be in %s", next.inter(q.bad))
				})
			}
			want, known := w.consts[q.label]
			if !known {
				e.limitf(st, "no constant %s", q.label)
				continue
			}
			props := []string{prop, "C14"}
			if w.relex {
				props = []string{"C17", "C14"}
			}
			if q.label == "TokenIdentifier" {
				w.checkKeyword(e, st, typ, lit, h)
			} else {
				e.record(st, props, fmt.Sprintf("the token type is right (%s)", name), st.pc.Entails(mkEq(typ, mkInt(want))), func() string {
					return fmt.Sprintf("type %s, expected %s", typ, q.label)
				})
			}
			exp := h.lit
			if len(q.label) > 15 && q.label[:15] == "TokenPunctuator" {
				exp = &ListV{Str: true}
			}
			w.litIs(e, st, props[0], fmt.Sprintf("the token text is exact (%s)", name), lit, exp)
			if w.relex {
				w.litIs(e, st, "C17", "the pattern is exact", pat, h.pat)
				w.litIs(e, st, "C17", "the flags are exact", flg, h.flg)
			}
		}
		if w.relex {
			e.record(st, []string{"C08"}, "a re-read token keeps its line break flag", nl == w.nlStart, func() string { return nl.String() })
		} else {
			e.record(st, []string{"C08"}, "the line break flag is exact", nl == mkBool(h.nl), func() string { return fmt.Sprintf("flag %s, skipped %v", nl, h.nl) })
		}
		// invariants of the Lexer between calls
		var lx *StructV
		if p, isP := h.self.(*PtrV); isP {
			lx, _ = st.heap[p.Cell].(*StructV)
		}
		e.record(st, []string{"C08", "C11", "C17"}, "the lexer is still there", lx != nil, func() string { return "" })
		if lx != nil {
			lst := lx.T.Underlying().(*types.Struct)
			for i := 0; i < lst.NumFields(); i++ {
				if basicKind(lst.Field(i).Type()) == types.Bool {
					e.record(st, []string{"C08"}, "no line break flag is left over", lx.F[i] == Val(tFalse), func() string { return valString(lx.F[i]) })
				}
			}
			lf := w.lastIdx
			if lf >= 0 {
				e.record(st, []string{"C17", "C11"}, "the last token is remembered for re-reading", same(lx.F[lf], tok), func() string {
					return valString(lx.F[lf]) + " instead of " + valString(tok)
				})
			}
		}
		e.record(st, []string{"C09"}, "the scanner is left right after the token", h.pos == h.spos, func() string { return fmt.Sprintf("at %s, token ends at %s", h.pos, h.spos) })
	}
}

func (w *lexWorld) litIs(e *Exec, s *State, prop, name string, got Val, want *ListV) {
	ok := false
	if l := asList(got); l != nil {
		ok = sameAtoms(normAtoms(s.pc, l.Atoms), normAtoms(s.pc, want.Atoms))
		if !ok {
			// runes known to be a constant
			ok = len(l.Atoms) == len(want.Atoms)
			for i := 0; ok && i < len(l.Atoms); i++ {
				a, b := l.Atoms[i], want.Atoms[i]
				x, o1 := a.E.(*Term)
				y, o2 := b.E.(*Term)
				switch {
				case a.Base != nil && b.Base != nil:
					ok = sameAtoms([]Atom{a}, []Atom{b})
				case o1 && o2:
					ok = s.pc.Entails(mkEq(x, y))
				default:
					ok = false
				}
			}
		}
	}
	e.record(s, []string{prop, "C14"}, name, ok, func() string { return fmt.Sprintf("%s instead of %s", valString(got), valString(want)) })
}

// checkKeyword checks the type given to a name.
func (w *lexWorld) checkKeyword(e *Exec, s *State, typ *Term, lit Val, h *lexGhost) {
	lt := strTerm(lit)
	if lt == nil {
		e.limitf(s, "text %s", valString(lit))
		return
	}
	lt = s.pc.norm(lt)
	kw := map[string]int64{}
	for k, c := range keywords {
		kw[k] = w.consts["TokenKeyword"+c]
	}
	ok := false
	why := ""
	switch {
	case lt.isConst():
		n, is := kw[lt.Name]
		if !is {
			n = w.consts["TokenIdentifier"]
		}
		ok = typ == mkInt(n)
		why = lt.Name
	case typ.Op == OApp && len(typ.Args) == 1 && len(typ.Name) > 4 && typ.Name[:4] == "map:":
		// looked up in a table: the table must be the specification's
		ok = typ.Args[0] == strTerm(lit)
		for m, n := range w.p.mapIDs {
			if "map:"+n != typ.Name {
				continue
			}
			w.tableIs(e, s, m, kw)
		}
		why = "table lookup of " + typ.Args[0].String()
	case typ == mkInt(w.consts["TokenIdentifier"]):
		// not a keyword
		for m, n := range w.p.mapIDs {
			if s.pc.Entails(mkNot(mkApp("inmap:"+n, SBool, strTerm(lit)))) {
				ok = true
				w.tableIs(e, s, m, kw)
			}
		}
		if !ok {
			ok = true
			for k := range kw {
				if !s.pc.Entails(mkNot(mkEq(strTerm(lit), mkStr(k)))) {
					ok = false
					why = "it may be " + k
				}
			}
		}
	}
	e.record(s, []string{"C07"}, "keywords are told from identifiers by their spelling", ok, func() string { return fmt.Sprintf("type %s for %s: %s", typ, lt, why) })
}

// tableIs checks that a map holds exactly the given entries.
func (w *lexWorld) tableIs(e *Exec, s *State, m *MapV, want map[string]int64) {
	got := map[string]int64{}
	for i, k := range m.Keys {
		if v, ok := m.Vals[i].(*Term); ok && v.isConst() {
			got[k.Name] = v.N
		}
	}
	bad := ""
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			bad = k
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			bad = k
		}
	}
	e.record(s, []string{"C07"}, "the keyword table is ECMAScript's", bad == "", func() string { return "entry " + bad })
}

// newLexExec prepares the verification of Lex or ReLex.
func newLexExec(p *Program, key string) *Exec {
	fn := p.findFn(key)
	w := &lexWorld{p: p, relex: key == "(*ecmascript/lexer.Lexer).ReLex", consts: tokenConsts(p)}
	e := newExec(p, w, fn, key)
	if fn == nil {
		e.limitf(nil, "function %s not found", key)
		return e
	}
	lt := deref(fn.Params[0].Type())
	var tokT types.Type
	if w.relex {
		rt := fn.Signature.Results().At(0).Type()
		tokT = rt.Underlying().(*types.Struct).Field(structField(rt, "Token")).Type()
	} else {
		tokT = fn.Signature.Results().At(0).Type()
	}
	w.typeIdx, w.litIdx, w.nlIdx = structField(tokT, "Type"), structField(tokT, "Literal"), structField(tokT, "NewLine")
	n := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n}
	pos := s.newSym("pos", SInt)
	s.pc, _ = s.pc.Assume(mkGe0(pos))
	g := &lexGhost{sp: tokenSpec(), pos: pos, spos: pos, lit: &ListV{Str: true}, pat: &ListV{Str: true}, flg: &ListV{Str: true}}
	if w.relex {
		g.sp = regexpSpec()
	}
	s.g = g
	// the lexer
	lv := symval(lt, "lexer").(*StructV)
	lst := lt.Underlying().(*types.Struct)
	for i := 0; i < lst.NumFields(); i++ {
		f := lst.Field(i)
		switch {
		case basicKind(f.Type()) == types.Bool:
			// flags are clear between calls (checked at every return)
			lv.F[i] = tFalse
		case types.Identical(f.Type(), tokT):
			w.lastIdx = i
			if w.relex {
				tv := symval(tokT, "last").(*StructV)
				tt := tv.F[w.typeIdx].(*Term)
				div, da := w.consts["TokenPunctuatorDiv"], w.consts["TokenPunctuatorDivAssign"]
				s.pc, _ = s.pc.Assume(mkIn(tt, setOf(div, da)))
				tv.F[w.litIdx] = mkStr("")
				w.nlStart, _ = tv.F[w.nlIdx].(*Term)
				lv.F[i] = tv
			}
		}
		if pt, ok := f.Type().(*types.Pointer); ok && typeName(pt.Elem()) == "lexer.Scanner" {
			lv.F[i] = &PtrV{Cell: s.alloc(symval(pt.Elem(), "scanner"))}
		}
	}
	self := &PtrV{Cell: s.alloc(lv)}
	g.self = self
	e.pushFrame(s, fn, []Val{self}, fkCall, nil)
	if w.relex {
		// split on the token re-read, and let the expected text start with it
		tt := lv.F[w.lastIdx].(*StructV).F[w.typeIdx].(*Term)
		n := s.fork()
		s.pc, _ = s.pc.Assume(mkEq(tt, mkInt(w.consts["TokenPunctuatorDiv"])))
		n.pc, _ = n.pc.Assume(mkEq(tt, mkInt(w.consts["TokenPunctuatorDivAssign"])))
		g1, g2 := s.g.(*lexGhost), n.g.(*lexGhost)
		g1.lit = asList(mkStr("/"))
		g2.lit, g2.pat = asList(mkStr("/=")), asList(mkStr("="))
		e.push(n)
	}
	e.push(s)
	return e
}
