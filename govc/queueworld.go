package main

import (
	"fmt"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The contract of parser.Scanner (C11): the lexer gives tokens T(0), T(1), ...
// and stands at LL(k) after k of them. The scanner has given out c tokens and
// the lexer n >= c of them. Scan gives T(c), PeekAt(i) gives T(c+i) and lexes
// no further than that, Location is LL(c): nothing depends on n. The
// representation invariant (what the fields hold, in terms of c and n) is
// taken from the code: the shapes met from NewScanner on must be closed.

type queueGhost struct {
	c, n  *Term
	c0    *Term // c before the operation
	i     *Term // argument of PeekAt
	self  Val
	limit *Term // tokens may be lexed up to here
	relex int
}

func (g *queueGhost) Clone() Ghost { n := *g; return &n }
func (g *queueGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.c, g.n, g.c0, g.i = f(g.c), f(g.n), f(g.c0), f(g.i)
	if g.limit != nil {
		g.limit = f(g.limit)
	}
	g.self = vf(g.self)
}
func (g *queueGhost) Visit(f func(Val)) {
	f(g.c)
	f(g.n)
	f(g.c0)
	f(g.i)
	f(g.self)
	if g.limit != nil {
		f(g.limit)
	}
}
func (g *queueGhost) Key(vs func(Val) string) string {
	return fmt.Sprintf("c=%s,%s n=%s i=%s %s lim=%v relex=%d", g.c, g.c0, g.n, g.i, vs(g.self), g.limit, g.relex)
}

type queueWorld struct {
	protoWorld
	p *Program
}

func (w *queueWorld) Progress(e *Exec, s *State) *Term { return s.g.(*queueGhost).n }
func (w *queueWorld) Grows() bool                      { return true }
func (w *queueWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil {
		return nil, false
	}
	g := s.g.(*queueGhost)
	res := c.fn.Signature.Results()
	switch fnKey(c.fn) {
	case "(*ecmascript/lexer.Lexer).Lex":
		ok := g.limit != nil && s.pc.Entails(mkLt(g.n, g.limit))
		e.record(s, []string{"C11", "C02"}, "no token is lexed before it is asked for", ok, func() string { return fmt.Sprintf("%v tokens asked for, %v lexed", g.limit, g.n) })
		if s.catches() {
			e.record(s, []string{"C15"}, "no error of the lexer is intercepted", false, func() string { return "a recover is pending during Lex" })
		}
		v := elemOf(tokSeq, g.n, res.At(0).Type())
		g.n = mkPlus(g.n, 1)
		g.relex = 0
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	case "(*ecmascript/lexer.Lexer).Location":
		e.setResult(s, c.dst, elemOf(locSeq, g.n, res.At(0).Type()))
		return []*State{s}, true
	case "(*ecmascript/lexer.Lexer).ReLex":
		e.record(s, []string{"C11", "C17"}, "only the token scanned last is read again", s.pc.Entails(mkEq(g.n, g.c)), func() string { return fmt.Sprintf("%v scanned, %v lexed", g.c, g.n) })
		g.relex++
		e.setResult(s, c.dst, elemOf(reSeq, g.n, res.At(0).Type()))
		return []*State{s}, true
	}
	if sourceCall(e, s, c) {
		return []*State{s}, true
	}
	return libCall(e, s, c)
}

// sourceCall gives the texts of tokens in messages a name; what they are is
// verified for C14.
func sourceCall(e *Exec, s *State, c *CallInfo) bool {
	switch fnKey(c.fn) {
	case "(ecmascript/lexer.Token).Source", "(ecmascript/lexer.TokenType).String":
		if strTerm(c.args[0]) == nil {
			e.setResult(s, c.dst, s.newSym("text", SStr))
			return true
		}
	}
	return false
}

var (
	tokSeq = mkSym("T", SU)
	locSeq = mkSym("LL", SU)
	reSeq  = mkSym("RT", SU)
	qC     = mkSym("c", SInt)
	qN     = mkSym("n", SInt)
)

func newQueueExec(p *Program) *Exec {
	e := newExec(p, &protoWorld{}, nil, "ecmascript/parser.Scanner")
	e.driver = func() { e.limit = 60 * time.Second; verifyQueue(e, p) }
	return e
}

func verifyQueue(e *Exec, p *Program) {
	get := func(n string) *ssa.Function {
		fn := p.findFn(n)
		if fn == nil {
			e.limitf(nil, "%s is missing", n)
		}
		return fn
	}
	ctor := get("ecmascript/parser.NewScanner")
	scan := get("(*ecmascript/parser.Scanner).Scan")
	peek := get("(*ecmascript/parser.Scanner).PeekAt")
	plen := get("(*ecmascript/parser.Scanner).PeekLen")
	loc := get("(*ecmascript/parser.Scanner).Location")
	rescan := get("(*ecmascript/parser.Scanner).ReScan")
	expect := get("(*ecmascript/parser.Scanner).ScanExpect")
	serr := get("(*ecmascript/parser.Scanner).SyntaxError")
	for _, f := range []*ssa.Function{ctor, scan, peek, plen, loc, rescan, expect, serr} {
		if f == nil {
			return
		}
	}
	lx := symval(ctor.Params[0].Type(), "lexer")
	run := func(fn *ssa.Function, s *State, args []Val) []outcome {
		w := &queueWorld{p: p}
		x := newExec(p, w, fn, e.name+": "+fnKey(fn))
		x.start, x.limit = e.start, e.limit
		x.Inlined[fnKey(fn)] = true
		x.pushFrame(s, fn, args, fkCall, nil)
		x.push(s)
		x.run()
		e.merge(x)
		return w.outs
	}
	fresh := func(obj *StructV, same bool) (*State, Val) {
		k := 0
		s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
		c, n := s.newSym("c", SInt), s.newSym("n", SInt)
		s.pc, _ = s.pc.Assume(mkGe0(c))
		if same {
			n = c
		} else {
			s.pc, _ = s.pc.Assume(mkLt(c, n))
		}
		g := &queueGhost{c: c, n: n, c0: c, i: mkInt(0), self: mkInt(0)}
		s.g = g
		memo := map[*Term]*Term{}
		name := func(t *Term) *Term {
			switch t {
			case qC:
				return c
			case qN:
				return n
			}
			return nil
		}
		s.pc, _ = s.pc.Assume(nonNil(lx.(*SymPtr).Term))
		if obj != nil {
			g.self = &PtrV{Cell: s.alloc(mapTerms(obj, func(t *Term) *Term { return subst(t, name, memo) }))}
		}
		return s, g.self
	}
	s, _ := fresh(nil, true)
	outs := run(ctor, s, []Val{lx})
	if len(outs) != 1 || outs[0].panic {
		e.limitf(nil, "NewScanner has %d ends", len(outs))
		return
	}
	pv, ok := outs[0].res.(*PtrV)
	if !ok {
		e.limitf(nil, "NewScanner returns %s", valString(outs[0].res))
		return
	}
	obj0, _ := outs[0].s.heap[pv.Cell].(*StructV)
	if obj0 == nil {
		e.limitf(nil, "NewScanner builds nothing")
		return
	}
	type shape struct {
		obj   *StructV
		equal bool // c = n
	}
	// canon renames the counters of an end state
	canon := func(s *State, what string) *shape {
		g := s.g.(*queueGhost)
		pv, ok := g.self.(*PtrV)
		if !ok {
			return nil
		}
		obj, ok := s.heap[pv.Cell].(*StructV)
		if !ok {
			return nil
		}
		equal := s.pc.Entails(mkEq(g.n, g.c))
		if !equal && !s.pc.Entails(mkGe(g.n, g.c)) {
			e.limitf(s, "fewer tokens lexed than given out")
			return nil
		}
		// terms equal to c' or n' get their names
		conv := func(t *Term) *Term {
			if t.Sort != SInt || t.isConst() {
				return nil
			}
			if t == g.c || s.pc.Entails(mkEq(t, g.c)) {
				return qC
			}
			if t == g.n || s.pc.Entails(mkEq(t, g.n)) {
				if equal {
					return qC
				}
				return qN
			}
			return nil
		}
		memo := map[*Term]*Term{}
		out := &StructV{T: obj.T}
		for _, f := range obj.F {
			v := f
			if l, ok := f.(*ListV); ok {
				v = l.with(normAtoms(s.pc, l.Atoms))
			}
			v = mapTerms(v, func(t *Term) *Term {
				if t.Sort == SInt || t.Sort == SU {
					return subst(t, conv, memo)
				}
				return nil
			})
			if l, ok := v.(*ListV); ok {
				v = l.with(normAtoms(s.pc, l.Atoms))
				if len(v.(*ListV).Atoms) == 0 {
					v = &ListV{Elem: l.Elem} // nil and empty queues are not told apart
				}
			}
			out.F = append(out.F, v)
		}
		return &shape{out, equal}
	}
	key := func(sh *shape) string { return fmt.Sprintf("%s %v", valString(sh.obj), sh.equal) }
	emptied := &StructV{T: obj0.T}
	for _, f := range obj0.F {
		if _, isNil := f.(*NilV); isNil {
			f = &ListV{}
		}
		if l, ok := f.(*ListV); ok && len(l.Atoms) == 0 {
			f = &ListV{Elem: l.Elem}
		}
		emptied.F = append(emptied.F, f)
	}
	work := []*shape{{obj0, true}}
	seen := map[string]bool{}
	all := []string{"C11"}
	for len(work) > 0 {
		sh := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[key(sh)] {
			continue
		}
		seen[key(sh)] = true
		if len(seen) > 12 {
			e.limitf(nil, "the representation of parser.Scanner does not settle: %s", key(sh))
			return
		}
		add := func(o outcome, what string) {
			g := o.s.g.(*queueGhost)
			y, n := e.branch(o.s, mkEq(g.n, g.c))
			for _, x := range []*State{y, n} {
				if x == nil {
					continue
				}
				if sh := canon(x, what); sh != nil {
					work = append(work, sh)
				}
			}
		}
		is := func(o outcome, what string, want Val) {
			e.record(o.s, all, what, !o.panic && same(normVal(o.s, o.res), normVal(o.s, want)), func() string {
				return fmt.Sprintf("%s instead of %s in shape %s", valString(o.res), valString(want), key(sh))
			})
		}
		tokT, locT := scan.Signature.Results().At(0).Type(), loc.Signature.Results().At(0).Type()
		counters := func(o outcome, what string, dc int64) {
			g := o.s.g.(*queueGhost)
			n := mkPlus(g.c0, dc)
			e.record(o.s, all, what+": scanned tokens", s0eq(o.s, g.c, n), func() string { return g.c.String() })
		}
		start := func() (*State, Val, *queueGhost) {
			s, self := fresh(sh.obj, sh.equal)
			return s, self, s.g.(*queueGhost)
		}
		// Scan: the ghost gives out T(c); the code must return it
		s, self, g := start()
		g.limit = mkPlus(g.c, 1)
		for _, o := range run(scan, s, []Val{self}) {
			h := o.s.g.(*queueGhost)
			is(o, "Scan gives the next token", elemOf(tokSeq, cOf(o), tokT))
			h.c = mkPlus(h.c, 1)
			e.record(o.s, all, "Scan lexes what it gives", o.s.pc.Entails(mkGe(h.n, h.c)), func() string { return h.n.String() })
			add(o, "Scan")
			// the position right after
			s2 := o.s.fork()
			s2.frames = nil
			for _, q := range run(loc, s2, []Val{h.self}) {
				is(q, "Location after Scan is the position after the token", elemOf(locSeq, mkPlus(cOf(o), 1), locT))
			}
		}
		// PeekAt
		s, self, g = start()
		g.i = s.newSym("i", SInt)
		s.pc, _ = s.pc.Assume(mkGe0(g.i))
		g.limit = mkPlus(mkAdd(g.c, g.i), 1)
		for _, o := range run(peek, s, []Val{self, g.i}) {
			h := o.s.g.(*queueGhost)
			is(o, "PeekAt(i) gives the i-th token ahead", elemOf(tokSeq, mkAdd(h.c0, h.i), tokT))
			counters(o, "PeekAt", 0)
			add(o, "PeekAt")
		}
		// PeekLen
		s, self, _ = start()
		for _, o := range run(plen, s, []Val{self}) {
			t, _ := o.res.(*Term)
			h := o.s.g.(*queueGhost)
			ahead := mkSub(h.n, h.c)
			e.record(o.s, all, "PeekLen is the number of tokens lexed ahead", t != nil && o.s.pc.Entails(mkEq(t, ahead)), func() string { return valString(o.res) })
			add(o, "PeekLen")
		}
		// Location
		s, self, _ = start()
		for _, o := range run(loc, s, []Val{self}) {
			is(o, "Location does not depend on lookahead", elemOf(locSeq, cOf(o), locT))
			add(o, "Location")
		}
		// ReScan
		s, self, _ = start()
		for _, o := range run(rescan, s, []Val{self}) {
			h := o.s.g.(*queueGhost)
			if o.panic {
				e.record(o.s, all, "a token can be read again when nothing was peeked", !o.s.pc.Entails(mkEq(h.n, h.c)) && h.relex == 0, func() string { return "panic: " + valString(o.res) })
				continue
			}
			e.record(o.s, all, "a token is read again exactly once", h.relex == 1, func() string { return fmt.Sprint(h.relex) })
			is(o, "ReScan gives the token read again", elemOf(reSeq, cOf(o), rescan.Signature.Results().At(0).Type()))
			add(o, "ReScan")
		}
		// SyntaxError
		s, self, _ = start()
		for _, o := range run(serr, s, []Val{self, mkSym("msg", SStr)}) {
			e.record(o.s, []string{"C15"}, "SyntaxError raises an error", o.panic, func() string { return "it returns" })
			if o.panic {
				checkErrorAt(e, o.s, o.res, elemOf(locSeq, cOf(o), locT))
			}
		}
		// ScanExpect
		s, self, g = start()
		g.limit = mkPlus(g.c, 1)
		typ := symval(expect.Params[1].Type(), "typ")
		for _, o := range run(expect, s, []Val{self, typ, mkSym("msg", SStr)}) {
			want := elemOf(tokSeq, cOf(o), tokT)
			ti := structField(tokT, "Type")
			tt := want.(*StructV).F[ti].(*Term)
			eq := mkEq(tt, typ.(*Term))
			h := o.s.g.(*queueGhost)
			h.c = mkPlus(h.c, 1)
			if o.panic {
				checkErrorAt(e, o.s, o.res, elemOf(locSeq, mkPlus(cOf(o), 1), locT))
				e.record(o.s, []string{"C11", "C03"}, "ScanExpect fails only on another token", o.s.pc.Entails(mkNot(eq)), func() string { return "" })
				continue
			}
			is(o, "ScanExpect gives the next token", want)
			e.record(o.s, []string{"C11", "C03"}, "ScanExpect gives a token of the type asked for", o.s.pc.Entails(eq), func() string { return "" })
			add(o, "ScanExpect")
		}
	}
	if len(seen) < 2 {
		e.limitf(nil, "only %d shapes of parser.Scanner were met", len(seen))
	}
	e.Assumed["contract of lexer.Lexer for the token queue (Lex gives one token after the other; verified for C07, C08, C11, C17; that Lexer.Location is the location of its scanner is not verified)"] = true
}

func cOf(o outcome) *Term { return o.s.g.(*queueGhost).c0 }

func s0eq(s *State, a, b *Term) bool { return a == b || s.pc.Entails(mkEq(a, b)) }

// normVal gives positions the path condition makes equal to the number of
// tokens scanned (or one more) that name.
func normVal(s *State, v Val) Val {
	g := s.g.(*queueGhost)
	memo := map[*Term]*Term{}
	conv := func(t *Term) *Term {
		if t.Sort != SInt || t.isConst() || t.Op == OApp {
			return nil
		}
		for k := int64(0); k < 2; k++ {
			if x := mkPlus(g.c0, k); t == x || s.pc.Entails(mkEq(t, x)) {
				return x
			}
		}
		return nil
	}
	return mapTerms(v, func(t *Term) *Term { return subst(t, conv, memo) })
}

// checkErrorAt checks an error value raised by the parser.
func checkErrorAt(e *Exec, s *State, v Val, want Val) {
	name, sv, li, ei := errParts(s, v)
	ok := name == "*errs.SyntaxError" || name == "*errs.ParserError" || name == "*errs.EncodingError"
	e.record(s, []string{"C01", "C15"}, "only documented errors are raised", ok && sv != nil && li >= 0 && ei >= 0, func() string { return "panic with " + valString(v) })
	if sv == nil || li < 0 || ei < 0 {
		return
	}
	e.record(s, []string{"C15", "C11"}, "an error carries the position of the next token to scan", same(normVal(s, sv.F[li]), normVal(s, want)), func() string {
		return fmt.Sprintf("%s instead of %s", valString(sv.F[li]), valString(want))
	})
	nn := false
	switch x := sv.F[ei].(type) {
	case *IfaceV:
		nn = true
	case *SymIface:
		nn = s.pc.Entails(mkNot(mkIn(dynTerm(x.Term), setOf(0))))
	}
	e.record(s, []string{"C15"}, "an error carries a cause", nn, func() string { return valString(sv.F[ei]) })
}
