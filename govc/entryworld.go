package main

import "fmt"

// kwWorld verifies keywordToIdentifier against the contract its callers use.
type kwWorld struct {
	*parserWorld
	ctx3 [3]*Term
	tok  Val
	f    *Term
}

const kKeyword = "(*ecmascript/parser.parseContext).keywordToIdentifier"

func (w *kwWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn != nil && sourceCall(e, s, c) {
		return []*State{s}, true
	}
	if c.fn == nil {
		return nil, false
	}
	return libCall(e, s, c)
}

func (w *kwWorld) Header(e *Exec, s *State) []*State { return []*State{s} }
func (w *kwWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C01"}, "no panic", false, func() string { return valString(v) })
}
func (w *kwWorld) KeepFact(s *State, t *Term) bool  { return true }
func (w *kwWorld) Progress(e *Exec, s *State) *Term { return mkInt(0) }

func (w *kwWorld) Return(e *Exec, s *State, res Val) {
	w.ended++
	cond := w.allowed(tokType(w.tok), w.ctx3, w.f)
	r, ok := res.(*StructV)
	if !ok || tokType(r) == nil || tokLit(r) == nil || tokNL(r) == nil {
		e.limitf(s, "keywordToIdentifier returns %s", valString(res))
		return
	}
	e.record(s, []string{"C01", "C02"}, "the function returns a token", true, nil)
	id := mkIn(tokType(r), w.types("Identifier"))
	e.oblige(s, []string{"C10"}, "a word that may be an identifier becomes one", mkImplies(cond, id), valString(res))
	e.oblige(s, []string{"C10"}, "a word that is reserved and what is no word stay what they are", mkImplies(mkNot(cond), mkEq(tokType(r), tokType(w.tok))), valString(res))
	e.oblige(s, []string{"C10"}, "the literal of the word stays", mkEq(tokLit(r), tokLit(w.tok)), valString(res))
	e.oblige(s, []string{"C12"}, "the line break before the word stays", mkIff(tokNL(r), tokNL(w.tok)), valString(res))
}

func newKeywordExec(p *Program) *Exec {
	fn := p.findFn(kKeyword)
	pw, err := newParserWorld(p, &pUnit{fn: "keywordToIdentifier"})
	w := &kwWorld{parserWorld: pw}
	e := newExec(p, w, fn, kKeyword)
	if err != nil || fn == nil || sigOf(fn) != "lexer.Token,bool->lexer.Token" {
		e.limitf(nil, "keywordToIdentifier is missing or has another signature (%v)", err)
		return e
	}
	s := pw.initial(p, 1)
	g := s.g.(*pGhost)
	cv, _ := s.heap[g.self.(*PtrV).Cell].(*StructV)
	w.ctx3 = pw.ctx(s)
	w.tok = symval(pw.tokT, "tok")
	w.f = mkSym("force", SBool)
	rcv := &PtrV{Cell: s.alloc(cv.F[pw.ctxIdx])}
	g.args = []Val{rcv, w.tok, w.f}
	e.Inlined[kKeyword] = true
	e.pushFrame(s, fn, g.args, fkCall, nil)
	e.push(s)
	return e
}

// Parse: the errors of the parser become results, and nothing else changes.

func parseUnit() *pUnit {
	return &pUnit{fn: "Parse", must: true, free: true, still: true, init: func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
		fn := w.p.findFn("(*ecmascript/parser.Parser).Parse")
		if fn.Signature.Params().Len() != 1 {
			e.limitf(nil, "Parse has another signature")
			return nil, false
		}
		o, ok := symval(fn.Signature.Params().At(0).Type(), "opt").(*StructV)
		m, ok2 := field(o, "Mode").(*Term)
		if !ok || !ok2 {
			e.limitf(nil, "ParseOptions has no Mode")
			return nil, false
		}
		s.assume(mkIn(m, setRange(0, 2)))
		return []Val{o}, true
	}, ret: func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		t, ok := res.(TupleV)
		if !ok || len(t) != 2 {
			e.limitf(s, "Parse returns %s", valString(res))
			return
		}
		null := func(v Val) bool {
			x, ok := v.(*SymIface)
			return isNilVal(v) || ok && s.pc.Entails(mkIn(dynTerm(x.Term), setOf(0)))
		}
		full := func(v Val) bool {
			x, ok := v.(*SymIface)
			if ok {
				return s.pc.Entails(mkNot(mkIn(dynTerm(x.Term), setOf(0))))
			}
			_, ok = v.(*IfaceV)
			return ok
		}
		d := func() string { return fmt.Sprintf("%s and %s", valString(t[0]), valString(t[1])) }
		if g.raised == nil {
			e.record(s, []string{"C01"}, "a tree and no error is returned", full(t[0]) && null(t[1]), d)
			return
		}
		e.record(s, []string{"C01"}, "an error and no tree is returned", null(t[0]) && full(t[1]), d)
		e.record(s, []string{"C15"}, "the error raised is the error returned", same(t[1], g.raised), d)
	}}
}
