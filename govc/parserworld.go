package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contracts of the parser. Every function of the recursive knot of
// ecmascript/parser is verified by itself against a contract; everything else
// is inlined. The central postcondition is that the tree returned, written
// back as tokens by the rules in parsematch.go, is the sequence of tokens the
// function took from the scanner (C03), with the contexts (C10), precedence
// levels (C04), line break conditions (C12) and absence of placeholders (C05)
// those rules demand. A call by contract adds one item, standing for all the
// tokens its result writes back to, to the sequence.

// pItem is a part of the sequence of tokens taken so far.
type pItem struct {
	kind  string // "tok", "re" (a token read again as a regular expression), "y" (result of a call), "list"
	k     string // of a "y": which contract it came from
	v     Val    // the token, the result, or the list
	re    Val    // of a "re": the ReToken
	ctx   [3]*Term
	first Val // the first token
	next2 Val // of a "y": the second token, if it was looked at
	info  string
	// of a "list"
	form    string // "plain", "csep" (commas between), "cterm" (a comma after each)
	okBlock bool   // every element is in context ctx
	okBody  bool   // every element is in the context of a function body that starts in ctx
	strict  *Term  // the strictness after the directives seen
	pro     *Term  // the directive prologue still goes on
}

type pGhost struct {
	self   Val
	c      *Term   // index of the next token
	m      *Term   // a lower bound of the number of tokens taken, not counting the end of input
	adv    bool    // m has grown since the function was entered
	pend   []*Term // types of tokens taken that are not in m yet
	pk     int     // no more tokens than this have been looked ahead
	ws     []*pItem
	ctx0   [3]*Term // context at entry
	args   []Val
	raised Val // the error a callee has raised last
}

func (g *pGhost) Clone() Ghost {
	n := *g
	n.ws = append([]*pItem{}, g.ws...)
	n.pend = append([]*Term{}, g.pend...)
	return &n
}

func (w *pItem) mapped(f func(*Term) *Term, vf func(Val) Val) *pItem {
	x := *w
	x.v = vf(w.v)
	if w.re != nil {
		x.re = vf(w.re)
	}
	if w.first != nil {
		x.first = vf(w.first)
	}
	if w.next2 != nil {
		x.next2 = vf(w.next2)
	}
	for i := range x.ctx {
		x.ctx[i] = f(w.ctx[i])
	}
	if w.strict != nil {
		x.strict, x.pro = f(w.strict), f(w.pro)
	}
	return &x
}

func (g *pGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.self = vf(g.self)
	g.c, g.m = f(g.c), f(g.m)
	for i, t := range g.pend {
		g.pend[i] = f(t)
	}
	ws := make([]*pItem, len(g.ws))
	for i, w := range g.ws {
		ws[i] = w.mapped(f, vf)
	}
	g.ws = ws
	for i := range g.ctx0 {
		g.ctx0[i] = f(g.ctx0[i])
	}
	as := make([]Val, len(g.args))
	for i, a := range g.args {
		as[i] = vf(a)
	}
	g.args = as
	if g.raised != nil {
		g.raised = vf(g.raised)
	}
}

func (g *pGhost) Visit(f func(Val)) {
	f(g.self)
	f(g.c)
	f(g.m)
	for _, w := range g.ws {
		f(w.v)
		if w.re != nil {
			f(w.re)
		}
		if w.first != nil {
			f(w.first)
		}
		if w.next2 != nil {
			f(w.next2)
		}
		for _, c := range w.ctx {
			f(c)
		}
		if w.strict != nil {
			f(w.strict)
			f(w.pro)
		}
	}
	for _, c := range g.ctx0 {
		f(c)
	}
	for _, a := range g.args {
		f(a)
	}
	if g.raised != nil {
		f(g.raised)
	}
}

func (w *pItem) str(vs func(Val) string) string {
	r := w.kind
	switch w.kind {
	case "tok":
		r += vs(w.v)
	case "re":
		r += vs(w.re)
	case "y":
		r += ":" + w.k + " " + w.info + " " + vs(w.v)
	case "list":
		r += ":" + w.form + " " + w.info + " " + vs(w.v) + fmt.Sprintf(" %v,%v", w.okBlock, w.okBody)
		if w.strict != nil {
			r += fmt.Sprintf(" %v,%v", w.strict, w.pro)
		}
	}
	return r + fmt.Sprintf(" ctx%v", w.ctx)
}

func (g *pGhost) Key(vs func(Val) string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s c=%s m=%s adv=%v pk=%d ctx0=%v", vs(g.self), g.c, g.m, g.adv, g.pk, g.ctx0)
	for _, w := range g.ws {
		b.WriteString(" ; " + w.str(vs))
	}
	for _, a := range g.args {
		b.WriteString(" arg " + vs(a))
	}
	return b.String()
}

// parserWorld interprets the calls of parser functions by contract.
type parserWorld struct {
	p      *Program
	tk     map[string]int64
	kw     *Set // all keywords
	unit   *pUnit
	tokT   types.Type
	reT    types.Type
	locT   types.Type
	sIdx   int // fields of Parser
	ctxIdx int
	ctxF   [3]int // fields of parseContext
	astT   map[string]types.Type
	consts map[string]int64 // constants of package ast
	ended  int              // paths that reached the end
	fields map[string]int
}

const (
	kPar = "(*ecmascript/parser.Parser)."
	kSc  = "(*ecmascript/parser.Scanner)."
)

func newParserWorld(p *Program, u *pUnit) (*parserWorld, error) {
	w := &parserWorld{p: p, tk: tokenConsts(p), unit: u, astT: map[string]types.Type{}, consts: map[string]int64{}}
	scan := p.findFn(kSc + "Scan")
	rescan := p.findFn(kSc + "ReScan")
	loc := p.findFn(kSc + "Location")
	if scan == nil || rescan == nil || loc == nil {
		return nil, fmt.Errorf("parser.Scanner is missing")
	}
	w.tokT = scan.Signature.Results().At(0).Type()
	w.reT = rescan.Signature.Results().At(0).Type()
	w.locT = loc.Signature.Results().At(0).Type()
	var kws []int64
	for n, v := range w.tk {
		if strings.HasPrefix(n, "TokenKeyword") {
			kws = append(kws, v)
		}
	}
	w.kw = setOf(kws...)
	pp := p.Pkgs["ecmascript/parser"]
	t := pp.Type("Parser")
	if t == nil {
		return nil, fmt.Errorf("parser.Parser is missing")
	}
	pt := t.Type()
	w.sIdx, w.ctxIdx = -1, -1
	st := pt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch typeName(st.Field(i).Type()) {
		case "*parser.Scanner":
			w.sIdx = i
		case "parser.parseContext":
			w.ctxIdx = i
		}
	}
	if w.sIdx < 0 || w.ctxIdx < 0 {
		return nil, fmt.Errorf("parser.Parser has an unknown shape")
	}
	ct := st.Field(w.ctxIdx).Type()
	for i, n := range []string{"strictMode", "async", "generator"} {
		w.ctxF[i] = structField(ct, n)
		if w.ctxF[i] < 0 {
			return nil, fmt.Errorf("parser.parseContext has no field %s", n)
		}
	}
	ap := p.Pkgs["ecmascript/ast"]
	for n, mem := range ap.Members {
		switch x := mem.(type) {
		case *ssa.Type:
			w.astT[n] = x.Type()
		case *ssa.NamedConst:
			if v, ok := constInt(x.Value); ok {
				w.consts[n] = v
			}
		}
	}
	return w, nil
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	return c.Int64(), true
}

func (w *parserWorld) types(names ...string) *Set {
	var xs []int64
	for _, n := range names {
		v, ok := w.tk["Token"+n]
		if !ok {
			v = -1000 // no such token
		}
		xs = append(xs, v)
	}
	return setOf(xs...)
}

// field returns a field of a struct value by name.
func field(v Val, name string) Val {
	s, ok := v.(*StructV)
	if !ok {
		return nil
	}
	i := structField(s.T, name)
	if i < 0 {
		return nil
	}
	return s.F[i]
}

func tokType(v Val) *Term { t, _ := field(v, "Type").(*Term); return t }
func tokLit(v Val) *Term  { return strTerm(field(v, "Literal")) }
func tokNL(v Val) *Term   { t, _ := field(v, "NewLine").(*Term); return t }

func (w *parserWorld) token(i *Term) Val { return elemOf(tokSeq, i, w.tokT) }

// next is the next token to scan.
func (w *parserWorld) next(s *State) Val { return w.token(s.g.(*pGhost).c) }

func (w *parserWorld) ctxVal(s *State) *StructV {
	g := s.g.(*pGhost)
	p, _ := s.heap[g.self.(*PtrV).Cell].(*StructV)
	if p == nil {
		return nil
	}
	c, _ := p.F[w.ctxIdx].(*StructV)
	return c
}

func (w *parserWorld) ctxTerms(c *StructV) (r [3]*Term, ok bool) {
	if c == nil {
		return r, false
	}
	for i := range r {
		t, is := c.F[w.ctxF[i]].(*Term)
		if !is {
			return r, false
		}
		r[i] = t
	}
	return r, true
}

func (w *parserWorld) ctx(s *State) [3]*Term {
	r, ok := w.ctxTerms(w.ctxVal(s))
	if !ok {
		return [3]*Term{tFalse, tFalse, tFalse}
	}
	return r
}

// allowed is the condition under which ECMAScript lets a word of the given
// type be an identifier.
func (w *parserWorld) allowed(typ *Term, ctx [3]*Term, force *Term) *Term {
	never := w.types("KeywordAs", "KeywordAsync", "KeywordFrom", "KeywordGet", "KeywordMeta", "KeywordOf", "KeywordSet", "KeywordTarget")
	strict := w.types("KeywordImplements", "KeywordInterface", "KeywordLet", "KeywordPackage", "KeywordPrivate", "KeywordProtected", "KeywordPublic", "KeywordStatic")
	return mkOr(
		mkIn(typ, never),
		mkAnd(mkIn(typ, strict), mkNot(ctx[0])),
		mkAnd(mkIn(typ, w.types("KeywordAwait")), mkNot(ctx[1])),
		mkAnd(mkIn(typ, w.types("KeywordYield")), mkNot(ctx[2])),
		mkAnd(mkIn(typ, w.kw), force))
}

func (w *parserWorld) flush(s *State) {
	g := s.g.(*pGhost)
	n := int64(0)
	for _, t := range g.pend {
		if s.pc.Entails(mkNot(mkIn(t, setOf(w.tk["TokenNone"])))) {
			n++
		}
	}
	g.pend = nil
	if n > 0 {
		g.m = mkPlus(g.m, n)
		g.adv = true
	}
}

func (w *parserWorld) Progress(e *Exec, s *State) *Term {
	w.flush(s)
	return s.g.(*pGhost).m
}

// tokIndexes calls f for every token position a term mentions.
func tokIndexes(t *Term, f func(i *Term)) {
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == OApp && len(x.Args) == 2 && (x.Args[0] == tokSeq || x.Args[0] == reSeq) && strings.HasPrefix(x.Name, "elt") {
			f(x.Args[1])
		}
	})
}

// stale reports whether a term speaks of a token that is gone.
func (w *parserWorld) stale(s *State, t *Term) bool {
	g := s.g.(*pGhost)
	bad := false
	tokIndexes(t, func(i *Term) {
		if bad {
			return
		}
		if d := mkSub(i, g.c); d.isConst() && d.N >= 0 {
			return
		}
		for _, it := range g.ws {
			for _, v := range []Val{it.v, it.first, it.re, it.next2} {
				st, ok := v.(*StructV)
				if !ok || (it.kind == "y" || it.kind == "list") && !same(v, it.first) && !same(v, it.next2) {
					continue
				}
				found := false
				mapTerms(st, func(x *Term) *Term {
					tokIndexes(x, func(j *Term) {
						if j == i {
							found = true
						}
					})
					return x
				})
				if found {
					return
				}
			}
		}
		bad = true
	})
	return bad
}

func (w *parserWorld) KeepFact(s *State, t *Term) bool {
	if t.Op == OIn && freshSym(t.Args[0]) && (strings.HasPrefix(t.Args[0].Name, "m#") || strings.HasPrefix(t.Args[0].Name, "c#")) {
		return false // bounds of positions play no role
	}
	return !w.stale(s, t)
}

// parserCell reports whether a value is the parser of this run.
func (w *parserWorld) isSelf(s *State, v Val) bool { return same(v, s.g.(*pGhost).self) }

// advance takes the next token.
func (w *parserWorld) advance(s *State) Val {
	g := s.g.(*pGhost)
	t := w.token(g.c)
	g.ws = append(g.ws, &pItem{kind: "tok", v: t, first: t, ctx: w.ctx(s)})
	g.pend = append(g.pend, tokType(t))
	g.c = mkPlus(g.c, 1)
	if g.pk > 0 {
		g.pk--
	}
	return t
}

func (w *parserWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.method != nil && c.method.Name() == "ContainsTemporalNodes" {
		if t := w.ctOf(s, c.recv); t != nil {
			e.Assumed["ContainsTemporalNodes tells whether a node is or holds a placeholder (verified for C05)"] = true
			e.setResult(s, c.dst, t)
			return []*State{s}, true
		}
	}
	if c.fn == nil {
		if _, ok := c.recv.(*SymIface); ok && c.method != nil {
			switch c.method.Name() {
			case "Span":
				e.setResult(s, c.dst, s.freshVal(c.method.Type().(*types.Signature).Results().At(0).Type(), "span"))
				return []*State{s}, true
			}
		}
		return nil, false
	}
	key := fnKey(c.fn)
	g := s.g.(*pGhost)
	if strings.HasPrefix(key, kSc) {
		switch strings.TrimPrefix(key, kSc) {
		case "Scan":
			w.mayRaise(e, s)
			t := w.advance(s)
			// Only ReScan gives a regular expression (C07).
			if !s.assume(mkNot(mkIn(tokType(t), w.types("LiteralRegExp")))) {
				return nil, true
			}
			e.setResult(s, c.dst, t)
			return []*State{s}, true
		case "PeekAt":
			i, ok := c.args[1].(*Term)
			if !ok || !i.isConst() || i.N < 0 {
				e.limitf(s, "lookahead by an unknown number of tokens")
				return nil, true
			}
			if g.pk < int(i.N)+1 {
				g.pk = int(i.N) + 1
			}
			e.setResult(s, c.dst, w.token(mkPlus(g.c, i.N)))
			return []*State{s}, true
		case "PeekLen":
			n := s.newSym("ahead", SInt)
			s.assume(mkIn(n, setRange(0, int64(g.pk))))
			e.setResult(s, c.dst, n)
			return []*State{s}, true
		case "ScanExpect":
			typ, ok := c.args[1].(*Term)
			if !ok {
				return nil, false
			}
			w.mustExpect(e, s, typ)
			t := w.advance(s)
			if s.catches() {
				n := s.fork()
				if n.assume(mkNot(mkEq(tokType(t), typ))) {
					w.raise(e, n)
				}
			}
			if !s.assume(mkEq(tokType(t), typ)) {
				return nil, true
			}
			e.setResult(s, c.dst, t)
			return []*State{s}, true
		case "SyntaxError":
			w.mustIdent(e, s)
			w.mustPrimary(e, s)
			if s.catches() {
				w.raise(e, s)
			}
			return nil, true
		case "Location":
			e.setResult(s, c.dst, elemOf(locSeq, g.c, w.locT))
			return []*State{s}, true
		case "ReScan":
			div := w.types("PunctuatorDiv", "PunctuatorDivAssign")
			ok := len(g.ws) > 0 && g.ws[len(g.ws)-1].kind == "tok"
			if ok {
				ok = s.pc.Entails(mkIn(tokType(g.ws[len(g.ws)-1].v), div))
			}
			e.record(s, []string{"C03"}, "only a `/` or `/=` just scanned is read again as a regular expression", ok, func() string { return w.wsString(s) })
			e.record(s, []string{"C01", "C03"}, "nothing is looked ahead when a token is read again", g.pk == 0, func() string { return fmt.Sprintf("%d tokens may be", g.pk) })
			if !ok || g.pk != 0 {
				return nil, true
			}
			re := elemOf(reSeq, mkPlus(g.c, -1), w.reT)
			tv := field(re, "Token")
			if tv == nil || !s.assume(mkIn(tokType(tv), w.types("LiteralRegExp"))) {
				e.limitf(s, "ReToken has an unknown shape")
				return nil, true
			}
			old := g.ws[len(g.ws)-1]
			g.ws[len(g.ws)-1] = &pItem{kind: "re", v: tv, re: re, first: old.first, ctx: old.ctx}
			e.setResult(s, c.dst, re)
			return []*State{s}, true
		}
		return nil, false
	}
	switch key {
	case "(ecmascript/lexer.Token).StringConstant", "(ecmascript/lexer.Token).NumberConstant":
		str := strings.HasSuffix(key, "StringConstant")
		n, f, so := "LiteralNumber", "numconst", SU
		if str {
			n, f, so = "LiteralString", "strconst", SStr
		}
		typ := tokType(c.args[0])
		e.record(s, []string{"C01"}, "the value of a literal is only taken of a literal of its kind", typ != nil && s.pc.Entails(mkIn(typ, w.types(n))), func() string { return valString(c.args[0]) })
		lit := tokLit(c.args[0])
		if lit == nil {
			e.limitf(s, "%s of an unknown token", f)
			return nil, true
		}
		e.setResult(s, c.dst, mkApp(f, so, lit))
		return []*State{s}, true
	case "(*ecmascript/parser.parseContext).keywordToIdentifier":
		if len(c.args) == 3 {
			if o, ok := w.keyword(e, s, c); ok {
				return o, true
			}
		}
	}
	if sourceCall(e, s, c) {
		return []*State{s}, true
	}
	if strings.HasPrefix(key, kPar) {
		if ct := parserContracts[strings.TrimPrefix(key, kPar)]; ct != nil && sigOf(c.fn) == ct.sig {
			if !w.isSelf(s, c.args[0]) {
				e.limitf(s, "%s on another parser", key)
				return nil, true
			}
			return ct.call(w, e, s, c)
		}
	}
	return libCall(e, s, c)
}

// mustExpect checks that a token is only insisted on where the grammar does:
// a semicolon is not, where one is inserted (outside the head of a for).
func (w *parserWorld) mustExpect(e *Exec, s *State, typ *Term) {
	if !typ.isConst() || typ.N != w.tk["TokenPunctuatorSemicolon"] {
		return
	}
	g := s.g.(*pGhost)
	head := false
	for _, it := range g.ws {
		if it.kind != "tok" {
			continue
		}
		ty := tokType(it.v)
		switch {
		case s.pc.Entails(mkIn(ty, w.types("KeywordFor"))):
			head = true
		case s.pc.Entails(mkIn(ty, w.types("PunctuatorCloseParen"))):
			head = false
		}
	}
	if head {
		return
	}
	n := w.next(s)
	nl := tokNL(n)
	if nl == nil {
		return
	}
	e.oblige(s, []string{"C12"}, "no semicolon is insisted on where one is inserted",
		mkOr(mkIn(tokType(n), w.types("PunctuatorSemicolon")), mkNot(mkOr(nl, mkIn(tokType(n), w.types("None", "PunctuatorCloseBrace"))))),
		w.wsString(s))
}

// mustIdent checks that a name is only refused where its word is reserved.
func (w *parserWorld) mustIdent(e *Exec, s *State) {
	for i := len(s.frames) - 1; i > 0; i-- {
		f := s.frames[i]
		var force *Term
		switch f.fn.Name() {
		case "expectIdent":
			force = tFalse
		case "forceIdent":
			force = tTrue
		default:
			continue
		}
		if f.fn.Signature.Recv() == nil {
			continue
		}
		for _, p := range f.fn.Params {
			v := e.val(s, f, p)
			if ty := tokType(v); ty != nil {
				e.oblige(s, []string{"C10"}, "a name is only refused where its word is reserved",
					mkAnd(mkNot(mkIn(ty, w.types("Identifier"))), mkNot(w.allowed(ty, w.ctx(s), force))), w.wsString(s))
			}
		}
		return
	}
}

// mustPrimary checks that a word that is not reserved where it stands is taken
// as an operand (after "async" the next token may be what is wrong).
func (w *parserWorld) mustPrimary(e *Exec, s *State) {
	g := s.g.(*pGhost)
	if s.frames[0].fn.Name() != "parseExpression" || len(g.ws) != 1 || g.ws[0].kind != "tok" {
		return
	}
	if ty := tokType(g.ws[0].v); ty != nil && tokLit(g.ws[0].v) != nil {
		e.oblige(s, []string{"C10"}, "a word that is not reserved here is an operand", mkOr(mkNot(w.allowed(ty, g.ws[0].ctx, tFalse)), mkEq(tokLit(g.ws[0].v), mkStr("async"))), w.wsString(s))
	}
}

// raise makes the error paths of a call visible when a recover is pending.
func (w *parserWorld) raise(e *Exec, s *State) { w.raiseType(e, s, "SyntaxError") }

func (w *parserWorld) raiseType(e *Exec, s *State, name string) {
	t := w.errType(name)
	if t == nil {
		e.limitf(s, "errs.%s is missing", name)
		return
	}
	p := &SymPtr{t, s.newSym("err", SU)}
	s.assume(nonNil(p.Term))
	v := &IfaceV{types.NewPointer(t), p}
	s.g.(*pGhost).raised = v
	outs, cont := e.doPanic(s, v)
	if cont {
		outs = append(outs, s)
	}
	for _, o := range outs {
		e.push(o)
	}
}

func (w *parserWorld) errType(n string) types.Type {
	if p := w.p.Pkgs["ecmascript/errs"]; p != nil {
		if t := p.Type(n); t != nil {
			return t.Type()
		}
	}
	return nil
}

// keyword is the contract of keywordToIdentifier.
func (w *parserWorld) keyword(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	cv, ok := e.load(s, c.args[0])
	if !ok {
		return nil, false
	}
	sv, _ := cv.(*StructV)
	ctx, ok := w.ctxTerms(sv)
	if !ok {
		return nil, false
	}
	t, ok := c.args[1].(*StructV)
	force, ok2 := c.args[2].(*Term)
	if !ok || !ok2 || tokType(t) == nil {
		return nil, false
	}
	cond := w.allowed(tokType(t), ctx, force)
	y, n := e.branch(s, cond)
	var outs []*State
	if y != nil {
		r := &StructV{T: t.T, F: append([]Val{}, t.F...)}
		r.F[structField(t.T, "Type")] = mkInt(w.tk["TokenIdentifier"])
		e.setResult(y, c.dst, r)
		outs = append(outs, y)
	}
	if n != nil {
		e.setResult(n, c.dst, t)
		outs = append(outs, n)
	}
	return outs, true
}

func (w *parserWorld) wsString(s *State) string {
	var b strings.Builder
	for _, it := range s.g.(*pGhost).ws {
		switch it.kind {
		case "tok":
			b.WriteString(w.tokName(s, it.v))
		case "re":
			b.WriteString("/regexp/")
		case "y":
			b.WriteString("<" + it.k + " " + valString(it.v) + ">")
		case "list":
			b.WriteString("[" + it.form + "]")
		}
		b.WriteString(" ")
	}
	return b.String()
}

func (w *parserWorld) tokName(s *State, v Val) string {
	t := tokType(v)
	if t == nil {
		return "?"
	}
	d := s.pc.DomOf(t)
	var ns []string
	for n, x := range w.tk {
		if d.has(x) {
			ns = append(ns, strings.TrimPrefix(n, "Token"))
		}
	}
	if len(ns) > 4 {
		return fmt.Sprintf("(%d types)", len(ns))
	}
	return strings.Join(sortedStrings(ns), "|")
}

func sortedStrings(x []string) []string {
	for i := range x {
		for j := i + 1; j < len(x); j++ {
			if x[j] < x[i] {
				x[i], x[j] = x[j], x[i]
			}
		}
	}
	return x
}

// call is what all contracts of the parser have in common: the precondition
// on lookahead, and the progress made.
func (w *parserWorld) enter(e *Exec, s *State, callee string, carry bool) {
	g := s.g.(*pGhost)
	w.flush(s)
	if !g.adv {
		e.edges[w.unit.fn+" -> "+callee] = true
	}
	if g.pk > 1 {
		div := w.types("PunctuatorDiv", "PunctuatorDivAssign")
		ok := g.pk <= 2 && s.pc.Entails(mkNot(mkIn(tokType(w.next(s)), div)))
		e.record(s, []string{"C01", "C03"}, "no more than one token is looked ahead before a regular expression", ok, func() string {
			return fmt.Sprintf("up to %d tokens looked ahead at the call of %s before %s", g.pk, callee, w.tokName(s, w.next(s)))
		})
	} else {
		e.record(s, []string{"C01", "C03"}, "no more than one token is looked ahead before a regular expression", true, nil)
	}
}

// result adds the result of a contracted call to the sequence. The first n
// items from the end are taken over by it.
func (w *parserWorld) result(s *State, k string, v Val, ctx [3]*Term, carry int) *pItem {
	g := s.g.(*pGhost)
	it := &pItem{kind: "y", k: k, v: v, ctx: ctx, first: w.next(s)}
	if g.pk > 1 {
		it.next2 = w.token(mkPlus(g.c, 1))
	}
	if carry > 0 {
		it.next2 = nil
		it.first = g.ws[len(g.ws)-carry].first
		g.ws = g.ws[: len(g.ws)-carry : len(g.ws)-carry]
	}
	g.ws = append(g.ws, it)
	old := g.c
	g.c = s.newSym("c", SInt)
	s.assume(mkGe(g.c, mkPlus(old, 1)))
	g.m = mkPlus(g.m, 1)
	g.adv = true
	g.pk = 1
	return it
}

// carried checks that the sequence ends with tokens of the given types.
func (w *parserWorld) carried(e *Exec, s *State, callee string, sets ...*Set) bool {
	g := s.g.(*pGhost)
	ok := len(g.ws) >= len(sets)
	for i, set := range sets {
		if !ok {
			break
		}
		it := g.ws[len(g.ws)-len(sets)+i]
		ok = it.kind == "tok" && s.pc.Entails(mkIn(tokType(it.v), set))
	}
	e.record(s, []string{"C03"}, "what "+callee+" completes has been opened", ok, func() string { return w.wsString(s) })
	return ok
}

func (w *parserWorld) isAst(t types.Type, name string) bool {
	return typeName(t) == "ast."+name
}

func constBool(v Val) (bool, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return false, false
	}
	return t == tTrue, true
}

func (w *parserWorld) Unroll(n int64) bool { return n <= 8 }
