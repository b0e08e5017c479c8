package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pUnit is one function of the parser under verification.
type pUnit struct {
	fn      string // its name
	variant string
	sig     string // its parameter and result types, when a contract depends on them
	must    bool   // the function has to exist
	pk2     bool   // it may be called with two tokens looked ahead
	init    func(w *parserWorld, e *Exec, s *State) ([]Val, bool)
	ret     func(w *parserWorld, e *Exec, s *State, res Val)
	free    bool // the context need not be restored
	still   bool // it may return without taking a token
}

type pContract struct {
	sig  string
	call func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool)
}

// sigOf describes the parameter and result types of a method.
func sigOf(fn *ssa.Function) string {
	var ps, rs []string
	sg := fn.Signature
	for i := 0; i < sg.Params().Len(); i++ {
		ps = append(ps, typeName(sg.Params().At(i).Type()))
	}
	for i := 0; i < sg.Results().Len(); i++ {
		rs = append(rs, typeName(sg.Results().At(i).Type()))
	}
	return strings.Join(ps, ",") + "->" + strings.Join(rs, ",")
}

var temporalTypes = []string{"ast.TemporalEmptyArrowHead", "ast.TemporalArrayRestElement", "ast.TemporalObjectRestElement", "ast.TemporalFloatingRestElement"}

func (w *parserWorld) dynSet(names ...string) *Set {
	var xs []int64
	for _, n := range names {
		xs = append(xs, w.dynID(n))
	}
	return setOf(xs...)
}

// give finishes a contracted call: the result is stored, and when a recover is
// pending, the errors the callee may raise appear.
func (w *parserWorld) give(e *Exec, s *State, c *CallInfo, v Val) {
	e.setResult(s, c.dst, v)
}

// mayRaise lets a call raise any of the parser's errors.
func (w *parserWorld) mayRaise(e *Exec, s *State) {
	if !s.catches() {
		return
	}
	for _, n := range []string{"SyntaxError", "EncodingError", "ParserError"} {
		w.raiseType(e, s.fork(), n)
	}
}

func constOf(s *State, v Val) (int64, bool) {
	t, ok := v.(*Term)
	if !ok {
		return 0, false
	}
	if t.isConst() {
		return t.N, true
	}
	return s.pc.DomOf(t).single()
}

const (
	flagIn    = 1
	flagArrow = 2
)

// opsFrom is the set of binary operators of a level of at least n.
func (w *parserWorld) opsFrom(n int64, in bool) *Set {
	var ts []string
	for op, l := range binLevel {
		if l >= n && (in || op != "BinaryInOp") {
			ts = append(ts, binTok[op])
		}
	}
	return w.types(ts...)
}

// exprFacts is what is known about the result of parseExpression; the same
// formulas are the obligations of its verification.
func (w *parserWorld) exprFacts(x *Term, order *Term, flags int64, next Val) []namedFact {
	var fs []namedFact
	add := func(prop, name string, t *Term) { fs = append(fs, namedFact{prop, name, t}) }
	dyn, lev, ct, nt := dynTerm(x), levTerm(x), ctTerm(x), tokType(next)
	add("C01", "an expression is returned", mkNot(mkIn(dyn, w.dynSet("ast.TemporalEmptyArrowHead").union(setOf(0)))))
	if flags&flagArrow == 0 {
		add("C05", "no placeholder is returned where no arrow function may begin", mkAnd(mkNot(ct), mkNot(mkIn(dyn, w.dynSet(temporalTypes...)))))
	} else {
		holders := append([]string{"ast.ArrayExpression", "ast.ObjectExpression", "ast.SequenceExpression"}, temporalTypes...)
		add("C05", "only lists hold placeholders", mkAnd(mkImplies(ct, mkIn(dyn, w.dynSet(holders...))), mkImplies(mkIn(dyn, w.dynSet(temporalTypes...)), ct)))
	}
	add("C04", "the expression has at least the precedence asked for", mkOr(mkGe(lev, order), mkAnd(mkIn(order, setOf(17)), mkIn(lev, setOf(15)))))
	add("C04", "only a sequence has the precedence of a comma", mkIff(mkIn(lev, setOf(0)), mkIn(dyn, w.dynSet("ast.SequenceExpression"))))
	in := flags&flagIn == 0
	for l := int64(3); l <= 13; l++ {
		only := w.opsFrom(l, in).minus(w.opsFrom(l+1, in))
		if !only.empty() {
			add("C04", "no operator of a higher precedence is left over", mkOr(mkNot(mkIn(order, setRange(3, l))), mkNot(mkIn(nt, only))))
		}
	}
	add("C04", "the callee of new is complete", mkOr(mkNot(mkIn(order, setOf(17))), mkAnd(mkNot(mkIn(nt, w.types("PunctuatorDot", "PunctuatorOpenBracket"))),
		mkOr(mkNot(mkIn(lev, setOf(15))), mkNot(mkIn(nt, w.types("PunctuatorOpenParen")))))))
	return fs
}

func mkIff(a, b *Term) *Term { return mkAnd(mkOr(mkNot(a), b), mkOr(a, mkNot(b))) }

type namedFact struct {
	prop, name string
	t          *Term
}

func (w *parserWorld) callExpression(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	order, ok := c.args[1].(*Term)
	flags, ok2 := constOf(s, c.args[2])
	if !ok || !ok2 || flags < 0 || flags > 2 {
		e.limitf(s, "parseExpression with the flags %s", valString(c.args[2]))
		return nil, true
	}
	g := s.g.(*pGhost)
	w.enter(e, s, "parseExpression", false)
	e.oblige(s, []string{"C04"}, "parseExpression is asked for a precedence it supports", mkIn(order, exprOrders), fmt.Sprint(order))
	var outs []*State
	w.mayRaise(e, s)
	if flags&flagArrow != 0 {
		y, n := e.branch(s, mkIn(tokType(w.next(s)), w.types("PunctuatorCloseParen")))
		if y != nil {
			t := w.astT["TemporalEmptyArrowHead"]
			yg := y.g.(*pGhost)
			if yg.pk < 1 {
				yg.pk = 1
			}
			w.give(e, y, c, &IfaceV{t, zeroVal(t)})
			outs = append(outs, y)
		}
		if n == nil {
			return outs, true
		}
		s = n
		g = s.g.(*pGhost)
	}
	x := &SymIface{s.newSym("x", SU)}
	ctx := w.ctx(s)
	w.result(s, "expr", x, ctx, 0)
	_ = g
	for _, f := range w.exprFacts(x.Term, order, flags, w.next(s)) {
		if !s.assume(f.t) {
			return outs, true
		}
	}
	w.give(e, s, c, x)
	return append(outs, s), true
}

var exprOrders = setRange(0, 15).union(setOf(17))

// stmtFacts is what is known about a statement.
func (w *parserWorld) stmtFacts(x *Term, next Val) []namedFact {
	return []namedFact{
		{"C01", "a statement is returned", mkNot(mkIn(dynTerm(x), setOf(0)))},
		{"C05", "no placeholder is returned as a statement", mkAnd(mkNot(ctTerm(x)), mkNot(mkIn(dynTerm(x), w.dynSet(temporalTypes...))))},
		{"C03", "an else belongs to the nearest if", mkOr(mkNot(openTerm(x)), mkNot(mkIn(tokType(next), w.types("KeywordElse"))))},
	}
}

func (w *parserWorld) callStatement(item bool) func(_ *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	return func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
		name := "parseStatement"
		if item {
			name = "parseStatementItem"
		}
		w.enter(e, s, name, false)
		w.mayRaise(e, s)
		var outs []*State
		if !item {
			n := s.fork()
			if n.assume(mkNot(mkIn(tokType(w.next(n)), w.types("PunctuatorDiv", "PunctuatorDivAssign")))) {
				n.g.(*pGhost).pk = 2
				w.give(e, n, c, &NilV{})
				outs = append(outs, n)
			}
		}
		x := &SymIface{s.newSym("x", SU)}
		w.result(s, "stmt", x, w.ctx(s), 0)
		for _, f := range w.stmtFacts(x.Term, w.next(s)) {
			if !s.assume(f.t) {
				return outs, true
			}
		}
		w.give(e, s, c, x)
		return append(outs, s), true
	}
}

// callPlain is a contract whose result stands for the tokens taken.
func callPlain(name, k string, prefix int, sets func(w *parserWorld) []*Set, val func(w *parserWorld, s *State, t types.Type) Val, ctx func(w *parserWorld, s *State, c *CallInfo) (ctx3, bool)) func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	return func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
		var cs []*Set
		if sets != nil {
			cs = sets(w)
		}
		if len(cs) > 0 && !w.carried(e, s, name, cs...) {
			return nil, true
		}
		w.enter(e, s, name, len(cs) > 0)
		w.mayRaise(e, s)
		cx := w.ctx(s)
		if ctx != nil {
			var ok bool
			if cx, ok = ctx(w, s, c); !ok {
				e.limitf(s, "%s with unknown arguments", name)
				return nil, true
			}
		}
		v := val(w, s, c.fn.Signature.Results().At(0).Type())
		w.result(s, k, v, cx, len(cs))
		w.give(e, s, c, v)
		return []*State{s}, true
	}
}

func valFresh(w *parserWorld, s *State, t types.Type) Val { return s.freshVal(t, "r") }

func valList(w *parserWorld, s *State, t types.Type) Val {
	l := s.freshVal(t, "run").(*ListV)
	s.assume(mkNot(l.NilT))
	l.NilT = nil
	s.assume(mkNot(ctlTerm(l.Atoms[0].Base)))
	return l
}

func valPtr(w *parserWorld, s *State, t types.Type) Val {
	p := &SymPtr{t.Underlying().(*types.Pointer).Elem(), s.newSym("p", SU)}
	s.assume(nonNil(p.Term))
	return p
}

func fnFlags(w *parserWorld, s *State, c *CallInfo) (ctx3, bool) {
	a, ok := c.args[1].(*Term)
	g, ok2 := c.args[2].(*Term)
	return ctx3{w.ctx(s)[0], a, g}, ok && ok2
}

func punct(n string) func(w *parserWorld) []*Set {
	return func(w *parserWorld) []*Set { return []*Set{w.types("Punctuator" + n)} }
}

// callTail is the contract of parseArrayTail and parseObjectTail.
func callTail(name, open, node string) func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	return func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
		flags, ok := constOf(s, c.args[2])
		if !ok || flags != 0 && flags != flagArrow {
			e.limitf(s, "%s with the flags %s", name, valString(c.args[2]))
			return nil, true
		}
		if !w.carried(e, s, name, w.types("Punctuator"+open)) {
			return nil, true
		}
		w.enter(e, s, name, true)
		w.mayRaise(e, s)
		x := &SymIface{s.newSym("x", SU)}
		w.result(s, "expr", x, w.ctx(s), 1)
		s.assume(mkIn(dynTerm(x.Term), w.dynSet("ast."+node)))
		s.assume(mkIn(levTerm(x.Term), setOf(18)))
		if flags == 0 {
			s.assume(mkNot(ctTerm(x.Term)))
		}
		w.give(e, s, c, x)
		return []*State{s}, true
	}
}

func callFunctionTail(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	a, ok := constOf(s, c.args[2])
	if !ok {
		e.limitf(s, "parseFunctionExpressionTail with an unknown flag")
		return nil, true
	}
	sets := []*Set{w.types("KeywordFunction")}
	if a != 0 {
		sets = append([]*Set{setRange(-1<<31, 1<<31)}, sets...)
	}
	if !w.carried(e, s, "parseFunctionExpressionTail", sets...) {
		return nil, true
	}
	g := s.g.(*pGhost)
	if a != 0 {
		it := g.ws[len(g.ws)-2]
		ok := s.pc.Entails(mkOr(mkIn(tokType(it.v), w.types("KeywordAsync")), mkEq(tokLit(it.v), mkStr("async"))))
		e.record(s, []string{"C03"}, "what parseFunctionExpressionTail completes has been opened", ok, func() string { return w.wsString(s) })
	}
	w.enter(e, s, "parseFunctionExpressionTail", true)
	w.mayRaise(e, s)
	v := s.freshVal(c.fn.Signature.Results().At(0).Type(), "r")
	w.result(s, "expr", v, w.ctx(s), len(sets))
	if t, ok := field(v, "Arrow").(*Term); ok {
		s.assume(mkNot(t))
	}
	w.give(e, s, c, v)
	return []*State{s}, true
}

// callConvert is the contract of convertExprToArrowParams: the parenthesised
// expression before the arrow is a list of parameters.
func callConvert(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	g := s.g.(*pGhost)
	n := len(g.ws)
	is := func(i int, t string) bool {
		return i >= 0 && g.ws[i].kind == "tok" && s.pc.Entails(mkIn(tokType(g.ws[i].v), w.types(t)))
	}
	ok := n >= 3 && is(n-1, "PunctuatorFatArrow") && is(n-2, "PunctuatorCloseParen")
	from := -1
	ctx := w.ctx(s)
	if ok {
		if v, is2 := c.args[1].(*IfaceV); is2 && w.isAst(v.T, "TemporalEmptyArrowHead") {
			from = n - 3
		} else if it := g.ws[n-3]; it.kind == "y" && same(it.v, c.args[1]) {
			from = n - 4
			ctx = it.ctx
		}
		ok = is(from, "PunctuatorOpenParen")
	}
	e.record(s, []string{"C03"}, "parameters are made of the parenthesised expression before `=>`", ok, func() string { return w.wsString(s) })
	if !ok {
		return nil, true
	}
	w.mayRaise(e, s)
	v := s.freshVal(c.fn.Signature.Results().At(0).Type(), "r")
	y := &pItem{kind: "y", k: "params", v: v, ctx: ctx, first: g.ws[from].first}
	g.ws = append(append([]*pItem{}, g.ws[:from]...), y, g.ws[n-1])
	w.give(e, s, c, v)
	return []*State{s}, true
}

// callWhole is the contract of parseScript and parseModule.
func callWhole(name string) func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	return func(w *parserWorld, e *Exec, s *State, c *CallInfo) ([]*State, bool) {
		w.enter(e, s, name, false)
		w.mayRaise(e, s)
		x := &SymIface{s.newSym("x", SU)}
		w.result(s, "whole", x, w.ctx(s), 0)
		s.assume(mkNot(mkIn(dynTerm(x.Term), setOf(0))))
		w.give(e, s, c, x)
		return []*State{s}, true
	}
}

var parserContracts map[string]*pContract

func init() {
	w := (*parserWorld)(nil)
	parserContracts = map[string]*pContract{
		"parseExpression":              {"parser.exprOrder,parser.exprFlags->ast.Node", (*parserWorld).callExpression},
		"parseStatement":               {"->ast.Node", w.callStatement(false)},
		"parseStatementItem":           {"->ast.Node", w.callStatement(true)},
		"parseBlock":                   {"->ast.BlockStatement", callPlain("parseBlock", "block", 0, nil, valFresh, nil)},
		"parseFunctionBody":            {"bool,bool->ast.BlockStatement", callPlain("parseFunctionBody", "body", 0, nil, valFresh, fnFlags)},
		"parseArguments":               {"->[]ast.Node", callPlain("parseArguments", "args", 0, nil, valList, nil)},
		"parseParametersTail":          {"->ast.FormalParameters", callPlain("parseParametersTail", "params", 1, punct("OpenParen"), valFresh, nil)},
		"parseClassBody":               {"->[]ast.Node", callPlain("parseClassBody", "classbody", 0, nil, valList, nil)},
		"parseArrayTail":               {"ast.Location,parser.exprFlags->ast.Node", callTail("parseArrayTail", "OpenBracket", "ArrayExpression")},
		"parseObjectTail":              {"ast.Location,parser.exprFlags->ast.Node", callTail("parseObjectTail", "OpenBrace", "ObjectExpression")},
		"parseFunctionExpressionTail":  {"ast.Location,bool->ast.FunctionExpression", callFunctionTail},
		"parseArrayBindingPatternTail": {"->*ast.ArrayBindingPattern", callPlain("parseArrayBindingPatternTail", "pattern", 1, punct("OpenBracket"), valPtr, nil)},
		"parseObjectBindingPatternTail": {"->*ast.ObjectBindingPattern",
			callPlain("parseObjectBindingPatternTail", "pattern", 1, punct("OpenBrace"), valPtr, nil)},
		"parseVariableDeclarations": {"->[]ast.VariableDeclarator", callPlain("parseVariableDeclarations", "vardecls", 0, nil, valList, nil)},
		"parseImportDecl":           {"->ast.ImportDeclNode", callPlain("parseImportDecl", "stmt", 0, nil, valFresh, nil)},
		"convertExprToArrowParams":  {"ast.Node->ast.FormalParameters", callConvert},
		"parseScript":               {"->ast.Node", callWhole("parseScript")},
		"parseModule":               {"->ast.Node", callWhole("parseModule")},
	}
}

// ---- units ----

// carry puts tokens of the given types before the first.
func (w *parserWorld) carry(s *State, sets ...*Set) []Val {
	g := s.g.(*pGhost)
	var vs []Val
	for i, set := range sets {
		t := w.token(mkPlus(g.c, int64(i-len(sets))))
		s.assume(mkIn(tokType(t), set))
		g.ws = append(g.ws, &pItem{kind: "tok", v: t, first: t, ctx: w.ctx(s)})
		vs = append(vs, t)
	}
	return vs
}

func noArgs(w *parserWorld, e *Exec, s *State) ([]Val, bool) { return nil, true }

func carryArgs(t string, args func(w *parserWorld, s *State) []Val) func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
	return func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
		w.carry(s, w.types("Punctuator"+t))
		if args == nil {
			return nil, true
		}
		return args(w, s), true
	}
}

// prints checks that a value writes back to all the tokens taken, and the
// conditions on its parts.
func (w *parserWorld) prints(e *Exec, s *State, what string, f func(m *matcher, k kont) bool) bool {
	g := s.g.(*pGhost)
	run := func(ctx, lev, asi, ct bool) *matcher {
		m := w.matcher(e, s)
		m.ctxOn, m.levOn, m.asiOn, m.ctOn = ctx, lev, asi, ct
		if f(m, func(i int) bool { return i == len(g.ws) || m.miss(i, "the rest is in no part of the tree") }) {
			return nil
		}
		return m
	}
	names := map[string]string{
		"C03": what + " writes back to the tokens taken",
		"C10": what + " has its parts parsed in their contexts",
		"C04": what + " respects precedence and associativity",
		"C12": what + " respects line breaks",
		"C05": what + " holds no placeholder",
	}
	if run(true, true, true, true) == nil {
		for p, n := range names {
			e.record(s, []string{p}, n, true, nil)
		}
		return true
	}
	lax := run(false, false, false, false)
	det := func(m *matcher) func() string {
		return func() string { return m.why + "; tokens: " + w.wsString(s) }
	}
	e.record(s, []string{"C03"}, names["C03"], lax == nil, func() string { return det(lax)() })
	if lax != nil {
		return false
	}
	all := true
	for _, x := range []struct {
		p           string
		a, b, c2, d bool
	}{{"C10", true, false, false, false}, {"C04", false, true, false, false}, {"C12", false, false, true, false}, {"C05", false, false, false, true}} {
		m := run(x.a, x.b, x.c2, x.d)
		e.record(s, []string{x.p}, names[x.p], m == nil, func() string { return det(m)() })
		all = all && m == nil
	}
	if all {
		e.record(s, []string{"C03"}, names["C03"]+" in one way", false, func() string { return w.wsString(s) })
	}
	return false
}

func (w *parserWorld) facts(e *Exec, s *State, fs []namedFact, conv func(*Term) *Term) {
	for _, f := range fs {
		t := f.t
		if conv != nil {
			t = conv(t)
		}
		e.oblige(s, []string{f.prop}, f.name, t, w.wsString(s))
	}
}

// asSym gives a name to a node, with what is known about it.
func (w *parserWorld) asSym(s *State, v Val) *Term {
	switch x := v.(type) {
	case *SymIface:
		return x.Term
	case *IfaceV:
		t := s.newSym("x", SU)
		s.assume(mkIn(dynTerm(t), setOf(typeID(x.T))))
		if l := w.levOf(s, v); l != nil {
			s.assume(mkEq(levTerm(t), l))
		}
		if c := w.ctOf(s, v); c != nil {
			s.assume(mkIff(ctTerm(t), c))
		}
		if o := w.openIf(s, v); o != nil {
			s.assume(mkIff(openTerm(t), o))
		}
		return t
	case *NilV:
		t := s.newSym("x", SU)
		s.assume(mkIn(dynTerm(t), setOf(0)))
		return t
	}
	return nil
}

func retNode(what string) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		w.prints(e, s, "the "+what+" returned", func(m *matcher, k kont) bool { return m.node(0, res, g.ctx0, k) })
	}
}

func retExpression(flags int64) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		order := g.args[1].(*Term)
		if v, ok := res.(*IfaceV); ok && w.isAst(v.T, "TemporalEmptyArrowHead") {
			ok := flags&flagArrow != 0 && len(g.ws) == 0 && s.pc.Entails(mkIn(tokType(w.next(s)), w.types("PunctuatorCloseParen")))
			e.record(s, []string{"C03", "C05"}, "an empty parameter list is only returned before `)`", ok, func() string { return w.wsString(s) })
			return
		}
		if flags&flagArrow != 0 {
			ok := !s.pc.Entails(mkIn(tokType(w.firstOf(s)), w.types("PunctuatorCloseParen")))
			e.record(s, []string{"C03"}, "an empty parameter list is returned before `)`", ok, func() string { return w.wsString(s) })
		}
		w.prints(e, s, "the expression returned", func(m *matcher, k kont) bool {
			m.ctOn = false // checked below
			return m.node(0, res, g.ctx0, k)
		})
		x := w.asSym(s, res)
		if x == nil {
			e.limitf(s, "parseExpression returns %s", valString(res))
			return
		}
		n := w.next(s)
		w.facts(e, s, w.exprFacts(x, order, flags, n), nil)
		// nothing that continues the expression is left over
		nt, lev := tokType(n), levTerm(x)
		rest := mkIn(dynTerm(x), w.dynSet("ast.TemporalFloatingRestElement"))
		left := func(name string, o *Set, l *Set, t *Set, but *Term) {
			e.oblige(s, []string{"C12", "C04"}, name, mkOr(mkNot(mkIn(order, o)), mkNot(mkIn(lev, l)), mkNot(mkIn(nt, t)), but, rest), w.wsString(s))
		}
		left("no operator that continues the expression is left over", setRange(0, 3), setRange(3, 18), w.opsFrom(3, flags&flagIn == 0), tFalse)
		left("no member access is left over", exprOrders, setRange(15, 18), w.types("PunctuatorDot", "PunctuatorOpenBracket"), tFalse)
		left("no arguments are left over", setRange(0, 15), setRange(15, 18), w.types("PunctuatorOpenParen"), tFalse)
		left("no update operator is left over", setRange(0, 14), setRange(15, 18), w.types("PunctuatorIncrement", "PunctuatorDecrement"), tokNL(n))
		left("no conditional operator is left over", setRange(0, 2), setRange(3, 18), w.types("PunctuatorQuestionMark"), tFalse)
		var as []string
		for _, t := range assignTok {
			as = append(as, t)
		}
		left("no assignment operator is left over", setRange(0, 1), setRange(15, 18), w.types(as...), tFalse)
		left("no comma is left over", setOf(0), setRange(0, 18), w.types("PunctuatorComma"), tFalse)
	}
}

func (w *parserWorld) firstOf(s *State) Val {
	g := s.g.(*pGhost)
	if len(g.ws) > 0 {
		return g.ws[0].first
	}
	return w.next(s)
}

func retStatement(item bool) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		if isNilVal(res) && !item {
			ok := len(g.ws) == 0 && g.pk <= 2
			e.record(s, []string{"C01", "C02", "C03"}, "what is no statement is left alone", ok, func() string { return w.wsString(s) })
			e.oblige(s, []string{"C01", "C03"}, "what begins with a regular expression is a statement", mkNot(mkIn(tokType(w.next(s)), w.types("PunctuatorDiv", "PunctuatorDivAssign"))), "")
			return
		}
		retNode("statement")(w, e, s, res)
		x := w.asSym(s, res)
		if x == nil {
			e.limitf(s, "a statement %s", valString(res))
			return
		}
		w.facts(e, s, w.stmtFacts(x, w.next(s)), nil)
	}
}

func (w *parserWorld) astStruct(name string, set map[string]Val) Val {
	v := zeroVal(w.astT[name]).(*StructV)
	for n, x := range set {
		if i := structField(v.T, n); i >= 0 {
			v.F[i] = x
		}
	}
	return v
}

func retPattern(f string) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		if isNilVal(res) {
			e.record(s, []string{"C01", "C03"}, "a pattern is returned", false, func() string { return w.wsString(s) })
			return
		}
		w.prints(e, s, "the pattern returned", func(m *matcher, k kont) bool {
			return m.pattern(0, w.astStruct("BindingPattern", map[string]Val{f: res}), g.ctx0, k)
		})
	}
}

func retList(what string, f func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		e.record(s, []string{"C03"}, what+" are never nil", !isNilList2(res), func() string { return valString(res) })
		if l, ok := res.(*ListV); ok && w.isAst(l.Elem, "Node") {
			ct := w.ctList(s, res)
			e.record(s, []string{"C05"}, what+" hold no placeholder", ct != nil && s.pc.Entails(mkNot(ct)), func() string { return valString(res) })
		}
		w.prints(e, s, "what is returned for "+what, func(m *matcher, k kont) bool { return f(w, m, g, res, k) })
	}
}

func retStruct(what string, f func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		g := s.g.(*pGhost)
		w.prints(e, s, "the "+what+" returned", func(m *matcher, k kont) bool { return f(w, m, g, res, k) })
	}
}

func retTail(node string, flags int64) func(w *parserWorld, e *Exec, s *State, res Val) {
	return func(w *parserWorld, e *Exec, s *State, res Val) {
		retNode("expression")(w, e, s, res)
		v, ok := res.(*IfaceV)
		e.record(s, []string{"C03"}, "an "+node+" is returned", ok && w.isAst(v.T, node), func() string { return valString(res) })
		if ok && flags == 0 {
			ct := w.ctOf(s, res)
			e.record(s, []string{"C05"}, "no placeholder is returned where no arrow function may begin", ct != nil && s.pc.Entails(mkNot(ct)), func() string { return valString(res) })
		}
	}
}

func retWhole(w *parserWorld, e *Exec, s *State, res Val) {
	e.oblige(s, []string{"C03"}, "all tokens are taken", mkIn(tokType(w.next(s)), w.types("None")), w.wsString(s))
	retNode("program")(w, e, s, res)
}

func locArg(w *parserWorld, s *State) Val { return symval(w.locT, "start") }

func parserUnits() []*pUnit {
	us := []*pUnit{}
	add := func(u pUnit) { us = append(us, &u) }
	for _, fl := range []int64{0, flagIn, flagArrow} {
		fl := fl
		add(pUnit{fn: "parseExpression", variant: fmt.Sprint(fl), must: true, pk2: true, init: func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
			o := mkSym("order", SInt)
			s.assume(mkIn(o, exprOrders))
			if fl == flagArrow {
				s.assume(mkIn(o, setRange(0, 1)))
			}
			return []Val{o, mkInt(fl)}, true
		}, ret: retExpression(fl)})
	}
	add(pUnit{fn: "parseStatement", must: true, pk2: true, init: noArgs, ret: retStatement(false)})
	add(pUnit{fn: "parseStatementItem", must: true, pk2: true, init: noArgs, ret: retStatement(true)})
	add(pUnit{fn: "parseBlock", pk2: true, init: noArgs, ret: retStruct("block", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool { return m.block(0, res, g.ctx0, k) })})
	add(pUnit{fn: "parseFunctionBody", pk2: true, init: func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
		return []Val{mkSym("arg.async", SBool), mkSym("arg.generator", SBool)}, true
	}, ret: retStruct("body", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		return m.body(0, res, ctx3{g.ctx0[0], g.args[1].(*Term), g.args[2].(*Term)}, k)
	})})
	add(pUnit{fn: "parseArguments", pk2: true, init: noArgs, ret: retList("arguments", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		return m.arguments(0, res, g.ctx0, k)
	})})
	add(pUnit{fn: "parseParametersTail", init: carryArgs("OpenParen", nil), pk2: true, ret: retStruct("parameters", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		return m.params(0, res, g.ctx0, k)
	})})
	add(pUnit{fn: "parseClassBody", pk2: true, init: noArgs, ret: retList("class elements", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		return m.p(0, "OpenBrace", func(i int) bool {
			return m.stmts(i, res, false, ctx3{tTrue, g.ctx0[1], g.ctx0[2]}, func(i int) bool { return m.p(i, "CloseBrace", k) })
		})
	})})
	for _, fl := range []int64{0, flagArrow} {
		fl := fl
		args := func(w *parserWorld, s *State) []Val { return []Val{locArg(w, s), mkInt(fl)} }
		add(pUnit{fn: "parseArrayTail", variant: fmt.Sprint(fl), pk2: true, init: carryArgs("OpenBracket", args), ret: retTail("ArrayExpression", fl)})
		add(pUnit{fn: "parseObjectTail", variant: fmt.Sprint(fl), pk2: true, init: carryArgs("OpenBrace", args), ret: retTail("ObjectExpression", fl)})
	}
	for _, a := range []bool{false, true} {
		a := a
		add(pUnit{fn: "parseFunctionExpressionTail", variant: fmt.Sprint(a), pk2: true, init: func(w *parserWorld, e *Exec, s *State) ([]Val, bool) {
			fn := w.types("KeywordFunction")
			if a {
				ts := w.carry(s, w.types("KeywordAsync"), fn)
				_ = ts
			} else {
				w.carry(s, fn)
			}
			return []Val{locArg(w, s), mkBool(a)}, true
		}, ret: func(w *parserWorld, e *Exec, s *State, res Val) {
			g := s.g.(*pGhost)
			st, ok := res.(*StructV)
			e.record(s, []string{"C03"}, "a function that is no arrow function is returned", ok && w.isFalse(s, field(st, "Arrow")), func() string { return valString(res) })
			if ok {
				w.prints(e, s, "the function returned", func(m *matcher, k kont) bool { return m.function(0, st, g.ctx0, k) })
			}
		}})
	}
	add(pUnit{fn: "parseArrayBindingPatternTail", init: carryArgs("OpenBracket", nil), pk2: true, ret: retPattern("ArrayPattern")})
	add(pUnit{fn: "parseObjectBindingPatternTail", init: carryArgs("OpenBrace", nil), pk2: true, ret: retPattern("ObjectPattern")})
	add(pUnit{fn: "parseVariableDeclarations", pk2: true, init: noArgs, ret: retList("declarations", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		return m.commas(0, res, elemOpts{trailing: "never", atLeast: 1}, g.ctx0, k)
	})})
	add(pUnit{fn: "parseImportDecl", pk2: true, init: noArgs, ret: retStruct("import declaration", func(w *parserWorld, m *matcher, g *pGhost, res Val, k kont) bool {
		st, ok := res.(*StructV)
		return ok && m.importDecl(0, st, g.ctx0, k)
	})})
	add(pUnit{fn: "parseScript", init: noArgs, ret: retWhole, free: true, still: true})
	add(pUnit{fn: "parseModule", init: noArgs, ret: retWhole, free: true, still: true})
	return us
}

func newParserExec(p *Program, u *pUnit) *Exec {
	name := "(*ecmascript/parser.Parser)." + u.fn
	full := u.name()
	fn := p.findFn(name)
	w, err := newParserWorld(p, u)
	e := newExec(p, w, fn, full)
	e.limit = 300 * time.Second
	if err != nil {
		e.limitf(nil, "%v", err)
		return e
	}
	ct := parserContracts[u.fn]
	if fn == nil || ct != nil && sigOf(fn) != ct.sig {
		if u.must {
			e.limitf(nil, "%s is missing or has another signature", name)
		}
		return e // callers do not use the contract
	}
	pks := []int{1}
	if u.pk2 {
		pks = append(pks, 2)
	}
	for _, pk := range pks {
		s := w.initial(p, pk)
		args, ok := u.init(w, e, s)
		if !ok {
			continue
		}
		g := s.g.(*pGhost)
		g.args = append([]Val{g.self}, args...)
		e.Inlined[name] = true
		e.pushFrame(s, fn, g.args, fkCall, nil)
		e.push(s)
	}
	return e
}

func (w *parserWorld) initial(p *Program, pk int) *State {
	k := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
	g := &pGhost{pk: pk}
	s.g = g
	g.c, g.m = s.newSym("c", SInt), s.newSym("m", SInt)
	s.assume(mkGe(g.c, mkInt(4)))
	s.assume(mkGe0(g.m))
	pt := p.Pkgs["ecmascript/parser"].Type("Parser").Type()
	obj := symval(pt, "parser").(*StructV)
	s.assume(nonNil(obj.F[w.sIdx].(*SymPtr).Term))
	cv := obj.F[w.ctxIdx].(*StructV)
	for i, n := range []string{"ctx.strict", "ctx.async", "ctx.generator"} {
		cv.F[w.ctxF[i]] = mkSym(n, SBool)
	}
	g.self = &PtrV{Cell: s.alloc(obj)}
	g.ctx0 = w.ctx(s)
	if pk > 1 {
		s.assume(mkNot(mkIn(tokType(w.next(s)), w.types("PunctuatorDiv", "PunctuatorDivAssign"))))
	}
	return s
}

func (w *parserWorld) Return(e *Exec, s *State, res Val) {
	w.flush(s)
	g := s.g.(*pGhost)
	w.ended++
	if !w.unit.free {
		c := w.ctx(s)
		ok := true
		for i := range c {
			ok = ok && s.pc.Entails(mkEq(c[i], g.ctx0[i]))
		}
		e.record(s, []string{"C10"}, "the context is restored", ok, func() string { return fmt.Sprintf("%v instead of %v after %s", c, g.ctx0, w.wsString(s)) })
	}
	idle := len(g.ws) == 0 && (w.unit.still || isNilVal(res))
	if v, ok := res.(*IfaceV); ok && w.isAst(v.T, "TemporalEmptyArrowHead") {
		idle = true
	}
	if !idle {
		e.record(s, []string{"C02"}, "a token is taken", g.adv || w.unit.still, func() string { return w.wsString(s) })
		e.record(s, []string{"C01", "C03"}, "no more than one token is left looked ahead", g.pk <= 1, func() string { return fmt.Sprintf("%d after %s", g.pk, w.wsString(s)) })
	}
	w.unit.ret(w, e, s, res)
}

func (w *parserWorld) Panic(e *Exec, s *State, v Val) {
	g := s.g.(*pGhost)
	checkErrorAt(e, s, v, elemOf(locSeq, g.c, w.locT))
}

func (u *pUnit) name() string {
	n := "(*ecmascript/parser.Parser)." + u.fn
	if u.variant != "" {
		n += "[" + u.variant + "]"
	}
	return n
}
