package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The rules by which a tree is written back as tokens, and the conditions
// ECMAScript puts on the parts of each production. They are matched against
// the sequence of tokens and call results a function took.

type kont func(i int) bool

type ctx3 = [3]*Term

type matcher struct {
	e *Exec
	s *State
	g *pGhost
	w *parserWorld

	ctxOn, levOn, asiOn, ctOn bool // conditions checked besides the tokens

	strict, pro *Term  // after the statements matched last
	why         string // how far the matching got
	far         int
	fuel        int
}

func (w *parserWorld) matcher(e *Exec, s *State) *matcher {
	return &matcher{e: e, s: s, g: s.g.(*pGhost), w: w, far: -1, fuel: 20000}
}

func (m *matcher) ent(t *Term) bool { return m.s.pc.Entails(t) }
func (m *matcher) at(i int) *pItem {
	if i < 0 || i >= len(m.g.ws) {
		return nil
	}
	return m.g.ws[i]
}
func (m *matcher) miss(i int, f string, a ...interface{}) bool {
	if i >= m.far {
		m.far, m.why = i, fmt.Sprintf("at item %d: ", i)+fmt.Sprintf(f, a...)
	}
	return false
}

func (m *matcher) T(n ...string) *Set { return m.w.types(n...) }

// tok: one token of the given types.
func (m *matcher) tok(i int, set *Set, k kont) bool {
	m.fuel--
	it := m.at(i)
	if m.fuel < 0 || it == nil || it.kind != "tok" || !m.ent(mkIn(tokType(it.v), set)) {
		return m.miss(i, "no token of the types %v", set)
	}
	return k(i + 1)
}

func (m *matcher) p(i int, name string, k kont) bool { return m.tok(i, m.T("Punctuator"+name), k) }
func (m *matcher) kw(i int, name string, k kont) bool {
	return m.tok(i, m.T("Keyword"+name), k)
}

// eqStr: a string is the literal of a token.
func (m *matcher) isLit(v Val, it *pItem) bool {
	t := strTerm(v)
	l := tokLit(it.v)
	return t != nil && l != nil && (t == l || m.ent(mkEq(t, l)))
}

func emptyStr(v Val) bool {
	t := strTerm(v)
	return t != nil && t == mkStr("")
}

// ident: a word that may be an identifier in the context (any word when
// forced).
func (m *matcher) ident(i int, name Val, ctx ctx3, force bool, k kont) bool {
	it := m.at(i)
	if it == nil || it.kind != "tok" || !m.isLit(name, it) {
		return m.miss(i, "no name %s", valString(name))
	}
	typ := tokType(it.v)
	id := m.T("Identifier")
	if !m.ent(mkIn(typ, id.union(m.w.kw))) {
		return m.miss(i, "%s is no word", m.w.tokName(m.s, it.v))
	}
	if m.ctxOn && !m.ent(mkOr(mkIn(typ, id), m.w.allowed(typ, ctx, mkBool(force)))) {
		return m.miss(i, "%s may be reserved", m.w.tokName(m.s, it.v))
	}
	return k(i + 1)
}

func (m *matcher) ctxEq(a, b ctx3) bool {
	if !m.ctxOn {
		return true
	}
	for i := range a {
		if a[i] != b[i] && !m.ent(mkEq(a[i], b[i])) {
			return false
		}
	}
	return true
}

// firstTok is the token that follows the first i items.
func (m *matcher) firstTok(i int) Val {
	if it := m.at(i); it != nil {
		return it.first
	}
	return m.w.next(m.s)
}

// sameLine: there is no line break before the token that follows.
func (m *matcher) sameLine(i int) bool {
	return !m.asiOn || m.ent(mkNot(tokNL(m.firstTok(i))))
}

// plainStart: an expression statement does not start with what makes it a
// statement or declaration of another kind.
func (m *matcher) plainStart(i int) bool {
	t := tokType(m.firstTok(i))
	if !m.ent(mkNot(mkIn(t, m.T("PunctuatorOpenBrace", "KeywordFunction", "KeywordClass")))) {
		return m.miss(i, "an expression statement may not start with a brace, function or class")
	}
	if m.ent(mkNot(mkIn(t, m.T("KeywordLet", "KeywordAsync")))) {
		return true
	}
	var n Val
	if it := m.at(i); it != nil && it.kind == "tok" {
		n = m.firstTok(i + 1)
	} else if it != nil {
		n = it.next2
	}
	if tokType(n) == nil || tokNL(n) == nil {
		return m.miss(i, "an expression statement may start with let or async, and what follows is not known")
	}
	if !m.ent(mkNot(mkAnd(mkIn(t, m.T("KeywordLet")), mkIn(tokType(n), m.T("PunctuatorOpenBracket"))))) {
		return m.miss(i, "an expression statement may not start with let [")
	}
	if !m.ent(mkNot(mkAnd(mkIn(t, m.T("KeywordAsync")), mkIn(tokType(n), m.T("KeywordFunction")), mkNot(tokNL(n))))) {
		return m.miss(i, "an expression statement may not start with async function")
	}
	return true
}

// semi: a semicolon, or a place where one is inserted.
func (m *matcher) semi(i int, k kont) bool {
	if it := m.at(i); it != nil && it.kind == "tok" && m.ent(mkIn(tokType(it.v), m.T("PunctuatorSemicolon"))) {
		return k(i + 1)
	}
	if m.asiOn {
		n := m.firstTok(i)
		if !m.ent(mkOr(tokNL(n), mkIn(tokType(n), m.T("PunctuatorCloseBrace", "None")))) {
			return m.miss(i, "no semicolon may be inserted before %s", m.w.tokName(m.s, n))
		}
	}
	return k(i)
}

// deref gives the struct a node value holds and its type name.
func (m *matcher) nodeStruct(v Val) (string, *StructV, bool) {
	switch x := v.(type) {
	case *IfaceV:
		n := strings.TrimPrefix(strings.TrimPrefix(typeName(x.T), "*"), "ast.")
		return n, m.structOf(x.V), strings.HasPrefix(typeName(x.T), "*")
	}
	return "", nil, false
}

func (m *matcher) structOf(v Val) *StructV {
	switch x := v.(type) {
	case *StructV:
		return x
	case *PtrV:
		r, _ := pathGet(m.s.heap[x.Cell], x.Path).(*StructV)
		return r
	case *SymPtr:
		r, _ := objOf(x).(*StructV)
		return r
	}
	return nil
}

func isNilVal(v Val) bool {
	_, ok := v.(*NilV)
	return ok
}

// yNode: the result of a call that is this very value.
func (m *matcher) y(i int, v Val, kinds string, ctx ctx3, k kont) bool {
	it := m.at(i)
	if it == nil || it.kind != "y" {
		return false
	}
	if kinds != "" && !strings.Contains(" "+kinds+" ", " "+it.k+" ") {
		return false
	}
	if !m.isResult(it, v) {
		return false
	}
	if !m.ctxEq(it.ctx, ctx) {
		return m.miss(i, "parsed in context %v instead of %v", it.ctx, ctx)
	}
	return k(i + 1)
}

// isResult reports whether a value writes back to the same tokens as the
// result of a call.
func (m *matcher) isResult(it *pItem, v Val) bool {
	if same(v, it.v) {
		return true
	}
	// a copy of an object behind a pointer or in an interface
	switch y := it.v.(type) {
	case *SymIface:
		x, ok := v.(*IfaceV)
		if !ok || !m.ent(mkIn(dynTerm(y.Term), setOf(typeID(x.T)))) {
			return false
		}
		pv := payload(y.Term, x.T)
		if same(pv, x.V) {
			return true
		}
		return m.samePrinted(m.structOf(pv), m.structOf(x.V))
	case *StructV:
		if x, ok := v.(*IfaceV); ok {
			return m.samePrinted(y, m.structOf(x.V))
		}
		x, ok := v.(*StructV)
		return ok && m.samePrinted(y, x)
	}
	return false
}

// samePrinted compares the fields of two structs that show in the tokens.
func (m *matcher) samePrinted(a, b *StructV) bool {
	if a == nil || b == nil || !types.Identical(a.T, b.T) {
		return false
	}
	st, ok := a.T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := range a.F {
		f := st.Field(i)
		if isBaseNode(f.Type()) || f.Name() == "Directive" || f.Name() == "Expression" && typeName(f.Type()) == "bool" {
			continue
		}
		if same(a.F[i], b.F[i]) {
			continue
		}
		if x, ok := a.F[i].(*Term); ok {
			if y, ok := b.F[i].(*Term); ok && x.Sort == y.Sort && m.ent(mkEq(x, y)) {
				continue
			}
		}
		return false
	}
	return true
}

// sub: an operand of at least the given level that holds no placeholder.
func (m *matcher) sub(i int, v Val, lev int64, ctx ctx3, k kont) bool {
	if m.levOn && !m.levGE(v, lev) {
		return m.miss(i, "an operand of level %d or higher is required, it is %s", lev, m.levString(v))
	}
	return m.subAny(i, v, ctx, k)
}

func (m *matcher) subAny(i int, v Val, ctx ctx3, k kont) bool {
	if m.ctOn {
		ct := m.w.ctOf(m.s, v)
		if ct == nil || !m.ent(mkNot(ct)) {
			return m.miss(i, "%s may be or hold a placeholder", valString(v))
		}
	}
	return m.node(i, v, ctx, k)
}

// elem: an element of a list, which may hold a placeholder.
func (m *matcher) elem(i int, v Val, ctx ctx3, k kont) bool {
	if m.levOn && !m.levGE(v, 1) {
		return m.miss(i, "an assignment expression is required, it is %s", m.levString(v))
	}
	return m.node(i, v, ctx, k)
}

func (m *matcher) levString(v Val) string {
	if t := m.w.levOf(m.s, v); t != nil {
		return fmt.Sprintf("%v in %v", t, m.s.pc.DomOf(t))
	}
	return "unknown"
}

func (m *matcher) levGE(v Val, n int64) bool {
	if n <= 0 {
		return true
	}
	t := m.w.levOf(m.s, v)
	return t != nil && m.ent(mkGe(t, mkInt(n)))
}

func levTerm(x *Term) *Term { return mkApp("lev", SInt, x) }
func ctTerm(x *Term) *Term  { return mkApp("ct", SBool, x) }

// ctlTerm: the list holds a placeholder; that of an expression does if the
// expression does.
func ctlTerm(b *Term) *Term {
	if b.Op == OApp && len(b.Args) == 1 {
		switch b.Name {
		case "as:ast.SequenceExpression.Expressions", "as:ast.ArrayExpression.Elements", "as:ast.ObjectExpression.Properties":
			return ctTerm(b.Args[0])
		}
	}
	return mkApp("ctl", SBool, b)
}

func init() { intrinsic["lev"] = setRange(0, 18) }

// levels of the binary operators
var binLevel = map[string]int64{
	"BinaryExponentOp": 13, "BinaryMultOp": 12, "BinaryDivOp": 12, "BinaryModOp": 12, "BinaryAddOp": 11, "BinarySubOp": 11,
	"BinaryLShiftOp": 10, "BinaryRShiftOp": 10, "BinaryUnsignedRShiftOp": 10,
	"BinaryLessThanOp": 9, "BinaryGreaterThanOp": 9, "BinaryLessThanEqualOp": 9, "BinaryGreaterThanEqualOp": 9, "BinaryInstanceOfOp": 9, "BinaryInOp": 9,
	"BinaryEqualOp": 8, "BinaryNotEqualOp": 8, "BinaryStrictEqualOp": 8, "BinaryStrictNotEqualOp": 8,
	"BinaryBitAndOp": 7, "BinaryBitXorOp": 6, "BinaryBitOrOp": 5, "BinaryLogicalAndOp": 4, "BinaryLogicalOrOp": 3, "BinaryCoalesceOp": 3,
}

var binTok = map[string]string{
	"BinaryExponentOp": "PunctuatorExponent", "BinaryMultOp": "PunctuatorMult", "BinaryDivOp": "PunctuatorDiv", "BinaryModOp": "PunctuatorMod",
	"BinaryAddOp": "PunctuatorPlus", "BinarySubOp": "PunctuatorMinus", "BinaryLShiftOp": "PunctuatorLShift", "BinaryRShiftOp": "PunctuatorRShift",
	"BinaryUnsignedRShiftOp": "PunctuatorUnsignedRShift", "BinaryLessThanOp": "PunctuatorLessThan", "BinaryGreaterThanOp": "PunctuatorGreaterThan",
	"BinaryLessThanEqualOp": "PunctuatorLessThanEqual", "BinaryGreaterThanEqualOp": "PunctuatorGreaterThanEqual",
	"BinaryInstanceOfOp": "KeywordInstanceOf", "BinaryInOp": "KeywordIn", "BinaryEqualOp": "PunctuatorEqual", "BinaryNotEqualOp": "PunctuatorNotEqual",
	"BinaryStrictEqualOp": "PunctuatorStrictEqual", "BinaryStrictNotEqualOp": "PunctuatorStrictNotEqual", "BinaryBitAndOp": "PunctuatorBitAnd",
	"BinaryBitXorOp": "PunctuatorBitXor", "BinaryBitOrOp": "PunctuatorBitOr", "BinaryLogicalAndOp": "PunctuatorLogicalAnd",
	"BinaryLogicalOrOp": "PunctuatorLogicalOr", "BinaryCoalesceOp": "PunctuatorNullCoalesce",
}

var assignTok = map[string]string{
	"AssignmentOp": "PunctuatorAssign", "AssignmentMultOp": "PunctuatorMultAssign", "AssignmentDivOp": "PunctuatorDivAssign", "AssignmentModOp": "PunctuatorModAssign",
	"AssignmentAddOp": "PunctuatorPlusAssign", "AssignmentSubOp": "PunctuatorMinusAssign", "AssignmentLShiftOp": "PunctuatorLShiftAssign",
	"AssignmentRShiftOp": "PunctuatorRShiftAssign", "AssignmentUnsignedRShiftOp": "PunctuatorUnsignedRShiftAssign", "AssignmentBitAndOp": "PunctuatorBitAndAssign",
	"AssignmentBitXorOp": "PunctuatorBitXorAssign", "AssignmentBitOrOp": "PunctuatorBitOrAssign", "AssignmentExponentOp": "PunctuatorExponentAssign",
	"AssignmentLogicalAndOp": "PunctuatorLogicalAndAssign", "AssignmentLogicalOr": "PunctuatorLogicalOrAssign", "AssignmentCoalesceOp": "PunctuatorNullCoalesceAssign",
}

var unaryTok = map[string]string{
	"UnaryDeleteOp": "KeywordDelete", "UnaryVoidOp": "KeywordVoid", "UnaryTypeOfOp": "KeywordTypeOf", "UnaryPlusOp": "PunctuatorPlus",
	"UnaryMinusOp": "PunctuatorMinus", "UnaryBitNotOp": "PunctuatorBitNot", "UnaryNotOp": "PunctuatorNot",
}

// opName finds the constant of package ast with the value of an operator.
func (w *parserWorld) opName(s *State, v Val, table map[string]string) string {
	t, ok := v.(*Term)
	if !ok {
		return ""
	}
	n := t.N
	if !t.isConst() {
		if n, ok = s.pc.DomOf(t).single(); !ok {
			return ""
		}
	}
	for k := range table {
		if c, ok := w.consts[k]; ok && c == n {
			return k
		}
	}
	return ""
}

func (w *parserWorld) isConst(s *State, v Val, name string) bool {
	t, ok := v.(*Term)
	c, ok2 := w.consts[name]
	return ok && ok2 && (t == mkInt(c) || s.pc.Entails(mkEq(t, mkInt(c))))
}

func (w *parserWorld) isTrue(s *State, v Val) bool {
	t, ok := v.(*Term)
	return ok && s.pc.Entails(t)
}

func (w *parserWorld) isFalse(s *State, v Val) bool {
	t, ok := v.(*Term)
	return ok && s.pc.Entails(mkNot(t))
}

// levOf is the precedence level of an expression.
func (w *parserWorld) levOf(s *State, v Val) *Term {
	switch x := v.(type) {
	case *SymIface:
		return levTerm(x.Term)
	case *IfaceV:
		m := w.matcher(nil, s)
		n, st, _ := m.nodeStruct(v)
		if st == nil {
			return nil
		}
		switch n {
		case "SequenceExpression":
			return mkInt(0)
		case "AssignmentExpression":
			return mkInt(1)
		case "FunctionExpression":
			if w.isTrue(s, field(st, "Arrow")) {
				return mkInt(1)
			}
			if !w.isFalse(s, field(st, "Arrow")) {
				return nil
			}
		case "ConditionalExpression":
			return mkInt(2)
		case "BinaryExpression":
			if l, ok := binLevel[w.opName(s, field(st, "Operator"), binTok)]; ok {
				return mkInt(l)
			}
			return nil
		case "UpdateExpression", "UnaryExpression":
			return mkInt(14)
		case "NewExpression":
			if isNilList2(field(st, "Arguments")) {
				return mkInt(15)
			}
			return mkInt(17)
		case "CallExpression":
			return mkInt(16)
		case "MemberExpression":
			o := w.levOf(s, field(st, "Object"))
			if o != nil && s.pc.Entails(mkGe(o, mkInt(17))) && w.isFalse(s, field(st, "Optional")) {
				return mkInt(17)
			}
			return mkInt(16)
		}
		return mkInt(18)
	}
	return nil
}

func isNilList2(v Val) bool {
	if isNilVal(v) {
		return true
	}
	l, ok := v.(*ListV)
	return ok && len(l.Atoms) == 0 && l.IsNil
}

// ctOf is the condition that a node is a placeholder or holds one.
func (w *parserWorld) ctOf(s *State, v Val) *Term {
	switch x := v.(type) {
	case *NilV:
		return tFalse
	case *SymIface:
		return ctTerm(x.Term)
	case *IfaceV:
		m := w.matcher(nil, s)
		n, st, _ := m.nodeStruct(v)
		switch n {
		case "TemporalEmptyArrowHead", "TemporalArrayRestElement", "TemporalObjectRestElement", "TemporalFloatingRestElement":
			return tTrue
		case "ArrayExpression":
			return w.ctList(s, field(st, "Elements"))
		case "SequenceExpression":
			return w.ctList(s, field(st, "Expressions"))
		case "ObjectExpression":
			return w.ctList(s, field(st, "Properties"))
		}
		return tFalse
	}
	return nil
}

func (w *parserWorld) ctList(s *State, v Val) *Term {
	if isNilVal(v) {
		return tFalse
	}
	l, ok := v.(*ListV)
	if !ok {
		return nil
	}
	r := []*Term{}
	for _, a := range l.Atoms {
		if a.Base != nil {
			r = append(r, ctlTerm(a.Base))
			continue
		}
		if st, ok := a.E.(*StructV); ok { // a property
			if !isNilVal(field(st, "DestructureInit")) {
				if x, ok := field(st, "DestructureInit").(*SymIface); !ok || !s.pc.Entails(mkIn(dynTerm(x.Term), setOf(0))) {
					r = append(r, tTrue)
					continue
				}
			}
			for _, f := range []string{"Key", "Value"} {
				t := w.ctOf(s, field(st, f))
				if t == nil {
					return nil
				}
				r = append(r, t)
			}
			continue
		}
		t := w.ctOf(s, a.E)
		if t == nil {
			return nil
		}
		r = append(r, t)
	}
	return mkOr(r...)
}

// node: an expression, statement or declaration.
func (m *matcher) node(i int, v Val, ctx ctx3, k kont) bool {
	m.fuel--
	if m.fuel < 0 {
		return m.miss(i, "gave up")
	}
	if it := m.at(i); it != nil && it.kind == "y" && m.isResult(it, v) && it.k != "body" && it.k != "params" {
		return m.y(i, v, "", ctx, k)
	}
	name, n, ptr := m.nodeStruct(v)
	if n == nil {
		return m.miss(i, "%s is not what was parsed here", valString(v))
	}
	f := func(x string) Val { return field(n, x) }
	_ = ptr
	switch name {
	case "Identifier":
		return m.ident(i, f("Name"), ctx, false, k)
	case "ThisExpression":
		return m.kw(i, "This", k)
	case "NullLiteral":
		return m.kw(i, "Null", k)
	case "BooleanLiteral":
		w := "True"
		if m.w.isFalse(m.s, f("Value")) {
			w = "False"
		} else if !m.w.isTrue(m.s, f("Value")) {
			return m.miss(i, "unknown boolean")
		}
		return m.kw(i, w, func(j int) bool { return m.isLit(f("Raw"), m.at(i)) && k(j) })
	case "NumberLiteral", "StringLiteral":
		t, fn, so := "LiteralNumber", "numconst", SU
		if name == "StringLiteral" {
			t, fn, so = "LiteralString", "strconst", SStr
		}
		return m.tok(i, m.T(t), func(j int) bool {
			it := m.at(i)
			val := mkApp(fn, so, tokLit(it.v))
			ok := m.isLit(f("Raw"), it) && m.eq(f("Value"), val)
			if !ok {
				return m.miss(i, "a literal %s for the token %s", valString(n), valString(it.v))
			}
			return k(j)
		})
	case "RegExpLiteral":
		it := m.at(i)
		if it == nil || it.kind != "re" || !m.isLit(f("Raw"), it) || !m.eq(f("Pattern"), field(it.re, "Pattern")) || !m.eq(f("Flags"), field(it.re, "Flags")) {
			return m.miss(i, "no such regular expression: %s", valString(n))
		}
		return k(i + 1)
	case "ArrayExpression":
		return m.p(i, "OpenBracket", func(i int) bool {
			return m.commas(i, f("Elements"), elemOpts{hole: true, rest: true, trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseBracket", k) })
		})
	case "ObjectExpression":
		return m.p(i, "OpenBrace", func(i int) bool {
			return m.commas(i, f("Properties"), elemOpts{rest: true, trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
		})
	case "FunctionExpression":
		return m.function(i, n, ctx, k)
	case "ClassExpression", "ClassDeclaration":
		return m.class(i, n, ctx, k)
	case "MemberExpression":
		return m.sub(i, f("Object"), 16, ctx, func(i int) bool {
			optional := m.w.isTrue(m.s, f("Optional"))
			if !optional && !m.w.isFalse(m.s, f("Optional")) {
				return false
			}
			if m.w.isTrue(m.s, f("Computed")) {
				br := func(i int) bool {
					return m.p(i, "OpenBracket", func(i int) bool {
						return m.sub(i, f("Property"), 1, ctx, func(i int) bool { return m.p(i, "CloseBracket", k) })
					})
				}
				if optional {
					return m.p(i, "OptionalChain", br)
				}
				return br(i)
			}
			t := "Dot"
			if optional {
				t = "OptionalChain"
			}
			return m.p(i, t, func(i int) bool {
				pn, ps, _ := m.nodeStruct(f("Property"))
				if pn != "Identifier" || !m.w.isFalse(m.s, f("Computed")) {
					return m.miss(i, "no property name")
				}
				return m.ident(i, field(ps, "Name"), ctx, true, k)
			})
		})
	case "ParenthesizedExpression":
		return m.p(i, "OpenParen", func(i int) bool {
			return m.sub(i, f("Expression"), 0, ctx, func(i int) bool { return m.p(i, "CloseParen", k) })
		})
	case "SpreadElement":
		return m.p(i, "Ellipsis", func(i int) bool { return m.sub(i, f("Argument"), 1, ctx, k) })
	case "CallExpression":
		return m.sub(i, f("Callee"), 16, ctx, func(i int) bool {
			if m.w.isTrue(m.s, f("Optional")) {
				return m.p(i, "OptionalChain", func(i int) bool { return m.arguments(i, f("Arguments"), ctx, k) })
			}
			return m.arguments(i, f("Arguments"), ctx, k)
		})
	case "NewExpression":
		return m.kw(i, "New", func(i int) bool {
			bare := isNilList2(f("Arguments"))
			if m.levOn {
				l := m.w.levOf(m.s, f("Callee"))
				// without arguments, the callee may be such an expression
				if l == nil || !(m.ent(mkGe(l, mkInt(17))) || bare && m.ent(mkIn(l, setOf(15, 17, 18)))) {
					return m.miss(i, "a member expression is required after new, it is %s", m.levString(f("Callee")))
				}
			}
			return m.subAny(i, f("Callee"), ctx, func(i int) bool {
				if bare {
					if m.levOn && !m.ent(mkNot(mkIn(tokType(m.firstTok(i)), m.T("PunctuatorOpenParen")))) {
						return m.miss(i, "arguments of new are left over")
					}
					return k(i)
				}
				return m.arguments(i, f("Arguments"), ctx, k)
			})
		})
	case "ConditionalExpression":
		return m.sub(i, f("Test"), 3, ctx, func(i int) bool {
			return m.p(i, "QuestionMark", func(i int) bool {
				return m.sub(i, f("Consequent"), 1, ctx, func(i int) bool {
					return m.p(i, "Colon", func(i int) bool { return m.sub(i, f("Alternate"), 1, ctx, k) })
				})
			})
		})
	case "SequenceExpression":
		return m.commas(i, f("Expressions"), elemOpts{trailing: "never", atLeast: 1}, ctx, k)
	case "BinaryExpression":
		return m.binary(i, n, ctx, k)
	case "AssignmentExpression":
		op := m.w.opName(m.s, f("Operator"), assignTok)
		return m.sub(i, f("Left"), 15, ctx, func(i int) bool {
			return m.tok(i, m.T(assignTok[op]), func(i int) bool { return m.sub(i, f("Right"), 1, ctx, k) })
		})
	case "UpdateExpression":
		for _, op := range []struct {
			c, t string
			pre  bool
		}{{"UpdatePreIncrementOp", "Increment", true}, {"UpdatePreDecrementOp", "Decrement", true}, {"UpdatePostIncrementOp", "Increment", false}, {"UpdatePostDecrementOp", "Decrement", false}} {
			if !m.w.isConst(m.s, f("Operator"), op.c) {
				continue
			}
			if op.pre {
				return m.p(i, op.t, func(i int) bool { return m.sub(i, f("Argument"), 15, ctx, k) })
			}
			return m.sub(i, f("Argument"), 15, ctx, func(i int) bool {
				if !m.sameLine(i) {
					return m.miss(i, "there may be a line break before the postfix operator")
				}
				return m.p(i, op.t, k)
			})
		}
		return m.miss(i, "unknown update operator")
	case "UnaryExpression":
		op := m.w.opName(m.s, f("Operator"), unaryTok)
		return m.tok(i, m.T(unaryTok[op]), func(i int) bool { return m.sub(i, f("Argument"), 14, ctx, k) })
	case "TemporalEmptyArrowHead":
		return k(i)
	case "TemporalFloatingRestElement":
		return m.p(i, "Ellipsis", func(i int) bool { return m.ident(i, f("Identifier"), ctx, false, k) })
	case "TemporalArrayRestElement":
		return m.p(i, "Ellipsis", func(i int) bool { return m.pattern(i, f("BindingPattern"), ctx, k) })
	}
	return m.statement(i, name, n, ctx, k)
}

func (m *matcher) eq(a, b Val) bool {
	if same(a, b) {
		return true
	}
	x, ok := a.(*Term)
	if !ok {
		x = strTerm(a)
	}
	y, ok2 := b.(*Term)
	if !ok2 {
		y = strTerm(b)
	}
	return x != nil && y != nil && x.Sort == y.Sort && (x == y || m.ent(mkEq(x, y)))
}

func (m *matcher) binary(i int, n *StructV, ctx ctx3, k kont) bool {
	op := m.w.opName(m.s, field(n, "Operator"), binTok)
	if op == "" {
		return m.miss(i, "unknown binary operator")
	}
	l := binLevel[op]
	left, right := field(n, "Left"), field(n, "Right")
	minL, minR := l, l+1
	notIn := func(v Val, types map[string]bool, what string) bool {
		if !m.levOn {
			return true
		}
		if m.excluded(v, types) {
			return true
		}
		return m.miss(i, "%s must not be one of %v", what, types)
	}
	switch op {
	case "BinaryExponentOp":
		minL, minR = 14, 13
		if !notIn(left, map[string]bool{"*ast.UnaryExpression": true}, "the base of **") {
			return false
		}
	case "BinaryCoalesceOp":
		minL, minR = 3, 5
		if m.levOn && !m.levGE(left, 5) && !m.binOp(left, "BinaryCoalesceOp") {
			return m.miss(i, "the left operand of ?? may be an && or ||")
		}
	case "BinaryLogicalOrOp":
		minL, minR = 3, 4
		if m.levOn && !m.levGE(left, 4) && !m.binOp(left, "BinaryLogicalOrOp") {
			return m.miss(i, "the left operand of || may be a ??")
		}
	}
	return m.sub(i, left, minL, ctx, func(i int) bool {
		return m.tok(i, m.T(binTok[op]), func(i int) bool { return m.sub(i, right, minR, ctx, k) })
	})
}

// excluded: the dynamic type of a node is none of the given.
func (m *matcher) excluded(v Val, ts map[string]bool) bool {
	switch x := v.(type) {
	case *IfaceV:
		return !ts[typeName(x.T)]
	case *SymIface:
		for t := range ts {
			if !m.ent(mkNot(mkIn(dynTerm(x.Term), setOf(m.w.dynID(t))))) {
				return false
			}
		}
		return true
	}
	return false
}

// dynID is the number of the dynamic type with a given name, like
// "ast.Identifier" or "*ast.UnaryExpression".
func (w *parserWorld) dynID(name string) int64 {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "*"), "ast.")
	t := w.astT[n]
	if t == nil {
		return -1
	}
	if name[0] == '*' {
		t = types.NewPointer(t)
	}
	return typeID(t)
}

// binOp: the node is a binary expression with the given operator.
func (m *matcher) binOp(v Val, op string) bool {
	switch x := v.(type) {
	case *IfaceV:
		n, st, _ := m.nodeStruct(v)
		return n == "BinaryExpression" && m.w.isConst(m.s, field(st, "Operator"), op)
	case *SymIface:
		if !m.ent(mkIn(dynTerm(x.Term), setOf(m.w.dynID("ast.BinaryExpression")))) {
			return false
		}
		return m.w.isConst(m.s, field(payload(x.Term, m.w.astT["BinaryExpression"]), "Operator"), op)
	}
	return false
}

func (m *matcher) arguments(i int, v Val, ctx ctx3, k kont) bool {
	if m.y(i, v, "args", ctx, k) {
		return true
	}
	if m.ctOn {
		if ct := m.w.ctList(m.s, v); ct == nil || !m.ent(mkNot(ct)) {
			return m.miss(i, "the arguments may hold a placeholder")
		}
	}
	return m.p(i, "OpenParen", func(i int) bool {
		return m.commas(i, v, elemOpts{spread: true, trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseParen", k) })
	})
}

type elemOpts struct {
	hole, spread, rest bool
	trailing           string // "never", "optional", "required"
	atLeast            int
	plainRest          bool // ends before a rest element of the enclosing pattern
}

// commas: a list of elements separated by commas.
func (m *matcher) commas(i int, v Val, o elemOpts, ctx ctx3, k kont) bool {
	if isNilVal(v) {
		v = &ListV{}
	}
	l, ok := v.(*ListV)
	if !ok {
		return m.miss(i, "%s is no list", valString(v))
	}
	if len(l.Atoms) < o.atLeast {
		return m.miss(i, "the list is empty")
	}
	return m.commasFrom(i, l.Atoms, o, ctx, k)
}

func (m *matcher) commasFrom(i int, as []Atom, o elemOpts, ctx ctx3, k kont) bool {
	if len(as) == 0 {
		return k(i)
	}
	a, last := as[0], len(as) == 1
	after := func(comma string) kont { // what follows an element
		return func(i int) bool {
			if !last {
				return m.p(i, "Comma", func(i int) bool { return m.commasFrom(i, as[1:], o, ctx, k) })
			}
			if comma == "required" {
				return m.p(i, "Comma", k)
			}
			if comma == "optional" && m.p(i, "Comma", k) {
				return true
			}
			return k(i)
		}
	}
	if a.Base != nil {
		it := m.at(i)
		if it == nil {
			return m.miss(i, "a list is missing")
		}
		if it.kind == "y" { // the expressions of a sequence
			x, ok := it.v.(*SymIface)
			if !ok || it.k != "expr" || !m.ent(mkIn(dynTerm(x.Term), setOf(m.w.dynID("ast.SequenceExpression")))) {
				return m.miss(i, "no list")
			}
			l, _ := field(payload(x.Term, m.w.astT["SequenceExpression"]), "Expressions").(*ListV)
			if l == nil || len(l.Atoms) != 1 || !same(l.with([]Atom{a}), l) {
				return m.miss(i, "not the elements of the sequence")
			}
			if !m.ctxEq(it.ctx, ctx) {
				return m.miss(i, "parsed in context %v instead of %v", it.ctx, ctx)
			}
			return after(o.trailing)(i + 1)
		}
		l, ok := it.v.(*ListV)
		if it.kind != "list" || !ok || it.form == "plain" || len(l.Atoms) != 1 || !same(l.with([]Atom{a}), l) {
			return m.miss(i, "not this list")
		}
		if m.ctxOn && !it.okBlock || !m.ctxEq(it.ctx, ctx) {
			return m.miss(i, "parsed in context %v instead of %v", it.ctx, ctx)
		}
		if strings.Contains(it.info, "hole") && !o.hole || strings.Contains(it.info, "spread") && !o.spread || strings.Contains(it.info, "rest") {
			return m.miss(i, "elements that can not be in this list: %s", it.info)
		}
		if it.form == "csep" {
			if strings.Contains(it.info, "holelast") {
				return m.miss(i, "a hole at the end needs a comma")
			}
			return after(o.trailing)(i + 1)
		}
		if !last {
			return m.commasFrom(i+1, as[1:], o, ctx, k)
		}
		if o.trailing == "never" && !strings.Contains(it.info, "holelast") {
			return m.miss(i, "a trailing comma")
		}
		return k(i + 1)
	}
	if o.hole && m.isHole(a.E) {
		if last {
			return m.p(i, "Comma", k)
		}
		return after(o.trailing)(i)
	}
	comma := o.trailing
	if m.isRest(a.E) {
		if !o.rest || !last {
			return m.miss(i, "a rest element that is not the last")
		}
		comma = "never"
	}
	if n, _, _ := m.nodeStruct(a.E); n == "SpreadElement" && !o.spread {
		return m.miss(i, "a spread element")
	}
	return m.element(i, a.E, ctx, after(comma))
}

func (m *matcher) isHole(v Val) bool {
	if isNilVal(v) {
		return true
	}
	st, ok := v.(*StructV)
	if !ok || !m.w.isAst(st.T, "BindingElement") {
		return false
	}
	return m.emptyPattern(field(st, "Value")) && isNilVal(field(st, "Init"))
}

func (m *matcher) emptyPattern(v Val) bool {
	return emptyStr(field(v, "Identifier")) && isNilVal(field(v, "ObjectPattern")) && isNilVal(field(v, "ArrayPattern"))
}

func (m *matcher) isRest(v Val) bool {
	if st, ok := v.(*StructV); ok && m.w.isAst(st.T, "Property") {
		n, _, _ := m.nodeStruct(field(st, "Key"))
		return n == "TemporalObjectRestElement"
	}
	n, _, _ := m.nodeStruct(v)
	return n == "TemporalArrayRestElement"
}

// element: an element of a list with commas.
func (m *matcher) element(i int, v Val, ctx ctx3, k kont) bool {
	st, ok := v.(*StructV)
	if !ok {
		return m.elem(i, v, ctx, k)
	}
	if it := m.at(i); it != nil && it.kind == "y" && same(it.v, v) {
		return m.y(i, v, "", ctx, k)
	}
	f := func(n string) Val { return field(st, n) }
	switch strings.TrimPrefix(typeName(st.T), "ast.") {
	case "Property":
		return m.property(i, st, ctx, k)
	case "BindingElement":
		return m.pattern(i, f("Value"), ctx, func(i int) bool { return m.init(i, f("Init"), ctx, k) })
	case "VariableDeclarator":
		return m.pattern(i, f("ID"), ctx, func(i int) bool { return m.init(i, f("Init"), ctx, k) })
	case "BindingProperty":
		colon := !m.emptyPattern(f("Value"))
		return m.ident(i, f("PropertyName"), ctx, colon, func(i int) bool {
			rest := func(i int) bool { return m.init(i, f("Init"), ctx, k) }
			if !colon {
				return rest(i)
			}
			return m.p(i, "Colon", func(i int) bool { return m.pattern(i, f("Value"), ctx, rest) })
		})
	case "NamedImport":
		as := !emptyStr(f("AsBinding"))
		return m.ident(i, f("Identifier"), ctx, as, func(i int) bool {
			if !as {
				return k(i)
			}
			return m.kw(i, "As", func(i int) bool { return m.ident(i, f("AsBinding"), ctx, false, k) })
		})
	}
	return m.miss(i, "unknown element %s", typeName(st.T))
}

// init: an optional initializer.
func (m *matcher) init(i int, v Val, ctx ctx3, k kont) bool {
	if isNilVal(v) {
		return k(i)
	}
	return m.p(i, "Assign", func(i int) bool { return m.sub(i, v, 1, ctx, k) })
}

// pattern: a binding identifier or pattern.
func (m *matcher) pattern(i int, v Val, ctx ctx3, k kont) bool {
	ob, ar := field(v, "ObjectPattern"), field(v, "ArrayPattern")
	switch {
	case ob == nil || ar == nil:
		return m.miss(i, "no pattern")
	case !isNilVal(ob):
		if !emptyStr(field(v, "Identifier")) || !isNilVal(ar) {
			return m.miss(i, "a pattern of two kinds")
		}
		if m.y(i, ob, "pattern", ctx, k) {
			return true
		}
		st := m.structOf(ob)
		if st == nil {
			return m.miss(i, "no object pattern")
		}
		return m.p(i, "OpenBrace", func(i int) bool {
			rest := field(st, "RestElement")
			if emptyStr(rest) {
				return m.commas(i, field(st, "Properties"), elemOpts{trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
			}
			return m.commas(i, field(st, "Properties"), elemOpts{trailing: "required"}, ctx, func(i int) bool {
				return m.p(i, "Ellipsis", func(i int) bool {
					return m.ident(i, rest, ctx, false, func(i int) bool { return m.p(i, "CloseBrace", k) })
				})
			})
		})
	case !isNilVal(ar):
		if !emptyStr(field(v, "Identifier")) {
			return m.miss(i, "a pattern of two kinds")
		}
		if m.y(i, ar, "pattern", ctx, k) {
			return true
		}
		st := m.structOf(ar)
		if st == nil {
			return m.miss(i, "no array pattern")
		}
		return m.p(i, "OpenBracket", func(i int) bool {
			rest := field(st, "RestElement")
			if m.emptyPattern(rest) {
				return m.commas(i, field(st, "Elements"), elemOpts{hole: true, trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseBracket", k) })
			}
			return m.commas(i, field(st, "Elements"), elemOpts{hole: true, trailing: "required"}, ctx, func(i int) bool {
				return m.p(i, "Ellipsis", func(i int) bool {
					return m.pattern(i, rest, ctx, func(i int) bool { return m.p(i, "CloseBracket", k) })
				})
			})
		})
	}
	return m.ident(i, field(v, "Identifier"), ctx, false, k)
}

// key: a property name.
func (m *matcher) key(i int, v Val, computed Val, ctx ctx3, k kont) bool {
	if m.w.isTrue(m.s, computed) {
		return m.p(i, "OpenBracket", func(i int) bool {
			return m.sub(i, v, 1, ctx, func(i int) bool { return m.p(i, "CloseBracket", k) })
		})
	}
	if !m.w.isFalse(m.s, computed) {
		return false
	}
	n, st, _ := m.nodeStruct(v)
	switch n {
	case "Identifier":
		return m.ident(i, field(st, "Name"), ctx, true, k)
	case "StringLiteral", "NumberLiteral":
		return m.node(i, v, ctx, k)
	}
	return m.miss(i, "no property name: %s", valString(v))
}

// method: parameters and body of a method.
func (m *matcher) method(i int, v Val, ctx ctx3, k kont) bool {
	st, _ := v.(*StructV)
	if st == nil {
		n, x, _ := m.nodeStruct(v)
		if n != "FunctionExpression" {
			return m.miss(i, "no method")
		}
		st = x
	}
	if !m.w.isFalse(m.s, field(st, "Arrow")) || !emptyStr(field(st, "ID")) {
		return m.miss(i, "not a method")
	}
	fctx, ok := m.fnCtx(st, ctx)
	if !ok {
		return m.miss(i, "no flags")
	}
	return m.params(i, field(st, "Params"), fctx, func(i int) bool { return m.body(i, field(st, "Body"), fctx, k) })
}

// fnCtx is the context of a function's parameters and body.
func (m *matcher) fnCtx(st *StructV, ctx ctx3) (ctx3, bool) {
	a, ok1 := field(st, "Async").(*Term)
	g, ok2 := field(st, "Generator").(*Term)
	return ctx3{ctx[0], a, g}, ok1 && ok2
}

func (m *matcher) property(i int, p *StructV, ctx ctx3, k kont) bool {
	f := func(n string) Val { return field(p, n) }
	if n, st, _ := m.nodeStruct(f("Key")); n == "TemporalObjectRestElement" {
		return m.p(i, "Ellipsis", func(i int) bool { return m.ident(i, field(st, "Identifier"), ctx, false, k) })
	}
	noInit := isNilVal(f("DestructureInit"))
	for kind, word := range map[string]string{"GetProperty": "Get", "SetProperty": "Set"} {
		if m.w.isConst(m.s, f("Kind"), kind) {
			return m.kw(i, word, func(i int) bool {
				return m.key(i, f("Key"), f("Computed"), ctx, func(i int) bool {
					if !noInit || !m.plainFn(f("Value")) {
						return m.miss(i, "not an accessor")
					}
					return m.method(i, f("Value"), ctx, k)
				})
			})
		}
	}
	if !m.w.isConst(m.s, f("Kind"), "InitProperty") {
		return m.miss(i, "unknown kind of property")
	}
	if m.w.isTrue(m.s, f("Method")) {
		n, st, _ := m.nodeStruct(f("Value"))
		if n != "FunctionExpression" || !noInit {
			return m.miss(i, "not a method")
		}
		return m.flag(i, field(st, "Async"), func(i int, k kont) bool { return m.kw(i, "Async", k) }, func(i int) bool {
			return m.flag(i, field(st, "Generator"), func(i int, k kont) bool { return m.p(i, "Mult", k) }, func(i int) bool {
				return m.key(i, f("Key"), f("Computed"), ctx, func(i int) bool { return m.method(i, f("Value"), ctx, k) })
			})
		})
	}
	if !m.w.isFalse(m.s, f("Method")) {
		return false
	}
	if isNilVal(f("Value")) {
		n, st, _ := m.nodeStruct(f("Key"))
		if n != "Identifier" || !m.w.isFalse(m.s, f("Computed")) {
			return m.miss(i, "no shorthand property")
		}
		return m.ident(i, field(st, "Name"), ctx, false, func(i int) bool { return m.init(i, f("DestructureInit"), ctx, k) })
	}
	if !noInit {
		return m.miss(i, "a property with two values")
	}
	return m.key(i, f("Key"), f("Computed"), ctx, func(i int) bool {
		return m.p(i, "Colon", func(i int) bool { return m.elem(i, f("Value"), ctx, k) })
	})
}

// flag: a word that is there exactly when a flag is set.
func (m *matcher) flag(i int, v Val, word func(int, kont) bool, k kont) bool {
	if m.w.isTrue(m.s, v) {
		return word(i, k)
	}
	if m.w.isFalse(m.s, v) {
		return k(i)
	}
	return m.miss(i, "unknown flag %s", valString(v))
}

func (m *matcher) plainFn(v Val) bool {
	st, _ := v.(*StructV)
	if st == nil {
		_, st, _ = m.nodeStruct(v)
	}
	return st != nil && m.w.isFalse(m.s, field(st, "Async")) && m.w.isFalse(m.s, field(st, "Generator"))
}

// params: parenthesised parameters.
func (m *matcher) params(i int, v Val, ctx ctx3, k kont) bool {
	st, _ := v.(*StructV)
	if st == nil {
		return m.miss(i, "no parameters")
	}
	if m.y(i, v, "params", ctx, k) {
		return true
	}
	return m.p(i, "OpenParen", func(i int) bool {
		rest := field(st, "RestParameter")
		if emptyStr(rest) {
			return m.commas(i, field(st, "Parameters"), elemOpts{trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseParen", k) })
		}
		return m.commas(i, field(st, "Parameters"), elemOpts{trailing: "required"}, ctx, func(i int) bool {
			return m.p(i, "Ellipsis", func(i int) bool {
				return m.ident(i, rest, ctx, false, func(i int) bool { return m.p(i, "CloseParen", k) })
			})
		})
	})
}

// body: the body of a function, which starts in the given context.
func (m *matcher) body(i int, v Val, ctx ctx3, k kont) bool {
	if m.y(i, v, "body", ctx, k) {
		return true
	}
	st, ok := v.(*StructV)
	if !ok {
		n, x, _ := m.nodeStruct(v)
		if n != "BlockStatement" {
			return m.miss(i, "no function body")
		}
		st = x
	}
	if it := m.at(i); it != nil && it.kind == "y" && !m.ctxOn && m.y(i, v, "block body", ctx, k) {
		return true
	}
	return m.p(i, "OpenBrace", func(i int) bool {
		return m.stmts(i, field(st, "Body"), true, ctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
	})
}

func (m *matcher) block(i int, v Val, ctx ctx3, k kont) bool {
	if m.y(i, v, "block", ctx, k) {
		return true
	}
	st, ok := v.(*StructV)
	if !ok {
		n, x, _ := m.nodeStruct(v)
		if n != "BlockStatement" {
			return m.miss(i, "no block")
		}
		st = x
	}
	return m.p(i, "OpenBrace", func(i int) bool {
		return m.stmts(i, field(st, "Body"), false, ctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
	})
}

// stmts: a list of statements, all in one context, or with a directive
// prologue.
func (m *matcher) stmts(i int, v Val, body bool, ctx ctx3, k kont) bool {
	if isNilVal(v) {
		return k(i)
	}
	l, ok := v.(*ListV)
	if !ok {
		return m.miss(i, "no list of statements")
	}
	strict, pro := ctx[0], mkBool(body)
	var rec func(i int, as []Atom) bool
	rec = func(i int, as []Atom) bool {
		if len(as) == 0 {
			m.strict, m.pro = strict, pro
			return k(i)
		}
		a := as[0]
		it := m.at(i)
		if a.Base != nil {
			if it == nil || it.kind != "list" || it.form != "plain" || !same(l.with([]Atom{a}), it.v) {
				return m.miss(i, "not these statements")
			}
			if m.ctxOn && (body && !it.okBody || !body && !it.okBlock) || !m.ctxEq(it.ctx, ctx) {
				return m.miss(i, "statements in the context %v, strict %v (%v, %v) instead of %v", it.ctx, it.strict, it.okBlock, it.okBody, ctx)
			}
			if body {
				strict, pro = it.strict, it.pro
			}
			return rec(i+1, as[1:])
		}
		c := ctx3{strict, ctx[1], ctx[2]}
		return m.item(i, a.E, c, func(i int) bool {
			if body {
				d, us := m.w.directive(m.s, a.E)
				strict, pro = mkOr(strict, mkAnd(pro, d, us)), mkAnd(pro, d)
			}
			return rec(i, as[1:])
		})
	}
	return rec(i, l.Atoms)
}

// item: an element of a list without commas.
func (m *matcher) item(i int, v Val, ctx ctx3, k kont) bool {
	if st, ok := v.(*StructV); ok && m.w.isAst(st.T, "SwitchCase") {
		f := func(n string) Val { return field(st, n) }
		cons := func(i int) bool {
			return m.p(i, "Colon", func(i int) bool { return m.stmts(i, f("Consequent"), false, ctx, k) })
		}
		if isNilVal(f("Test")) {
			return m.kw(i, "Default", cons)
		}
		return m.kw(i, "Case", func(i int) bool { return m.sub(i, f("Test"), 0, ctx, cons) })
	}
	return m.subAny(i, v, ctx, k)
}

// directive gives the conditions that a statement is a directive, and a use
// strict directive.
func (w *parserWorld) directive(s *State, v Val) (*Term, *Term) {
	es, sl := w.astT["ExpressionStatement"], w.astT["StringLiteral"]
	if es == nil || sl == nil {
		return tFalse, tFalse
	}
	d := tTrue
	var ex Val
	switch x := v.(type) {
	case *SymIface:
		d = mkIn(dynTerm(x.Term), setOf(typeID(es)))
		ex = field(payload(x.Term, es), "Expression")
	case *IfaceV:
		if !types.Identical(x.T, es) {
			return tFalse, tFalse
		}
		ex = field(x.V, "Expression")
	default:
		return tFalse, tFalse
	}
	var raw Val
	switch x := ex.(type) {
	case *SymIface:
		d = mkAnd(d, mkIn(dynTerm(x.Term), setOf(typeID(sl))))
		raw = field(payload(x.Term, sl), "Raw")
	case *IfaceV:
		if !types.Identical(x.T, sl) {
			return tFalse, tFalse
		}
		raw = field(x.V, "Raw")
	default:
		return tFalse, tFalse
	}
	t := strTerm(raw)
	if t == nil {
		return d, tFalse
	}
	return d, mkOr(mkEq(t, mkStr(`"use strict"`)), mkEq(t, mkStr(`'use strict'`)))
}

func (m *matcher) function(i int, n *StructV, ctx ctx3, k kont) bool {
	f := func(x string) Val { return field(n, x) }
	fctx, ok := m.fnCtx(n, ctx)
	if !ok {
		return m.miss(i, "no flags")
	}
	async := func(i int, k kont) bool {
		it := m.at(i)
		if it == nil || it.kind != "tok" || !m.ent(mkOr(mkIn(tokType(it.v), m.T("KeywordAsync")), mkEq(tokLit(it.v), mkStr("async")))) {
			return m.miss(i, "no async")
		}
		return k(i + 1)
	}
	if m.w.isTrue(m.s, f("Arrow")) {
		if !m.w.isFalse(m.s, f("Generator")) || !emptyStr(f("ID")) {
			return m.miss(i, "not an arrow function")
		}
		tail := func(i int) bool {
			return m.p(i, "FatArrow", func(i int) bool {
				if m.body(i, f("Body"), fctx, k) {
					return true
				}
				if bn, _, _ := m.nodeStruct(f("Body")); bn == "BlockStatement" {
					return false
				}
				if m.levOn && !m.ent(mkNot(mkIn(tokType(m.firstTok(i)), m.T("PunctuatorOpenBrace")))) {
					return m.miss(i, "a concise body may not start with a brace")
				}
				return m.sub(i, f("Body"), 1, fctx, k)
			})
		}
		return m.flag(i, f("Async"), async, func(i int) bool {
			// a single parameter without parentheses
			if l, ok := field(f("Params"), "Parameters").(*ListV); ok && len(l.Atoms) == 1 && l.Atoms[0].E != nil && emptyStr(field(f("Params"), "RestParameter")) {
				b := l.Atoms[0].E
				if isNilVal(field(b, "Init")) && isNilVal(field(field(b, "Value"), "ObjectPattern")) && isNilVal(field(field(b, "Value"), "ArrayPattern")) &&
					m.ident(i, field(field(b, "Value"), "Identifier"), ctx, false, tail) {
					return true
				}
			}
			return m.params(i, f("Params"), ctx, tail)
		})
	}
	if !m.w.isFalse(m.s, f("Arrow")) {
		return m.miss(i, "unknown kind of function")
	}
	return m.flag(i, f("Async"), async, func(i int) bool {
		return m.kw(i, "Function", func(i int) bool {
			return m.flag(i, f("Generator"), func(i int, k kont) bool { return m.p(i, "Mult", k) }, func(i int) bool {
				rest := func(i int) bool {
					return m.params(i, f("Params"), fctx, func(i int) bool { return m.body(i, f("Body"), fctx, k) })
				}
				if emptyStr(f("ID")) {
					return rest(i)
				}
				return m.ident(i, f("ID"), fctx, false, rest)
			})
		})
	})
}

func (m *matcher) class(i int, n *StructV, ctx ctx3, k kont) bool {
	f := func(x string) Val { return field(n, x) }
	return m.kw(i, "Class", func(i int) bool {
		body := func(i int) bool {
			cctx := ctx3{tTrue, ctx[1], ctx[2]}
			if m.y(i, f("Body"), "classbody", ctx, k) {
				return true
			}
			return m.p(i, "OpenBrace", func(i int) bool {
				return m.stmts(i, f("Body"), false, cctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
			})
		}
		heritage := func(i int) bool {
			if isNilVal(f("SuperClass")) {
				return body(i)
			}
			return m.kw(i, "Extends", func(i int) bool { return m.sub(i, f("SuperClass"), 15, ctx, body) })
		}
		if emptyStr(f("ID")) {
			return heritage(i)
		}
		return m.ident(i, f("ID"), ctx, false, heritage)
	})
}

// varDecl: declarations without the semicolon.
func (m *matcher) varDecl(i int, n *StructV, ctx ctx3, k kont) bool {
	word := ""
	for c, t := range map[string]string{"VarDeclaration": "Var", "LetDeclaration": "Let", "ConstDeclaration": "Const"} {
		if m.w.isConst(m.s, field(n, "Kind"), c) {
			word = t
		}
	}
	if word == "" {
		return m.miss(i, "unknown kind of declaration")
	}
	return m.kw(i, word, func(i int) bool {
		if m.y(i, field(n, "Declarations"), "vardecls", ctx, k) {
			return true
		}
		return m.commas(i, field(n, "Declarations"), elemOpts{trailing: "never", atLeast: 1}, ctx, k)
	})
}

// forInit: what stands before the first semicolon, `in` or `of` of a for
// header.
func (m *matcher) forInit(i int, v Val, ctx ctx3, k kont) bool {
	if n, st, _ := m.nodeStruct(v); n == "VariableDeclaration" {
		return m.varDecl(i, st, ctx, k)
	}
	return m.sub(i, v, 0, ctx, k)
}

func (m *matcher) statement(i int, name string, n *StructV, ctx ctx3, k kont) bool {
	f := func(x string) Val { return field(n, x) }
	opt := func(i int, v Val, lev int64, k kont) bool {
		if isNilVal(v) {
			return k(i)
		}
		return m.sub(i, v, lev, ctx, k)
	}
	paren := func(i int, v Val, k kont) bool {
		return m.p(i, "OpenParen", func(i int) bool {
			return m.sub(i, v, 0, ctx, func(i int) bool { return m.p(i, "CloseParen", k) })
		})
	}
	switch name {
	case "BlockStatement":
		return m.block(i, n, ctx, k)
	case "EmptyStatement":
		return m.p(i, "Semicolon", k)
	case "ExpressionStatement":
		if m.levOn && !m.plainStart(i) {
			return false
		}
		return m.sub(i, f("Expression"), 0, ctx, func(i int) bool { return m.semi(i, k) })
	case "VariableDeclaration":
		return m.varDecl(i, n, ctx, func(i int) bool { return m.semi(i, k) })
	case "FunctionDeclaration":
		if !m.plainFn(n) {
			return m.miss(i, "async or generator declaration")
		}
		fctx := ctx3{ctx[0], tFalse, tFalse}
		return m.kw(i, "Function", func(i int) bool {
			return m.ident(i, f("ID"), ctx, false, func(i int) bool {
				return m.params(i, f("Params"), fctx, func(i int) bool { return m.body(i, f("Body"), fctx, k) })
			})
		})
	case "IfStatement":
		return m.kw(i, "If", func(i int) bool {
			return paren(i, f("Test"), func(i int) bool {
				return m.subAny(i, f("Consequent"), ctx, func(i int) bool {
					if isNilVal(f("Alternate")) {
						return k(i)
					}
					if o := m.w.openIf(m.s, f("Consequent")); o == nil || !m.ent(mkNot(o)) {
						return m.miss(i, "the else may belong to an inner if")
					}
					return m.kw(i, "Else", func(i int) bool { return m.subAny(i, f("Alternate"), ctx, k) })
				})
			})
		})
	case "WhileStatement":
		return m.kw(i, "While", func(i int) bool {
			return paren(i, f("Test"), func(i int) bool { return m.subAny(i, f("Body"), ctx, k) })
		})
	case "DoWhileStatement":
		return m.kw(i, "Do", func(i int) bool {
			return m.subAny(i, f("Body"), ctx, func(i int) bool {
				return m.kw(i, "While", func(i int) bool {
					return paren(i, f("Test"), func(i int) bool {
						if m.p(i, "Semicolon", k) {
							return true
						}
						return k(i)
					})
				})
			})
		})
	case "ForStatement":
		return m.kw(i, "For", func(i int) bool {
			return m.p(i, "OpenParen", func(i int) bool {
				rest := func(i int) bool {
					return m.p(i, "Semicolon", func(i int) bool {
						return opt(i, f("Test"), 0, func(i int) bool {
							return m.p(i, "Semicolon", func(i int) bool {
								return opt(i, f("Update"), 0, func(i int) bool {
									return m.p(i, "CloseParen", func(i int) bool { return m.subAny(i, f("Body"), ctx, k) })
								})
							})
						})
					})
				}
				if isNilVal(f("Init")) {
					return rest(i)
				}
				return m.forInit(i, f("Init"), ctx, rest)
			})
		})
	case "ForInStatement", "ForOfStatement":
		word, lev := "In", int64(0)
		if name == "ForOfStatement" {
			word, lev = "Of", 1
		}
		return m.kw(i, "For", func(i int) bool {
			return m.p(i, "OpenParen", func(i int) bool {
				return m.forInit(i, f("Left"), ctx, func(i int) bool {
					return m.kw(i, word, func(i int) bool {
						return m.sub(i, f("Right"), lev, ctx, func(i int) bool {
							return m.p(i, "CloseParen", func(i int) bool { return m.subAny(i, f("Body"), ctx, k) })
						})
					})
				})
			})
		})
	case "SwitchStatement":
		return m.kw(i, "Switch", func(i int) bool {
			return paren(i, f("Discriminant"), func(i int) bool {
				return m.p(i, "OpenBrace", func(i int) bool {
					return m.stmts(i, f("Cases"), false, ctx, func(i int) bool { return m.p(i, "CloseBrace", k) })
				})
			})
		})
	case "ContinueStatement", "BreakStatement":
		return m.kw(i, strings.TrimSuffix(name, "Statement"), func(i int) bool {
			if emptyStr(f("Label")) {
				return m.semi(i, k)
			}
			if !m.sameLine(i) {
				return m.miss(i, "there may be a line break before the label")
			}
			return m.ident(i, f("Label"), ctx, false, func(i int) bool { return m.semi(i, k) })
		})
	case "ReturnStatement", "ThrowStatement":
		return m.kw(i, strings.TrimSuffix(name, "Statement"), func(i int) bool {
			if isNilVal(f("Argument")) {
				if name == "ThrowStatement" {
					return m.miss(i, "throw needs an argument")
				}
				return m.semi(i, k)
			}
			if !m.sameLine(i) {
				return m.miss(i, "there may be a line break before the argument")
			}
			return m.sub(i, f("Argument"), 0, ctx, func(i int) bool { return m.semi(i, k) })
		})
	case "LabeledStatement":
		return m.ident(i, f("Label"), ctx, false, func(i int) bool {
			return m.p(i, "Colon", func(i int) bool { return m.subAny(i, f("Body"), ctx, k) })
		})
	case "TryStatement":
		return m.kw(i, "Try", func(i int) bool {
			return m.block(i, f("Block"), ctx, func(i int) bool {
				fin := func(i int) bool {
					if isNilVal(f("Finalizer")) {
						return k(i)
					}
					return m.kw(i, "Finally", func(i int) bool { return m.block(i, f("Finalizer"), ctx, k) })
				}
				if isNilVal(f("Handler")) {
					return fin(i)
				}
				hn, h, _ := m.nodeStruct(f("Handler"))
				if hn == "" {
					h, _ = f("Handler").(*StructV)
				}
				if h == nil || !m.w.isAst(h.T, "CatchClause") {
					return m.miss(i, "no catch clause")
				}
				return m.kw(i, "Catch", func(i int) bool {
					body := func(i int) bool { return m.block(i, field(h, "Body"), ctx, fin) }
					if m.emptyPattern(field(h, "Param")) {
						return body(i)
					}
					return m.p(i, "OpenParen", func(i int) bool {
						return m.pattern(i, field(h, "Param"), ctx, func(i int) bool { return m.p(i, "CloseParen", body) })
					})
				})
			})
		})
	case "MethodDefinition":
		return m.flag(i, f("Static"), func(i int, k kont) bool { return m.kw(i, "Static", k) }, func(i int) bool {
			word := ""
			switch {
			case m.w.isConst(m.s, f("Kind"), "GetMethod"):
				word = "Get"
			case m.w.isConst(m.s, f("Kind"), "SetMethod"):
				word = "Set"
			case !m.w.isConst(m.s, f("Kind"), "Method"):
				return m.miss(i, "unknown kind of method")
			}
			rest := func(i int) bool {
				return m.key(i, f("Key"), f("Computed"), ctx, func(i int) bool {
					if !m.plainFn(f("Value")) {
						return m.miss(i, "async or generator method")
					}
					return m.method(i, f("Value"), ctx, k)
				})
			}
			if word == "" {
				return rest(i)
			}
			return m.kw(i, word, rest)
		})
	case "ScriptNode":
		return m.stmts(i, f("Body"), true, ctx, k)
	case "ModuleNode":
		return m.stmts(i, f("Body"), false, ctx3{tTrue, ctx[1], ctx[2]}, k)
	case "ImportDeclNode":
		return m.importDecl(i, n, ctx, k)
	}
	return m.miss(i, "no rule for %s", name)
}

func (m *matcher) importDecl(i int, n *StructV, ctx ctx3, k kont) bool {
	f := func(x string) Val { return field(n, x) }
	module := func(i int) bool {
		return m.tok(i, m.T("LiteralString"), func(j int) bool {
			if !m.eq(f("Module"), mkApp("strconst", SStr, tokLit(m.at(i).v))) {
				return m.miss(i, "another module")
			}
			return m.semi(j, k)
		})
	}
	from := func(i int) bool { return m.kw(i, "From", module) }
	def, ns, named := f("DefaultBinding"), f("NameSpace"), f("NamedImports")
	none := isNilList2(named)
	return m.kw(i, "Import", func(i int) bool {
		if isNilVal(def) && isNilVal(ns) && none {
			return module(i)
		}
		second := func(i int) bool {
			if !isNilVal(ns) {
				if !none {
					return m.miss(i, "two import clauses")
				}
				return m.p(i, "Mult", func(i int) bool {
					return m.kw(i, "As", func(i int) bool { return m.ident(i, field(m.structOf(ns), "Identifier"), ctx, false, from) })
				})
			}
			return m.p(i, "OpenBrace", func(i int) bool {
				return m.commas(i, named, elemOpts{trailing: "optional"}, ctx, func(i int) bool { return m.p(i, "CloseBrace", from) })
			})
		}
		if isNilVal(def) {
			return second(i)
		}
		return m.ident(i, field(m.structOf(def), "Identifier"), ctx, false, func(i int) bool {
			if isNilVal(ns) && none {
				return from(i)
			}
			return m.p(i, "Comma", second)
		})
	})
}

func openTerm(x *Term) *Term { return mkApp("openif", SBool, x) }

// openIf is the condition that a statement ends with an if without an else.
func (w *parserWorld) openIf(s *State, v Val) *Term {
	switch x := v.(type) {
	case *SymIface:
		return openTerm(x.Term)
	case *IfaceV:
		m := w.matcher(nil, s)
		n, st, _ := m.nodeStruct(x)
		switch n {
		case "IfStatement":
			if isNilVal(field(st, "Alternate")) {
				return tTrue
			}
			return w.openIf(s, field(st, "Alternate"))
		case "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "LabeledStatement":
			return w.openIf(s, field(st, "Body"))
		}
		return tFalse
	}
	return nil
}
