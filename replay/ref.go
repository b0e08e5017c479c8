package main

import "strings"

// A reference parser, written from the grammar of ECMA-262 for the supported
// part of the language, with unlimited backtracking. Its result is a string: the
// tokens of the tree in order, with a mark around what belongs to a node.

type reject struct{ at int }

type ref struct {
	rs                 []rune
	p                  int
	end                int
	strict, async, gen bool
	cache              map[int]*refTok
	budget             int
	semis              []int // where semicolons were inserted
}

const (
	lvComma = iota
	lvAssign
	lvCond
	lvBin
	lvUnary
	lvUpdate
	lvLHS
)

type rx struct {
	s   string
	lvl int
}

func nd(label string, parts ...string) string {
	var b strings.Builder
	b.WriteString("⟦" + label)
	for _, p := range parts {
		if p != "" {
			b.WriteString(" " + p)
		}
	}
	b.WriteString("⟧")
	return b.String()
}

func list(xs []string, sep string) string { return strings.Join(xs, sep) }

func (r *ref) fail() string { panic(reject{r.p}) }

func (r *ref) tokAt(p int) *refTok {
	if t := r.cache[p]; t != nil {
		return t
	}
	r.budget--
	if r.budget < 0 {
		panic("budget")
	}
	t := refRun(spec.Token, r.rs, p, "")
	t.typ = strings.TrimPrefix(t.typ, "Token")
	r.cache[p] = &t
	return &t
}

func (r *ref) peek() *refTok {
	r.budget--
	if r.budget < 0 {
		panic("budget")
	}
	t := r.tokAt(r.p)
	if t.err {
		r.fail()
	}
	return t
}

func (r *ref) peek2() *refTok {
	t := r.peek()
	return r.tokAt(t.end)
}

func (r *ref) next() *refTok {
	t := r.peek()
	r.p = t.end
	return t
}

// is tells whether the next token is the punctuator or the keyword.
func (r *ref) is(src string) bool { return tokIs(r.peek(), src) }

func tokIs(t *refTok, src string) bool {
	if t.err || t.typ == "None" {
		return false
	}
	if strings.HasPrefix(t.typ, "Literal") || t.typ == "Identifier" {
		return false
	}
	return t.src == src
}

func (r *ref) eat(src string) bool {
	if r.is(src) {
		r.next()
		return true
	}
	return false
}

func (r *ref) want(src string) string {
	if !r.eat(src) {
		r.fail()
	}
	return src
}

var neverReserved = map[string]bool{"as": true, "async": true, "from": true, "get": true, "meta": true, "of": true, "set": true, "target": true}
var strictReserved = map[string]bool{"implements": true, "interface": true, "let": true, "package": true, "private": true, "protected": true, "public": true, "static": true}

func (r *ref) isIdent(t *refTok) bool {
	if t.err {
		return false
	}
	if t.typ == "Identifier" {
		return true
	}
	if !strings.HasPrefix(t.typ, "Keyword") {
		return false
	}
	w := t.src
	switch {
	case neverReserved[w]:
		return true
	case strictReserved[w]:
		return !r.strict
	case w == "await":
		return !r.async
	case w == "yield":
		return !r.gen
	}
	return false
}

func isName(t *refTok) bool {
	return t.typ == "Identifier" || strings.HasPrefix(t.typ, "Keyword")
}

func (r *ref) ident() string {
	t := r.next()
	if !r.isIdent(t) {
		r.fail()
	}
	return t.src
}

// try runs f and takes back what it did if it fails.
func (r *ref) try(f func() string) (s string, ok bool) {
	p, a, b, c, k := r.p, r.strict, r.async, r.gen, r.semis
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(reject); !is {
				panic(x)
			}
			r.p, r.strict, r.async, r.gen, r.semis = p, a, b, c, k
			s, ok = "", false
		}
	}()
	return f(), true
}

func (r *ref) inFunc(async, gen bool, f func() string) string {
	a, g, s := r.async, r.gen, r.strict
	r.async, r.gen = async, gen
	x := f()
	r.async, r.gen, r.strict = a, g, s
	return x
}

// Expressions

func (r *ref) expr(in bool) rx {
	e := r.assign(in)
	if !r.is(",") {
		return e
	}
	xs := []string{e.s}
	for r.eat(",") {
		xs = append(xs, r.assign(in).s)
	}
	return rx{nd("Seq", list(xs, " , ")), lvComma}
}

var assignOps = map[string]bool{"=": true, "*=": true, "/=": true, "%=": true, "+=": true, "-=": true, "<<=": true, ">>=": true, ">>>=": true, "&=": true, "^=": true, "|=": true, "**=": true, "&&=": true, "||=": true, "??=": true}

func (r *ref) assign(in bool) rx {
	t := r.peek()
	if r.isIdent(t) && tokIs(r.peek2(), "=>") {
		r.next()
		r.next()
		return rx{nd("Arrow", nd("Params", t.src), "=>", r.arrowBody(false, in)), lvAssign}
	}
	if t.src == "async" && isName(t) {
		t2 := r.peek2()
		if r.isIdent(t2) && !t2.nl && t2.src != "await" && tokIs(r.tokAt(t2.end), "=>") {
			r.next()
			r.next()
			r.next()
			return rx{nd("Arrow", "async", nd("Params", t2.src), "=>", r.arrowBody(true, in)), lvAssign}
		}
		if tokIs(t2, "(") {
			if s, ok := r.try(func() string {
				r.next()
				r.next()
				p := r.arrowParams()
				r.want("=>")
				return p
			}); ok {
				return rx{nd("Arrow", "async", s, "=>", r.arrowBody(true, in)), lvAssign}
			}
		}
	}
	if tokIs(t, "(") {
		if s, ok := r.try(func() string {
			r.next()
			p := r.arrowParams()
			r.want("=>")
			return p
		}); ok {
			return rx{nd("Arrow", s, "=>", r.arrowBody(false, in)), lvAssign}
		}
	}
	e := r.cond(in)
	if e.lvl == lvLHS {
		if op := r.peek(); assignOps[op.src] && strings.HasPrefix(op.typ, "Punct") {
			r.next()
			return rx{nd("Assign", e.s, op.src, r.assign(in).s), lvAssign}
		}
	}
	return e
}

func (r *ref) arrowBody(async, in bool) string {
	if r.is("{") {
		return r.funcBody(async, false)
	}
	return r.inFunc(async, false, func() string { return r.assign(in).s })
}

// arrowParams follows an opening parenthesis.
func (r *ref) arrowParams() string {
	var xs []string
	for !r.eat(")") {
		if r.eat("...") {
			xs = append(xs, "... "+r.ident())
			r.want(")")
			break
		}
		b := r.binding()
		if r.eat("=") {
			b = nd("Elem", b, "=", r.assign(true).s)
		} else {
			b = nd("Elem", b)
		}
		xs = append(xs, b)
		if !r.is(")") {
			r.want(",")
		}
	}
	return params(xs)
}

func params(xs []string) string {
	if len(xs) == 1 && strings.HasPrefix(xs[0], "⟦Elem ") {
		x := strings.TrimSuffix(strings.TrimPrefix(xs[0], "⟦Elem "), "⟧")
		if !strings.ContainsAny(x, " ⟦") {
			return nd("Params", x)
		}
	}
	return nd("Params", list(xs, " , "))
}

func (r *ref) cond(in bool) rx {
	e := r.short(in)
	if !r.is("?") {
		return e
	}
	r.next()
	a := r.assign(true)
	r.want(":")
	b := r.assign(true)
	return rx{nd("Cond", e.s, "?", a.s, ":", b.s), lvCond}
}

var binPrec = map[string]int{"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6,
	"<": 7, ">": 7, "<=": 7, ">=": 7, "instanceof": 7, "in": 7, "<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}

func (r *ref) short(in bool) rx {
	l := r.bin(r.exp(), 3, in)
	if r.is("??") {
		for r.eat("??") {
			l = rx{nd("Bin", l.s, "??", r.bin(r.exp(), 3, in).s), lvBin}
		}
		return l
	}
	return r.bin(l, 1, in)
}

func (r *ref) bin(l rx, min int, in bool) rx {
	for {
		t := r.peek()
		k := 0
		if t.typ != "Identifier" && !strings.HasPrefix(t.typ, "Literal") && t.typ != "None" {
			k = binPrec[t.src]
		}
		if k == 0 || k < min || t.src == "in" && !in {
			return l
		}
		r.next()
		rhs := r.bin(r.exp(), k+1, in)
		l = rx{nd("Bin", l.s, t.src, rhs.s), lvBin}
	}
}

func (r *ref) exp() rx {
	e := r.unary()
	if e.lvl >= lvUpdate && r.eat("**") {
		return rx{nd("Bin", e.s, "**", r.exp().s), lvBin}
	}
	return e
}

func (r *ref) unary() rx {
	t := r.peek()
	switch {
	case t.typ == "Identifier" || strings.HasPrefix(t.typ, "Literal"):
	default:
		switch t.src {
		case "delete", "void", "typeof", "+", "-", "~", "!":
			r.next()
			return rx{nd("Unary", t.src, r.unary().s), lvUnary}
		case "++", "--":
			r.next()
			// anything else is an early error
			return rx{nd("Update", t.src, r.lhs().s), lvUpdate}
		}
	}
	e := r.lhs()
	if t := r.peek(); !t.nl && (tokIs(t, "++") || tokIs(t, "--")) {
		r.next()
		return rx{nd("Update", e.s, t.src), lvUpdate}
	}
	return e
}

func (r *ref) args() string {
	r.want("(")
	var xs []string
	for !r.eat(")") {
		if r.eat("...") {
			xs = append(xs, nd("Spread", "...", r.assign(true).s))
		} else {
			xs = append(xs, r.assign(true).s)
		}
		if !r.is(")") {
			r.want(",")
		}
	}
	return nd("Args", list(xs, " , "))
}

func (r *ref) memberTail(e string, calls bool) string {
	for {
		switch {
		case r.eat("."):
			t := r.next()
			if !isName(t) {
				r.fail()
			}
			e = nd("Member", e, ".", t.src)
		case r.eat("["):
			x := r.expr(true)
			r.want("]")
			e = nd("Index", e, "[", x.s, "]")
		case calls && r.is("("):
			e = nd("Call", e, r.args())
		default:
			return e
		}
	}
}

func (r *ref) lhs() rx { return rx{r.memberTail(r.memberBase(), true), lvLHS} }

func (r *ref) memberBase() string {
	if r.is("new") {
		r.next()
		c := r.memberTail(r.memberBase(), false)
		if r.is("(") {
			return nd("New", "new", c, r.args())
		}
		return nd("New", "new", c, nd("Args"))
	}
	return r.primary()
}

func (r *ref) primary() string {
	t := r.peek()
	switch t.typ {
	case "LiteralNumber":
		r.next()
		return nd("Num", t.lit)
	case "LiteralString":
		r.next()
		return nd("Str", t.lit)
	case "PunctuatorDiv", "PunctuatorDivAssign":
		w := refRun(spec.Regexp, r.rs, t.end, "re")
		if w.err {
			r.fail()
		}
		r.p = w.end
		return nd("Re", t.src+w.lit)
	}
	if r.isIdent(t) {
		r.next()
		if t.src == "async" {
			if f := r.peek(); tokIs(f, "function") && !f.nl {
				return r.function(true)
			}
		}
		return nd("Id", t.src)
	}
	switch {
	case t.typ == "Identifier":
	case r.is("this"):
		r.next()
		return nd("This", "this")
	case r.is("null"), r.is("true"), r.is("false"):
		r.next()
		return nd("Lit", t.src)
	case r.is("function"):
		return r.function(false)
	case r.is("class"):
		r.next()
		name := ""
		if r.isIdent(r.peek()) {
			name = r.ident()
		}
		return nd("ClassExpr", "class", name, r.classTail())
	case r.is("["):
		return r.array()
	case r.is("{"):
		return r.object()
	case r.is("("):
		r.next()
		e := r.expr(true)
		r.want(")")
		return nd("Paren", e.s)
	}
	return r.fail()
}

func (r *ref) array() string {
	r.want("[")
	var xs []string
	for {
		for r.eat(",") {
			xs = append(xs, nd("Hole"))
		}
		if r.eat("]") {
			break
		}
		xs = append(xs, r.assign(true).s)
		if r.eat("]") {
			break
		}
		r.want(",")
	}
	return arr("Arr", xs)
}

func arr(label string, xs []string) string {
	s := list(xs, " , ")
	if len(xs) > 0 && xs[len(xs)-1] == nd("Hole") {
		s += " ,"
	}
	return nd(label, "[", s, "]")
}

// key is a property name; the second result tells whether it may be a
// shorthand.
func (r *ref) key() (string, bool) {
	t := r.next()
	switch {
	case isName(t):
		return t.src, r.isIdent(t)
	case t.typ == "LiteralNumber":
		return nd("Num", t.lit), false
	case t.typ == "LiteralString":
		return nd("Str", t.lit), false
	case tokIs(t, "["):
		e := r.assign(true)
		r.want("]")
		return nd("Computed", "[", e.s, "]"), false
	}
	r.fail()
	return "", false
}

func (r *ref) object() string {
	r.want("{")
	var xs []string
	for !r.eat("}") {
		xs = append(xs, r.property())
		if !r.is("}") {
			r.want(",")
		}
	}
	return nd("Obj", "{", list(xs, " , "), "}")
}

func (r *ref) property() string {
	t := r.peek()
	ends := func(t *refTok) bool {
		return tokIs(t, ":") || tokIs(t, ",") || tokIs(t, "}") || tokIs(t, "(") || t.typ == "None"
	}
	if isName(t) && (t.src == "get" || t.src == "set") && !ends(r.peek2()) {
		r.next()
		k, _ := r.key()
		return nd("P:"+t.src, t.src, k, r.funcTail(false, false))
	}
	async, gen := "", ""
	if isName(t) && t.src == "async" && !ends(r.peek2()) {
		r.next()
		async = "async"
	}
	if r.eat("*") {
		gen = "*"
	}
	k, short := r.key()
	switch {
	case async == "" && gen == "" && r.eat(":"):
		return nd("P:init", k, ":", r.assign(true).s)
	case r.is("("):
		return nd("P:method", async, gen, k, r.funcTail(async != "", gen != ""))
	case async == "" && gen == "" && short && (r.is(",") || r.is("}")):
		return nd("P:short", k)
	}
	return r.fail()
}

func (r *ref) function(async bool) string {
	r.want("function")
	gen := r.eat("*")
	a, g := "", ""
	if async {
		a = "async"
	}
	if gen {
		g = "*"
	}
	name, ps := "", ""
	r.inFunc(async, gen, func() string {
		if r.isIdent(r.peek()) {
			name = r.ident()
		}
		ps = r.formals()
		return ""
	})
	return nd("Func", a, "function", g, name, ps, r.funcBody(async, gen))
}

func (r *ref) funcTail(async, gen bool) string {
	p := r.inFunc(async, gen, r.formals)
	return p + " " + r.funcBody(async, gen)
}

func (r *ref) formals() string {
	r.want("(")
	return r.arrowParams()
}

func (r *ref) funcBody(async, gen bool) string {
	return r.inFunc(async, gen, func() string {
		r.want("{")
		xs := r.items(func() bool { return r.is("}") }, true)
		r.want("}")
		return nd("Block", "{", list(xs, " "), "}")
	})
}

func (r *ref) classTail() string {
	h := ""
	if r.eat("extends") {
		h = "extends " + r.memberTail(r.memberBase(), false)
	}
	r.want("{")
	s := r.strict
	r.strict = true
	var xs []string
	for !r.eat("}") {
		var m []string
		if r.is("static") {
			r.next()
			m = append(m, "static")
		}
		if r.is("get") || r.is("set") {
			m = append(m, r.next().src)
		}
		t := r.next()
		switch {
		case t.typ == "Identifier":
			m = append(m, t.src)
		case tokIs(t, "["):
			e := r.assign(true)
			r.want("]")
			m = append(m, nd("Computed", "[", e.s, "]"))
		default:
			r.fail()
		}
		m = append(m, r.funcTail(false, false))
		xs = append(xs, nd("Method", m...))
	}
	r.strict = s
	if h != "" {
		h += " "
	}
	return h + nd("Body", "{", list(xs, " "), "}")
}

// Patterns

func (r *ref) binding() string {
	switch {
	case r.eat("["):
		var xs []string
		for {
			for r.eat(",") {
				xs = append(xs, nd("Hole"))
			}
			if r.eat("]") {
				break
			}
			if r.eat("...") {
				xs = append(xs, nd("Rest", "...", r.binding()))
				r.want("]")
				break
			}
			xs = append(xs, r.bindInit(r.binding()))
			if r.eat("]") {
				break
			}
			r.want(",")
		}
		return arr("ArrPat", xs)
	case r.eat("{"):
		var xs []string
		for !r.eat("}") {
			if r.eat("...") {
				xs = append(xs, nd("Rest", "...", r.ident()))
				r.want("}")
				break
			}
			t := r.next()
			k := t.src
			if !isName(t) || !r.is(":") && !r.isIdent(t) {
				r.fail()
			}
			if r.eat(":") {
				xs = append(xs, nd("PP", k, ":", r.bindInit(r.binding())))
			} else {
				xs = append(xs, nd("PP", r.bindInit(k)))
			}
			if !r.is("}") {
				r.want(",")
			}
		}
		return nd("ObjPat", "{", list(xs, " , "), "}")
	}
	return r.ident()
}

func (r *ref) bindInit(b string) string {
	if r.eat("=") {
		return nd("Elem", b, "=", r.assign(true).s)
	}
	return nd("Elem", b)
}

// Statements

func (r *ref) inserted() { r.semis = append(r.semis[:len(r.semis):len(r.semis)], r.p) }

func (r *ref) semicolon() {
	if r.eat(";") {
		return
	}
	t := r.peek()
	if t.nl || t.typ == "None" || tokIs(t, "}") {
		r.inserted()
		return
	}
	r.fail()
}

func (r *ref) items(end func() bool, directives bool) []string {
	var xs []string
	for !end() {
		s := r.item()
		if directives {
			switch s {
			case `⟦ExprStmt ⟦Str "use strict"⟧⟧`, `⟦ExprStmt ⟦Str 'use strict'⟧⟧`:
				r.strict = true
				s = strings.Replace(s, "ExprStmt", "Directive", 1)
			default:
				directives = strings.HasPrefix(s, "⟦ExprStmt ⟦Str ")
			}
		}
		xs = append(xs, s)
	}
	return xs
}

func (r *ref) item() string {
	t := r.peek()
	switch {
	case tokIs(t, "function"):
		r.next()
		name := r.ident()
		return nd("FuncDecl", "function", name, r.funcTail(false, false))
	case tokIs(t, "class"):
		r.next()
		name := r.ident()
		return nd("ClassDecl", "class", name, r.classTail())
	case tokIs(t, "const"), tokIs(t, "let") && r.letDecl():
		r.next()
		d := r.decls(true)
		r.semicolon()
		return nd("Var", t.src, d)
	}
	return r.stmt()
}

func (r *ref) letDecl() bool {
	n := r.peek2()
	return tokIs(n, "[") || tokIs(n, "{") || r.isIdent(n)
}

func (r *ref) decls(in bool) string {
	var xs []string
	for {
		b := r.binding()
		if r.eat("=") {
			b += " = " + r.assign(true).s
		}
		xs = append(xs, nd("Decl", b))
		if !r.eat(",") {
			return list(xs, " , ")
		}
	}
}

func (r *ref) block() string {
	r.want("{")
	xs := r.items(func() bool { return r.is("}") }, false)
	r.want("}")
	return nd("Block", "{", list(xs, " "), "}")
}

func (r *ref) paren() string {
	r.want("(")
	e := r.expr(true)
	r.want(")")
	return e.s
}

func (r *ref) stmt() string {
	t := r.peek()
	switch {
	case tokIs(t, "{"):
		return r.block()
	case r.eat("var"):
		d := r.decls(true)
		r.semicolon()
		return nd("Var", "var", d)
	case r.eat(";"):
		return nd("Empty")
	case r.eat("if"):
		c := r.paren()
		a := r.stmt()
		if r.eat("else") {
			return nd("If", "if", c, a, "else", r.stmt())
		}
		return nd("If", "if", c, a)
	case r.eat("do"):
		b := r.stmt()
		r.want("while")
		c := r.paren()
		if !r.eat(";") {
			r.inserted()
		}
		return nd("DoWhile", "do", b, "while", c)
	case r.eat("while"):
		c := r.paren()
		return nd("While", "while", c, r.stmt())
	case r.eat("for"):
		return r.forStmt()
	case r.eat("switch"):
		d := r.paren()
		r.want("{")
		var xs []string
		for !r.eat("}") {
			h := "default"
			if r.eat("case") {
				h = "case " + r.expr(true).s
			} else {
				r.want("default")
			}
			r.want(":")
			ss := r.items(func() bool { return r.is("case") || r.is("default") || r.is("}") }, false)
			xs = append(xs, nd("Case", h, ":", list(ss, " ")))
		}
		return nd("Switch", "switch", d, "{", list(xs, " "), "}")
	case r.eat("continue"), r.eat("break"):
		l := ""
		if n := r.peek(); !n.nl && r.isIdent(n) {
			l = r.ident()
		}
		r.semicolon()
		return nd("Jump", t.src, l)
	case r.eat("return"):
		n := r.peek()
		if n.nl || n.typ == "None" || tokIs(n, ";") || tokIs(n, "}") {
			r.semicolon()
			return nd("Return", "return")
		}
		e := r.expr(true)
		r.semicolon()
		return nd("Return", "return", e.s)
	case r.eat("throw"):
		if r.peek().nl {
			r.fail()
		}
		e := r.expr(true)
		r.semicolon()
		return nd("Throw", "throw", e.s)
	case r.eat("try"):
		b := r.block()
		c, f := "", ""
		if r.eat("catch") {
			p := ""
			if r.eat("(") {
				p = r.binding()
				r.want(")")
			}
			c = nd("Catch", "catch", p, r.block())
		}
		if r.eat("finally") {
			f = "finally " + r.block()
		}
		return nd("Try", "try", b, c, f)
	case tokIs(t, "function"), tokIs(t, "class"), tokIs(t, "const"):
		r.fail()
	case tokIs(t, "let") && r.letDecl():
		r.fail()
	case t.src == "async" && isName(t) && tokIs(r.peek2(), "function") && !r.peek2().nl:
		r.fail()
	}
	if r.isIdent(t) && tokIs(r.peek2(), ":") {
		r.next()
		r.next()
		return nd("Label", t.src, ":", r.stmt())
	}
	e := r.expr(true)
	r.semicolon()
	return nd("ExprStmt", e.s)
}

func (r *ref) forStmt() string {
	r.want("(")
	var init string
	switch {
	case r.is(";"):
	case r.eat("var"):
		init = nd("Var", "var", r.declsNoIn())
	default:
		init = r.expr(false).s
	}
	if init != "" && (r.is("in") || r.is("of")) {
		if r.eat("in") {
			e := r.expr(true)
			r.want(")")
			return nd("ForIn", "for", init, "in", e.s, r.stmt())
		}
		r.next()
		e := r.assign(true)
		r.want(")")
		return nd("ForOf", "for", init, "of", e.s, r.stmt())
	}
	r.want(";")
	var c, u string
	if !r.is(";") {
		c = r.expr(true).s
	}
	r.want(";")
	if !r.is(")") {
		u = r.expr(true).s
	}
	r.want(")")
	return nd("For", "for", init, nd("Test", c), nd("Update", u), r.stmt())
}

// declsNoIn are the declarations of a for head. The code takes `in` as an
// operator there, which is allowed for.
func (r *ref) declsNoIn() string { return r.decls(true) }

// refParse parses a text; ok is false if it is rejected, and sure is false if
// the effort was too high to say.
func refParse(input, mode string) (tree string, ok, sure bool) {
	tree, ok, sure, _ = refParseSemis(input, mode)
	return
}

// refParseSemis also tells before which runes semicolons were inserted.
func refParseSemis(input, mode string) (tree string, ok, sure bool, semis []int) {
	r := &ref{rs: []rune(input), cache: map[int]*refTok{}, budget: 40*len(input) + 4000}
	defer func() {
		semis = r.semis
		if x := recover(); x != nil {
			if x == "budget" {
				tree, ok, sure = "", false, false
				return
			}
			if _, is := x.(reject); !is {
				panic(x)
			}
			tree, ok, sure = "", false, true
		}
	}()
	switch mode {
	case "expression":
		e := r.expr(true)
		r.peek()
		return e.s, true, true, nil
	case "script":
		xs := r.items(func() bool { return r.peek().typ == "None" }, true)
		return nd("Script", list(xs, " ")), true, true, nil
	}
	r.strict = true
	var xs []string
	for r.peek().typ != "None" {
		if r.is("import") {
			xs = append(xs, r.importDecl())
			continue
		}
		if r.is("export") {
			r.fail()
		}
		xs = append(xs, r.item())
	}
	return nd("Module", list(xs, " ")), true, true, nil
}

func (r *ref) str() string {
	t := r.next()
	if t.typ != "LiteralString" {
		r.fail()
	}
	return t.lit[1 : len(t.lit)-1]
}

func (r *ref) importDecl() string {
	r.want("import")
	if r.peek().typ == "LiteralString" {
		s := r.str()
		r.semicolon()
		return nd("Import", "import", nd("Mod", s))
	}
	var d, m string
	if r.isIdent(r.peek()) {
		d = nd("Default", r.ident())
	}
	if d == "" || r.eat(",") {
		if r.eat("*") {
			r.want("as")
			m = nd("NS", "* as", r.ident())
		} else {
			r.want("{")
			var xs []string
			for !r.eat("}") {
				n := r.ident()
				if r.eat("as") {
					n += " as " + r.ident()
				}
				xs = append(xs, n)
				if !r.is("}") {
					r.want(",")
				}
			}
			m = nd("Named", "{", list(xs, " , "), "}")
		}
		if d != "" {
			m = ", " + m
		}
	}
	r.want("from")
	s := r.str()
	r.semicolon()
	return nd("Import", "import", d, m, "from", nd("Mod", s))
}
