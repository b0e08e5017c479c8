package main

import (
	"math/rand"
	"strings"
)

// gen writes random texts of the supported language.
type gen struct {
	r    *rand.Rand
	b    strings.Builder
	last byte
	fuel int
	odd  int // how often contextual words are used as identifiers, in %
	nl   int // how often a line break stands between tokens, in %
}

func (g *gen) n(k int) int        { return g.r.Intn(k) }
func (g *gen) p(percent int) bool { return g.r.Intn(100) < percent }

func wordy(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (g *gen) w(ts ...string) {
	for _, t := range ts {
		if t == "" {
			continue
		}
		switch {
		case g.p(g.nl):
			g.b.WriteString([]string{"\n", " \n", "\r\n", "//c\n", "/*\n*/", "\u2028"}[g.n(6)])
		case g.last != 0 && (wordy(g.last) && wordy(t[0]) || !wordy(g.last) && !wordy(t[0])) || g.p(12):
			g.b.WriteString([]string{" ", " ", " ", "\t", "/**/"}[g.n(5)])
		}
		g.b.WriteString(t)
		g.last = t[len(t)-1]
	}
}

var contextual = []string{"async", "await", "yield", "let", "static", "of", "get", "set", "as", "from", "meta", "target", "implements", "interface", "package", "private", "protected", "public", "arguments", "eval"}
var reservedAll = []string{"break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with"}

func (g *gen) word() string {
	if g.p(g.odd) {
		if g.p(4) {
			return reservedAll[g.n(len(reservedAll))]
		}
		return contextual[g.n(len(contextual))]
	}
	return []string{"a", "b", "c", "d", "x1"}[g.n(5)]
}

func (g *gen) ident() { g.w(g.word()) }

func (g *gen) name() {
	if g.p(30) {
		g.w(append(contextual, reservedAll...)[g.n(len(contextual)+len(reservedAll))])
		return
	}
	g.ident()
}

func (g *gen) low() bool { g.fuel--; return g.fuel <= 0 }

var genBin = []string{"||", "&&", "??", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "**", "**"}
var genAssign = []string{"=", "=", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "**=", "&&=", "||=", "??="}
var genUnary = []string{"delete", "void", "typeof", "+", "-", "~", "!", "++", "--"}

func (g *gen) expr() {
	g.assign()
	for g.p(12) {
		g.w(",")
		g.assign()
	}
}

func (g *gen) assign() {
	if g.low() {
		g.atom()
		return
	}
	switch g.n(12) {
	case 0, 1:
		g.operand()
		g.w(genAssign[g.n(len(genAssign))])
		g.assign()
	case 2:
		g.operand()
		g.w("?")
		g.assign()
		g.w(":")
		g.assign()
	case 3, 4:
		g.arrow()
	default:
		g.binary()
	}
}

func (g *gen) binary() {
	g.operand()
	for g.p(45) {
		g.w(genBin[g.n(len(genBin))])
		g.operand()
	}
}

func (g *gen) operand() {
	if g.low() {
		g.atom()
		return
	}
	switch g.n(12) {
	case 0, 1:
		g.w(genUnary[g.n(len(genUnary))])
		g.operand()
	case 2:
		g.chain()
		g.w([]string{"++", "--"}[g.n(2)])
	case 3, 4, 5:
		g.chain()
	default:
		g.atom()
	}
}

func (g *gen) chain() {
	if g.p(15) {
		g.w("new")
		if g.p(20) {
			g.w("new")
		}
	}
	g.primary()
	for g.p(50) {
		switch g.n(5) {
		case 0, 1:
			g.w(".")
			g.name()
		case 2:
			g.w("[")
			g.assign()
			g.w("]")
		default:
			g.args()
		}
	}
}

func (g *gen) args() {
	g.w("(")
	for i := 0; g.p(50) && i < 4; i++ {
		if i > 0 {
			g.w(",")
		}
		if g.p(10) {
			g.w("...")
		}
		g.assign()
	}
	if g.p(4) {
		g.w(",")
	}
	g.w(")")
}

func (g *gen) atom() {
	switch g.n(14) {
	case 0:
		g.w([]string{"1", "0x1F", "1.5e3", "7n", "1_000", "0b1", "1_0.5", "2_0e1"}[g.n(8)])
	case 1:
		g.w([]string{`"s"`, `'t'`, `"use strict"`, `""`, `'\''`}[g.n(5)])
	case 2:
		g.w([]string{"this", "null", "true", "false"}[g.n(4)])
	case 3:
		if g.p(30) {
			g.w([]string{"/r/", "/=r/g", "/[/]\\//u"}[g.n(3)])
		} else {
			g.ident()
		}
	default:
		g.ident()
	}
}

func (g *gen) primary() {
	if g.low() {
		g.atom()
		return
	}
	switch g.n(14) {
	case 0, 1:
		g.w("(")
		g.expr()
		g.w(")")
	case 2:
		g.w("[")
		for g.p(60) {
			if g.p(30) {
				g.w(",")
			} else {
				g.assign()
				if g.p(80) {
					g.w(",")
				} else {
					break
				}
			}
		}
		g.w("]")
	case 3, 4:
		g.w("{")
		for i := 0; g.p(60) && i < 4; i++ {
			if i > 0 {
				g.w(",")
			}
			g.prop()
		}
		if g.p(8) {
			g.w(",")
		}
		g.w("}")
	case 5, 6:
		if g.p(40) {
			g.w("async")
		}
		g.w("function")
		if g.p(40) {
			g.w("*")
		}
		if g.p(50) {
			g.ident()
		}
		g.params()
		g.body()
	case 7:
		g.w("class")
		if g.p(50) {
			g.ident()
		}
		g.class()
	case 8:
		g.w("async")
		if g.p(50) {
			g.args()
		}
	default:
		g.atom()
	}
}

func (g *gen) key() {
	switch g.n(8) {
	case 0:
		g.w("[")
		g.assign()
		g.w("]")
	case 1:
		g.w([]string{`"k"`, "1", "'l'", "1.5", "1e30", "0x1F"}[g.n(6)])
	default:
		g.name()
	}
}

func (g *gen) prop() {
	switch g.n(8) {
	case 0:
		g.ident()
	case 1:
		g.w([]string{"get", "set"}[g.n(2)])
		g.key()
		g.params()
		g.body()
	case 2, 3:
		if g.p(40) {
			g.w("async")
		}
		if g.p(40) {
			g.w("*")
		}
		g.key()
		g.params()
		g.body()
	default:
		g.key()
		g.w(":")
		g.assign()
	}
}

func (g *gen) arrow() {
	if g.p(35) {
		g.w("async")
	}
	if g.p(30) {
		g.ident()
	} else {
		g.w("(")
		for i := 0; g.p(60) && i < 4; i++ {
			if i > 0 {
				g.w(",")
			}
			if g.p(15) {
				g.w("...")
				g.ident()
				break
			}
			g.binding(1)
			if g.p(25) {
				g.w("=")
				g.assign()
			}
		}
		g.w(")")
		if g.p(3) {
			return // no arrow function after all
		}
	}
	g.w("=>")
	if g.p(50) {
		g.body()
	} else {
		g.assign()
	}
}

func (g *gen) params() {
	g.w("(")
	for i := 0; g.p(40) && i < 4; i++ {
		if i > 0 {
			g.w(",")
		}
		if g.p(12) {
			g.w("...")
			g.ident()
			break
		}
		g.binding(2)
		if g.p(20) {
			g.w("=")
			g.assign()
		}
	}
	g.w(")")
}

func (g *gen) binding(depth int) {
	if depth <= 0 || g.p(70) || g.low() {
		g.ident()
		return
	}
	if g.p(50) {
		g.w("[")
		for i := 0; g.p(60) && i < 4; i++ {
			if g.p(20) {
				g.w(",")
				continue
			}
			if g.p(15) {
				g.w("...")
				g.binding(depth - 1)
				break
			}
			g.binding(depth - 1)
			if g.p(25) {
				g.w("=")
				g.assign()
			}
			if g.p(70) {
				g.w(",")
			} else {
				break
			}
		}
		g.w("]")
		return
	}
	g.w("{")
	for i := 0; g.p(60) && i < 4; i++ {
		if i > 0 {
			g.w(",")
		}
		if g.p(15) {
			g.w("...")
			g.ident()
			break
		}
		g.ident()
		if g.p(50) {
			g.w(":")
			g.binding(depth - 1)
		}
		if g.p(25) {
			g.w("=")
			g.assign()
		}
	}
	g.w("}")
}

func (g *gen) class() {
	if g.p(30) {
		g.w("extends")
		g.chain()
	}
	g.w("{")
	for g.p(55) {
		if g.p(30) {
			g.w("static")
		}
		if g.p(30) {
			g.w([]string{"get", "set"}[g.n(2)])
		}
		if g.p(20) {
			g.w("[")
			g.assign()
			g.w("]")
		} else {
			g.w([]string{"a", "b", "constructor"}[g.n(3)])
		}
		g.params()
		g.body()
	}
	g.w("}")
}

func (g *gen) body() {
	g.w("{")
	if g.p(15) {
		g.w([]string{`"use strict"`, `'use strict'`, `"use\x20strict"`, `"d"`}[g.n(4)])
		g.semi()
	}
	g.stmts()
	g.w("}")
}

func (g *gen) stmts() {
	for g.p(50) {
		g.item()
	}
}

func (g *gen) semi() {
	switch {
	case g.p(60):
		g.w(";")
	case g.p(85):
		g.b.WriteString([]string{"\n", "/*\n*/", "//\n"}[g.n(3)])
		g.last = '\n'
	}
}

func (g *gen) item() {
	switch g.n(12) {
	case 0:
		g.w("function")
		g.ident()
		g.params()
		g.body()
	case 1:
		g.w("class")
		g.ident()
		g.class()
	case 2:
		g.w([]string{"let", "const"}[g.n(2)])
		g.decls()
		g.semi()
	default:
		g.stmt()
	}
}

func (g *gen) decls() {
	for {
		g.binding(2)
		if g.p(50) {
			g.w("=")
			g.assign()
		}
		if g.p(75) {
			return
		}
		g.w(",")
	}
}

func (g *gen) block() {
	g.w("{")
	g.stmts()
	g.w("}")
}

func (g *gen) paren() {
	g.w("(")
	g.expr()
	g.w(")")
}

func (g *gen) stmt() {
	if g.low() {
		g.atom()
		g.semi()
		return
	}
	switch g.n(22) {
	case 0:
		g.block()
	case 1:
		g.w("var")
		g.decls()
		g.semi()
	case 2:
		g.w(";")
	case 3, 4:
		g.w("if")
		g.paren()
		g.stmt()
		if g.p(50) {
			g.w("else")
			g.stmt()
		}
	case 5:
		g.w("do")
		g.stmt()
		g.w("while")
		g.paren()
		if g.p(50) {
			g.semi()
		}
	case 6:
		g.w("while")
		g.paren()
		g.stmt()
	case 7, 8, 9:
		g.w("for", "(")
		switch {
		case g.p(30):
			g.w("var")
			g.decls()
		case g.p(70):
			g.expr()
		}
		if g.p(40) {
			g.w([]string{"in", "of"}[g.n(2)])
			g.assign()
		} else {
			g.w(";")
			if g.p(50) {
				g.expr()
			}
			if g.p(90) {
				g.w(";")
			} else {
				g.semi()
			}
			if g.p(50) {
				g.expr()
			}
		}
		g.w(")")
		g.stmt()
	case 10:
		g.w("switch")
		g.paren()
		g.w("{")
		for g.p(60) {
			if g.p(70) {
				g.w("case")
				g.expr()
			} else {
				g.w("default")
			}
			g.w(":")
			g.stmts()
		}
		g.w("}")
	case 11, 12:
		g.w([]string{"break", "continue"}[g.n(2)])
		if g.p(50) {
			g.ident()
		}
		g.semi()
	case 13, 14:
		g.w("return")
		if g.p(60) {
			g.expr()
		}
		g.semi()
	case 15:
		g.w("throw")
		g.expr()
		g.semi()
	case 16:
		g.w("try")
		g.block()
		if g.p(70) {
			g.w("catch")
			if g.p(70) {
				g.w("(")
				g.binding(2)
				g.w(")")
			}
			g.block()
		}
		if g.p(40) {
			g.w("finally")
			g.block()
		}
	case 17:
		g.ident()
		g.w(":")
		g.stmt()
	default:
		g.expr()
		g.semi()
	}
}

func (g *gen) importDecl() {
	g.w("import")
	if g.p(15) {
		g.w(`"m"`)
		g.semi()
		return
	}
	d := g.p(50)
	if d {
		g.ident()
	}
	if !d || g.p(50) {
		if d {
			g.w(",")
		}
		if g.p(40) {
			g.w("*", "as")
			g.ident()
		} else {
			g.w("{")
			for i := 0; g.p(55) && i < 4; i++ {
				if i > 0 {
					g.w(",")
				}
				g.ident()
				if g.p(40) {
					g.w("as")
					g.ident()
				}
			}
			g.w("}")
		}
	}
	g.w("from", `'m'`)
	g.semi()
}

func newGen(r *rand.Rand) *gen {
	g := &gen{r: r, fuel: 4 + r.Intn(40)}
	g.odd = []int{0, 0, 15, 50}[r.Intn(4)]
	g.nl = []int{0, 0, 0, 8, 25}[r.Intn(5)]
	return g
}

// text is a random text for the mode.
func (g *gen) text(mode string) string {
	switch mode {
	case "expression":
		g.expr()
	case "script":
		if g.p(20) {
			g.w(`"use strict"`)
			g.semi()
		}
		for {
			g.item()
			if g.p(50) {
				break
			}
		}
	default:
		for {
			if g.p(40) {
				g.importDecl()
			} else {
				g.item()
			}
			if g.p(50) {
				break
			}
		}
	}
	return g.b.String()
}

var genToks = []string{"a", "b", "1", `"s"`, "(", ")", "[", "]", "{", "}", ",", ";", ":", "?", ".", "...", "=>", "=", "+=", "+", "-", "*", "**", "/", "%", "++", "--", "!", "~", "<", ">", "==", "&&", "||", "??", "&", "|", "^", "<<", ">>>", "\n", "\n", "in", "of", "instanceof", "typeof", "new", "this", "function", "class", "async", "await", "yield", "let", "var", "const", "static", "get", "set", "if", "else", "for", "while", "do", "return", "throw", "break", "continue", "switch", "case", "default", "try", "catch", "finally", "import", "from", "as", "extends", "/r/"}

// cut splits a text into its tokens with the trivia before them.
func cut(s string) []string {
	rs := []rune(s)
	var xs []string
	p := 0
	for p < len(rs) {
		t := refRun(spec.Token, rs, p, "")
		if t.err || t.end <= p || t.typ == "TokenNone" {
			break
		}
		xs = append(xs, string(rs[p:t.end]))
		p = t.end
	}
	return xs
}

// mutate changes the tokens of a text a little.
func mutate(r *rand.Rand, s string) string {
	xs := cut(s)
	if len(xs) == 0 {
		return s
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(xs))
		switch r.Intn(7) {
		case 0:
			xs = append(xs[:i:i], xs[i+1:]...)
		case 1:
			xs[i] = " " + genToks[r.Intn(len(genToks))] + " "
		case 2:
			xs = append(xs[:i:i], append([]string{" " + genToks[r.Intn(len(genToks))] + " "}, xs[i:]...)...)
		case 3:
			j := r.Intn(len(xs))
			xs[i], xs[j] = " "+xs[j], " "+xs[i]
		case 4:
			xs[i] = "\n" + xs[i]
		case 5:
			xs[i] = " " + strings.TrimLeft(strings.ReplaceAll(xs[i], "\n", " "), " ")
		case 6:
			xs[i] = xs[i] + " " + xs[i]
		}
		if len(xs) == 0 {
			return ""
		}
	}
	return strings.Join(xs, "")
}
