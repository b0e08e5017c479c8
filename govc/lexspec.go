package main

import (
	"fmt"
	"sort"
	"unicode"
)

// The lexical grammar of the supported part of ECMAScript, as an automaton
// over runes (-1 is the end of input). It is written from ECMA-262, section
// 12, and is what the lexer is verified against.

const (
	keepLit  = 1
	keepPat  = 2
	keepFlag = 4
)

type lexEdge struct {
	set  *Set
	to   int
	keep int
	nl   bool // a line terminator is skipped
}

type lexState struct {
	name  string
	label string // token constant, or ""
	prop  string // property an error in this state belongs to
	skip  bool   // white space and comments: the end of input is TokenNone
	edges []lexEdge
	bad   *Set // runes that may not follow an accepted element directly
}

type lexSpec struct {
	states []*lexState
	idx    map[string]int
}

var (
	eofSet     = setOf(-1)
	ltSet      = setOf(0x0A, 0x0D, 0x2028, 0x2029)
	wsSet      = setOf(0x09, 0x0B, 0x0C, 0x20, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x202F, 0x205F, 0x3000, 0xFEFF)
	anyRune    = setRange(0, runeMax)
	digitSet   = setRange('0', '9')
	octSet     = setRange('0', '7')
	binSet     = setRange('0', '1')
	hexSet     = digitSet.union(setRange('a', 'f')).union(setRange('A', 'F'))
	expSet     = setRunes("eE")
	patSyntax  = tableSet(unicode.Pattern_Syntax).union(tableSet(unicode.Pattern_White_Space))
	idStartSet = tableSet(unicode.L).union(tableSet(unicode.Nl)).union(tableSet(unicode.Other_ID_Start)).minus(patSyntax).union(setRunes("$_"))
	idContSet  = tableSet(unicode.L).union(tableSet(unicode.Nl)).union(tableSet(unicode.Other_ID_Start)).union(tableSet(unicode.Mn)).union(tableSet(unicode.Mc)).
			union(tableSet(unicode.Nd)).union(tableSet(unicode.Pc)).union(tableSet(unicode.Other_ID_Continue)).minus(patSyntax).union(setRunes("$_")).union(setOf(0x200C, 0x200D))
)

// Punctuators of ECMA-262 12.8, except the optional chaining punctuator, which
// this lexer does not support.
var punctuators = map[string]string{
	"{": "OpenBrace", "}": "CloseBrace", "(": "OpenParen", ")": "CloseParen", "[": "OpenBracket", "]": "CloseBracket",
	".": "Dot", "...": "Ellipsis", ";": "Semicolon", ",": "Comma", "<": "LessThan", ">": "GreaterThan", "<=": "LessThanEqual",
	">=": "GreaterThanEqual", "==": "Equal", "!=": "NotEqual", "===": "StrictEqual", "!==": "StrictNotEqual", "+": "Plus",
	"-": "Minus", "*": "Mult", "/": "Div", "%": "Mod", "**": "Exponent", "++": "Increment", "--": "Decrement", "<<": "LShift",
	">>": "RShift", ">>>": "UnsignedRShift", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "!": "Not", "~": "BitNot",
	"&&": "LogicalAnd", "||": "LogicalOr", "??": "NullCoalesce", "?": "QuestionMark", ":": "Colon", "=": "Assign",
	"+=": "PlusAssign", "-=": "MinusAssign", "*=": "MultAssign", "/=": "DivAssign", "%=": "ModAssign", "**=": "ExponentAssign",
	"<<=": "LShiftAssign", ">>=": "RShiftAssign", ">>>=": "UnsignedRShiftAssign", "&=": "BitAndAssign", "|=": "BitOrAssign",
	"^=": "BitXorAssign", "&&=": "LogicalAndAssign", "||=": "LogicalOrAssign", "??=": "NullCoalesceAssign", "=>": "FatArrow",
}

// Words the lexer reports with token types of their own.
var keywords = map[string]string{
	"as": "As", "async": "Async", "await": "Await", "break": "Break", "case": "Case", "catch": "Catch", "class": "Class",
	"const": "Const", "continue": "Continue", "debugger": "Debugger", "default": "Default", "delete": "Delete", "do": "Do",
	"else": "Else", "enum": "Enum", "export": "Export", "extends": "Extends", "false": "False", "finally": "Finally", "for": "For",
	"from": "From", "function": "Function", "get": "Get", "if": "If", "implements": "Implements", "import": "Import", "in": "In",
	"instanceof": "InstanceOf", "interface": "Interface", "let": "Let", "meta": "Meta", "new": "New", "null": "Null", "of": "Of",
	"package": "Package", "private": "Private", "protected": "Protected", "public": "Public", "return": "Return", "set": "Set",
	"static": "Static", "super": "Super", "switch": "Switch", "target": "Target", "this": "This", "throw": "Throw", "true": "True",
	"try": "Try", "typeof": "TypeOf", "var": "Var", "void": "Void", "while": "While", "with": "With", "yield": "Yield",
}

func (sp *lexSpec) st(name string) int {
	if i, ok := sp.idx[name]; ok {
		return i
	}
	sp.idx[name] = len(sp.states)
	sp.states = append(sp.states, &lexState{name: name, prop: "C07", bad: mkSet(nil)})
	return len(sp.states) - 1
}

func (sp *lexSpec) edge(from string, set *Set, to string, keep int) {
	f, t := sp.st(from), sp.st(to)
	// earlier edges win
	for _, e := range sp.states[f].edges {
		set = set.minus(e.set)
	}
	if !set.empty() {
		sp.states[f].edges = append(sp.states[f].edges, lexEdge{set: set, to: t, keep: keep})
	}
}

func (sp *lexSpec) accept(name, label string) { sp.states[sp.st(name)].label = label }

// tokenSpec is the grammar of one token with the trivia before it.
func tokenSpec() *lexSpec {
	sp := &lexSpec{idx: map[string]int{}}
	sp.st("start")
	// trivia
	sp.edge("start", wsSet, "start", 0)
	sp.edge("start", ltSet, "start", 0)
	sp.edge("/", setRunes("/"), "//", 0)
	sp.edge("/", setRunes("*"), "/*", 0)
	sp.edge("//", ltSet, "start", 0)
	sp.edge("//", anyRune, "//", 0)
	sp.edge("/*", setRunes("*"), "/* *", 0)
	sp.edge("/*", ltSet, "/*", 0)
	sp.edge("/*", anyRune, "/*", 0)
	sp.edge("/* *", setRunes("/"), "start", 0)
	sp.edge("/* *", setRunes("*"), "/* *", 0)
	sp.edge("/* *", ltSet, "/*", 0)
	sp.edge("/* *", anyRune, "/*", 0)
	for _, n := range []string{"start", "//", "/*", "/* *"} {
		sp.states[sp.st(n)].prop = "C08"
		for i := range sp.states[sp.st(n)].edges {
			e := &sp.states[sp.st(n)].edges[i]
			if e.set.subsetOf(ltSet) {
				e.nl = true
			}
		}
	}
	sp.states[sp.st("start")].skip = true
	sp.states[sp.st("//")].skip = true
	// punctuators
	var ps []string
	for p := range punctuators {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		prev := "start"
		for i, r := range p {
			n := p[:i+1]
			have := false
			for _, e := range sp.states[sp.st(prev)].edges {
				if e.to == sp.st(n) {
					have = true
				}
			}
			if !have {
				k := 0
				if p[:i+1] == "." {
					k = keepLit // it may start a number
				}
				sp.edge(prev, setOf(int64(r)), n, k)
			}
			prev = n
		}
		sp.accept(p, "TokenPunctuator"+punctuators[p])
	}
	// names
	sp.edge("start", idStartSet, "name", keepLit)
	sp.edge("name", idContSet, "name", keepLit)
	sp.accept("name", "TokenIdentifier")
	sp.edge("start", setRunes("#"), "#", 0)
	sp.edge("#", idStartSet, "#name", keepLit)
	sp.edge("#name", idContSet, "#name", keepLit)
	sp.accept("#name", "TokenPrivateIdentifier")
	// numbers
	num := func(n string) {
		sp.accept(n, "TokenLiteralNumber")
		sp.states[sp.st(n)].bad = idStartSet.union(digitSet)
	}
	n := setRunes("n")
	us := setRunes("_")
	sp.edge("start", setRunes("0"), "num 0", keepLit)
	sp.edge("num 0", n, "num bigint", keepLit)
	for _, x := range []struct {
		p, n string
		d    *Set
	}{{"bB", "binary", binSet}, {"oO", "octal", octSet}, {"xX", "hex", hexSet}} {
		sp.edge("num 0", setRunes(x.p), "num "+x.n+" first", keepLit)
		sp.edge("num "+x.n+" first", x.d, "num "+x.n, keepLit)
		sp.edge("num "+x.n, x.d, "num "+x.n, keepLit)
		sp.edge("num "+x.n, us, "num "+x.n+" sep", 0)
		sp.edge("num "+x.n, n, "num bigint", keepLit)
		sp.edge("num "+x.n+" sep", x.d, "num "+x.n, keepLit)
		num("num " + x.n)
	}
	sp.edge("num 0", octSet, "num legacy", keepLit)
	sp.edge("num 0", digitSet, "num legacy decimal", keepLit)
	sp.edge("num legacy", octSet, "num legacy", keepLit)
	sp.edge("num legacy", digitSet, "num legacy decimal", keepLit)
	sp.edge("num legacy decimal", digitSet, "num legacy decimal", keepLit)
	sp.edge("start", digitSet, "num dec", keepLit)
	sp.edge("num dec", digitSet, "num dec", keepLit)
	sp.edge("num dec", us, "num dec sep", 0)
	sp.edge("num dec sep", digitSet, "num dec", keepLit)
	sp.edge("num dec", n, "num bigint", keepLit)
	for _, x := range []string{"num 0", "num legacy decimal", "num dec"} {
		sp.edge(x, setRunes("."), "num dot", keepLit)
		sp.edge(x, expSet, "num exp", keepLit)
	}
	sp.edge(".", digitSet, "num frac", keepLit)
	sp.edge("num dot", digitSet, "num frac", keepLit)
	sp.edge("num dot", expSet, "num exp", keepLit)
	sp.edge("num frac", digitSet, "num frac", keepLit)
	sp.edge("num frac", us, "num frac sep", 0)
	sp.edge("num frac sep", digitSet, "num frac", keepLit)
	sp.edge("num frac", expSet, "num exp", keepLit)
	sp.edge("num exp", setRunes("+-"), "num exp sign", keepLit)
	sp.edge("num exp", digitSet, "num exp digits", keepLit)
	sp.edge("num exp sign", digitSet, "num exp digits", keepLit)
	sp.edge("num exp digits", digitSet, "num exp digits", keepLit)
	sp.edge("num exp digits", us, "num exp sep", 0)
	sp.edge("num exp sep", digitSet, "num exp digits", keepLit)
	for _, x := range []string{"num 0", "num bigint", "num legacy", "num legacy decimal", "num dec", "num dot", "num frac", "num exp digits"} {
		num(x)
	}
	// strings
	for _, q := range []string{"'", "\""} {
		b, esc, cr, end := "string "+q, "string "+q+" \\", "string "+q+" \\CR", "string end"
		stop := setOf('\n', '\r')
		sp.edge("start", setRunes(q), b, keepLit)
		sp.edge(b, setRunes(q), end, keepLit)
		sp.edge(b, setRunes("\\"), esc, keepLit)
		sp.edge(b, anyRune.minus(stop), b, keepLit)
		sp.edge(esc, setOf('\r'), cr, keepLit)
		sp.edge(esc, anyRune, b, keepLit)
		sp.edge(cr, setOf('\n'), b, keepLit)
		sp.edge(cr, setRunes(q), end, keepLit)
		sp.edge(cr, setRunes("\\"), esc, keepLit)
		sp.edge(cr, anyRune.minus(stop), b, keepLit)
	}
	sp.accept("string end", "TokenLiteralString")
	return sp
}

// regexpSpec is the grammar of a regular expression literal whose first slash
// has been read.
func regexpSpec() *lexSpec {
	sp := &lexSpec{idx: map[string]int{}}
	body := keepLit | keepPat
	sp.st("body")
	for _, x := range [][2]string{{"body", "body \\"}, {"class", "class \\"}} {
		sp.edge(x[0], ltSet, "line break", 0)
		if x[0] == "body" {
			sp.edge("body", setRunes("/"), "flags", keepLit)
			sp.edge("body", setRunes("["), "class", body)
		} else {
			sp.edge("class", setRunes("]"), "body", body)
		}
		sp.edge(x[0], setRunes("\\"), x[1], body)
		sp.edge(x[0], anyRune, x[0], body)
		sp.edge(x[1], ltSet, "line break", 0)
		sp.edge(x[1], anyRune, x[0], body)
	}
	sp.edge("flags", idContSet, "flags", keepLit|keepFlag)
	sp.accept("flags", "TokenLiteralRegExp")
	// A line break is where a regular expression gets stuck.
	lb := sp.st("line break")
	for _, s := range sp.states {
		s.prop = "C17"
		var es []lexEdge
		for _, e := range s.edges {
			if e.to != lb {
				es = append(es, e)
			}
		}
		s.edges = es
	}
	return sp
}

func (sp *lexSpec) String() string {
	r := ""
	for i, s := range sp.states {
		r += fmt.Sprintf("%d %q %s\n", i, s.name, s.label)
		for _, e := range s.edges {
			r += fmt.Sprintf("   %s -> %q keep %d nl %v\n", e.set, sp.states[e.to].name, e.keep, e.nl)
		}
	}
	return r
}
