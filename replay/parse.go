package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

var modes = map[string]parser.ParseMode{"script": parser.ScriptMode, "module": parser.ModuleMode, "expression": parser.ExpressionMode}
var modeNames = []string{"script", "module", "expression"}

type parsed struct {
	node ast.Node
	err  error
	pan  interface{}
	at   ast.Location // where the lexer stands in the end
}

func runParser(r io.RuneScanner, mode string) (o parsed) {
	l := lexer.NewLexer(lexer.NewScanner(r, theURI))
	defer func() {
		if x := recover(); x != nil {
			o.pan = x
		}
		o.at = l.Location()
	}()
	o.node, o.err = parser.NewParser(l).Parse(parser.ParseOptions{Mode: modes[mode]})
	return
}

// treeOf writes the tree; the error is about trees that no text has.
func treeOf(n ast.Node) (s string, err error) {
	defer func() {
		if x := recover(); x != nil {
			b, ok := x.(badTree)
			if !ok {
				b = badTree(fmt.Sprint(x))
			}
			err = errors.New(string(b))
		}
	}()
	return tree(n), nil
}

func esOf(n ast.Node) (v interface{}, pan interface{}) {
	defer func() { pan = recover() }()
	return n.ESTree(), nil
}

// reBadStart finds an expression statement that starts with what it may not
// start with. A parenthesised expression has a node of its own, so the text
// after the marks is the first token.
var reBadStart = regexp.MustCompile(`⟦ExprStmt (?:⟦(?:Seq|Assign|Cond|Bin|Update|Call|Index|Member) )*(?:⟦Id let⟧ \[|⟦Obj |⟦ObjPat |⟦Func |⟦ClassExpr )`)

var reMark = regexp.MustCompile(`⟦[A-Za-z:]+ ?`)
var reClose = regexp.MustCompile(` ?⟧`)

// flat leaves only the tokens of a tree.
func flat(s string) string {
	return strings.Join(strings.Fields(reClose.ReplaceAllString(reMark.ReplaceAllString(s, " "), " ")), " ")
}

// grouped leaves the tokens and the parentheses.
func grouped(s string) string {
	var b strings.Builder
	var st []bool
	for len(s) > 0 {
		if strings.HasPrefix(s, "⟦") {
			m := reMark.FindString(s)
			k := strings.TrimSpace(strings.TrimPrefix(m, "⟦"))
			p := k == "Paren" || k == "Args"
			st = append(st, p)
			if p {
				b.WriteString(" ( ")
			}
			s = s[len(m):]
			continue
		}
		if strings.HasPrefix(s, "⟧") {
			if len(st) > 0 {
				if st[len(st)-1] {
					b.WriteString(" ) ")
				}
				st = st[:len(st)-1]
			}
			s = s[len("⟧"):]
			continue
		}
		b.WriteByte(s[0])
		s = s[1:]
	}
	return strings.Join(strings.Fields(b.String()), " ")
}

// difference tells how the parser and the grammar differ on a text: "" if they
// do not, "accept" if only the parser accepts it, "reject" if only the grammar
// does, "tree" if the trees differ.
func difference(input, mode string) (kind, got, want string) {
	o := runParser(strings.NewReader(input), mode)
	if o.pan != nil {
		return "", "", ""
	}
	w, ok, sure := refParse(input, mode)
	if !sure {
		return "", "", ""
	}
	if o.err != nil {
		if ok {
			return "reject", o.err.Error(), w
		}
		return "", "", ""
	}
	g, err := treeOf(o.node)
	if err != nil {
		return "tree", err.Error(), w
	}
	if !ok {
		return "accept", g, ""
	}
	if g != w {
		return "tree", g, w
	}
	return "", g, w
}

// both tells whether the parser and the grammar agree on the text and accept it.
func both(input, mode string) bool {
	k, g, _ := difference(input, mode)
	return k == "" && g != ""
}

func isWordTok(s string) bool {
	t := strings.TrimSpace(s)
	_, ok := spec.Keywords[t]
	return ok
}

// complete tells whether the grammar allows all of an expression; what follows
// an expression is of no interest.
func complete(input string) bool {
	_, ok, _ := refParse("("+input+"\n)", "script")
	return ok
}

// aboutWords tells whether the difference goes away with other identifiers.
func aboutWords(input, mode, kind string) bool {
	if kind == "reject" && mode == "expression" {
		if !complete(input) {
			return false
		}
	}
	xs := cut(input)
	src := func(i int) string {
		if i < 0 || i >= len(xs) {
			return ""
		}
		return refRun(spec.Token, []rune(xs[i]), 0, "").src
	}
	try := func(ys []string) bool { return both(strings.Join(ys, ""), mode) }
	sub := func(ys []string, i int) []string {
		t := refRun(spec.Token, []rune(ys[i]), 0, "")
		zs := append([]string{}, ys...)
		rs := []rune(ys[i])
		zs[i] = string(rs[:t.end-len([]rune(t.src))]) + "x9"
		return zs
	}
	all := append([]string{}, xs...)
	n := 0
	for i, x := range xs {
		t := refRun(spec.Token, []rune(x), 0, "")
		if !strings.HasPrefix(t.typ, "TokenKeyword") {
			continue
		}
		may := neverReserved[t.src] || strictReserved[t.src] || t.src == "await" || t.src == "yield"
		if kind == "reject" && (!may || t.src == "async" || t.src == "let" && src(i+1) != ":" || src(i+1) == ":" && (src(i-1) == "{" || src(i-1) == ",")) {
			continue // other forms that are not supported
		}
		one := sub(xs, i)
		if try(one) {
			return true
		}
		if may {
			all = sub(all, i)
			n++
		}
	}
	if n > 1 && try(all) {
		return true
	}
	// a directive, or the context of a function
	for _, d := range []string{"use strict"} {
		if kind != "reject" && strings.Contains(input, d) && try(cut(strings.ReplaceAll(input, d, "no directive"))) {
			return true
		}
	}
	return false
}

// aboutSemicolons tells whether the difference goes away with a semicolon or
// without line breaks.
func aboutSemicolons(input, mode, kind string) bool {
	if kind == "reject" {
		if mode == "expression" && !complete(input) {
			return false
		}
		// does it help to write the semicolons?
		_, _, _, semis := refParseSemis(input, mode)
		rs := []rune(input)
		for i := len(semis) - 1; i >= 0; i-- {
			rs = append(rs[:semis[i]:semis[i]], append([]rune{';'}, rs[semis[i]:]...)...)
		}
		return len(semis) > 0 && both(string(rs), mode)
	}
	xs := cut(input)
	flatText := strings.NewReplacer("\n", " ", "\r", " ", "\u2028", " ", "//c", " ", "//", " ").Replace(input)
	if flatText != input {
		if k, _, _ := difference(flatText, mode); k == "" && kind == "tree" {
			return true
		}
	}
	for i := range xs {
		ys := append([]string{}, xs[:i+1]...)
		ys = append(ys, ";")
		ys = append(ys, xs[i+1:]...)
		if both(strings.Join(ys, ""), mode) {
			return true
		}
		if strings.TrimSpace(xs[i]) == ";" {
			ys := append([]string{}, xs...)
			ys[i] = "\n"
			if both(strings.Join(ys, ""), mode) {
				return true
			}
		}
		if strings.ContainsAny(xs[i], "\n\r\u2028") {
			ys := append([]string{}, xs...)
			ys[i] = " " + strings.TrimSpace(cut(xs[i])[0])
			t := refRun(spec.Token, []rune(xs[i]), 0, "")
			ys[i] = " " + t.src
			if both(strings.Join(ys, ""), mode) {
				return true
			}
		}
	}
	return false
}

// class tells what a difference is about.
func class(input, mode string) (kind, why, got, want string) {
	kind, got, want = difference(input, mode)
	switch {
	case kind == "":
	case aboutWords(input, mode, kind):
		why = "words"
	case aboutSemicolons(input, mode, kind):
		why = "semis"
	default:
		why = "other"
	}
	return
}

// shrink leaves out tokens as long as the difference stays.
func shrink(input, mode string, d time.Duration) string {
	end := time.Now().Add(d)
	kind, why, _, _ := class(input, mode)
	for again := true; again; {
		again = false
		xs := cut(input)
		for n := len(xs) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(xs); {
				if time.Now().After(end) {
					return input
				}
				begin(input, mode)
				ys := append(append([]string{}, xs[:i]...), xs[i+n:]...)
				s := strings.Join(ys, "")
				if k, w, _, _ := class(s, mode); k == kind && w == why {
					xs, input, again = ys, s, true
				} else {
					i++
				}
			}
		}
	}
	return input
}

func grammarOne(input, mode string) {
	begin(input, mode)
	kind, got, want := difference(input, mode)
	if kind == "" {
		return
	}
	report := func() {
		input = shrink(input, mode, 3*time.Second)
		kind, got, want = difference(input, mode)
		switch kind {
		case "accept":
			found(input, mode, "accepted as %s; the grammar does not allow this text", got)
		case "reject":
			found(input, mode, "rejected (%s); by the grammar it is %s", got, want)
		default:
			found(input, mode, "the tree is %s; by the grammar it is %s", got, want)
		}
	}
	words := func() bool { return aboutWords(input, mode, kind) }
	semis := func() bool { return aboutSemicolons(input, mode, kind) }
	switch *prop {
	case "all":
		why := "other"
		if words() {
			why = "words"
		} else if semis() {
			why = "semis"
		}
		if kind == "reject" && why == "other" {
			return
		}
		input = shrink(input, mode, 100*time.Millisecond)
		_, _, got, want = class(input, mode)
		fmt.Printf("%s/%s %s %q\n   got %s\n   want %s\n", kind, why, mode, input, got, want)
	case "C03":
		if kind == "tree" && (grouped(got) != grouped(want)) && !(strings.Contains(input, "\n") && semis()) {
			report()
		}
		if kind == "accept" && !words() && !semis() {
			report()
		}
	case "C04":
		if kind != "reject" && reBadStart.MatchString(got) && !reBadStart.MatchString(want) {
			report()
		}
		if kind == "tree" && grouped(got) == grouped(want) && !words() && !semis() {
			report()
		}
		if kind == "accept" && !words() && !semis() {
			report()
		}
	case "C10":
		if kind != "tree" && words() || kind == "tree" && strings.Contains(got+want, "⟦Directive") && words() {
			report()
		}
	case "C12":
		if (kind == "accept" || kind == "tree" || kind == "reject") && !words() && semis() {
			report()
		}
	}
}

// behaviourOne checks what holds for every text and every mode.
func behaviourOne(input, mode string) {
	begin(input, mode)
	o := runParser(strings.NewReader(input), mode)
	switch *prop {
	case "C01":
		if o.pan != nil {
			found(input, mode, "panic: %v", o.pan)
		}
		if (o.node == nil) == (o.err == nil) {
			found(input, mode, "node %v and error %v", o.node, o.err)
		}
		if o.err != nil {
			checkErr(input, mode, o.err, nil, 0, 0)
		}
	case "C05":
		if o.err == nil && o.pan == nil && mode != "expression" {
			if _, pan := esOf(o.node); pan != nil {
				found(input, mode, "conversion panics: %v", pan)
			}
			if containsTemporal(o.node) {
				found(input, mode, "the tree contains a placeholder")
			}
		}
	case "C06":
		if o.err == nil && o.pan == nil {
			es, pan := esOf(o.node)
			if pan != nil {
				return
			}
			if _, err := treeOf(o.node); err != nil {
				return
			}
			if at, ok := sameES(es, esTree(o.node)); !ok {
				found(input, mode, "the ESTree form differs at %s", at)
			}
		}
	case "C15":
		if o.err != nil {
			checkErr(input, mode, o.err, nil, 0, 0)
			checkErrAt(input, mode, o)
		}
	case "C16":
		sideEffects(input, mode)
	}
}

func containsTemporal(n ast.Node) bool {
	_, err := treeOf(n)
	return err != nil && strings.Contains(err.Error(), "Temporal")
}

// checkErrAt checks that the error of a parse is where reading stood: after the
// last token that was scanned, or at the point the lexer stopped.
func checkErrAt(input, mode string, o parsed) {
	var e *errs.SyntaxError
	if !errors.As(o.err, &e) {
		return
	}
	rs := []rune(input)
	loc := e.Location
	if loc.URI != theURI {
		found(input, mode, "error without the source URI")
	}
	for p := 0; p <= len(rs); p++ {
		r, c := posAt(rs, p)
		if loc.Row == r && loc.Column == c {
			return
		}
	}
	found(input, mode, "error at %d:%d, outside of the text", loc.Row, loc.Column)
}

// sideEffects parses twice with the standard streams replaced.
func sideEffects(input, mode string) {
	f, err := os.CreateTemp("", "out")
	if err != nil {
		return
	}
	defer os.Remove(f.Name())
	defer f.Close()
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	a := runParser(strings.NewReader(input), mode)
	b := runParser(strings.NewReader(input), mode)
	if a.err == nil && a.pan == nil {
		esOf(a.node)
	}
	os.Stdout, os.Stderr = so, se
	if st, err := f.Stat(); err == nil && st.Size() > 0 {
		found(input, mode, "%d bytes are written to a standard stream", st.Size())
	}
	ta, ea := treeOf(a.node)
	tb, eb := treeOf(b.node)
	if ta != tb || fmt.Sprint(a.err) != fmt.Sprint(b.err) || fmt.Sprint(ea) != fmt.Sprint(eb) {
		found(input, mode, "a second parse of the same text gives another result")
	}
	// the words of a later parse are those of the first
	for _, t := range []string{"let a; async () => await; function f(){yield}", "import a from 'a'; x = /re/g; class A { static m(){} }"} {
		c := runParser(strings.NewReader(t), "module")
		s, _ := treeOf(c.node)
		k := fmt.Sprint(s, c.err)
		if old, ok := firstParse[t]; ok && old != k {
			found(input, mode, "after this text %q parses as %s, before as %s", t, k, old)
		}
		firstParse[t] = k
	}
}

// concurrently parses in many goroutines, in a program of its own.
func concurrently() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	b, err := exec.Command(exe, "-prop", "C16child", "-spec", *specFile, "-budget", "2s").CombinedOutput()
	if err != nil || len(b) > 0 {
		found(strings.Join(oddWords, " "), "concurrent", "parsing in several goroutines at once: %v: %s", err, strings.SplitN(string(b), "\n", 2)[0])
	}
}

var oddWords = []string{"a\u200d", "b\u200c", "ﬀ", "\U00010400x", "$_", "let", "ªº", "a١", "async", "await", "x\u0301", "1e3", "0x1n", "'\\u{1F600}'", "/[/]/u", "#!", "@"}

func concurrentChild() {
	ts := append(append([]string{}, oddWords...), seedTexts...)
	for i := 0; i < 8; i++ {
		w := strings.Repeat(string(rune('a'+i)), 90)
		ts = append(ts, w+" = '"+w+"' + `"+w+"` + /"+w+"/g // "+w+"\n"+w)
	}
	show := func(t, m string) string {
		o := runParser(strings.NewReader(t), m)
		s, _ := treeOf(o.node)
		if o.err == nil && o.pan == nil {
			esOf(o.node)
		}
		return fmt.Sprint(s, o.err, o.pan)
	}
	want := map[string]string{}
	for _, t := range ts {
		for _, m := range modeNames {
			want[m+t] = show(t, m)
		}
	}
	done := make(chan bool)
	var once sync.Once
	for i := 0; i < 8; i++ {
		go func(i int) {
			for j := i; !timeUp(); j++ {
				t := ts[j%len(ts)]
				for _, m := range modeNames {
					if got := show(t, m); got != want[m+t] {
						once.Do(func() { fmt.Printf("%q gives %.300q, alone %.300q\n", t, got, want[m+t]) })
					}
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}

var firstParse = map[string]string{}

// readerError ends the text with an error of the reader.
func readerError(input, mode string, n int) {
	*(&current), currentMode = input, mode
	r := &errReader{r: strings.NewReader(input), n: n}
	o := runParser(r, mode)
	m := fmt.Sprintf("reader %d %s", n, mode)
	if o.pan != nil {
		found(input, m, "panic: %v", o.pan)
	}
	if (o.node == nil) == (o.err == nil) {
		found(input, m, "node %v and error %v", o.node, o.err)
	}
	if o.err != nil {
		checkErr(input, m, o.err, nil, 0, 0)
	}
}

// peeking compares scanning with and without lookahead.
func peekOne(input string, ops []byte) {
	mode := "peek " + string(ops)
	begin(input, mode)
	type step struct {
		t   lexer.Token
		loc ast.Location
		pan bool
	}
	run := func(peeks bool) (out []step, seen map[int]lexer.Token) {
		seen = map[int]lexer.Token{}
		defer func() {
			if x := recover(); x != nil {
				out = append(out, step{pan: true})
			}
		}()
		s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(strings.NewReader(input), theURI)))
		n := 0
		for _, o := range ops {
			switch {
			case o >= '0' && o <= '9':
				if peeks {
					l := s.Location()
					t := s.PeekAt(int(o - '0'))
					seen[n+int(o-'0')] = t
					if s.Location() != l {
						found(input, mode, "peeking moves the position from %v to %v", l, s.Location())
					}
				}
			case o == 's':
				t := s.Scan()
				if w, ok := seen[n]; ok && w != t {
					found(input, mode, "token %d was peeked as %v and scanned as %v", n, w, t)
				}
				n++
				out = append(out, step{t: t, loc: s.Location()})
				if t.Type == lexer.TokenNone {
					return
				}
			}
		}
		return
	}
	a, _ := run(false)
	b, _ := run(true)
	for i := range b {
		if b[i].pan {
			break // an error ahead is found by looking ahead
		}
		if i >= len(a) || a[i] != b[i] {
			found(input, mode, "token %d is %v at %v with lookahead and %v at %v without", i, b[i].t, b[i].loc, a[i].t, a[i].loc)
		}
	}
}

// raiseOne raises an error after the tokens and the looking ahead that ops
// tells of; it must carry the position after the last token that was taken.
func raiseOne(input string, ops []byte) {
	mode := "raise " + string(ops)
	begin(input, mode)
	run := func(peeks bool) (at ast.Location, ok bool, err error) {
		s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(strings.NewReader(input), theURI)))
		defer func() {
			if x := recover(); x != nil && ok {
				err, _ = x.(error)
			}
		}()
		for _, o := range ops {
			if o == 's' {
				s.Scan()
			} else if peeks {
				s.PeekAt(int(o - '0'))
			}
		}
		at, ok = s.Location(), true
		if peeks {
			s.SyntaxError("raised")
		}
		return
	}
	at, ok, _ := run(false)
	if !ok {
		return
	}
	_, ok, err := run(true)
	if !ok {
		return // an error ahead is found by looking ahead
	}
	var e *errs.SyntaxError
	if !errors.As(err, &e) || errors.Unwrap(e) == nil {
		found(input, mode, "raised %v", err)
	} else if e.Location != at {
		found(input, mode, "an error raised at %v carries %v", &at, &e.Location)
	}
}

func relexOne(input string) {
	begin(input, "relex")
	s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(strings.NewReader(input), theURI)))
	defer func() { recover() }()
	for i := 0; i < 20; i++ {
		t := s.Scan()
		if t.Type == lexer.TokenNone {
			return
		}
		if t.Type == lexer.TokenPunctuatorDiv || t.Type == lexer.TokenPunctuatorDivAssign {
			if i%2 == 1 {
				s.PeekAt(0)
				ok := func() (ok bool) {
					defer func() { ok = recover() != nil }()
					s.ReScan()
					return
				}()
				if !ok {
					found(input, "relex", "%v is read again although the token after it was looked at", t)
				}
				return
			}
			r := s.ReScan()
			if !strings.HasPrefix(r.Literal, t.Source()) {
				found(input, "relex", "re-reading %v gives %q", t, r.Literal)
			}
			return
		}
	}
}

var seedTexts = []string{
	"a => b", "1_0.5 + 2_0e1 - 0x1_F", "(a) => b", "(a, b = 1, ...c) => { }", "async a => b", "async (a, {b}) => b", "({a, b: c, d = 1, ...e}) => a", "([a, , b = 1, ...[c]]) => a",
	"(a, b)", "async (a, b)", "async(...a)", "(...a)", "({a = 1})", "[...a]", "({...a})", "()", "(a,)", "(a)\n=> b", "a?.b", "a ? b : c ? d : e",
	"new a.b.c(d).e", "new new a(b)(c)", "new a", "new (a())()", "a ** b ** c", "(-a) ** b", "-a ** b", "a++ ** b", "++a ** b", "a ?? b ?? c", "a ?? b || c", "a && b ?? c", "(a && b) ?? c", "a || b && c | d ^ e & f == g < h << i + j * k ** l",
	"a\n++b", "a\n++\nb", "a + b\n(c)", "return a\nb", "return\na", "throw a", "throw\na", "break a\nb", "break\na", "continue\na", "do a; while (b) c", "do a\nwhile (b)\nc", "if (a) b; else c", "if (a) b\nelse c", "for (;;) a", "for (a\n;b;c) d", "for (a; b\n) c", "for (a;b;c) d", "for (a in b) c", "for (a of b) c", "for (a of b, c) d", "for (var a in b) c", "for (var a of b) c", "for (var a = 1, b; ;) c", "var a = 1, [b, c = 2] = d, {e, f: g = 3, ...h} = i",
	"let a", "let [a] = b", "let {a} = b", "let\na", "let\n[a] = b", "let\n[a] = b\nc", "const a = 1", "let = 1", "let.a", "let: a", "async: a", "yield: a", "await: a", "static = 1", "let instanceof a", "var let", "var async = 1", "async\nfunction f() {}", "async function f() {}", "(async function f() {})", "(async function* f() {})", "(function* () { yield })", "(function () { yield })", "(async () => await)", "(async () => { await })", "() => { await }", "async () => { () => await }", "async await => a", "async (await) => a",
	"'use strict'; let", "'use strict'\nvar static", "'use\\x20strict'; var static", "function f() { 'use strict'; var static } var static", "(function () { 'use strict'; static }); static", "('use strict'); static", "'a'; 'use strict'; static", "'a', 'b'; 'use strict'; static", "{ 'use strict'; static } static", "class A { m() { static } } static", "class A extends B { static m() {} get a() {} set a(b) {} constructor() {} [a]() {} }", "class let {}", "(class static {})",
	"a.if.class.async", "({if: 1, async: 2, get: 3, set: 4, get a() {}, set a(b) {}, async b() {}, *c() {}, async *d() {}, [e]: 5, 'f': 6, 7: 8, g, [h]() {} })", "({if})", "({let})", "({await})", "({async})", "({get})", "({get, set})", "({async *a() { yield }})", "({async a() { await }})", "({*a() { yield }})",
	"try { a } catch { b } finally { c }", "try { a } catch (b) { c }", "try { a } catch ({b, c: [d]}) { e }", "switch (a) { case b: c; d; default: e; case f: }", "switch (a) { b }", "a: b: while (c) continue a", "if (a) function f() {}", "if (a) let b", "while (a) const b", "a: function f() {}", "{ a; b }", "{ a b }", "a; ; b", "function f(a, [b], {c}, d = 1, ...e) { return a }", "function f(yield, await) {}", "(function* (yield) {})", "(function* yield() {})", "(async function await() {})", "function* f() {}", "/a/g", "a = /=b/", "a / b / c", "a\n/b/g", "(a) / b", "[a] / b", "x = {} / 1", "typeof /a/", "a ? /b/ : /c/",
	"import 'a'", "import a from 'a'", "import a, {b} from 'a'", "import a, * as b from 'a'", "import * as a from 'a'", "import {a, b as c, d} from 'a'", "import {} from 'a'", "import async from 'a'", "import {as as as} from 'a'", "import let from 'a'", "import {let} from 'a'", "import * as static from 'a'", "import 'a' import 'b'", "import a from 'a'\nimport b from 'b'",
	"a = b = c", "a = b, c = d", "a + b = c", "a ? b : c = d", "a = b ? c : d", "a => b, c", "a => b ? c : d", "a => {} ? b : c", "a => {}\n(b)", "(a => b)(c)", "a || b => c", "a = b => c", "x = async\ny => z", "++a++", "a++b", "!a instanceof b", "a in b in c", "for (a = b in c;;);", "for (a ? b : c in d;;);", "for (var a = b in c;;);", "for (a => b in c;;);", "for ((a in b);;);", "for ([a in b];;);", "for (a(b in c);;);", "for (a[b in c];;);", "for (function () { a in b };;);", "for (let of a);", "for (async of a);", "for (const a of b);",
}

func texts(f func(input, mode string)) {
	all := func(s string) {
		for _, m := range modeNames {
			if timeUp() {
				return
			}
			f(s, m)
		}
	}
	for _, s := range seedTexts {
		all(s)
		all("(function(){" + s + "})")
		all("(async () => {" + s + "})")
		all("(function*(){" + s + "})")
		all("'use strict';" + s)
		all("if (a) " + s)
		all(s + "\n" + s)
		all("(" + s + ")")
	}
	// every pair of operators
	ops := append(append([]string{}, genBin[:len(genBin)-1]...), genAssign[2:]...)
	ops = append(ops, "?b:", ",", "=>", ".", "++ +", "-- -")
	pres := append([]string{"", "new "}, genUnary...)
	for _, x := range ops {
		for _, y := range ops {
			f("a "+x+" b "+y+" c", "expression")
			f("for (a "+x+" b "+y+" c;;);", "script")
		}
		for _, u := range pres {
			f("a "+x+" "+u+" b", "expression")
			f(u+" a "+x+" b", "expression")
			f(u+" a\n"+x+" b", "script")
		}
		if timeUp() {
			return
		}
	}
	// every word at every place of an identifier
	for w := range spec.Keywords {
		for _, tpl := range wordPlaces {
			for _, ctx := range []string{"%", "'use strict';%", "(function*(){%})", "(async function(){%})", "(async()=>{%})", "({async*m(){%}})", "class A{m(){%}}", "(function(){'use strict';%});%", "(async()=>{()=>{%}})", "(function*(){function f(){%}})"} {
				s := strings.ReplaceAll(ctx, "%", strings.ReplaceAll(tpl, "$", w))
				f(s, "script")
				if !strings.Contains(ctx, "use strict") {
					f(s, "module")
				}
			}
			if timeUp() {
				return
			}
		}
	}
	r := rand.New(rand.NewSource(*seed))
	var pool []string
	for i := 0; !timeUp(); i++ {
		m := modeNames[r.Intn(3)]
		var s string
		switch {
		case i%3 == 0 || len(pool) == 0:
			s = newGen(r).text(m)
			if len(s) > 600 {
				continue
			}
			if len(pool) < 4000 {
				pool = append(pool, s)
			} else {
				pool[r.Intn(len(pool))] = s
			}
		case i%3 == 1:
			s = mutate(r, pool[r.Intn(len(pool))])
		default:
			if r.Intn(4) == 0 {
				s = mutate(r, seedTexts[r.Intn(len(seedTexts))])
			} else {
				s = mutate(r, pool[r.Intn(len(pool))])
			}
		}
		f(s, m)
	}
}

var wordPlaces = []string{"$", "$;", "$=1", "x=$", "$.a", "a.$", "var $", "let $", "const $=1", "var [$]=a", "var {$}=a", "var {a:$}=b", "var [...$]=a", "var {...$}=a", "function $(){}", "(function $(){})", "(function*$(){})", "(async function $(){})", "function f($){}", "function f(...$){}", "(function*($){})", "(async function($){})", "({$})", "({$:1})", "({$(){}})", "({get $(){}})", "({*$(){}})", "({async $(){}})", "$=>1", "($)=>1", "($,a)=>1", "(a,$)=>1", "(...$)=>1", "({$})=>1", "({a:$})=>1", "([$])=>1", "([...$])=>1", "({...$})=>1", "($=1)=>1", "({$=1})=>1", "async $=>1", "async($)=>1", "async(...$)=>1", "async($,a)", "$:;", "$:a", "a:while(1)break $", "$:while(1)continue $", "class $ {}", "(class $ {})", "class B extends $ {}", "try{}catch($){}", "try{}catch({$}){}", "for($ in a);", "for($ of a);", "for(var $ in a);", "for($;;);", "new $", "$(a)", "$[a]", "a[$]", "a?$:b", "[$]", "$++", "!$", "{$}", "if(a)$", "do $\nwhile(a)", "return $", "throw $", "switch($){case $:}", "$\n$", "a,$", "import $ from 'a'", "import {$} from 'a'", "import {a as $} from 'a'", "import * as $ from 'a'", "import $, {a} from 'a'", "$ in a", "$ instanceof a", "$ => { $ }", "(a=$)=>1", "(a=$)=>{}", "function f(a=$){}"}

func corpusTexts(f func(input, mode string)) {
	ms, _ := filepath.Glob(filepath.Join(*corpus, "ecmascript/parser/testdata/*.js"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil || !bytes.ContainsRune(b, ';') || timeUp() {
			continue
		}
		f(string(b), "script")
	}
}

func parseSearch(one *Witness) {
	if one != nil {
		switch {
		case strings.HasPrefix(one.Mode, "reader "):
			n := 0
			m := ""
			fmt.Sscan(one.Mode[7:], &n, &m)
			readerError(one.Input, m, n)
		case strings.HasPrefix(one.Mode, "peek "):
			peekOne(one.Input, []byte(one.Mode[5:]))
		case strings.HasPrefix(one.Mode, "node "):
			n, _ := strconv.ParseInt(one.Mode[5:], 10, 64)
			if *prop == "C20" {
				spansNode(n)
				return
			}
			nodeOne(n)
		case strings.HasPrefix(one.Mode, "raise "):
			raiseOne(one.Input, []byte(one.Mode[6:]))
		case one.Mode == "concurrent":
			concurrently()
		case one.Mode == "relex":
			relexOne(one.Input)
		case *prop == "C20":
			spansParse(one.Input, one.Mode)
		default:
			grammarOne(one.Input, one.Mode)
			behaviourOne(one.Input, one.Mode)
		}
		return
	}
	switch *prop {
	case "C03", "C04", "C10", "C12", "all":
		texts(grammarOne)
	case "C01", "C02", "C15":
		k := 0
		texts(func(s, m string) {
			behaviourOne(s, m)
			k++
			if *prop == "C15" && k%3 == 0 {
				raiseOne(s, []byte([]string{"0", "s0", "s1", "ss0", "sss02", "ss1s"}[k/3%6]))
			}
			if k%7 == 0 && *prop != "C02" {
				for n := 0; n <= 2*len(s) && n < 40; n++ {
					readerError(s, m, n)
				}
			}
		})
	case "C05", "C06":
		if *prop == "C06" {
			for i := int64(0); i < 20000 && !timeUp(); i++ {
				nodeOne(*seed*1000003 + i)
			}
		}
		corpusTexts(behaviourOne)
		texts(behaviourOne)
	case "C20":
		for i := int64(0); i < 20000 && !timeUp(); i++ {
			spansNode(*seed*1000003 + i)
		}
		corpusTexts(spansParse)
		texts(spansParse)
	case "C16":
		concurrently()
		corpusTexts(behaviourOne)
		texts(behaviourOne)
	case "C11":
		r := rand.New(rand.NewSource(*seed))
		texts(func(s, m string) {
			var ops []byte
			for i := 0; i < 12; i++ {
				if r.Intn(2) == 0 {
					ops = append(ops, byte('0'+r.Intn(4)))
				}
				ops = append(ops, 's')
			}
			peekOne(s, ops)
			relexOne(s)
		})
	}
}
