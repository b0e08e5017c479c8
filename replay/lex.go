package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
)

type specEdge struct {
	Set  [][2]int64
	To   int
	Keep int
	NL   bool
}
type specState struct {
	Name, Label string
	Skip        bool
	Edges       []specEdge
	Bad         [][2]int64
}
type specT struct {
	Token, Regexp []specState
	Keywords      map[string]string
	Puncts        map[string]string
}

var spec specT

func loadSpec(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func in(set [][2]int64, r rune) bool {
	lo, hi := 0, len(set)
	for lo < hi {
		m := (lo + hi) / 2
		if int64(r) > set[m][1] {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(set) && int64(r) >= set[lo][0]
}

// refTok is a token by the grammar.
type refTok struct {
	typ      string
	lit      string
	src      string
	pat, flg string
	nl       bool
	err      bool
	end      int // index after the token, or of the rune the error is at
	start    int
	state    string
}

// refRun runs one of the automata from position p.
func refRun(states []specState, rs []rune, p int, init string) refTok {
	q := 0
	var t refTok
	var lit, pat, flg []rune
	t.start = p
	tokStart := p
	for {
		r := rune(-1)
		if p < len(rs) {
			r = rs[p]
		}
		st := states[q]
		to := -1
		if r >= 0 {
			for _, e := range st.Edges {
				if in(e.Set, r) {
					to = e.To
					if e.NL {
						t.nl = true
					}
					if e.Keep&1 != 0 {
						lit = append(lit, r)
					}
					if e.Keep&2 != 0 {
						pat = append(pat, r)
					}
					if e.Keep&4 != 0 {
						flg = append(flg, r)
					}
					break
				}
			}
		}
		if to < 0 {
			t.end = p
			t.state = st.Name
			switch {
			case st.Skip && r < 0:
				t.typ = "TokenNone"
			case st.Skip && st.Label == "":
				t.err = true
			case st.Label == "":
				t.err = true
			case in(st.Bad, r):
				t.err = true
			default:
				t.typ = st.Label
				t.src = string(rs[tokStart:p])
				t.lit = string(lit)
				if strings.HasPrefix(st.Label, "TokenPunctuator") {
					t.lit = ""
				}
				t.pat, t.flg = string(pat), string(flg)
				if st.Label == "TokenIdentifier" {
					if k, ok := spec.Keywords[t.lit]; ok {
						t.typ = "TokenKeyword" + k
					}
				}
			}
			return t
		}
		p++
		q = to
		if q == 0 && init == "" {
			tokStart = p
			lit = nil
		}
	}
}

func posAt(rs []rune, p int) (row, col int) {
	row, col = 1, 1
	for i := 0; i < p && i < len(rs); i++ {
		switch rs[i] {
		case '\n', '\r', 0x2028, 0x2029:
			row++
			col = 1
		default:
			col++
		}
	}
	return
}

var theURI, _ = url.Parse("file:///x.js")

type lexOut struct {
	tok lexer.Token
	re  lexer.ReToken
	pan interface{}
	loc ast.Location
}

func doLex(l *lexer.Lexer) (o lexOut) {
	defer func() {
		if r := recover(); r != nil {
			o.pan = r
			o.loc = l.Location()
		}
	}()
	o.tok = l.Lex()
	o.loc = l.Location()
	return
}

func doReLex(l *lexer.Lexer) (o lexOut) {
	defer func() {
		if r := recover(); r != nil {
			o.pan = r
			o.loc = l.Location()
		}
	}()
	o.re = l.ReLex()
	o.loc = l.Location()
	return
}

func tokName(t lexer.TokenType) string { return t.String() }

// checkErr checks an error value (C15); want is the location it must carry.
func checkErr(input, mode string, v interface{}, rs []rune, lo, hi int) {
	if *prop != "C15" && *prop != "C01" {
		return
	}
	var loc ast.Location
	var cause error
	var err error
	switch x := v.(type) {
	case *errs.SyntaxError:
		loc, cause, err = x.Location, x.Err, x
	case *errs.ParserError:
		loc, cause, err = x.Location, x.Err, x
	case *errs.EncodingError:
		loc, cause, err = x.Location, x.Err, x
	default:
		found(input, mode, "undocumented error value %T: %v", v, v)
	}
	if *prop != "C15" {
		return
	}
	if cause == nil {
		found(input, mode, "error without a cause: %#v", v)
	}
	if errors.Unwrap(err) != cause {
		found(input, mode, "unwrapping gives %v instead of %v", errors.Unwrap(err), cause)
	}
	if rs == nil {
		return
	}
	ok := loc.URI == theURI
	if ok {
		ok = false
		for p := lo; p <= hi; p++ {
			r, c := posAt(rs, p)
			if loc.Row == r && loc.Column == c {
				ok = true
			}
		}
	}
	if !ok {
		r, c := posAt(rs, hi)
		found(input, mode, "error at %d:%d (%v), reading stood at %d:%d", loc.Row, loc.Column, loc.URI, r, c)
	}
}

func lexOne(input string, relexAt int) {
	begin(input, fmt.Sprint("lex ", relexAt))
	rs := []rune(input)
	l := lexer.NewLexer(lexer.NewScanner(strings.NewReader(input), theURI))
	p := 0
	mode := fmt.Sprint("lex ", relexAt)
	for n := 0; n <= len(rs)+2; n++ {
		want := refRun(spec.Token, rs, p, "")
		o := doLex(l)
		if o.pan != nil {
			if want.err {
				hi := want.end + 1
				if hi > len(rs) {
					hi = len(rs)
				}
				checkErr(input, mode, o.pan, rs, hi, hi)
			} else {
				checkErr(input, mode, o.pan, nil, 0, 0)
			}
		}
		if *prop == "C07" || *prop == "C08" {
			trivia := want.state == "start" || want.state == "//" || want.state == "/*" || want.state == "/* *"
			mine := *prop == "C07" && !trivia || *prop == "C08" && trivia
			if (o.pan != nil) != want.err {
				if mine {
					found(input, mode, "token %d: error %v, the grammar says error=%v (%s %q)", n, o.pan, want.err, want.typ, want.lit)
				}
				if *prop == "C07" || trivia {
					found(input, mode, "token %d: error %v, the grammar says error=%v (%s %q)", n, o.pan, want.err, want.typ, want.lit)
				}
			}
		}
		if o.pan != nil || want.err {
			return
		}
		if *prop == "C07" || *prop == "C08" && want.typ == "TokenNone" {
			if tokName(o.tok.Type) != want.typ {
				found(input, mode, "token %d is %v, the grammar says %s %q", n, o.tok, want.typ, want.lit)
			}
			if o.tok.Literal != want.lit {
				found(input, mode, "token %d has text %q, the grammar says %q", n, o.tok.Literal, want.lit)
			}
		}
		if *prop == "C08" && o.tok.NewLine != want.nl {
			found(input, mode, "token %d (%v) has line break flag %v, the grammar says %v", n, o.tok, o.tok.NewLine, want.nl)
		}
		if tokName(o.tok.Type) != want.typ {
			return
		}
		if *prop == "C07" || *prop == "C09" {
			r, c := posAt(rs, want.end)
			if o.loc.Row != r || o.loc.Column != c || o.loc.URI != theURI {
				found(input, mode, "after token %d the position is %d:%d, it should be %d:%d", n, o.loc.Row, o.loc.Column, r, c)
			}
		}
		if *prop == "C14" && want.typ != "TokenNone" {
			src := want.src
			if want.typ == "TokenLiteralNumber" {
				src = strings.ReplaceAll(src, "_", "")
			}
			if o.tok.Source() != src {
				found(input, mode, "token %d reports source %q, it was read from %q", n, o.tok.Source(), src)
			}
			checkValue(input, mode, o.tok)
		}
		p = want.end
		if n == relexAt && (want.typ == "TokenPunctuatorDiv" || want.typ == "TokenPunctuatorDivAssign") {
			w := refRun(spec.Regexp, rs, p, "re")
			first := want.src
			o := doReLex(l)
			if o.pan != nil {
				hi := w.end + 1
				if hi > len(rs) {
					hi = len(rs)
				}
				if w.err {
					checkErr(input, mode, o.pan, rs, hi, hi)
				}
			}
			if *prop == "C17" {
				if (o.pan != nil) != w.err {
					found(input, mode, "regular expression: error %v, the grammar says error=%v (%q)", o.pan, w.err, w.lit)
				}
			}
			if o.pan != nil || w.err {
				return
			}
			if *prop == "C17" {
				wl, wp := first+w.lit, first[1:]+w.pat
				if tokName(o.re.Type) != "TokenLiteralRegExp" || o.re.Literal != wl || o.re.Pattern != wp || o.re.Flags != w.flg {
					found(input, mode, "regular expression %q pattern %q flags %q (%v), the grammar says %q %q %q", o.re.Literal, o.re.Pattern, o.re.Flags, o.re.Type, wl, wp, w.flg)
				}
			}
			if *prop == "C08" && o.re.NewLine != want.nl {
				found(input, mode, "re-read regular expression has line break flag %v instead of %v", o.re.NewLine, want.nl)
			}
			if *prop == "C14" && o.re.Source() != first+w.lit {
				found(input, mode, "regular expression reports source %q", o.re.Source())
			}
			p = w.end
		}
		if want.typ == "TokenNone" {
			return
		}
	}
	if *prop == "C02" || *prop == "C01" {
		return
	}
}

// refNumber is the value of a numeric literal, computed with rationals.
func refNumber(lit string) (float64, bool) {
	s := strings.TrimSuffix(lit, "n")
	base := 10
	switch {
	case len(s) > 1 && s[0] == '0' && strings.ContainsRune("bB", rune(s[1])):
		base, s = 2, s[2:]
	case len(s) > 1 && s[0] == '0' && strings.ContainsRune("oO", rune(s[1])):
		base, s = 8, s[2:]
	case len(s) > 1 && s[0] == '0' && strings.ContainsRune("xX", rune(s[1])):
		base, s = 16, s[2:]
	case len(s) > 1 && s[0] == '0' && strings.Trim(s, "01234567") == "":
		base, s = 8, s[1:]
	}
	if base != 10 {
		v := new(big.Int)
		for _, c := range s {
			d, err := strconv.ParseInt(string(c), base, 64)
			if err != nil {
				return 0, false
			}
			v.Mul(v, big.NewInt(int64(base)))
			v.Add(v, big.NewInt(d))
		}
		f, _ := new(big.Float).SetPrec(0).SetInt(v).Float64()
		return f, true
	}
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return 0, false
		}
		exp, s = e, s[:i]
	}
	if exp > 5000 || exp < -5000 {
		return 0, false
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	v, ok := new(big.Int).SetString("0"+s, 10)
	if !ok {
		return 0, false
	}
	r := new(big.Rat).SetInt(v)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil))
	if exp < 0 {
		r.Quo(r, p)
	} else {
		r.Mul(r, p)
	}
	f, _ := r.Float64()
	return f, true
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func checkValue(input, mode string, t lexer.Token) {
	defer func() {
		if r := recover(); r != nil {
			found(input, mode, "the value of %v cannot be had: %v", t, r)
		}
	}()
	switch t.Type {
	case lexer.TokenLiteralNumber:
		v := t.NumberConstant()
		if w, ok := refNumber(t.Literal); ok && v != w && !(math.IsNaN(v) && math.IsNaN(w)) {
			found(input, mode, "the value of %s is %v, not %v", t.Literal, v, w)
		}
	case lexer.TokenLiteralString:
		if v, w := t.StringConstant(), t.Literal[1:len(t.Literal)-1]; v != w {
			found(input, mode, "the value of %s is %q", t.Literal, v)
		}
	}
}

// scanOne drives a Scanner through a history of reads and unreads.
func scanOne(input string, ops string) {
	begin(input, "scan "+ops)
	rs := []rune(input)
	var got interface{}
	defer func() {
		if r := recover(); r != nil {
			got = r
			found(input, "scan "+ops, "panic %v", got)
		}
	}()
	s := lexer.NewScanner(strings.NewReader(input), theURI)
	p, eof, can := 0, false, false
	for i, op := range ops {
		if op == 'r' {
			r := s.Read()
			want := rune(-1)
			if p < len(rs) {
				want = rs[p]
				p++
			} else {
				eof = true
			}
			can = true
			if r != want {
				found(input, "scan "+ops, "read %d gives %q instead of %q", i, r, want)
			}
		} else {
			if !eof && !can {
				continue
			}
			s.Unread()
			if !eof {
				p--
			}
			can = false
		}
		l := s.Location()
		row, col := posAt(rs, p)
		if l.Row != row || l.Column != col || l.URI != theURI {
			found(input, "scan "+ops, "after %q the position is %d:%d (%v), it should be %d:%d", ops[:i+1], l.Row, l.Column, l.URI, row, col)
		}
	}
}

// errReader fails at a given rune.
type errReader struct {
	r *strings.Reader
	n int
}

// errBoom wraps another error, which is not the cause.
var errBoom = fmt.Errorf("boom: %w", io.ErrUnexpectedEOF)

func (e *errReader) ReadRune() (rune, int, error) {
	if e.n == 0 {
		return 0, 0, errBoom
	}
	e.n--
	return e.r.ReadRune()
}
func (e *errReader) UnreadRune() error { e.n++; return e.r.UnreadRune() }

var _ io.RuneScanner = (*errReader)(nil)

func lexErrReader(input string, n int) {
	begin(input, fmt.Sprint("reader ", n))
	rs := []rune(input)
	l := lexer.NewLexer(lexer.NewScanner(&errReader{strings.NewReader(input), n}, theURI))
	for i := 0; i < len(input)+2; i++ {
		o := doLex(l)
		if o.pan != nil {
			if e, ok := o.pan.(*errs.EncodingError); ok {
				if !errors.Is(e, errBoom) {
					found(input, fmt.Sprint("reader ", n), "the cause of the reader's error is lost: %v", e)
				}
				checkErr(input, fmt.Sprint("reader ", n), o.pan, rs, n, n)
			} else {
				checkErr(input, fmt.Sprint("reader ", n), o.pan, nil, 0, 0)
			}
			return
		}
		if o.tok.Type == lexer.TokenNone {
			return
		}
	}
}

var lexAlphabet = []string{"a", "e", "n", "x", "_", "$", "0", "1", "7", "8", "9", ".", "+", "-", "/", "*", "=", "\\", "\"", "'", "[", "]", "<", ">", "&", "|", "?", "!", "%", "^", "~",
	"#", "\n", "\r", " ", "\u2028", "\u2029", "\ufeff", "é", "\u200d", "\u0301", "b", "o", "E", "B", "X", "F", "`", "@", "{", "(", ";", ",", ":", "\U0001F600", "\x80", "\u00b7", "\u2160", "²", "\t", "\x00"}

var lexWords = []string{"0x1F", "0b10", "0o17", "1_000", "1.5e+10", ".5", "5.", "0n", "12n", "017", "089", "09.5", "0b12", "1e", "1e+", "1__0", "1_", "0_1", "0xg", "3in", "/a[/]\\/b/gi", "/* x */", "/**/", "/***/", "// c\n",
	"/*\n*/", "'a\\'b'", "\"a\\\r\nb\"", "'a\\\u2028b'", "'\u2028'", ">>>=", ">>>", "<<=", "**=", "&&=", "||=", "??=", "...", "===", "!==", "=>", "#abc", "if", "instanceof", "async", "of", "yield", "while", "x\u200dy", "abc",
	"1e400", "9007199254740993", "0xFFFFFFFFFFFFFFFFFF", "0.1e-7", "123456789012345678901234567890", "5e-324", "1e-400", "00", "007", "0.0", "1.e5", "0e1", "08e2", "0777777777777777777777", "1.7976931348623157e309",
	"18446744073709551616", "0b1111111111111111111111111111111111111111111111111111111111111111111", "0x1fffffffffffff1", "a?.b", "a?.1:2", "}", "x.y", "1..x", "1...x", "/=x/", "/[/", "/\\", "/a\nb/", "/a/\\u0067", "/[\\]/]/x", "\\u0061"}

func lexSearch(one *Witness) {
	if one != nil {
		var n int
		switch {
		case strings.HasPrefix(one.Mode, "lex "):
			fmt.Sscan(one.Mode[4:], &n)
			lexOne(one.Input, n)
		case strings.HasPrefix(one.Mode, "scan "):
			scanOne(one.Input, one.Mode[5:])
		case strings.HasPrefix(one.Mode, "reader "):
			fmt.Sscan(one.Mode[7:], &n)
			lexErrReader(one.Input, n)
		}
		return
	}
	if *prop == "C09" {
		scanSearch()
	}
	all := func(s string) {
		lexOne(s, -1)
		if *prop == "C17" || *prop == "C08" || *prop == "C14" || *prop == "C15" || *prop == "C02" {
			if strings.Contains(s, "/") {
				lexOne(s, 0)
				lexOne(s, 1)
			}
		}
	}
	for k := range spec.Keywords {
		for _, c := range []string{"", "x", "1", "$", " ", "\u200c"} {
			all(k + c)
			all(c + k)
		}
	}
	for p := range spec.Puncts {
		for _, c := range lexAlphabet {
			all(p + c)
			for _, d := range lexAlphabet {
				all(p + c + d)
			}
		}
	}
	for _, w := range lexWords {
		all(w)
		for _, c := range lexAlphabet {
			all(w + c)
			all(c + w)
			all("x\n" + w + c)
		}
		for _, v := range lexWords {
			all(w + v)
			all(w + " " + v)
			all(w + "\n" + v)
		}
	}
	// reader errors
	if *prop == "C15" || *prop == "C01" {
		for _, w := range lexWords {
			for n := 0; n <= len([]rune(w)); n++ {
				lexErrReader(w, n)
				lexErrReader("\n"+w, n)
			}
		}
	}
	// all short strings
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if timeUp() {
			return
		}
		all(s)
		if n == 0 {
			return
		}
		for _, c := range lexAlphabet {
			rec(s+c, n-1)
		}
	}
	rec("", 3)
	if *prop == "C17" {
		var rr func(s string, n int)
		rr = func(s string, n int) {
			if timeUp() {
				return
			}
			lexOne("/"+s, 0)
			lexOne("/"+s+"/g", 0)
			lexOne("x\n/"+s+"/g", 1)
			if n == 0 {
				return
			}
			for _, c := range []string{"/", "[", "]", "\\", "a", "\n", "\u2028", "=", "*", "é", "\r"} {
				rr(s+c, n-1)
			}
		}
		rr("", 5)
	}
	// every rune in a few places
	for r := rune(0); r <= 0x10FFFF && !timeUp(); r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if r > 0x3200 && r < 0x1F000 && r%37 != 0 && r < 0xA000 {
			continue
		}
		c := string(r)
		lexOne(c, -1)
		lexOne("a"+c+"b", -1)
		lexOne("1"+c, -1)
		if *prop == "C08" || *prop == "C09" {
			lexOne("/*"+c+"*/a", -1)
			lexOne("//"+c+"a", -1)
		}
		if *prop == "C17" {
			lexOne("/a"+c+"/g"+c, 0)
		}
		if *prop == "C07" || *prop == "C14" {
			lexOne("'"+c+"'", -1)
			lexOne("'\\"+c+"'", -1)
			lexOne("#"+c, -1)
		}
	}
	rnd := rand.New(rand.NewSource(*seed))
	lim := 400000
	for i := 0; i < lim && !timeUp(); i++ {
		s := ""
		for k := rnd.Intn(8); k >= 0; k-- {
			if rnd.Intn(4) == 0 {
				s += lexWords[rnd.Intn(len(lexWords))]
			} else {
				s += lexAlphabet[rnd.Intn(len(lexAlphabet))]
			}
		}
		all(s)
	}
}

func scanSearch() {
	var rec func(s string, n int)
	var inputs []string
	rec = func(s string, n int) {
		inputs = append(inputs, s)
		if n == 0 {
			return
		}
		for _, c := range []string{"a", "\n", "\r", "\u2028", "é"} {
			rec(s+c, n-1)
		}
	}
	rec("", 4)
	var ops func(o string, n int)
	var hist []string
	ops = func(o string, n int) {
		hist = append(hist, o)
		if n == 0 {
			return
		}
		ops(o+"r", n-1)
		if o != "" && o[len(o)-1] == 'r' || strings.Count(o, "r") > 4 {
			ops(o+"u", n-1)
		}
	}
	ops("", 9)
	for _, i := range inputs {
		for _, h := range hist {
			scanOne(i, h)
		}
	}
}
