package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The contracts of Token.Source, Token.StringConstant and
// Token.NumberConstant (C14).

// numClasses are the forms a number token's text can have (separators are
// already dropped by the lexer, which is verified for C07).
var numClasses = []struct {
	name    string
	big     bool   // ends in n
	intOK   bool   // SetString(text without n, 0) accepts it, with ECMAScript's radix
	floatOK bool   // ParseFloat accepts the text
	prefix  string // known start
}{
	{"decimal integer", false, true, true, ""},
	{"decimal integer", true, true, true, ""},
	{"hexadecimal", false, true, true, "0x"},
	{"hexadecimal", true, true, true, "0x"},
	{"octal", false, true, false, "0o"},
	{"octal", true, true, false, "0o"},
	{"binary", false, true, false, "0b"},
	{"binary", true, true, false, "0b"},
	{"legacy octal", false, true, true, "0"},
	{"leading zero decimal", false, false, true, "0"},
	{"decimal fraction or exponent", false, false, true, ""},
}

type litWorld struct {
	p     *Program
	check func(e *Exec, s *State, res Val)
	class int
}

func (w *litWorld) Return(e *Exec, s *State, res Val) { w.check(e, s, res) }
func (w *litWorld) Header(e *Exec, s *State) []*State { return []*State{s} }
func (w *litWorld) KeepFact(s *State, t *Term) bool   { return true }
func (w *litWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C14", "C01"}, "a constant of a token the lexer returns is had without a panic", false, func() string { return valString(v) })
}

func numText(class int) (whole, body *Term) {
	body = mkSym("digits", SStr)
	if numClasses[class].big {
		return mkSym("digits+n", SStr), body
	}
	return body, body
}

func (w *litWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil || (c.fn.Pkg != nil && e.prog.inRepo(c.fn.Pkg.Pkg)) {
		return nil, false
	}
	name := c.fn.String()
	give := func(v Val) ([]*State, bool) {
		e.assumed(name)
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	}
	if w.class < 0 {
		if name == "strconv.FormatInt" || name == "strconv.Itoa" {
			return give(s.newSym("text", SStr))
		}
		return libCall(e, s, c)
	}
	cl := numClasses[w.class]
	whole, body := numText(w.class)
	arg := func(i int) *Term { return strTerm(c.args[i]) }
	class := func(t *Term) bool { return t == whole || t == body }
	switch name {
	case "strings.TrimSuffix", "strings.TrimRight":
		if class(arg(0)) && arg(1) == mkStr("n") {
			return give(body)
		}
	case "strings.CutSuffix":
		if class(arg(0)) && arg(1) == mkStr("n") {
			return give(TupleV{body, mkBool(arg(0) == whole && cl.big)})
		}
	case "strings.HasSuffix":
		if class(arg(0)) && arg(1) == mkStr("n") {
			return give(mkBool(arg(0) == whole && cl.big))
		}
	case "(*math/big.Int).SetString":
		p, ok := c.args[0].(*PtrV)
		if !ok || !class(arg(1)) || c.args[2] != Val(mkInt(0)) {
			return nil, false
		}
		if !cl.intOK || (arg(1) == whole && cl.big) {
			return give(TupleV{&NilV{}, tFalse})
		}
		s.hset(p.Cell, &OpaqueV{mkApp("int", SU, arg(1))})
		return give(TupleV{p, tTrue})
	case "(*math/big.Float).SetInt":
		p, ok := c.args[0].(*PtrV)
		q, ok2 := c.args[1].(*PtrV)
		if !ok || !ok2 {
			return nil, false
		}
		// a precision of zero becomes large enough for the value
		z, isZ := s.heap[p.Cell].(*StructV)
		if !isZ || !same(z, zeroVal(z.T)) {
			return nil, false
		}
		iv, ok := s.heap[q.Cell].(*OpaqueV)
		if !ok {
			return nil, false
		}
		s.hset(p.Cell, iv)
		return give(p)
	case "(*math/big.Float).Float64", "(*math/big.Int).Float64":
		p, ok := c.args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		v, ok := s.heap[p.Cell].(*OpaqueV)
		if !ok {
			return nil, false
		}
		return give(TupleV{&OpaqueV{mkApp("float", SU, v.Term)}, s.newSym("acc", SInt)})
	case "strconv.ParseFloat":
		if !class(arg(0)) || c.args[1] != Val(mkInt(64)) {
			return nil, false
		}
		v := &OpaqueV{mkApp("decfloat", SU, arg(0))}
		if !cl.floatOK || (arg(0) == whole && cl.big) {
			return give(TupleV{s.newSym("none", SU), s.nonNilIface("syntax")})
		}
		e.assumed(name)
		n := s.fork()
		// out of range: an infinity or zero, with an error for the overflow
		e.setResult(n, c.dst, TupleV{v, &SymIface{rangeErr(n)}})
		e.setResult(s, c.dst, TupleV{v, &NilV{}})
		return []*State{s, n}, true
	case "errors.Is":
		a, ok := c.args[0].(*SymIface)
		b, ok2 := c.args[1].(*SymIface)
		if _, isNil := c.args[0].(*NilV); isNil {
			return give(tFalse)
		}
		if ok && ok2 && b.Term == mkSym("global:strconv.ErrRange", SU) {
			return give(mkBool(a.Term == mkSym("rangeerror", SU)))
		}
	}
	return libCall(e, s, c)
}

func rangeErr(s *State) *Term {
	t := mkSym("rangeerror", SU)
	s.pc, _ = s.pc.Assume(mkIn(dynTerm(t), setOf(typeID(types.Typ[types.UnsafePointer]))))
	return t
}

// punctOf gives the text of each punctuator token constant.
func punctTexts() map[string]string {
	m := map[string]string{}
	for t, n := range punctuators {
		m["TokenPunctuator"+n] = t
	}
	return m
}

func newLitExec(p *Program, key string) *Exec {
	e := newExec(p, &litWorld{p: p}, nil, key)
	e.driver = func() {
		fn := p.findFn(key)
		if fn == nil {
			e.limitf(nil, "%s not found", key)
			return
		}
		tokT := fn.Params[0].Type()
		ti, li := structField(tokT, "Type"), structField(tokT, "Literal")
		consts := tokenConsts(p)
		run := func(class int, typ int64, lit Val, check func(x *Exec, s *State, res Val)) {
			w := &litWorld{p: p, class: class, check: check}
			x := newExec(p, w, fn, key)
			x.start, x.limit = e.start, e.limit
			x.Inlined[key] = true
			n := 0
			s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n, g: nilGhost{}}
			tv := symval(tokT, "token").(*StructV)
			tv.F[ti], tv.F[li] = mkInt(typ), lit
			x.pushFrame(s, fn, []Val{tv}, fkCall, nil)
			x.push(s)
			x.run()
			e.merge(x)
		}
		text := mkSym("text", SStr)
		switch {
		case strings.HasSuffix(key, ".Source"):
			pt := punctTexts()
			var names []string
			for n := range consts {
				names = append(names, n)
			}
			sort.Strings(names)
			met := 0
			for _, n := range names {
				var lit, want Val = text, text
				switch {
				case n == "TokenPrivateIdentifier":
					want = &ListV{Str: true, Atoms: append([]Atom{{E: mkInt('#')}}, asList(text).Atoms...)}
				case pt[n] != "":
					lit, want = mkStr(""), mkStr(pt[n])
				case strings.HasPrefix(n, "TokenKeyword"), n == "TokenIdentifier", n == "TokenLiteralNumber", n == "TokenLiteralString", n == "TokenLiteralRegExp":
				default:
					continue // never returned by the lexer
				}
				met++
				run(-1, consts[n], lit, func(x *Exec, s *State, res Val) {
					ok := same(res, want)
					if a, b := asList(res), asList(want); !ok && a != nil && b != nil {
						ok = sameAtoms(normAtoms(s.pc, a.Atoms), normAtoms(s.pc, b.Atoms))
					}
					x.record(s, []string{"C14"}, "the source text of "+n+" is what it was read from", ok, func() string { return valString(res) + " instead of " + valString(want) })
				})
			}
			if met < len(pt)+len(keywords) {
				e.limitf(nil, "only %d token types were met", met)
			}
		case strings.HasSuffix(key, ".StringConstant"):
			for _, q := range []int64{'"', '\''} {
				mid := mkSym("inside", SStr)
				in := asList(mid).Atoms
				lit := &ListV{Str: true, Atoms: append(append([]Atom{{E: mkInt(q)}}, in...), Atom{E: mkInt(q)})}
				run(-1, consts["TokenLiteralString"], lit, func(x *Exec, s *State, res Val) {
					l := asList(res)
					ok := l != nil && sameAtoms(normAtoms(s.pc, l.Atoms), in)
					x.record(s, []string{"C14"}, "the value of a string is the text between its quotes", ok, func() string { return valString(res) })
				})
			}
		default:
			for i, c := range numClasses {
				whole, body := numText(i)
				want := mkApp("decfloat", SU, body)
				alt := want
				if c.intOK {
					want = mkApp("float", SU, mkApp("int", SU, body))
					if c.name != "decimal integer" {
						alt = want
					}
				}
				what := fmt.Sprintf("the value of a number is what it denotes (%s, n suffix: %v)", c.name, c.big)
				run(i, consts["TokenLiteralNumber"], whole, func(x *Exec, s *State, res Val) {
					o, ok := res.(*OpaqueV)
					ok = ok && (o.Term == want || o.Term == alt)
					x.record(s, []string{"C14"}, what, ok, func() string { return valString(res) + " instead of " + want.String() })
				})
			}
		}
	}
	return e
}
