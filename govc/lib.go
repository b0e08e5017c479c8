package main

import (
	"go/types"
	"strings"
)

// Contracts assumed for library functions. Every use is recorded, and listed
// in the evidence.

const (
	runeMax = 0x10FFFF
)

func init() {
	intrinsic["R"] = setRange(-1, runeMax)
}

func (e *Exec) assumed(name string) {
	e.Assumed["contract of "+name] = true
}

// nonNilIface is an unknown value of interface type that is not nil.
func (s *State) nonNilIface(prefix string) *SymIface {
	t := s.newSym(prefix, SU)
	s.pc, _ = s.pc.Assume(mkNot(mkIn(dynTerm(t), setOf(0))))
	s.pc, _ = s.pc.Assume(mkIn(dynTerm(t), setOf(typeID(types.Typ[types.UnsafePointer]))))
	return &SymIface{t}
}

// builderGet returns the text held by a strings.Builder.
func builderGet(s *State, v Val) (*PtrV, *ListV, bool) {
	p, ok := v.(*PtrV)
	if !ok {
		return nil, nil, false
	}
	switch x := pathGet(s.heap[p.Cell], p.Path).(type) {
	case *StructV:
		return p, &ListV{Str: true}, true
	case *ListV:
		return p, x, true
	}
	return nil, nil, false
}

// tableOf resolves a *unicode.RangeTable to its set of runes.
func tableOf(v Val) *Set {
	p, ok := v.(*SymPtr)
	if !ok {
		return nil
	}
	const pre = "global:unicode."
	if !strings.HasPrefix(p.Term.Name, pre) {
		return nil
	}
	t, ok := unicodeTables[strings.TrimPrefix(p.Term.Name, pre)]
	if !ok {
		return nil
	}
	return tableSetMemo(strings.TrimPrefix(p.Term.Name, pre), t)
}

func libCall(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil {
		return nil, false
	}
	if c.fn.Pkg != nil && e.prog.inRepo(c.fn.Pkg.Pkg) {
		return nil, false
	}
	name := c.fn.String()
	give := func(v Val) ([]*State, bool) {
		e.assumed(name)
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	}
	switch name {
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte":
		p, l, ok := builderGet(s, c.args[0])
		if !ok {
			return nil, false
		}
		var add *ListV
		if t, ok := c.args[1].(*Term); ok && t.Sort == SInt {
			add = &ListV{Str: true, Atoms: []Atom{{E: t}}}
		} else {
			add = asList(c.args[1])
		}
		if add == nil {
			return nil, false
		}
		n := &ListV{Str: true, Atoms: normAtoms(s.pc, append(append([]Atom{}, l.Atoms...), add.Atoms...))}
		s.hset(p.Cell, pathSet(s.heap[p.Cell], p.Path, n))
		var r Val = &NilV{}
		if c.fn.Signature.Results().Len() == 2 {
			r = TupleV{s.newSym("n", SInt), &NilV{}}
		}
		return give(r)
	case "(*strings.Builder).String":
		_, l, ok := builderGet(s, c.args[0])
		if !ok {
			return nil, false
		}
		return give(l)
	case "(*strings.Builder).Len":
		_, l, ok := builderGet(s, c.args[0])
		if !ok {
			return nil, false
		}
		return give(strByteLen(l))
	case "(*strings.Builder).Reset":
		p, _, ok := builderGet(s, c.args[0])
		if !ok {
			return nil, false
		}
		s.hset(p.Cell, pathSet(s.heap[p.Cell], p.Path, &ListV{Str: true}))
		return give(nil)
	case "(*strings.Builder).Grow":
		return give(nil)
	case "fmt.Errorf", "errors.New":
		return give(s.nonNilIface("err"))
	case "errors.Unwrap":
		return give(&SymIface{s.newSym("unwrapped", SU)})
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "strconv.Quote", "strconv.QuoteRune":
		return give(s.newSym("text", SStr))
	case "unicode.In", "unicode.IsOneOf", "unicode.Is":
		var r *Term
		u := mkSet(nil)
		tables := []Val{}
		switch name {
		case "unicode.Is":
			r, _ = c.args[1].(*Term)
			tables = append(tables, c.args[0])
		case "unicode.In":
			r, _ = c.args[0].(*Term)
			l, ok := c.args[1].(*ListV)
			if !ok {
				return nil, false
			}
			for _, a := range l.Atoms {
				tables = append(tables, a.E)
			}
		default:
			return nil, false
		}
		for _, t := range tables {
			ts := tableOf(t)
			if ts == nil {
				return nil, false
			}
			u = u.union(ts)
		}
		if r == nil {
			return nil, false
		}
		return give(mkIn(r, u))
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsUpper", "unicode.IsLower", "unicode.IsMark", "unicode.IsPunct":
		r, ok := c.args[0].(*Term)
		tn := map[string]string{"IsLetter": "L", "IsDigit": "Nd", "IsNumber": "N", "IsUpper": "Lu", "IsLower": "Ll", "IsMark": "M", "IsPunct": "P"}[strings.TrimPrefix(name, "unicode.")]
		if !ok {
			return nil, false
		}
		return give(mkIn(r, tableSetMemo(tn, unicodeTables[tn])))
	case "strings.ContainsRune":
		t := strTerm(c.args[0])
		r, ok := c.args[1].(*Term)
		if ok && t != nil && t.isConst() {
			return give(mkIn(r, setRunes(t.Name)))
		}
	case "strings.IndexRune", "strings.IndexByte":
		t := strTerm(c.args[0])
		r, ok := c.args[1].(*Term)
		if ok && t != nil && t.isConst() && isASCII(t.Name) {
			var outs []*State
			cur := s
			seen := map[rune]bool{}
			for i, ch := range t.Name {
				if seen[ch] || cur == nil {
					continue
				}
				seen[ch] = true
				var y *State
				y, cur = e.branch(cur, mkIn(r, setOf(int64(ch))))
				if y != nil {
					e.setResult(y, c.dst, mkInt(int64(i)))
					outs = append(outs, y)
				}
			}
			if cur != nil {
				e.setResult(cur, c.dst, mkInt(-1))
				outs = append(outs, cur)
			}
			e.assumed(name)
			return outs, true
		}
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix", "strings.HasSuffix", "strings.TrimSuffix", "strings.CutSuffix":
		l, t := asList(c.args[0]), strTerm(c.args[1])
		if l == nil || t == nil || !t.isConst() {
			return nil, false
		}
		fix := []rune(t.Name)
		suffix := strings.HasSuffix(name, "Suffix")
		cond := tTrue
		k := len(fix)
		for i, ch := range fix {
			if i >= len(l.Atoms) {
				cond = tFalse
				break
			}
			a := l.Atoms[i]
			if suffix {
				a = l.Atoms[len(l.Atoms)-1-i]
				ch = fix[k-1-i]
			}
			r, ok := a.E.(*Term)
			if a.Base != nil || !ok || r.Sort != SInt {
				return nil, false
			}
			cond = mkAnd(cond, mkIn(r, setOf(int64(ch))))
		}
		res := func(has bool) Val {
			rest := Val(l)
			if has && suffix {
				rest = l.with(l.Atoms[:len(l.Atoms)-k])
			} else if has {
				rest = l.with(l.Atoms[k:])
			}
			switch {
			case strings.HasPrefix(name, "strings.Has"):
				return mkBool(has)
			case strings.HasPrefix(name, "strings.Cut"):
				return TupleV{rest, mkBool(has)}
			}
			return rest
		}
		e.assumed(name)
		var outs []*State
		y, n := e.branch(s, cond)
		for i, st := range []*State{y, n} {
			if st != nil {
				e.setResult(st, c.dst, res(i == 0))
				outs = append(outs, st)
			}
		}
		return outs, true
	case "unicode/utf16.IsSurrogate":
		if r, ok := c.args[0].(*Term); ok {
			return give(mkIn(r, setRange(0xD800, 0xDFFF)))
		}
	case "unicode/utf8.ValidRune":
		if r, ok := c.args[0].(*Term); ok {
			return give(mkIn(r, setRange(0, 0x10FFFF).minus(setRange(0xD800, 0xDFFF))))
		}
	case "unicode/utf16.EncodeRune", "unicode/utf16.AppendRune", "unicode/utf16.RuneLen":
		r, ok := c.args[len(c.args)-1].(*Term)
		if !ok {
			return nil, false
		}
		hi := mkPlus(mkFn("&1023", mkFn(">>10", mkPlus(r, -0x10000))), 0xD800)
		lo := mkPlus(mkFn("&1023", mkPlus(r, -0x10000)), 0xDC00)
		bad := mkInt(0xFFFD)
		astral := mkIn(r, setRange(0x10000, 0x10FFFF))
		plain := mkIn(r, setRange(0, 0xFFFF).minus(setRange(0xD800, 0xDFFF)))
		var l *ListV
		if name == "unicode/utf16.AppendRune" {
			if l = asList(c.args[0]); l == nil {
				if _, isNil := c.args[0].(*NilV); !isNil {
					return nil, false
				}
				l = &ListV{Elem: types.Typ[types.Uint16]}
			}
		}
		app := func(ts ...*Term) Val {
			as := append([]Atom{}, l.Atoms...)
			for _, t := range ts {
				as = append(as, Atom{E: t})
			}
			return &ListV{Elem: l.Elem, Atoms: as}
		}
		e.assumed(name)
		var outs []*State
		y, n := e.branch(s, astral)
		if y != nil {
			switch name {
			case "unicode/utf16.EncodeRune":
				e.setResult(y, c.dst, TupleV{hi, lo})
			case "unicode/utf16.RuneLen":
				e.setResult(y, c.dst, mkInt(2))
			default:
				e.setResult(y, c.dst, app(hi, lo))
			}
			outs = append(outs, y)
		}
		if n != nil {
			var in, out *State
			if name == "unicode/utf16.EncodeRune" {
				out = n
			} else {
				in, out = e.branch(n, plain)
			}
			if in != nil {
				if l == nil {
					e.setResult(in, c.dst, mkInt(1))
				} else {
					e.setResult(in, c.dst, app(r))
				}
				outs = append(outs, in)
			}
			if out != nil {
				switch name {
				case "unicode/utf16.EncodeRune":
					e.setResult(out, c.dst, TupleV{bad, bad})
				case "unicode/utf16.RuneLen":
					e.setResult(out, c.dst, mkInt(-1))
				default:
					e.setResult(out, c.dst, app(bad))
				}
				outs = append(outs, out)
			}
		}
		return outs, true
	case "unicode/utf8.RuneCountInString":
		if l := asList(c.args[0]); l != nil {
			return give(l.lenOf())
		}
	}
	return nil, false
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}
