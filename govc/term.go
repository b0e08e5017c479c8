package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed first-order terms over Bool, Int, Str and an
// uninterpreted sort U. Integers are mathematical.

type Sort byte

const (
	SBool Sort = 'B'
	SInt  Sort = 'I'
	SStr  Sort = 'S'
	SU    Sort = 'U'
)

type Op byte

const (
	OConst Op = iota // Int, Bool(0/1), Str
	OSym             // Name
	OApp             // Name(args)
	OLin             // N + sum(Coef[i]*Args[i]), Int
	OIn              // Args[0] in Set
	OGe0             // Args[0] >= 0
	OEq0             // Args[0] == 0
	OEq              // Args[0] == Args[1] (Str, U, Bool)
	ONot
	OAnd
	OOr
)

type Term struct {
	Op   Op
	Sort Sort
	Name string
	N    int64
	Args []*Term
	Coef []int64
	Set  *Set
	id   int
	key  string
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('a' + t.Op))
	b.WriteByte(byte(t.Sort))
	b.WriteString(strconv.FormatInt(t.N, 10))
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	for i, a := range t.Args {
		if t.Coef != nil {
			b.WriteString(strconv.FormatInt(t.Coef[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if t.Set != nil {
		b.WriteString(t.Set.key)
	}
	k := b.String()

	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	t.key = k
	termTab[k] = t
	return t
}

func mkInt(n int64) *Term { return intern(&Term{Op: OConst, Sort: SInt, N: n}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return intern(&Term{Op: OConst, Sort: SStr, Name: s}) }
func mkSym(name string, s Sort) *Term {
	return intern(&Term{Op: OSym, Sort: s, Name: name})
}
func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: OApp, Sort: s, Name: name, Args: args})
}

var (
	tTrue  = intern(&Term{Op: OConst, Sort: SBool, N: 1})
	tFalse = intern(&Term{Op: OConst, Sort: SBool, N: 0})
)

func (t *Term) isConst() bool { return t.Op == OConst }

type linT struct {
	c int64
	m map[*Term]int64
}

func toLin(t *Term) linT {
	switch t.Op {
	case OConst:
		return linT{c: t.N, m: map[*Term]int64{}}
	case OLin:
		l := linT{c: t.N, m: map[*Term]int64{}}
		for i, a := range t.Args {
			l.m[a] = t.Coef[i]
		}
		return l
	}
	return linT{m: map[*Term]int64{t: 1}}
}

func fromLin(l linT) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c == 0 && l.m[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return intern(&Term{Op: OLin, Sort: SInt, N: l.c, Args: as, Coef: cs})
}

func mkAddK(a *Term, k int64, b *Term) *Term { // a + k*b
	x, y := toLin(a), toLin(b)
	x.c += k * y.c
	for t, c := range y.m {
		x.m[t] += k * c
	}
	return fromLin(x)
}
func mkAdd(a, b *Term) *Term        { return mkAddK(a, 1, b) }
func mkSub(a, b *Term) *Term        { return mkAddK(a, -1, b) }
func mkPlus(a *Term, n int64) *Term { return mkAdd(a, mkInt(n)) }
func mkMulC(k int64, a *Term) *Term { return mkAddK(mkInt(0), k, a) }

func mkIn(t *Term, s *Set) *Term {
	if s.empty() {
		return tFalse
	}
	if s.full() {
		return tTrue
	}
	if t.isConst() {
		return mkBool(s.has(t.N))
	}
	if t.Op == OLin && len(t.Args) == 1 && (t.Coef[0] == 1 || t.Coef[0] == -1) {
		return mkIn(t.Args[0], s.unshift(t.N, t.Coef[0]))
	}
	if t.Op == OApp && t.Name == "lenb" && t.Args[0].Sort == SStr {
		// only the empty string has no bytes
		nat := setRange(0, maxI)
		switch n := s.inter(nat); {
		case n.empty():
			return tFalse
		case n.key == nat.key:
			return tTrue
		case n.key == setOf(0).key:
			return mkEq(t.Args[0], mkStr(""))
		case n.key == setRange(1, maxI).key:
			return mkNot(mkEq(t.Args[0], mkStr("")))
		}
	}
	return intern(&Term{Op: OIn, Sort: SBool, Args: []*Term{t}, Set: s})
}

func mkGe0(t *Term) *Term {
	if t.isConst() {
		return mkBool(t.N >= 0)
	}
	if t.Op != OLin || (len(t.Args) == 1 && (t.Coef[0] == 1 || t.Coef[0] == -1)) {
		return mkIn(t, setRange(0, maxI))
	}
	return intern(&Term{Op: OGe0, Sort: SBool, Args: []*Term{t}})
}
func mkGe(a, b *Term) *Term { return mkGe0(mkSub(a, b)) }
func mkLe(a, b *Term) *Term { return mkGe0(mkSub(b, a)) }
func mkLt(a, b *Term) *Term { return mkGe0(mkPlus(mkSub(b, a), -1)) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch a.Sort {
	case SInt:
		d := mkSub(a, b)
		if d.isConst() {
			return mkBool(d.N == 0)
		}
		if d.Op != OLin || (len(d.Args) == 1 && (d.Coef[0] == 1 || d.Coef[0] == -1)) {
			return mkIn(d, setRange(0, 0))
		}
		// normalise sign
		if d.Coef[0] < 0 {
			d = mkMulC(-1, d)
		}
		return intern(&Term{Op: OEq0, Sort: SBool, Args: []*Term{d}})
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	default:
		if a.isConst() && b.isConst() {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

func mkNot(t *Term) *Term {
	switch t.Op {
	case OConst:
		return mkBool(t.N == 0)
	case ONot:
		return t.Args[0]
	case OIn:
		return mkIn(t.Args[0], t.Set.compl())
	case OGe0:
		return mkGe0(mkPlus(mkMulC(-1, t.Args[0]), -1))
	case OAnd, OOr:
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = mkNot(a)
		}
		if t.Op == OAnd {
			return mkOr(as...)
		}
		return mkAnd(as...)
	}
	return intern(&Term{Op: ONot, Sort: SBool, Args: []*Term{t}})
}

func mkNary(op Op, zero, unit *Term, ts []*Term) *Term {
	m := map[*Term]bool{}
	var as []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || m[t] {
			return true
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		m[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// merge In over the same term
	in := map[*Term]*Set{}
	var out []*Term
	for _, a := range as {
		if a.Op == OIn {
			x := a.Args[0]
			if s, ok := in[x]; ok {
				if op == OAnd {
					in[x] = s.inter(a.Set)
				} else {
					in[x] = s.union(a.Set)
				}
			} else {
				in[x] = a.Set
			}
		} else {
			out = append(out, a)
		}
	}
	for x, s := range in {
		t := mkIn(x, s)
		if t == zero {
			return zero
		}
		if t != unit {
			out = append(out, t)
		}
	}
	for _, a := range out {
		if a.Op != OIn && m[mkNot(a)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{Op: op, Sort: SBool, Args: out})
}

func mkAnd(ts ...*Term) *Term    { return mkNary(OAnd, tFalse, tTrue, ts) }
func mkOr(ts ...*Term) *Term     { return mkNary(OOr, tTrue, tFalse, ts) }
func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func (t *Term) String() string {
	switch t.Op {
	case OConst:
		switch t.Sort {
		case SBool:
			return fmt.Sprint(t.N != 0)
		case SStr:
			return strconv.Quote(t.Name)
		}
		return strconv.FormatInt(t.N, 10)
	case OSym:
		return t.Name
	case OApp:
		return t.Name + "(" + joinTerms(t.Args, ",") + ")"
	case OLin:
		var b strings.Builder
		for i, a := range t.Args {
			if i > 0 || t.Coef[i] < 0 {
				if t.Coef[i] < 0 {
					b.WriteString("-")
				} else {
					b.WriteString("+")
				}
			}
			c := t.Coef[i]
			if c < 0 {
				c = -c
			}
			if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.String())
		}
		if t.N != 0 {
			fmt.Fprintf(&b, "%+d", t.N)
		}
		return b.String()
	case OIn:
		if len(t.Set.iv) == 1 && t.Set.iv[0][0] == t.Set.iv[0][1] {
			return fmt.Sprintf("%s==%d", t.Args[0], t.Set.iv[0][0])
		}
		return t.Args[0].String() + " in " + t.Set.String()
	case OGe0:
		return t.Args[0].String() + ">=0"
	case OEq0:
		return t.Args[0].String() + "==0"
	case OEq:
		return t.Args[0].String() + "==" + t.Args[1].String()
	case ONot:
		return "!(" + t.Args[0].String() + ")"
	case OAnd:
		return "(" + joinTerms(t.Args, " && ") + ")"
	case OOr:
		return "(" + joinTerms(t.Args, " || ") + ")"
	}
	return "?"
}

func joinTerms(ts []*Term, sep string) string {
	s := make([]string, len(ts))
	for i, t := range ts {
		s[i] = t.String()
	}
	return strings.Join(s, sep)
}

// subst replaces terms by others, bottom-up.
func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = subst(a, f, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OApp:
		return mkApp(t.Name, t.Sort, as...)
	case OLin:
		r := mkInt(t.N)
		for i, a := range as {
			r = mkAddK(r, t.Coef[i], a)
		}
		return r
	case OIn:
		return mkIn(as[0], t.Set)
	case OGe0:
		return mkGe0(as[0])
	case OEq0:
		return mkEq(as[0], mkInt(0))
	case OEq:
		return mkEq(as[0], as[1])
	case ONot:
		return mkNot(as[0])
	case OAnd:
		return mkAnd(as...)
	case OOr:
		return mkOr(as...)
	}
	return t
}

func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		walkTerm(a, seen, f)
	}
}

// ---- integer sets as sorted disjoint intervals ----

const (
	minI = -(1 << 62)
	maxI = 1 << 62
)

type Set struct {
	iv  [][2]int64
	key string
}

func mkSet(iv [][2]int64) *Set {
	sort.Slice(iv, func(i, j int) bool { return iv[i][0] < iv[j][0] })
	var out [][2]int64
	for _, p := range iv {
		if p[0] > p[1] {
			continue
		}
		if n := len(out); n > 0 && p[0] <= out[n-1][1]+1 {
			if p[1] > out[n-1][1] {
				out[n-1][1] = p[1]
			}
			continue
		}
		out = append(out, p)
	}
	return newSet(out)
}

func newSet(iv [][2]int64) *Set {
	var b strings.Builder
	for _, p := range iv {
		b.WriteString(strconv.FormatInt(p[0], 36))
		b.WriteByte(':')
		b.WriteString(strconv.FormatInt(p[1], 36))
		b.WriteByte(';')
	}
	return &Set{iv, b.String()}
}

var setFull = newSet([][2]int64{{minI, maxI}})

func setRange(a, b int64) *Set { return mkSet([][2]int64{{a, b}}) }
func setOf(xs ...int64) *Set {
	var iv [][2]int64
	for _, x := range xs {
		iv = append(iv, [2]int64{x, x})
	}
	return mkSet(iv)
}
func setRunes(s string) *Set {
	var iv [][2]int64
	for _, x := range s {
		iv = append(iv, [2]int64{int64(x), int64(x)})
	}
	return mkSet(iv)
}
func (s *Set) empty() bool { return len(s.iv) == 0 }
func (s *Set) full() bool  { return s.key == setFull.key }
func (s *Set) single() (int64, bool) {
	if len(s.iv) == 1 && s.iv[0][0] == s.iv[0][1] {
		return s.iv[0][0], true
	}
	return 0, false
}
func (s *Set) has(x int64) bool {
	i := sort.Search(len(s.iv), func(i int) bool { return s.iv[i][1] >= x })
	return i < len(s.iv) && s.iv[i][0] <= x
}
func (s *Set) inter(o *Set) *Set {
	if s.full() || s == o {
		return o
	}
	if o.full() {
		return s
	}
	var out [][2]int64
	i, j := 0, 0
	for i < len(s.iv) && j < len(o.iv) {
		a, b := s.iv[i], o.iv[j]
		lo, hi := max(a[0], b[0]), min(a[1], b[1])
		if lo <= hi {
			out = append(out, [2]int64{lo, hi})
		}
		if a[1] < b[1] {
			i++
		} else {
			j++
		}
	}
	return newSet(out)
}
func (s *Set) union(o *Set) *Set {
	iv := append(append([][2]int64{}, s.iv...), o.iv...)
	return mkSet(iv)
}
func (s *Set) compl() *Set {
	var out [][2]int64
	lo := int64(minI)
	for _, p := range s.iv {
		if p[0] > lo {
			out = append(out, [2]int64{lo, p[0] - 1})
		}
		lo = p[1] + 1
	}
	if lo <= maxI {
		out = append(out, [2]int64{lo, maxI})
	}
	return newSet(out)
}
func (s *Set) minus(o *Set) *Set    { return s.inter(o.compl()) }
func (s *Set) subsetOf(o *Set) bool { return s.minus(o).empty() }
func (s *Set) size() int64 {
	n := int64(0)
	for _, p := range s.iv {
		n += p[1] - p[0] + 1
		if n > 1<<40 {
			return 1 << 40
		}
	}
	return n
}

// unshift: set of x such that k*x + c in s (k = 1 or -1)
func (s *Set) unshift(c, k int64) *Set {
	cl := func(x int64) int64 {
		if x <= minI {
			return minI
		}
		if x >= maxI {
			return maxI
		}
		return x
	}
	sub := func(x int64) int64 {
		if x <= minI || x >= maxI {
			return x
		}
		return cl(x - c)
	}
	var iv [][2]int64
	for _, p := range s.iv {
		lo, hi := sub(p[0]), sub(p[1])
		if k < 0 {
			lo, hi = -hi, -lo
		}
		iv = append(iv, [2]int64{lo, hi})
	}
	return mkSet(iv)
}
func (s *Set) String() string {
	var b strings.Builder
	b.WriteByte('{')
	for i, p := range s.iv {
		if i > 8 {
			b.WriteString("...")
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		f := func(x int64) string {
			if x <= minI {
				return "-inf"
			}
			if x >= maxI {
				return "inf"
			}
			return strconv.FormatInt(x, 10)
		}
		if p[0] == p[1] {
			b.WriteString(f(p[0]))
		} else {
			b.WriteString(f(p[0]) + ".." + f(p[1]))
		}
	}
	b.WriteByte('}')
	return b.String()
}
