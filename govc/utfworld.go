package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf16"

	"golang.org/x/tools/go/ssa"
)

// The contract of EncodeUTF16 (C13). A string s is its sequence of L runes as
// a range loop gives them (invalid bytes as U+FFFD), of at least one byte
// each. A(j) is the number of runes above the basic plane among the first j.
// Loop invariants are inferred (numbers are linear in j and A(j), output lists
// hold the code units of the first j runes) and then verified.

var (
	utfS      = mkSym("s", SStr)
	astralSet = setRange(0x10000, 0x10FFFF)
	validRune = setRange(0, 0x10FFFF).minus(setRange(0xD800, 0xDFFF))
)

func init() {
	intrinsic["A"] = setRange(0, 1<<40)
	intrinsic["lenb"] = setRange(0, 1<<40)
}

func aOf(j *Term) *Term {
	if j == mkInt(0) {
		return mkInt(0)
	}
	return mkApp("A", SInt, j)
}

func utfElt(j *Term) *Term { return mkApp("elt", SInt, utfS, j) }

type utfLoop struct {
	base    map[string]Val // phi registers and made arrays at the start
	d0      map[string]int64
	dA      map[string]int64
	grows   map[string]bool
	free    map[string]bool // nothing is said of it
	seen    [2]map[string]int64
	learned bool
}

type utfWorld struct {
	prog   *Program
	loops  map[string]*utfLoop // inferred
	probes map[string]*utfLoop // being inferred
	final  bool
}

func (w *utfWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn != nil && c.fn.String() == "unicode/utf16.Encode" {
		l := asList(c.args[0])
		if l != nil && len(l.Atoms) == 1 && l.Atoms[0].Base == utfS && l.Atoms[0].F == "" {
			a := l.Atoms[0]
			a.F = "utf16"
			e.assumed("unicode/utf16.Encode")
			e.setResult(s, c.dst, &ListV{Elem: types.Typ[types.Uint16], Atoms: []Atom{a}})
			return []*State{s}, true
		}
	}
	return libCall(e, s, c)
}
func (w *utfWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C13", "C01"}, "encoding does not panic", false, func() string { return valString(v) })
}

// vars lists the values a loop may change.
func (w *utfWorld) vars(s *State) map[string]Val {
	f := s.top()
	m := map[string]Val{}
	for _, in := range f.blk.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if u := w.pos(s); u != nil && u.it == nil && u.reg == f.info.num[p] {
				continue
			}
			m["phi "+p.Name()] = f.regs[f.info.num[p]]
		}
	}
	na, nc := 0, 0
	for _, c := range sortedCells(s.heap) {
		if _, global := w.prog.globals[c]; global {
			continue
		}
		switch a := s.heap[c].(type) {
		case *ArrV:
			m[fmt.Sprintf("array %d", na)] = a.Pre
			na++
		case *Term, *ListV:
			// a variable that a closure refers to
			m[fmt.Sprintf("cell %d", nc)] = a
			nc++
		}
	}
	return m
}

func (w *utfWorld) set(s *State, name string, v Val) {
	f := s.top()
	for _, in := range f.blk.Instrs {
		if p, ok := in.(*ssa.Phi); ok && name == "phi "+p.Name() {
			f.set(f.info.num[p], v)
		}
	}
	na, nc := 0, 0
	for _, c := range sortedCells(s.heap) {
		if _, global := w.prog.globals[c]; global {
			continue
		}
		switch a := s.heap[c].(type) {
		case *ArrV:
			if name == fmt.Sprintf("array %d", na) {
				s.hset(c, &ArrV{Pre: v.(*ListV), Len: a.Len})
			}
			na++
		case *Term, *ListV:
			if name == fmt.Sprintf("cell %d", nc) {
				s.hset(c, v)
			}
			nc++
		}
	}
}

func nextIn(b *ssa.BasicBlock) *ssa.Range {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return r
			}
		}
	}
	return nil
}

// utfPos is the place of a loop in the string: a range over it, or a variable
// that counts through its runes.
type utfPos struct {
	Pos *Term
	reg int
	it  *IterV
	off int64 // of the variable
}

func (u *utfPos) set(s *State, pos *Term) {
	f := s.top()
	if u.it != nil {
		f.set(u.reg, &IterV{L: u.it.L, Pos: pos, Src: u.it.Src})
		return
	}
	f.set(u.reg, mkPlus(pos, u.off))
}

func (w *utfWorld) pos(s *State) *utfPos {
	f := s.top()
	if rg := nextIn(f.blk); rg != nil {
		r := f.info.num[rg]
		if it, ok := f.regs[r].(*IterV); ok && strTerm(it.Src) == utfS {
			return &utfPos{Pos: it.Pos, reg: r, it: it}
		}
		return nil
	}
	runes := false
	for _, v := range f.regs {
		if l, ok := v.(*ListV); ok && !l.Str && len(l.Atoms) == 1 && l.Atoms[0].Base == utfS && l.Atoms[0].F == "" && l.Atoms[0].Lo == mkInt(0) && l.Atoms[0].Hi == listLen(utfS) {
			runes = true
		}
	}
	li := loopOf(f.blk)
	if !runes || !li.counted {
		return nil
	}
	for _, in := range f.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if li.ind[ph] != 1 {
			continue
		}
		// the variable starts at a constant, and is compared with the bound
		for k, p := range f.blk.Preds {
			c, ok := ph.Edges[k].(*ssa.Const)
			if !ok || f.blk.Dominates(p) || c.Value == nil || !li.controls(ph) {
				continue
			}
			r := f.info.num[ph]
			if t, ok := f.regs[r].(*Term); ok {
				return &utfPos{Pos: mkPlus(t, -c.Int64()), reg: r, off: c.Int64()}
			}
		}
	}
	return nil
}

// controls says whether the condition the loop goes on by is about ph.
func (li *loopInfo) controls(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			if b.Y == li.bound {
				return true
			}
			for _, q := range *b.Referrers() {
				if c, ok := q.(*ssa.BinOp); ok && c.X == ssa.Value(b) && c.Y == li.bound {
					return true
				}
			}
		}
	}
	return false
}

func (w *utfWorld) Header(e *Exec, s *State) []*State {
	f := s.top()
	it := w.pos(s)
	if it == nil {
		return []*State{s}
	}
	key := fmt.Sprintf("%s.%d", fnKey(f.fn), f.blk.Index)
	vars := w.vars(s)
	if it.Pos == mkInt(0) {
		lp := w.loops[key]
		if lp == nil {
			if w.final {
				e.limitf(s, "no invariant for the loop %s", key)
				return nil
			}
			if len(w.probes) > 0 && w.probes[key] == nil {
				return nil // one loop after the other
			}
			lp = &utfLoop{base: vars, d0: map[string]int64{}, dA: map[string]int64{}, grows: map[string]bool{}, free: map[string]bool{}}
			lp.seen = [2]map[string]int64{{}, {}}
			w.probes[key] = lp
			s.pc, _ = s.pc.Assume(mkIn(utfElt(mkInt(0)), validRune))
			return []*State{s}
		}
		lp.base = vars
		return w.general(e, s, lp, it)
	}
	if it.Pos == mkInt(1) && w.probes[key] != nil && w.loops[key] == nil {
		w.learn(e, s, w.probes[key], vars)
		return nil
	}
	lp := w.loops[key]
	if lp == nil {
		return nil
	}
	// a back edge: the invariant holds again
	j := mkPlus(it.Pos, -1)
	r := utfElt(j)
	y, n := e.branch(s, mkIn(r, astralSet))
	for k, st := range []*State{n, y} {
		if st == nil {
			continue
		}
		a1 := mkPlus(aOf(j), int64(k))
		for name, v := range w.vars(st) {
			b, old := lp.base[name]
			if lp.free[name] || !old && strings.HasPrefix(name, "cell ") {
				continue
			}
			if lp.grows[name] {
				w.checkUnits(e, st, lp, name, v, j)
				continue
			}
			if t, ok := v.(*Term); ok {
				bt, okb := b.(*Term)
				want := t
				if okb {
					want = mkAdd(bt, mkAdd(mkMulC(lp.d0[name], it.Pos), mkMulC(lp.dA[name], a1)))
				}
				e.record(st, []string{"C13"}, "the loop invariant of "+name+" is preserved", okb && st.pc.Entails(mkEq(t, want)), func() string { return fmt.Sprintf("%s instead of %s", t, want) })
				continue
			}
			e.record(st, []string{"C13"}, "the loop leaves "+name+" alone", same(v, b), func() string { return valString(v) })
		}
	}
	return nil
}

// learn notes what one iteration changes.
func (w *utfWorld) learn(e *Exec, s *State, lp *utfLoop, vars map[string]Val) {
	lp.learned = true
	y, n := e.branch(s, mkIn(utfElt(mkInt(0)), astralSet))
	for k, st := range []*State{n, y} {
		if st == nil {
			continue
		}
		for name, v := range vars {
			b := lp.base[name]
			if t, ok := v.(*Term); ok {
				bt, ok := b.(*Term)
				if !ok || t.Sort != SInt {
					continue
				}
				if d := mkSub(t, bt); d.isConst() {
					lp.seen[k][name] = d.N
				} else {
					lp.free[name] = true
				}
				continue
			}
			l, isL := v.(*ListV)
			if isL {
				bl := asList(b)
				if bl == nil {
					if _, isNil := b.(*NilV); isNil {
						bl = &ListV{}
					}
				}
				if bl != nil && len(bl.Atoms) == 0 && len(l.Atoms) > 0 {
					lp.grows[name] = true
				}
			}
		}
	}
	for name := range vars {
		d, ok0 := lp.seen[0][name]
		a, ok1 := lp.seen[1][name]
		if ok0 {
			lp.d0[name] = d
		}
		if ok1 {
			lp.dA[name] = a - lp.d0[name]
		} else {
			lp.dA[name] = 0
		}
	}
}

// general starts an arbitrary iteration.
func (w *utfWorld) general(e *Exec, s *State, lp *utfLoop, it *utfPos) []*State {
	L := listLen(utfS)
	j := s.newSym("j", SInt)
	var outs []*State
	for k := 0; k < 3; k++ {
		st := s.fork()
		pos := j
		if k == 2 {
			pos = L // the end
		}
		ok := true
		add := func(t *Term) {
			if ok {
				st.pc, ok = st.pc.Assume(t)
			}
		}
		add(mkGe0(pos))
		if k < 2 {
			add(mkLt(pos, L))
			if k == 1 {
				add(mkIn(utfElt(pos), astralSet))
			} else {
				add(mkIn(utfElt(pos), validRune.minus(astralSet)))
			}
			add(mkGe(aOf(L), mkPlus(aOf(pos), int64(k))))
			add(mkGe(pos, aOf(pos)))
		}
		if !ok {
			continue
		}
		it.set(st, pos)
		for name, b := range lp.base {
			if lp.grows[name] {
				l := asList(b)
				if l == nil {
					l = &ListV{}
				}
				n := l.with(nil)
				n.Elem = l.Elem
				if pos != mkInt(0) {
					n.Atoms = []Atom{{Base: utfS, Lo: mkInt(0), Hi: pos, F: "utf16"}}
				}
				w.set(st, name, n)
				continue
			}
			if lp.free[name] {
				w.set(st, name, st.newSym("any", SInt))
				continue
			}
			if bt, ok := b.(*Term); ok && bt.Sort == SInt {
				w.set(st, name, mkAdd(bt, mkAdd(mkMulC(lp.d0[name], pos), mkMulC(lp.dA[name], aOf(pos)))))
			}
		}
		outs = append(outs, st)
	}
	return outs
}

// checkUnits checks that an output list got exactly the code units of rune j.
func (w *utfWorld) checkUnits(e *Exec, s *State, lp *utfLoop, name string, v Val, j *Term) {
	l, ok := v.(*ListV)
	if !ok {
		e.limitf(s, "output %s", valString(v))
		return
	}
	as := l.Atoms
	okp := len(as) > 0 && as[0].Base == utfS && as[0].F == "utf16" && as[0].Lo == mkInt(0) && as[0].Hi == j
	if !okp {
		e.record(s, []string{"C13"}, "the output before an iteration is kept", false, func() string { return valString(v) })
		return
	}
	as = append([]Atom{}, as[1:]...)
	for i, a := range as {
		if a.Base == utfS && a.F == "" && mkSub(a.Hi, a.Lo) == mkInt(1) {
			as[i] = Atom{E: utfElt(a.Lo)}
		}
	}
	r := utfElt(j)
	dom := s.pc.DomOf(r).inter(validRune)
	why := ""
	eachIn(dom, func(x int64) {
		if why != "" {
			return
		}
		want := utf16.Encode([]rune{rune(x)})
		if len(want) != len(as) {
			why = fmt.Sprintf("%d units for %U", len(as), x)
			return
		}
		for i, a := range as {
			t, ok := a.E.(*Term)
			if !ok || a.Base != nil {
				why = "unit " + valString(a.E)
				return
			}
			g, ok := evalInt(t, func(u *Term) (int64, bool) { return x, u == r })
			if !ok || g != int64(want[i]) {
				why = fmt.Sprintf("unit %#x instead of %#x for %U (%s)", g, want[i], x, t)
				return
			}
		}
	})
	e.record(s, []string{"C13"}, "each rune is encoded as its UTF-16 code units", why == "", func() string { return why })
}

func (w *utfWorld) Return(e *Exec, s *State, res Val) {
	L := listLen(utfS)
	l, ok := res.(*ListV)
	if a, isArr := res.(*ArrSlice); isArr {
		arr := s.heap[a.Cell].(*ArrV)
		hi := a.Hi
		if hi == nil {
			hi = arr.Len
		}
		l, ok = arr.Pre, s.pc.Entails(mkEq(hi, arr.Pre.lenOf()))
		e.record(s, []string{"C13"}, "the result is as long as what was written", ok, func() string { return hi.String() })
	}
	if _, isNil := res.(*NilV); isNil {
		l, ok = &ListV{}, true
	}
	if !ok {
		return
	}
	good := false
	switch len(l.Atoms) {
	case 0:
		good = s.pc.Entails(mkEq(L, mkInt(0)))
	case 1:
		a := l.Atoms[0]
		good = a.Base == utfS && a.F == "utf16" && a.Lo == mkInt(0) && s.pc.Entails(mkEq(a.Hi, L))
	}
	e.record(s, []string{"C13"}, "the result is the code units of all runes in order", good, func() string { return valString(res) })
}

func newUTFExec(p *Program) *Exec {
	key := "ecmascript/lexer.EncodeUTF16"
	e := newExec(p, &utfWorld{prog: p}, nil, key)
	e.driver = func() {
		fn := p.findFn(key)
		if fn == nil {
			e.limitf(nil, "%s not found", key)
			return
		}
		loops := map[string]*utfLoop{}
		for pass := 0; pass < 8; pass++ {
			w := &utfWorld{prog: p, loops: loops, probes: map[string]*utfLoop{}, final: pass == 7}
			x := newExec(p, w, fn, key)
			n := 0
			s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n, g: nilGhost{}}
			s.pc, _ = s.pc.Assume(mkGe(mkApp("lenb", SInt, utfS), listLen(utfS)))
			x.pushFrame(s, fn, []Val{utfS}, fkCall, nil)
			x.push(s)
			x.Inlined[key] = true
			x.run()
			if len(w.probes) == 0 {
				e.merge(x)
				return
			}
			some := false
			for _, lp := range w.probes {
				some = some || lp.learned
			}
			for k, lp := range w.probes {
				if lp.learned || !some {
					loops[k] = lp
				}
			}
		}
		e.limitf(nil, "the loops of %s do not settle", key)
	}
	return e
}
