package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type shapeRec struct{}

// header is called when control reaches a loop header: the state is
// generalised and dropped when a state at least as general was explored.
func (e *Exec) header(s *State) ([]*State, bool) {
	e.hdrs++
	if e.unrolled(s) {
		return nil, true
	}
	var keep []*State
	for _, st := range e.w.Header(e, s) {
		if e.arrive(st) {
			keep = append(keep, st)
		}
	}
	return e.contd(keep, s)
}

// loopInfo is static information about a loop header.
type loopInfo struct {
	counted bool
	ind     map[*ssa.Phi]int64
	cells   map[*ssa.Alloc]int64 // counters that closures refer to
	bound   ssa.Value            // what a counter is compared with
	body    map[int]bool
}

var loopInfos = map[*ssa.BasicBlock]*loopInfo{}

func loopOf(h *ssa.BasicBlock) *loopInfo {
	if li, ok := loopInfos[h]; ok {
		return li
	}
	li := &loopInfo{ind: map[*ssa.Phi]int64{}, cells: map[*ssa.Alloc]int64{}, body: map[int]bool{h.Index: true}}
	loopInfos[h] = li
	var latches []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			latches = append(latches, p)
		}
	}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if li.body[b.Index] {
			return
		}
		li.body[b.Index] = true
		for _, p := range b.Preds {
			mark(p)
		}
	}
	for _, l := range latches {
		mark(l)
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		step := int64(0)
		good := true
		for k, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			b, ok := ph.Edges[k].(*ssa.BinOp)
			if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(ph) {
				good = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || sortOf(c.Type()) != SInt {
				good = false
				break
			}
			d := c.Int64()
			if b.Op == token.SUB {
				d = -d
			}
			if step != 0 && step != d || d == 0 {
				good = false
				break
			}
			step = d
		}
		if good && step != 0 {
			li.ind[ph] = step
		}
	}
	inv := func(v ssa.Value) bool { return li.invariant(v) }
	domLatch := func(b *ssa.BasicBlock) bool {
		for _, l := range latches {
			if !b.Dominates(l) {
				return false
			}
		}
		return true
	}
	for _, b := range h.Parent().Blocks {
		if li.body[b.Index] {
			continue
		}
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && sortOf(a.Type().Underlying().(*types.Pointer).Elem()) == SInt {
				if d := li.counter(a, domLatch); d != 0 {
					li.cells[a] = d
				}
			}
		}
	}
	for _, b := range h.Parent().Blocks {
		if !li.body[b.Index] || !domLatch(b) {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				li.counted = true
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		stay := -1
		if li.body[b.Succs[0].Index] && !li.body[b.Succs[1].Index] {
			stay = 0
		} else if li.body[b.Succs[1].Index] && !li.body[b.Succs[0].Index] {
			stay = 1
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if stay < 0 || !ok {
			continue
		}
		op, x, y := cmp.Op, cmp.X, cmp.Y
		if stay == 1 {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		try := func(is func(v ssa.Value) bool, d int64) {
			isInd := func(v ssa.Value) bool {
				if is(v) {
					return true
				}
				if bo, ok := v.(*ssa.BinOp); ok && is(bo.X) && (bo.Op == token.ADD || bo.Op == token.SUB) {
					_, ok := bo.Y.(*ssa.Const)
					return ok
				}
				return false
			}
			up := op == token.LSS || op == token.LEQ
			dn := op == token.GTR || op == token.GEQ
			if isInd(x) && inv(y) && (d > 0 && up || d < 0 && dn) {
				li.counted = true
				li.bound = y
			}
			if isInd(y) && inv(x) && (d > 0 && dn || d < 0 && up) {
				li.counted = true
			}
		}
		for ph, d := range li.ind {
			try(func(v ssa.Value) bool { return v == ssa.Value(ph) }, d)
		}
		for a, d := range li.cells {
			try(func(v ssa.Value) bool { return loadOf(v) == ssa.Value(a) }, d)
		}
	}
	return li
}

// loadOf is the address v is read from, nil if it is not.
func loadOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return nil
}

// counter says by how much every iteration of the loop counts the variable a
// up or down, 0 if it does anything else to it.
func (li *loopInfo) counter(a *ssa.Alloc, always func(*ssa.BasicBlock) bool) int64 {
	d := int64(0)
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return 0
			}
		case *ssa.MakeClosure:
			if !onlyReads(u, a) {
				return 0
			}
		case *ssa.Store:
			if u.Val == ssa.Value(a) {
				return 0
			}
			if !li.body[u.Block().Index] {
				continue
			}
			b, ok := u.Val.(*ssa.BinOp)
			if !ok || (b.Op != token.ADD && b.Op != token.SUB) || loadOf(b.X) != ssa.Value(a) || !always(u.Block()) || d != 0 {
				return 0
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0
			}
			if d = c.Int64(); b.Op == token.SUB {
				d = -d
			}
		default:
			return 0
		}
	}
	return d
}

// onlyReads says whether the closure c does nothing but read the variable whose
// address p it is bound to.
func onlyReads(c *ssa.MakeClosure, p ssa.Value) bool {
	fn, ok := c.Fn.(*ssa.Function)
	if !ok {
		return false
	}
	for k, b := range c.Bindings {
		if b != p {
			continue
		}
		fv := fn.FreeVars[k]
		for _, r := range *fv.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.MakeClosure:
				if !onlyReads(u, fv) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// invariant says whether v has the same value in every iteration of the loop:
// it is computed outside it, or inside it from such values by operations
// without effect.
func (li *loopInfo) invariant(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !li.body[in.Block().Index] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		bl, ok := x.Call.Value.(*ssa.Builtin)
		return ok && bl.Name() == "len" && li.invariant(x.Call.Args[0])
	case *ssa.BinOp:
		return x.Op != token.QUO && x.Op != token.REM && li.invariant(x.X) && li.invariant(x.Y)
	case *ssa.Field:
		return li.invariant(x.X)
	case *ssa.FieldAddr:
		return li.fixed(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return li.fixed(x.X)
		}
		return x.Op != token.ARROW && li.invariant(x.X)
	}
	return false
}

// fixed says whether p is the address of (a field of) a variable that is not
// written in the loop: one that is local to the function and whose address is
// only used to read and write it, or one of the package, which the contract of
// C16 keeps from being written.
func (li *loopInfo) fixed(p ssa.Value) bool {
	switch x := p.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return li.fixed(x.X)
	case *ssa.Alloc:
		return !li.body[x.Block().Index] && li.unwritten(x)
	}
	return false
}

func (li *loopInfo) unwritten(p ssa.Value) bool {
	for _, r := range *p.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !li.unwritten(u) {
				return false
			}
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.MakeClosure:
			if !onlyReads(u, p) {
				return false
			}
		case *ssa.Store:
			if u.Val == p || li.body[u.Block().Index] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// invVal is the value of an invariant at the header of the loop, nil when it is
// not known.
func (e *Exec) invVal(s *State, f *Frame, li *loopInfo, v ssa.Value) Val {
	if in, ok := v.(ssa.Instruction); !ok || in.Block() == nil || !li.body[in.Block().Index] {
		return e.val(s, f, v)
	}
	addr := func(p ssa.Value) *PtrV {
		var path []int
		for {
			fa, ok := p.(*ssa.FieldAddr)
			if !ok {
				break
			}
			path = append([]int{fa.Field}, path...)
			p = fa.X
		}
		q, ok := e.val(s, f, p).(*PtrV)
		if !ok {
			return nil
		}
		return &PtrV{q.Cell, append(append([]int{}, q.Path...), path...)}
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch a := e.invVal(s, f, li, x.Call.Args[0]).(type) {
		case *ListV:
			if a.Str {
				return strByteLen(a)
			}
			return a.lenOf()
		case *NilV:
			return mkInt(0)
		}
	case *ssa.BinOp:
		a, ok := e.invVal(s, f, li, x.X).(*Term)
		b, ok2 := e.invVal(s, f, li, x.Y).(*Term)
		if ok && ok2 && a.Sort == SInt && b.isConst() {
			switch x.Op {
			case token.ADD:
				return mkPlus(a, b.N)
			case token.SUB:
				return mkPlus(a, -b.N)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if q := addr(x.X); q != nil {
				if h := pathGet(s.heap[q.Cell], q.Path); h != nil {
					return h
				}
				if gv, ok := e.prog.globals[q.Cell]; ok {
					return pathGet(gv, q.Path)
				}
			}
		}
	}
	return nil
}

// unroller is implemented by worlds that want loops over a few known elements
// executed as they are.
type unroller interface{ Unroll(n int64) bool }

// unwinder is implemented by worlds that want counting loops executed as they
// are while Unwind agrees.
type unwinder interface{ Unwind(n int64) bool }

func (e *Exec) unrolled(s *State) bool {
	u, ok := e.w.(unroller)
	if !ok {
		return false
	}
	f := s.top()
	li := loopOf(f.blk)
	if uw, ok := u.(unwinder); ok && (len(li.ind) > 0 || uw.Unwind(0)) {
		all := true
		for ph := range li.ind {
			t, ok := f.regs[f.info.num[ph]].(*Term)
			all = all && ok && t.isConst() && uw.Unwind(t.N)
		}
		if all {
			return true
		}
	}
	if !li.counted || li.bound == nil {
		return false
	}
	var n *Term
	n, _ = e.invVal(s, f, li, li.bound).(*Term)
	if n == nil || !n.isConst() || !u.Unroll(n.N) {
		return false
	}
	for ph := range li.ind {
		if t, ok := f.regs[f.info.num[ph]].(*Term); !ok || !t.isConst() {
			return false
		}
	}
	return true
}

// progress is implemented by worlds that have a measure that grows with the
// input consumed.
type progresser interface {
	Progress(e *Exec, s *State) *Term
}

// counting is implemented by ghosts whose lists go along with the variable a
// loop counts with.
type counting interface {
	Count(re func(Val) Val) Ghost
}

// growing is implemented by worlds where the lists in memory may grow as a loop
// counts.
type growing interface{ Grows() bool }

// grow generalises the state where the variable iv is n: lists of n elements
// have iv of them, and whatever ends where they do goes along.
func (s *State) grow(iv *Term, n int64) {
	ends := map[*Term]*Term{}
	see := func(v Val) Val {
		if l, ok := v.(*ListV); ok && len(l.Atoms) == 1 && l.Atoms[0].Base != nil {
			if a := l.Atoms[0]; mkSub(a.Hi, a.Lo) == mkInt(n) && !a.Hi.isConst() {
				ends[a.Hi] = mkAdd(mkPlus(a.Hi, -n), iv)
			}
		}
		return nil
	}
	for _, c := range sortedCells(s.heap) {
		mapVal(s.heap[c], see)
	}
	if len(ends) == 0 {
		return
	}
	top := func(t *Term) *Term {
		if r, ok := ends[t]; ok {
			return r
		}
		return t
	}
	mv := func(v Val) Val {
		if v == nil {
			return nil
		}
		return mapTerms(v, top)
	}
	for _, c := range sortedCells(s.heap) {
		s.hset(c, mv(s.heap[c]))
	}
	s.g.Map(top, mv)
	for _, f := range s.frames {
		for k, v := range f.regs {
			if v != nil {
				f.set(k, mv(v))
			}
		}
	}
}

// below tells whether the term is a constant added to what is no counter.
func below(t *Term) (*Term, int64, bool) {
	p, k := t, int64(0)
	if t.Op == OLin && len(t.Args) == 1 && t.Coef[0] == 1 {
		p, k = t.Args[0], t.N
	}
	return p, k, t.Sort == SInt && !t.isConst() && p.Op != OLin && !strings.HasPrefix(p.Name, "iv#")
}

// countDown generalises the state where the counter in register r is p+k on its
// way down: it is anything from the least value known for it to p+k, and where
// lists begin goes along.
func (s *State) countDown(set func(Val), t, p *Term, k int64) {
	iv := s.newSym("iv", SInt)
	for n := int64(1); n >= -2; n-- {
		if s.pc.Entails(mkGe(t, mkInt(n))) {
			s.assume(mkGe(iv, mkInt(n)))
			break
		}
	}
	s.assume(mkLe(iv, t))
	set(iv)
	re := func(v Val) Val {
		l, ok := v.(*ListV)
		if !ok {
			return nil
		}
		ch := false
		as := append([]Atom{}, l.Atoms...)
		for i, a := range as {
			if a.Base == nil {
				continue
			}
			if q, n, ok := below(a.Lo); ok && q == p && n-k <= 1 && n-k >= -1 {
				as[i].Lo = mkPlus(iv, n-k)
				ch = true
			}
		}
		if !ch {
			return nil
		}
		return l.with(as)
	}
	if g, ok := s.g.(counting); ok {
		s.g = g.Count(re)
	}
}

// nonNiler is implemented by worlds where some values are known not to be nil.
type nonNiler interface {
	NonNil(e *Exec, t *Term) bool
}

func clearDead(s *State) {
	// forget dead registers
	for i, fr := range s.frames {
		var live map[int]bool
		if i == len(s.frames)-1 {
			live = fr.info.liveIn[fr.blk.Index]
		} else {
			live = fr.info.liveAt[fr.blk.Instrs[fr.ip]]
		}
		if live == nil {
			continue
		}
		for k, v := range fr.regs {
			if v != nil && !live[k] {
				fr.set(k, nil)
			}
		}
	}
}

func (e *Exec) arrive(s *State) bool {
	f := s.top()
	h := f.blk
	li := loopOf(h)
	back := f.prev != nil && h.Dominates(f.prev)
	var pos *Term
	if p, ok := e.w.(progresser); ok {
		pos = p.Progress(e, s)
	}
	if f.marks == nil {
		f.marks = map[int]*Mark{}
	}
	if back {
		if li.counted {
			e.record(s, e.term, "every loop iteration advances", true, nil)
		} else {
			m := f.marks[h.Index]
			ok := false
			if m != nil && m.pos != nil && pos != nil {
				ok = s.pc.Entails(mkLt(m.pos, pos))
			}
			pp := e.prog.Fset.Position(e.curPos)
			e.record(s, e.term, fmt.Sprintf("every iteration of the loop in %s advances", fnKey(f.fn)), ok, func() string {
				if m == nil {
					return fmt.Sprintf("near %s: no measure", pp)
				}
				return fmt.Sprintf("near %s: from %v to %v", pp, m.pos, pos)
			})
		}
	}
	for k := range f.marks {
		if h.Dominates(f.fn.Blocks[k]) || k == h.Index {
			delete(f.marks, k)
		}
	}
	if pos != nil && !li.counted {
		f.marks[h.Index] = &Mark{pos: pos}
	}

	clearDead(s)
	// induction variables
	type counter struct {
		d   int64
		v   Val
		set func(Val)
	}
	var counters []counter
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if d, ok := li.ind[ph]; ok {
			r := f.info.num[ph]
			counters = append(counters, counter{d, f.regs[r], func(v Val) { f.set(r, v) }})
		}
	}
	for _, b := range h.Parent().Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || li.cells[a] == 0 {
				continue
			}
			if q, ok := f.regs[f.info.num[a]].(*PtrV); ok && len(q.Path) == 0 {
				counters = append(counters, counter{li.cells[a], s.heap[q.Cell], func(v Val) { s.hset(q.Cell, v) }})
			}
		}
	}
	for _, ctr := range counters {
		d := ctr.d
		t, ok := ctr.v.(*Term)
		if !ok {
			continue
		}
		if p, k, ok := below(t); ok && back && d < 0 {
			s.countDown(ctr.set, t, p, k)
			continue
		}
		if t.isConst() {
			if !back {
				continue
			}
			iv := s.newSym("iv", SInt)
			if d > 0 {
				s.pc, _ = s.pc.Assume(mkGe(iv, t))
			} else {
				s.pc, _ = s.pc.Assume(mkLe(iv, t))
			}
			if li.bound != nil && d > 0 {
				b, _ := e.invVal(s, f, li, li.bound).(*Term)
				if b != nil && !b.isConst() {
					for _, c := range []*Term{mkLt(iv, b), mkLe(iv, b)} {
						if s.pc.Entails(subst(c, func(x *Term) *Term {
							if x == iv {
								return t
							}
							return nil
						}, map[*Term]*Term{})) {
							s.assume(c)
							break
						}
					}
				}
			}
			n := t.N
			ctr.set(iv)
			re := func(v Val) Val {
				l, ok := v.(*ListV)
				if !ok {
					return nil
				}
				ch := false
				as := append([]Atom{}, l.Atoms...)
				for i, a := range as {
					if a.Base != nil && a.Hi.isConst() && a.Hi.N-n <= 1 && a.Hi.N-n >= -1 {
						as[i].Hi = mkPlus(iv, a.Hi.N-n)
						ch = true
					}
				}
				if !ch {
					return nil
				}
				return l.with(as)
			}
			if g, ok := s.g.(counting); ok {
				s.g = g.Count(re)
			}
			if w, ok := e.w.(growing); ok && w.Grows() {
				s.grow(iv, n)
			}
			for k, v := range f.regs {
				if m := mapVal(v, re); m != v {
					f.set(k, m)
				}
			}
			for _, c := range sortedCells(s.heap) {
				v := s.heap[c]
				if a, ok := v.(*ArrV); ok {
					if m := re(a.Pre); m != nil {
						s.hset(c, &ArrV{m.(*ListV), a.Len})
					}
				} else if m := mapVal(v, re); m != v {
					s.hset(c, m)
				}
			}
		}
	}
	for _, c := range sortedCells(s.heap) {
		if l, ok := s.heap[c].(*ListV); ok && len(l.Atoms) > 24 {
			e.limitf(s, "a list grows without bound in %s", fnKey(f.fn))
			return false
		}
	}
	for _, v := range f.regs {
		if l, ok := v.(*ListV); ok && len(l.Atoms) > 24 {
			e.limitf(s, "a list grows without bound in %s", fnKey(f.fn))
			return false
		}
	}
	big := false
	s.g.Visit(func(v Val) {
		if l, ok := v.(*ListV); ok && len(l.Atoms) > 100 {
			big = true
		}
	})
	if big {
		e.limitf(s, "an expected text grows without bound in %s", fnKey(f.fn))
		return false
	}
	key := e.canonical(s)
	vs := e.visited[key]
	for _, v := range vs {
		if subsumes(s.pc, v.pc) {
			e.cuts++
			return false
		}
	}
	if len(vs) >= 4 {
		p := s.pc
		for _, v := range vs {
			p = joinPC(p, v.pc, len(vs) > 10, len(vs) > 28)
		}
		s.pc = p
		e.joins++
		for _, v := range vs {
			if subsumes(s.pc, v.pc) {
				return false
			}
		}
	}
	if len(vs) > 40 {
		e.limitf(s, "loop in %s does not converge", fnKey(f.fn))
		return false
	}
	e.visited[key] = append(vs, &visit{s.pc})
	if debugHdr {
		fmt.Printf("HDR %s\n   pc %v\n", key, s.pc.Facts())
	}
	return true
}

// subsumes reports whether every model of a is a model of b.
func subsumes(a, b *PC) bool {
	for t, d := range b.dom {
		if a.DomOf(t).subsetOf(d) {
			continue
		}
		if !a.Entails(mkIn(t, d)) {
			return false
		}
	}
	for t, v := range b.truth {
		w := t
		if !v {
			w = mkNot(t)
		}
		if !a.Entails(w) {
			return false
		}
	}
	for t, c := range b.strv {
		if !a.Entails(mkEq(t, c)) {
			return false
		}
	}
	for _, t := range b.res {
		if !a.Entails(t) {
			return false
		}
	}
	return true
}

// joinPC keeps what both conditions imply.
// bounded says whether a term has few values, whatever is known about it: a
// rune of the input.
func bounded(t *Term) bool {
	d, ok := intrinsic[t.Name]
	return ok && t.Op == OApp && d.subsetOf(setRange(-1, runeMax))
}

func joinPC(a, b *PC, drop, dropAll bool) *PC {
	p := newPC()
	for t, d := range b.dom {
		x := a.DomOf(t)
		if drop && !x.subsetOf(d) && (dropAll || !bounded(t)) {
			continue
		}
		u := x.union(d)
		if !u.full() {
			p.add(mkIn(t, u))
		}
	}
	for t, v := range b.truth {
		w := t
		if !v {
			w = mkNot(t)
		}
		if a.Entails(w) {
			p.add(w)
		}
	}
	for t, c := range b.strv {
		if a.Entails(mkEq(t, c)) {
			p.add(mkEq(t, c))
		}
	}
	for _, t := range b.res {
		if a.Entails(t) {
			p.add(t)
		}
	}
	for _, t := range a.res {
		if b.Entails(t) {
			p.add(t)
		}
	}
	return p
}

func sortedCells(h map[int]Val) []int {
	var cs []int
	for c := range h {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	return cs
}

// valCells calls f for each heap cell a value refers to.
func valCells(v Val, f func(int)) {
	switch x := v.(type) {
	case *PtrV:
		f(x.Cell)
	case *StructV:
		for _, y := range x.F {
			valCells(y, f)
		}
	case *IfaceV:
		valCells(x.V, f)
	case *ListV:
		for _, a := range x.Atoms {
			if a.Base == nil {
				valCells(a.E, f)
			}
		}
	case *FuncV:
		for _, y := range x.Bind {
			valCells(y, f)
		}
	case TupleV:
		for _, y := range x {
			valCells(y, f)
		}
	case *ArrV:
		valCells(x.Pre, f)
	case *ArrSlice:
		f(x.Cell)
	case *ArrElemPtr:
		f(x.Cell)
	case *ElemPtr:
		valCells(x.L, f)
	case *ElemFieldPtr:
		valCells(x.P, f)
	case *IterV:
		valCells(x.Src, f)
	}
}

// mapCells renumbers the heap cells in a value.
func mapCells(v Val, f func(int) int) Val {
	switch x := v.(type) {
	case *PtrV:
		return &PtrV{f(x.Cell), x.Path}
	case *StructV:
		n := &StructV{T: x.T, F: make([]Val, len(x.F))}
		for i := range x.F {
			n.F[i] = mapCells(x.F[i], f)
		}
		return n
	case *IfaceV:
		return &IfaceV{x.T, mapCells(x.V, f)}
	case *ListV:
		n := *x
		n.Atoms = append([]Atom{}, x.Atoms...)
		for i, a := range n.Atoms {
			if a.Base == nil {
				n.Atoms[i].E = mapCells(a.E, f)
			}
		}
		return &n
	case *FuncV:
		if len(x.Bind) == 0 {
			return x
		}
		n := &FuncV{Fn: x.Fn, Bind: make([]Val, len(x.Bind))}
		for i := range x.Bind {
			n.Bind[i] = mapCells(x.Bind[i], f)
		}
		return n
	case TupleV:
		n := make(TupleV, len(x))
		for i := range x {
			n[i] = mapCells(x[i], f)
		}
		return n
	case *ArrV:
		return &ArrV{mapCells(x.Pre, f).(*ListV), x.Len}
	case *ArrSlice:
		n := *x
		n.Cell = f(x.Cell)
		return &n
	case *ArrElemPtr:
		return &ArrElemPtr{f(x.Cell), x.Idx}
	case *ElemPtr:
		return &ElemPtr{mapCells(x.L, f).(*ListV), x.Idx}
	}
	return v
}

var debugHdr = os.Getenv("GOVC_HDR") != ""

type canonizer struct {
	e       *Exec
	s       *State
	sym     map[*Term]*Term
	anchor  map[*Term]int64
	far     map[*Term]*Term
	facts   []*Term
	n       int
	cells   map[int]int
	cellseq []int
	vals    []Val
}

func freshSym(t *Term) bool { return t.Op == OSym && strings.IndexByte(t.Name, '#') >= 0 }

func (c *canonizer) newName(t *Term) *Term {
	c.n++
	return mkSym(fmt.Sprintf("%s#%d", t.Name[:strings.IndexByte(t.Name, '#')], c.n), t.Sort)
}

// offset splits p+k where p is a fresh integer symbol.
func offset(t *Term) (*Term, int64, bool) {
	if t.Sort != SInt {
		return nil, 0, false
	}
	if freshSym(t) {
		return t, 0, true
	}
	if t.Op == OLin && len(t.Args) == 1 && t.Coef[0] == 1 && freshSym(t.Args[0]) {
		return t.Args[0], t.N, true
	}
	return nil, 0, false
}

func (c *canonizer) term(t *Term) {
	if t.Sort == SInt && !t.isConst() {
		if _, ok := c.far[t]; ok {
			return
		}
		d := c.s.pc.DomOf(t)
		if v, ok := d.single(); ok {
			c.far[t] = mkInt(v)
			return
		}
		if t.Op == OApp {
			if w, is := c.e.w.(interface {
				KeepFact(s *State, t *Term) bool
			}); is && !w.KeepFact(c.s, t) {
				q := c.newName(mkSym("old#0", SInt))
				c.far[t] = q
				c.facts = append(c.facts, mkIn(q, d))
				return
			}
		}
	}
	if p, k, ok := offset(t); ok {
		a, ok := c.anchor[p]
		if !ok {
			c.bind(p, k)
			return
		}
		if d := k - a; d > 2 || d < -2 {
			if _, ok := c.far[t]; ok {
				return
			}
			q := c.newName(p)
			c.far[t] = q
			base := mkPlus(c.sym[p], a) // canonical symbol
			if d < 0 {
				c.facts = append(c.facts, mkLe(q, mkPlus(base, -3)))
			} else {
				c.facts = append(c.facts, mkGe(q, mkPlus(base, 3)))
			}
		}
		return
	}
	c.inner(t)
}

func (c *canonizer) bind(p *Term, k int64) {
	c.anchor[p] = k
	c.sym[p] = mkPlus(c.newName(p), -k)
}

func (c *canonizer) inner(t *Term) {
	if p, k, ok := offset(t); ok {
		if _, ok := c.anchor[p]; !ok {
			c.bind(p, k)
		}
		return
	}
	if freshSym(t) {
		if _, ok := c.sym[t]; !ok {
			c.sym[t] = c.newName(t)
		}
		return
	}
	for _, a := range t.Args {
		c.inner(a)
	}
}

func (c *canonizer) visit(v Val) {
	if v == nil {
		return
	}
	mapTerms(v, func(t *Term) *Term { c.term(t); return t })
	valCells(v, func(cell int) {
		if _, ok := c.cells[cell]; ok {
			return
		}
		hv, ok := c.s.heap[cell]
		if !ok {
			return // a package variable
		}
		c.cells[cell] = len(c.cells) + 1
		c.cellseq = append(c.cellseq, cell)
		c.visit(hv)
	})
}

// canonical renames everything in the state in order of first visit, drops
// what cannot be reached, and returns a description of the shape.
func (e *Exec) canonical(s *State) string {
	c := &canonizer{e: e, s: s, sym: map[*Term]*Term{}, anchor: map[*Term]int64{}, far: map[*Term]*Term{}, cells: map[int]int{}}
	// what a loop counts with comes first
	tf := s.top()
	for _, in := range tf.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := tf.regs[tf.info.num[ph]].(*Term); ok {
			if p, _, ok := offset(t); ok && strings.HasPrefix(p.Name, "iv#") {
				c.visit(t)
			}
		}
	}
	s.g.Visit(c.visit)
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		for _, v := range f.regs {
			c.visit(v)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				c.visit(a)
			}
		}
		for _, k := range sortedInts(f.marks) {
			if m := f.marks[k]; m.pos != nil {
				c.visit(m.pos)
			}
		}
	}
	if s.panicV != nil {
		c.visit(s.panicV)
	}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		return subst(t, func(x *Term) *Term { return c.sym[x] }, memo)
	}
	top := func(t *Term) *Term {
		if r, ok := c.far[t]; ok {
			return r
		}
		return sub(t)
	}
	cellOf := func(x int) int {
		if n, ok := c.cells[x]; ok {
			return n
		}
		return x
	}
	mv := func(v Val) Val {
		if v == nil {
			return nil
		}
		return mapCells(mapTerms(v, top), cellOf)
	}
	// path condition
	np := newPC()
	keep := func(t *Term) bool {
		ok := true
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if freshSym(x) {
				if _, in := c.sym[x]; !in {
					ok = false
				}
			}
		})
		if ok {
			if w, is := e.w.(interface {
				KeepFact(s *State, t *Term) bool
			}); is {
				ok = w.KeepFact(s, t)
			}
		}
		return ok
	}
	for _, t := range s.pc.Facts() {
		if keep(t) {
			np.add(sub(t))
		}
	}
	for _, t := range c.facts {
		np.add(t)
	}
	s.pc = np
	// heap
	heap := map[int]Val{}
	for _, old := range c.cellseq {
		heap[c.cells[old]] = mv(s.heap[old])
	}
	s.heap, s.heapCow, s.cell = heap, false, len(heap)
	s.g.Map(top, mv)
	for _, f := range s.frames {
		regs := make([]Val, len(f.regs))
		for i, v := range f.regs {
			regs[i] = mv(v)
		}
		f.regs, f.cow = regs, false
		ds := make([]deferred, len(f.defers))
		for i, d := range f.defers {
			ds[i] = d
			ds[i].args = make([]Val, len(d.args))
			for k, a := range d.args {
				ds[i].args[k] = mv(a)
			}
		}
		f.defers = ds
		for k, m := range f.marks {
			if m.pos != nil {
				f.marks[k] = &Mark{pos: top(m.pos)}
			}
		}
	}
	if s.panicV != nil {
		s.panicV = mv(s.panicV)
	}
	n := c.n
	s.fresh = &n

	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "%s@%d.%d", fnKey(f.fn), f.blk.Index, f.ip)
		for i, v := range f.regs {
			if v != nil {
				fmt.Fprintf(&b, " %s=%s", f.info.vals[i].Name(), valString(v))
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, " defer %s%v%s", d.fn.Name(), d.rep, valString(TupleV(d.args)))
		}
		for _, k := range sortedInts(f.marks) {
			if m := f.marks[k]; m.pos != nil {
				fmt.Fprintf(&b, " mark%d=%s", k, m.pos)
			}
		}
		b.WriteString(" | ")
	}
	for _, cell := range sortedCells(s.heap) {
		fmt.Fprintf(&b, " c%d:%s", cell, valString(s.heap[cell]))
	}
	b.WriteString(" | ")
	b.WriteString(s.g.Key(valString))
	return b.String()
}

func sortedInts[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

var _ = types.Typ
