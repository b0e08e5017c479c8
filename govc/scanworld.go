package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The contract of lexer.Scanner (C09): after any history of reads and unreads
// allowed by its protocol, the scanner stands at a position q of the tape R(0),
// R(1), ... and reports the row Row(q) and the column Col(q), where
//
//	Row(0) = 1, Col(0) = 1
//	R(q) is a line terminator:     Row(q+1) = Row(q)+1, Col(q+1) = 1
//	R(q) is not a line terminator: Row(q+1) = Row(q),   Col(q+1) = Col(q)+1
//
// The representation invariant is a finite set of shapes (the fields of the
// scanner as terms over Row and Col around the position) that contains what
// NewScanner gives and is closed under the operations; it is found, and every
// closure step is verified against the code of the operation.

func init() {
	intrinsic["Row"] = setRange(1, 1<<40)
	intrinsic["Col"] = setRange(1, 1<<40)
}

type protoGhost struct {
	pos    *Term
	canUn  bool // the reader's last operation was a successful read
	eof    bool // the reader is at the end of the tape
	calls  string
	lt     int // of the rune before the position: 0 unknown, 1 terminator, 2 not
	self   Val
	failed *Term // the error of a failing read
}

func (g *protoGhost) Clone() Ghost { n := *g; return &n }
func (g *protoGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.pos = f(g.pos)
	g.self = vf(g.self)
}
func (g *protoGhost) Visit(f func(Val)) { f(g.pos); f(g.self) }
func (g *protoGhost) Key(vs func(Val) string) string {
	return fmt.Sprintf("%s %v %v %s %d %s", g.pos, g.canUn, g.eof, g.calls, g.lt, vs(g.self))
}

// outcome is one way an operation ends.
type outcome struct {
	s     *State
	res   Val
	panic bool
}

type protoWorld struct {
	p    *Program
	outs []outcome
	call func(e *Exec, s *State, c *CallInfo) ([]*State, bool)
}

func (w *protoWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if w.call != nil {
		if o, ok := w.call(e, s, c); ok {
			return o, true
		}
	}
	return libCall(e, s, c)
}
func (w *protoWorld) Return(e *Exec, s *State, res Val) {
	w.outs = append(w.outs, outcome{s, res, false})
}
func (w *protoWorld) Panic(e *Exec, s *State, v Val)    { w.outs = append(w.outs, outcome{s, v, true}) }
func (w *protoWorld) Header(e *Exec, s *State) []*State { return []*State{s} }
func (w *protoWorld) KeepFact(s *State, t *Term) bool   { return true }

// merge adds what another exploration did to this one.
func (e *Exec) merge(o *Exec) {
	for _, f := range o.fails {
		k := f.Name + "|" + strings.Join(f.Props, ",")
		if !e.failSet[k] {
			e.failSet[k] = true
			e.fails = append(e.fails, f)
		}
	}
	for k, v := range o.Oblig {
		e.Oblig[k] += v
	}
	for k, v := range o.OKs {
		e.OKs[k] += v
	}
	for k, m := range o.ObNames {
		if e.ObNames[k] == nil {
			e.ObNames[k] = map[string]int{}
		}
		for n, c := range m {
			e.ObNames[k][n] += c
		}
	}
	for k := range o.Inlined {
		e.Inlined[k] = true
	}
	for k := range o.Assumed {
		e.Assumed[k] = true
	}
	e.steps += o.steps
	e.paths += o.paths
}

// runOp executes a function to all its ends.
func runOp(root *Exec, p *Program, fn *ssa.Function, s *State, args []Val, call func(e *Exec, s *State, c *CallInfo) ([]*State, bool)) (*Exec, []outcome) {
	w := &protoWorld{p: p, call: call}
	e := newExec(p, w, fn, root.name+": "+fnKey(fn))
	e.start = root.start
	e.limit = root.limit
	e.Inlined[fnKey(fn)] = true
	e.pushFrame(s, fn, args, fkCall, nil)
	e.push(s)
	e.run()
	return e, w.outs
}

func rowOf(q *Term) *Term { return mkApp("Row", SInt, q) }
func colOf(q *Term) *Term { return mkApp("Col", SInt, q) }

// scanAbs is a shape of the scanner.
type scanAbs struct {
	obj   *StructV
	canUn bool
	eof   bool
	lt    int // of R(q-1)
	lt2   int // of R(q-2)
}

func (a *scanAbs) key() string {
	return fmt.Sprintf("%s un=%v eof=%v lt=%d,%d", valString(a.obj), a.canUn, a.eof, a.lt, a.lt2)
}

var scanQ = mkSym("q", SInt)

// newScannerExec verifies lexer.Scanner.
func newScannerExec(p *Program) *Exec {
	e := newExec(p, &protoWorld{}, nil, "ecmascript/lexer.Scanner")
	e.driver = func() { e.limit = 60 * time.Second; verifyScanner(e, p) }
	return e
}

func verifyScanner(e *Exec, p *Program) {
	ctor := p.findFn("ecmascript/lexer.NewScanner")
	read := p.findFn("(*ecmascript/lexer.Scanner).Read")
	unread := p.findFn("(*ecmascript/lexer.Scanner).Unread")
	loc := p.findFn("(*ecmascript/lexer.Scanner).Location")
	if ctor == nil || read == nil || unread == nil || loc == nil {
		e.limitf(nil, "functions of Scanner are missing")
		return
	}
	var reader, uri Val
	newState := func(obj *StructV) (*State, Val) {
		n := 0
		s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n}
		g := &protoGhost{pos: scanQ}
		s.g = g
		var self Val
		if obj != nil {
			self = &PtrV{Cell: s.alloc(obj)}
			g.self = self
		}
		return s, self
	}
	reader = symval(ctor.Params[0].Type(), "reader")
	uri = symval(ctor.Params[1].Type(), "uri")
	s0, _ := newState(nil)
	s0.g.(*protoGhost).self = mkInt(0)
	nn := mkNot(mkIn(dynTerm(reader.(*SymIface).Term), setOf(0)))
	s0.pc, _ = s0.pc.Assume(nn)
	sub, outs := runOp(e, p, ctor, s0, []Val{reader, uri}, nil)
	e.merge(sub)
	if len(outs) != 1 || outs[0].panic {
		e.limitf(nil, "NewScanner has %d ends", len(outs))
		return
	}
	pv, ok := outs[0].res.(*PtrV)
	if !ok {
		e.limitf(nil, "NewScanner returns %s", valString(outs[0].res))
		return
	}
	obj0, ok := outs[0].s.heap[pv.Cell].(*StructV)
	if !ok {
		e.limitf(nil, "NewScanner builds %s", valString(outs[0].s.heap[pv.Cell]))
		return
	}
	// candidates for the shape a new scanner is an instance of (at q = 0)
	cands := []*StructV{{T: obj0.T}}
	for _, f := range obj0.F {
		alts := []Val{f}
		if t, ok := f.(*Term); ok && t.Sort == SInt && t.isConst() {
			alts = []Val{mkPlus(rowOf(scanQ), t.N-1), mkPlus(colOf(scanQ), t.N-1), f}
		}
		var next []*StructV
		for _, c := range cands {
			for _, a := range alts {
				next = append(next, &StructV{T: c.T, F: append(append([]Val{}, c.F...), a)})
			}
		}
		cands = next
		if len(cands) > 200 {
			e.limitf(nil, "too many number fields in Scanner")
			return
		}
	}
	var best *Exec
	for _, c := range cands {
		t := newExec(p, &protoWorld{}, nil, e.name)
		t.start, t.limit = e.start, e.limit
		closeScanner(t, p, c, reader, uri, read, unread, loc, newState)
		if best == nil || len(t.fails) < len(best.fails) {
			best = t
		}
		if len(best.fails) == 0 {
			break
		}
	}
	e.merge(best)
}

// closeScanner explores the shapes reachable from one and verifies every
// operation on each.
func closeScanner(e *Exec, p *Program, init *StructV, reader, uri Val, read, unread, loc *ssa.Function, newState func(*StructV) (*State, Val)) {
	seen := map[string]bool{}
	colBased := make([]bool, len(init.F))
	for i, f := range init.F {
		if t, ok := f.(*Term); ok && t.Sort == SInt {
			colBased[i] = strings.Contains(t.String(), "Col(")
		}
	}
	work := []*scanAbs{{obj: init}}
	assumeAbs := func(s *State, a *scanAbs) bool {
		ok := true
		add := func(t *Term) {
			if ok {
				s.pc, ok = s.pc.Assume(t)
			}
		}
		add(mkNot(mkIn(dynTerm(reader.(*SymIface).Term), setOf(0))))
		if a.lt != 0 {
			add(mkGe(scanQ, mkInt(1)))
			in := mkIn(runeAt(mkPlus(scanQ, -1)), ltSet)
			if a.lt == 2 {
				in = mkIn(runeAt(mkPlus(scanQ, -1)), anyRune.minus(ltSet))
			}
			add(in)
			if a.lt2 != 0 {
				add(mkGe(scanQ, mkInt(2)))
			}
		} else {
			add(mkGe(scanQ, mkInt(0)))
		}
		if a.eof {
			add(mkIn(runeAt(scanQ), eofSet))
		}
		g := s.g.(*protoGhost)
		g.canUn, g.eof, g.lt = a.canUn, a.eof, a.lt
		return ok
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[a.key()] {
			continue
		}
		seen[a.key()] = true
		if len(seen) > 60 {
			e.limitf(nil, "the representation of Scanner does not settle")
			return
		}
		checkLoc := func(what string, s *State, v Val, q *Term, lt int) {
			sv, ok := v.(*StructV)
			if !ok {
				e.limitf(s, "location %s", valString(v))
				return
			}
			st := sv.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				var want Val
				n := st.Field(i).Name()
				switch n {
				case "Column":
					want = colAt(q, lt)
				case "Row":
					want = rowAt(q)
				case "URI":
					want = uri
				default:
					continue
				}
				ok := same(sv.F[i], want)
				if t, isT := sv.F[i].(*Term); isT && !ok {
					if wt, isW := want.(*Term); isW {
						ok = s.pc.Entails(mkEq(t, wt))
					}
				}
				e.record(s, []string{"C09"}, what+": "+n+" is exact", ok, func() string {
					return fmt.Sprintf("%s instead of %s in shape %s", valString(sv.F[i]), valString(want), a.key())
				})
			}
		}
		// Location
		s, self := newState(a.obj)
		if !assumeAbs(s, a) {
			continue
		}
		sub, outs := runOp(e, p, loc, s, []Val{self}, nil)
		e.merge(sub)
		for _, o := range outs {
			if o.panic {
				e.record(o.s, []string{"C09", "C01"}, "Location does not panic", false, func() string { return valString(o.res) })
				continue
			}
			checkLoc("Location", o.s, o.res, scanQ, a.lt)
			if n := nextAbs(o.s, a, colBased); n != nil {
				work = append(work, n)
			}
		}
		// Read
		s, self = newState(a.obj)
		assumeAbs(s, a)
		sub, outs = runOp(e, p, read, s, []Val{self}, scanReader(reader))
		e.merge(sub)
		for _, o := range outs {
			g := o.s.g.(*protoGhost)
			if g.failed != nil {
				e.record(o.s, []string{"C15"}, "a failing reader is reported as an error", o.panic, func() string { return "Read returns " + valString(o.res) })
				if o.panic {
					checkReaderError(e, o.s, o.res, "*errs.EncodingError", func(v Val) { checkLoc("error location", o.s, v, scanQ, a.lt) })
				}
				continue
			}
			if o.panic {
				e.record(o.s, []string{"C01", "C09"}, "Read panics only when the reader fails", false, func() string { return valString(o.res) })
				continue
			}
			e.record(o.s, []string{"C09"}, "Read takes exactly one rune", g.calls == "r", func() string { return "calls of the reader: " + g.calls })
			t, _ := o.res.(*Term)
			if g.eof {
				e.record(o.s, []string{"C09"}, "Read gives EOFRune at the end", t == mkInt(-1), func() string { return valString(o.res) })
			} else {
				e.record(o.s, []string{"C09"}, "Read gives the next rune", t == runeAt(scanQ), func() string { return valString(o.res) })
			}
			for _, x := range splitLT(e, o.s) {
				if n := nextAbs(x, a, colBased); n != nil {
					work = append(work, n)
				}
			}
		}
		// Unread
		if !a.canUn && !a.eof {
			continue
		}
		s, self = newState(a.obj)
		assumeAbs(s, a)
		sub, outs = runOp(e, p, unread, s, []Val{self}, scanReader(reader))
		e.merge(sub)
		for _, o := range outs {
			g := o.s.g.(*protoGhost)
			if g.failed != nil {
				e.record(o.s, []string{"C15"}, "a failing reader is reported as an error", o.panic, func() string { return "Unread returns" })
				if o.panic {
					checkReaderError(e, o.s, o.res, "*errs.ParserError", func(v Val) { checkLoc("error location", o.s, v, scanQ, a.lt) })
				}
				continue
			}
			if o.panic {
				e.record(o.s, []string{"C01", "C09"}, "Unread panics only when the reader fails", false, func() string { return valString(o.res) })
				continue
			}
			want := "u"
			if a.eof {
				want = ""
			}
			e.record(o.s, []string{"C09"}, "Unread undoes exactly the last read", g.calls == want, func() string { return fmt.Sprintf("calls of the reader: %q instead of %q", g.calls, want) })
			g.canUn = false
			if n := nextAbs(o.s, a, colBased); n != nil {
				work = append(work, n)
			}
		}
	}
	if len(seen) < 3 {
		e.limitf(nil, "only %d shapes of Scanner were met", len(seen))
	}
	e.Assumed["contract of io.RuneScanner (ReadRune gives the runes of the source in order, then io.EOF for ever; UnreadRune undoes the read before it; either may fail with another error)"] = true
}

func colAt(q *Term, lt int) *Term {
	if lt == 1 {
		return mkInt(1)
	}
	return colOf(q)
}
func rowAt(q *Term) *Term { return rowOf(q) }

func checkReaderError(e *Exec, s *State, v Val, want string, loc func(Val)) {
	name, sv, li, ei := errParts(s, v)
	e.record(s, []string{"C01", "C15"}, "a failing reader raises a documented error", name == want && sv != nil && li >= 0 && ei >= 0, func() string { return valString(v) })
	if sv == nil || li < 0 || ei < 0 {
		return
	}
	loc(sv.F[li])
	g := s.g.(*protoGhost)
	si, ok := sv.F[ei].(*SymIface)
	e.record(s, []string{"C15"}, "the error carries its cause", ok && si.Term == g.failed, func() string { return valString(sv.F[ei]) })
}

// errParts takes an error value apart.
func errParts(s *State, v Val) (name string, sv *StructV, li, ei int) {
	iv, ok := v.(*IfaceV)
	if !ok {
		return "", nil, -1, -1
	}
	name = typeName(iv.T)
	p, ok := iv.V.(*PtrV)
	if !ok {
		return name, nil, -1, -1
	}
	sv, ok = pathGet(s.heap[p.Cell], p.Path).(*StructV)
	if !ok {
		return name, nil, -1, -1
	}
	return name, sv, structField(sv.T, "Location"), structField(sv.T, "Err")
}

// splitLT splits a state after a read on whether the rune read ends a line.
func splitLT(e *Exec, s *State) []*State {
	g := s.g.(*protoGhost)
	if !g.canUn {
		return []*State{s}
	}
	r := runeAt(scanQ)
	y, n := e.branch(s, mkIn(r, ltSet))
	var out []*State
	if n != nil {
		n.g.(*protoGhost).lt = 2
		out = append(out, n)
	}
	if y != nil {
		y.g.(*protoGhost).lt = 1
		out = append(out, y)
	}
	return out
}

// scanReader is the contract of the io.RuneScanner.
func scanReader(reader Val) func(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	return func(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
		g := s.g.(*protoGhost)
		if c.fn != nil {
			if c.fn.String() == "errors.Is" {
				a, ok1 := c.args[0].(*SymIface)
				b, ok2 := c.args[1].(*SymIface)
				if nv, isNil := c.args[0].(*NilV); isNil && nv != nil {
					e.setResult(s, c.dst, tFalse)
					return []*State{s}, true
				}
				if !ok1 || !ok2 || !isEOFErr(b.Term) {
					return nil, false
				}
				e.assumed("errors.Is")
				e.setResult(s, c.dst, mkBool(isEOFErr(a.Term)))
				return []*State{s}, true
			}
			return nil, false
		}
		if !same(c.recv, reader) {
			return nil, false
		}
		switch c.method.Name() {
		case "ReadRune":
			g.calls += "r"
			size := func(n *State) *Term {
				x := n.newSym("size", SInt)
				n.pc, _ = n.pc.Assume(mkGe(x, mkInt(0)))
				return x
			}
			var outs []*State
			// a rune
			if !g.eof {
				n := s.fork()
				var ok bool
				if n.pc, ok = n.pc.Assume(mkIn(runeAt(scanQ), anyRune)); ok {
					h := n.g.(*protoGhost)
					h.canUn = true
					h.pos = mkPlus(h.pos, 1)
					e.setResult(n, c.dst, TupleV{runeAt(scanQ), size(n), &NilV{}})
					outs = append(outs, n)
				}
			}
			// the end
			n := s.fork()
			var ok bool
			if n.pc, ok = n.pc.Assume(mkIn(runeAt(scanQ), eofSet)); ok {
				h := n.g.(*protoGhost)
				h.canUn, h.eof = false, true
				n.pc, _ = n.pc.Assume(mkIn(dynTerm(ioEOF()), setOf(typeID(types.Typ[types.UnsafePointer]))))
				e.setResult(n, c.dst, TupleV{mkInt(0), mkInt(0), &SymIface{ioEOF()}})
				outs = append(outs, n)
			}
			// a failure
			if !g.eof {
				n := s.fork()
				h := n.g.(*protoGhost)
				er := n.nonNilIface("failure")
				h.failed = er.Term
				h.canUn = false
				e.setResult(n, c.dst, TupleV{n.newSym("rune", SInt), size(n), er})
				outs = append(outs, n)
			}
			return outs, true
		case "UnreadRune":
			g.calls += "u"
			if !g.canUn {
				e.record(s, []string{"C09"}, "UnreadRune is called only right after a successful ReadRune", false, func() string { return "calls " + g.calls })
				return nil, true
			}
			e.record(s, []string{"C09"}, "UnreadRune is called only right after a successful ReadRune", true, nil)
			n := s.fork()
			h := n.g.(*protoGhost)
			er := n.nonNilIface("failure")
			h.failed = er.Term
			e.setResult(n, c.dst, er)
			g.canUn = false
			g.pos = mkPlus(g.pos, -1)
			e.setResult(s, c.dst, &NilV{})
			return []*State{s, n}, true
		}
		return nil, false
	}
}

// ioEOF is the value of io.EOF as the code loads it.
func ioEOF() *Term { return mkSym("global:io.EOF", SU) }

func isEOFErr(t *Term) bool { return t == ioEOF() }

// nextAbs brings the scanner at the end of an operation into a shape, with the
// position called q again.
func nextAbs(s *State, from *scanAbs, colBased []bool) *scanAbs {
	g := s.g.(*protoGhost)
	pv, ok := g.self.(*PtrV)
	if !ok {
		return nil
	}
	obj, ok := s.heap[pv.Cell].(*StructV)
	if !ok {
		return nil
	}
	d := mkSub(g.pos, scanQ)
	if !d.isConst() {
		return nil
	}
	a := &scanAbs{canUn: g.canUn, eof: g.eof, lt: g.lt}
	// first undo the steps beyond the new position (after an unread)
	known := map[int64]int{}
	if from.lt != 0 {
		known[-1] = from.lt // R(q-1)
	}
	if from.lt2 != 0 {
		known[-2] = from.lt2
	}
	if d.N == 1 {
		known[0] = g.lt
	}
	a.lt, a.lt2 = known[d.N-1], known[d.N-2]
	if a.lt == 0 {
		a.lt2 = 0
	}
	memo := map[*Term]*Term{}
	shift := func(t *Term) *Term {
		// every Row and Col relative to the new position
		var f func(x *Term) *Term
		f = func(x *Term) *Term {
			if x.Op == OApp && (x.Name == "Row" || x.Name == "Col") {
				k := mkSub(x.Args[0], g.pos) // offset from the new position
				if !k.isConst() {
					return x
				}
				off := k.N
				n := d.N // new position is q+n
				base := func(o int64) *Term { return mkPlus(scanQ, o) }
				lt := func(o int64) int { return known[o+n] } // R(new+o)
				switch {
				case off > 0:
					// Row(new+1) in terms of new
					if off == 1 && lt(0) != 0 {
						if x.Name == "Row" {
							return mkPlus(rowOf(base(0)), b2i(lt(0) == 1))
						}
						if lt(0) == 1 {
							return mkInt(1)
						}
						return mkPlus(colAt(base(0), lt(-1)), 1)
					}
				case off == 0:
					if x.Name == "Col" && lt(-1) == 1 {
						return mkInt(1)
					}
					return mkApp(x.Name, SInt, base(0))
				case off == -1:
					l := lt(-1)
					if x.Name == "Row" && l != 0 {
						return mkPlus(rowOf(base(0)), -b2i(l == 1))
					}
					if x.Name == "Col" && l == 2 {
						return mkPlus(colOf(base(0)), -1)
					}
					if l != 0 {
						return mkApp(x.Name, SInt, base(-1))
					}
				}
				return mkSym("stale", SInt)
			}
			return nil
		}
		return subst(t, f, memo)
	}
	out := &StructV{T: obj.T, F: make([]Val, len(obj.F))}
	for i, f := range obj.F {
		v := mapTerms(f, shift)
		if t, ok := v.(*Term); ok && t.Op != OConst && strings.Contains(t.String(), "stale") {
			v = mkSym(fmt.Sprintf("stale%d", i), t.Sort)
		} else if ok && t.Sort == SBool && !t.isConst() {
			switch s.pc.Decide(f.(*Term)) {
			case Yes:
				v = tTrue
			case No:
				v = tFalse
			default:
				v = mkSym(fmt.Sprintf("stale%d", i), SBool)
			}
		} else if ok && t.Sort == SInt && !t.isConst() {
			// a rune that was kept
			used := false
			walkTerm(t, map[*Term]bool{}, func(x *Term) {
				if x.Op == OApp && x.Name == "R" {
					used = true
				}
			})
			if used {
				v = mkSym(fmt.Sprintf("stale%d", i), SInt)
			}
		}
		if colBased[i] && a.lt == 2 && a.lt2 == 1 {
			// Col(q) is 2 here
			if x, isC := v.(*Term); isC && x.isConst() && x.N > 0 {
				v = mkPlus(colOf(scanQ), x.N-2)
			}
		}
		out.F[i] = v
	}
	a.obj = out
	return a
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
