package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one (inlined) activation.
type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	regs   []Val
	cow    bool
	defers []deferred
	call   ssa.Value // register of the caller that gets the result (nil: none)
	kind   frameKind
	onRet  func(e *Exec, s *State, res Val) []*State
	marks  map[int]*Mark // loop header block index -> progress since last visit
	rec    bool          // recovered
}

type frameKind int

const (
	fkCall   frameKind = iota
	fkDefer            // deferred call run by RunDefers
	fkUnwind           // deferred call run while panicking
)

type deferred struct {
	fn   *ssa.Function
	args []Val
	blt  string
	inv  *ssa.CallCommon
	rep  bool // deferred any number of times, with any arguments
}

// Mark is what has happened since a loop header was last passed.
type Mark struct {
	pos *Term // measure when the header was last passed
}

type trace struct {
	up  *trace
	msg string
	n   int
}

// State is a symbolic state.
type State struct {
	frames  []*Frame
	heap    map[int]Val
	heapCow bool
	pc      *PC
	g       Ghost
	fresh   *int
	cell    int
	panicV  Val // being unwound
	tr      *trace
}

// Ghost is the specification state carried along a path.
type Ghost interface {
	Clone() Ghost
	// Map rewrites every term (for canonical renaming).
	Map(f func(*Term) *Term, vf func(Val) Val)
	// Vals lists the values the ghost state refers to, in a stable order, and
	// a string describing the rest.
	Key(vs func(Val) string) string
	Visit(f func(Val))
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) fork() *State {
	n := &State{heap: s.heap, heapCow: true, pc: s.pc, fresh: s.fresh, cell: s.cell, panicV: s.panicV, tr: s.tr}
	s.heapCow = true
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		f.cow = true
		g := *f
		if f.marks != nil {
			g.marks = make(map[int]*Mark, len(f.marks))
			for k, v := range f.marks {
				g.marks[k] = v
			}
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.g = s.g.Clone()
	return n
}

func (s *State) note(format string, args ...interface{}) {
	n := 1
	if s.tr != nil {
		n = s.tr.n + 1
	}
	s.tr = &trace{s.tr, fmt.Sprintf(format, args...), n}
}

func (s *State) traceList() []string {
	var out []string
	for t := s.tr; t != nil && len(out) < 60; t = t.up {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) newSym(prefix string, so Sort) *Term {
	*s.fresh++
	return mkSym(fmt.Sprintf("%s#%d", prefix, *s.fresh), so)
}

func (s *State) freshVal(t types.Type, prefix string) Val {
	*s.fresh++
	if n, ok := t.Underlying().(*types.Struct); ok {
		// fields as functions of one symbol, so that it stays one object
		b := mkSym(fmt.Sprintf("%s#%d", prefix, *s.fresh), SU)
		_ = n
		return symval(t, "of", b)
	}
	return symval(t, fmt.Sprintf("%s#%d", prefix, *s.fresh))
}

func (s *State) alloc(v Val) int {
	s.cell++
	s.hset(s.cell, v)
	return s.cell
}

func (s *State) hset(c int, v Val) {
	if s.heapCow {
		h := make(map[int]Val, len(s.heap)+1)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap = h
		s.heapCow = false
	}
	s.heap[c] = v
}

func (f *Frame) set(i int, v Val) {
	if f.cow {
		f.regs = append([]Val{}, f.regs...)
		f.cow = false
	}
	f.regs[i] = v
}

// load reads through a path.
func pathGet(v Val, path []int) Val {
	for _, i := range path {
		sv, ok := v.(*StructV)
		if !ok || i >= len(sv.F) {
			return nil
		}
		v = sv.F[i]
	}
	return v
}

func pathSet(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	sv, ok := v.(*StructV)
	if !ok {
		return nil
	}
	n := &StructV{T: sv.T, F: append([]Val{}, sv.F...)}
	n.F[path[0]] = pathSet(sv.F[path[0]], path[1:], x)
	return n
}

// FnInfo is per-function static information.
type FnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	n       int
	headers map[int]bool
	liveIn  []map[int]bool // per block
	liveAt  map[ssa.Instruction]map[int]bool
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(fn *ssa.Function) *FnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, num: map[ssa.Value]int{}, headers: map[int]bool{}, liveAt: map[ssa.Instruction]map[int]bool{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.vals = append(fi.vals, v)
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, sc := range b.Succs {
			if sc.Dominates(b) {
				fi.headers[sc.Index] = true
			}
		}
	}
	// liveness
	nb := len(fn.Blocks)
	fi.liveIn = make([]map[int]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
	}
	use := func(live map[int]bool, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if i, ok := fi.num[*op]; ok {
				live[i] = true
			}
		}
	}
	liveOut := func(b *ssa.BasicBlock) map[int]bool {
		l := map[int]bool{}
		for _, sc := range b.Succs {
			for i := range fi.liveIn[sc.Index] {
				l[i] = true
			}
			pi := -1
			for k, p := range sc.Preds {
				if p == b {
					pi = k
				}
			}
			for _, in := range sc.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(l, fi.num[ph])
				_ = pi
			}
			for _, in := range sc.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range sc.Preds {
					if p == b {
						if i, ok := fi.num[ph.Edges[k]]; ok {
							l[i] = true
						}
					}
				}
			}
		}
		return l
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			l := liveOut(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(l, fi.num[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				use(l, in)
			}
			// phis are live in (they are assigned on entry)
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if len(*ph.Referrers()) > 0 {
					l[fi.num[ph]] = true
				}
			}
			if len(l) != len(fi.liveIn[bi]) {
				fi.liveIn[bi] = l
				ch = true
			}
		}
	}
	// drop phis from liveIn of non-phi view: keep them; they are registers
	for _, b := range fn.Blocks {
		l := liveOut(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			switch in.(type) {
			case *ssa.Call, *ssa.RunDefers, *ssa.Defer:
				c := map[int]bool{}
				for i := range l {
					c[i] = true
				}
				if v, ok := in.(ssa.Value); ok {
					delete(c, fi.num[v])
				}
				fi.liveAt[in] = c
			}
			if v, ok := in.(ssa.Value); ok {
				delete(l, fi.num[v])
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			use(l, in)
		}
	}
	fnInfos[fn] = fi
	return fi
}

// CallInfo describes a call about to be made.
type CallInfo struct {
	fn     *ssa.Function // nil for interface calls
	method *types.Func   // for interface calls
	recv   Val           // for interface calls
	bind   []Val
	args   []Val
	dst    ssa.Value // result register, may be nil
	pos    token.Pos
}

// World interprets calls and events by contracts.
type World interface {
	// Call handles a call by contract; ok is false to inline it.
	Call(e *Exec, s *State, c *CallInfo) (out []*State, ok bool)
	// Return checks the postconditions of the function under verification.
	Return(e *Exec, s *State, res Val)
	// Panic checks a panic that leaves the function under verification.
	Panic(e *Exec, s *State, v Val)
	// Header prepares a state at a loop header (folding).
	Header(e *Exec, s *State) []*State
	// MayPanic lists panic values a contracted callee may raise.
}

// Failure is an obligation that was not discharged.
type Failure struct {
	Func   string
	Name   string
	Props  []string
	Detail string
	Trace  []string
	PC     []string
	Pos    string
	Kind   string // "obligation" or "limit"
}

// Exec explores one function.
type Exec struct {
	w       World
	prog    *Program
	root    *ssa.Function
	name    string
	work    []*State
	visited map[string][]*visit
	shapes  map[string]*shapeRec
	fails   []*Failure
	failSet map[string]bool
	Oblig   map[string]int // obligations by property
	OKs     map[string]int
	ObNames map[string]map[string]int
	steps   int
	paths   int
	hdrs    int
	joins   int
	cuts    int
	start   time.Time
	limit   time.Duration
	stop    bool
	edges   map[string]bool // calls made before any progress
	Inlined map[string]bool
	Assumed map[string]bool
	curPos  token.Pos
	cleared bool
	noMark  bool
	focus   string // the property looked at: exploration ends early after it fails
	failAt  time.Time
	driver  func()   // runs the exploration, when it is not a single function
	Bounded string   // what is bounded, when this is no proof
	safe    []string // the properties that need code free of panics
	term    []string // the properties that need loops to end
}

type visit struct {
	pc *PC
}

func newExec(p *Program, w World, fn *ssa.Function, name string) *Exec {
	return &Exec{w: w, prog: p, root: fn, name: name, visited: map[string][]*visit{}, shapes: map[string]*shapeRec{}, failSet: map[string]bool{},
		Oblig: map[string]int{}, OKs: map[string]int{}, ObNames: map[string]map[string]int{}, start: time.Now(), limit: 240 * time.Second,
		safe: []string{"C01"}, term: []string{"C02"}, edges: map[string]bool{}, Inlined: map[string]bool{}, Assumed: map[string]bool{}}
}

func (e *Exec) fail(s *State, props []string, name, detail, kind string) {
	key := name + "|" + strings.Join(props, ",")
	if e.failSet[key] {
		return
	}
	e.failSet[key] = true
	f := &Failure{Func: e.name, Name: name, Props: props, Detail: detail, Kind: kind}
	if s != nil {
		f.Trace = s.traceList()
		for _, t := range s.pc.Facts() {
			f.PC = append(f.PC, t.String())
		}
	}
	f.Pos = e.prog.Fset.Position(e.curPos).String()
	e.fails = append(e.fails, f)
	if e.failAt.IsZero() && (e.focus == "" || concerns(f, e.focus)) {
		e.failAt = time.Now()
	}
}

// limitf reports something the engine cannot handle; the path is abandoned.
func (e *Exec) limitf(s *State, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	e.fail(s, nil, "unsupported: "+msg, msg, "limit")
}

// oblige records an obligation and reports whether the path condition implies
// it.
func (e *Exec) oblige(s *State, props []string, name string, goal *Term, detail string) bool {
	ok := s.pc.Entails(goal)
	e.record(s, props, name, ok, func() string { return detail + " goal: " + goal.String() })
	return ok
}

func (e *Exec) record(s *State, props []string, name string, ok bool, detail func() string) {
	for _, p := range props {
		e.Oblig[p]++
		if ok {
			e.OKs[p]++
		}
		if e.ObNames[p] == nil {
			e.ObNames[p] = map[string]int{}
		}
		e.ObNames[p][name]++
	}
	if !ok {
		d := ""
		if detail != nil {
			d = detail()
		}
		e.fail(s, props, name, d, "obligation")
	}
}

func (e *Exec) push(s *State) { e.work = append(e.work, s) }

// run explores until no state is left.
func (e *Exec) run() {
	if e.driver != nil {
		e.driver()
		return
	}
	for len(e.work) > 0 && !e.stop {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.runState(s)
		if !e.failAt.IsZero() && e.focus != "" && time.Since(e.failAt) > 10*time.Second {
			return
		}
		if time.Since(e.start) > e.limit {
			e.limitf(nil, "time budget of %v exceeded", e.limit)
			return
		}
	}
}

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func (e *Exec) runState(s *State) {
	for {
		e.steps++
		f := s.top()
		in := f.blk.Instrs[f.ip]
		if p := in.Pos(); p.IsValid() {
			e.curPos = p
		}
		if debugTrace {
			fmt.Fprintf(os.Stderr, "%s b%d.%d %v\n", f.fn.Name(), f.blk.Index, f.ip, in)
		}
		outs, cont := e.step(s, f, in)
		if cont {
			continue
		}
		// schedule in order (last pushed is run first)
		for i := len(outs) - 1; i >= 0; i-- {
			e.push(outs[i])
		}
		if len(outs) == 0 {
			e.paths++
		}
		return
	}
}

func (e *Exec) val(s *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.prog.globalPtr(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return nil
	}
	i, ok := f.info.num[v]
	if !ok {
		return nil
	}
	return f.regs[i]
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch sortOf(t) {
	case SBool:
		return mkBool(constant.BoolVal(c.Value))
	case SInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return mkInt(i)
		}
		return mkApp("bigconst:"+c.Value.String(), SInt)
	case SStr:
		return mkStr(constant.StringVal(c.Value))
	}
	return mkApp("const:"+c.Value.ExactString(), SU)
}

// branch splits a state on a condition. The given state is reused for one of
// the sides.
func (e *Exec) branch(s *State, cond *Term) (yes, no *State) {
	switch s.pc.Decide(cond) {
	case Yes:
		return s, nil
	case No:
		return nil, s
	}
	n := s.fork()
	var ok1, ok2 bool
	s.pc, ok1 = s.pc.Assume(cond)
	n.pc, ok2 = n.pc.Assume(mkNot(cond))
	if !ok1 {
		s = nil
	}
	if !ok2 {
		n = nil
	}
	return s, n
}

// assume adds a fact; false when the state becomes infeasible.
func (s *State) assume(t *Term) bool {
	if s.pc.Decide(t) == No {
		return false
	}
	var ok bool
	s.pc, ok = s.pc.Assume(t)
	return ok
}

func (e *Exec) step(s *State, f *Frame, in ssa.Instruction) (outs []*State, cont bool) {
	setv := func(v ssa.Value, x Val) {
		f.set(f.info.num[v], x)
	}
	next := func() { f.ip++ }
	switch x := in.(type) {
	case *ssa.DebugRef:
		next()
		return nil, true
	case *ssa.Alloc:
		c := s.alloc(zeroVal(deref(x.Type())))
		setv(x, &PtrV{Cell: c})
		next()
		return nil, true
	case *ssa.Phi:
		e.limitf(s, "phi out of place")
		return nil, false
	case *ssa.BinOp:
		a, b := e.val(s, f, x.X), e.val(s, f, x.Y)
		r, ok := e.binop(s, x, a, b)
		if !ok {
			return nil, false
		}
		setv(x, r)
		next()
		return nil, true
	case *ssa.UnOp:
		return e.unop(s, f, x)
	case *ssa.ChangeType:
		v := e.val(s, f, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{T: x.Type(), F: sv.F}
		}
		setv(x, v)
		next()
		return nil, true
	case *ssa.ChangeInterface:
		setv(x, e.val(s, f, x.X))
		next()
		return nil, true
	case *ssa.Convert:
		r, ok := e.convert(s, x.X.Type(), x.Type(), e.val(s, f, x.X))
		if !ok {
			return nil, false
		}
		setv(x, r)
		next()
		return nil, true
	case *ssa.MakeInterface:
		setv(x, &IfaceV{x.X.Type(), e.val(s, f, x.X)})
		next()
		return nil, true
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.Bind = append(fv.Bind, e.val(s, f, b))
		}
		setv(x, fv)
		next()
		return nil, true
	case *ssa.MakeMap:
		setv(x, &PtrV{Cell: s.alloc(&MapV{Elem: x.Type().Underlying().(*types.Map).Elem()})})
		next()
		return nil, true
	case *ssa.MapUpdate:
		return e.mapUpdate(s, f, x)
	case *ssa.Lookup:
		return e.lookup(s, f, x)
	case *ssa.MakeSlice:
		ln, _ := e.val(s, f, x.Len).(*Term)
		if ln == nil {
			e.limitf(s, "make of unknown length")
			return nil, false
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		e.oblige(s, e.safe, "slice length is not negative", mkGe0(ln), "")
		if ln == mkInt(0) {
			setv(x, &ListV{Elem: el})
		} else {
			c := s.alloc(&ArrV{Pre: &ListV{Elem: el}, Len: ln})
			setv(x, &ArrSlice{Cell: c})
		}
		next()
		return nil, true
	case *ssa.Field:
		v := e.val(s, f, x.X)
		sv, ok := v.(*StructV)
		if !ok {
			e.limitf(s, "field of %s", valString(v))
			return nil, false
		}
		setv(x, sv.F[x.Field])
		next()
		return nil, true
	case *ssa.FieldAddr:
		v := e.val(s, f, x.X)
		st := deref(x.X.Type())
		p, outs := e.asPtr(s, v, st, "field "+st.Underlying().(*types.Struct).Field(x.Field).Name())
		if p == nil {
			return outs, false
		}
		switch q := p.(type) {
		case *PtrV:
			setv(x, &PtrV{q.Cell, append(append([]int{}, q.Path...), x.Field)})
		case *SymPtr:
			// a field of an immutable object: remember as a symbolic address
			setv(x, &FieldPtr{q, x.Field})
		case *ElemPtr:
			setv(x, &ElemFieldPtr{q, []int{x.Field}})
		case *ElemFieldPtr:
			setv(x, &ElemFieldPtr{q.P, append(append([]int{}, q.Path...), x.Field)})
		case *FieldPtr:
			b := loadField(q)
			_ = b
			setv(x, &FieldPtr2{q, x.Field})
		default:
			e.limitf(s, "field address of %s", valString(v))
			return nil, false
		}
		next()
		return nil, true
	case *ssa.IndexAddr:
		return e.indexAddr(s, f, x)
	case *ssa.Index:
		v := e.val(s, f, x.X)
		i, _ := e.val(s, f, x.Index).(*Term)
		if sv, ok := v.(*StructV); ok && i != nil && i.isConst() {
			setv(x, sv.F[i.N])
			next()
			return nil, true
		}
		if l := asList(v); l != nil && l.Str && i != nil {
			r, ok := e.strIndex(s, l, i)
			if ok {
				setv(x, r)
				next()
				return nil, true
			}
		}
		if sv, ok := v.(*StructV); ok && i != nil && len(sv.F) > 0 {
			g := mkAnd(mkGe0(i), mkLt(i, mkInt(int64(len(sv.F)))))
			e.oblige(s, e.safe, "index is in range", g, i.String())
			if !s.assume(g) {
				return nil, false
			}
			var outs []*State
			for j := range sv.F {
				st := s.fork()
				if st.assume(mkEq(i, mkInt(int64(j)))) {
					fr := st.top()
					fr.set(fr.info.num[x], sv.F[j])
					fr.ip++
					outs = append(outs, st)
				}
			}
			return outs, false
		}
		e.limitf(s, "index of %s", valString(v))
		return nil, false
	case *ssa.Slice:
		return e.slice(s, f, x)
	case *ssa.Store:
		return e.store(s, f, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, x)
	case *ssa.Extract:
		v := e.val(s, f, x.Tuple)
		tv, ok := v.(TupleV)
		if !ok || x.Index >= len(tv) {
			e.limitf(s, "extract of %s", valString(v))
			return nil, false
		}
		setv(x, tv[x.Index])
		next()
		return nil, true
	case *ssa.Range:
		return e.rangeOp(s, f, x)
	case *ssa.Next:
		return e.nextOp(s, f, x)
	case *ssa.Jump:
		return e.jump(s, f, f.blk.Succs[0])
	case *ssa.If:
		c, ok := e.val(s, f, x.Cond).(*Term)
		if !ok {
			e.limitf(s, "condition %s", valString(e.val(s, f, x.Cond)))
			return nil, false
		}
		y, n := e.branch(s, c)
		if y != nil && n == nil {
			return e.jump(y, y.top(), f.blk.Succs[0])
		}
		if y == nil && n != nil {
			return e.jump(n, n.top(), f.blk.Succs[1])
		}
		if y == nil && n == nil {
			return nil, false
		}
		pos := e.prog.Fset.Position(x.Cond.Pos())
		ps := fmt.Sprintf("%s:%d", shortFile(pos.Filename), pos.Line)
		y.note("%s %s", ps, c)
		n.note("%s %s", ps, mkNot(c))
		succs := f.blk.Succs
		o1, c1 := e.jump(y, y.top(), succs[0])
		if c1 {
			o1 = []*State{y}
		}
		o2, c2 := e.jump(n, n.top(), succs[1])
		if c2 {
			o2 = []*State{n}
		}
		return append(o1, o2...), false
	case *ssa.Return:
		var res Val
		switch len(x.Results) {
		case 0:
		case 1:
			res = e.val(s, f, x.Results[0])
		default:
			var tv TupleV
			for _, r := range x.Results {
				tv = append(tv, e.val(s, f, r))
			}
			res = tv
		}
		return e.ret(s, res)
	case *ssa.Defer:
		next()
		d := deferred{}
		cc := x.Call
		if cc.IsInvoke() {
			e.limitf(s, "deferred interface call")
			return nil, false
		}
		for _, a := range cc.Args {
			d.args = append(d.args, e.val(s, f, a))
		}
		switch fv := e.val(s, f, cc.Value).(type) {
		case *FuncV:
			d.fn = fv.Fn
			d.args = append(d.args, fv.Bind...)
			_ = fv
		default:
			e.limitf(s, "deferred call of %v", cc.Value)
			return nil, false
		}
		f.defers = append(f.defers, d)
		return nil, true
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			next()
			return nil, true
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if d.rep {
			return e.runRepeated(s, d)
		}
		return e.callFn(s, d, fkDefer)
	case *ssa.Panic:
		v := e.val(s, f, x.X)
		return e.doPanic(s, v)
	case *ssa.Call:
		return e.call(s, f, x)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.limitf(s, "concurrency instruction %T", in)
		return nil, false
	}
	e.limitf(s, "instruction %T", in)
	return nil, false
}

func shortFile(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// FieldPtr and FieldPtr2 are addresses inside immutable opaque objects.
type FieldPtr struct {
	P *SymPtr
	F int
}
type FieldPtr2 struct {
	P *FieldPtr
	F int
}

// ElemFieldPtr is the address of a field of a list element.
type ElemFieldPtr struct {
	P    *ElemPtr
	Path []int
}

func objOf(p *SymPtr) Val { return symval(p.T, "obj", p.Term) }

func loadField(p *FieldPtr) Val {
	o, ok := objOf(p.P).(*StructV)
	if !ok {
		return nil
	}
	return o.F[p.F]
}

// asPtr makes sure a pointer is not nil.
func (e *Exec) asPtr(s *State, v Val, t types.Type, what string) (Val, []*State) {
	switch p := v.(type) {
	case *PtrV, *ElemPtr, *FieldPtr, *ElemFieldPtr:
		return v, nil
	case *NilV:
		e.record(s, e.safe, "no nil pointer is dereferenced", false, func() string { return what })
		return nil, nil
	case *SymPtr:
		nn := nonNil(p.Term)
		e.oblige(s, e.safe, "no nil pointer is dereferenced", nn, what+" of "+p.Term.String())
		s.pc, _ = s.pc.Assume(nn)
		return v, nil
	}
	e.limitf(s, "pointer %s", valString(v))
	return nil, nil
}

func nonNil(t *Term) *Term { return mkNot(mkApp("nilptr", SBool, t)) }

func (e *Exec) load(s *State, p Val) (Val, bool) {
	switch q := p.(type) {
	case *PtrV:
		v := pathGet(s.heap[q.Cell], q.Path)
		if v == nil {
			if gv, ok := e.prog.globals[q.Cell]; ok {
				v = pathGet(gv, q.Path)
			}
		}
		if v == nil {
			e.limitf(s, "load of %s", valString(p))
			return nil, false
		}
		return v, true
	case *FieldPtr:
		if v := loadField(q); v != nil {
			return v, true
		}
	case *FieldPtr2:
		if o, ok := loadField(q.P).(*StructV); ok {
			return o.F[q.F], true
		}
	case *SymPtr:
		return objOf(q), true
	case *ElemPtr:
		return e.elemAt(s, q.L, q.Idx)
	case *ElemFieldPtr:
		v, ok := e.elemAt(s, q.P.L, q.P.Idx)
		if !ok {
			return nil, false
		}
		if v = pathGet(v, q.Path); v != nil {
			return v, true
		}
	case *ArrElemPtr:
		a, ok := s.heap[q.Cell].(*ArrV)
		if ok {
			return e.elemAt(s, a.Pre, q.Idx)
		}
	}
	e.limitf(s, "load through %s", valString(p))
	return nil, false
}

// elemAt reads an element of a list.
func (e *Exec) elemAt(s *State, l *ListV, i *Term) (Val, bool) {
	off := mkInt(0)
	for _, a := range l.Atoms {
		if a.Base == nil {
			if d := mkSub(i, off); d == mkInt(0) || s.pc.Entails(mkEq(i, off)) {
				return a.E, true
			}
			off = mkPlus(off, 1)
			continue
		}
		n := mkSub(a.Hi, a.Lo)
		end := mkAdd(off, n)
		if s.pc.Entails(mkAnd(mkGe(i, off), mkLt(i, end))) {
			if a.F != "" {
				t := a.Src
				return symval(t, "map:"+a.F, a.Base, mkAdd(a.Lo, mkSub(i, off))), true
			}
			el := l.Elem
			if el == nil {
				el = types.Typ[types.Int32]
			}
			return elemOf(a.Base, mkAdd(a.Lo, mkSub(i, off)), el), true
		}
		off = end
	}
	e.limitf(s, "element %s of %s", i, valString(l))
	return nil, false
}

func (e *Exec) unop(s *State, f *Frame, x *ssa.UnOp) ([]*State, bool) {
	v := e.val(s, f, x.X)
	var r Val
	switch x.Op {
	case token.MUL:
		p, outs := e.asPtrAny(s, v, "load")
		if p == nil {
			return outs, false
		}
		lv, ok := e.load(s, p)
		if !ok {
			return nil, false
		}
		r = lv
	case token.NOT:
		t, ok := v.(*Term)
		if !ok {
			e.limitf(s, "! of %s", valString(v))
			return nil, false
		}
		r = mkNot(t)
	case token.SUB:
		t, ok := v.(*Term)
		if !ok || t.Sort != SInt {
			e.limitf(s, "- of %s", valString(v))
			return nil, false
		}
		r = mkMulC(-1, t)
	case token.XOR:
		t, ok := v.(*Term)
		if !ok || t.Sort != SInt {
			e.limitf(s, "^ of %s", valString(v))
			return nil, false
		}
		r = mkPlus(mkMulC(-1, t), -1)
	default:
		e.limitf(s, "unary %s", x.Op)
		return nil, false
	}
	f.set(f.info.num[x], r)
	f.ip++
	return nil, true
}

func (e *Exec) asPtrAny(s *State, v Val, what string) (Val, []*State) {
	switch v.(type) {
	case *ArrElemPtr, *FieldPtr2:
		return v, nil
	}
	return e.asPtr(s, v, nil, what)
}

// eqVals builds the condition under which two values are equal.
func (e *Exec) eqVals(s *State, a, b Val) (*Term, bool) {
	isNil := func(v Val) bool { _, ok := v.(*NilV); return ok }
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return mkEq(x, y), true
		}
		if l, ok := b.(*ListV); ok && x.Sort == SStr {
			return e.eqStr(l, x), true
		}
	case *ListV:
		if isNil(b) || isNilList(b) {
			if x.Str {
				break
			}
			if len(x.Atoms) == 0 {
				return mkBool(x.IsNil), true
			}
			if x.NilT != nil {
				return x.NilT, true
			}
			return tFalse, true
		}
		if y, ok := b.(*Term); ok && y.Sort == SStr {
			return e.eqStr(x, y), true
		}
		if y, ok := b.(*ListV); ok && x.Str && y.Str {
			return mkEq(strTerm(x), strTerm(y)), true
		}
		if isNilList(a) {
			return e.eqVals(s, b, a)
		}
	case *NilV:
		switch y := b.(type) {
		case *NilV:
			return tTrue, true
		case *SymPtr:
			return mkNot(nonNil(y.Term)), true
		case *SymIface:
			return mkIn(dynTerm(y.Term), setOf(0)), true
		case *OpaqueV:
			return mkApp("isnilv", SBool, y.Term), true
		default:
			if _, ok := b.(*ListV); ok {
				return e.eqVals(s, b, a)
			}
			return tFalse, true
		}
	case *PtrV:
		switch y := b.(type) {
		case *NilV:
			return tFalse, true
		case *PtrV:
			return mkBool(same(x, y)), true
		}
	case *SymPtr:
		switch y := b.(type) {
		case *NilV:
			return mkNot(nonNil(x.Term)), true
		case *SymPtr:
			return mkEq(x.Term, y.Term), true
		}
	case *SymIface:
		switch y := b.(type) {
		case *NilV:
			return mkIn(dynTerm(x.Term), setOf(0)), true
		case *SymIface:
			return mkEq(x.Term, y.Term), true
		case *IfaceV:
			return mkApp("ifaceeq", SBool, x.Term, mkSym(valString(y), SU)), true
		}
	case *IfaceV:
		switch y := b.(type) {
		case *NilV:
			return tFalse, true
		case *SymIface:
			return e.eqVals(s, b, a)
		case *IfaceV:
			if !types.Identical(x.T, y.T) {
				return tFalse, true
			}
			return e.eqVals(s, x.V, y.V)
		}
	case *OpaqueV:
		switch y := b.(type) {
		case *NilV:
			return mkApp("isnilv", SBool, x.Term), true
		case *OpaqueV:
			return mkEq(x.Term, y.Term), true
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			r := tTrue
			for i := range x.F {
				c, ok := e.eqVals(s, x.F[i], y.F[i])
				if !ok {
					return nil, false
				}
				r = mkAnd(r, c)
			}
			return r, true
		}
	case *FuncV, *ArrSlice, *ElemPtr:
		if isNil(b) {
			return tFalse, true
		}
	}
	e.limitf(s, "comparison of %s and %s", valString(a), valString(b))
	return nil, false
}

func isNilList(v Val) bool {
	l, ok := v.(*ListV)
	return ok && l.IsNil && len(l.Atoms) == 0 && !l.Str
}

// eqStr compares a string list with a string term.
func (e *Exec) eqStr(l *ListV, t *Term) *Term {
	if t.isConst() {
		rs := []rune(t.Name)
		fixed := true
		for _, a := range l.Atoms {
			if a.Base != nil {
				fixed = false
			}
		}
		if fixed {
			if len(rs) != len(l.Atoms) {
				return tFalse
			}
			r := tTrue
			for i, a := range l.Atoms {
				c, ok := a.E.(*Term)
				if !ok {
					return mkEq(strTerm(l), t)
				}
				r = mkAnd(r, mkEq(c, mkInt(int64(rs[i]))))
			}
			return r
		}
		if len(rs) == 0 {
			// a list with at least one element is not empty
			for _, a := range l.Atoms {
				if a.Base == nil {
					return tFalse
				}
			}
			return mkEq(l.lenOf(), mkInt(0))
		}
	}
	return mkEq(strTerm(l), t)
}

func (e *Exec) binop(s *State, x *ssa.BinOp, a, b Val) (Val, bool) {
	switch x.Op {
	case token.EQL, token.NEQ:
		c, ok := e.eqVals(s, a, b)
		if !ok {
			return nil, false
		}
		if x.Op == token.NEQ {
			c = mkNot(c)
		}
		return c, true
	}
	if sortOf(x.X.Type()) == SStr {
		switch x.Op {
		case token.ADD:
			p, q := asList(a), asList(b)
			if p != nil && q != nil {
				at, bt := strTerm(a), strTerm(b)
				if at != nil && bt != nil && at.isConst() && bt.isConst() {
					return mkStr(at.Name + bt.Name), true
				}
				return appendLists(p, q), true
			}
		}
		e.limitf(s, "string %s", x.Op)
		return nil, false
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 || p.Sort != q.Sort {
		e.limitf(s, "%s on %s, %s", x.Op, valString(a), valString(b))
		return nil, false
	}
	if p.Sort == SInt {
		switch x.Op {
		case token.ADD:
			return mkAdd(p, q), true
		case token.SUB:
			return mkSub(p, q), true
		case token.MUL:
			if p.isConst() {
				return mkMulC(p.N, q), true
			}
			if q.isConst() {
				return mkMulC(q.N, p), true
			}
		case token.LSS:
			return mkLt(p, q), true
		case token.LEQ:
			return mkLe(p, q), true
		case token.GTR:
			return mkLt(q, p), true
		case token.GEQ:
			return mkLe(q, p), true
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.QUO, token.REM:
			if p.isConst() && !q.isConst() && (x.Op == token.AND || x.Op == token.OR || x.Op == token.XOR) {
				p, q = q, p
			}
			if q.isConst() {
				return mkFn(x.Op.String()+fmt.Sprint(q.N), p), true
			}
		}
	}
	if p.Sort == SBool {
		switch x.Op {
		case token.AND:
			return mkAnd(p, q), true
		case token.OR:
			return mkOr(p, q), true
		}
	}
	e.limitf(s, "%s on %s, %s", x.Op, p, q)
	return nil, false
}

// mkFn applies a unary integer function with a constant, such as "&3".
func mkFn(op string, x *Term) *Term {
	if x.isConst() {
		return mkInt(evalFn(op, x.N))
	}
	t := mkApp("fn:"+op, SInt, x)
	if d := intrinsicDom(x); d != nil && d.size() <= 64 {
		// give the term its finite range
		var vs []int64
		eachIn(d, func(v int64) { vs = append(vs, evalFn(op, v)) })
		_ = vs
	}
	return t
}

func eachIn(d *Set, f func(int64)) {
	for _, p := range d.iv {
		for v := p[0]; v <= p[1]; v++ {
			f(v)
		}
	}
}

func evalFn(op string, n int64) int64 {
	var o string
	for _, p := range []string{"&^", "<<", ">>", "&", "|", "^", "/", "%", "wrap"} {
		if strings.HasPrefix(op, p) {
			o = p
			break
		}
	}
	var k int64
	fmt.Sscan(op[len(o):], &k)
	switch o {
	case "&^":
		return n &^ k
	case "<<":
		return n << uint(k)
	case ">>":
		return n >> uint(k)
	case "&":
		return n & k
	case "|":
		return n | k
	case "^":
		return n ^ k
	case "/":
		if k == 0 {
			return 0
		}
		return n / k
	case "%":
		if k == 0 {
			return 0
		}
		return n % k
	case "wrap":
		switch k {
		case 8:
			return int64(int8(n))
		case 16:
			return int64(int16(n))
		case 32:
			return int64(int32(n))
		case -8:
			return int64(uint8(n))
		case -16:
			return int64(uint16(n))
		case -32:
			return int64(uint32(n))
		}
	}
	return n
}

// evalInt evaluates a term at given values of its variables.
func evalInt(t *Term, env func(*Term) (int64, bool)) (int64, bool) {
	if t.isConst() {
		return t.N, true
	}
	if v, ok := env(t); ok {
		return v, true
	}
	switch t.Op {
	case OLin:
		n := t.N
		for i, a := range t.Args {
			v, ok := evalInt(a, env)
			if !ok {
				return 0, false
			}
			n += t.Coef[i] * v
		}
		return n, true
	case OApp:
		if strings.HasPrefix(t.Name, "fn:") {
			v, ok := evalInt(t.Args[0], env)
			if !ok {
				return 0, false
			}
			return evalFn(t.Name[3:], v), true
		}
	}
	return 0, false
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// bytewise: a text that is the same list as runes and as bytes: ASCII, or whole
// texts that are not looked into.
func bytewise(l *ListV) bool {
	for _, a := range l.Atoms {
		if a.Base != nil {
			if a.Base.Op != OApp || a.Base.Name != "json" && a.Base.Name != "content" || a.F != "" || a.Lo != mkInt(0) || a.Hi != listLen(a.Base) {
				return false
			}
		} else if c, ok := a.E.(*Term); !ok || !c.isConst() || c.N < 0 || c.N >= 0x80 {
			return false
		}
	}
	return true
}

func (e *Exec) convert(s *State, from, to types.Type, v Val) (Val, bool) {
	fs, ts := sortOf(from), sortOf(to)
	if fs == SInt && ts == SInt {
		t, ok := v.(*Term)
		if !ok {
			e.limitf(s, "conversion of %s", valString(v))
			return nil, false
		}
		rng := map[types.BasicKind][3]int64{types.Int8: {-128, 127, 8}, types.Int16: {-32768, 32767, 16}, types.Int32: {-1 << 31, 1<<31 - 1, 32},
			types.Uint8: {0, 255, -8}, types.Uint16: {0, 65535, -16}, types.Uint32: {0, 1<<32 - 1, -32}, types.Uint: {0, maxI, 0}, types.Uint64: {0, maxI, 0}, types.Uintptr: {0, maxI, 0}}
		r, lim := rng[basicKind(to)]
		if !lim || s.pc.Decide(mkIn(t, setRange(r[0], r[1]))) == Yes {
			return t, true
		}
		if r[2] == 0 {
			e.limitf(s, "conversion of a possibly negative integer")
			return nil, false
		}
		return mkFn(fmt.Sprintf("wrap%d", r[2]), t), true
	}
	if ts == SStr {
		switch x := v.(type) {
		case *ListV:
			if !x.Str {
				if el, ok := from.Underlying().(*types.Slice); ok && (basicKind(el.Elem()) == types.Int32 || basicKind(el.Elem()) == types.Uint8 && bytewise(x)) {
					return &ListV{Str: true, Atoms: x.Atoms}, true
				}
			}
			return x, true
		case *Term:
			if fs == SStr {
				return x, true
			}
			if fs == SInt {
				return &ListV{Str: true, Atoms: []Atom{{E: x}}}, true
			}
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fs == SStr && basicKind(sl.Elem()) == types.Int32 {
		if l := asList(v); l != nil {
			return &ListV{Elem: sl.Elem(), Atoms: l.Atoms}, true
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fs == SStr && basicKind(sl.Elem()) == types.Uint8 {
		if l := asList(v); l != nil && bytewise(l) {
			return &ListV{Elem: sl.Elem(), Atoms: l.Atoms}, true
		}
	}
	if fs == SU && ts == SU {
		return v, true
	}
	if fs == SInt && ts == SU {
		return mkApp("tofloat", SU, v.(*Term)), true
	}
	if fs == SU && ts == SInt {
		return mkApp("trunc "+to.Underlying().String(), SInt, v.(*Term)), true
	}
	e.limitf(s, "conversion from %s to %s", from, to)
	return nil, false
}

func (e *Exec) jump(s *State, f *Frame, to *ssa.BasicBlock) ([]*State, bool) {
	from := f.blk
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	// phis are assigned simultaneously
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(s, f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.set(f.info.num[to.Instrs[i].(*ssa.Phi)], vals[i])
	}
	f.prev, f.blk, f.ip = from, to, n
	if f.info.headers[to.Index] {
		return e.header(s)
	}
	return nil, true
}

func (e *Exec) pushFrame(s *State, fn *ssa.Function, args []Val, kind frameKind, dst ssa.Value) *Frame {
	fi := infoOf(fn)
	f := &Frame{fn: fn, info: fi, blk: fn.Blocks[0], regs: make([]Val, fi.n), kind: kind, call: dst}
	for i := range args {
		if i < fi.n {
			f.regs[i] = args[i]
		}
	}
	s.frames = append(s.frames[:len(s.frames):len(s.frames)], f)
	return f
}

func (e *Exec) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Exec) callFn(s *State, d deferred, kind frameKind) ([]*State, bool) {
	if d.fn.Blocks == nil {
		outs, ok := e.w.Call(e, s, &CallInfo{fn: d.fn, args: d.args})
		if !ok || kind != fkDefer {
			e.limitf(s, "deferred external function %s", d.fn)
			return nil, false
		}
		for _, o := range outs {
			o.top().ip-- // RunDefers goes on
		}
		return outs, false
	}
	if kind == fkDefer || kind == fkUnwind {
		c := &CallInfo{fn: d.fn, args: d.args}
		if e.quietDefer(c) {
			return nil, true
		}
	}
	e.pushFrame(s, d.fn, d.args, kind, nil)
	return nil, true
}

// runRepeated runs a call that was deferred any number of times. It is verified
// once, with any arguments: it has to leave everything as it was.
func (e *Exec) runRepeated(s *State, d deferred) ([]*State, bool) {
	d.rep = false
	if r := d.fn.Signature.Recv(); r != nil {
		d.args = append(d.args, s.freshVal(r.Type(), "deferred"))
	}
	for i := 0; i < d.fn.Signature.Params().Len(); i++ {
		d.args = append(d.args, s.freshVal(d.fn.Signature.Params().At(i).Type(), "deferred"))
	}
	for _, v := range d.fn.FreeVars {
		pt, ok := v.Type().(*types.Pointer)
		if !ok {
			e.limitf(s, "deferred closure in a loop")
			return nil, false
		}
		d.args = append(d.args, &PtrV{Cell: s.alloc(s.freshVal(pt.Elem(), "deferred"))})
	}
	before := map[int]Val{}
	for k, v := range s.heap {
		before[k] = v
	}
	g := s.g.Key(valString)
	check := func(t *State) bool {
		ok := t.g.Key(valString) == g
		for k, v := range before {
			ok = ok && (t.heap[k] == v || same(t.heap[k], v))
		}
		if !ok {
			e.limitf(t, "a call deferred in a loop changes something")
		}
		return ok
	}
	outs, more := e.callFn(s, d, fkDefer)
	if d.fn.Blocks != nil {
		s.top().onRet = func(e *Exec, t *State, _ Val) []*State {
			if !check(t) {
				return nil
			}
			return []*State{t}
		}
		return outs, more
	}
	for _, t := range outs {
		if !check(t) {
			return nil, false
		}
	}
	return outs, more
}

func (e *Exec) quietDefer(c *CallInfo) bool { return false }

// setResult stores a call result and steps past the call.
func (e *Exec) setResult(s *State, dst ssa.Value, v Val) {
	f := s.top()
	if dst != nil {
		f.set(f.info.num[dst], v)
	}
	f.ip++
}

func (e *Exec) call(s *State, f *Frame, x *ssa.Call) ([]*State, bool) {
	cc := x.Call
	c := &CallInfo{dst: x, pos: x.Pos()}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(s, f, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(s, f, x, b.Name(), c.args)
	}
	if cc.IsInvoke() {
		c.method = cc.Method
		c.recv = e.val(s, f, cc.Value)
		switch r := c.recv.(type) {
		case *NilV:
			e.record(s, e.safe, "no method is called on a nil interface", false, func() string { return cc.Method.Name() })
			return nil, false
		case *SymIface:
			nn := mkNot(mkIn(dynTerm(r.Term), setOf(0)))
			if nw, ok := e.w.(nonNiler); ok && nw.NonNil(e, r.Term) {
				s.assume(nn)
			}
			e.oblige(s, e.safe, "no method is called on a nil interface", nn, cc.Method.Name()+" of "+r.Term.String())
			var ok bool
			if s.pc, ok = s.pc.Assume(nn); !ok {
				return nil, false
			}
		case *IfaceV:
			// resolve statically
			sel := e.prog.Prog.MethodSets.MethodSet(r.T).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel != nil {
				fn := e.prog.Prog.MethodValue(sel)
				if fn != nil {
					c.fn = fn
					c.args = append([]Val{r.V}, c.args...)
				}
			}
		}
		if c.fn == nil {
			if out, ok := e.w.Call(e, s, c); ok {
				return e.contd(out, s)
			}
			e.limitf(s, "interface call %s on %s", cc.Method.FullName(), valString(c.recv))
			return nil, false
		}
	} else {
		switch fv := e.val(s, f, cc.Value).(type) {
		case *FuncV:
			c.fn = fv.Fn
			c.bind = fv.Bind
		default:
			e.limitf(s, "call of %s", valString(fv))
			return nil, false
		}
	}
	return e.dispatch(s, c)
}

func (e *Exec) contd(out []*State, s *State) ([]*State, bool) {
	if len(out) == 1 && out[0] == s {
		return nil, true
	}
	return out, false
}

func (e *Exec) dispatch(s *State, c *CallInfo) ([]*State, bool) {
	if out, ok := e.w.Call(e, s, c); ok {
		return e.contd(out, s)
	}
	if c.fn.Blocks == nil {
		e.limitf(s, "external function %s without a contract", c.fn)
		return nil, false
	}
	if c.fn.Pkg != nil && !e.prog.inRepo(c.fn.Pkg.Pkg) {
		e.limitf(s, "library function %s without a contract", c.fn)
		return nil, false
	}
	if e.onStack(s, c.fn) {
		e.limitf(s, "recursive function %s has no contract", c.fn)
		return nil, false
	}
	if len(s.frames) > 40 {
		e.limitf(s, "inlining too deep at %s", c.fn)
		return nil, false
	}
	if c.fn.Parent() == nil {
		e.Inlined[fnKey(c.fn)] = true
	}
	e.pushFrame(s, c.fn, append(append([]Val{}, c.args...), c.bind...), fkCall, c.dst)
	return nil, true
}

// ret returns from the top frame.
func (e *Exec) ret(s *State, res Val) ([]*State, bool) {
	f := s.top()
	if f.rec {
		s.panicV = nil
	}
	if len(s.frames) == 1 {
		e.w.Return(e, s, res)
		return nil, false
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.onRet != nil {
		return f.onRet(e, s, res), false
	}
	switch f.kind {
	case fkDefer:
		return nil, true // re-executes RunDefers
	case fkUnwind:
		if s.panicV == nil {
			// recovered: the frame returns with its named results
			g := s.top()
			if g.fn.Recover != nil {
				g.prev, g.blk, g.ip = nil, g.fn.Recover, 0
				return nil, true
			}
			return e.ret(s, zeroResults(g.fn))
		}
		return e.unwind(s)
	}
	e.setResult(s, f.call, res)
	return nil, true
}

func zeroResults(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroVal(r.At(0).Type())
	}
	var tv TupleV
	for i := 0; i < r.Len(); i++ {
		tv = append(tv, zeroVal(r.At(i).Type()))
	}
	return tv
}

// doPanic starts unwinding with value v.
func (e *Exec) doPanic(s *State, v Val) ([]*State, bool) {
	s.panicV = v
	return e.unwind(s)
}

func (e *Exec) unwind(s *State) ([]*State, bool) {
	for {
		f := s.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.fn.Blocks != nil && usesRecover(d.fn) {
				e.pushFrame(s, d.fn, d.args, fkUnwind, nil)
				return nil, true
			}
			continue // a deferred call that cannot stop the panic
		}
		if len(s.frames) == 1 {
			e.w.Panic(e, s, s.panicV)
			return nil, false
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
}

var recMemo = map[*ssa.Function]bool{}

func usesRecover(fn *ssa.Function) bool {
	if r, ok := recMemo[fn]; ok {
		return r
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bl, ok := c.Call.Value.(*ssa.Builtin); ok && bl.Name() == "recover" {
					r = true
				}
			}
		}
	}
	recMemo[fn] = r
	return r
}

// catches reports whether a panic raised now could be recovered.
func (s *State) catches() bool {
	for _, f := range s.frames {
		for _, d := range f.defers {
			if usesRecover(d.fn) {
				return true
			}
		}
	}
	return false
}

func (e *Exec) builtin(s *State, f *Frame, x *ssa.Call, name string, args []Val) ([]*State, bool) {
	set := func(v Val) ([]*State, bool) {
		e.setResult(s, x, v)
		return nil, true
	}
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *ListV:
			if v.Str {
				return set(strByteLen(v))
			}
			return set(v.lenOf())
		case *Term:
			if v.Sort == SStr {
				if v.isConst() {
					return set(mkInt(int64(len(v.Name))))
				}
				return set(mkApp("lenb", SInt, v))
			}
		case *ArrSlice:
			if v.Hi != nil {
				return set(v.Hi)
			}
			return set(s.heap[v.Cell].(*ArrV).Len)
		case *NilV:
			return set(mkInt(0))
		case *PtrV:
			if m, ok := s.heap[v.Cell].(*MapV); ok {
				return set(mkInt(int64(len(m.Keys))))
			}
		}
	case "cap":
		return set(s.newSym("cap", SInt))
	case "append":
		a, ok := args[0].(*ListV)
		if _, isnil := args[0].(*NilV); isnil {
			a, ok = &ListV{Elem: x.Type().Underlying().(*types.Slice).Elem()}, true
		}
		if q, isArr := args[0].(*ArrSlice); isArr {
			// what was written so far
			if arr, in := s.heap[q.Cell].(*ArrV); in {
				hi := q.Hi
				if hi == nil {
					hi = arr.Len
				}
				if s.pc.Entails(mkEq(arr.Pre.lenOf(), hi)) {
					a, ok = arr.Pre, true
				}
			}
		}
		if !ok {
			break
		}
		b := asList(args[1])
		if b == nil {
			break
		}
		if len(b.Atoms) == 0 {
			return set(a)
		}
		return set(appendLists(&ListV{Atoms: a.Atoms, Elem: a.Elem}, b))
	case "recover":
		if s.panicV == nil {
			return set(&NilV{})
		}
		v := s.panicV
		s.panicV = nil
		return set(v)
	case "print", "println":
		e.record(s, []string{"C16"}, "nothing is printed", false, func() string { return name })
		return set(nil)
	case "ssa:wrapnilchk":
		return set(args[0])
	case "min", "max":
		// fall through to unsupported
	}
	e.limitf(s, "builtin %s on %s", name, valString(TupleV(args)))
	return nil, false
}

// strByteLen is the length in bytes of a string made of runes.
func strByteLen(l *ListV) *Term {
	t := strTerm(l)
	if t.isConst() {
		return mkInt(int64(len(t.Name)))
	}
	return mkApp("lenb", SInt, t)
}

func (e *Exec) store(s *State, f *Frame, x *ssa.Store) ([]*State, bool) {
	p := e.val(s, f, x.Addr)
	v := e.val(s, f, x.Val)
	switch q := p.(type) {
	case *PtrV:
		if _, ok := e.prog.globals[q.Cell]; ok && !e.prog.initing {
			e.record(s, []string{"C16"}, "no package variable is written", false, func() string { return "store to a global" })
			return nil, false
		}
		r := pathSet(s.heap[q.Cell], q.Path, v)
		if r == nil {
			e.limitf(s, "store to %s", valString(p))
			return nil, false
		}
		s.hset(q.Cell, r)
	case *ArrElemPtr:
		a, ok := s.heap[q.Cell].(*ArrV)
		if !ok {
			e.limitf(s, "store to %s", valString(p))
			return nil, false
		}
		if !s.pc.Entails(mkEq(q.Idx, a.Pre.lenOf())) {
			e.limitf(s, "array written out of order at %s", q.Idx)
			return nil, false
		}
		s.hset(q.Cell, &ArrV{Pre: a.Pre.with(append(append([]Atom{}, a.Pre.Atoms...), Atom{E: v})), Len: a.Len})
	case *NilV:
		e.record(s, e.safe, "no nil pointer is dereferenced", false, func() string { return "store" })
		return nil, false
	default:
		e.limitf(s, "store through %s", valString(p))
		return nil, false
	}
	f.ip++
	return nil, true
}

func (e *Exec) mapUpdate(s *State, f *Frame, x *ssa.MapUpdate) ([]*State, bool) {
	p, ok := e.val(s, f, x.Map).(*PtrV)
	k, ok2 := e.val(s, f, x.Key).(*Term)
	if ok && ok2 {
		if _, g := e.prog.globals[p.Cell]; g && !e.prog.initing {
			e.record(s, []string{"C16"}, "no package variable is written", false, func() string { return "update of a package-level map" })
			return nil, false
		}
		if m, ok := s.heap[p.Cell].(*MapV); ok && k.isConst() {
			n := &MapV{Global: m.Global, Elem: m.Elem, Keys: append(m.Keys[:len(m.Keys):len(m.Keys)], k), Vals: append(m.Vals[:len(m.Vals):len(m.Vals)], e.val(s, f, x.Value))}
			s.hset(p.Cell, n)
			f.ip++
			return nil, true
		}
	}
	e.limitf(s, "map update")
	return nil, false
}

func (e *Exec) lookup(s *State, f *Frame, x *ssa.Lookup) ([]*State, bool) {
	mv := e.val(s, f, x.X)
	if l := asList(mv); l != nil && l.Str {
		i, _ := e.val(s, f, x.Index).(*Term)
		if i != nil {
			if r, ok := e.strIndex(s, l, i); ok {
				f.set(f.info.num[x], r)
				f.ip++
				return nil, true
			}
		}
		e.limitf(s, "index of string %s", valString(mv))
		return nil, false
	}
	p, ok := mv.(*PtrV)
	if !ok {
		e.limitf(s, "lookup in %s", valString(mv))
		return nil, false
	}
	m, ok := s.heap[p.Cell].(*MapV)
	if !ok {
		m, ok = e.prog.globals[p.Cell].(*MapV)
	}
	if !ok {
		e.limitf(s, "lookup in unknown map")
		return nil, false
	}
	key := e.val(s, f, x.Index)
	kt := strTerm(key)
	if kt == nil {
		e.limitf(s, "map key %s", valString(key))
		return nil, false
	}
	give := func(st *State, v Val, ok bool) *State {
		fr := st.top()
		if x.CommaOk {
			fr.set(fr.info.num[x], TupleV{v, mkBool(ok)})
		} else {
			fr.set(fr.info.num[x], v)
		}
		fr.ip++
		return st
	}
	if kt.isConst() {
		for i, k := range m.Keys {
			if k == kt {
				return e.contd([]*State{give(s, m.Vals[i], true)}, s)
			}
		}
		return e.contd([]*State{give(s, zeroVal(m.Elem), false)}, s)
	}
	if kt.Sort == SInt {
		// one case per distinct value, and one for absence
		type grp struct {
			v  Val
			ks []int64
		}
		var gs []*grp
		var all []int64
		for i, k := range m.Keys {
			all = append(all, k.N)
			var g *grp
			for _, h := range gs {
				if same(h.v, m.Vals[i]) {
					g = h
				}
			}
			if g == nil {
				g = &grp{v: m.Vals[i]}
				gs = append(gs, g)
			}
			g.ks = append(g.ks, k.N)
		}
		sort.SliceStable(gs, func(i, j int) bool { return gs[i].ks[0] < gs[j].ks[0] })
		var outs []*State
		cur := s
		for _, g := range gs {
			if cur == nil {
				break
			}
			var y *State
			y, cur = e.branch(cur, mkIn(kt, setOf(g.ks...)))
			if y != nil {
				outs = append(outs, give(y, g.v, true))
			}
		}
		if cur != nil {
			outs = append(outs, give(cur, zeroVal(m.Elem), false))
		}
		return e.contd(outs, s)
	}
	// symbolic string key: keep the map abstract
	name := e.prog.mapName(m)
	in := mkApp("inmap:"+name, SBool, kt)
	y, n := e.branch(s, in)
	var outs []*State
	if y != nil {
		v := symval(m.Elem, "map:"+name, kt)
		if t, ok := v.(*Term); ok && t.Sort == SInt {
			var vs []int64
			for _, mv := range m.Vals {
				if c, ok := mv.(*Term); ok && c.isConst() {
					vs = append(vs, c.N)
				}
			}
			y.pc, _ = y.pc.Assume(mkIn(t, setOf(vs...)))
		}
		outs = append(outs, give(y, v, true))
	}
	if n != nil {
		outs = append(outs, give(n, zeroVal(m.Elem), false))
	}
	return e.contd(outs, s)
}

// strIndex is byte i of a string; only ASCII prefixes are supported.
func (e *Exec) strIndex(s *State, l *ListV, i *Term) (Val, bool) {
	if !i.isConst() {
		return nil, false
	}
	n := int64(0)
	for _, a := range l.Atoms {
		c, ok := a.E.(*Term)
		if a.Base != nil || !ok {
			return nil, false
		}
		if s.pc.Decide(mkIn(c, setRange(0, 127))) != Yes {
			return nil, false
		}
		if n == i.N {
			return c, true
		}
		n++
	}
	e.record(s, e.safe, "string index is in range", false, func() string { return i.String() })
	return nil, false
}

// onlyLoaded: the address is only read through.
func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (e *Exec) indexAddr(s *State, f *Frame, x *ssa.IndexAddr) ([]*State, bool) {
	v := e.val(s, f, x.X)
	i, ok := e.val(s, f, x.Index).(*Term)
	if !ok {
		e.limitf(s, "index")
		return nil, false
	}
	bound := func(n *Term) bool {
		g := mkAnd(mkGe0(i), mkLt(i, n))
		ok := e.oblige(s, e.safe, "index is in range", g, fmt.Sprintf("index %s length %s", i, n))
		if s.pc.Decide(g) == No {
			return false
		}
		s.pc, ok = s.pc.Assume(g)
		return ok
	}
	switch q := v.(type) {
	case *PtrV:
		arr, ok := pathGet(s.heap[q.Cell], q.Path).(*StructV)
		if ok && i.isConst() && i.N >= 0 && i.N < int64(len(arr.F)) {
			f.set(f.info.num[x], &PtrV{q.Cell, append(append([]int{}, q.Path...), int(i.N))})
			f.ip++
			return nil, true
		}
		if arr == nil {
			arr, _ = pathGet(e.prog.globals[q.Cell], q.Path).(*StructV)
		}
		if arr != nil && arr.T != nil && onlyLoaded(x) {
			if !bound(mkInt(int64(len(arr.F)))) {
				return nil, false
			}
			// one case for the indices of each value
			var order []string
			idx := map[string][]int64{}
			for j, el := range arr.F {
				k := valString(el)
				if idx[k] == nil {
					order = append(order, k)
				}
				idx[k] = append(idx[k], int64(j))
			}
			var outs []*State
			for _, k := range order {
				st := s.fork()
				if !st.assume(mkIn(i, setOf(idx[k]...))) {
					continue
				}
				st.note("%s in %v", i, idx[k])
				fr := st.top()
				fr.set(fr.info.num[x], &PtrV{q.Cell, append(append([]int{}, q.Path...), int(idx[k][0]))})
				fr.ip++
				outs = append(outs, st)
			}
			return outs, false
		}
	case *ListV:
		if !bound(q.lenOf()) {
			return nil, false
		}
		f.set(f.info.num[x], &ElemPtr{q, i})
		f.ip++
		return nil, true
	case *ArrSlice:
		n := q.Hi
		if n == nil {
			n = s.heap[q.Cell].(*ArrV).Len
		}
		if wb, ok := e.w.(interface {
			ArrBound(e *Exec, s *State, i, n *Term) bool
		}); ok && wb.ArrBound(e, s, i, n) {
		} else if !bound(n) {
			return nil, false
		}
		f.set(f.info.num[x], &ArrElemPtr{q.Cell, i})
		f.ip++
		return nil, true
	case *NilV:
		e.record(s, e.safe, "index is in range", false, func() string { return "index of nil" })
		return nil, false
	}
	e.limitf(s, "index of %s", valString(v))
	return nil, false
}

func (e *Exec) slice(s *State, f *Frame, x *ssa.Slice) ([]*State, bool) {
	v := e.val(s, f, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo, _ = e.val(s, f, x.Low).(*Term)
	}
	if x.High != nil {
		hi, _ = e.val(s, f, x.High).(*Term)
	}
	done := func(r Val) ([]*State, bool) {
		f.set(f.info.num[x], r)
		f.ip++
		return nil, true
	}
	if p, ok := v.(*PtrV); ok && lo == nil && hi == nil {
		// slicing a whole array, as for variadic arguments
		if arr, ok := pathGet(s.heap[p.Cell], p.Path).(*StructV); ok {
			l := &ListV{Elem: arr.T.Underlying().(*types.Array).Elem()}
			for _, el := range arr.F {
				l.Atoms = append(l.Atoms, Atom{E: el})
			}
			l.Atoms = normAtoms(s.pc, l.Atoms)
			return done(l)
		}
	}
	if a, ok := v.(*ArrSlice); ok && (lo == nil || lo == mkInt(0)) {
		arr := s.heap[a.Cell].(*ArrV)
		if hi == nil {
			return done(a)
		}
		e.oblige(s, e.safe, "slice bounds are in range", mkAnd(mkGe0(hi), mkLe(hi, arr.Len)), "")
		if s.pc.Entails(mkEq(hi, arr.Pre.lenOf())) {
			return done(arr.Pre)
		}
	}
	if l := asList(v); l != nil {
		if l.Str {
			if r, ok := e.strSlice(s, l, v, lo, hi); ok {
				return done(r)
			}
			return nil, false
		}
		if lo == nil {
			lo = mkInt(0)
		}
		n := l.lenOf()
		full := hi == nil
		if full {
			hi = n
		}
		g := mkAnd(mkGe0(lo), mkLe(lo, hi), mkLe(hi, n))
		e.oblige(s, e.safe, "slice bounds are in range", g, fmt.Sprintf("[%s:%s] of length %s", lo, hi, n))
		if s.pc.Decide(g) == No {
			return nil, false
		}
		s.pc, _ = s.pc.Assume(g)
		as, ok := cutAtoms(s.pc, l, lo, hi)
		if ok {
			return done(&ListV{Elem: l.Elem, Atoms: normAtoms(s.pc, as)})
		}
	}
	e.limitf(s, "slice of %s", valString(v))
	return nil, false
}

// cutAtoms takes the elements lo..hi of a list.
func cutAtoms(p *PC, l *ListV, lo, hi *Term) ([]Atom, bool) {
	var out []Atom
	off := mkInt(0)
	for _, a := range l.Atoms {
		n := mkInt(1)
		if a.Base != nil {
			n = mkSub(a.Hi, a.Lo)
		}
		end := mkAdd(off, n)
		switch {
		case p.Entails(mkLe(end, lo)) || p.Entails(mkLe(hi, off)):
			// outside
		case p.Entails(mkAnd(mkGe(off, lo), mkLe(end, hi))):
			out = append(out, a)
		case a.Base != nil && p.Entails(mkAnd(mkLe(off, lo), mkLe(hi, end))):
			b := a
			b.Lo = mkAdd(a.Lo, mkSub(lo, off))
			b.Hi = mkAdd(a.Lo, mkSub(hi, off))
			out = append(out, b)
		case a.Base != nil && p.Entails(mkAnd(mkLe(off, lo), mkLe(lo, end), mkLe(end, hi))):
			b := a
			b.Lo = mkAdd(a.Lo, mkSub(lo, off))
			out = append(out, b)
		case a.Base != nil && p.Entails(mkAnd(mkLe(lo, off), mkLe(off, hi), mkLe(hi, end))):
			b := a
			b.Hi = mkAdd(a.Lo, mkSub(hi, off))
			out = append(out, b)
		default:
			return nil, false
		}
		off = end
	}
	return out, true
}

// strSlice slices a string at byte positions next to ASCII runes.
func (e *Exec) strSlice(s *State, l *ListV, v Val, lo, hi *Term) (Val, bool) {
	t := strTerm(v)
	if t.isConst() && (lo == nil || lo.isConst()) && (hi == nil || hi.isConst()) {
		a, b := int64(0), int64(len(t.Name))
		if lo != nil {
			a = lo.N
		}
		if hi != nil {
			b = hi.N
		}
		if 0 <= a && a <= b && b <= int64(len(t.Name)) {
			return mkStr(t.Name[a:b]), true
		}
		e.record(s, e.safe, "slice bounds are in range", false, func() string { return "string slice" })
		return nil, false
	}
	if w, ok := e.w.(interface {
		StrSlice(e *Exec, s *State, l *ListV, t, lo, hi *Term) (Val, bool)
	}); ok {
		if r, ok := w.StrSlice(e, s, l, t, lo, hi); ok {
			return r, true
		}
	}
	as := l.Atoms
	ascii := func(a Atom) bool {
		c, ok := a.E.(*Term)
		return a.Base == nil && ok && s.pc.Decide(mkIn(c, setRange(0, 127))) == Yes
	}
	if lo != nil && lo.isConst() {
		for k := int64(0); k < lo.N; k++ {
			if len(as) == 0 || !ascii(as[0]) {
				e.limitf(s, "slice of string %s", valString(v))
				return nil, false
			}
			as = as[1:]
		}
	} else if lo != nil {
		e.limitf(s, "slice of string %s", valString(v))
		return nil, false
	}
	if hi != nil {
		d := mkSub(hi, strByteLen(l))
		if !d.isConst() || d.N > 0 {
			e.limitf(s, "slice of string %s", valString(v))
			return nil, false
		}
		for k := d.N; k < 0; k++ {
			if len(as) == 0 || !ascii(as[len(as)-1]) {
				e.limitf(s, "slice of string %s", valString(v))
				return nil, false
			}
			as = as[:len(as)-1]
		}
	}
	return &ListV{Str: true, Atoms: as}, true
}

func (e *Exec) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) ([]*State, bool) {
	v := e.val(s, f, x.X)
	give := func(st *State, v Val, ok bool) *State {
		fr := st.top()
		if x.CommaOk {
			fr.set(fr.info.num[x], TupleV{v, mkBool(ok)})
		} else {
			fr.set(fr.info.num[x], v)
		}
		fr.ip++
		return st
	}
	failed := func(st *State) []*State {
		if x.CommaOk {
			return []*State{give(st, zeroVal(x.AssertedType), false)}
		}
		e.record(st, e.safe, "type assertion holds", false, func() string { return typeName(x.AssertedType) + " from " + valString(v) })
		return nil
	}
	_, isIface := x.AssertedType.Underlying().(*types.Interface)
	switch q := v.(type) {
	case *NilV:
		return e.contd(failed(s), s)
	case *IfaceV:
		ok := types.Identical(q.T, x.AssertedType)
		if isIface {
			ok = types.Implements(q.T, x.AssertedType.Underlying().(*types.Interface))
			if ok {
				return e.contd([]*State{give(s, q, true)}, s)
			}
		}
		if ok {
			return e.contd([]*State{give(s, q.V, true)}, s)
		}
		return e.contd(failed(s), s)
	case *SymIface:
		if isIface {
			if types.Identical(x.X.Type().Underlying(), x.AssertedType.Underlying()) {
				y, n := e.branch(s, mkIn(dynTerm(q.Term), setOf(0)))
				var outs []*State
				if n != nil {
					outs = append(outs, give(n, q, true))
				}
				if y != nil {
					outs = append(outs, failed(y)...)
				}
				return e.contd(outs, s)
			}
			e.limitf(s, "assertion of unknown value to interface %s", x.AssertedType)
			return nil, false
		}
		id := typeID(x.AssertedType)
		y, n := e.branch(s, mkIn(dynTerm(q.Term), setOf(id)))
		var outs []*State
		if y != nil {
			pv := payload(q.Term, x.AssertedType)
			if w, ok := e.w.(interface {
				Asserted(e *Exec, s *State, t types.Type, x *Term, v Val) bool
			}); !ok || w.Asserted(e, y, x.AssertedType, q.Term, pv) {
				outs = append(outs, give(y, pv, true))
			}
		}
		if n != nil {
			outs = append(outs, failed(n)...)
		}
		return e.contd(outs, s)
	}
	e.limitf(s, "type assertion on %s", valString(v))
	return nil, false
}

// payload is the value of type t held by interface x.
func payload(x *Term, t types.Type) Val { return symval(t, "as:"+typeName(t), x) }

func (e *Exec) rangeOp(s *State, f *Frame, x *ssa.Range) ([]*State, bool) {
	v := e.val(s, f, x.X)
	if l := asList(v); l != nil && l.Str {
		f.set(f.info.num[x], &IterV{L: l, Pos: mkInt(0), Src: v})
		f.ip++
		return nil, true
	}
	e.limitf(s, "range over %s", valString(v))
	return nil, false
}

// nextOp advances a range over a string. The iterator is kept in the register
// of the Range instruction.
func (e *Exec) nextOp(s *State, f *Frame, x *ssa.Next) ([]*State, bool) {
	it, ok := e.val(s, f, x.Iter).(*IterV)
	if !ok {
		e.limitf(s, "range over %s", valString(e.val(s, f, x.Iter)))
		return nil, false
	}
	n := it.L.lenOf()
	y, no := e.branch(s, mkLt(it.Pos, n))
	var outs []*State
	if y != nil {
		fr := y.top()
		r, ok := e.elemAt(y, it.L, it.Pos)
		if ok {
			fr.set(fr.info.num[x.Iter.(*ssa.Range)], &IterV{L: it.L, Pos: mkPlus(it.Pos, 1), Src: it.Src})
			fr.set(fr.info.num[x], TupleV{tTrue, mkApp("byteoff", SInt, strTerm(it.Src), it.Pos), r})
			fr.ip++
			outs = append(outs, y)
		}
	}
	if no != nil {
		fr := no.top()
		fr.set(fr.info.num[x], TupleV{tFalse, mkInt(0), mkInt(0)})
		fr.ip++
		outs = append(outs, no)
	}
	return e.contd(outs, s)
}
