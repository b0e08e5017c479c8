package main

import "go/types"

// errWorld verifies the Unwrap method of one kind of error: for every error
// value it returns the cause the error was built with (C15). That the cause is
// not nil is checked where errors are built.
type errWorld struct {
	p    *Program
	want Val
	self *PtrV
	old  Val
}

// errKinds are the errors lexing and parsing raise.
var errKinds = []string{"SyntaxError", "EncodingError", "ParserError"}

func errKey(k string) string { return "(*ecmascript/errs." + k + ").Unwrap" }

func (w *errWorld) Return(e *Exec, s *State, res Val) {
	ok := same(res, w.want)
	if x, sym := w.want.(*SymIface); sym && isNilVal(res) {
		ok = ok || s.pc.Entails(mkIn(dynTerm(x.Term), setOf(0)))
	}
	e.record(s, []string{"C15"}, "unwrapping an error returns its cause", ok, func() string { return valString(res) })
	e.record(s, []string{"C15"}, "unwrapping leaves the error as it is", same(s.heap[w.self.Cell], w.old), func() string { return valString(s.heap[w.self.Cell]) })
}
func (w *errWorld) Header(e *Exec, s *State) []*State { return []*State{s} }
func (w *errWorld) KeepFact(s *State, t *Term) bool   { return true }
func (w *errWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C15"}, "unwrapping an error does not panic", false, func() string { return valString(v) })
}
func (w *errWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil || (c.fn.Pkg != nil && e.prog.inRepo(c.fn.Pkg.Pkg)) {
		return nil, false
	}
	return libCall(e, s, c)
}

func newErrExec(p *Program, kind string) *Exec {
	key := errKey(kind)
	e := newExec(p, &errWorld{p: p}, nil, key)
	e.driver = func() {
		var t types.Type
		if pk := p.Pkgs["ecmascript/errs"]; pk != nil {
			if m := pk.Type(kind); m != nil {
				t = m.Type()
			}
		}
		if t == nil {
			e.limitf(nil, "errs.%s is missing", kind)
			return
		}
		sel := p.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, "Unwrap")
		ok := sel != nil
		if ok {
			sig := sel.Type().(*types.Signature)
			ok = sig.Params().Len() == 0 && sig.Results().Len() == 1 && typeName(sig.Results().At(0).Type()) == "error"
		}
		e.record(nil, []string{"C15"}, "the error can be unwrapped", ok, nil)
		sv, _ := symval(t, "error").(*StructV)
		if !ok || sv == nil {
			return
		}
		ei := structField(sv.T, "Err")
		if ei < 0 {
			e.limitf(nil, "errs.%s has no field Err", kind)
			return
		}
		fn := p.Prog.MethodValue(sel)
		w := &errWorld{p: p, want: sv.F[ei], old: sv}
		x := newExec(p, w, fn, key)
		x.start, x.limit = e.start, e.limit
		x.Inlined[key] = true
		n := 0
		s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &n, g: nilGhost{}}
		w.self = &PtrV{Cell: s.alloc(sv)}
		x.pushFrame(s, fn, []Val{w.self}, fkCall, nil)
		x.push(s)
		x.run()
		e.merge(x)
	}
	return e
}
