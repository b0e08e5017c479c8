package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// estWorld verifies one ESTree method: what it returns has the properties the
// ESTree specification gives this kind of node (estspec.go), made of the fields
// of the node it was called on. Calls of ESTree, of nodes and of parts of
// nodes, go by the same contract: the result is the form of the receiver.
type estWorld struct {
	p     *Program
	pkg   *types.Package
	formT types.Type
	name  string
	safe  []string
	calls map[string]string // methods under contract
}

type estGhost struct{ recv Val }

func (g *estGhost) Clone() Ghost                              { n := *g; return &n }
func (g *estGhost) Map(f func(*Term) *Term, vf func(Val) Val) { g.recv = vf(g.recv) }
func (g *estGhost) Visit(f func(Val))                         { f(g.recv) }
func (g *estGhost) Key(vs func(Val) string) string            { return vs(g.recv) }

func (w *estWorld) typ(name string) types.Type {
	if o := w.pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func (w *estWorld) astName(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == w.pkg {
		return n.Obj().Name()
	}
	return ""
}

func (w *estWorld) constant(name string) (int64, bool) {
	c, ok := w.pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

func (w *estWorld) field(n Val, name string) Val { return field(n, name) }

func unIface(v Val) Val {
	for {
		x, ok := v.(*IfaceV)
		if !ok {
			return v
		}
		v = x.V
	}
}

func (w *estWorld) str(v Val) *Term {
	if v == nil {
		return nil
	}
	v = unIface(v)
	if t, ok := v.(*Term); ok {
		if t.Sort == SStr {
			return t
		}
		return nil
	}
	return strTerm(v)
}

func (w *estWorld) nilTerm(v Val) *Term {
	switch x := v.(type) {
	case *NilV:
		return tTrue
	case *SymIface:
		return mkIn(dynTerm(x.Term), setOf(0))
	case *SymPtr:
		return mkNot(nonNil(x.Term))
	case *IfaceV, *PtrV:
		return tFalse
	}
	return nil
}

// form is the ESTree form of a value (null for none).
func (w *estWorld) form(v Val) want {
	return func(w *estWorld, e *Exec, s *State, got Val) string {
		no := w.nilTerm(v)
		if no == nil {
			no = w.noForm(v)
		}
		if no == nil {
			return "there is no such field"
		}
		if p, ok := v.(*SymPtr); ok {
			v = objOf(p)
		}
		if isNilVal(got) {
			if !s.pc.Entails(no) {
				return "is null although there is " + valString(v)
			}
			return ""
		}
		f, ok := got.(*IfaceV)
		if ok && f.T == w.formT {
			if same(unIface(f.V), unIface(v)) {
				return ""
			}
			return "is the form of " + valString(f.V) + ", not of " + valString(v)
		}
		// written out in place
		if st, ok := v.(*StructV); ok {
			if sp := estSpec[w.astName(st.T)]; sp != nil {
				return sp(w, st)(w, e, s, got)
			}
		}
		return "is " + valString(got) + ", not the form of " + valString(v)
	}
}

func (w *estWorld) ident(v Val) want {
	return func(w *estWorld, e *Exec, s *State, got Val) string {
		x := w.str(v)
		if x == nil {
			return "there is no such name"
		}
		empty := mkEq(x, mkStr(""))
		if isNilVal(got) {
			if !s.pc.Entails(empty) {
				return "is null although there is a name"
			}
			return ""
		}
		if pc, ok := s.pc.Assume(empty); ok {
			_ = pc
			return "is " + valString(got) + " even if the name is empty"
		}
		ws := map[string]want{"type": text("Identifier")(w, nil), "name": func(w *estWorld, e *Exec, s *State, g Val) string {
			if y := w.str(g); y != nil && s.pc.Entails(mkEq(x, y)) {
				return ""
			}
			return "is " + valString(g) + ", not " + valString(v)
		}}
		// the form of an identifier node is an identifier
		if f, ok := got.(*IfaceV); ok && f.T == w.formT {
			if st, ok := unIface(f.V).(*StructV); ok && w.astName(st.T) == "Identifier" {
				return ws["name"](w, e, s, field(st, "Name"))
			}
		}
		return w.object(e, s, got, ws)
	}
}

type jsonField struct {
	v    Val
	omit bool
}

// props gives the properties a value has when it is written as JSON.
func (w *estWorld) props(s *State, v Val) (map[string]jsonField, bool) {
	v = unIface(v)
	if p, ok := v.(*PtrV); ok {
		v = pathGet(s.heap[p.Cell], p.Path)
	}
	out := map[string]jsonField{}
	switch x := v.(type) {
	case *MapV:
		for i, k := range x.Keys {
			if !k.isConst() || k.Sort != SStr {
				return nil, false
			}
			out[k.Name] = jsonField{x.Vals[i], false}
		}
		return out, true
	case *StructV:
		st, ok := x.T.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ps := strings.Split(tag, ",")
			name := ps[0]
			if f.Embedded() && name == "" {
				in, ok := w.props(s, x.F[i])
				if !ok {
					return nil, false
				}
				for k, v := range in {
					if _, has := out[k]; !has {
						out[k] = v
					}
				}
				continue
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			omit := false
			for _, o := range ps[1:] {
				if o == "omitempty" {
					omit = true
				} else {
					return nil, false
				}
			}
			out[name] = jsonField{x.F[i], omit}
		}
		return out, true
	}
	return nil, false
}

// omitted tells whether a value is left out for being empty: yes, no, unknown.
func (w *estWorld) omitted(s *State, f jsonField) (yes, no bool) {
	if !f.omit {
		return false, true
	}
	v := f.v
	if isNilVal(v) {
		return true, false
	}
	if x, ok := v.(*IfaceV); ok {
		_ = x
		return false, true
	}
	var zero *Term
	if t, ok := v.(*Term); ok && t.Sort == SBool {
		zero = mkNot(t)
	} else if t := w.str(v); t != nil {
		zero = mkEq(t, mkStr(""))
	}
	if zero != nil {
		return s.pc.Entails(zero), s.pc.Entails(mkNot(zero))
	}
	if _, ok := v.(*StructV); ok {
		return false, true
	}
	return false, false
}

func (w *estWorld) object(e *Exec, s *State, got Val, ws map[string]want) string {
	ps, ok := w.props(s, got)
	if !ok {
		return "is " + valString(got) + ", no object"
	}
	seen := map[string]bool{}
	names := make([]string, 0, len(ws))
	for k := range ws {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		k := strings.TrimRight(n, "?*")
		seen[k] = true
		f, has := ps[k]
		yes, no := false, false
		if has {
			yes, no = w.omitted(s, f)
		}
		switch {
		case strings.HasSuffix(n, "?"):
			if !has {
				f.v = tFalse
			}
		case strings.HasSuffix(n, "*"):
			if !has {
				f.v = mkStr("")
			} else if !f.omit && !s.pc.Entails(mkNot(mkEq(w.orStr(f.v), mkStr("")))) {
				return k + " is there even if it is empty"
			}
		case !has || yes:
			return k + " is missing"
		case !no:
			return k + " may be missing"
		}
		if m := ws[n](w, e, s, f.v); m != "" {
			return k + " " + m
		}
	}
	for k, f := range ps {
		if yes, _ := w.omitted(s, f); !seen[k] && !yes {
			return k + " is no property of this kind of node"
		}
	}
	return ""
}

func (w *estWorld) orStr(v Val) *Term {
	if t := w.str(v); t != nil {
		return t
	}
	return mkStr("")
}

// items gives the elements of a list that is not null.
func (w *estWorld) items(s *State, got Val) (*ListV, bool) {
	switch x := unIface(got).(type) {
	case *ListV:
		if len(x.Atoms) == 0 && x.IsNil || x.Str {
			return nil, false
		}
		return x, true
	case *ArrSlice:
		a, ok := s.heap[x.Cell].(*ArrV)
		if !ok || !s.pc.Entails(mkEq(a.Pre.lenOf(), a.Len)) {
			return nil, false
		}
		return a.Pre, true
	}
	return nil, false
}

// list: the first elements, the forms of all that src lists, and the last.
func (w *estWorld) list(e *Exec, s *State, got Val, first []want, src Val, last []want) string {
	l, ok := w.items(s, got)
	if !ok {
		if isNilVal(got) {
			return "is null, no list"
		}
		return "is " + valString(got) + ", no list"
	}
	as := l.Atoms
	for _, x := range first {
		if len(as) == 0 || as[0].Base != nil {
			return "lacks an element"
		}
		if m := x(w, e, s, as[0].E); m != "" {
			return "has an element that " + m
		}
		as = as[1:]
	}
	sl, ok := src.(*ListV)
	if !ok || len(sl.Atoms) != 1 || sl.Atoms[0].Base == nil {
		return "is of no list of the node"
	}
	a := sl.Atoms[0]
	n := mkInt(0)
	for len(as) > 0 && !s.pc.Entails(mkEq(n, a.Hi)) {
		m := w.next(e, s, a.Base, sl.Elem, n, as[0])
		if m == nil {
			break
		}
		n, as = m, as[1:]
	}
	if len(as) > 0 && as[0].Base == a.Base && as[0].F == "form" && s.pc.Entails(mkEq(as[0].Lo, as[0].Hi)) {
		as = as[1:]
	}
	if !s.pc.Entails(mkEq(n, a.Hi)) {
		return fmt.Sprintf("holds the first %s of the elements of %s and then %s", n, a.Base, atomsString(as))
	}
	for _, x := range last {
		if len(as) == 0 || as[0].Base != nil {
			return "lacks an element"
		}
		if m := x(w, e, s, as[0].E); m != "" {
			return "has an element that " + m
		}
		as = as[1:]
	}
	if len(as) > 0 {
		return "has the further elements " + atomsString(as)
	}
	return ""
}

// next: the atom continues the forms of a list after the n-th.
func (w *estWorld) next(e *Exec, s *State, base *Term, elem types.Type, n *Term, a Atom) *Term {
	if a.Base != nil {
		if a.Base == base && a.F == "form" && s.pc.Entails(mkEq(a.Lo, n)) {
			return a.Hi
		}
		return nil
	}
	if w.form(elemOf(base, n, elem))(w, e, s, a.E) != "" {
		return nil
	}
	return mkPlus(n, 1)
}

// sources are the lists of the node.
func (w *estWorld) sources(s *State) []*ListV {
	var out []*ListV
	st, ok := s.g.(*estGhost).recv.(*StructV)
	if !ok {
		return nil
	}
	for _, f := range st.F {
		if l, ok := f.(*ListV); ok && !l.Str && len(l.Atoms) == 1 && l.Atoms[0].Base != nil {
			out = append(out, l)
		}
	}
	return out
}

func (w *estWorld) Header(e *Exec, s *State) []*State {
	clearDead(s)
	f := s.top()
	back := f.prev != nil && f.blk.Dominates(f.prev)
	srcs := w.sources(s)
	bad := ""
	fold := func(v Val) Val {
		l, ok := v.(*ListV)
		if !ok || l.Str {
			return nil
		}
		if _, is := l.Elem.Underlying().(*types.Interface); !is || len(l.Atoms) == 0 {
			return nil
		}
		if last := l.Atoms[len(l.Atoms)-1]; last.Base != nil {
			return nil
		}
		for from := range l.Atoms {
			for _, src := range srcs {
				b := src.Atoms[0].Base
				n := mkInt(0)
				for _, a := range l.Atoms[from:] {
					if n = w.next(e, s, b, src.Elem, n, a); n == nil {
						break
					}
				}
				if n != nil {
					return l.with(append(append([]Atom{}, l.Atoms[:from]...), Atom{Base: b, Lo: mkInt(0), Hi: n, F: "form", Src: src.Elem}))
				}
			}
		}
		if back && len(srcs) > 0 {
			bad = valString(l)
		}
		return nil
	}
	for _, r := range frameRoots(s) {
		v := r.get()
		if n := mapVal(v, fold); n != v {
			r.set(n)
		}
	}
	for c := range s.heap {
		v := s.heap[c]
		if a, ok := v.(*ArrV); ok {
			if n := fold(a.Pre); n != nil {
				s.hset(c, &ArrV{Pre: n.(*ListV), Len: a.Len})
			}
			continue
		}
		if n := mapVal(v, fold); n != v {
			s.hset(c, n)
		}
	}
	if back && bad != "" {
		e.record(s, []string{"C06"}, "what a loop has collected are the forms of the elements in order", false, func() string { return bad })
		return nil
	}
	return []*State{s}
}

// frameRoots are the registers of all frames.
func frameRoots(s *State) []root {
	var rs []root
	for _, f := range s.frames {
		f := f
		for i, v := range f.regs {
			if v == nil {
				continue
			}
			i := i
			rs = append(rs, root{func() Val { return f.regs[i] }, func(v Val) { f.set(i, v) }})
		}
	}
	return rs
}

// KeepFact: nothing is remembered of elements gone by.
func (w *estWorld) KeepFact(s *State, t *Term) bool {
	live := map[*Term]bool{}
	see := func(v Val) {
		mapTerms(v, func(x *Term) *Term {
			walkTerm(x, map[*Term]bool{}, func(y *Term) {
				if isElemTerm(y) {
					live[y] = true
				}
			})
			return x
		})
	}
	for _, r := range frameRoots(s) {
		see(r.get())
	}
	for _, v := range s.heap {
		see(v)
	}
	keep := true
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if isElemTerm(x) && !live[x] {
			keep = false
		}
	})
	return keep
}

func isElemTerm(t *Term) bool {
	return t.Op == OApp && len(t.Args) == 2 && (t.Name == "elt" || strings.HasPrefix(t.Name, "elt."))
}

func (w *estWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, []string{"C05"}, "the conversion does not panic", false, func() string { return valString(v) })
}

func (w *estWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn == nil {
		x, ok := c.recv.(*SymIface)
		if !ok || c.method == nil || c.method.Name() != "ESTree" {
			return nil, false
		}
		// What is converted is a part of the node: it holds no placeholder
		// because the node does not.
		root := ""
		walkTerm(x.Term, map[*Term]bool{}, func(t *Term) {
			if t.Op == OSym && strings.HasPrefix(t.Name, "n.") {
				root = t.Name
			}
		})
		e.record(s, []string{"C05"}, "only parts of the node are converted", root != "", func() string { return valString(x) })
		e.setResult(s, c.dst, &IfaceV{T: w.formT, V: x})
		return []*State{s}, true
	}
	key := fnKey(c.fn)
	if n, ok := w.calls[key]; ok {
		st, ok := c.args[0].(*StructV)
		if !ok {
			return nil, false
		}
		no := w.noForm(st)
		if no == nil {
			e.limitf(s, "the form of %s", n)
			return nil, true
		}
		y, z := e.branch(s, no)
		var outs []*State
		if y != nil {
			e.setResult(y, c.dst, &NilV{})
			outs = append(outs, y)
		}
		if z != nil {
			e.setResult(z, c.dst, &IfaceV{T: w.formT, V: st})
			outs = append(outs, z)
		}
		return outs, true
	}
	return libCall(e, s, c)
}

func (w *estWorld) Return(e *Exec, s *State, res Val) {
	n := s.g.(*estGhost).recv
	m := estSpec[w.name](w, n)(w, e, s, res)
	e.record(s, []string{"C06"}, "the result is the ESTree form of the node", m == "", func() string { return m })
	null := w.noForm(n)
	ok := null != nil && (!isNilVal(res) || s.pc.Entails(null) || w.name == "ParenthesizedExpression")
	e.record(s, []string{"C05"}, "only empty patterns have no form", ok, func() string { return valString(res) })
}

const astPath = "ecmascript/ast"

func estTypes() []string {
	var out []string
	for k := range estSpec {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func newEstWorld(p *Program) *estWorld {
	w := &estWorld{p: p, calls: map[string]string{}}
	for _, pk := range p.Prog.AllPackages() {
		if strings.HasSuffix(pk.Pkg.Path(), "/"+astPath) && p.inRepo(pk.Pkg) {
			w.pkg = pk.Pkg
		}
	}
	w.formT = types.NewNamed(types.NewTypeName(0, nil, "ESTree form", nil), types.NewStruct(nil, nil), nil)
	return w
}

func estKey(name string) string { return "(" + astPath + "." + name + ").ESTree" }

func newEstExec(p *Program, name string) *Exec {
	w := newEstWorld(p)
	w.name = name
	key := estKey(name)
	e := newExec(p, w, nil, key)
	e.safe, e.term = []string{"C05"}, []string{"C05"}
	if w.pkg == nil {
		e.limitf(nil, "there is no package %s", astPath)
		return e
	}
	for n := range estSpec {
		if fn := p.findFn(estKey(n)); fn != nil {
			w.calls[estKey(n)] = n
		}
	}
	fn := p.findFn(key)
	if fn == nil {
		if w.typ(name) == nil {
			e.record(nil, []string{"C05", "C06"}, "there is no such kind of node", true, nil)
			return e
		}
		e.limitf(nil, "%s is missing", key)
		return e
	}
	e.root = fn
	k := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
	recv := symval(w.typ(name), "n")
	s.g = &estGhost{recv: recv}
	for k, tab := range estChoices {
		ps := strings.Split(k, ".")
		if ps[0] != name {
			continue
		}
		var vs []int64
		for c := range tab {
			if v, ok := w.constant(c); ok {
				vs = append(vs, v)
			}
		}
		if t, ok := field(recv, ps[1]).(*Term); ok {
			s.assume(mkIn(t, setOf(vs...)))
			e.Assumed["fields of kinds and operators hold one of their constants"] = true
		}
	}
	e.Assumed["the node is one the parser makes: it holds no placeholder in any part (verified with the parser, C05), and a pattern has one form"] = true
	if name == "BindingPattern" {
		w.oneForm(s, recv)
	}
	e.Inlined[key] = true
	e.pushFrame(s, fn, []Val{recv}, fkCall, nil)
	e.push(s)
	return e
}

// oneForm: a pattern is a name, an object or an array pattern, or nothing.
func (w *estWorld) oneForm(s *State, v Val) {
	x := w.str(field(v, "Identifier"))
	a, b := w.nilTerm(field(v, "ObjectPattern")), w.nilTerm(field(v, "ArrayPattern"))
	if x == nil || a == nil || b == nil {
		return
	}
	id := mkNot(mkEq(x, mkStr("")))
	s.assume(mkOr(mkNot(id), a))
	s.assume(mkOr(mkNot(id), b))
	s.assume(mkOr(a, b))
}
