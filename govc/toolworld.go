package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// toolWorld verifies the estree tool and the web entry point.
//
// Ghost state: the files whose ESTree form was written to standard output (a
// list that has to be a beginning of the list of arguments), the text written
// since, and whether the next file failed. What is written has to be the form
// of the next file, after a separator when there was a file before; the run
// may only end when all files are written, or with a failure status when the
// next file failed.
//
// Files, readers and parsers are cells of a kind, and what they stand on.
type toolWorld struct {
	p      *Program
	files  *ListV
	base   *Term
	web    bool
	source *Term // web: the text given
	mode   int64
}

type toolGhost struct {
	parsed bool
	done   *ListV
	pend   string // written since the last form; "?" for other things
	failed *Term  // the error of the next file
}

func (g *toolGhost) Clone() Ghost { n := *g; return &n }
func (g *toolGhost) Map(f func(*Term) *Term, vf func(Val) Val) {
	g.done = vf(g.done).(*ListV)
	if g.failed != nil {
		g.failed = f(g.failed)
	}
}
func (g *toolGhost) Count(re func(Val) Val) Ghost {
	n := *g
	n.done = mapVal(g.done, re).(*ListV)
	return &n
}
func (g *toolGhost) Visit(f func(Val)) {
	f(g.done)
	if g.failed != nil {
		f(g.failed)
	}
}
func (g *toolGhost) Key(vs func(Val) string) string {
	k := fmt.Sprintf("%v %s %q", g.parsed, vs(g.done), g.pend)
	if g.failed != nil {
		k += " failed " + vs(g.failed)
	}
	return k
}

var pC18 = []string{"C18"}

func (w *toolWorld) gh(s *State) *toolGhost {
	n := *s.g.(*toolGhost)
	s.g = &n
	return &n
}

// after is the list of files written when name is written next; nil when that
// is not the next file.
func (w *toolWorld) after(g *toolGhost, name *Term) *ListV {
	l := g.done.with(normAtoms(nil, append(append([]Atom{}, g.done.Atoms...), Atom{E: name})))
	if len(l.Atoms) != 1 || l.Atoms[0].Base != w.base || l.Atoms[0].Lo != mkInt(0) {
		return nil
	}
	return l
}

func (w *toolWorld) text(t *Term) *Term { return mkApp("json", SStr, t) }

// nameOf is the file a tree's text is from.
func (w *toolWorld) nameOf(t *Term) *Term {
	for _, f := range []string{"json", "estree", "parse", "content"} {
		if t.Op != OApp || t.Name != f || len(t.Args) < 1 {
			return nil
		}
		if f == "parse" && (len(t.Args) != 2 || t.Args[1] != mkInt(w.mode)) {
			return nil
		}
		t = t.Args[0]
	}
	return t
}

func isSep(s string) bool {
	n := 0
	for _, l := range strings.Split(s, "\n") {
		switch {
		case l == "---":
			n++
		case l != "":
			return false
		}
	}
	return n == 1 && strings.HasSuffix(s, "\n")
}

// emit is text written to a writer; nil pieces are unknown.
func (w *toolWorld) emit(e *Exec, s *State, to Val, l *ListV) bool {
	switch w.writer(s, to) {
	case "stderr":
		return true
	case "stdout":
	case "builder":
		p := unwrapI(to).(*PtrV)
		_, o, _ := builderGet(s, p)
		if l == nil {
			l = &ListV{Str: true, Atoms: []Atom{{E: s.newSym("text", SInt)}}}
		}
		n := &ListV{Str: true, Atoms: normAtoms(s.pc, append(append([]Atom{}, o.Atoms...), l.Atoms...))}
		s.hset(p.Cell, pathSet(s.heap[p.Cell], p.Path, n))
		return true
	default:
		e.limitf(s, "writing to %s", valString(to))
		return false
	}
	g := w.gh(s)
	bad := func(name string, v Val) {
		e.record(s, pC18, name, false, func() string { return fmt.Sprintf("%s after %s and %q", valString(v), valString(g.done), g.pend) })
	}
	if w.web {
		bad("nothing is written to standard output", l)
		return true
	}
	if g.failed != nil {
		bad("nothing is written after a file that fails", l)
		return true
	}
	if l == nil {
		bad("only forms of files and separators are written", &NilV{})
		return true
	}
	for _, a := range l.Atoms {
		c, ok := a.E.(*Term)
		switch {
		case ok && c.isConst() && c.Sort == SInt:
			g.pend += string(rune(c.N))
			if len(g.pend) > 100 {
				bad("only forms of files and separators are written", l)
				return false
			}
		case a.Base != nil && a.Lo == mkInt(0) && a.Hi == listLen(a.Base) && a.F == "":
			name := w.nameOf(a.Base)
			if name == nil {
				bad("only forms of files and separators are written", l)
				return true
			}
			n := w.after(g, name)
			e.record(s, pC18, "the form written is that of the next file", n != nil, func() string {
				return fmt.Sprintf("%s after %s", name, valString(g.done))
			})
			if n == nil {
				return false
			}
			if len(g.done.Atoms) == 0 {
				e.record(s, pC18, "nothing is written before the first form", strings.Trim(g.pend, "\n") == "", func() string { return g.pend })
			} else {
				lo := g.done.Atoms[0].Hi
				e.oblige(s, pC18, "forms of files follow one another", mkGe(lo, mkInt(1)), "")
				e.record(s, pC18, "a line of three dashes separates the forms", isSep(g.pend), func() string { return fmt.Sprintf("%q", g.pend) })
			}
			g.done, g.pend = n, ""
		default:
			bad("only forms of files and separators are written", l)
			return true
		}
	}
	return true
}

func unwrapI(v Val) Val {
	if i, ok := v.(*IfaceV); ok {
		return i.V
	}
	return v
}

func (w *toolWorld) writer(s *State, v Val) string {
	v = unwrapI(v)
	if p, ok := v.(*SymPtr); ok {
		switch p.Term.Name {
		case "global:os.Stdout":
			return "stdout"
		case "global:os.Stderr":
			return "stderr"
		}
	}
	if i, ok := v.(*SymIface); ok && i.Term.Name == "global:io.Discard" {
		return "stderr"
	}
	if k, _, _ := w.kind(s, v); k != "" {
		return ""
	}
	if _, _, ok := builderGet(s, v); ok {
		return "builder"
	}
	return ""
}

// exits checks the end of the run with a status.
func (w *toolWorld) exits(e *Exec, s *State, code *Term) {
	g := s.g.(*toolGhost)
	if w.web {
		e.record(s, pC18, "the web entry point returns", false, nil)
		return
	}
	if s.pc.Entails(mkEq(code, mkInt(0))) {
		w.complete(e, s)
		return
	}
	e.record(s, pC18, "the run fails only at a file that fails", g.failed != nil && s.pc.Entails(mkNot(mkEq(code, mkInt(0)))), func() string {
		return fmt.Sprintf("status %s after %s", code, valString(g.done))
	})
	e.record(s, pC18, "only a separator follows the last form", strings.Trim(g.pend, "\n") == "" || isSep(g.pend), func() string { return g.pend })
}

// complete checks the end of the run with success.
func (w *toolWorld) complete(e *Exec, s *State) {
	g := s.g.(*toolGhost)
	e.record(s, pC18, "a file that fails makes the run fail", g.failed == nil, func() string { return valString(g.failed) })
	if g.failed != nil {
		return
	}
	hi := mkInt(0)
	if len(g.done.Atoms) == 1 {
		hi = g.done.Atoms[0].Hi
	}
	e.oblige(s, pC18, "every file is written", mkGe(hi, listLen(w.base)), valString(g.done))
	e.record(s, pC18, "nothing follows the last form", strings.Trim(g.pend, "\n") == "", func() string { return g.pend })
}

func (w *toolWorld) Return(e *Exec, s *State, res Val) {
	if !w.web {
		w.complete(e, s)
		return
	}
	g := s.g.(*toolGhost)
	i, _ := res.(*IfaceV)
	var m *MapV
	if i != nil {
		if p, ok := i.V.(*PtrV); ok {
			m, _ = s.heap[p.Cell].(*MapV)
		}
	}
	bad := func(name string, ok bool) {
		e.record(s, pC18, name, ok, func() string {
			if m != nil {
				return fmt.Sprintf("%v: %v", m.Keys, m.Vals)
			}
			return valString(res)
		})
	}
	if m == nil || len(m.Keys) != 1 {
		bad("one of result and error is returned", false)
		return
	}
	key := m.Keys[0]
	val := unwrapI(m.Vals[0])
	if g.failed != nil {
		bad("the text of the error is returned", key == mkStr("error") && same(val, mkApp("errtext", SStr, g.failed)))
		return
	}
	bad("the result is returned", key == mkStr("result"))
	l := asList(val)
	ok := l != nil
	var doc *Term
	if ok {
		for _, a := range l.Atoms {
			c, isC := a.E.(*Term)
			switch {
			case isC && c == mkInt('\n'):
			case a.Base != nil && doc == nil && a.Lo == mkInt(0) && a.Hi == listLen(a.Base) && a.F == "":
				doc = a.Base
			default:
				ok = false
			}
		}
	}
	bad("the result is the ESTree form of the text given", ok && doc == w.text(mkApp("estree", SU, mkApp("parse", SU, w.source, mkInt(w.mode)))))
}

func (w *toolWorld) Header(e *Exec, s *State) []*State {
	g := s.g.(*toolGhost)
	f := s.top()
	if g.failed != nil && !w.web && len(s.frames) == 1 {
		e.record(s, pC18, "a file that fails ends the run", false, func() string { return valString(g.failed) })
		return nil
	}
	// calls deferred in each iteration
	var ds []deferred
	for i, d := range f.defers {
		again := false
		for _, o := range f.defers[i+1:] {
			again = again || o.fn == d.fn
		}
		if again {
			continue
		}
		for _, o := range f.defers[:i] {
			if o.fn == d.fn {
				d.rep, d.args = true, nil
			}
		}
		ds = append(ds, d)
	}
	f.defers = ds
	return []*State{s}
}

func (w *toolWorld) KeepFact(s *State, t *Term) bool { return (&estWorld{}).KeepFact(s, t) }
func (w *toolWorld) Grows() bool                     { return true }

// Progress: the files written.
func (w *toolWorld) Progress(e *Exec, s *State) *Term {
	if g := s.g.(*toolGhost); len(g.done.Atoms) == 1 {
		return g.done.Atoms[0].Hi
	}
	return mkInt(0)
}

func (w *toolWorld) Panic(e *Exec, s *State, v Val) {
	e.record(s, pC18, "no panic", false, func() string { return valString(v) })
}

// cell allocates an object of the library standing on another.
func (w *toolWorld) cell(s *State, kind string, on ...Val) *PtrV {
	return &PtrV{Cell: s.alloc(lib(append([]Val{mkStr(kind)}, on...)...))}
}

// libType is the type of the cells that stand for objects of the library.
var libType = types.NewNamed(types.NewTypeName(0, nil, "library object", nil), types.NewStruct([]*types.Var{
	types.NewField(0, nil, "kind", types.Typ[types.String], false),
	types.NewField(0, nil, "on", types.Universe.Lookup("any").Type(), false),
	types.NewField(0, nil, "used", types.Typ[types.Bool], false)}, nil), nil)

func lib(v ...Val) *StructV {
	for len(v) < 3 {
		v = append(v, tFalse)
	}
	return &StructV{T: libType, F: v}
}

func (w *toolWorld) kind(s *State, v Val) (string, TupleV, int) {
	p, ok := unwrapI(v).(*PtrV)
	if !ok {
		return "", nil, 0
	}
	st, ok := s.heap[p.Cell].(*StructV)
	if !ok || st.T != libType || len(p.Path) > 0 {
		return "", nil, 0
	}
	t := TupleV(st.F)
	k, _ := t[0].(*Term)
	if k == nil {
		return "", nil, 0
	}
	return k.Name, t, p.Cell
}

// takes consumes the text a reader stands on.
func (w *toolWorld) takes(e *Exec, s *State, v Val) (*Term, *Term, bool) {
	for i := 0; i < 20; i++ {
		k, t, c := w.kind(s, v)
		switch k {
		case "":
			return nil, nil, false
		case "file", "text":
			txt, _ := t[1].(*Term)
			used, _ := t[2].(*Term)
			if txt == nil || used == nil {
				return nil, nil, false
			}
			e.record(s, pC18, "the file is read from its beginning while it is open", used == tFalse, func() string { return valString(t) })
			s.hset(c, lib(t[0], t[1], tTrue))
			if txt.Op == OApp && txt.Name == "content" {
				return txt, txt.Args[0], true
			}
			return txt, nil, true
		}
		v = t[1]
	}
	return nil, nil, false
}

// fails marks that the next file failed with an error.
func (w *toolWorld) fails(e *Exec, s *State, name *Term, err *SymIface, what string) {
	g := w.gh(s)
	if w.web {
		g.failed = err.Term
		return
	}
	ok := name != nil && w.after(g, name) != nil
	e.record(s, pC18, "files are "+what+" in the order of the arguments", ok, func() string { return fmt.Sprintf("%v after %s", name, valString(g.done)) })
	g.failed = err.Term
}

func variadic(s *State, v Val) []Val {
	switch x := v.(type) {
	case *ListV:
		var out []Val
		for _, a := range x.Atoms {
			if a.E == nil {
				return []Val{nil}
			}
			out = append(out, a.E)
		}
		return out
	case *NilV:
		return nil
	}
	return []Val{nil}
}

// printed is the text Print and its like write; nil when it is not known.
func printed(name string, args []Val) *ListV {
	l := &ListV{Str: true}
	add := func(v Val) bool {
		x := asList(v)
		if x == nil {
			return false
		}
		l.Atoms = append(l.Atoms, x.Atoms...)
		return true
	}
	if strings.HasSuffix(name, "f") {
		f, _ := args[0].(*Term)
		if f == nil || !f.isConst() {
			return nil
		}
		i := 1
		parts := strings.Split(f.Name, "%")
		add(mkStr(parts[0]))
		for _, p := range parts[1:] {
			if i >= len(args) || p == "" || p[0] != 's' && p[0] != 'v' {
				return nil
			}
			v, ok := args[i].(*IfaceV)
			if !ok || sortOf(v.T) != SStr && !isBytes(v.T) || isBytes(v.T) && p[0] == 'v' || !add(v.V) {
				return nil
			}
			i++
			add(mkStr(p[1:]))
		}
		return l
	}
	ln := strings.HasSuffix(name, "ln")
	for i, a := range args {
		v, ok := a.(*IfaceV)
		if !ok || sortOf(v.T) != SStr || i > 0 && !ln {
			return nil
		}
		if i > 0 {
			add(mkStr(" "))
		}
		if !add(v.V) {
			return nil
		}
	}
	if ln {
		add(mkStr("\n"))
	}
	return l
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && basicKind(s.Elem()) == types.Uint8
}

var harmless = map[string]bool{"path/filepath": true, "path": true, "strings": true, "net/url": true, "errors": true, "strconv": true, "time": true, "unicode": true, "unicode/utf8": true}

func (w *toolWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	give := func(v Val) ([]*State, bool) {
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	}
	if c.fn == nil {
		x, ok := c.recv.(*SymIface)
		if !ok || c.method == nil {
			return nil, false
		}
		switch c.method.Name() {
		case "ESTree":
			e.record(s, pC18, "a tree is there to be converted", x.Term.Op == OApp && x.Term.Name == "parse", func() string { return valString(x) })
			return give(&SymIface{mkApp("estree", SU, x.Term)})
		case "Error":
			return give(mkApp("errtext", SStr, x.Term))
		}
		return nil, false
	}
	name := c.fn.String()
	fork := func(what string, good func(*State) Val, bad func(*State, *SymIface) Val) ([]*State, bool) {
		t := s.fork()
		e.setResult(s, c.dst, good(s))
		err := t.nonNilIface("err")
		t.note("%s fails", what)
		e.setResult(t, c.dst, bad(t, err))
		return []*State{s, t}, true
	}
	if c.fn.Pkg != nil && w.p.inRepo(c.fn.Pkg.Pkg) {
		switch strings.TrimPrefix(name, repoModule+"/") {
		case "ecmascript/lexer.NewScanner", "ecmascript/lexer.NewLexer", "ecmascript/parser.NewParser":
			e.Assumed["contracts of lexer.NewScanner and Parse (verified for C01 to C17) and of lexer.NewLexer and parser.NewParser (constructors, not verified): the tree or error of the reader's text"] = true
			return give(w.cell(s, "parser", c.args[0]))
		}
		if name == "(*"+repoModule+"/ecmascript/parser.Parser).Parse" {
			m, _ := field(c.args[1], "Mode").(*Term)
			if m == nil {
				return nil, false
			}
			txt, file, ok := w.takes(e, s, c.args[0])
			if !ok {
				e.limitf(s, "parsing %s", valString(c.args[0]))
				return nil, true
			}
			return fork("Parse", func(t *State) Val { return TupleV{&SymIface{mkApp("parse", SU, txt, m)}, &NilV{}} }, func(t *State, err *SymIface) Val {
				e.record(t, pC18, "files are parsed as scripts", m == mkInt(w.mode), func() string { return m.String() })
				w.fails(e, t, file, err, "parsed")
				return TupleV{&NilV{}, err}
			})
		}
		return nil, false
	}
	if c.fn.Pkg == nil {
		return nil, false
	}
	pkg := c.fn.Pkg.Pkg.Path()
	mark := func() { e.assumed(name) }
	switch name {
	case "flag.Parse":
		mark()
		w.gh(s).parsed = true
		return give(nil)
	case "flag.Args":
		mark()
		if !s.g.(*toolGhost).parsed {
			return give(&ListV{Elem: types.Typ[types.String], IsNil: true})
		}
		return give(w.files)
	case "flag.NArg":
		mark()
		if !s.g.(*toolGhost).parsed {
			return give(mkInt(0))
		}
		return give(listLen(w.base))
	case "flag.Arg":
		mark()
		i, _ := c.args[0].(*Term)
		if i == nil || !s.g.(*toolGhost).parsed || !s.pc.Entails(mkAnd(mkGe(i, mkInt(0)), mkLt(i, listLen(w.base)))) {
			return nil, false
		}
		return give(elemOf(w.base, i, types.Typ[types.String]))
	case "os.Open":
		mark()
		n := strTerm(c.args[0])
		return fork("os.Open", func(t *State) Val { return TupleV{w.cell(t, "file", mkApp("content", SStr, n), tFalse), &NilV{}} }, func(t *State, err *SymIface) Val {
			w.fails(e, t, n, err, "opened")
			return TupleV{&NilV{}, err}
		})
	case "os.ReadFile", "io/ioutil.ReadFile":
		mark()
		n := strTerm(c.args[0])
		b := mkApp("content", SStr, n)
		return fork(name, func(t *State) Val {
			return TupleV{&ListV{Elem: types.Typ[types.Uint8], Atoms: []Atom{{Base: b, Lo: mkInt(0), Hi: listLen(b)}}}, &NilV{}}
		}, func(t *State, err *SymIface) Val {
			w.fails(e, t, n, err, "opened")
			return TupleV{&NilV{}, err}
		})
	case "io.ReadAll", "io/ioutil.ReadAll":
		mark()
		b, n, ok := w.takes(e, s, c.args[0])
		if !ok {
			return nil, false
		}
		return fork(name, func(t *State) Val {
			return TupleV{&ListV{Elem: types.Typ[types.Uint8], Atoms: []Atom{{Base: b, Lo: mkInt(0), Hi: listLen(b)}}}, &NilV{}}
		}, func(t *State, err *SymIface) Val {
			w.fails(e, t, n, err, "read")
			return TupleV{&NilV{}, err}
		})
	case "(*os.File).Close":
		mark()
		k, t, cell := w.kind(s, c.args[0])
		if k == "file" {
			s.hset(cell, lib(t[0], t[1], tTrue))
		} else if w.writer(s, c.args[0]) != "" {
			return nil, false
		}
		return fork("Close", func(*State) Val { return &NilV{} }, func(t *State, err *SymIface) Val { return err })
	case "bufio.NewReader", "bufio.NewReaderSize":
		mark()
		return give(w.cell(s, "reader", c.args[0]))
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		mark()
		l := asList(c.args[0])
		if l == nil || len(l.Atoms) != 1 || l.Atoms[0].Base == nil || l.Atoms[0].Lo != mkInt(0) || l.Atoms[0].Hi != listLen(l.Atoms[0].Base) {
			return nil, false
		}
		return give(w.cell(s, "text", l.Atoms[0].Base, tFalse))
	case "encoding/json.NewEncoder":
		mark()
		return give(w.cell(s, "encoder", c.args[0]))
	case "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent":
		mark()
		return give(nil)
	case "(*encoding/json.Encoder).Encode", "encoding/json.Marshal", "encoding/json.MarshalIndent":
		mark()
		e.Assumed["standard output can be written"] = true
		v, i := c.args[0], 1
		enc := strings.HasSuffix(name, "Encode")
		if !enc {
			i = 0
		}
		x, ok := c.args[i].(*SymIface)
		var doc *Term
		if ok {
			doc = w.text(x.Term)
		} else {
			doc = s.newSym("doc", SStr)
		}
		l := &ListV{Str: true, Atoms: []Atom{{Base: doc, Lo: mkInt(0), Hi: listLen(doc)}}}
		bad := func(t *State, err *SymIface) *SymIface {
			w.fails(e, t, w.nameOf(doc), err, "converted")
			return err
		}
		if !enc {
			return fork(name, func(*State) Val { return TupleV{l.with(l.Atoms), &NilV{}} }, func(t *State, err *SymIface) Val { return TupleV{&NilV{}, bad(t, err)} })
		}
		k, t, _ := w.kind(s, v)
		if k != "encoder" {
			return nil, false
		}
		to := t[1]
		u := s.fork()
		if w.emit(e, s, to, l.with(append(l.Atoms, Atom{E: mkInt('\n')}))) {
			e.setResult(s, c.dst, &NilV{})
		} else {
			s = nil
		}
		u.note("Encode fails")
		err := bad(u, u.nonNilIface("err"))
		e.setResult(u, c.dst, err)
		if s == nil {
			return []*State{u}, true
		}
		return []*State{s, u}, true
	case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "(*os.File).Write", "(*os.File).WriteString", "io.WriteString":
		mark()
		e.Assumed["standard output can be written"] = true
		var to Val = &SymPtr{Term: mkSym("global:os.Stdout", SU)}
		args := c.args
		if !strings.HasPrefix(name, "fmt.Print") {
			to, args = args[0], args[1:]
		}
		var l *ListV
		if pkg == "fmt" {
			var as []Val
			for _, a := range args[:len(args)-1] {
				as = append(as, a)
			}
			l = printed(name, append(as, variadic(s, args[len(args)-1])...))
		} else {
			l = asList(args[0])
		}
		if !w.emit(e, s, to, l) {
			return nil, true
		}
		return give(TupleV{s.newSym("n", SInt), &NilV{}})
	case "log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix":
		mark()
		return give(nil)
	case "log.SetOutput":
		mark()
		e.record(s, pC18, "the log is not written to standard output", w.writer(s, c.args[0]) == "stderr", func() string { return valString(c.args[0]) })
		return give(nil)
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		mark()
		w.exits(e, s, mkInt(1))
		return nil, true
	case "os.Exit":
		mark()
		t, _ := c.args[0].(*Term)
		if t == nil {
			return nil, false
		}
		w.exits(e, s, t)
		return nil, true
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		mark()
		var as []Val
		for _, a := range c.args[:len(c.args)-1] {
			as = append(as, a)
		}
		if l := printed(name, append(as, variadic(s, c.args[len(c.args)-1])...)); l != nil {
			return give(l)
		}
		return give(s.newSym("text", SStr))
	case "fmt.Errorf", "errors.New":
		mark()
		return give(s.nonNilIface("err"))
	case "(syscall/js.Value).String":
		mark()
		return give(jsText(c.args[0]))
	}
	if out, ok := libCall(e, s, c); ok {
		return out, ok
	}
	if harmless[pkg] {
		e.Assumed["calls of "+pkg+" have no effect on files, standard output or the status"] = true
		var v Val
		r := c.fn.Signature.Results()
		switch r.Len() {
		case 0:
		case 1:
			v = s.freshVal(r.At(0).Type(), "lib")
		default:
			var tv TupleV
			for i := 0; i < r.Len(); i++ {
				tv = append(tv, s.freshVal(r.At(i).Type(), "lib"))
			}
			v = tv
		}
		return give(v)
	}
	return nil, false
}

// jsText is the text of a JavaScript value.
func jsText(v Val) *Term {
	for {
		switch x := v.(type) {
		case *StructV:
			if len(x.F) == 0 {
				return mkStr("")
			}
			v = x.F[len(x.F)-1]
			for _, f := range x.F {
				if t, ok := f.(*Term); ok {
					v = t
				}
			}
			continue
		case *Term:
			return mkApp("jstext", SStr, x)
		}
		return mkApp("jstext", SStr, mkSym(valString(v), SU))
	}
}

const kTool, kWeb = "cmd/estree.main", "web/parser.ParseES"

func (w *toolWorld) setup(e *Exec) bool {
	pp := w.p.Pkgs["ecmascript/parser"]
	if pp == nil {
		e.limitf(nil, "there is no package parser")
		return false
	}
	c, ok := pp.Pkg.Scope().Lookup("ScriptMode").(*types.Const)
	if !ok {
		e.limitf(nil, "there is no ScriptMode")
		return false
	}
	w.mode, _ = constant.Int64Val(c.Val())
	return true
}

func newToolExec(p *Program) *Exec {
	w := &toolWorld{p: p, base: mkSym("files", SU)}
	w.files = symList(w.base, types.Typ[types.String])
	e := newExec(p, w, nil, kTool)
	e.safe, e.term = pC18, pC18
	var fn *ssa.Function
	if pkg := p.Pkgs["cmd/estree"]; pkg != nil {
		fn = pkg.Func("main")
	}
	if fn == nil {
		e.limitf(nil, "there is no command estree")
		return e
	}
	if !w.setup(e) {
		return e
	}
	e.root = fn
	k := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
	s.g = &toolGhost{done: &ListV{Elem: types.Typ[types.String]}}
	e.Inlined[kTool] = true
	e.pushFrame(s, fn, nil, fkCall, nil)
	e.push(s)
	return e
}

// newWebExec verifies the entry point of the web page, which is only compiled
// for js/wasm.
func newWebExec(*Program) *Exec {
	p, err := loadProgram("GOOS=js", "GOARCH=wasm")
	w := &toolWorld{p: p, web: true, base: mkSym("files", SU)}
	w.files = &ListV{Elem: types.Typ[types.String], IsNil: true}
	e := newExec(p, w, nil, kWeb)
	e.safe, e.term = pC18, pC18
	if err != nil {
		e.prog = &Program{}
		e.limitf(nil, "the repository does not load for js/wasm: %v", err)
		return e
	}
	var fn *ssa.Function
	if pkg := p.Pkgs["web/parser"]; pkg != nil {
		fn = pkg.Func("ParseES")
	}
	if fn == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
		e.limitf(nil, "there is no entry point ParseES")
		return e
	}
	if !w.setup(e) {
		return e
	}
	e.root = fn
	k := 0
	s := &State{heap: map[int]Val{}, pc: newPC(), fresh: &k}
	s.g = &toolGhost{done: w.files}
	this := symval(fn.Signature.Params().At(0).Type(), "this")
	args, ok := symval(fn.Signature.Params().At(1).Type(), "p").(*ListV)
	if !ok {
		e.limitf(nil, "ParseES takes other parameters")
		return e
	}
	b := args.Atoms[0].Base
	e.Assumed["the web entry point is called with a text"] = true
	s.assume(mkGe(listLen(b), mkInt(1)))
	w.source = jsText(elemOf(b, mkInt(0), args.Elem))
	e.Inlined[kWeb] = true
	e.pushFrame(s, fn, []Val{this, args}, fkCall, nil)
	e.push(s)
	return e
}

// NonNil: the tree of a text that is parsed is not nil (C01).
func (w *toolWorld) NonNil(e *Exec, t *Term) bool { return t.Op == OApp && t.Name == "parse" }
