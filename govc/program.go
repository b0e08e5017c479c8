package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/jchv/cleansheets"

// Program is the code under verification: the SSA form of /repo's packages,
// and the values their package variables get from initialisation.
type Program struct {
	Fset    *token.FileSet
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package
	globals map[int]Val
	gcell   map[*ssa.Global]int
	gname   map[int]string
	ncell   int
	initing bool
	heap    map[int]Val
	mapIDs  map[*MapV]string
	files   []string
	Assumed map[string]bool
}

func (p *Program) inRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == repoModule || strings.HasPrefix(pkg.Path(), repoModule+"/"))
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadProgram builds SSA for every package of the repository.
func loadProgram(env ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repoDir(),
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"),
	}
	cfg.Env = append(cfg.Env, env...)
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not compile: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	prog.Build()
	p := &Program{Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, globals: map[int]Val{}, gcell: map[*ssa.Global]int{},
		gname: map[int]string{}, ncell: 1 << 30, mapIDs: map[*MapV]string{}, Assumed: map[string]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Pkgs[strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), repoModule), "/")] = sp
		for _, f := range pkgs[i].CompiledGoFiles {
			p.files = append(p.files, f)
		}
	}
	sort.Strings(p.files)
	if err := p.runInit(); err != nil {
		return nil, err
	}
	return p, nil
}

// globalPtr is the address of a package variable.
func (p *Program) globalPtr(g *ssa.Global) Val {
	c, ok := p.gcell[g]
	if !ok {
		p.ncell++
		c = p.ncell
		p.gcell[g] = c
		p.gname[c] = g.Pkg.Pkg.Path() + "." + g.Name()
		t := deref(g.Type())
		if p.inRepo(g.Pkg.Pkg) {
			p.globals[c] = zeroVal(t)
		} else {
			p.globals[c] = symval(t, "global:"+g.Pkg.Pkg.Name()+"."+g.Name())
		}
	}
	return &PtrV{Cell: c}
}

func (p *Program) mapName(m *MapV) string {
	if n, ok := p.mapIDs[m]; ok {
		return n
	}
	n := fmt.Sprintf("map%d", len(p.mapIDs))
	p.mapIDs[m] = n
	return n
}

// initWorld runs package initialisers.
type initWorld struct{ p *Program }

func (w initWorld) Call(e *Exec, s *State, c *CallInfo) ([]*State, bool) {
	if c.fn != nil && c.fn.Name() == "init" && c.fn.Pkg != nil && !w.p.inRepo(c.fn.Pkg.Pkg) {
		e.setResult(s, c.dst, nil)
		return []*State{s}, true
	}
	if c.fn != nil && (c.fn.Pkg == nil || !w.p.inRepo(c.fn.Pkg.Pkg)) {
		// a library call in an initialiser: its result is not known
		var v Val
		if r := c.fn.Signature.Results(); r.Len() == 1 {
			v = s.freshVal(r.At(0).Type(), "init:"+c.fn.String())
		}
		e.setResult(s, c.dst, v)
		return []*State{s}, true
	}
	return nil, false
}
func (initWorld) Return(e *Exec, s *State, res Val) {
	e.prog.heap = s.heap
}
func (initWorld) Panic(e *Exec, s *State, v Val)    { e.limitf(s, "panic in an initialiser") }
func (initWorld) Header(e *Exec, s *State) []*State { return []*State{s} }

type nilGhost struct{}

func (nilGhost) Clone() Ghost                              { return nilGhost{} }
func (nilGhost) Map(f func(*Term) *Term, vf func(Val) Val) {}
func (nilGhost) Key(vs func(Val) string) string            { return "" }
func (nilGhost) Visit(f func(Val))                         {}

func (p *Program) runInit() error {
	p.initing = true
	defer func() { p.initing = false }()
	heap := map[int]Val{}
	cell := 1 << 29
	for _, name := range sortedKeys(p.Pkgs) {
		sp := p.Pkgs[name]
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		// allocate all variables so that stores find them
		for _, m := range sortedKeys(sp.Members) {
			if g, ok := sp.Members[m].(*ssa.Global); ok {
				pv := p.globalPtr(g).(*PtrV)
				if _, ok := heap[pv.Cell]; !ok {
					heap[pv.Cell] = p.globals[pv.Cell]
				}
			}
		}
		e := newExec(p, initWorld{p}, fn, name+".init")
		n := 0
		s := &State{heap: heap, pc: newPC(), g: nilGhost{}, fresh: &n, cell: cell}
		e.pushFrame(s, fn, nil, fkCall, nil)
		e.push(s)
		p.heap = nil
		e.run()
		if len(e.fails) > 0 {
			return fmt.Errorf("initialiser of %s: %s", name, e.fails[0].Name)
		}
		if p.heap == nil {
			return fmt.Errorf("initialiser of %s did not return", name)
		}
		heap = p.heap
		cell = s.cell + 1000000
	}
	for c, v := range heap {
		p.globals[c] = v
	}
	return nil
}

// globalVal returns the value of a package variable, by relative package path
// and name.
func (p *Program) globalVal(pkg, name string) Val {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	v := p.globals[p.globalPtr(g).(*PtrV).Cell]
	if pv, ok := v.(*PtrV); ok {
		if m, ok := p.globals[pv.Cell].(*MapV); ok {
			return m
		}
	}
	return v
}

func fnKey(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, repoModule+"/", "")
}

// findFn finds a function by its key, e.g. "(*ecmascript/lexer.Lexer).Lex".
func (p *Program) findFn(key string) *ssa.Function {
	for fn := range p.allFns() {
		if fnKey(fn) == key {
			return fn
		}
	}
	return nil
}

var allFnsMemo map[*ssa.Function]bool

func (p *Program) allFns() map[*ssa.Function]bool {
	if allFnsMemo != nil {
		return allFnsMemo
	}
	m := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || m[fn] {
			return
		}
		m[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.Pkgs {
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.Prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	allFnsMemo = m
	return m
}

// unicodeTables are the range tables of package unicode, by name.
var unicodeTables = func() map[string]*unicode.RangeTable {
	m := map[string]*unicode.RangeTable{}
	for _, t := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		for k, v := range t {
			m[k] = v
		}
	}
	m["Letter"], m["Digit"], m["Mark"], m["Upper"], m["Lower"], m["Title"] = unicode.Letter, unicode.Digit, unicode.Mark, unicode.Upper, unicode.Lower, unicode.Title
	m["Number"], m["Punct"], m["Symbol"], m["Space"], m["Other"] = unicode.Number, unicode.Punct, unicode.Symbol, unicode.Space, unicode.Other
	return m
}()

func tableSet(t *unicode.RangeTable) *Set {
	var iv [][2]int64
	for _, r := range t.R16 {
		if r.Stride == 1 {
			iv = append(iv, [2]int64{int64(r.Lo), int64(r.Hi)})
			continue
		}
		for x := int64(r.Lo); x <= int64(r.Hi); x += int64(r.Stride) {
			iv = append(iv, [2]int64{x, x})
		}
	}
	for _, r := range t.R32 {
		if r.Stride == 1 {
			iv = append(iv, [2]int64{int64(r.Lo), int64(r.Hi)})
			continue
		}
		for x := int64(r.Lo); x <= int64(r.Hi); x += int64(r.Stride) {
			iv = append(iv, [2]int64{x, x})
		}
	}
	return mkSet(iv)
}

var tableMemo = map[string]*Set{}

func tableSetMemo(n string, t *unicode.RangeTable) *Set {
	if s, ok := tableMemo[n]; ok {
		return s
	}
	s := tableSet(t)
	tableMemo[n] = s
	return s
}
