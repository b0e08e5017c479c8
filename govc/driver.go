package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A unit is one verification task: a function of the repository with its
// contract.
type unit struct {
	name  string
	props []string
	mk    func(p *Program) *Exec
}

// unitResult is what a worker process reports about a unit.
type unitResult struct {
	Unit    string
	Fails   []*Failure
	Oblig   map[string]int
	OKs     map[string]int
	Names   map[string]map[string]int
	Steps   int
	Paths   int
	Inlined []string
	Assumed []string
	Solver  int
	SolverS float64
	WallS   float64
	Bounded string
	Edges   []string
	Warn    string
	Crash   string
}

func (u *unit) serves(prop string) bool {
	for _, p := range u.props {
		if p == prop {
			return true
		}
	}
	return false
}

func concerns(f *Failure, prop string) bool {
	if len(f.Props) == 0 {
		return true
	}
	for _, p := range f.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// runUnit verifies one unit in this process.
func runUnit(name, prop string, limit time.Duration) *unitResult {
	r := &unitResult{Unit: name}
	t0 := time.Now()
	defer func() { r.WallS = time.Since(t0).Seconds() }()
	var u *unit
	for i := range units() {
		if units()[i].name == name {
			u = &units()[i]
		}
	}
	if u == nil {
		r.Crash = "no such unit"
		return r
	}
	p, err := loadProgram()
	if err != nil {
		r.Crash = "the repository does not load: " + err.Error()
		return r
	}
	var e *Exec
	func() {
		defer func() {
			if x := recover(); x != nil && os.Getenv("GOVC_PANIC") == "" {
				r.Crash = fmt.Sprintf("the engine failed: %v", x)
			}
		}()
		e = u.mk(p)
		e.focus = prop
		if limit > 0 {
			e.limit = limit
		}
		e.run()
	}()
	if e == nil {
		return r
	}
	r.Fails, r.Oblig, r.OKs, r.Names = e.fails, e.Oblig, e.OKs, e.ObNames
	r.Steps, r.Paths = e.steps, e.paths
	r.Bounded = e.Bounded
	r.Edges = keysOf(e.edges)
	r.Inlined, r.Assumed = keysOf(e.Inlined), keysOf(e.Assumed)
	for _, a := range keysOf(p.Assumed) {
		r.Assumed = append(r.Assumed, a)
	}
	r.Solver, r.SolverS = solver.Calls, solver.Time.Seconds()
	return r
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runUnits runs the units of a property in worker processes.
func runUnits(prop string, us []unit, limit time.Duration) []*unitResult {
	out := make([]*unitResult, len(us))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range us {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), limit+90*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, os.Args[0], "unit", us[i].name, prop, limit.String())
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err := cmd.Run()
			r := &unitResult{Unit: us[i].name}
			if e := json.Unmarshal(so.Bytes(), r); e != nil {
				msg := se.String()
				if len(msg) > 2000 {
					msg = msg[:2000]
				}
				r.Crash = fmt.Sprintf("worker: %v %s", err, msg)
			}
			out[i] = r
		}(i)
	}
	wg.Wait()
	return out
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// check decides one property and returns the exit code.
func check(prop, tier string) int {
	t0 := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	work, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		work = evdir
	}
	defer os.RemoveAll(work)
	var us []unit
	for _, u := range units() {
		if u.serves(prop) {
			us = append(us, u)
		}
	}
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 1800 * time.Second
	}
	rs := runUnits(prop, us, limit)
	type bad struct {
		f *Failure
		u string
	}
	var bads []bad
	total, done := 0, 0
	var unitEv []map[string]interface{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	names := map[string]int{}
	solver, solverS := 0, 0.0
	for _, r := range rs {
		if r.Crash != "" {
			bads = append(bads, bad{&Failure{Func: r.Unit, Name: "verification completes", Detail: r.Crash, Kind: "limit"}, r.Unit})
			total++
		}
		n := 0
		for _, f := range r.Fails {
			if concerns(f, prop) {
				bads = append(bads, bad{f, r.Unit})
				if f.Kind == "limit" {
					total++
				}
				n++
			}
		}
		if r.Crash == "" && r.Oblig[prop] == 0 {
			// vacuity guard: a unit registered for a property has to say something about it
			bads = append(bads, bad{&Failure{Func: r.Unit, Name: "the contract generates obligations", Detail: "no obligation for " + prop + " was generated", Kind: "limit"}, r.Unit})
			total++
		}
		if r.Bounded == "" {
			total += r.Oblig[prop]
			done += r.OKs[prop]
		}
		for k, v := range r.Names[prop] {
			names[k] += v
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		solver += r.Solver
		solverS += r.SolverS
		ue := map[string]interface{}{"function": r.Unit, "obligations": r.Oblig[prop], "discharged": r.OKs[prop], "paths": r.Paths, "steps": r.Steps, "solver_queries": r.Solver, "solver_s": r.SolverS, "wall_s": r.WallS, "failed": n}
		if r.Bounded != "" {
			ue["bounded"] = r.Bounded
		}
		unitEv = append(unitEv, ue)
	}
	if prop == "C02" {
		total++
		if cyc := edgeCycle(rs); cyc == "" {
			done++
			names["calls made before any token was consumed are not recursive (over all functions)"]++
		} else {
			bads = append(bads, bad{&Failure{Func: "parser", Name: "calls made before any token was consumed are not recursive", Detail: cyc, Kind: "recursion"}, "parser"})
		}
	}
	var violations []interface{}
	exit := 0
	var cross map[string]interface{}
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	rp := filepath.Join(evdir, "replay", prop+".json")
	os.Remove(rp)
	budget := time.Duration(envInt("GOVC_CROSS", 12)) * time.Second
	if tier == "thorough" {
		budget = 180 * time.Second
	}
	if len(bads) > 0 {
		budget = 75 * time.Second
	}
	var w map[string]interface{}
	var log string
	if noReplay[prop] {
		log = "no witness search for this property"
	} else {
		w, log = searchWitness(prop, work, budget)
	}
	cross = map[string]interface{}{"what": "bounded, not counted as proof: the real code is run on generated inputs against the specification, to find a failing input for a failed obligation and to cross-check the trusted parts of the verifier", "budget_s": budget.Seconds(), "result": log}
	if w != nil && len(bads) == 0 {
		bads = append(bads, bad{&Failure{Func: "witness search", Name: "the real code meets the specification on a concrete input", Detail: fmt.Sprint(w["What"]), Kind: "witness"}, "witness search"})
		total++
	}
	if len(bads) > 0 {
		exit = 1
		for i, b := range bads {
			if i < 12 {
				fmt.Printf("FAILED OBLIGATION (%s) %s: %s\n    at %s\n    %s\n", b.u, b.f.Kind, b.f.Name, b.f.Pos, clip(b.f.Detail, 600))
			}
			violations = append(violations, map[string]interface{}{"function": b.u, "kind": b.f.Kind, "obligation": b.f.Name, "position": b.f.Pos, "detail": clip(b.f.Detail, 2000)})
		}
		rec := map[string]interface{}{"property": prop, "failed_obligations": violations}
		var traces []interface{}
		for i, b := range bads {
			if i < 5 {
				traces = append(traces, map[string]interface{}{"obligation": b.f.Name, "path": b.f.Trace, "path_condition": b.f.PC})
			}
		}
		rec["verifier_output"] = traces
		tail := ""
		if w != nil {
			rec["witness"] = w
			for k, v := range w {
				rec[k] = v
			}
			fmt.Printf("FAILING INPUT %v\n", w)
		} else {
			tail = " no-failing-input-found"
			rec["search"] = log
		}
		js, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(rp, append(js, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, tail)
	} else {
		fmt.Printf("%s: %d obligations of %d functions discharged (%d distinct)\n", prop, done, len(us), len(names))
	}
	as := append([]string{}, baseAssumptions...)
	as = append(as, propAssumptions[prop]...)
	for _, a := range keysOf(assumed) {
		as = append(as, "library contract, not verified: "+a)
	}
	var dist []string
	for k, v := range names {
		dist = append(dist, fmt.Sprintf("%s (%d paths)", k, v))
	}
	sort.Strings(dist)
	seed := envInt("VERIF_SEED", 1)
	if tier != "thorough" {
		tier = "quick"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": done,
			"checker_cmd":         fmt.Sprintf("govc check %s %s (verification conditions from go/ssa of /repo's current tree; set, order and list reasoning of govc, z3 4.8.12 for the arithmetic that is left)", prop, tier),
			"trusted_base":        []string{"govc (VC generator and simplifier, /verif/govc)", "golang.org/x/tools/go/ssa v0.52.0", "z3 4.8.12", "go 1.27 compiler and runtime"},
			"functions":           unitEv,
			"inlined_functions":   keysOf(inlined),
			"distinct_obligation": dist,
			"solver_queries":      solver,
			"solver_s":            solverS,
			"cross_check":         cross,
		},
		"assumptions": as,
		"violations":  violations,
		"wall_s":      time.Since(t0).Seconds(),
	}
	if violations == nil {
		ev["violations"] = []interface{}{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	return exit
}

// edgeCycle looks for a cycle in the calls that the functions make before they
// consume a token: such a recursion need not end.
func edgeCycle(rs []*unitResult) string {
	g := map[string][]string{}
	for _, r := range rs {
		for _, e := range r.Edges {
			if i := strings.Index(e, " -> "); i > 0 {
				g[e[:i]] = append(g[e[:i]], e[i+4:])
			}
		}
	}
	var ks []string
	for k := range g {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	state := map[string]int{}
	var path []string
	var visit func(k string) string
	visit = func(k string) string {
		if state[k] == 2 {
			return ""
		}
		path = append(path, k)
		defer func() { path = path[:len(path)-1] }()
		if state[k] == 1 {
			return strings.Join(path, " -> ")
		}
		state[k] = 1
		for _, n := range g[k] {
			if c := visit(n); c != "" {
				return c
			}
		}
		state[k] = 2
		return ""
	}
	for _, k := range ks {
		if c := visit(k); c != "" {
			return c
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// searchWitness looks for a concrete failing input in the real code.
func searchWitness(prop, work string, budget time.Duration) (map[string]interface{}, string) {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	src := filepath.Join(verif, "replay")
	// a module file that points at the repository
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return nil, err.Error()
	}
	mf := filepath.Join(work, "replay.mod")
	os.WriteFile(mf, bytes.ReplaceAll(mod, []byte("=> /repo"), []byte("=> "+repoDir())), 0o644)
	sum, _ := os.ReadFile(filepath.Join(src, "go.sum"))
	os.WriteFile(filepath.Join(work, "replay.sum"), sum, 0o644)
	spec := filepath.Join(work, "spec.json")
	js, _ := json.Marshal(dumpSpec())
	os.WriteFile(spec, js, 0o644)
	bin := filepath.Join(work, "replay")
	b := exec.Command("go", "build", "-modfile", mf, "-o", bin, ".")
	b.Dir = src
	if o, err := b.CombinedOutput(); err != nil {
		return nil, "the witness search does not build: " + clip(string(o), 500)
	}
	out := filepath.Join(work, "witness.json")
	ctx, cancel := context.WithTimeout(context.Background(), budget+30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-prop", prop, "-spec", spec, "-out", out, "-budget", budget.String(), "-seed", strconv.Itoa(envInt("VERIF_SEED", 1)), "-corpus", repoDir(), "-selftest")
	c.Dir = work
	var so bytes.Buffer
	c.Stdout = &so
	err = c.Run()
	if wb, e := os.ReadFile(out); e == nil {
		var w map[string]interface{}
		if json.Unmarshal(wb, &w) == nil {
			return w, "failing input found"
		}
	}
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	msg := lines[len(lines)-1]
	if err != nil {
		msg += " (" + err.Error() + ")"
	}
	return nil, "no failing input: " + clip(msg, 300)
}

var noReplay = map[string]bool{}

var baseAssumptions = []string{
	"stack and memory are not exhausted (recursion depth and allocation size are not bounded)",
	"integers of the code are mathematical integers (no overflow of positions and counters)",
	"sequential execution: no other goroutine touches the objects of a call",
	"the Go compiler, runtime and go/ssa implement the language's semantics",
}

var propAssumptions = map[string][]string{}

// dumpSpec is the lexical grammar in the form the witness search reads.
func dumpSpec() interface{} {
	type edge struct {
		Set  [][2]int64
		To   int
		Keep int
		NL   bool
	}
	type state struct {
		Name, Label string
		Skip        bool
		Edges       []edge
		Bad         [][2]int64
	}
	conv := func(sp *lexSpec) []state {
		var out []state
		for _, s := range sp.states {
			st := state{Name: s.name, Label: s.label, Skip: s.skip}
			if s.bad != nil {
				st.Bad = s.bad.iv
			}
			for _, e := range s.edges {
				st.Edges = append(st.Edges, edge{e.set.iv, e.to, e.keep, e.nl})
			}
			out = append(out, st)
		}
		return out
	}
	return map[string]interface{}{"Token": conv(tokenSpec()), "Regexp": conv(regexpSpec()), "Keywords": keywords, "Puncts": punctuators}
}
