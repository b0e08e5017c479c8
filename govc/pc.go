package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PC is a path condition: a persistent conjunction of facts. Facts about one
// integer term are kept as a set of values, boolean atoms as a truth map, and
// everything else as residual formulas.
type PC struct {
	dom   map[*Term]*Set
	truth map[*Term]bool
	res   []*Term
	strv  map[*Term]*Term // string/U term -> constant it equals
	unsat bool
}

func newPC() *PC {
	return &PC{dom: map[*Term]*Set{}, truth: map[*Term]bool{}, strv: map[*Term]*Term{}}
}

func (p *PC) clone() *PC {
	q := &PC{dom: make(map[*Term]*Set, len(p.dom)+2), truth: make(map[*Term]bool, len(p.truth)+2), strv: p.strv, unsat: p.unsat}
	for k, v := range p.dom {
		q.dom[k] = v
	}
	for k, v := range p.truth {
		q.truth[k] = v
	}
	q.res = append([]*Term{}, p.res...)
	return q
}

// DomOf returns the set of values an integer term may have by its own facts.
func (p *PC) DomOf(t *Term) *Set {
	if t.isConst() {
		return setOf(t.N)
	}
	s := setFull
	if d, ok := p.dom[t]; ok {
		s = d
	}
	if d := intrinsicDom(t); d != nil {
		s = s.inter(d)
	}
	if t.Op == OApp && (t.Name == "lenb" || t.Name == "len") && t.Args[0].Sort == SStr {
		a := t.Args[0]
		if c, ok := p.strv[a]; ok {
			n := int64(len(c.Name))
			if t.Name == "len" {
				n = int64(len([]rune(c.Name)))
			}
			return setOf(n)
		}
		if v, ok := p.truth[mkEq(a, mkStr(""))]; ok && !v {
			s = s.inter(setRange(1, maxI))
		}
	}
	if t.Op == OLin {
		// interval arithmetic
		lo, hi := t.N, t.N
		for i, a := range t.Args {
			d := p.DomOf(a)
			if d.empty() {
				return d
			}
			l, h := d.iv[0][0], d.iv[len(d.iv)-1][1]
			if t.Coef[i] < 0 {
				l, h = h, l
			}
			lo = satMulAdd(lo, t.Coef[i], l)
			hi = satMulAdd(hi, t.Coef[i], h)
		}
		s = s.inter(setRange(lo, hi))
	}
	return s
}

func satMulAdd(a, k, x int64) int64 {
	if a <= minI || a >= maxI {
		return a
	}
	if x <= minI || x >= maxI {
		if (x > 0) == (k > 0) {
			return maxI
		}
		return minI
	}
	r := a + k*x
	if r >= maxI {
		return maxI
	}
	if r <= minI {
		return minI
	}
	return r
}

// intrinsicDom gives the values a term can have by its meaning alone.
func intrinsicDom(t *Term) *Set {
	switch t.Op {
	case OApp:
		if f, ok := intrinsic[t.Name]; ok {
			return f
		}
		if strings.HasPrefix(t.Name, "len") {
			return setRange(0, maxI)
		}
	case OSym:
		if i := strings.IndexByte(t.Name, '#'); i >= 0 {
			if f, ok := intrinsic[t.Name[:i]]; ok {
				return f
			}
		}
	}
	return nil
}

var intrinsic = map[string]*Set{}

type Tri int

const (
	Unknown Tri = iota
	Yes
	No
)

func (t Tri) not() Tri {
	switch t {
	case Yes:
		return No
	case No:
		return Yes
	}
	return Unknown
}

// quick decides a formula from the facts without a solver.
func (p *PC) quick(t *Term) Tri {
	switch t.Op {
	case OConst:
		if t.N != 0 {
			return Yes
		}
		return No
	case ONot:
		return p.quick(t.Args[0]).not()
	case OIn:
		d := p.DomOf(t.Args[0])
		x := d.inter(t.Set)
		if x.empty() {
			return No
		}
		if x.key == d.key {
			return Yes
		}
		return Unknown
	case OGe0:
		d := p.DomOf(t.Args[0])
		if d.empty() {
			return No
		}
		if d.iv[0][0] >= 0 {
			return Yes
		}
		if d.iv[len(d.iv)-1][1] < 0 {
			return No
		}
		for _, r := range p.res {
			if r == t {
				return Yes
			}
		}
		return Unknown
	case OEq0:
		d := p.DomOf(t.Args[0])
		if !d.has(0) {
			return No
		}
		if len(d.iv) == 1 && d.iv[0] == [2]int64{0, 0} {
			return Yes
		}
	case OAnd:
		r := Yes
		for _, a := range t.Args {
			switch p.quick(a) {
			case No:
				return No
			case Unknown:
				r = Unknown
			}
		}
		return r
	case OOr:
		r := No
		for _, a := range t.Args {
			switch p.quick(a) {
			case Yes:
				return Yes
			case Unknown:
				r = Unknown
			}
		}
		if r == Unknown {
			for _, x := range p.res {
				if x == t {
					return Yes
				}
			}
		}
		return r
	case OEq:
		a, b := p.norm(t.Args[0]), p.norm(t.Args[1])
		if a == b {
			return Yes
		}
		if a.isConst() && b.isConst() {
			return No
		}
	}
	if v, ok := p.truth[t]; ok {
		if v {
			return Yes
		}
		return No
	}
	return Unknown
}

func (p *PC) norm(t *Term) *Term {
	for {
		c, ok := p.strv[t]
		if !ok {
			return t
		}
		t = c
	}
}

// Assume returns the path condition with t added. ok is false when that is
// (quickly seen to be) inconsistent.
func (p *PC) Assume(t *Term) (*PC, bool) {
	switch p.quick(t) {
	case Yes:
		return p, true
	case No:
		return p, false
	}
	q := p.clone()
	if !q.add(t) {
		return q, false
	}
	return q, true
}

func (q *PC) add(t *Term) bool {
	switch q.quick(t) {
	case Yes:
		return true
	case No:
		q.unsat = true
		return false
	}
	switch t.Op {
	case OIn:
		x := t.Args[0]
		d := q.DomOf(x).inter(t.Set)
		if d.empty() {
			q.unsat = true
			return false
		}
		q.dom[x] = d
		for _, h := range domHooks {
			for _, e := range h(q, x, d) {
				if !q.add(e) {
					return false
				}
			}
		}
		return q.repropagate()
	case OAnd:
		for _, a := range t.Args {
			if !q.add(a) {
				return false
			}
		}
		return true
	case OOr, OGe0, OEq0:
		q.res = append(q.res, t)
		return q.repropagate()
	case ONot:
		if a := t.Args[0]; a.Op == OEq0 {
			q.truth[a] = false
			return q.repropagate()
		}
		q.truth[t.Args[0]] = false
		for _, h := range truthHooks {
			for _, e := range h(q, t.Args[0], false) {
				if !q.add(e) {
					return false
				}
			}
		}
		return q.repropagate()
	default:
		q.truth[t] = true
		if t.Op == OEq && t.Args[0].Sort != SBool {
			a, b := q.norm(t.Args[0]), q.norm(t.Args[1])
			if a.isConst() {
				a, b = b, a
			}
			if a != b {
				m := make(map[*Term]*Term, len(q.strv)+1)
				for k, v := range q.strv {
					m[k] = v
				}
				if !b.isConst() && b.id > a.id {
					a, b = b, a
				}
				m[a] = b
				q.strv = m
			}
		}
		for _, h := range truthHooks {
			for _, e := range h(q, t, true) {
				if !q.add(e) {
					return false
				}
			}
		}
		return q.repropagate()
	}
}

var domHooks []func(p *PC, x *Term, d *Set) []*Term
var truthHooks []func(p *PC, x *Term, v bool) []*Term

// repropagate applies unit propagation to the residual disjunctions.
func (q *PC) repropagate() bool {
	for again := true; again; {
		again = false
		for i, r := range q.res {
			if r.Op != OOr {
				if (r.Op == OGe0 || r.Op == OEq0) && q.quick(r) == No {
					q.unsat = true
					return false
				}
				continue
			}
			var open []*Term
			sat := false
			for _, a := range r.Args {
				switch q.quick(a) {
				case Yes:
					sat = true
				case Unknown:
					open = append(open, a)
				}
			}
			if sat {
				continue
			}
			if len(open) == 0 {
				q.unsat = true
				return false
			}
			if len(open) == 1 {
				q.res = append(append([]*Term{}, q.res[:i]...), q.res[i+1:]...)
				if !q.add(open[0]) {
					return false
				}
				again = true
				break
			}
		}
	}
	return true
}

// Facts lists the facts as formulas, in a stable order.
func (p *PC) Facts() []*Term {
	var out []*Term
	for t, s := range p.dom {
		out = append(out, mkIn(t, s))
	}
	for t, v := range p.truth {
		if v {
			out = append(out, t)
		} else {
			out = append(out, mkNot(t))
		}
	}
	out = append(out, p.res...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Decide decides t under the path condition.
func (p *PC) Decide(t *Term) Tri {
	if r := p.quick(t); r != Unknown {
		return r
	}
	// Booleans and simple domains not connected to residuals are free.
	rel := p.related(t)
	if len(rel) == 0 && (t.Op == OIn || t.Op == OOr && false) {
		if t.Args[0].Op != OLin {
			return Unknown
		}
	}
	if t.Op == OApp || t.Op == OSym || t.Op == OEq && len(rel) == 0 {
		return Unknown
	}
	if t.Op == ONot && (t.Args[0].Op == OApp || t.Args[0].Op == OSym) {
		return Unknown
	}
	if solver.check(rel, mkNot(t)) == No {
		return Yes
	}
	if solver.check(rel, t) == No {
		return No
	}
	return Unknown
}

// Entails reports whether the path condition implies t.
func (p *PC) Entails(t *Term) bool {
	if p.unsat {
		return true
	}
	if r := p.quick(t); r != Unknown {
		return r == Yes
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			if !p.Entails(a) {
				return false
			}
		}
		return true
	}
	return solver.check(p.related(t), mkNot(t)) == No
}

// leaves collects the atoms a formula talks about.
func leaves(t *Term, m map[*Term]bool) {
	switch t.Op {
	case OConst:
	case OSym:
		m[t] = true
	case OApp:
		m[t] = true // applications are atoms for the solver
	default:
		for _, a := range t.Args {
			leaves(a, m)
		}
	}
}

// related returns the facts connected to t through shared leaves. Only
// residual formulas and disequalities connect; domains are added for every
// leaf involved.
func (p *PC) related(t *Term) []*Term {
	m := map[*Term]bool{}
	leaves(t, m)
	used := map[int]bool{}
	var out []*Term
	type fl struct {
		f *Term
		l map[*Term]bool
	}
	var fs []fl
	addf := func(f *Term) {
		l := map[*Term]bool{}
		leaves(f, l)
		fs = append(fs, fl{f, l})
	}
	for _, r := range p.res {
		addf(r)
	}
	for x, v := range p.truth {
		if x.Op == OEq0 && !v {
			addf(mkNot(x))
		} else if x.Op == OEq {
			if v {
				addf(x)
			} else {
				addf(mkNot(x))
			}
		}
	}
	for x, s := range p.dom {
		if x.Op == OLin {
			addf(mkIn(x, s))
		}
	}
	for again := true; again; {
		again = false
		for i, f := range fs {
			if used[i] {
				continue
			}
			hit := false
			for l := range f.l {
				if m[l] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				out = append(out, f.f)
				for l := range f.l {
					m[l] = true
				}
			}
		}
	}
	// An unrelated simple atom needs no solver.
	if len(out) == 0 && t.Op != OLin {
		multi := false
		if t.Op == OGe0 || t.Op == OEq0 || t.Op == OOr || t.Op == OAnd || t.Op == ONot {
			multi = true
		}
		if t.Op == OIn && t.Args[0].Op == OLin {
			multi = true
		}
		if !multi {
			return nil
		}
	}
	for l := range m {
		if l.Sort == SInt {
			if d := p.DomOf(l); !d.full() {
				out = append(out, intern(&Term{Op: OIn, Sort: SBool, Args: []*Term{l}, Set: d}))
			}
		} else if l.Sort == SBool {
			if v, ok := p.truth[l]; ok {
				if v {
					out = append(out, l)
				} else {
					out = append(out, mkNot(l))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ---- z3 back end ----

type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	cache  map[string]Tri
	Calls  int
	Hits   int
	Time   time.Duration
	Native int
}

var slowLog = os.Getenv("GOVC_SLOW") != ""

var solver = &Solver{cache: map[string]Tri{}}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-t:5000")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReader(o)
	return s.cmd.Start()
}

// check decides satisfiability of facts && goal: No when unsatisfiable, Yes
// when satisfiable, Unknown otherwise.
func (s *Solver) check(facts []*Term, goal *Term) Tri {
	if goal == tFalse {
		return No
	}
	var kb strings.Builder
	for _, f := range facts {
		kb.WriteString(strconv.Itoa(f.id))
		kb.WriteByte(',')
	}
	kb.WriteString("?" + strconv.Itoa(goal.id))
	k := kb.String()
	if r, ok := s.cache[k]; ok {
		s.Hits++
		return r
	}
	q := smtQuery(append(append([]*Term{}, facts...), goal))
	t0 := time.Now()
	r := s.raw(q)
	s.Time += time.Since(t0)
	if slowLog && time.Since(t0) > 50*time.Millisecond {
		fmt.Println("SLOW", time.Since(t0), "goal", goal)
		for _, f := range facts {
			x := f.String()
			if len(x) > 200 {
				x = x[:200]
			}
			fmt.Println("    ", x)
		}
	}
	s.Calls++
	s.cache[k] = r
	return r
}

func (s *Solver) raw(q string) Tri {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	io.WriteString(s.in, "(reset)\n(set-option :timeout 5000)\n"+q+"(check-sat)\n(echo \"done\")\n")
	res := Unknown
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd = nil
			return Unknown
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "done":
			return res
		case l == "sat":
			res = Yes
		case l == "unsat":
			res = No
		case strings.HasPrefix(l, "(error"):
			panic("z3: " + l + "\n" + q)
		}
	}
}

func smtQuery(fs []*Term) string {
	var decl, body strings.Builder
	names := map[*Term]string{}
	strs := map[string]int{}
	var conv func(t *Term) string
	name := func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		n := fmt.Sprintf("x%d", len(names))
		names[t] = n
		srt := "Int"
		if t.Sort == SBool {
			srt = "Bool"
		}
		fmt.Fprintf(&decl, "(declare-const %s %s)\n", n, srt)
		return n
	}
	num := func(n int64) string {
		if n < 0 {
			return fmt.Sprintf("(- %d)", -n)
		}
		return strconv.FormatInt(n, 10)
	}
	conv = func(t *Term) string {
		switch t.Op {
		case OConst:
			switch t.Sort {
			case SBool:
				if t.N != 0 {
					return "true"
				}
				return "false"
			case SInt:
				return num(t.N)
			default:
				// distinct constants as distinct integers
				i, ok := strs[t.Name]
				if !ok {
					i = len(strs)
					strs[t.Name] = i
				}
				return strconv.Itoa(i)
			}
		case OSym, OApp:
			return name(t)
		case OLin:
			var b strings.Builder
			b.WriteString("(+ " + num(t.N))
			for i, a := range t.Args {
				fmt.Fprintf(&b, " (* %s %s)", num(t.Coef[i]), conv(a))
			}
			return b.String() + ")"
		case OIn:
			x := conv(t.Args[0])
			if t.Set.empty() {
				return "false"
			}
			var b strings.Builder
			b.WriteString("(or false")
			for _, p := range t.Set.iv {
				switch {
				case p[0] == p[1]:
					fmt.Fprintf(&b, " (= %s %s)", x, num(p[0]))
				case p[0] <= minI && p[1] >= maxI:
					b.WriteString(" true")
				case p[0] <= minI:
					fmt.Fprintf(&b, " (<= %s %s)", x, num(p[1]))
				case p[1] >= maxI:
					fmt.Fprintf(&b, " (>= %s %s)", x, num(p[0]))
				default:
					fmt.Fprintf(&b, " (and (>= %s %s) (<= %s %s))", x, num(p[0]), x, num(p[1]))
				}
			}
			return b.String() + ")"
		case OGe0:
			return "(>= " + conv(t.Args[0]) + " 0)"
		case OEq0:
			return "(= " + conv(t.Args[0]) + " 0)"
		case OEq:
			return "(= " + conv(t.Args[0]) + " " + conv(t.Args[1]) + ")"
		case ONot:
			return "(not " + conv(t.Args[0]) + ")"
		case OAnd, OOr:
			var b strings.Builder
			if t.Op == OAnd {
				b.WriteString("(and")
			} else {
				b.WriteString("(or")
			}
			for _, a := range t.Args {
				b.WriteString(" " + conv(a))
			}
			return b.String() + ")"
		}
		return "?"
	}
	for _, f := range fs {
		body.WriteString("(assert " + conv(f) + ")\n")
	}
	return decl.String() + body.String()
}
