package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decKind uint8

const (
	dBranch decKind = iota
	dConc
	dChoose
	dSched
)

type Dec struct {
	kind decKind
	val  uint64
	excl []uint64 // values excluded before (dConc)
	node *SchedNode
	pre  int // preemptions used so far (dSched)
}

type workItem struct {
	prefix []Dec
	model  Model
}

type Path struct {
	ex     *Explorer
	w      *Worker
	prefix []Dec
	decs   []Dec
	pc     []*Term
	pcSet  map[*Term]bool
	model  Model
	names  map[string]int
	inputs []inputRec
	preempt int
	branches int
	trivial int
}

type inputRec struct {
	Name string
	Kind string
	Term *Term
	Val  uint64 // for choices
	N    int
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Key     string            `json:"key"`
	Msg     string            `json:"message"`
	Inputs  []NamedVal        `json:"inputs"`
	Decs    []string          `json:"decisions"`
	Trace   []string          `json:"trace,omitempty"`
	Observe []string          `json:"observed,omitempty"`
	Approx  []string          `json:"approximations,omitempty"`
	Sched   bool              `json:"schedule_dependent"`
	Params  map[string]int64  `json:"params,omitempty"`
	Native  string            `json:"native_replay,omitempty"`
	decs    []Dec
}

type NamedVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

// Explorer explores all paths of one harness.
type Explorer struct {
	P       *Program
	H       *Harness
	fn      *ssa.Function
	tier    string
	seed    int64
	workers []*Worker

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	active  int
	stop    atomic.Bool
	reason  string
	deadline time.Time

	Paths      int64
	Complete   int64
	AssumeEnd  int64
	SleepEnd   int64
	Outcomes   map[string]int
	Limits     int64
	Unsupp     map[string]int
	UnknownBr  int64
	Violations []*Violation
	vioKeys    map[string]int
	Covers     map[string]int64
	Asserts    int64 // assertions discharged by the solver (refuted negations)
	AssertsC   int64 // assertions that were concrete on the path
	Decisions  int64
	SchedDecs  int64
	Steps      int64
	MaxPC      int
	samples    []*PathSample
	sampleSeen int64
	Approx     map[string]int
	AssertKeys map[string]int64
	Pruned     int64
}

type PathSample struct {
	Inputs  []NamedVal
	Observe []string
	Covers  []string
}

type Worker struct {
	id  int
	ex  *Explorer
	m   *Machine
	T   *Terms
	sol *Solver
	fns map[*Code]bool
	rng *rand.Rand
}

func (w *Worker) noteFn(c *Code) {
	if !w.fns[c] {
		w.fns[c] = true
	}
}

var solverBin = "z3-new"

func NewExplorer(P *Program, h *Harness, fn *ssa.Function, tier string, seed int64, nworkers int, deadline time.Time) *Explorer {
	ex := &Explorer{P: P, H: h, fn: fn, tier: tier, seed: seed, deadline: deadline,
		Unsupp: map[string]int{}, vioKeys: map[string]int{}, Covers: map[string]int64{}, Approx: map[string]int{}, AssertKeys: map[string]int64{}}
	ex.cond = sync.NewCond(&ex.mu)
	for i := 0; i < nworkers; i++ {
		T := NewTerms()
		w := &Worker{id: i, ex: ex, T: T, fns: map[*Code]bool{}, rng: rand.New(rand.NewSource(seed*1000 + int64(i)))}
		qt := 10000
		if h.QueryMS > 0 {
			qt = h.QueryMS
		}
		w.sol = NewSolver(T, solverBin, qt)
		w.m = newMachine(P, w)
		ex.workers = append(ex.workers, w)
	}
	return ex
}

func (ex *Explorer) Run() {
	ex.queue = []*workItem{{}}
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
			w.sol.Close()
		}(w)
	}
	wg.Wait()
}

func (w *Worker) loop() {
	ex := w.ex
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.active > 0 && !ex.stop.Load() {
			ex.cond.Wait()
		}
		if ex.stop.Load() || len(ex.queue) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if time.Now().After(ex.deadline) {
			ex.stopWith("time budget exhausted")
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		// depth first, except that a part of the workers takes from the shallow end to diversify
		k := len(ex.queue) - 1
		if os.Getenv("GOSYM_ORD") == "fifo" {
			k = 0
		} else if os.Getenv("GOSYM_ORD") == "rand" {
			k = w.rng.Intn(len(ex.queue))
		} else if w.id%4 == 3 && len(ex.queue) > 8 {
			k = w.rng.Intn(len(ex.queue))
		}
		it := ex.queue[k]
		ex.queue[k] = ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.active++
		ex.Paths++
		if ex.H.MaxPaths > 0 && ex.Paths > int64(ex.H.MaxPaths) {
			ex.stopWith(fmt.Sprintf("path budget %d exhausted", ex.H.MaxPaths))
		}
		ex.mu.Unlock()
		w.runPath(it)
		ex.mu.Lock()
		ex.active--
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) stopWith(r string) {
	if ex.reason == "" {
		ex.reason = r
	}
	ex.stop.Store(true)
}

func (ex *Explorer) push(it *workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (w *Worker) runPath(it *workItem) {
	m := w.m
	m.dtrace = nil
	if len(w.T.tab) > 3_000_000 { // keep memory bounded
		w.sol.Close()
		w.T = NewTerms()
		st := w.sol
		w.sol = NewSolver(w.T, solverBin, st.Timeout)
		w.sol.Queries, w.sol.NSat, w.sol.NUnsat, w.sol.NUnknown, w.sol.Time, w.sol.MaxQuery, w.sol.Errors = st.Queries, st.NSat, st.NUnsat, st.NUnknown, st.Time, st.MaxQuery, st.Errors
		nm := newMachine(w.ex.P, w)
		w.m = nm
		m = nm
	}
	p := &Path{ex: w.ex, w: w, prefix: it.prefix, model: it.model, names: map[string]int{}, pcSet: map[*Term]bool{}}
	if p.model == nil {
		p.model = Model{}
	}
	end := m.run(p, w.ex.fn, w.ex.H)
	w.finishPath(p, m, end)
}

func (w *Worker) finishPath(p *Path, m *Machine, end *pathEnd) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if traceDPOR {
		pf := ""
		for _, d := range p.prefix {
			pf += fmt.Sprint(d.val, " ")
		}
		fmt.Println("PATH", end.kind, "prefix", pf, strings.Join(m.renderObs(p), " "), "\n   "+strings.Join(m.dtrace, "\n   "))
	}
	ex.Decisions += int64(len(p.decs) - len(p.prefix))
	ex.Steps += m.steps
	if len(p.pc) > ex.MaxPC {
		ex.MaxPC = len(p.pc)
	}
	for _, a := range m.approx {
		ex.Approx[a]++
	}
	switch end.kind {
	case "done":
		ex.Complete++
		for c := range m.covers {
			ex.Covers[c]++
		}
		if *fOut != "" {
			if ex.Outcomes == nil {
				ex.Outcomes = map[string]int{}
			}
			ex.Outcomes[strings.Join(m.renderObs(p), " | ")]++
		}
		// reservoir sample
		ex.sampleSeen++
		ns := 12
		if len(m.approx) == 0 {
			var idx = -1
			if len(ex.samples) < ns {
				ex.samples = append(ex.samples, nil)
				idx = len(ex.samples) - 1
			} else if k := w.rng.Int63n(ex.sampleSeen); k < int64(ns) {
				idx = int(k)
			}
			if idx >= 0 {
				ex.samples[idx] = &PathSample{Inputs: p.inputVals(w), Observe: m.renderObs(p), Covers: sortedKeys(m.covers)}
			}
		}
	case "assume", "infeasible":
		ex.AssumeEnd++
	case "violation":
		for c := range m.covers {
			ex.Covers[c]++
		}
	case "sleep":
		ex.SleepEnd++
	case "limit":
		ex.Limits++
		ex.Unsupp["limit: "+end.msg]++
	case "stopped":
		ex.Pruned++
	default:
		k := end.kind + ": " + end.msg
		if len(k) > 1500 {
			k = k[:1500]
		}
		ex.Unsupp[k]++
	}
}

// ---------- decisions ----------

func (p *Path) push(c *Term) {
	if c == p.w.T.True {
		return
	}
	p.pc = append(p.pc, c)
	p.pcSet[c] = true
}

func (p *Path) evalBool(c *Term) bool {
	p.w.T.newGen()
	e := evaluator{p.w.T, p.model}
	return e.eval(c) == 1
}
func (p *Path) eval(c *Term) uint64 {
	p.w.T.newGen()
	e := evaluator{p.w.T, p.model}
	return e.eval(c)
}

func (p *Path) nextDec(kind decKind) (Dec, bool) {
	k := len(p.decs)
	if k < len(p.prefix) {
		d := p.prefix[k]
		if d.kind != kind {
			panic(unsupported(fmt.Sprintf("replay divergence: decision %d is %d, expected %d", k, kind, d.kind)))
		}
		p.decs = append(p.decs, d)
		return d, true
	}
	if p.ex.stop.Load() {
		panic(&pathEnd{"stopped", "exploration stopped"})
	}
	return Dec{}, false
}

func (p *Path) clonePrefix(extra Dec) []Dec {
	r := make([]Dec, len(p.decs)+1)
	copy(r, p.decs)
	r[len(p.decs)] = extra
	return r
}

func (p *Path) check(extra *Term) (SatResult, Model) {
	return p.w.sol.Check(p.pc, extra)
}

func (p *Path) branch(m *Machine, c *Term) bool {
	T := p.w.T
	// already implied syntactically? (before consuming a decision, so that replays stay aligned)
	nc := T.Not(c)
	if p.pcSet[c] {
		return true
	}
	if p.pcSet[nc] {
		return false
	}
	if d, ok := p.nextDec(dBranch); ok {
		if d.val == 1 {
			p.push(c)
		} else {
			p.push(nc)
		}
		return d.val == 1
	}
	p.branches++
	side := p.evalBool(c)
	this, other := c, nc
	if !side {
		this, other = nc, c
	}
	r, mod := p.check(other)
	switch r {
	case Sat:
		v := uint64(1)
		if side {
			v = 0
		}
		p.ex.push(&workItem{prefix: p.clonePrefix(Dec{kind: dBranch, val: v}), model: mod})
	case Unknown:
		atomic.AddInt64(&p.ex.UnknownBr, 1)
	case Unsat:
		// the branch is forced: no decision needed on replay? keep it so that replays stay aligned
	}
	v := uint64(0)
	if side {
		v = 1
	}
	p.decs = append(p.decs, Dec{kind: dBranch, val: v})
	p.push(this)
	return side
}

// concretize picks a value of t, exploring all of them.
func (p *Path) concretize(m *Machine, t *Term) uint64 {
	T := p.w.T
	if t.isConst() {
		return t.val
	}
	if t.sort == SBool {
		if p.branch(m, t) {
			return 1
		}
		return 0
	}
	eqc := func(v uint64) *Term { return T.Eq(t, T.BV(v, t.sort)) }
	if d, ok := p.nextDec(dConc); ok {
		p.push(eqc(d.val))
		return d.val
	}
	v := p.eval(t)
	return p.concFrom(t, v, nil, eqc)
}

func (p *Path) concFrom(t *Term, v uint64, excl []uint64, eqc func(uint64) *Term) uint64 {
	T := p.w.T
	// enumerate alternatives eagerly (each alternative is one work item)
	seen := map[uint64]bool{v: true}
	neq := T.Not(eqc(v))
	for n := 0; ; n++ {
		if n > 300 {
			p.ex.mu.Lock()
			p.ex.Unsupp["limit: more than 300 values while concretising a term"]++
			p.ex.mu.Unlock()
			break
		}
		r, mod := p.check(neq)
		if r == Unknown {
			atomic.AddInt64(&p.ex.UnknownBr, 1)
			break
		}
		if r == Unsat {
			break
		}
		p.w.T.newGen()
		e := evaluator{p.w.T, mod}
		x := e.eval(t)
		if seen[x] {
			panic(unsupported("concretize: model does not make progress"))
		}
		seen[x] = true
		p.ex.push(&workItem{prefix: p.clonePrefix(Dec{kind: dConc, val: x}), model: mod})
		neq = T.And(neq, T.Not(eqc(x)))
	}
	p.decs = append(p.decs, Dec{kind: dConc, val: v})
	p.push(eqc(v))
	return v
}

// choose is an unconstrained choice among n alternatives.
func (p *Path) choose(m *Machine, n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.nextDec(dChoose); ok {
		return int(d.val)
	}
	for k := n - 1; k >= 1; k-- {
		p.ex.push(&workItem{prefix: p.clonePrefix(Dec{kind: dChoose, val: uint64(k)}), model: p.model})
	}
	p.decs = append(p.decs, Dec{kind: dChoose, val: 0})
	return 0
}

// schedule picks the goroutine that runs next.
func (p *Path) schedule(m *Machine, g *G, en []*G) *G {
	byID := func(id int) *G {
		for _, x := range en {
			if x.id == id {
				return x
			}
		}
		panic(unsupported("replay divergence: scheduled goroutine is not enabled"))
	}
	curEn := false
	for _, x := range en {
		if x == g {
			curEn = true
		}
	}
	if d, ok := p.nextDec(dSched); ok {
		x := byID(int(d.val))
		if curEn && x != g {
			p.preempt++
		}
		if m.sstate != nil {
			m.sstate.begin(m, x, d.node, en)
		}
		return x
	}
	atomic.AddInt64(&p.ex.SchedDecs, 1)
	def := m.pickDefault(g, en)
	if m.sstate != nil { // DPOR
		asleep := map[int]bool{}
		if m.sstate.asleep(def.id) {
			def = nil
		}
		for _, x := range en {
			if m.sstate.asleep(x.id) {
				asleep[x.id] = true
			} else if def == nil {
				def = x
			}
		}
		node := &SchedNode{mu: make(chan struct{}, 1), enabled: gids(en), added: map[int]bool{def.id: true}, order: []int{def.id},
			asleep: asleep, fp: map[int][]fpAcc{}, bad: map[int]bool{}, child: map[int][]sleepEnt{}, maxObj: m.nobj}
		p.decs = append(p.decs, Dec{kind: dSched, val: uint64(def.id), node: node})
		m.sstate.begin(m, def, node, en)
		return def
	}
	bound := p.ex.H.Preempt
	for _, x := range en {
		if x == def {
			continue
		}
		if curEn && p.preempt+1 > bound {
			continue // preemption bound
		}
		p.ex.push(&workItem{prefix: p.clonePrefix(Dec{kind: dSched, val: uint64(x.id)}), model: p.model})
	}
	p.decs = append(p.decs, Dec{kind: dSched, val: uint64(def.id)})
	return def
}

// backtrack adds goroutine gid as an alternative at the node where transition t was chosen.
func (p *Path) backtrack(m *Machine, t transition, gid int, ini []int) {
	n := t.node
	if n == nil {
		return
	}
	n.mu <- struct{}{}
	var add []int
	for _, e := range ini {
		if n.added[e] || n.asleep[e] {
			<-n.mu
			return
		}
	}
	can := map[int]bool{}
	for _, e := range n.enabled {
		can[e] = true
	}
	for _, e := range ini {
		if can[e] && (len(add) == 0 || e == gid) {
			add = []int{e}
		}
	}
	if len(add) == 0 {
		for _, e := range n.enabled {
			if !n.added[e] {
				add = append(add, e)
			}
		}
	}
	k := add[:0]
	for _, a := range add {
		if n.asleep[a] {
			continue
		}
		n.added[a] = true
		n.order = append(n.order, a)
		k = append(k, a)
	}
	add = k
	<-n.mu
	for _, a := range add {
		pre := make([]Dec, t.dpos+1)
		copy(pre, p.decs[:t.dpos])
		pre[t.dpos] = Dec{kind: dSched, val: uint64(a), node: n}
		p.ex.push(&workItem{prefix: pre, model: p.model})
	}
}

// assume restricts the path.
func (p *Path) assume(m *Machine, v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(&pathEnd{"assume", ""})
		}
	case *Term:
		if p.evalBool(v) {
			p.push(v)
			return
		}
		if len(p.decs) < len(p.prefix) {
			// still replaying: the item's model satisfies the whole prefix condition only;
			// variables created after the fork default to zero
		}
		r, mod := p.check(v)
		if r == Sat {
			p.model = mod
			p.push(v)
			return
		}
		if r == Unknown {
			atomic.AddInt64(&p.ex.UnknownBr, 1)
		}
		panic(&pathEnd{"assume", ""})
	}
}

// assert checks that v holds for every value on this path.
func (p *Path) assert(m *Machine, v Value, msg string) {
	if len(p.decs) < len(p.prefix) { // decided when the prefix was first executed
		if t, ok := v.(*Term); ok {
			p.push(t)
		}
		return
	}
	p.ex.mu.Lock()
	p.ex.AssertKeys[msg]++
	p.ex.mu.Unlock()
	switch v := v.(type) {
	case bool:
		atomic.AddInt64(&p.ex.AssertsC, 1)
		if !v {
			m.violation("assert", msg+"\n"+m.stack(m.cur))
		}
	case *Term:
		T := p.w.T
		nv := T.Not(v)
		if !p.evalBool(v) {
			p.push(nv)
			m.violation("assert", msg+"\n"+m.stack(m.cur))
		}
		r, mod := p.check(nv)
		switch r {
		case Sat:
			save := p.model
			p.model = mod
			p.pc = append(p.pc, nv)
			m.recordViolation("assert", msg+"\n"+m.stack(m.cur))
			p.pc = p.pc[:len(p.pc)-1]
			p.model = save
		case Unknown:
			atomic.AddInt64(&p.ex.UnknownBr, 1)
		case Unsat:
			atomic.AddInt64(&p.ex.Asserts, 1)
		}
		p.push(v) // continue under the assertion
	}
}

// modelOK re-establishes a model of the path condition if needed.
func (p *Path) fixModel() bool {
	ok := true
	for _, c := range p.pc {
		if !p.evalBool(c) {
			ok = false
			break
		}
	}
	if ok {
		return true
	}
	r, mod := p.check(nil)
	if r == Sat {
		p.model = mod
		return true
	}
	return false
}

func (p *Path) inputVals(w *Worker) []NamedVal {
	var r []NamedVal
	w.T.newGen()
	e := evaluator{w.T, p.model}
	for _, in := range p.inputs {
		v := in.Val
		if in.Term != nil {
			v = e.eval(in.Term)
		}
		r = append(r, NamedVal{in.Name, in.Kind, v})
	}
	return r
}

func (m *Machine) violation(kind, msg string) {
	m.recordViolation(kind, msg)
	panic(&pathEnd{"violation", msg})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (m *Machine) recordViolation(kind, msg string) {
	p := m.path
	if !p.fixModel() {
		// infeasible or undecided path: never report
		panic(&pathEnd{"unsupported", "violation on a path whose condition could not be confirmed: " + firstLine(msg)})
	}
	ex := p.ex
	v := &Violation{Harness: ex.H.Name, Kind: kind, Msg: msg, Inputs: p.inputVals(p.w), Params: m.opts2params()}
	v.Key = kind + ": " + firstLine(msg)
	for _, d := range p.decs {
		if d.kind == dSched {
			v.Sched = true
		}
		v.Decs = append(v.Decs, fmt.Sprintf("%d:%d", d.kind, d.val))
	}
	v.decs = append([]Dec(nil), p.decs...)
	v.Observe = m.renderObs(p)
	v.Trace = append([]string(nil), m.trace...)
	v.Approx = append([]string(nil), m.approx...)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.vioKeys[v.Key]++
	if ex.vioKeys[v.Key] <= 3 {
		ex.Violations = append(ex.Violations, v)
	}
	if len(ex.vioKeys) >= 6 || ex.vioKeys[v.Key] >= 200 {
		ex.stopWith("enough violations")
	}
}

func (m *Machine) opts2params() map[string]int64 { return m.w.ex.H.params(m.w.ex.tier) }

func (m *Machine) renderObs(p *Path) []string {
	var r []string
	p.w.T.newGen()
	e := &evaluator{p.w.T, p.model}
	for _, o := range m.observes {
		var sb strings.Builder
		sb.WriteString(o.label)
		for _, v := range o.vals {
			sb.WriteByte(' ')
			sb.WriteString(m.renderVal(e, v))
		}
		r = append(r, sb.String())
	}
	return r
}

func nativeStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

var _ = sort.Strings
var _ = os.Stderr
