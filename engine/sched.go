package main

import (
	"fmt"
	"os"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) clone() VC { return append(VC(nil), v...) }
func (v *VC) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

// G is one goroutine of the program under test.
type G struct {
	id         int
	m          *Machine
	wake       chan struct{}
	op         *VOp
	done       bool
	top        *frame
	deferOf    []*frame
	stdDepth   int
	stdVisited bool
	vc         VC // happens-before clock (race detection)
	dvc        VC // dependence clock (DPOR)
	name       string
	noSched    int
	prevTr     int // previous and current (or last) transition of this goroutine
	curTr      int
	blocked    bool // waiting at a disabled op (for reports)
}

type VOp struct {
	kind    string
	obj     *SyncObj
	write   bool
	enabled func() bool
	ch      *ChanV
	dir     int // 1 send, 2 recv for single channel ops
	val     Value
	sel     []selCase
	fin     bool // completed by the partner
	rIdx    int
	rVal    Value
	rOK     bool
	quiesce bool
	wakeAt  int64 // sleeping
	sleep   bool
}

type SyncObj struct {
	id   int
	kind string
	rel  VC // release clock
	rrel VC // readers' release clock
	acc  []access
	path *Path // objects of shared library globals outlive a path
}

// touch starts an object that outlived the path it was made in afresh.
func (m *Machine) touch(o *SyncObj) {
	if o == nil || o.path == m.path {
		return
	}
	m.nobj++
	o.id, o.rel, o.rrel, o.acc, o.path = m.nobj, nil, nil, nil, m.path
	m.objByID[o.id] = o
}

type access struct {
	tr    int
	g     int
	write bool
	relOp bool
}

func (m *Machine) newObj(kind string) *SyncObj {
	m.nobj++
	o := &SyncObj{id: m.nobj, kind: kind, path: m.path}
	if m.objByID == nil {
		m.objByID = map[int]*SyncObj{}
	}
	m.objByID[o.id] = o
	return o
}

type ChanV struct {
	obj    *SyncObj
	cap    int
	buf    []Value
	bufVC  []VC
	closed bool
	elem   types.Type
	timer  *vtimer
}

func (m *Machine) newChan(n int, el types.Type) *ChanV {
	if n < 0 {
		m.goPanicRT("makechan: size out of range")
	}
	return &ChanV{obj: m.newObj("chan"), cap: n, elem: el}
}

type selCase struct {
	ch  *ChanV
	dir int
	val Value
}

// ---------- scheduling ----------

// visible is called before a visible operation. When it returns the operation is enabled and
// the goroutine may perform it atomically.
func (m *Machine) visible(g *G, op *VOp) {
	sched := m.exploring && m.initDepth == 0 && g.noSched == 0
	if sched && g.stdDepth > 0 {
		if g.stdVisited {
			sched = false
		} else {
			g.stdVisited = true
		}
	}
	g.op = op
	m.touch(op.obj)
	for i := range op.sel {
		if op.sel[i].ch != nil {
			m.touch(op.sel[i].ch.obj)
		}
	}
	if !sched && (op.enabled == nil || op.enabled()) {
		m.noteAccess(g, op)
		return
	}
	m.reschedule(g, sched)
	m.noteAccess(g, op)
}

// noteAccess records the objects touched by the current transition.
func (m *Machine) noteAccess(g *G, op *VOp) {
	if op.obj != nil {
		m.access(g, op.obj, op.write, false)
	}
	for i := range op.sel {
		if op.sel[i].ch != nil {
			m.access(g, op.sel[i].ch.obj, true, false)
		}
	}
}

func (m *Machine) enabledGs() []*G {
	var r []*G
	for _, g := range m.gs {
		if g.done || g.op == nil || g.op.quiesce {
			continue
		}
		if g.op.fin || g.op.enabled == nil || g.op.enabled() {
			r = append(r, g)
		}
	}
	return r
}

// reschedule hands control to the next goroutine; it returns when g is chosen again.
func (m *Machine) reschedule(g *G, sched bool) {
	next := m.pick(g, sched)
	if next == g {
		return
	}
	m.switchTo(g, next)
}

func (m *Machine) switchTo(g, next *G) {
	m.cur = next
	next.wake <- struct{}{}
	if g == nil {
		return
	}
	<-g.wake
	if m.killed {
		panic(&pathEnd{"killed", ""})
	}
}

func (m *Machine) pick(g *G, sched bool) *G {
	for {
		en := m.enabledGs()
		async := m.asyncLeft > 0 && m.haveTimers()
		if len(en) == 0 {
			// quiescence
			for _, q := range m.gs {
				if !q.done && q.op != nil && q.op.quiesce {
					for _, o := range m.gs {
						if o != q {
							q.vc.join(o.vc)
							q.dvc.join(o.dvc)
						}
					}
					if m.exploring && m.sstate != nil {
						m.sstate.begin(m, q, nil, nil)
					}
					return q
				}
			}
			if m.fireNext() {
				if m.sstate != nil {
					m.sstate.finalize(m)
					m.sstate.sleep = nil
				}
				continue
			}
			m.deadlock()
		}
		if async && m.exploring {
			k := m.path.choose(m, 2)
			if k == 1 {
				m.asyncLeft--
				m.fireNext()
				if m.sstate != nil {
					m.sstate.sleep = nil
				}
				continue
			}
		}
		if m.exploring && m.sstate != nil && m.initDepth == 0 {
			m.sstate.finalize(m)
			all := true
			for _, x := range en {
				if !m.sstate.asleep(x.id) {
					all = false
				}
			}
			if all {
				m.pendingRaces()
				panic(&pathEnd{"sleep", ""})
			}
		}
		if m.exploring && m.initDepth == 0 && len(en) > 1 {
			return m.path.schedule(m, g, en)
		}
		if m.exploring && m.sstate != nil {
			x := m.pickDefault(g, en)
			m.sstate.begin(m, x, nil, en)
			return x
		}
		return m.pickDefault(g, en)
	}
}

func (m *Machine) pickDefault(g *G, en []*G) *G {
	for _, x := range en {
		if x == g {
			return x
		}
	}
	// round robin after the current goroutine
	best := en[0]
	if g != nil {
		for _, x := range en {
			if x.id > g.id {
				return x
			}
		}
	}
	return best
}

func (m *Machine) deadlock() {
	var sb strings.Builder
	sb.WriteString("deadlock: all goroutines are blocked\n")
	for _, g := range m.gs {
		if g.done {
			continue
		}
		k := "?"
		if g.op != nil {
			k = g.op.kind
		}
		fmt.Fprintf(&sb, "  goroutine %d (%s) blocked in %s\n%s", g.id, g.name, k, m.stack(g))
	}
	if m.opts["allowdeadlock"] > 0 {
		panic(&pathEnd{"done", ""})
	}
	m.violation("deadlock", sb.String())
}

// spawn starts a new goroutine running body.
func (m *Machine) spawn(parent *G, body func(g *G), name string) *G {
	g := &G{id: len(m.gs), m: m, wake: make(chan struct{}), name: name}
	if parent != nil {
		g.vc = parent.vc.clone()
		parent.vc.tick(parent.id)
		g.dvc = parent.dvc.clone()
	}
	g.vc.tick(g.id)
	g.op = &VOp{kind: "start"}
	m.gs = append(m.gs, g)
	if len(m.gs) > 64 {
		panic(&pathEnd{"limit", "more than 64 goroutines"})
	}
	go func() {
		<-g.wake
		if m.killed {
			m.exited <- struct{}{}
			return
		}
		m.runG(g, body)
	}()
	return g
}

// runG is the native goroutine body.
func (m *Machine) runG(g *G, body func(g *G)) {
	defer func() {
		r := recover()
		if m.killed {
			m.exited <- struct{}{}
			return
		}
		if r != nil {
			m.endFrom(g, r)
			return
		}
		g.done = true
		g.op = nil
		if g.id == 0 {
			m.finish(&pathEnd{"done", ""})
			return
		}
		// goroutine exit: hand over
		var next *G
		func() {
			defer func() {
				if r := recover(); r != nil {
					m.endFrom(g, r)
					next = nil
				}
			}()
			next = m.pick(g, m.exploring)
		}()
		if next != nil {
			m.cur = next
			next.wake <- struct{}{}
		}
	}()
	body(g)
}

// endFrom ends the path because of a panic in g.
func (m *Machine) endFrom(g *G, r any) {
	switch r := r.(type) {
	case *pathEnd:
		m.finish(r)
	case *goPanic:
		// an uncaught panic of the program under test
		func() {
			defer func() {
				if e, ok := recover().(*pathEnd); ok {
					m.finish(e)
				}
			}()
			m.uncaught(g, r)
		}()
	case unsupportedErr:
		m.finish(&pathEnd{"unsupported", string(r) + "\n" + m.stack(g)})
	default:
		m.finish(&pathEnd{"unsupported", fmt.Sprintf("engine: %v\n%s\n%s", r, m.stack(g), nativeStack())})
	}
}

// finish records the end of the path and wakes the controlling worker.
func (m *Machine) finish(e *pathEnd) {
	m.endSig = e
	m.finisher = m.cur
	close(m.doneCh)
}

// ---------- timers ----------

type vtimer struct {
	when   int64
	seq    int
	active bool
	fire   func(t *vtimer)
	ch     *ChanV
	period int64
	vc     VC
}

func (m *Machine) haveTimers() bool {
	for _, t := range m.timers {
		if t.active {
			return true
		}
	}
	for _, g := range m.gs {
		if !g.done && g.op != nil && g.op.sleep && g.op.wakeAt > m.now {
			return true
		}
	}
	return false
}

// fireNext advances the virtual clock to the next deadline.
func (m *Machine) fireNext() bool {
	var best *vtimer
	for _, t := range m.timers {
		if t.active && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	var slp *G
	for _, g := range m.gs {
		if !g.done && g.op != nil && g.op.sleep && g.op.wakeAt > m.now {
			if slp == nil || g.op.wakeAt < slp.op.wakeAt {
				slp = g
			}
		}
	}
	if best == nil && slp == nil {
		return false
	}
	if lim := m.opts["maxtime"]; lim > 0 {
		w := int64(1) << 62
		if best != nil {
			w = best.when
		}
		if slp != nil && slp.op.wakeAt < w {
			w = slp.op.wakeAt
		}
		if w > m.epoch()+lim {
			return false
		}
	}
	if slp != nil && (best == nil || slp.op.wakeAt < best.when) {
		m.now = slp.op.wakeAt
		return true
	}
	if best.when > m.now {
		m.now = best.when
	}
	if best.period > 0 {
		best.when += best.period
	} else {
		best.active = false
	}
	best.fire(best)
	return true
}

func (m *Machine) epoch() int64 { return 1_700_000_000_000_000_000 }

func (m *Machine) addTimer(g *G, d int64, period int64, fire func(t *vtimer)) *vtimer {
	t := &vtimer{when: m.now + d, seq: len(m.timers), active: true, fire: fire, period: period}
	if d < 0 {
		t.when = m.now
	}
	if d > 0 && t.when < m.now {
		t.when = 1<<63 - 1
	}
	if g != nil {
		t.vc = g.vc.clone()
		g.vc.tick(g.id)
	}
	m.timers = append(m.timers, t)
	return t
}

// ---------- channels ----------

func (m *Machine) partnerFor(g *G, ch *ChanV, dir int) (*G, int) {
	for _, x := range m.gs {
		if x == g || x.done || x.op == nil || x.op.fin {
			continue
		}
		if x.op.ch == ch && x.op.dir == dir {
			return x, -1
		}
		for i := range x.op.sel {
			if x.op.sel[i].ch == ch && x.op.sel[i].dir == dir {
				return x, i
			}
		}
	}
	return nil, 0
}

func (m *Machine) canSend(g *G, ch *ChanV) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	if ch.cap == 0 {
		p, _ := m.partnerFor(g, ch, 2)
		return p != nil
	}
	return false
}
func (m *Machine) canRecv(g *G, ch *ChanV) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) > 0 {
		return true
	}
	if ch.cap == 0 {
		p, _ := m.partnerFor(g, ch, 1)
		return p != nil
	}
	return false
}

func (m *Machine) doSend(g *G, ch *ChanV, v Value) {
	if ch.closed {
		panic(&goPanic{v: m.rtErr("send on closed channel"), stack: m.stack(g), rt: true})
	}
	if ch.cap == 0 {
		p, i := m.partnerFor(g, ch, 2)
		p.op.fin = true
		p.op.rIdx = i
		p.op.rVal = v
		p.op.rOK = true
		a, b := g.vc.clone(), p.vc.clone()
		g.vc.join(b)
		p.vc.join(a)
		g.vc.tick(g.id)
		p.vc.tick(p.id)
		m.dpJoin(g, p)
		return
	}
	ch.buf = append(ch.buf, v)
	ch.bufVC = append(ch.bufVC, g.vc.clone())
	g.vc.join(ch.obj.rrel) // k-th receive happens before the k+C-th send
	g.vc.tick(g.id)
}

func (m *Machine) doRecv(g *G, ch *ChanV) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		g.vc.join(ch.bufVC[0])
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		ch.bufVC = append([]VC(nil), ch.bufVC[1:]...)
		ch.obj.rrel.join(g.vc)
		g.vc.tick(g.id)
		return v, true
	}
	if ch.cap == 0 {
		if p, i := m.partnerFor(g, ch, 1); p != nil && !ch.closed {
			v := p.op.val
			if i >= 0 {
				v = p.op.sel[i].val
			}
			p.op.fin = true
			p.op.rIdx = i
			a, b := g.vc.clone(), p.vc.clone()
			g.vc.join(b)
			p.vc.join(a)
			g.vc.tick(g.id)
			p.vc.tick(p.id)
			m.dpJoin(g, p)
			return v, true
		}
	}
	if ch.closed {
		g.vc.join(ch.obj.rel)
		return zero(ch.elem), false
	}
	panic("doRecv: not ready")
}

func (m *Machine) chanSend(g *G, ch *ChanV, v Value) {
	v = copyVal(v)
	if ch == nil {
		m.visible(g, &VOp{kind: "send on nil channel", enabled: func() bool { return false }})
	}
	op := &VOp{kind: "chan send", obj: ch.obj, write: true, ch: ch, dir: 1, val: v}
	op.enabled = func() bool { return m.canSend(g, ch) }
	m.visible(g, op)
	g.op = nil
	if op.fin {
		return
	}
	m.doSend(g, ch, v)
}

func (m *Machine) chanRecv(g *G, ch *ChanV) (Value, bool) {
	if ch == nil {
		m.visible(g, &VOp{kind: "receive from nil channel", enabled: func() bool { return false }})
	}
	op := &VOp{kind: "chan receive", obj: ch.obj, write: true, ch: ch, dir: 2}
	op.enabled = func() bool { return m.canRecv(g, ch) }
	m.visible(g, op)
	g.op = nil
	if op.fin {
		return op.rVal, op.rOK
	}
	return m.doRecv(g, ch)
}

func (m *Machine) chanClose(g *G, ch *ChanV) {
	if ch == nil {
		panic(&goPanic{v: m.rtErr("close of nil channel"), stack: m.stack(g), rt: true})
	}
	m.visible(g, &VOp{kind: "close", obj: ch.obj, write: true})
	g.op = nil
	if ch.closed {
		panic(&goPanic{v: m.rtErr("close of closed channel"), stack: m.stack(g), rt: true})
	}
	ch.closed = true
	ch.obj.rel.join(g.vc)
	g.vc.tick(g.id)
	// unbuffered receivers waiting become enabled through closed
}

func (m *Machine) selectStmt(f *frame, i *ssa.Select, in *inst) Value {
	g := f.g
	cases := make([]selCase, len(i.States))
	for k, s := range i.States {
		ch := f.get(in.args[2*k]).(*ChanV)
		c := selCase{ch: ch, dir: 2}
		if s.Dir == types.SendOnly {
			c.dir = 1
			c.val = copyVal(f.get(in.args[2*k+1]))
		}
		cases[k] = c
	}
	ready := func() []int {
		var r []int
		for k, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.dir == 1 && m.canSend(g, c.ch) || c.dir == 2 && m.canRecv(g, c.ch) {
				r = append(r, k)
			}
		}
		return r
	}
	op := &VOp{kind: "select", sel: cases}
	if i.Blocking {
		op.enabled = func() bool { return len(ready()) > 0 }
	} else {
		// a non-blocking select never waits: it must not be matched as a partner
		op.sel = nil
		op.kind = "select(default)"
	}
	m.visible(g, op)
	g.op = nil
	if !i.Blocking {
		for _, c := range cases {
			if c.ch != nil {
				m.access(g, c.ch.obj, true, false)
			}
		}
	}
	idx := -1
	var rv Value
	rok := false
	if op.fin {
		idx = op.rIdx
		rv, rok = op.rVal, op.rOK
	} else {
		r := ready()
		if len(r) > 0 {
			k := 0
			if len(r) > 1 && m.initDepth == 0 {
				k = m.path.choose(m, len(r))
			}
			idx = r[k]
			c := cases[idx]
			if c.dir == 1 {
				m.doSend(g, c.ch, c.val)
			} else {
				rv, rok = m.doRecv(g, c.ch)
			}
		}
	}
	res := Tuple{uint64(int64(idx)), rok}
	for k, s := range i.States {
		if s.Dir == types.RecvOnly {
			if k == idx {
				if rv == nil {
					rv = zero(cases[k].ch.elem)
				}
				res = append(res, rv)
			} else {
				res = append(res, zero(under(s.Chan.Type()).(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---------- mutexes & friends (state kept in StructV.aux) ----------

type mutexState struct {
	obj     *SyncObj
	owner   bool
	readers int
	waitW   int // announced writers
	who     int
	rh      map[int]int
}

func (m *Machine) structOf(p Value) *StructV {
	s, _ := p.(*Slot)
	if s == nil {
		m.nilDeref()
	}
	return s.v.(*StructV)
}

func (m *Machine) mutex(p Value, kind string) *mutexState {
	st := m.structOf(p)
	if st.aux == nil {
		st.aux = &mutexState{obj: m.newObj(kind), rh: map[int]int{}}
	}
	mu := st.aux.(*mutexState)
	if mu.obj.path != m.path {
		m.touch(mu.obj)
		mu.owner, mu.readers, mu.waitW, mu.rh = false, 0, 0, map[int]int{}
	}
	return mu
}

func (m *Machine) lock(g *G, p Value) {
	mu := m.mutex(p, "mutex")
	if mu.waitW >= 0 && mu.obj.kind == "rwmutex" && m.exploring {
		// announce: blocks new readers
		m.visible(g, &VOp{kind: "Lock(announce)", obj: mu.obj, write: true})
		mu.waitW++
		m.visible(g, &VOp{kind: "Lock", obj: mu.obj, write: true, enabled: func() bool { return !mu.owner && mu.readers == 0 }})
		mu.waitW--
	} else {
		if mu.obj.kind == "rwmutex" {
			mu.waitW++
		}
		m.visible(g, &VOp{kind: "Lock", obj: mu.obj, write: true, enabled: func() bool { return !mu.owner && mu.readers == 0 }})
		if mu.obj.kind == "rwmutex" {
			mu.waitW--
		}
	}
	g.op = nil
	mu.owner = true
	mu.who = g.id
	g.vc.join(mu.obj.rel)
	g.vc.join(mu.obj.rrel)
}

func (m *Machine) tryLock(g *G, p Value) bool {
	mu := m.mutex(p, "mutex")
	m.visible(g, &VOp{kind: "TryLock", obj: mu.obj, write: true})
	g.op = nil
	if mu.owner || mu.readers > 0 {
		return false
	}
	mu.owner = true
	mu.who = g.id
	g.vc.join(mu.obj.rel)
	g.vc.join(mu.obj.rrel)
	return true
}

func (m *Machine) unlock(g *G, p Value) {
	mu := m.mutex(p, "mutex")
	if !mu.owner {
		m.fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.accessRel(g, mu.obj)
	mu.owner = false
	mu.obj.rel = g.vc.clone()
	g.vc.tick(g.id)
}

func (m *Machine) rlock(g *G, p Value) {
	mu := m.mutex(p, "rwmutex")
	m.visible(g, &VOp{kind: "RLock", obj: mu.obj, write: false, enabled: func() bool { return !mu.owner && mu.waitW == 0 }})
	g.op = nil
	mu.readers++
	mu.rh[g.id]++
	g.vc.join(mu.obj.rel)
}

func (m *Machine) runlock(g *G, p Value) {
	mu := m.mutex(p, "rwmutex")
	if mu.readers <= 0 {
		m.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.accessFP(g, mu.obj, false, true, false)
	mu.readers--
	mu.rh[g.id]--
	mu.obj.rrel.join(g.vc)
	g.vc.tick(g.id)
}

// fatal is an unrecoverable runtime failure.
func (m *Machine) fatal(msg string) {
	m.violation("fatal", msg+"\n"+m.stack(m.cur))
}

type wgState struct {
	obj *SyncObj
	n   int64
}

func (m *Machine) wg(p Value) *wgState {
	st := m.structOf(p)
	if st.aux == nil {
		st.aux = &wgState{obj: m.newObj("waitgroup")}
	}
	return st.aux.(*wgState)
}

func (m *Machine) atomicObj(s *Slot) *SyncObj {
	if o, ok := m.side[s]; ok {
		return o.(*SyncObj)
	}
	o := m.newObj("atomic")
	m.side[s] = o
	return o
}

func (m *Machine) atomicOp(g *G, s *Slot, write bool) {
	if s == nil {
		m.nilDeref()
	}
	o := m.atomicObj(s)
	m.visible(g, &VOp{kind: "atomic", obj: o, write: write})
	g.op = nil
	g.vc.join(o.rel)
	if write {
		o.rel.join(g.vc)
		g.vc.tick(g.id)
	}
}

// ---------- race detection ----------

func (m *Machine) raceMeta(s *Slot) *slotMeta {
	if s.m == nil {
		s.m = &slotMeta{wg: -1}
	}
	return s.m
}

func (m *Machine) raceRead(g *G, s *Slot) {
	if m.initDepth > 0 || g.top == nil || g.top.c == nil {
		return
	}
	switch v := s.v.(type) {
	case *StructV:
		if v.aux != nil {
			return
		}
		for i := range v.F {
			m.raceRead(g, &v.F[i])
		}
		return
	case *ArrayV:
		for i := range v.E {
			m.raceRead(g, &v.E[i])
		}
		return
	}
	m.raceReadMeta(g, &s.m)
}

func (m *Machine) raceWrite(g *G, s *Slot) {
	if m.initDepth > 0 || g.top == nil || g.top.c == nil {
		return
	}
	switch v := s.v.(type) {
	case *StructV:
		if v.aux != nil {
			return
		}
		for i := range v.F {
			m.raceWrite(g, &v.F[i])
		}
		return
	case *ArrayV:
		for i := range v.E {
			m.raceWrite(g, &v.E[i])
		}
		return
	}
	m.raceWriteMeta(g, &s.m)
}

func (m *Machine) posStr(g *G) string {
	f := g.top
	if f == nil {
		return "?"
	}
	p := m.P.prog.Fset.Position(f.pos)
	return fmt.Sprintf("%s (%s:%d)", f.c.name, trimPath(p.Filename), p.Line)
}

func (m *Machine) raceReadMeta(g *G, pm **slotMeta) {
	if m.initDepth > 0 || g.top == nil || g.top.c == nil || !g.top.c.race {
		return
	}
	if *pm == nil {
		*pm = &slotMeta{wg: -1}
	}
	mt := *pm
	if mt.wg >= 0 && mt.wg != g.id && mt.wclk > g.vc.get(mt.wg) {
		m.race(mt.wpos, m.posStr(g), "write", "read")
	}
	c := g.vc.get(g.id)
	for i := range mt.reads {
		if mt.reads[i].g == g.id {
			if mt.reads[i].clk != c {
				mt.reads[i].clk = c
				mt.reads[i].pos = ""
			}
			if mt.reads[i].pos == "" {
				mt.reads[i].pos = m.posStr(g)
			}
			return
		}
	}
	mt.reads = append(mt.reads, readRec{g: g.id, clk: c, pos: m.posStr(g)})
}

func (m *Machine) raceWriteMeta(g *G, pm **slotMeta) {
	if m.initDepth > 0 || g.top == nil || g.top.c == nil || !g.top.c.race {
		return
	}
	if *pm == nil {
		*pm = &slotMeta{wg: -1}
	}
	mt := *pm
	if mt.wg >= 0 && mt.wg != g.id && mt.wclk > g.vc.get(mt.wg) {
		m.race(mt.wpos, m.posStr(g), "write", "write")
	}
	for _, r := range mt.reads {
		if r.g != g.id && r.clk > g.vc.get(r.g) {
			m.race(r.pos, m.posStr(g), "read", "write")
		}
	}
	mt.reads = mt.reads[:0]
	mt.wg, mt.wclk = g.id, g.vc.get(g.id)
	mt.wpos = m.posStr(g)
}

func (m *Machine) race(a, b, ka, kb string) {
	m.violation("data-race", fmt.Sprintf("data race: %s at %s / %s at %s", ka, a, kb, b))
}

// ---------- DPOR ----------

type SchedNode struct {
	mu      chan struct{} // binary semaphore
	enabled []int
	added   map[int]bool
	order   []int          // goroutines in the order they were added
	asleep  map[int]bool   // goroutines whose transition from here is explored elsewhere
	fp      map[int][]fpAcc // what the transition of a goroutine from here touches
	bad     map[int]bool   // transitions with data decisions: footprint unknown
	child   map[int][]sleepEnt // sleep set with which a child is explored
	maxObj  int            // objects with larger ids are created after this node
}

// fpAcc is one access of a transition.
type fpAcc struct {
	obj   int
	write bool
}

// sleepEnt is a goroutine whose next transition need not be explored until something dependent ran.
type sleepEnt struct {
	g      int
	fp     []fpAcc
	maxObj int
}

// conflicts reports whether the sleeping transition depends on what the executed transition touched.
func (e *sleepEnt) conflicts(fp []fpAcc) bool {
	norm := func(o int) int {
		if o > e.maxObj {
			return -1
		}
		return o
	}
	for _, a := range e.fp {
		for _, b := range fp {
			if (a.write || b.write) && norm(a.obj) == norm(b.obj) {
				return true
			}
		}
	}
	return false
}

type transition struct {
	g    int
	node *SchedNode
	dpos int
	vc   VC
	fp   []fpAcc
	done bool
}


type dporState struct {
	racing []int // transitions racing with the current one, processed when it is complete
	trs   []transition
	cur   int
	curG  *G
	sleep []sleepEnt
}

// finalize ends the current transition: its footprint becomes known and wakes dependent sleepers.
func (d *dporState) finalize(m *Machine) {
	if d.cur < 0 || d.cur >= len(d.trs) || d.trs[d.cur].done {
		return
	}
	t := &d.trs[d.cur]
	t.done = true
	if d.curG != nil {
		t.vc = d.curG.dvc.clone()
	}
	for _, i := range d.racing {
		d.reverse(m, i, t.g, nil)
	}
	d.racing = d.racing[:0]
	if n := t.node; n != nil {
		data := false
		for i := t.dpos + 1; i < len(m.path.decs); i++ {
			if m.path.decs[i].kind != dSched {
				data = true
			}
		}
		n.mu <- struct{}{}
		if data {
			n.bad[t.g] = true
		} else if n.fp[t.g] == nil {
			n.fp[t.g] = append([]fpAcc{{-2, false}}, t.fp...)
		}
		<-n.mu
	}
	k := d.sleep[:0:0]
	for _, e := range d.sleep {
		if e.g != t.g && !e.conflicts(t.fp) {
			k = append(k, e)
		}
	}
	d.sleep = k
}

func (d *dporState) asleep(id int) bool {
	for i := range d.sleep {
		if d.sleep[i].g == id {
			return true
		}
	}
	return false
}

func (d *dporState) begin(m *Machine, g *G, node *SchedNode, en []*G) {
	d.finalize(m)
	if node != nil && !noSleep {
		// the sleep set of a child is fixed when the child is entered for the first time
		node.mu <- struct{}{}
		if sl, ok := node.child[g.id]; ok {
			d.sleep = append([]sleepEnt(nil), sl...)
		} else {
			for _, e := range node.order {
				if e == g.id {
					break
				}
				if fp := node.fp[e]; fp != nil && !node.bad[e] && !d.asleep(e) {
					d.sleep = append(d.sleep, sleepEnt{e, fp, node.maxObj})
				}
			}
			node.child[g.id] = append([]sleepEnt(nil), d.sleep...)
		}
		<-node.mu
	}
	if traceDPOR {
		k := "?"
		if g.op != nil { k = g.op.kind; if g.op.obj != nil { k += fmt.Sprint("#", g.op.obj.id) } }
		sl := ""
		for _, e := range d.sleep { sl += fmt.Sprint(" ", e.g) }
		m.dtrace = append(m.dtrace, fmt.Sprintf("%d %s  n=%v sleep[%s]", g.id, k, node != nil, sl))
	}
	d.trs = append(d.trs, transition{g: g.id, node: node, dpos: len(m.path.decs) - 1})
	d.cur = len(d.trs) - 1
	d.curG = g
	g.prevTr, g.curTr = g.curTr, d.cur
	g.dvc.tick(g.id)
	for len(g.dvc) <= g.id {
		g.dvc = append(g.dvc, 0)
	}
	g.dvc[g.id] = int32(len(d.trs)) // transition index + 1
}

func (m *Machine) access(g *G, o *SyncObj, write, rel bool) {
	m.accessFP(g, o, write, rel, write)
}

func (m *Machine) accessFP(g *G, o *SyncObj, write, rel, fpWrite bool) {
	d := m.sstate
	if d == nil || !m.exploring || m.initDepth > 0 {
		return
	}
	m.touch(o)
	if d.cur >= 0 && d.cur < len(d.trs) {
		d.trs[d.cur].fp = append(d.trs[d.cur].fp, fpAcc{o.id, fpWrite})
	}
	// find the last dependent access by another goroutine
	if !rel {
		for k := len(o.acc) - 1; k >= 0; k-- {
			a := o.acc[k]
			if a.g == g.id || a.relOp || !(a.write || write) {
				continue
			}
			if g.dvc.get(a.g) >= int32(a.tr+1) {
				// ordered before; accesses further back may still be unordered w.r.t. other goroutines
				continue
			}
			d.racing = append(d.racing, a.tr)
			// an access from before the operation became pending is the last one to consider
			if a.tr < g.prevTr {
				break
			}
		}
	}
	for k := len(o.acc) - 1; k >= 0; k-- {
		a := o.acc[k]
		if a.g != g.id && (a.write || write) && a.tr < len(d.trs) {
			g.dvc.join(d.trs[a.tr].vc)
			if g.dvc.get(a.g) < int32(a.tr+1) {
				for len(g.dvc) <= a.g {
					g.dvc = append(g.dvc, 0)
				}
				g.dvc[a.g] = int32(a.tr + 1)
			}
		}
	}
	if d.cur >= 0 && d.cur < len(d.trs) {
		d.trs[d.cur].vc = g.dvc.clone()
		o.acc = append(o.acc, access{tr: d.cur, g: g.id, write: write, relOp: rel})
	}
}

func (m *Machine) accessRel(g *G, o *SyncObj) { m.access(g, o, true, true) }

func (m *Machine) dpJoin(g, p *G) {
	a := g.dvc.clone()
	g.dvc.join(p.dvc)
	p.dvc.join(a)
}

// pendingRaces adds backtracking points for operations that are still pending at the end.
func (m *Machine) pendingRaces() {
	if m.sstate == nil {
		return
	}
	for _, g := range m.gs {
		if g.done || g.op == nil {
			continue
		}
		chk := func(o *SyncObj, write bool) {
			// p's pending operation happens after what it depends on
			var deps []int
			for k := len(o.acc) - 1; k >= 0; k-- {
				if a := o.acc[k]; a.g != g.id && (a.write || write) {
					deps = append(deps, a.tr)
				}
			}
			for k := len(o.acc) - 1; k >= 0; k-- {
				a := o.acc[k]
				if a.g == g.id || a.relOp || !(a.write || write) {
					continue
				}
				if g.dvc.get(a.g) >= int32(a.tr+1) {
					continue
				}
				m.sstate.reverse(m, a.tr, g.id, deps)
				if a.tr < g.curTr {
					break
				}
			}
		}
		if m.sstate.asleep(g.id) {
			// its whole transition is known
			objs := map[int]*SyncObj{}
			for _, e := range m.sstate.sleep {
				if e.g == g.id {
					for _, f := range e.fp {
						if o := m.objByID[f.obj]; o != nil && objs[f.obj] == nil {
							chk(o, f.write)
						}
					}
				}
			}
			continue
		}
		if g.op.obj != nil {
			chk(g.op.obj, g.op.write)
		}
		for _, c := range g.op.sel {
			if c.ch != nil {
				chk(c.ch.obj, true)
			}
		}
	}
}

// reverse makes sure that an execution is explored in which transition i comes after the current transition
// (deps == nil) or the pending operation (deps: the transitions it depends on) of goroutine p. It is the source
// set condition: some process that can start the reversed sequence must be explored from the node of i.
func (d *dporState) reverse(m *Machine, i, p int, deps []int) {
	n := d.trs[i].node
	if n == nil {
		return
	}
	last := len(d.trs) - 1
	gi := d.trs[i].g
	first := map[int]bool{}
	var v []int
	var ini []int
	for j := i + 1; j <= last; j++ {
		t := &d.trs[j]
		cur := deps == nil && j == last
		if !cur && t.vc.get(gi) >= int32(i+1) {
			continue
		}
		if !first[t.g] {
			first[t.g] = true
			free := true
			for _, k := range v {
				if t.vc.get(d.trs[k].g) >= int32(k+1) {
					free = false
					break
				}
			}
			if free {
				ini = append(ini, t.g)
			}
		}
		v = append(v, j)
	}
	if deps != nil && !first[p] {
		free := true
		for _, k := range v {
			for _, x := range deps {
				if x == k {
					free = false
				}
			}
		}
		if free {
			ini = append(ini, p)
		}
	}
	m.path.backtrack(m, d.trs[i], p, ini)
}

func gids(en []*G) []int {
	r := make([]int, len(en))
	for i, g := range en {
		r[i] = g.id
	}
	sort.Ints(r)
	return r
}

var _ = token.NoPos
var traceDPOR = os.Getenv("GOSYM_DTRACE") != ""

