package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

func reg(names string, f Intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func argStr(m *Machine, v Value) string { return m.strText(v) }

// concrete string argument or unsupported
func constStr(m *Machine, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(unsupported("symbolic string where a constant is required"))
}

func nop(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }

func (m *Machine) fresh(name string, s Sort, kind string) *Term {
	k := m.path.names[name]
	m.path.names[name] = k + 1
	vn := name
	if k > 0 {
		vn = fmt.Sprintf("%s#%d", name, k)
	}
	t := m.T.Var(vn, s)
	m.path.inputs = append(m.path.inputs, inputRec{Name: vn, Kind: kind, Term: t})
	return t
}

func (m *Machine) freshChoice(name string, n int) int {
	k := m.path.names[name]
	m.path.names[name] = k + 1
	vn := name
	if k > 0 {
		vn = fmt.Sprintf("%s#%d", name, k)
	}
	c := m.path.choose(m, n)
	m.path.inputs = append(m.path.inputs, inputRec{Name: vn, Kind: "choice", Val: uint64(c), N: n})
	return c
}

func (m *Machine) freshString(name string, max int, exact bool) Value {
	n := max
	if !exact {
		n = m.freshChoice(name+".len", max+1)
	}
	b := make([]Value, n)
	for i := range b {
		b[i] = m.fresh(fmt.Sprintf("%s[%d]", name, i), 8, "byte")
	}
	return mkStr(b)
}

func i2n(m *Machine, v Value) int {
	switch v := v.(type) {
	case uint64:
		return int(int64(v))
	case *Term:
		return int(int64(m.path.concretize(m, v)))
	}
	panic(fmt.Sprintf("i2n %T", v))
}

func initND(mod string) {
	nd := mod + "/zzverif/nd."
	r := func(n string, f Intrinsic) { intrinsics[nd+n] = f }
	r("Symbolic", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return true })
	mk := func(w Sort, kind string) Intrinsic {
		return func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
			return m.fresh(constStr(m, a[0]), w, kind)
		}
	}
	r("Bool", mk(SBool, "bool"))
	r("Byte", mk(8, "byte"))
	r("Int", mk(64, "int"))
	r("Int64", mk(64, "int"))
	r("Uint64", mk(64, "uint"))
	r("Int32", mk(32, "int32"))
	r("Uint32", mk(32, "uint32"))
	r("Uint16", mk(16, "uint16"))
	r("Float64", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.T.FromBits(m.fresh(constStr(m, a[0]), 64, "float64"), SF64)
	})
	r("Float32", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.T.FromBits(m.fresh(constStr(m, a[0]), 32, "float32"), SF32)
	})
	r("String", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.freshString(constStr(m, a[0]), i2n(m, a[1]), false)
	})
	r("StringN", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.freshString(constStr(m, a[0]), i2n(m, a[1]), true)
	})
	r("Choose", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := i2n(m, a[1])
		if n <= 0 {
			panic(&pathEnd{"assume", ""})
		}
		return uint64(m.freshChoice(constStr(m, a[0]), n))
	})
	r("Assume", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.path.assume(m, a[0])
		return nil
	})
	r("Assert", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.path.assert(m, a[0], constStr(m, a[1]))
		return nil
	})
	r("Fail", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.path.assert(m, false, constStr(m, a[0]))
		return nil
	})
	r("Cover", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.covers[constStr(m, a[0])] = true
		return nil
	})
	r("CoverIf", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if c {
				m.covers[constStr(m, a[1])] = true
			}
		case *Term:
			l := constStr(m, a[1])
			if m.path.evalBool(c) {
				m.covers[l] = true
				break
			}
			m.w.ex.mu.Lock()
			have := m.w.ex.Covers[l] > 0
			m.w.ex.mu.Unlock()
			if !have {
				if r, _ := m.path.check(c); r == Sat {
					m.covers[l] = true
				}
			}
		}
		return nil
	})
	r("Observe", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		o := obsRec{label: constStr(m, a[0])}
		for _, s := range a[1].(SliceV) {
			o.vals = append(o.vals, copyDeepIface(s.v))
		}
		m.observes = append(m.observes, o)
		return nil
	})
	r("Param", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := constStr(m, a[0])
		if v, ok := m.w.ex.H.params(m.w.ex.tier)[n]; ok {
			return uint64(v)
		}
		return a[1]
	})
	r("IsConst", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { _, ok := a[0].(*Term); return !ok })
	r("Truth", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return m.truth(a[0]) })
	r("Concrete", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return uint64(int64(i2n(m, a[0])))
	})
	r("ConcreteString", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		b := append([]Value{}, strBytes(a[0])...)
		for i := range b {
			if t, ok := b[i].(*Term); ok {
				b[i] = m.path.concretize(m, t)
			}
		}
		return mkStr(b)
	})
	// And/Or/Implies without forking
	r("And", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.And(m.boolT(a[0]), m.boolT(a[1])))
	})
	r("Or", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.Or(m.boolT(a[0]), m.boolT(a[1])))
	})
	r("Implies", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.Or(m.T.Not(m.boolT(a[0])), m.boolT(a[1])))
	})
	r("IteInt", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.Ite(m.boolT(a[0]), m.bv(a[1], 64), m.bv(a[2], 64)))
	})
	r("Explore", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		on := a[0].(bool)
		h := m.w.ex.H
		if on && !m.exploring {
			m.exploring = true
			if h.Mode == "dpor" {
				m.sstate = &dporState{cur: -1}
				// everything before is ordered before everything after
				for _, x := range m.gs {
					x.dvc = nil
				}
				m.sstate.begin(m, g, nil, nil)
			}
			if h.Race {
				m.raceOn = true
			}
		} else if !on {
			if m.exploring {
				m.pendingRaces()
			}
			m.exploring = false
			m.raceOn = false
			m.sstate = nil
		}
		return nil
	})
	r("AsyncTimers", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.asyncLeft = i2n(m, a[0])
		return nil
	})
	r("Opt", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.opts[constStr(m, a[0])] = int64(i2n(m, a[1]))
		return nil
	})
	r("Quiesce", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		op := &VOp{kind: "quiesce", quiesce: true, enabled: func() bool { return false }}
		g.op = op
		m.reschedule(g, false)
		g.op = nil
		return nil
	})
	// Yield is an explicit scheduling point.
	r("Yield", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.visible(g, &VOp{kind: "yield"})
		g.op = nil
		return nil
	})
	// Advance lets virtual time pass; due timers fire (in order) and the woken goroutines run.
	r("Advance", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(i2n(m, a[0]))
		target := m.now + d
		for {
			// run everything that can run
			op := &VOp{kind: "quiesce", quiesce: true, enabled: func() bool { return false }}
			g.op = op
			m.reschedule(g, false)
			g.op = nil
			best := int64(math.MaxInt64)
			for _, t := range m.timers {
				if t.active && t.when < best {
					best = t.when
				}
			}
			for _, x := range m.gs {
				if !x.done && x.op != nil && x.op.sleep && x.op.wakeAt > m.now && x.op.wakeAt < best {
					best = x.op.wakeAt
				}
			}
			if best > target {
				m.now = target
				return nil
			}
			m.fireNext()
		}
	})
	r("Now", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return uint64(m.now) })
	r("SetNow", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			m.symClock = t
		} else {
			m.now = int64(a[0].(uint64))
			m.symClock = nil
		}
		return nil
	})
	r("Blocked", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range m.gs {
			if x != g && !x.done {
				n++
			}
		}
		return uint64(n)
	})
	r("Trace", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.trace = append(m.trace, fmt.Sprintf("g%d %s", g.id, m.strText(a[0])))
		return nil
	})
	// Recover-free panic capture: runs f and reports whether it panicked.
	r("Panics", func(m *Machine, g *G, fn *ssa.Function, a []Value) (res Value) {
		top, depth := g.top, g.stdDepth
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			if p, isP := r.(*goPanic); isP {
				g.top, g.stdDepth = top, depth
				res = Tuple{true, m.panicText(g, p.v) + "\n" + p.stack}
				return
			}
			panic(r)
		}()
		m.call(g, a[0], nil)
		ok = true
		return Tuple{false, ""}
	})
	r("Calls", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := strings.ReplaceAll(constStr(m, a[0]), "$MOD", mod)
		if m.watch == nil {
			m.watch = map[string]int64{}
		}
		if _, ok := m.watch[n]; !ok {
			m.watch[n] = 0
		}
		return uint64(m.watch[n])
	})
	// Same reports whether two pointers are identical.
	r("Atomic", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		g.noSched++
		m.call(g, a[0], nil)
		g.noSched--
		return nil
	})
}

func copyDeepIface(v Value) Value {
	it, ok := v.(Iface)
	if !ok {
		return v
	}
	if s, ok := it.v.(SliceV); ok {
		n := make(SliceV, len(s))
		for i := range s {
			n[i].v = copyVal(s[i].v)
		}
		return Iface{it.t, n}
	}
	return Iface{it.t, copyVal(it.v)}
}

func patternIntrinsic(p *Program, pkg *ssa.Package, fn *ssa.Function, nm string) Intrinsic {
	if pkg == nil {
		return nil
	}
	path := pkg.Pkg.Path()
	base := fn.Name()
	if path == "github.com/golang/glog" {
		switch base {
		case "Exit", "Exitf", "Exitln", "Fatal", "Fatalf", "Fatalln":
			return func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				m.violation("exit", "process exit through glog."+fn.Name()+"\n"+m.stack(g))
				return nil
			}
		case "V":
			return nop
		}
		if fn.Signature.Recv() != nil || ast_IsExported(base) {
			return nop
		}
	}
	if strings.HasPrefix(base, "file_") && strings.HasSuffix(base, "_init") && fn.Signature.Recv() == nil {
		return nop
	}
	if strings.HasPrefix(base, "init#") && isPBPackage(pkg) {
		return nop
	}
	if r := fn.Signature.Recv(); r != nil {
		rt := r.Type()
		if isPBMessage(rt) {
			switch base {
			case "String":
				return func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
					return m.protoText(g, fn.Signature.Recv().Type(), a[0])
				}
			case "Reset":
				return func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
					s := a[0].(*Slot)
					storeInto(s, zero(deref(fn.Signature.Recv().Type())))
					return nil
				}
			}
		}
		if n, ok := types.Unalias(rt).(*types.Named); ok && base == "String" {
			if w, _, ok := intInfo(n); ok && w == 32 {
				if gl := pkg.Var(n.Obj().Name() + "_name"); gl != nil {
					return func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
						return m.enumName(g, gl, a[0])
					}
				}
			}
		}
	}
	return nil
}

func (m *Machine) enumName(g *G, gl *ssa.Global, v Value) Value {
	mp, _ := m.global(g, gl, m.P.globalIdx(gl)).v.(*MapV)
	if mp != nil {
		if k := m.mapFind(mp, v); k >= 0 {
			return mp.vals[k].v
		}
	}
	switch x := v.(type) {
	case uint64:
		return strconv.Itoa(int(int32(x)))
	}
	return m.opaqueStr(v)
}

func ast_IsExported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func isPBPackage(pkg *ssa.Package) bool {
	for _, im := range pkg.Pkg.Imports() {
		if im.Path() == "google.golang.org/protobuf/runtime/protoimpl" {
			return true
		}
	}
	return false
}

// opaqueStr is a deterministic placeholder text for a symbolic value whose formatting is not
// modelled; it makes the path approximate.
func (m *Machine) opaqueStr(v Value) Value {
	if t, ok := v.(*Term); ok {
		m.note("formatting of a symbolic value")
		return fmt.Sprintf("\u00abt%d\u00bb", t.id)
	}
	return fmt.Sprint(v)
}

func (m *Machine) note(s string) {
	for _, a := range m.approx {
		if a == s {
			return
		}
	}
	m.approx = append(m.approx, s)
}

func init() {
	// ---- runtime / internal ----
	reg("runtime.GC runtime.Gosched runtime.KeepAlive runtime.SetFinalizer runtime.LockOSThread runtime/debug.FreeOSMemory internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.Errors internal/bytealg.init internal/godebug.setUpdate internal/godebug.registerMetric internal/godebug.setNewIncNonDefault (*internal/godebug.Setting).IncNonDefault sync.runtime_registerPoolCleanup sync.fatal sync.throw internal/msan.Read internal/asan.Read runtime.SetBlockProfileRate", nop)
	reg("(*internal/godebug.Setting).Value", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return "" })
	reg("internal/godebug.New", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return &Slot{v: zero(deref(fn.Signature.Results().At(0).Type()))}
	})
	reg("runtime.NumGoroutine", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range m.gs {
			if !x.done {
				n++
			}
		}
		return uint64(n)
	})
	reg("runtime.ReadMemStats", nop)
	reg("os.Exit", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.violation("exit", "os.Exit called\n"+m.stack(g))
		return nil
	})
	reg("runtime.Goexit", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		panic(unsupported("runtime.Goexit"))
	})
	reg("runtime.Caller", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return Tuple{uint64(0), "file.go", uint64(1), true}
	})
	reg("internal/abi.NoEscape internal/abi.Escape", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone strings.Clone", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return a[0] })

	// ---- bytealg ----
	reg("internal/bytealg.IndexByteString internal/bytealg.IndexByte internal/bytealg.LastIndexByteString internal/bytealg.LastIndexByte strings.IndexByte bytes.IndexByte strings.LastIndexByte", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		b := byteSeq(a[0])
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				if strings.HasPrefix(fn.Name(), "Last") {
					return uint64(int64(strings.LastIndexByte(s, byte(c))))
				}
				return uint64(int64(strings.IndexByte(s, byte(c))))
			}
		}
		if strings.HasPrefix(fn.Name(), "Last") {
			for i := len(b) - 1; i >= 0; i-- {
				if m.truth(m.eqVal(b[i], a[1])) {
					return uint64(i)
				}
			}
			return ^uint64(0)
		}
		for i := range b {
			if m.truth(m.eqVal(b[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.CountString internal/bytealg.Count", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := uint64(0)
		for _, x := range byteSeq(a[0]) {
			if m.truth(m.eqVal(x, a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.Equal bytes.Equal", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.strEq(mkStr(byteSeq(a[0])), mkStr(byteSeq(a[1])))
	})
	reg("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare cmp.Compare[string] runtime.cmpstring", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(byteSeq(a[0])), mkStr(byteSeq(a[1]))
		if m.truth(m.strLess(x, y)) {
			return ^uint64(0)
		}
		if m.truth(m.strEq(x, y)) {
			return uint64(0)
		}
		return uint64(1)
	})
	reg("internal/bytealg.IndexString internal/bytealg.Index strings.Index internal/stringslite.Index bytes.Index", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(byteSeq(a[0])), mkStr(byteSeq(a[1]))
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				return uint64(int64(strings.Index(s, t)))
			}
		}
		n, k := strLen(x), strLen(y)
		xb := strBytes(x)
		for i := 0; i+k <= n; i++ {
			if m.truth(m.strEq(mkStr(xb[i:i+k]), y)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		n := i2n(m, a[0])
		s := make(SliceV, n)
		for i := range s {
			s[i].v = uint64(0)
		}
		return s
	})

	// ---- math ----
	reg("math.Float64bits", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			if t.op == OFromBits {
				return t.a[0]
			}
			b := m.T.Var(fmt.Sprintf("$bits%d", t.id), 64)
			m.path.assume(m, low(m.T.And(m.T.FP(OFEq, SBool, m.T.FromBits(b, SF64), t), m.T.True)))
			return b
		}
		return math.Float64bits(a[0].(float64))
	})
	reg("math.Float32bits", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			if t.op == OFromBits {
				return t.a[0]
			}
			panic(unsupported("Float32bits of computed term"))
		}
		return uint64(math.Float32bits(a[0].(float32)))
	})
	reg("math.Float64frombits", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.FromBits(m.bv(a[0], 64), SF64))
	})
	reg("math.Float32frombits", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.FromBits(m.bv(a[0], 32), SF32))
	})
	reg("math.IsNaN", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.T.FP(OFIsNaN, SBool, m.fpT(a[0])))
	})
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			panic(unsupported("math." + n + " of a symbolic value"))
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Log10", math.Log10)
	f1("Exp", math.Exp)
	f1("Round", math.Round)
	reg("math.Pow", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok1 {
			// y = float64(symbolic small integer): enumerate
			t := a[1].(*Term)
			if t.op == OSToF || t.op == OUToF {
				e := m.path.concretize(m, t.a[0])
				ef := float64(e)
				if t.op == OSToF {
					ef = float64(sext(e, t.a[0].sort))
				}
				return math.Pow(x, ef)
			}
		}
		panic(unsupported("math.Pow of a symbolic value"))
	})
	reg("math.Abs", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		t := a[0].(*Term)
		return m.T.Ite(m.T.FP(OFLt, SBool, t, m.T.F64(0)), m.T.FP(OFNeg, SF64, t), t)
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { m.lock(g, a[0]); return nil })
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { return m.tryLock(g, a[0]) })
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { m.unlock(g, a[0]); return nil })
	reg("(*sync.RWMutex).Lock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.mutex(a[0], "rwmutex")
		m.lock(g, a[0])
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.mutex(a[0], "rwmutex")
		m.unlock(g, a[0])
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { m.rlock(g, a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value { m.runlock(g, a[0]); return nil })
	reg("(*sync.RWMutex).TryRLock", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		mu := m.mutex(a[0], "rwmutex")
		m.visible(g, &VOp{kind: "TryRLock", obj: mu.obj})
		if mu.owner || mu.waitW > 0 {
			return false
		}
		mu.readers++
		g.vc.join(mu.obj.rel)
		return true
	})
	reg("(*sync.WaitGroup).Add", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		d := int64(i2n(m, a[1]))
		if d < 0 {
			m.accessFP(g, w.obj, false, true, false)
		} else {
			m.visible(g, &VOp{kind: "wg.Add", obj: w.obj, write: false})
			g.op = nil
		}
		m.wgAdd(g, w, d)
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		m.accessFP(g, w.obj, false, true, false)
		m.wgAdd(g, w, -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		m.visible(g, &VOp{kind: "wg.Wait", obj: w.obj, write: true, enabled: func() bool { return w.n == 0 }})
		g.op = nil
		g.vc.join(w.obj.rel)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		w := m.wg(a[0])
		m.wgAdd(g, w, 1)
		f := a[1]
		m.spawn(g, func(ng *G) {
			m.call(ng, f, nil)
			m.accessFP(ng, w.obj, false, true, false)
			m.wgAdd(ng, w, -1)
		}, "wg.Go")
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		st := m.structOf(a[0])
		nf := st.F[len(st.F)-1].v.(*FuncV)
		if nf == nil {
			return Iface{}
		}
		return m.call(g, nf, nil)
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Cond
	reg("(*sync.Cond).Wait", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		c := m.cond(a[0])
		l := m.structOf(a[0]).F[condL(fn)].v.(Iface)
		tk := &condTicket{}
		c.wait = append(c.wait, tk)
		m.callMethod(g, l, "Unlock")
		m.visible(g, &VOp{kind: "cond.Wait", obj: c.obj, write: true, enabled: func() bool { return tk.on }})
		g.op = nil
		g.vc.join(c.obj.rel)
		m.callMethod(g, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal (*sync.Cond).Broadcast", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		c := m.cond(a[0])
		m.visible(g, &VOp{kind: "cond.Signal", obj: c.obj, write: true})
		g.op = nil
		c.obj.rel.join(g.vc)
		g.vc.tick(g.id)
		for i, t := range c.wait {
			t.on = true
			if fn.Name() == "Signal" {
				c.wait = c.wait[i+1:]
				return nil
			}
		}
		c.wait = nil
		return nil
	})
	// sync.Map
	reg("(*sync.Map).Load", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		mp := m.smap(g, a[0], false)
		if k := m.mapFind(mp, a[1]); k >= 0 {
			return Tuple{mp.vals[k].v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.mapSet(m.smap(g, a[0], true), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		mp := m.smap(g, a[0], true)
		if k := m.mapFind(mp, a[1]); k >= 0 {
			return Tuple{mp.vals[k].v, true}
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		mp := m.smap(g, a[0], true)
		if k := m.mapFind(mp, a[1]); k >= 0 {
			v := mp.vals[k].v
			m.mapDelete(mp, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		m.mapDelete(m.smap(g, a[0], true), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		mp := m.smap(g, a[0], false)
		for k := range mp.keys {
			if mp.vals[k] == nil {
				continue
			}
			if !m.truth(m.call(g, a[1], []Value{mp.keys[k], mp.vals[k].v})) {
				break
			}
		}
		return nil
	})

	// ---- atomics ----
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			w := Sort(64)
			if strings.HasSuffix(ty, "32") {
				w = 32
			}
			reg(pk+"Load"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, false)
				return s.v
			})
			reg(pk+"Store"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, true)
				s.v = a[1]
				return nil
			})
			reg(pk+"Swap"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, true)
				o := s.v
				s.v = a[1]
				return o
			})
			reg(pk+"CompareAndSwap"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, true)
				if m.truth(m.eqVal(s.v, a[1])) {
					s.v = a[2]
					return true
				}
				return false
			})
			reg(pk+"Add"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, true)
				s.v = low(m.T.Bin(OAdd, m.bv(s.v, w), m.bv(a[1], w)))
				return s.v
			})
			reg(pk+"Or"+ty+" "+pk+"And"+ty, func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
				s := a[0].(*Slot)
				m.atomicOp(g, s, true)
				o := s.v
				op := OBOr
				if strings.HasPrefix(fn.Name(), "And") {
					op = OBAnd
				}
				s.v = low(m.T.Bin(op, m.bv(s.v, w), m.bv(a[1], w)))
				return o
			})
		}
	}
	last := func(a Value) *Slot {
		st := a.(*Slot).v.(*StructV)
		return &st.F[len(st.F)-1]
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, false)
		return s.v
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, true)
		s.v = a[1]
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).Swap", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, true)
		o := s.v
		s.v = a[1]
		return o
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, true)
		if s.v.(*Slot) == a[1].(*Slot) {
			s.v = a[2]
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, false)
		return s.v
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, true)
		s.v = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s := last(m.nn(a[0]))
		m.atomicOp(g, s, true)
		o := s.v
		s.v = a[1]
		return o
	})

	// ---- sort ----
	reg("sort.Slice sort.SliceStable", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(SliceV)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.truth(m.call(g, a[1], []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j].v), copyVal(s[j-1].v)
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	})
	reg("sort.SliceIsSorted", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(SliceV)
		for i := len(s) - 1; i > 0; i-- {
			if m.truth(m.call(g, a[1], []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	})

	// ---- errors ----
	reg("errors.Is", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		return m.errIs(g, a[0].(Iface), a[1].(Iface))
	})
	reg("errors.As", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil {
			return false
		}
		p, ok := under(t.t.t).(*types.Pointer)
		if !ok {
			m.goPanicStr("errors: target must be a non-nil pointer")
		}
		return m.errAs(g, e, t, p.Elem(), t.v.(*Slot))
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, g *G, fn *ssa.Function, a []Value) Value {
		panic(unsupported("reflectlite.TypeOf"))
	})

	// ---- time ----
	initTime()
	initProto()
	initFmt()
	initMisc()
}

func (m *Machine) nn(v Value) Value {
	if s, ok := v.(*Slot); ok && s == nil {
		m.nilDeref()
	}
	return v
}

func byteSeq(v Value) []Value {
	switch v := v.(type) {
	case SliceV:
		b := make([]Value, len(v))
		for i := range v {
			b[i] = v[i].v
		}
		return b
	}
	return strBytes(v)
}

func (m *Machine) wgAdd(g *G, w *wgState, d int64) {
	w.n += d
	if w.n < 0 {
		panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "sync: negative WaitGroup counter"}, stack: m.stack(g)})
	}
	if d < 0 {
		w.obj.rel.join(g.vc)
		g.vc.tick(g.id)
	}
}

type condTicket struct{ on bool }
type condState struct {
	obj  *SyncObj
	wait []*condTicket
}

func (m *Machine) cond(p Value) *condState {
	st := m.structOf(p)
	if st.aux == nil {
		st.aux = &condState{obj: m.newObj("cond")}
	}
	return st.aux.(*condState)
}

func condL(fn *ssa.Function) int {
	st := under(deref(fn.Signature.Recv().Type())).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return i
		}
	}
	return 1
}

func (m *Machine) smap(g *G, p Value, write bool) *MapV {
	st := m.structOf(p)
	if st.aux == nil {
		st.aux = &smapState{obj: m.newObj("syncmap"), mp: newMap(nil)}
	}
	s := st.aux.(*smapState)
	m.visible(g, &VOp{kind: "sync.Map", obj: s.obj, write: write})
	g.op = nil
	g.vc.join(s.obj.rel)
	s.obj.rel.join(g.vc)
	g.vc.tick(g.id)
	return s.mp
}

type smapState struct {
	obj *SyncObj
	mp  *MapV
}

// callMethod calls an exported method of an interface value by name.
func (m *Machine) callMethod(g *G, it Iface, name string, args ...Value) Value {
	if it.t == nil {
		m.nilDeref()
	}
	it.t.mu.Lock()
	fn := it.t.ms[name]
	it.t.mu.Unlock()
	if fn == nil {
		fn = m.lookupMethod(it.t, nil, name)
		if fn == nil {
			panic(unsupported("no method " + name + " on " + it.t.t.String()))
		}
		it.t.mu.Lock()
		it.t.ms[name] = fn
		it.t.mu.Unlock()
	}
	return m.callFn(g, fn, nil, append([]Value{it.v}, args...))
}

func (m *Machine) hasMethod(t *RType, name string) *types.Func {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := m.P.prog.MethodSets.MethodSet(t.t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	return f
}

func sigIs(f *types.Func, params, results int) bool {
	if f == nil {
		return false
	}
	s := f.Type().(*types.Signature)
	return s.Params().Len() == params && s.Results().Len() == results
}

func (m *Machine) unwrap(g *G, e Iface) []Iface {
	f := m.hasMethod(e.t, "Unwrap")
	if !sigIs(f, 0, 1) {
		return nil
	}
	switch r := m.callMethod(g, e, "Unwrap").(type) {
	case Iface:
		if r.t == nil {
			return nil
		}
		return []Iface{r}
	case SliceV:
		var o []Iface
		for i := range r {
			o = append(o, r[i].v.(Iface))
		}
		return o
	}
	return nil
}

func (m *Machine) errIs(g *G, e, t Iface) bool {
	if e.t == nil || t.t == nil {
		return e.t == t.t
	}
	for {
		if e.t == t.t && types.Comparable(e.t.t) && m.truth(m.eqVal(e.v, t.v)) {
			return true
		}
		if f := m.hasMethod(e.t, "Is"); sigIs(f, 1, 1) {
			if m.truth(m.callMethod(g, e, "Is", t)) {
				return true
			}
		}
		u := m.unwrap(g, e)
		switch len(u) {
		case 0:
			return false
		case 1:
			e = u[0]
			continue
		}
		for _, x := range u {
			if m.errIs(g, x, t) {
				return true
			}
		}
		return false
	}
}

func (m *Machine) errAs(g *G, e, target Iface, tt types.Type, dst *Slot) bool {
	for {
		if it, ok := under(tt).(*types.Interface); ok {
			if e.t.implements(it) {
				dst.v = e
				return true
			}
		} else if e.t == rtypeOf(tt) {
			storeInto(dst, e.v)
			return true
		}
		if f := m.hasMethod(e.t, "As"); sigIs(f, 1, 1) {
			if m.truth(m.callMethod(g, e, "As", target)) {
				return true
			}
		}
		u := m.unwrap(g, e)
		switch len(u) {
		case 0:
			return false
		case 1:
			e = u[0]
			continue
		}
		for _, x := range u {
			if m.errAs(g, x, target, tt, dst) {
				return true
			}
		}
		return false
	}
}
