package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// skipInit lists packages whose initialisers are never run (their globals stay zero).
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os": false, "syscall": true, "internal/poll": true,
	"net": true, "net/http": true, "crypto/tls": true, "crypto/x509": true, "reflect": true, "internal/godebug": true,
	"google.golang.org/protobuf/internal/impl": true,
	"google.golang.org/protobuf/internal/filetype": true,
	"google.golang.org/protobuf/internal/filedesc": true,
	"google.golang.org/protobuf/runtime/protoimpl": true,
	"github.com/golang/glog": true,
}

// perPath reports whether the globals of a dependency are initialised again for every path, as those of the
// repository are: its state is written by what runs.
func perPath(pkg *ssa.Package) bool { return pkg.Pkg.Path() == "flag" }

func newMachine(P *Program, w *Worker) *Machine {
	return &Machine{P: P, T: w.T, w: w, sol: w.sol, roGlobals: map[int]*Slot{}, gInited: map[*ssa.Package]int{}}
}

func (m *Machine) run(p *Path, fn *ssa.Function, h *Harness) *pathEnd {
	m.path = p
	m.globals = nil
	// repo packages are re-initialised for every path
	for pkg := range m.gInited {
		if m.P.isRepo(pkg) || perPath(pkg) {
			delete(m.gInited, pkg)
		}
	}
	m.gs = nil
	m.doneCh = make(chan struct{})
	m.exited = make(chan struct{})
	m.endSig = nil
	m.killed = false
	m.steps = 0
	m.maxSteps = 20_000_000
	if h.MaxSteps > 0 {
		m.maxSteps = h.MaxSteps
	}
	m.now = m.epoch()
	m.timers = nil
	m.nobj = 0
	m.objByID = map[int]*SyncObj{}
	m.sliceOf = map[*Slot]SliceV{}
	m.symClock = nil
	m.observes = nil
	m.covers = map[string]bool{}
	m.side = map[any]any{}
	m.ptrSeq = map[any]int{}
	m.exploring = false
	m.raceOn = false
	m.sstate = nil
	m.asyncLeft = 0
	m.trace = nil
	m.approx = nil
	m.randSeq = 0
	m.initDepth = 0
	m.opts = map[string]int64{}
	for k, v := range h.Opts {
		m.opts[k] = v
	}
	g0 := m.spawn(nil, func(g *G) {
		m.initDepth++
		m.initRepo(g, fnPkg(fn))
		m.initDepth--
		m.runCode(g, m.P.code(fn), nil, nil)
		m.pendingRaces()
	}, "main")
	m.cur = g0
	g0.wake <- struct{}{}
	<-m.doneCh
	if m.endSig.kind == "done" || m.endSig.kind == "violation" {
		// blocked goroutines may still have unexplored alternatives
		m.pendingRaces()
	}
	// unwind the remaining goroutines
	m.killed = true
	for _, g := range m.gs {
		if g.done || g == m.finisher {
			continue
		}
		g.wake <- struct{}{}
		<-m.exited
	}
	return m.endSig
}

// initRepo runs the initialisers of the repo packages reachable from pkg, dependencies first.
func (m *Machine) initRepo(g *G, pkg *ssa.Package) {
	if pkg == nil || m.gInited[pkg] != 0 {
		return
	}
	m.gInited[pkg] = 1
	for _, imp := range pkg.Pkg.Imports() {
		ip := m.P.prog.Package(imp)
		if ip != nil && m.P.isRepo(ip) {
			m.initRepo(g, ip)
		}
	}
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	m.runCode(g, m.P.code(initFn), nil, nil)
}

// uncaught handles a panic that reaches the top of a goroutine.
func (m *Machine) uncaught(g *G, p *goPanic) {
	msg := m.panicText(g, p.v)
	if m.opts["expectpanic"] > 0 {
		panic(&pathEnd{"done", ""})
	}
	m.violation("panic", "panic: "+msg+"\n"+p.stack)
}

func (m *Machine) panicText(g *G, v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	itf, ok := v.(Iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if itf.t == nil {
		return "nil"
	}
	if s, ok := itf.v.(string); ok {
		if strings.HasSuffix(itf.t.t.String(), "runtime.errorString") {
			return "runtime error: " + s
		}
		return s
	}
	x := m.fmtValue(g, itf, 'v', "")
	return m.strText(x)
}

func (m *Machine) strText(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		m.T.newGen()
		e := evaluator{m.T, m.path.model}
		for _, b := range v.b {
			switch b := b.(type) {
			case uint64:
				sb.WriteByte(byte(b))
			case *Term:
				sb.WriteByte(byte(e.eval(b)))
			}
		}
		return sb.String()
	}
	return fmt.Sprint(v)
}

// renderVal prints a value under a model (used for observations and samples). The format is
// shared with the native nd package.
func (m *Machine) renderVal(e *evaluator, v Value) string {
	it, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("?%T", v)
	}
	if it.t == nil {
		return "nil"
	}
	return m.renderTyped(e, it.t.t, it.v, 0)
}

func (m *Machine) renderTyped(e *evaluator, t types.Type, v Value, d int) string {
	if d > 6 {
		return "..."
	}
	u := func(v Value) uint64 {
		switch v := v.(type) {
		case uint64:
			return v
		case *Term:
			return e.eval(v)
		case bool:
			if v {
				return 1
			}
			return 0
		}
		return 0
	}
	switch ut := under(t).(type) {
	case *types.Basic:
		switch {
		case ut.Info()&types.IsBoolean != 0:
			return fmt.Sprint(u(v) == 1)
		case ut.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			if s {
				return fmt.Sprint(sext(u(v), w))
			}
			return fmt.Sprint(u(v))
		case ut.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				return fmt.Sprintf("f%016x", math.Float64bits(x))
			case float32:
				return fmt.Sprintf("f%08x", math.Float32bits(x))
			case *Term:
				b := e.eval(x)
				if x.sort == SF64 {
					return fmt.Sprintf("f%016x", b)
				}
				return fmt.Sprintf("f%08x", b)
			}
		case ut.Info()&types.IsString != 0:
			b := strBytes(v)
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(u(b[i]))
			}
			return fmt.Sprintf("%q", string(bs))
		}
	case *types.Slice:
		s, ok := v.(SliceV)
		if !ok {
			break
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := range s {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.renderTyped(e, ut.Elem(), s[i].v, d+1))
		}
		sb.WriteByte(']')
		return sb.String()
	case *types.Interface:
		it := v.(Iface)
		if it.t == nil {
			return "nil"
		}
		return m.renderTyped(e, it.t.t, it.v, d+1)
	}
	return "?" + t.String()
}
