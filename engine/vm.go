package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- compiled code ----------

type opnKind uint8

const (
	kReg opnKind = iota
	kConst
	kGlobal
	kFree
	kNone
)

type operand struct {
	kind opnKind
	idx  int
	v    Value
	g    *ssa.Global
}

type inst struct {
	i    ssa.Instruction
	dst  int
	args []operand
	pos  token.Pos
}

type Code struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]inst
	nphi     []int
	hasDefer bool
	repo     bool // function belongs to the code under test or a harness
	std      bool
	intr     Intrinsic
	model    *ssa.Function // harness-provided replacement
	name     string
	ext      bool // no body
	isInit   bool
	skip     bool
	pkg      *ssa.Package
	noSched  bool
	race     bool // accesses of this function are checked for data races
}

type Intrinsic func(m *Machine, g *G, fn *ssa.Function, args []Value) Value

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	codes   sync.Map // *ssa.Function -> *Code
	mu      sync.Mutex
	globals map[*ssa.Global]int
	nglob   int
	built   map[*ssa.Package]bool
	models  map[string]*ssa.Function
	modPath string
	encoded sync.Map // function name -> true : functions executed symbolically
}

func (p *Program) isRepo(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	path := pkg.Pkg.Path()
	return path == p.modPath || strings.HasPrefix(path, p.modPath+"/")
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = p.nglob
		p.nglob++
		p.globals[g] = i
	}
	return i
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	// wrappers / bound methods
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Prog.Package(fn.Object().Pkg())
	}
	return nil
}

var buildMu sync.Mutex

func (p *Program) code(fn *ssa.Function) *Code {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	pkg := fnPkg(fn)
	buildMu.Lock()
	defer buildMu.Unlock()
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	c := &Code{fn: fn, pkg: pkg, name: fn.String()}
	c.isInit = fn.Synthetic == "package initializer"
	c.repo = p.isRepo(pkg)
	c.std = !c.repo
	c.race = c.repo && !isHarness(p, pkg, fn)
	nm := c.name
	if o := fn.Origin(); o != nil {
		nm = o.String()
	}
	if fn.Parent() == nil {
		if mf, ok := p.models[nm]; ok && mf != fn {
			c.model = mf
		} else if in, ok := intrinsics[nm]; ok {
			c.intr = in
		} else if in := patternIntrinsic(p, pkg, fn, nm); in != nil {
			c.intr = in
		}
	}
	if c.model == nil && c.intr == nil {
		if pkg != nil && !p.built[pkg] {
			pkg.Build()
			p.built[pkg] = true
		}
		if fn.Blocks == nil {
			c.ext = true
		} else {
			p.compile(c)
		}
	}
	p.codes.Store(fn, c)
	return c
}

func (p *Program) compile(c *Code) {
	fn := c.fn
	regs := map[ssa.Value]int{}
	n := 0
	for _, pa := range fn.Params {
		regs[pa] = n
		n++
	}
	free := map[ssa.Value]int{}
	for i, fv := range fn.FreeVars {
		free[fv] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = n
	op := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{kind: kNone}
		case *ssa.Const:
			return operand{kind: kConst, v: constVal(v)}
		case *ssa.Global:
			return operand{kind: kGlobal, g: v, idx: p.globalIdxLocked(v)}
		case *ssa.Function:
			return operand{kind: kConst, v: &FuncV{fn: v}}
		case *ssa.Builtin:
			return operand{kind: kConst, v: v}
		case *ssa.FreeVar:
			return operand{kind: kFree, idx: free[v]}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no reg for %v in %v", v, fn))
		}
		return operand{kind: kReg, idx: r}
	}
	c.blocks = make([][]inst, len(fn.Blocks))
	c.nphi = make([]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := inst{i: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				x.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					x.args = append(x.args, op(e))
				}
				c.nphi[bi]++
			case ssa.CallInstruction:
				cc := in.Common()
				x.args = append(x.args, op(cc.Value))
				for _, a := range cc.Args {
					x.args = append(x.args, op(a))
				}
			case *ssa.Select:
				for _, s := range in.States {
					x.args = append(x.args, op(s.Chan), op(s.Send))
				}
			default:
				var rands []*ssa.Value
				rands = in.Operands(rands)
				for _, r := range rands {
					x.args = append(x.args, op(*r))
				}
			}
			c.blocks[bi] = append(c.blocks[bi], x)
		}
	}
}

func (p *Program) globalIdxLocked(g *ssa.Global) int { return p.globalIdx(g) }

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		panic("const of type param " + tp.String())
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				return uint64(c.Int64()) & mask(w)
			}
			return c.Uint64() & mask(w)
		case b.Kind() == types.Float32:
			return float32(c.Float64())
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Kind() == types.UnsafePointer:
			return (*Slot)(nil)
		}
	}
	panic(fmt.Sprintf("constVal %v %v", c, t))
}

// ---------- control signals ----------

type goPanic struct {
	v     Value // Iface
	stack string
	rt    bool
}
type pathEnd struct {
	kind string // "assume", "done", "unsupported", "limit", "infeasible", "violation", "exit", "killed"
	msg  string
}
type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

// ---------- machine ----------

type Machine struct {
	dtrace []string
	objByID map[int]*SyncObj
	watch map[string]int64 // calls counted by nd.Calls
	P    *Program
	T    *Terms
	sol  *Solver
	w    *Worker
	path *Path

	globals   []*Slot
	gInited   map[*ssa.Package]int
	roGlobals map[int]*Slot // globals of non-repo packages, kept between paths

	gs       []*G
	cur      *G
	doneCh   chan struct{}
	endSig   *pathEnd
	steps    int64
	maxSteps int64

	now       int64 // virtual clock, ns
	timers    []*vtimer
	nobj      int
	sliceOf   map[*Slot]SliceV
	chans     int
	symClock  *Term
	opts      map[string]int64
	observes  []obsRec
	covers    map[string]bool
	ptrSeq    map[any]int
	side      map[any]any
	exploring bool
	raceOn    bool
	killed    bool
	preempt   int
	sstate    *dporState
	asyncLeft int
	depthMax  int
	randSeq   int
	trace     []string
	exited    chan struct{}
	finisher  *G
	approx    []string
	initDepth int
}

type obsRec struct {
	label string
	vals  []Value
}

type frame struct {
	m        *Machine
	g        *G
	c        *Code
	regs     []Value
	bind     []Value
	caller   *frame
	defers   []deferRec
	result   Value
	panicking *goPanic
	recovered bool
	pos      token.Pos
	depth    int
	native   string
}

type deferRec struct {
	fn   Value
	args []Value
	i    *ssa.Defer
}

func (f *frame) get(o operand) Value {
	switch o.kind {
	case kReg:
		return f.regs[o.idx]
	case kConst:
		return o.v
	case kGlobal:
		return f.m.global(f.g, o.g, o.idx)
	case kFree:
		return f.bind[o.idx]
	}
	return nil
}

func (m *Machine) global(g *G, gl *ssa.Global, idx int) *Slot {
	if idx < len(m.globals) {
		if s := m.globals[idx]; s != nil {
			return s
		}
	} else {
		ng := make([]*Slot, m.P.nglob+64)
		copy(ng, m.globals)
		m.globals = ng
	}
	repo := m.P.isRepo(gl.Pkg) || perPath(gl.Pkg)
	if !repo {
		if s := m.roGlobals[idx]; s != nil {
			m.globals[idx] = s
			return s
		}
	}
	s := &Slot{v: zero(deref(gl.Type()))}
	m.globals[idx] = s
	if !repo {
		m.roGlobals[idx] = s
	}
	m.ensureInit(g, gl.Pkg)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ensureInit runs the package initialiser lazily (non-repo packages) the first time one of
// its globals is touched. Repo packages are initialised eagerly from the harness package.
func (m *Machine) ensureInit(g *G, pkg *ssa.Package) {
	if pkg == nil || m.P.isRepo(pkg) && m.gInited[pkg] != 0 {
		return
	}
	if m.gInited[pkg] != 0 || skipInit[pkg.Pkg.Path()] {
		return
	}
	m.gInited[pkg] = 1
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	// fields of exploration must not be disturbed
	se, sr := m.exploring, m.raceOn
	m.exploring, m.raceOn = false, false
	m.initDepth++
	c := m.P.code(initFn)
	m.runCode(g, c, nil, nil)
	m.initDepth--
	m.exploring, m.raceOn = se, sr
}

func (m *Machine) goPanicStr(msg string) {
	m.goPanicRT(strings.TrimPrefix(msg, "runtime error: "))
}

func (m *Machine) goPanicRT(msg string) {
	rt := m.P.pkgs["runtime"]
	var v Iface
	if rt != nil && rt.Type("errorString") != nil {
		v = Iface{rtypeOf(rt.Type("errorString").Type()), msg}
	} else {
		v = Iface{rtypeOf(types.Typ[types.String]), "runtime error: " + msg}
	}
	panic(&goPanic{v: v, stack: m.stack(m.cur), rt: true})
}

func (m *Machine) stack(g *G) string {
	var sb strings.Builder
	n := 0
	for f := g.top; f != nil && n < 40; f = f.caller {
		if f.c == nil {
			continue
		}
		p := m.P.prog.Fset.Position(f.pos)
		fmt.Fprintf(&sb, "    %s (%s:%d)\n", f.c.name, trimPath(p.Filename), p.Line)
		n++
	}
	return sb.String()
}

func trimPath(s string) string {
	s = strings.TrimPrefix(s, "/repo/")
	if i := strings.Index(s, "/pkg/mod/"); i >= 0 {
		return s[i+9:]
	}
	return s
}

// call invokes a function value.
func (m *Machine) call(g *G, fv Value, args []Value) Value {
	f, _ := fv.(*FuncV)
	if f == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(m, g, args)
	}
	return m.callFn(g, f.fn, f.bind, args)
}

func (m *Machine) callFn(g *G, fn *ssa.Function, bind []Value, args []Value) Value {
	c := m.P.code(fn)
	if c.model != nil {
		c = m.P.code(c.model)
	}
	if c.isInit {
		return nil // packages are initialised by initRepo / ensureInit
	}
	if c.intr != nil {
		return c.intr(m, g, fn, args)
	}
	if c.ext {
		panic(unsupported("external function " + c.name))
	}
	return m.runCode(g, c, bind, args)
}

func (m *Machine) runCode(g *G, c *Code, bind, args []Value) Value {
	f := &frame{m: m, g: g, c: c, bind: bind, caller: g.top}
	if g.top != nil {
		f.depth = g.top.depth + 1
		if f.depth > 3000 {
			if m.initDepth == 0 {
				panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "stack overflow (call depth > 3000)"}, stack: m.stack(g), rt: true})
			}
			panic(unsupported("call depth"))
		}
	}
	f.regs = make([]Value, c.nregs)
	copy(f.regs, args)
	g.top = f
	std := c.std && g.stdDepth == 0 && (f.caller == nil || f.caller.c == nil || f.caller.c.repo)
	if c.std {
		if std {
			g.stdVisited = false
		}
		g.stdDepth++
	}
	saveDepth := 0
	if c.repo && g.stdDepth > 0 {
		// callback from library code into the code under test
		saveDepth = g.stdDepth
		g.stdDepth = 0
	}
	if c.repo {
		m.w.noteFn(c)
		if m.watch != nil {
			if _, ok := m.watch[c.name]; ok {
				m.watch[c.name]++
			}
		}
	}
	if !c.hasDefer {
		f.exec(0)
	} else {
		f.execDefer()
	}
	if c.std {
		g.stdDepth--
	}
	if saveDepth > 0 {
		g.stdDepth = saveDepth
	}
	g.top = f.caller
	return f.result
}

func (f *frame) execDefer() {
	start := 0
	for {
		ok := f.tryExec(start)
		if ok {
			return
		}
		// panicking: run deferred calls
		f.runDefers()
		if f.panicking != nil {
			p := f.panicking
			panic(p)
		}
		// recovered
		if f.c.fn.Recover == nil {
			f.result = zeroResult(f.c.fn)
			return
		}
		start = f.c.fn.Recover.Index
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (f *frame) tryExec(start int) (ok bool) {
	depth := f.g.stdDepth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, isP := r.(*goPanic); isP {
			f.panicking = p
			f.g.top = f
			f.g.stdDepth = depth
			return
		}
		panic(r)
	}()
	f.exec(start)
	return true
}

// runDefers executes deferred calls; a panic in one replaces the current panic.
func (f *frame) runDefers() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.runOneDefer(d)
	}
}

func (f *frame) runOneDefer(d deferRec) {
	ok := false
	depth := f.g.stdDepth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, isP := r.(*goPanic); isP {
			f.panicking = p
			f.g.top = f
			f.g.stdDepth = depth
			return
		}
		panic(r)
	}()
	f.g.deferOf = append(f.g.deferOf, f)
	f.doCall(d.fn, d.args, d.i.Common())
	f.g.deferOf = f.g.deferOf[:len(f.g.deferOf)-1]
	ok = true
}

func (f *frame) exec(bi int) {
	m := f.m
	c := f.c
	prev := -1
	for {
		blk := c.blocks[bi]
		np := c.nphi[bi]
		if np > 0 {
			pb := c.fn.Blocks[bi]
			ei := -1
			for k, p := range pb.Preds {
				if p.Index == prev {
					ei = k
					break
				}
			}
			if np == 1 {
				f.regs[blk[0].dst] = f.get(blk[0].args[ei])
			} else {
				tmp := make([]Value, np)
				for k := 0; k < np; k++ {
					tmp[k] = f.get(blk[k].args[ei])
				}
				for k := 0; k < np; k++ {
					f.regs[blk[k].dst] = tmp[k]
				}
			}
		}
		m.steps += int64(len(blk))
		if m.steps > m.maxSteps {
			panic(&pathEnd{"limit", "step limit reached"})
		}
		next := -2
		for k := np; k < len(blk); k++ {
			in := &blk[k]
			if in.pos != token.NoPos {
				f.pos = in.pos
			}
			switch i := in.i.(type) {
			case *ssa.Jump:
				next = c.fn.Blocks[bi].Succs[0].Index
			case *ssa.If:
				if m.truth(f.get(in.args[0])) {
					next = c.fn.Blocks[bi].Succs[0].Index
				} else {
					next = c.fn.Blocks[bi].Succs[1].Index
				}
			case *ssa.Return:
				switch len(in.args) {
				case 0:
					f.result = nil
				case 1:
					f.result = f.get(in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for j := range in.args {
						t[j] = f.get(in.args[j])
					}
					f.result = t
				}
				return
			default:
				f.step(i, in)
			}
		}
		if next == -2 {
			panic(fmt.Sprintf("block fell through in %v", c.name))
		}
		prev, bi = bi, next
	}
}

// truth decides a boolean value, forking the path when it is symbolic.
func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		if v.isConst() {
			return v.val == 1
		}
		return m.path.branch(m, v)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

func (m *Machine) nilDeref() { m.goPanicRT("invalid memory address or nil pointer dereference") }

func (m *Machine) load(g *G, p Value) Value {
	s, ok := p.(*Slot)
	if !ok {
		panic(unsupported(fmt.Sprintf("load through %T", p)))
	}
	if s == nil {
		m.nilDeref()
	}
	if m.raceOn {
		m.raceRead(g, s)
	}
	return copyVal(s.v)
}

func (f *frame) step(i ssa.Instruction, in *inst) {
	m := f.m
	switch i := i.(type) {
	case *ssa.UnOp:
		f.regs[in.dst] = f.unop(i, in)
	case *ssa.BinOp:
		f.regs[in.dst] = m.binop(i.Op, i.X.Type(), i.Y.Type(), f.get(in.args[0]), f.get(in.args[1]))
	case *ssa.Call:
		fv, args := f.prepCall(&i.Call, in)
		f.regs[in.dst] = f.doCall(fv, args, &i.Call)
	case *ssa.ChangeInterface:
		f.regs[in.dst] = f.get(in.args[0])
	case *ssa.ChangeType:
		f.regs[in.dst] = f.get(in.args[0])
	case *ssa.Convert:
		f.regs[in.dst] = m.convert(i.X.Type(), i.Type(), f.get(in.args[0]))
	case *ssa.MultiConvert:
		f.regs[in.dst] = m.convert(i.X.Type(), i.Type(), f.get(in.args[0]))
	case *ssa.MakeInterface:
		f.regs[in.dst] = Iface{rtypeOf(i.X.Type()), f.get(in.args[0])}
	case *ssa.Extract:
		f.regs[in.dst] = f.get(in.args[0]).(Tuple)[i.Index]
	case *ssa.FieldAddr:
		s := f.get(in.args[0]).(*Slot)
		if s == nil {
			m.nilDeref()
		}
		st, ok := s.v.(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("FieldAddr on %T in %s", s.v, f.c.name)))
		}
		f.regs[in.dst] = &st.F[i.Field]
	case *ssa.Field:
		f.regs[in.dst] = f.get(in.args[0]).(*StructV).F[i.Field].v
	case *ssa.Store:
		s := f.get(in.args[0]).(*Slot)
		if s == nil {
			m.nilDeref()
		}
		if m.raceOn {
			m.raceWrite(f.g, s)
		}
		storeInto(s, f.get(in.args[1]))
	case *ssa.Alloc:
		f.regs[in.dst] = &Slot{v: zero(deref(i.Type()))}
	case *ssa.IndexAddr:
		x := f.get(in.args[0])
		var arr []Slot
		switch x := x.(type) {
		case SliceV:
			arr = x
		case *Slot:
			if x == nil {
				m.nilDeref()
			}
			arr = x.v.(*ArrayV).E
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr on %T", x)))
		}
		k := m.index(f.get(in.args[1]), i.Index.Type(), len(arr))
		f.regs[in.dst] = &arr[k]
	case *ssa.Index:
		switch x := f.get(in.args[0]).(type) {
		case *ArrayV:
			k := m.index(f.get(in.args[1]), i.Index.Type(), len(x.E))
			f.regs[in.dst] = x.E[k].v
		case string:
			iv := f.get(in.args[1])
			k := m.index(iv, i.Index.Type(), len(x))
			f.regs[in.dst] = uint64(x[k])
		case *SymStr:
			k := m.index(f.get(in.args[1]), i.Index.Type(), len(x.b))
			f.regs[in.dst] = x.b[k]
		default:
			panic(unsupported(fmt.Sprintf("Index on %T", x)))
		}
	case *ssa.Lookup:
		x := f.get(in.args[0])
		switch x := x.(type) {
		case *MapV:
			if m.raceOn && x != nil {
				m.raceReadMeta(f.g, &x.m)
			}
			k := m.mapFind(x, f.get(in.args[1]))
			var v Value
			if k >= 0 {
				v = copyVal(x.vals[k].v)
			} else {
				v = zero(under(i.X.Type()).(*types.Map).Elem())
			}
			if i.CommaOk {
				f.regs[in.dst] = Tuple{v, k >= 0}
			} else {
				f.regs[in.dst] = v
			}
		case string:
			k := m.index(f.get(in.args[1]), i.Index.Type(), len(x))
			f.regs[in.dst] = uint64(x[k])
		case *SymStr:
			k := m.index(f.get(in.args[1]), i.Index.Type(), len(x.b))
			f.regs[in.dst] = x.b[k]
		}
	case *ssa.MapUpdate:
		mp := f.get(in.args[0]).(*MapV)
		if mp == nil {
			panic(&goPanic{v: m.rtErr("assignment to entry in nil map"), stack: m.stack(f.g), rt: true})
		}
		if m.raceOn {
			m.raceWriteMeta(f.g, &mp.m)
		}
		m.mapSet(mp, f.get(in.args[1]), f.get(in.args[2]))
	case *ssa.MakeMap:
		f.regs[in.dst] = newMap(under(i.Type()).(*types.Map).Key())
	case *ssa.MakeSlice:
		n := int(int64(m.concInt(f.get(in.args[0]), i.Len.Type())))
		cp := int(int64(m.concInt(f.get(in.args[1]), i.Cap.Type())))
		if n < 0 {
			m.goPanicRT("makeslice: len out of range")
		}
		if cp < n {
			m.goPanicRT("makeslice: cap out of range")
		}
		if cp > 1<<22 {
			panic(unsupported(fmt.Sprintf("makeslice %d", cp)))
		}
		el := under(i.Type()).(*types.Slice).Elem()
		s := make(SliceV, cp)
		switch under(el).(type) {
		case *types.Struct, *types.Array:
			for k := range s {
				s[k].v = zero(el)
			}
		default:
			z := zero(el)
			for k := range s {
				s[k].v = z
			}
		}
		f.regs[in.dst] = s[:n]
	case *ssa.MakeChan:
		n := int(int64(m.concInt(f.get(in.args[0]), i.Size.Type())))
		f.regs[in.dst] = m.newChan(n, under(i.Type()).(*types.Chan).Elem())
	case *ssa.MakeClosure:
		b := make([]Value, len(in.args)-1)
		for k := range b {
			b[k] = f.get(in.args[k+1])
		}
		f.regs[in.dst] = &FuncV{fn: i.Fn.(*ssa.Function), bind: b}
	case *ssa.Slice:
		f.regs[in.dst] = f.slice(i, in)
	case *ssa.TypeAssert:
		f.regs[in.dst] = m.typeAssert(i, f.get(in.args[0]).(Iface))
	case *ssa.Range:
		switch x := f.get(in.args[0]).(type) {
		case *MapV:
			f.regs[in.dst] = m.rangeMap(f, x)
		default:
			f.regs[in.dst] = &MapIter{str: x}
		}
	case *ssa.Next:
		f.regs[in.dst] = m.next(f, i, f.get(in.args[0]).(*MapIter))
	case *ssa.Send:
		m.chanSend(f.g, f.get(in.args[0]).(*ChanV), f.get(in.args[1]))
	case *ssa.Select:
		f.regs[in.dst] = m.selectStmt(f, i, in)
	case *ssa.Go:
		fv, args := f.prepCall(&i.Call, in)
		cc := &i.Call
		m.spawn(f.g, func(g *G) { m.doCallG(g, fv, args, cc) }, "")
	case *ssa.Defer:
		fv, args := f.prepCall(&i.Call, in)
		if i.DeferStack != nil {
			panic(unsupported("DeferStack"))
		}
		f.defers = append(f.defers, deferRec{fv, args, i})
	case *ssa.RunDefers:
		f.runDefersNormal()
	case *ssa.Panic:
		v := f.get(in.args[0]).(Iface)
		panic(&goPanic{v: v, stack: m.stack(f.g)})
	case *ssa.SliceToArrayPointer:
		s := f.get(in.args[0]).(SliceV)
		n := under(deref(i.Type())).(*types.Array).Len()
		if int64(len(s)) < n {
			m.goPanicRT("cannot convert slice to array pointer: length mismatch")
		}
		f.regs[in.dst] = &Slot{v: &ArrayV{E: s[:n]}}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", i, f.c.name)))
	}
}

func (m *Machine) rtErr(msg string) Iface {
	rt := m.P.pkgs["runtime"]
	return Iface{rtypeOf(rt.Type("errorString").Type()), msg}
}

func (f *frame) runDefersNormal() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.g.deferOf = append(f.g.deferOf, f)
		n := len(f.g.deferOf)
		f.doCall(d.fn, d.args, d.i.Common())
		f.g.deferOf = f.g.deferOf[:n-1]
	}
}

func (m *Machine) concInt(v Value, t types.Type) uint64 {
	w, signed, _ := intInfo(t)
	switch v := v.(type) {
	case uint64:
		if signed {
			return uint64(sext(v, w))
		}
		return v
	case *Term:
		x := m.path.concretize(m, v)
		if signed {
			return uint64(sext(x, w))
		}
		return x
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (m *Machine) index(v Value, t types.Type, n int) int {
	w, signed, _ := intInfo(t)
	switch v := v.(type) {
	case uint64:
		k := int64(v)
		if signed {
			k = sext(v, w)
		}
		if k < 0 || k >= int64(n) {
			m.goPanicRT(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	case *Term:
		x := m.T.Resize(v, 64, signed)
		if !m.truth(low(m.T.ULt(x, m.T.BV(uint64(n), 64)))) {
			m.goPanicRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return int(m.path.concretize(m, v))
	}
	panic(fmt.Sprintf("index %T", v))
}

func (f *frame) prepCall(cc *ssa.CallCommon, in *inst) (Value, []Value) {
	m := f.m
	v := f.get(in.args[0])
	if cc.IsInvoke() {
		itf := v.(Iface)
		if itf.t == nil {
			m.nilDeref()
		}
		fn := m.findMethod(itf.t, cc.Method)
		args := make([]Value, len(in.args))
		args[0] = itf.v
		for k := 1; k < len(in.args); k++ {
			args[k] = f.get(in.args[k])
		}
		return &FuncV{fn: fn}, args
	}
	args := make([]Value, len(in.args)-1)
	for k := range args {
		args[k] = f.get(in.args[k+1])
	}
	return v, args
}

func (m *Machine) findMethod(t *RType, meth *types.Func) *ssa.Function {
	key := meth.Name()
	if !meth.Exported() {
		key = meth.Pkg().Path() + "." + key
	}
	t.mu.Lock()
	fn := t.ms[key]
	t.mu.Unlock()
	if fn != nil {
		return fn
	}
	fn = m.lookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %v", meth.Name(), t.t)))
	}
	t.mu.Lock()
	t.ms[key] = fn
	t.mu.Unlock()
	return fn
}

func (m *Machine) lookupMethod(t *RType, pkg *types.Package, name string) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := m.P.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.P.prog.MethodValue(sel)
}

func (f *frame) doCall(fv Value, args []Value, cc *ssa.CallCommon) Value {
	return f.m.doCallG(f.g, fv, args, cc)
}

func (m *Machine) doCallG(g *G, fv Value, args []Value, cc *ssa.CallCommon) Value {
	switch fv := fv.(type) {
	case *FuncV:
		if fv == nil {
			m.nilDeref()
		}
		if fv.native != nil {
			return fv.native(m, g, args)
		}
		return m.callFn(g, fv.fn, fv.bind, args)
	case *ssa.Builtin:
		return m.builtin(g, fv, args, cc)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (m *Machine) typeAssert(i *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	at := i.AssertedType
	if it, isI := under(at).(*types.Interface); isI {
		if x.t != nil && x.t.implements(it) {
			ok = true
			v = x
		}
	} else {
		if x.t != nil && x.t == rtypeOf(at) {
			ok = true
			v = x.v
		}
	}
	if i.CommaOk {
		if !ok {
			v = zero(at)
		}
		return Tuple{v, ok}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.t.String()
		}
		m.goPanicRT(fmt.Sprintf("interface conversion: interface is %s, not %s", d, at))
	}
	return v
}

func (f *frame) slice(i *ssa.Slice, in *inst) Value {
	m := f.m
	x := f.get(in.args[0])
	k := 1
	getI := func(v ssa.Value) (int, bool) {
		if v == nil {
			k++
			return 0, false
		}
		r := int64(m.concInt(f.get(in.args[k]), v.Type()))
		k++
		if r > 1<<40 || r < -1 {
			r = -1
		}
		return int(r), true
	}
	// Operands() order: X, Low, High, Max (nil entries included)
	lo, _ := getI(i.Low)
	hi, hasHi := getI(i.High)
	mx, hasMx := getI(i.Max)
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			m.goPanicRT(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := x.(string); ok {
			return s[lo:hi]
		}
		return mkStr(x.(*SymStr).b[lo:hi])
	case SliceV:
		return m.sliceOp(x, lo, hi, mx, hasHi, hasMx)
	case *Slot:
		if x == nil {
			m.nilDeref()
		}
		return m.sliceOp(SliceV(x.v.(*ArrayV).E), lo, hi, mx, hasHi, hasMx)
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (m *Machine) sliceOp(x SliceV, lo, hi, mx int, hasHi, hasMx bool) Value {
	if !hasHi {
		hi = len(x)
	}
	if !hasMx {
		mx = cap(x)
	}
	if lo < 0 || hi < lo || mx < hi || mx > cap(x) {
		m.goPanicRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(x)))
	}
	if x == nil {
		return x
	}
	return x[lo:hi:mx]
}

func (m *Machine) rangeMap(f *frame, mp *MapV) Value {
	it := &MapIter{mp: mp}
	if mp == nil {
		return it
	}
	if m.raceOn {
		m.raceReadMeta(f.g, &mp.m)
	}
	for k := range mp.keys {
		if mp.vals[k] != nil {
			it.order = append(it.order, k)
		}
	}
	if lim := m.opts["maporder"]; lim > 0 && f.c.repo && len(it.order) > 1 && int64(len(it.order)) <= lim {
		// arbitrary permutation
		for k := 0; k < len(it.order)-1; k++ {
			j := m.path.choose(m, len(it.order)-k)
			it.order[k], it.order[k+j] = it.order[k+j], it.order[k]
		}
	}
	return it
}

func (m *Machine) next(f *frame, i *ssa.Next, it *MapIter) Value {
	if i.IsString {
		n := strLen(it.str)
		if it.pos >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, w := m.decodeRune(it.str, p)
		it.pos += w
		return Tuple{true, uint64(p), r}
	}
	if m.raceOn && it.mp != nil {
		m.raceReadMeta(f.g, &it.mp.m)
	}
	for it.pos < len(it.order) {
		k := it.order[it.pos]
		it.pos++
		if it.mp.vals[k] == nil {
			continue
		}
		return Tuple{true, it.mp.keys[k], copyVal(it.mp.vals[k].v)}
	}
	tt := i.Type().(*types.Tuple)
	z := func(k int) Value {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(tt.At(k).Type())
	}
	return Tuple{false, z(1), z(2)}
}

// isHarness reports whether fn belongs to a harness file rather than to the code under test.
func isHarness(p *Program, pkg *ssa.Package, fn *ssa.Function) bool {
	if pkg != nil && strings.Contains(pkg.Pkg.Path(), "/zzverif") {
		return true
	}
	return strings.Contains(p.prog.Fset.Position(fn.Pos()).Filename, "zz_verif")
}
