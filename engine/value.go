package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value = any

// Slot is one memory cell. Structs and arrays live in a Slot as *StructV / *ArrayV whose
// fields are Slots again, so that &x.f is a *Slot.
type Slot struct {
	v Value
	m *slotMeta
}
type slotMeta struct {
	wg    int
	wclk  int32
	wpos  string
	wrepo bool
	reads []readRec
}
type readRec struct {
	g    int
	clk  int32
	pos  string
	repo bool
}

type StructV struct {
	F   []Slot
	aux any
}
type ArrayV struct{ E []Slot }
type SliceV []Slot
type Tuple []Value
type SymStr struct{ b []Value } // each uint64 or *Term(8)
type Iface struct {
	t *RType
	v Value
}
type FuncV struct {
	fn     *ssa.Function
	bind   []Value
	native func(m *Machine, g *G, args []Value) Value
	name   string
}
type Opaque struct{ x any } // host object held in a VM value

type MapV struct {
	keys  []Value
	vals  []*Slot // nil when deleted
	idx   map[any]int
	nsym  int
	n     int
	ktype types.Type
	m     *slotMeta
}

type RType struct {
	id  int
	t   types.Type
	mu  sync.Mutex
	ms  map[string]*ssa.Function
	mst *types.MethodSet
	imp map[*types.Interface]bool
}

var (
	rtMu  sync.RWMutex
	rtMap typeutil.Map
	rtPtr = map[types.Type]*RType{}
	rtN   int
)

func rtypeOf(t types.Type) *RType {
	rtMu.RLock()
	r := rtPtr[t]
	rtMu.RUnlock()
	if r != nil {
		return r
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	if r := rtPtr[t]; r != nil {
		return r
	}
	if x := rtMap.At(t); x != nil {
		r = x.(*RType)
	} else {
		rtN++
		r = &RType{id: rtN, t: types.Unalias(t), ms: map[string]*ssa.Function{}, imp: map[*types.Interface]bool{}}
		rtMap.Set(t, r)
	}
	rtPtr[t] = r
	return r
}

func (r *RType) implements(it *types.Interface) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.imp[it]; ok {
		return b
	}
	b := types.Implements(r.t, it)
	r.imp[it] = b
	return b
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo returns width and signedness for integer types.
func intInfo(t types.Type) (Sort, bool, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return 0, false
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch t := under(t).(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Kind() == types.Float32:
			return float32(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Slot)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Slot)(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &StructV{F: make([]Slot, t.NumFields())}
		for i := range s.F {
			s.F[i].v = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{E: make([]Slot, t.Len())}
		switch under(t.Elem()).(type) {
		case *types.Struct, *types.Array:
			for i := range a.E {
				a.E[i].v = zero(t.Elem())
			}
		default:
			z := zero(t.Elem())
			for i := range a.E {
				a.E[i].v = z
			}
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, t.Len())
		for i := range tu {
			tu[i] = zero(t.At(i).Type())
		}
		return tu
	}
	panic(fmt.Sprintf("zero: %v (%T)", t, under(t)))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{F: make([]Slot, len(v.F))}
		for i := range v.F {
			n.F[i].v = copyVal(v.F[i].v)
		}
		return n
	case *ArrayV:
		n := &ArrayV{E: make([]Slot, len(v.E))}
		for i := range v.E {
			n.E[i].v = copyVal(v.E[i].v)
		}
		return n
	}
	return v
}

// storeInto stores v in the slot, in place for aggregates.
func storeInto(s *Slot, v Value) {
	switch v := v.(type) {
	case *StructV:
		if d, ok := s.v.(*StructV); ok && len(d.F) == len(v.F) {
			for i := range v.F {
				storeInto(&d.F[i], v.F[i].v)
			}
			if v.aux != nil || d.aux != nil {
				d.aux = nil
			}
			return
		}
		s.v = copyVal(v)
	case *ArrayV:
		if d, ok := s.v.(*ArrayV); ok && len(d.E) == len(v.E) {
			for i := range v.E {
				storeInto(&d.E[i], v.E[i].v)
			}
			return
		}
		s.v = copyVal(v)
	default:
		s.v = v
	}
}

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(uint64))
		}
		return string(bs)
	}
	return &SymStr{b: b}
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		b := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}
func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

// hashKey returns a native comparable key for a fully concrete value.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, *Slot, *ChanV, *FuncV, *MapV, Opaque:
		return v, true
	case float64:
		if v != v {
			return nil, false
		}
		if v == 0 {
			return float64(0), true
		}
		return v, true
	case float32:
		return v, v == v
	case Iface:
		if v.t == nil {
			return Iface{}, true
		}
		k, ok := hashKey(v.v)
		return ifKey{v.t, k}, ok
	case *StructV:
		var sb strings.Builder
		for i := range v.F {
			k, ok := hashKey(v.F[i].v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
			if p, ok := k.(*Slot); ok {
				fmt.Fprintf(&sb, "%p", p)
			}
		}
		return structKey(sb.String()), true
	case *ArrayV:
		var sb strings.Builder
		for i := range v.E {
			k, ok := hashKey(v.E[i].v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return structKey(sb.String()), true
	}
	return nil, false
}

type ifKey struct {
	t *RType
	k any
}
type structKey string

// ---- term lifting ----
func (m *Machine) bv(v Value, w Sort) *Term {
	switch v := v.(type) {
	case uint64:
		return m.T.BV(v, w)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("bv: %T", v))
}
func (m *Machine) boolT(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return m.T.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolT: %T", v))
}
func (m *Machine) fpT(v Value) *Term {
	switch v := v.(type) {
	case float64:
		return m.T.F64(v)
	case float32:
		return m.T.F32(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("fpT: %T", v))
}

// low converts constant terms back to concrete values.
func low(t *Term) Value {
	if t.op != OConst {
		return t
	}
	switch t.sort {
	case SBool:
		return t.val == 1
	case SF64:
		return math.Float64frombits(t.val)
	case SF32:
		return math.Float32frombits(uint32(t.val))
	}
	return t.val
}

// eqTerm returns the equality of two values as bool or Bool term; panics (Go level) on
// uncomparable dynamic types.
func (m *Machine) eqVal(x, y Value) Value {
	switch a := x.(type) {
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return low(m.T.Eq(m.T.Bool(a), b))
		}
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return low(m.T.Eq(m.T.BV(a, b.sort), b))
		}
	case *Term:
		if a.sort >= 100 {
			return low(m.T.FP(OFEq, SBool, a, m.fpT(y)))
		}
		switch b := y.(type) {
		case *Term:
			return low(m.T.Eq(a, b))
		case uint64:
			return low(m.T.Eq(a, m.T.BV(b, a.sort)))
		case bool:
			return low(m.T.Eq(a, m.T.Bool(b)))
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		return low(m.T.FP(OFEq, SBool, m.T.F64(a), m.fpT(y)))
	case float32:
		if b, ok := y.(float32); ok {
			return a == b
		}
		return low(m.T.FP(OFEq, SBool, m.T.F32(a), m.fpT(y)))
	case complex128:
		return a == y.(complex128)
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return m.strEq(x, y)
	case *SymStr:
		return m.strEq(x, y)
	case *Slot:
		return a == y.(*Slot)
	case *ChanV:
		return a == y.(*ChanV)
	case *MapV:
		b, _ := y.(*MapV)
		return a == b
	case *FuncV:
		b, _ := y.(*FuncV)
		return a == b
	case SliceV: // comparison with nil only
		b := y.(SliceV)
		return a == nil && b == nil
	case Opaque:
		b, ok := y.(Opaque)
		return ok && a.x == b.x
	case Iface:
		b := y.(Iface)
		if a.t != b.t {
			return false
		}
		if a.t == nil {
			return true
		}
		if !types.Comparable(a.t.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + a.t.t.String())
		}
		return m.eqVal(a.v, b.v)
	case *StructV:
		b := y.(*StructV)
		r := m.T.True
		for i := range a.F {
			r = m.T.And(r, m.boolT(m.eqVal(a.F[i].v, b.F[i].v)))
			if r == m.T.False {
				return false
			}
		}
		return low(r)
	case *ArrayV:
		b := y.(*ArrayV)
		r := m.T.True
		for i := range a.E {
			r = m.T.And(r, m.boolT(m.eqVal(a.E[i].v, b.E[i].v)))
			if r == m.T.False {
				return false
			}
		}
		return low(r)
	case nil:
		return y == nil
	}
	panic(unsupported(fmt.Sprintf("eqVal %T %T", x, y)))
}

func (m *Machine) strEq(x, y Value) Value {
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := strBytes(x), strBytes(y)
	r := m.T.True
	for i := range a {
		r = m.T.And(r, m.T.Eq(m.bv(a[i], 8), m.bv(b[i], 8)))
		if r == m.T.False {
			return false
		}
	}
	return low(r)
}

// strLess returns x<y lexicographically as term.
func (m *Machine) strLess(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := m.T.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := m.bv(a[i], 8), m.bv(b[i], 8)
		r = m.T.Or(m.T.ULt(p, q), m.T.And(m.T.Eq(p, q), r))
	}
	return low(r)
}

// ---- maps ----
func (m *Machine) mapFind(mp *MapV, k Value) int {
	if mp == nil {
		return -1
	}
	hk, conc := hashKey(k)
	if conc {
		if i, ok := mp.idx[hk]; ok && mp.vals[i] != nil {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if mp.vals[i] == nil {
			continue
		}
		if conc {
			if _, c2 := hashKey(mp.keys[i]); c2 {
				continue
			}
		}
		if m.truth(m.eqVal(mp.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if i := m.mapFind(mp, k); i >= 0 {
		// Values are replaced, not updated in place (map elements are not addressable).
		mp.vals[i].v = copyVal(v)
		return
	}
	k = copyVal(k)
	hk, conc := hashKey(k)
	if conc {
		if _, ok := mp.idx[hk]; ok { // tombstoned: drop the old index
			delete(mp.idx, hk)
		}
		mp.idx[hk] = len(mp.keys)
	} else {
		mp.nsym++
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, &Slot{v: copyVal(v)})
	mp.n++
}
func (m *Machine) mapDelete(mp *MapV, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	mp.vals[i] = nil
	if hk, conc := hashKey(mp.keys[i]); conc {
		delete(mp.idx, hk)
	} else {
		mp.nsym--
	}
	mp.n--
}
func newMap(kt types.Type) *MapV { return &MapV{idx: map[any]int{}, ktype: kt} }

type MapIter struct {
	mp    *MapV
	order []int
	pos   int
	str   Value // string iteration
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
