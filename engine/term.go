package main

// Hash-consed terms over Bool / BV / FP.  One Terms table per worker.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZext
	OSext
	OExtract // low A bits (extract from bit B, width W)
	OConcat
	// floating point
	OFromBits // BV -> FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToF  // FP -> FP other width
	OSToF  // signed BV -> FP
	OUToF  // unsigned BV -> FP
	OFToS  // FP -> signed BV (RTZ)
	OFToU  // FP -> unsigned BV (RTZ)
	OFIsNaN
)

var opSMT = map[Op]string{OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", ONot: "not",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN"}

// Sort: 0 = Bool, 1..64 = BV width, 132 = Float32, 164 = Float64
type Sort uint16

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

type Term struct {
	op   Op
	sort Sort
	id   int32
	a    [3]*Term
	n    uint8
	p    uint32 // extract low bit
	val  uint64 // const value (bool: 0/1, bv: bits, fp: bits)
	name string // var

	// evaluation cache
	evGen uint32
	ev    uint64
	// solver emission
	emitted bool
	size    int32
}

type termKey struct {
	op         Op
	sort       Sort
	a0, a1, a2 int32
	p          uint32
	val        uint64
	name       string
}

type Terms struct {
	tab   map[termKey]*Term
	next  int32
	gen   uint32
	True  *Term
	False *Term
	vars  []*Term
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}}
	t.True = t.mk(OConst, SBool, 1, 0, "")
	t.False = t.mk(OConst, SBool, 0, 0, "")
	return t
}

func (T *Terms) mk(op Op, s Sort, val uint64, p uint32, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, val: val, p: p, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 3:
		k.a2 = args[2].id
		fallthrough
	case 2:
		k.a1 = args[1].id
		fallthrough
	case 1:
		k.a0 = args[0].id
	}
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, p: p, name: name, id: T.next, n: uint8(len(args)), size: 1}
	T.next++
	for i, a := range args {
		t.a[i] = a
		t.size += a.size
		if t.size < 0 || t.size > 1<<29 {
			t.size = 1 << 29
		}
	}
	T.tab[k] = t
	if op == OVar {
		T.vars = append(T.vars, t)
	}
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (T *Terms) Var(name string, s Sort) *Term { return T.mk(OVar, s, 0, 0, name) }
func (T *Terms) BV(v uint64, w Sort) *Term     { return T.mk(OConst, w, v&mask(w), 0, "") }
func (T *Terms) F64(f float64) *Term           { return T.mk(OConst, SF64, math.Float64bits(f), 0, "") }
func (T *Terms) F32(f float32) *Term {
	return T.mk(OConst, SF32, uint64(math.Float32bits(f)), 0, "")
}
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}
func (t *Term) isConst() bool { return t.op == OConst }

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	switch a.op { // push negation through comparisons
	case OULt:
		return T.ULe(a.a[1], a.a[0])
	case OULe:
		return T.ULt(a.a[1], a.a[0])
	case OSLt:
		return T.SLe(a.a[1], a.a[0])
	case OSLe:
		return T.SLt(a.a[1], a.a[0])
	}
	return T.mk(ONot, SBool, 0, 0, "", a)
}
func (T *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == T.Not(b) {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAnd, SBool, 0, 0, "", a, b)
}
func (T *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == T.Not(b) {
		return T.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OOr, SBool, 0, 0, "", a, b)
}
func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.val == 1 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	return T.mk(OIte, a.sort, 0, 0, "", c, a, b)
}
func (T *Terms) Eq(a, b *Term) *Term {
	if a == b && a.sort < 100 {
		return T.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		if a.sort >= 100 {
			panic("Eq on FP")
		}
		return T.Bool(a.val == b.val)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return T.Not(a)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() { // const = b
		switch b.op {
		case OZext:
			iw := b.a[0].sort
			if a.val&^mask(iw) != 0 {
				return T.False
			}
			return T.Eq(T.BV(a.val, iw), b.a[0])
		case OSext:
			iw := b.a[0].sort
			if uint64(sext(a.val&mask(iw), iw))&mask(a.sort) != a.val {
				return T.False
			}
			return T.Eq(T.BV(a.val, iw), b.a[0])
		case OIte:
			if b.a[1].isConst() && b.a[2].isConst() {
				e1, e2 := b.a[1].val == a.val, b.a[2].val == a.val
				switch {
				case e1 && e2:
					return T.True
				case e1:
					return b.a[0]
				case e2:
					return T.Not(b.a[0])
				default:
					return T.False
				}
			}
			if b.a[1].isConst() && b.a[1].val != a.val {
				return T.And(T.Not(b.a[0]), T.Eq(a, b.a[2]))
			}
			if b.a[2].isConst() && b.a[2].val != a.val {
				return T.And(b.a[0], T.Eq(a, b.a[1]))
			}
		case OAdd:
			if b.a[0].isConst() {
				return T.Eq(T.BV(a.val-b.a[0].val, a.sort), b.a[1])
			}
		}
		return T.mk(OEq, SBool, 0, 0, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
		return T.Eq(a.a[0], b.a[0])
	}
	return T.mk(OEq, SBool, 0, 0, "", a, b)
}

func (T *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %v sort mismatch %v %v", opSMT[op], a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, w, a.val, b.val); ok {
			return T.BV(v, w)
		}
	}
	switch op {
	case OAdd:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.val == 0 {
				return b
			}
			if b.op == OAdd && b.a[0].isConst() {
				return T.Bin(OAdd, T.BV(a.val+b.a[0].val, w), b.a[1])
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if b.isConst() {
			return T.Bin(OAdd, T.BV(-b.val, w), a)
		}
		if a == b {
			return T.BV(0, w)
		}
	case OMul:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			switch a.val {
			case 0:
				return a
			case 1:
				return b
			}
			if bits.OnesCount64(a.val) == 1 {
				return T.Bin(OShl, b, T.BV(uint64(bits.TrailingZeros64(a.val)), w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBAnd:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.val == 0 {
				return a
			}
			if a.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.val == 0 {
				return b
			}
			if a.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a == b {
			return T.BV(0, w)
		}
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) && op != OAShr {
			return T.BV(0, w)
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && bits.OnesCount64(b.val) == 1 {
			return T.Bin(OLShr, a, T.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OURem:
		if b.isConst() && bits.OnesCount64(b.val) == 1 {
			return T.Bin(OBAnd, a, T.BV(b.val-1, w))
		}
	}
	return T.mk(op, w, 0, 0, "", a, b)
}

func evalBin(op Op, w Sort, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sx>>y) & m, true
	}
	return 0, false
}

func (T *Terms) cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(evalCmp(op, a.sort, a.val, b.val))
	}
	if a == b {
		return T.Bool(op == OULe || op == OSLe)
	}
	w := a.sort
	switch op {
	case OULt:
		if b.isConst() && b.val == 0 || a.isConst() && a.val == mask(w) {
			return T.False
		}
		if a.isConst() && b.op == OZext {
			iw := b.a[0].sort
			if a.val > mask(iw) {
				return T.False
			}
			return T.ULt(T.BV(a.val, iw), b.a[0])
		}
		if b.isConst() && a.op == OZext {
			iw := a.a[0].sort
			if b.val > mask(iw) {
				return T.True
			}
			return T.ULt(a.a[0], T.BV(b.val, iw))
		}
	case OULe:
		if a.isConst() && a.val == 0 || b.isConst() && b.val == mask(w) {
			return T.True
		}
		if a.isConst() && b.op == OZext {
			iw := b.a[0].sort
			if a.val > mask(iw) {
				return T.False
			}
			return T.ULe(T.BV(a.val, iw), b.a[0])
		}
		if b.isConst() && a.op == OZext {
			iw := a.a[0].sort
			if b.val > mask(iw) {
				return T.True
			}
			return T.ULe(a.a[0], T.BV(b.val, iw))
		}
	case OSLt, OSLe:
		// zero-extended operands with constants in positive range
		if a.op == OZext && b.isConst() {
			if sext(b.val, w) < 0 {
				return T.False
			}
			if op == OSLt {
				return T.ULt(a, b)
			}
			return T.ULe(a, b)
		}
		if b.op == OZext && a.isConst() {
			if sext(a.val, w) < 0 {
				return T.True
			}
			if op == OSLt {
				return T.ULt(a, b)
			}
			return T.ULe(a, b)
		}
	}
	if a.op == OIte && b.isConst() && a.a[1].isConst() && a.a[2].isConst() {
		return T.Ite(a.a[0], T.cmp(op, a.a[1], b), T.cmp(op, a.a[2], b))
	}
	return T.mk(op, SBool, 0, 0, "", a, b)
}
func evalCmp(op Op, w Sort, x, y uint64) bool {
	switch op {
	case OULt:
		return x < y
	case OULe:
		return x <= y
	case OSLt:
		return sext(x, w) < sext(y, w)
	case OSLe:
		return sext(x, w) <= sext(y, w)
	}
	panic("cmp")
}
func (T *Terms) ULt(a, b *Term) *Term { return T.cmp(OULt, a, b) }
func (T *Terms) ULe(a, b *Term) *Term { return T.cmp(OULe, a, b) }
func (T *Terms) SLt(a, b *Term) *Term { return T.cmp(OSLt, a, b) }
func (T *Terms) SLe(a, b *Term) *Term { return T.cmp(OSLe, a, b) }

func (T *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return T.BV(^a.val, a.sort)
	}
	return T.mk(OBNot, a.sort, 0, 0, "", a)
}
func (T *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return T.BV(-a.val, a.sort)
	}
	return T.mk(ONeg, a.sort, 0, 0, "", a)
}

// Resize converts a BV term to width w.
func (T *Terms) Resize(a *Term, w Sort, signed bool) *Term {
	switch {
	case a.sort == w:
		return a
	case a.sort > w:
		if a.isConst() {
			return T.BV(a.val, w)
		}
		if a.op == OZext || a.op == OSext {
			in := a.a[0]
			if in.sort == w {
				return in
			}
			if in.sort > w {
				return T.Resize(in, w, signed)
			}
			return T.Resize(in, w, a.op == OSext)
		}
		return T.mk(OExtract, w, 0, 0, "", a)
	default:
		if a.isConst() {
			if signed {
				return T.BV(uint64(sext(a.val, a.sort)), w)
			}
			return T.BV(a.val, w)
		}
		if signed {
			if a.op == OZext {
				return T.mk(OZext, w, 0, 0, "", a.a[0])
			}
			return T.mk(OSext, w, 0, 0, "", a)
		}
		if a.op == OZext {
			a = a.a[0]
		}
		return T.mk(OZext, w, 0, 0, "", a)
	}
}

// ---- FP ----
func (T *Terms) FromBits(a *Term, s Sort) *Term {
	if a.isConst() {
		return T.mk(OConst, s, a.val, 0, "")
	}
	return T.mk(OFromBits, s, 0, 0, "", a)
}
func (T *Terms) FP(op Op, s Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	t := T.mk(op, s, 0, 0, "", args...)
	if all {
		ev := &evaluator{T: T, model: nil}
		T.gen++
		v := ev.eval(t)
		return T.mk(OConst, s, v, 0, "")
	}
	return t
}

// ---- evaluation under a model ----
type Model map[string]uint64

type evaluator struct {
	T     *Terms
	model Model
}

func (T *Terms) newGen() { T.gen++ }

func f64(v uint64) float64 { return math.Float64frombits(v) }
func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == e.T.gen {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = e.model[t.name]
	case ONot:
		r = 1 - e.eval(t.a[0])
	case OAnd:
		r = e.eval(t.a[0])
		if r == 1 {
			r = e.eval(t.a[1])
		}
	case OOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case OEq:
		r = b2u(e.eval(t.a[0]) == e.eval(t.a[1]))
	case OIte:
		if e.eval(t.a[0]) == 1 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OULt, OULe, OSLt, OSLe:
		r = b2u(evalCmp(t.op, t.a[0].sort, e.eval(t.a[0]), e.eval(t.a[1])))
	case OBNot:
		r = ^e.eval(t.a[0]) & mask(t.sort)
	case ONeg:
		r = -e.eval(t.a[0]) & mask(t.sort)
	case OZext:
		r = e.eval(t.a[0])
	case OSext:
		r = uint64(sext(e.eval(t.a[0]), t.a[0].sort)) & mask(t.sort)
	case OExtract:
		r = (e.eval(t.a[0]) >> t.p) & mask(t.sort)
	case OConcat:
		r = e.eval(t.a[0])<<t.a[1].sort | e.eval(t.a[1])
	case OFromBits:
		r = e.eval(t.a[0])
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := e.eval(t.a[0]), e.eval(t.a[1])
		if t.sort == SF64 {
			var f float64
			switch t.op {
			case OFAdd:
				f = f64(x) + f64(y)
			case OFSub:
				f = f64(x) - f64(y)
			case OFMul:
				f = f64(x) * f64(y)
			case OFDiv:
				f = f64(x) / f64(y)
			}
			r = math.Float64bits(f)
		} else {
			var f float32
			switch t.op {
			case OFAdd:
				f = f32(x) + f32(y)
			case OFSub:
				f = f32(x) - f32(y)
			case OFMul:
				f = f32(x) * f32(y)
			case OFDiv:
				f = f32(x) / f32(y)
			}
			r = uint64(math.Float32bits(f))
		}
	case OFNeg:
		if t.sort == SF64 {
			r = math.Float64bits(-f64(e.eval(t.a[0])))
		} else {
			r = uint64(math.Float32bits(-f32(e.eval(t.a[0]))))
		}
	case OFLt, OFLe, OFEq:
		x, y := e.eval(t.a[0]), e.eval(t.a[1])
		var fx, fy float64
		if t.a[0].sort == SF64 {
			fx, fy = f64(x), f64(y)
		} else {
			fx, fy = float64(f32(x)), float64(f32(y))
		}
		switch t.op {
		case OFLt:
			r = b2u(fx < fy)
		case OFLe:
			r = b2u(fx <= fy)
		case OFEq:
			r = b2u(fx == fy)
		}
	case OFIsNaN:
		x := e.eval(t.a[0])
		if t.a[0].sort == SF64 {
			r = b2u(math.IsNaN(f64(x)))
		} else {
			r = b2u(math.IsNaN(float64(f32(x))))
		}
	case OFToF:
		x := e.eval(t.a[0])
		if t.a[0].sort == SF64 && t.sort == SF32 {
			r = uint64(math.Float32bits(float32(f64(x))))
		} else if t.a[0].sort == SF32 && t.sort == SF64 {
			r = math.Float64bits(float64(f32(x)))
		} else {
			r = x
		}
	case OSToF:
		x := sext(e.eval(t.a[0]), t.a[0].sort)
		if t.sort == SF64 {
			r = math.Float64bits(float64(x))
		} else {
			r = uint64(math.Float32bits(float32(x)))
		}
	case OUToF:
		x := e.eval(t.a[0])
		if t.sort == SF64 {
			r = math.Float64bits(float64(x))
		} else {
			r = uint64(math.Float32bits(float32(x)))
		}
	case OFToS, OFToU:
		x := e.eval(t.a[0])
		var f float64
		if t.a[0].sort == SF64 {
			f = f64(x)
		} else {
			f = float64(f32(x))
		}
		if t.op == OFToS {
			r = uint64(int64(f)) & mask(t.sort)
		} else {
			r = uint64(f) & mask(t.sort)
		}
	default:
		x, y := e.eval(t.a[0]), e.eval(t.a[1])
		v, ok := evalBin(t.op, t.sort, x, y)
		if !ok {
			panic(fmt.Sprintf("eval op %d", t.op))
		}
		r = v
	}
	t.ev, t.evGen = r, e.T.gen
	return r
}

// ---- SMT-LIB emission ----
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SF32:
			if f := f32(t.val); f != f {
				return "(_ NaN 8 24)"
			}
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		case SF64:
			if f := f64(t.val); f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
		if t.sort%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort/4), t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("$t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort-t.a[0].sort)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort-t.a[0].sort)
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", uint32(t.sort)+t.p-1, t.p)
	case OFromBits, OFToF, OSToF:
		e := "8 24"
		if t.sort == SF64 {
			e = "11 53"
		}
		fmt.Fprintf(&sb, "(_ to_fp %s)", e)
		if t.op != OFromBits {
			sb.WriteString(" RNE")
		}
	case OUToF:
		e := "8 24"
		if t.sort == SF64 {
			e = "11 53"
		}
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", e)
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort)
	default:
		sb.WriteString(opSMT[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.n == 0 {
		if t.op == OVar {
			return t.name
		}
		if t.sort > 0 && t.sort < 100 {
			return fmt.Sprint(sext(t.val, t.sort))
		}
		return t.ref()
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OZext:
		sb.WriteString("zext")
	case OSext:
		sb.WriteString("sext")
	case OExtract:
		sb.WriteString("trunc")
	default:
		if s := opSMT[t.op]; s != "" {
			sb.WriteString(s)
		} else {
			fmt.Fprintf(&sb, "op%d", t.op)
		}
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}
