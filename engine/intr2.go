package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------- time ----------------
// A time.Time is modelled as {wall: 0 zero value / 1 otherwise, ext: ns since the Unix epoch}.

const zeroTimeNano = -6795364578871345152 // time.Time{}.UnixNano()

func mkTime(ns Value) Value {
	return &StructV{F: []Slot{{v: uint64(1)}, {v: ns}, {v: (*Slot)(nil)}}}
}
func timeZero(t Value) bool { return t.(*StructV).F[0].v.(uint64) == 0 }
func timeNS(t Value) Value {
	st := t.(*StructV)
	if st.F[0].v.(uint64) == 0 {
		z := int64(zeroTimeNano)
		return uint64(z)
	}
	return st.F[1].v
}

func (m *Machine) nowVal() Value {
	if m.symClock != nil {
		return m.symClock
	}
	if m.opts["symclock"] > 0 {
		t := m.fresh("now", 64, "int")
		last, _ := m.side["lastnow"].(*Term)
		lo := m.T.BV(uint64(m.now), 64)
		if last != nil {
			lo = last
		}
		m.path.assume(m, low(m.T.And(m.T.SLe(lo, t), m.T.SLe(t, m.T.BV(uint64(m.now)+uint64(m.opts["symclock"]), 64)))))
		m.side["lastnow"] = t
		return t
	}
	return uint64(m.now)
}

func (m *Machine) add64(a, b Value) Value {
	return low(m.T.Bin(OAdd, m.bv(a, 64), m.bv(b, 64)))
}

// satSub is time.Time.Sub: saturating difference.
func (m *Machine) satSub(a, b Value) Value {
	T := m.T
	x, y := m.bv(a, 64), m.bv(b, 64)
	d := T.Bin(OSub, x, y)
	// overflow iff sign(x)!=sign(y) and sign(d)!=sign(x)
	z := T.BV(0, 64)
	xn, yn, dn := T.SLt(x, z), T.SLt(y, z), T.SLt(d, z)
	ov := T.And(T.Not(T.Eq(xn, yn)), T.Not(T.Eq(dn, xn)))
	return low(T.Ite(ov, T.Ite(xn, T.BV(1<<63, 64), T.BV(1<<63-1, 64)), d))
}

func initTime() {
	type M = *Machine
	reg("time.now time.runtimeNow", func(m M, g *G, fn *ssa.Function, a []Value) Value { panic(unsupported("time.now")) })
	reg("time.Now", func(m M, g *G, fn *ssa.Function, a []Value) Value { return mkTime(m.nowVal()) })
	reg("time.runtimeNano", func(m M, g *G, fn *ssa.Function, a []Value) Value { return m.nowVal() })
	reg("time.Unix", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(uint64)
		if !ok {
			if n, ok := a[1].(uint64); ok && n == 0 {
				// seconds symbolic: assume no overflow
				t := a[0].(*Term)
				lim := m.T.BV(9000000000, 64)
				m.path.assume(m, low(m.T.And(m.T.SLe(m.T.Neg(lim), t), m.T.SLe(t, lim))))
				m.note("time.Unix seconds restricted to |s| <= 9e9")
				return mkTime(low(m.T.Bin(OMul, t, m.T.BV(1e9, 64))))
			}
			panic(unsupported("time.Unix with symbolic seconds"))
		}
		return mkTime(m.add64(s*1e9, a[1]))
	})
	reg("time.UnixMilli", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return mkTime(low(m.T.Bin(OMul, m.bv(a[0], 64), m.T.BV(1e6, 64))))
	})
	reg("time.Since", func(m M, g *G, fn *ssa.Function, a []Value) Value { return m.tsub(mkTime(m.nowVal()), a[0]) })
	reg("time.Until", func(m M, g *G, fn *ssa.Function, a []Value) Value { return m.tsub(a[0], mkTime(m.nowVal())) })
	reg("(time.Time).UnixNano", func(m M, g *G, fn *ssa.Function, a []Value) Value { return timeNS(a[0]) })
	reg("(time.Time).Unix", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		if timeZero(a[0]) {
			s := int64(-62135596800)
			return uint64(s)
		}
		return low(m.T.Bin(OSDiv, m.bv(timeNS(a[0]), 64), m.T.BV(1e9, 64))) // floor for >= 0
	})
	reg("(time.Time).Sub", func(m M, g *G, fn *ssa.Function, a []Value) Value { return m.tsub(a[0], a[1]) })
	reg("(time.Time).Add", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		if timeZero(a[0]) {
			if d, ok := a[1].(uint64); ok && d == 0 {
				return a[0]
			}
			panic(unsupported("Add on zero Time"))
		}
		x := timeNS(a[0])
		_, s1 := x.(*Term)
		_, s2 := a[1].(*Term)
		if s1 || s2 {
			// the model covers 1678..2262 only: overflow is outside the bound
			T := m.T
			p, q := m.bv(x, 64), m.bv(a[1], 64)
			sum := T.Bin(OAdd, p, q)
			z := T.BV(0, 64)
			pn, qn, sn := T.SLt(p, z), T.SLt(q, z), T.SLt(sum, z)
			m.path.assume(m, low(T.Or(T.Not(T.Eq(pn, qn)), T.Eq(sn, pn))))
		}
		return mkTime(m.add64(x, a[1]))
	})
	cmp := func(f func(m M, x, y Value) Value, zz, zn, nz bool) Intrinsic {
		return func(m M, g *G, fn *ssa.Function, a []Value) Value {
			z0, z1 := timeZero(a[0]), timeZero(a[1])
			switch {
			case z0 && z1:
				return zz
			case z0:
				return zn
			case z1:
				return nz
			}
			return f(m, timeNS(a[0]), timeNS(a[1]))
		}
	}
	reg("(time.Time).Before", cmp(func(m M, x, y Value) Value { return low(m.T.SLt(m.bv(x, 64), m.bv(y, 64))) }, false, true, false))
	reg("(time.Time).After", cmp(func(m M, x, y Value) Value { return low(m.T.SLt(m.bv(y, 64), m.bv(x, 64))) }, false, false, true))
	reg("(time.Time).Equal", cmp(func(m M, x, y Value) Value { return low(m.T.Eq(m.bv(x, 64), m.bv(y, 64))) }, true, false, false))
	reg("(time.Time).Compare", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		z0, z1 := timeZero(a[0]), timeZero(a[1])
		T := m.T
		switch {
		case z0 && z1:
			return uint64(0)
		case z0:
			return ^uint64(0)
		case z1:
			return uint64(1)
		}
		x, y := m.bv(timeNS(a[0]), 64), m.bv(timeNS(a[1]), 64)
		return low(T.Ite(T.SLt(x, y), T.BV(^uint64(0), 64), T.Ite(T.Eq(x, y), T.BV(0, 64), T.BV(1, 64))))
	})
	reg("(time.Time).IsZero", func(m M, g *G, fn *ssa.Function, a []Value) Value { return timeZero(a[0]) })
	reg("(time.Time).UTC (time.Time).Local (time.Time).Round", func(m M, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(time.Time).String (time.Time).Format (time.Time).GoString", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		if timeZero(a[0]) {
			return "0001-01-01 00:00:00 +0000 UTC"
		}
		switch x := timeNS(a[0]).(type) {
		case uint64:
			return "T" + strconv.FormatInt(int64(x), 10)
		case *Term:
			return m.opaqueStr(x)
		}
		return "T"
	})
	reg("(time.Duration).String", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		if d, ok := a[0].(uint64); ok {
			return time.Duration(int64(d)).String()
		}
		return m.opaqueStr(a[0])
	})
	reg("time.ParseDuration", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		d, err := time.ParseDuration(constStr(m, a[0]))
		if err != nil {
			return Tuple{uint64(0), m.newError(g, err.Error())}
		}
		return Tuple{uint64(d), Iface{}}
	})
	reg("time.Sleep", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(i2n(m, a[0]))
		wake := m.now + d
		if d <= 0 {
			wake = m.now
		}
		op := &VOp{kind: "sleep", sleep: true, wakeAt: wake, enabled: func() bool { return m.now >= wake }}
		m.visible(g, op)
		g.op = nil
		return nil
	})
	mkTimer := func(m M, g *G, fn *ssa.Function, d int64, period int64) Value {
		rt := fn.Signature.Results().At(0).Type() // *time.Timer / *time.Ticker
		st := zero(deref(rt)).(*StructV)
		ch := m.newChan(1, m.P.pkgs["time"].Type("Time").Type())
		st.F[0].v = ch
		t := m.addTimer(g, d, period, func(t *vtimer) {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, mkTime(uint64(m.now)))
				ch.bufVC = append(ch.bufVC, t.vc.clone())
			}
		})
		t.ch = ch
		st.aux = t
		return &Slot{v: st}
	}
	reg("time.NewTimer", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return mkTimer(m, g, fn, int64(i2n(m, a[0])), 0)
	})
	reg("time.NewTicker", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(i2n(m, a[0]))
		if d <= 0 {
			panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "non-positive interval for NewTicker"}, stack: m.stack(g)})
		}
		return mkTimer(m, g, fn, d, d)
	})
	reg("time.After time.Tick", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		d := int64(i2n(m, a[0]))
		per := int64(0)
		if fn.Name() == "Tick" {
			per = d
		}
		ch := m.newChan(1, m.P.pkgs["time"].Type("Time").Type())
		m.addTimer(g, d, per, func(t *vtimer) {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, mkTime(uint64(m.now)))
				ch.bufVC = append(ch.bufVC, t.vc.clone())
			}
		})
		return ch
	})
	reg("time.AfterFunc", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		st := zero(deref(fn.Signature.Results().At(0).Type())).(*StructV)
		f := a[1]
		st.aux = m.addTimer(g, int64(i2n(m, a[0])), 0, func(t *vtimer) {
			ng := m.spawn(nil, func(g *G) { m.call(g, f, nil) }, "AfterFunc")
			ng.vc.join(t.vc)
		})
		return &Slot{v: st}
	})
	timerOf := func(m M, p Value) *vtimer {
		st := m.structOf(p)
		t, _ := st.aux.(*vtimer)
		if t == nil {
			panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "time: Stop called on uninitialized Timer"}, stack: ""})
		}
		return t
	}
	reg("(*time.Timer).Stop (*time.Ticker).Stop", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		t := timerOf(m, a[0])
		if t.ch != nil {
			m.visible(g, &VOp{kind: "timer.Stop", obj: t.ch.obj, write: true})
			g.op = nil
			t.ch.buf, t.ch.bufVC = nil, nil // Go >= 1.23 semantics: no stale value after Stop
		}
		was := t.active
		t.active = false
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	})
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		t := timerOf(m, a[0])
		if t.ch != nil {
			m.visible(g, &VOp{kind: "timer.Reset", obj: t.ch.obj, write: true})
			g.op = nil
			t.ch.buf, t.ch.bufVC = nil, nil
		}
		was := t.active
		d := int64(i2n(m, a[1]))
		t.when = m.now + d
		if d < 0 {
			t.when = m.now
		}
		if t.period > 0 {
			t.period = d
		}
		t.active = true
		t.vc = g.vc.clone()
		g.vc.tick(g.id)
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	})
}

func (m *Machine) tsub(x, y Value) Value {
	z0, z1 := timeZero(x), timeZero(y)
	switch {
	case z0 && z1:
		return uint64(0)
	case z1:
		return uint64(1<<63 - 1)
	case z0:
		return uint64(1 << 63)
	}
	return m.satSub(timeNS(x), timeNS(y))
}

func (m *Machine) newError(g *G, msg Value) Value {
	p := m.P.pkgs["errors"]
	return m.callFn(g, p.Func("New"), nil, []Value{msg})
}

// ---------------- protobuf ----------------

func isPBMessage(t types.Type) bool {
	st, ok := under(deref(t)).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "state" {
			return strings.HasSuffix(f.Type().String(), "impl.MessageState")
		}
	}
	return false
}

func pbField(st *types.Struct, i int) bool {
	tag := reflect.StructTag(st.Tag(i))
	return tag.Get("protobuf") != "" || tag.Get("protobuf_oneof") != ""
}

// cloneVal deep-copies the value of a message field.
func (m *Machine) cloneVal(g *G, t types.Type, v Value) Value {
	switch ut := under(t).(type) {
	case *types.Pointer:
		s := v.(*Slot)
		if s == nil {
			return s
		}
		if isPBMessage(t) {
			return m.cloneMsg(g, t, s)
		}
		// oneof wrapper or scalar pointer
		if st, ok := under(ut.Elem()).(*types.Struct); ok {
			src := s.v.(*StructV)
			n := &StructV{F: make([]Slot, len(src.F))}
			for i := range src.F {
				if m.raceOn {
					m.raceRead(g, &src.F[i])
				}
				n.F[i].v = m.cloneVal(g, st.Field(i).Type(), src.F[i].v)
			}
			return &Slot{v: n}
		}
		return &Slot{v: copyVal(s.v)}
	case *types.Slice:
		s := v.(SliceV)
		if s == nil {
			return s
		}
		isBytes := false
		if w, _, ok := intInfo(ut.Elem()); ok && w == 8 {
			isBytes = true
		}
		if len(s) == 0 && !isBytes {
			return SliceV(nil)
		}
		n := make(SliceV, len(s))
		for i := range s {
			if m.raceOn {
				m.raceRead(g, &s[i])
			}
			n[i].v = m.cloneVal(g, ut.Elem(), s[i].v)
		}
		return n
	case *types.Map:
		mp := v.(*MapV)
		if mp == nil || mp.n == 0 {
			return (*MapV)(nil)
		}
		n := newMap(ut.Key())
		for i := range mp.keys {
			if mp.vals[i] == nil {
				continue
			}
			k := mp.keys[i]
			if hk, c := hashKey(k); c {
				n.idx[hk] = len(n.keys)
			} else {
				n.nsym++
			}
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, &Slot{v: m.cloneVal(g, ut.Elem(), mp.vals[i].v)})
			n.n++
		}
		return n
	case *types.Interface:
		it := v.(Iface)
		if it.t == nil {
			return it
		}
		return Iface{it.t, m.cloneVal(g, it.t.t, it.v)}
	}
	return copyVal(v)
}

func (m *Machine) cloneMsg(g *G, t types.Type, s *Slot) *Slot {
	if s == nil {
		return nil
	}
	st := under(deref(t)).(*types.Struct)
	src := s.v.(*StructV)
	n := zero(deref(t)).(*StructV)
	for i := 0; i < st.NumFields(); i++ {
		if !pbField(st, i) {
			continue
		}
		if m.raceOn {
			m.raceRead(g, &src.F[i])
		}
		n.F[i].v = m.cloneVal(g, st.Field(i).Type(), src.F[i].v)
	}
	return &Slot{v: n}
}

// eqField compares two field values of a message as proto.Equal does; the result may be a term.
func (m *Machine) pbEq(t types.Type, a, b Value) *Term {
	T := m.T
	switch ut := under(t).(type) {
	case *types.Pointer:
		x, y := a.(*Slot), b.(*Slot)
		if x == nil || y == nil {
			return T.Bool(x == nil && y == nil)
		}
		if x == y {
			// NaN-free shortcut is not sound for floats; compare structurally
		}
		st, ok := under(ut.Elem()).(*types.Struct)
		if !ok {
			return m.pbEq(ut.Elem(), x.v, y.v)
		}
		msg := isPBMessage(t)
		r := T.True
		p, q := x.v.(*StructV), y.v.(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			if msg && !pbField(st, i) {
				continue
			}
			if m.raceOn {
				m.raceRead(m.cur, &p.F[i])
				m.raceRead(m.cur, &q.F[i])
			}
			if oneofMsgNil(st.Field(i).Type(), p.F[i].v) || oneofMsgNil(st.Field(i).Type(), q.F[i].v) {
				m.note("oneof wrapper holding a nil message compared")
			}
			r = T.And(r, m.pbEq(st.Field(i).Type(), p.F[i].v, q.F[i].v))
			if r == T.False {
				return r
			}
		}
		return r
	case *types.Slice:
		x, y := a.(SliceV), b.(SliceV)
		if len(x) != len(y) {
			return T.False
		}
		r := T.True
		for i := range x {
			r = T.And(r, m.pbEq(ut.Elem(), x[i].v, y[i].v))
		}
		return r
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		nx, ny := 0, 0
		if x != nil {
			nx = x.n
		}
		if y != nil {
			ny = y.n
		}
		if nx != ny {
			return T.False
		}
		r := T.True
		if nx == 0 {
			return r
		}
		for i := range x.keys {
			if x.vals[i] == nil {
				continue
			}
			// exists j: key equal and value equal
			ex := T.False
			for j := range y.keys {
				if y.vals[j] == nil {
					continue
				}
				ke := m.boolT(m.eqVal(x.keys[i], y.keys[j]))
				if ke == T.False {
					continue
				}
				ex = T.Or(ex, T.And(ke, m.pbEq(ut.Elem(), x.vals[i].v, y.vals[j].v)))
			}
			r = T.And(r, ex)
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return T.False
		}
		if x.t == nil {
			return T.True
		}
		return m.pbEq(x.t.t, x.v, y.v)
	}
	if _, ok := isFloat(t); ok {
		x, y := m.fpT(a), m.fpT(b)
		if x.isConst() && y.isConst() && x == y {
			return T.True
		}
		return T.Or(T.FP(OFEq, SBool, x, y), T.And(T.FP(OFIsNaN, SBool, x), T.FP(OFIsNaN, SBool, y)))
	}
	return m.boolT(m.eqVal(a, b))
}

func oneofMsgNil(t types.Type, v Value) bool { return false }

func (m *Machine) protoText(g *G, t types.Type, v Value) Value {
	return m.pbText(g, t, v, 0)
}

func (m *Machine) pbText(g *G, t types.Type, v Value, d int) Value {
	if d > 12 {
		return "..."
	}
	cat := func(parts ...Value) Value {
		var b []Value
		conc := true
		for _, p := range parts {
			if _, ok := p.(string); !ok {
				conc = false
			}
		}
		if conc {
			var sb strings.Builder
			for _, p := range parts {
				sb.WriteString(p.(string))
			}
			return sb.String()
		}
		for _, p := range parts {
			b = append(b, strBytes(p)...)
		}
		return mkStr(b)
	}
	switch ut := under(t).(type) {
	case *types.Pointer:
		s, _ := v.(*Slot)
		if s == nil {
			return "<nil>"
		}
		st, ok := under(ut.Elem()).(*types.Struct)
		if !ok {
			return m.pbText(g, ut.Elem(), s.v, d+1)
		}
		msg := isPBMessage(t)
		var parts []Value
		src := s.v.(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			if msg && !pbField(st, i) {
				continue
			}
			fv := src.F[i].v
			switch x := fv.(type) {
			case *Slot:
				if x == nil {
					continue
				}
			case SliceV:
				if len(x) == 0 {
					continue
				}
			case *MapV:
				if x == nil || x.n == 0 {
					continue
				}
			case Iface:
				if x.t == nil {
					continue
				}
			case string:
				if x == "" && msg {
					continue
				}
			case uint64:
				if x == 0 && msg {
					continue
				}
			case bool:
				if !x && msg {
					continue
				}
			}
			if len(parts) > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, strings.ToLower(st.Field(i).Name())+":", m.pbText(g, st.Field(i).Type(), fv, d+1))
		}
		return cat(append(append([]Value{"{"}, parts...), "}")...)
	case *types.Slice:
		s := v.(SliceV)
		if w, _, ok := intInfo(ut.Elem()); ok && w == 8 {
			return cat("\"", mkStr(byteSeq(s)), "\"")
		}
		parts := []Value{"["}
		for i := range s {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, m.pbText(g, ut.Elem(), s[i].v, d+1))
		}
		return cat(append(parts, "]")...)
	case *types.Map:
		mp := v.(*MapV)
		parts := []Value{"<"}
		for i := range mp.keys {
			if mp.vals[i] != nil {
				parts = append(parts, m.pbText(g, ut.Key(), mp.keys[i], d+1), ":", m.pbText(g, ut.Elem(), mp.vals[i].v, d+1), " ")
			}
		}
		return cat(append(parts, ">")...)
	case *types.Interface:
		it := v.(Iface)
		if it.t == nil {
			return "<nil>"
		}
		return m.pbText(g, it.t.t, it.v, d+1)
	case *types.Basic:
		if isString(t) {
			return cat("\"", v, "\"")
		}
		switch x := v.(type) {
		case uint64:
			if w, s, ok := intInfo(t); ok && s {
				return strconv.FormatInt(sext(x, w), 10)
			}
			return strconv.FormatUint(x, 10)
		case *Term:
			return m.opaqueStr(x)
		}
		return fmt.Sprint(v)
	}
	return fmt.Sprint(v)
}

func initProto() {
	type M = *Machine
	reg("google.golang.org/protobuf/proto.Clone google.golang.org/protobuf/proto.CloneOf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it, ok := a[0].(Iface)
		if !ok {
			panic(unsupported("proto.CloneOf"))
		}
		if it.t == nil {
			return it
		}
		s := it.v.(*Slot)
		return Iface{it.t, m.cloneMsg(g, it.t.t, s)}
	})
	reg("google.golang.org/protobuf/proto.Equal", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == y.t
		}
		if x.t != y.t {
			return false
		}
		return low(m.pbEq(x.t.t, x.v, y.v))
	})
	reg("google.golang.org/protobuf/proto.Size", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return uint64(m.pbSize(a[0].(Iface)))
	})
	reg("google.golang.org/protobuf/proto.Merge", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		panic(unsupported("proto.Merge"))
	})
	reg("google.golang.org/protobuf/proto.Reset", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[0].(Iface)
		storeInto(it.v.(*Slot), zero(deref(it.t.t)))
		return nil
	})
	reg("google.golang.org/protobuf/encoding/prototext.Format (google.golang.org/protobuf/encoding/prototext.MarshalOptions).Format", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[len(a)-1].(Iface)
		if it.t == nil {
			return "<nil>"
		}
		return m.protoText(g, it.t.t, it.v)
	})
	reg("google.golang.org/protobuf/encoding/prototext.Marshal (google.golang.org/protobuf/encoding/prototext.MarshalOptions).Marshal", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[len(a)-1].(Iface)
		if it.t == nil {
			return Tuple{SliceV(nil), Iface{}}
		}
		return Tuple{bytesOf(m.protoText(g, it.t.t, it.v)), Iface{}}
	})
	reg("(google.golang.org/protobuf/internal/impl.Export).MessageStringOf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[1].(Iface)
		return m.protoText(g, it.t.t, it.v)
	})
	// Any payloads: decoding either fails or yields an arbitrary message; both are explored.
	reg("google.golang.org/protobuf/proto.Unmarshal", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		if m.freshChoice("proto.Unmarshal", 2) == 1 {
			return m.newError(g, "proto: cannot parse invalid wire-format data")
		}
		m.note("proto.Unmarshal leaves the message as it is")
		return Iface{}
	})
	reg("google.golang.org/protobuf/proto.Marshal (google.golang.org/protobuf/proto.MarshalOptions).Marshal", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[len(a)-1].(Iface)
		if it.t == nil {
			return Tuple{SliceV(nil), Iface{}}
		}
		m.note("proto.Marshal output is symbolic text")
		return Tuple{bytesOf(m.protoText(g, it.t.t, it.v)), Iface{}}
	})
	// known well-typed pointers to string etc. helpers are interpreted from source
}

func bytesOf(s Value) SliceV {
	b := strBytes(s)
	r := make(SliceV, len(b))
	for i := range b {
		r[i].v = b[i]
	}
	return r
}

// pbSize is a structural size (not the wire size).
func (m *Machine) pbSize(it Iface) int {
	n := 0
	var walk func(v Value, d int)
	walk = func(v Value, d int) {
		if d > 20 {
			return
		}
		switch v := v.(type) {
		case *Slot:
			if v != nil {
				n += 2
				walk(v.v, d+1)
			}
		case *StructV:
			for i := range v.F {
				walk(v.F[i].v, d+1)
			}
		case SliceV:
			for i := range v {
				walk(v[i].v, d+1)
			}
		case *MapV:
			if v != nil {
				for i := range v.keys {
					if v.vals[i] != nil {
						walk(v.keys[i], d+1)
						walk(v.vals[i].v, d+1)
					}
				}
			}
		case Iface:
			if v.t != nil {
				walk(v.v, d+1)
			}
		case string:
			n += len(v)
		case *SymStr:
			n += len(v.b)
		case uint64:
			if v != 0 {
				n++
			}
		case *Term, float64, float32:
			n += 4
		}
	}
	if it.t != nil {
		walk(it.v, 0)
	}
	return n
}

// ---------------- fmt ----------------

func initFmt() {
	type M = *Machine
	variadic := func(v Value) []Value {
		s, _ := v.(SliceV)
		r := make([]Value, len(s))
		for i := range s {
			r[i] = s[i].v
		}
		return r
	}
	reg("fmt.Sprintf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return m.sprintf(g, m.strText(a[0]), variadic(a[1]))
	})
	reg("fmt.Sprint fmt.Sprintln", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return m.sprint(g, variadic(a[0]), fn.Name() == "Sprintln")
	})
	reg("fmt.Errorf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		args := variadic(a[1])
		f := m.strText(a[0])
		msg := m.sprintf(g, strings.ReplaceAll(f, "%w", "%v"), args)
		var wrapped []Value
		// find %w operands
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] == '%' {
				continue
			}
			if i < len(f) && f[i] == 'w' && ai < len(args) {
				wrapped = append(wrapped, args[ai])
			}
			ai++
		}
		switch len(wrapped) {
		case 0:
			return m.newError(g, msg)
		case 1:
			t := m.P.pkgs["fmt"].Type("wrapError").Type()
			return Iface{rtypeOf(types.NewPointer(t)), &Slot{v: &StructV{F: []Slot{{v: msg}, {v: wrapped[0]}}}}}
		}
		t := m.P.pkgs["fmt"].Type("wrapErrors").Type()
		var es SliceV
		for _, w := range wrapped {
			es = append(es, Slot{v: w})
		}
		return Iface{rtypeOf(types.NewPointer(t)), &Slot{v: &StructV{F: []Slot{{v: msg}, {v: es}}}}}
	})
	write := func(m M, g *G, w Iface, s Value) Value {
		r := m.callMethod(g, w, "Write", bytesOf(s))
		return r
	}
	reg("fmt.Fprintf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		s := m.sprintf(g, m.strText(a[1]), variadic(a[2]))
		w := a[0].(Iface)
		if m.isStd(w) {
			return Tuple{uint64(strLen(s)), Iface{}}
		}
		return write(m, g, w, s)
	})
	reg("fmt.Fprint fmt.Fprintln", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		s := m.sprint(g, variadic(a[1]), fn.Name() == "Fprintln")
		w := a[0].(Iface)
		if m.isStd(w) {
			return Tuple{uint64(strLen(s)), Iface{}}
		}
		return write(m, g, w, s)
	})
	reg("fmt.Printf fmt.Println fmt.Print log.Printf log.Println log.Print", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return zeroResult(fn)
	})
	reg("log.Fatalf log.Fatal log.Fatalln log.Panicf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		m.violation("exit", "process exit through "+fn.String()+"\n"+m.stack(g))
		return nil
	})
}

func (m *Machine) isStd(w Iface) bool {
	return w.t != nil && w.t.t.String() == "*os.File"
}

func (m *Machine) sprint(g *G, args []Value, ln bool) Value {
	var b []Value
	for i, a := range args {
		it := a.(Iface)
		if i > 0 {
			sp := ln
			if !ln {
				p := args[i-1].(Iface)
				sp = !(it.t != nil && isString(it.t.t)) && !(p.t != nil && isString(p.t.t))
			}
			if sp {
				b = append(b, uint64(' '))
			}
		}
		b = append(b, strBytes(m.fmtValue(g, it, 'v', ""))...)
	}
	if ln {
		b = append(b, uint64('\n'))
	}
	return mkStr(b)
}

func (m *Machine) sprintf(g *G, f string, args []Value) Value {
	var b []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			b = append(b, uint64(s[i]))
		}
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b = append(b, uint64(f[i]))
			continue
		}
		j := i + 1
		flags := ""
		for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
			if f[j] == '*' {
				if ai < len(args) {
					flags += strconv.Itoa(i2n(m, args[ai].(Iface).v))
				}
				ai++
			} else {
				flags += string(f[j])
			}
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		it, ok := args[ai].(Iface)
		ai++
		if !ok {
			lit("?")
			continue
		}
		b = append(b, strBytes(m.fmtValue(g, it, verb, flags))...)
	}
	if ai < len(args) {
		lit("%!(EXTRA ...)")
	}
	return mkStr(b)
}

func (m *Machine) fmtValue(g *G, it Iface, verb byte, flags string) Value {
	if it.t == nil {
		if verb == 'v' || verb == 's' && false {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(it.t.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0xc000010000"
	}
	if strings.Contains("vsqxX", string(verb)) && !strings.Contains(flags, "#") {
		for _, mn := range []string{"Error", "String"} {
			f := m.hasMethod(it.t, mn)
			if !sigIs(f, 0, 1) || !isString(f.Type().(*types.Signature).Results().At(0).Type()) {
				continue
			}
			if s, ok := it.v.(*Slot); ok && s == nil {
				return "<nil>"
			}
			r := m.callMethod(g, it, mn)
			return m.fmtStr(r, verb, flags)
		}
	}
	return m.fmtTyped(g, it.t.t, it.v, verb, flags, 0)
}

func (m *Machine) fmtStr(r Value, verb byte, flags string) Value {
	if s, ok := r.(string); ok {
		v := verb
		if v == 'v' {
			v = 's'
		}
		return fmt.Sprintf("%"+flags+string(v), s)
	}
	if verb == 'q' {
		m.note("%q of a symbolic string without escaping")
		return mkStr(append(append([]Value{uint64('"')}, strBytes(r)...), uint64('"')))
	}
	if verb == 'x' || verb == 'X' {
		return m.opaqueStr(r)
	}
	return r
}

func (m *Machine) fmtTyped(g *G, t types.Type, v Value, verb byte, flags string, d int) Value {
	if d > 10 {
		return "..."
	}
	if d > 0 {
		// nested values with methods
		switch under(t).(type) {
		case *types.Interface:
		default:
			rt := rtypeOf(t)
			if verb == 'v' || verb == 's' || verb == 'q' {
				if f := m.hasMethod(rt, "Error"); sigIs(f, 0, 1) {
					return m.fmtValue(g, Iface{rt, v}, verb, flags)
				}
				if f := m.hasMethod(rt, "String"); sigIs(f, 0, 1) {
					return m.fmtValue(g, Iface{rt, v}, verb, flags)
				}
			}
		}
	}
	nf := "%" + flags + string(verb)
	switch ut := under(t).(type) {
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			return fmt.Sprintf(nf, x)
		case float64:
			return fmt.Sprintf(nf, x)
		case float32:
			return fmt.Sprintf(nf, x)
		case complex128:
			return fmt.Sprintf(nf, x)
		case uint64:
			w, s, _ := intInfo(t)
			if s {
				if verb == 'c' || verb == 'q' || verb == 'U' {
					return fmt.Sprintf(nf, rune(sext(x, w)))
				}
				return fmt.Sprintf(nf, sext(x, w))
			}
			return fmt.Sprintf(nf, x)
		case string, *SymStr:
			return m.fmtStr(x, verb, flags)
		case *Term:
			if x.sort == SBool {
				if m.truth(x) {
					return fmt.Sprintf(nf, true)
				}
				return fmt.Sprintf(nf, false)
			}
			return m.opaqueStr(x)
		case *Slot:
			return "0xc000010000"
		}
	case *types.Slice:
		s := v.(SliceV)
		if w, _, ok := intInfo(ut.Elem()); ok && w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return m.fmtStr(mkStr(byteSeq(s)), verb, flags)
		}
		return m.fmtList(g, ut.Elem(), s, verb, flags, d)
	case *types.Array:
		return m.fmtList(g, ut.Elem(), SliceV(v.(*ArrayV).E), verb, flags, d)
	case *types.Interface:
		it := v.(Iface)
		if it.t == nil {
			return "<nil>"
		}
		return m.fmtTyped(g, it.t.t, it.v, verb, flags, d+1)
	case *types.Map:
		mp := v.(*MapV)
		var b []Value
		b = append(b, strBytes("map[")...)
		if mp != nil {
			first := true
			for i := range mp.keys {
				if mp.vals[i] == nil {
					continue
				}
				if !first {
					b = append(b, uint64(' '))
				}
				first = false
				b = append(b, strBytes(m.fmtTyped(g, ut.Key(), mp.keys[i], verb, flags, d+1))...)
				b = append(b, uint64(':'))
				b = append(b, strBytes(m.fmtTyped(g, ut.Elem(), mp.vals[i].v, verb, flags, d+1))...)
			}
		}
		return mkStr(append(b, uint64(']')))
	case *types.Struct:
		st := v.(*StructV)
		b := strBytes("{")
		for i := range st.F {
			if i > 0 {
				b = append(b, uint64(' '))
			}
			b = append(b, strBytes(m.fmtTyped(g, ut.Field(i).Type(), st.F[i].v, verb, flags, d+1))...)
		}
		return mkStr(append(b, uint64('}')))
	case *types.Pointer:
		s, _ := v.(*Slot)
		if s == nil {
			return "<nil>"
		}
		if d == 0 {
			if _, ok := under(ut.Elem()).(*types.Struct); ok {
				x := m.fmtTyped(g, ut.Elem(), s.v, verb, flags, d+1)
				return mkStr(append([]Value{uint64('&')}, strBytes(x)...))
			}
		}
		return "0xc000010000"
	case *types.Signature, *types.Chan:
		return "0xc000010000"
	}
	return "?"
}

func (m *Machine) fmtList(g *G, et types.Type, s SliceV, verb byte, flags string, d int) Value {
	b := strBytes("[")
	for i := range s {
		if i > 0 {
			b = append(b, uint64(' '))
		}
		b = append(b, strBytes(m.fmtTyped(g, et, s[i].v, verb, flags, d+1))...)
	}
	return mkStr(append(b, uint64(']')))
}

// ---------------- misc ----------------

func initMisc() {
	type M = *Machine
	reg("encoding/json.Unmarshal", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[1].(Iface)
		dst, _ := it.v.(*Slot)
		el := deref(it.t.t)
		if ifc, ok := under(el).(*types.Interface); ok && ifc.NumMethods() == 0 && dst != nil {
			txt := mkStr(byteSeq(a[0]))
			if s, ok := txt.(string); ok {
				var x any
				if err := json.Unmarshal([]byte(s), &x); err != nil {
					return m.newError(g, err.Error())
				}
				dst.v = m.fromJSON(x)
				return Iface{}
			}
			m.note("JSON of symbolic text is an arbitrary value or an error")
			switch m.path.choose(m, 3) {
			case 0:
				return m.newError(g, "invalid character")
			case 1:
				dst.v = Iface{rtypeOf(types.Typ[types.String]), "json"}
			case 2:
				dst.v = Iface{}
			}
			return Iface{}
		}
		panic(unsupported("json.Unmarshal into " + it.t.t.String()))
	})
	reg("encoding/json.Marshal encoding/json.MarshalIndent", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		m.note("JSON encoding is opaque text")
		return Tuple{bytesOf("{\"json\":1}"), Iface{}}
	})
	reg("math/rand.Int63 math/rand.Int", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		t := m.fresh("rand", 64, "int")
		m.path.assume(m, low(m.T.SLe(m.T.BV(0, 64), t)))
		return t
	})
	reg("math/rand.Float64 math/rand/v2.Float64", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		// any value in [0,1): multiples of 2^-53
		t := m.fresh("rand.Float64", 64, "rnd")
		m.path.assume(m, low(m.T.ULt(t, m.T.BV(1<<53, 64))))
		return m.T.FP(OFMul, SF64, m.T.FP(OUToF, SF64, t), m.T.F64(1.0/(1<<53)))
	})
	reg("math/rand.Intn math/rand.Int63n math/rand.Int31n", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		w, _, _ := intInfo(fn.Signature.Results().At(0).Type())
		n := m.bv(a[0], w)
		if m.truth(low(m.T.SLe(n, m.T.BV(0, w)))) {
			panic(&goPanic{v: Iface{rtypeOf(types.Typ[types.String]), "invalid argument to " + fn.Name()}, stack: m.stack(g)})
		}
		t := m.fresh("rand."+fn.Name(), w, "rnd")
		m.path.assume(m, low(m.T.ULt(t, n)))
		return t
	})
	reg("math/rand.Seed", nop)
	reg("os.Getenv", func(m M, g *G, fn *ssa.Function, a []Value) Value { return "" })
	// reflect: only the small part used by errlist
	reg("reflect.TypeOf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		it := a[0].(Iface)
		return Iface{m.reflT(), Opaque{it.t}}
	})
	reg("reflect.ValueOf", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		st := zero(fn.Signature.Results().At(0).Type()).(*StructV)
		st.F[0].v = Opaque{nil}
		st.aux = nil
		box := &reflBox{it: a[0].(Iface)}
		st.F[0].v = Opaque{box}
		return st
	})
	rb := func(v Value) *reflBox {
		o, ok := v.(*StructV).F[0].v.(Opaque)
		if !ok || o.x == nil {
			panic(unsupported("reflect.Value"))
		}
		return o.x.(*reflBox)
	}
	reg("(reflect.Value).Type", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return Iface{m.reflT(), Opaque{rb(a[0]).it.t}}
	})
	reg("(reflect.Value).Len", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return uint64(len(rb(a[0]).it.v.(SliceV)))
	})
	reg("(reflect.Value).IsNil", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		switch x := rb(a[0]).it.v.(type) {
		case *Slot:
			return x == nil
		case SliceV:
			return x == nil
		case *MapV:
			return x == nil
		case *FuncV:
			return x == nil
		case *ChanV:
			return x == nil
		}
		return false
	})
	reg("(reflect.Value).Interface", func(m M, g *G, fn *ssa.Function, a []Value) Value { return rb(a[0]).it })
	reg("(reflect.Value).Convert", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		t := a[1].(Iface).v.(Opaque).x.(*RType)
		st := zero(fn.Signature.Results().At(0).Type()).(*StructV)
		st.F[0].v = Opaque{&reflBox{it: Iface{t, rb(a[0]).it.v}}}
		return st
	})
	reg("(*reflect.rtype).AssignableTo", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].(Opaque).x.(*RType)
		y := a[1].(Iface).v.(Opaque).x.(*RType)
		return types.AssignableTo(x.t, y.t)
	})
	reg("(*reflect.rtype).ConvertibleTo", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].(Opaque).x.(*RType)
		y := a[1].(Iface).v.(Opaque).x.(*RType)
		return types.ConvertibleTo(x.t, y.t)
	})
	reg("(*reflect.rtype).String", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return a[0].(Opaque).x.(*RType).t.String()
	})
	reg("(*reflect.rtype).Kind", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(Opaque).x.(*RType).t
		switch ut := under(t).(type) {
		case *types.Slice:
			return uint64(reflect.Slice)
		case *types.Pointer:
			return uint64(reflect.Pointer)
		case *types.Struct:
			return uint64(reflect.Struct)
		case *types.Map:
			return uint64(reflect.Map)
		case *types.Basic:
			switch ut.Kind() {
			case types.String:
				return uint64(reflect.String)
			case types.Bool:
				return uint64(reflect.Bool)
			case types.Int:
				return uint64(reflect.Int)
			case types.Int64:
				return uint64(reflect.Int64)
			case types.Float64:
				return uint64(reflect.Float64)
			}
		}
		panic(unsupported("reflect Kind of " + t.String()))
	})
	reg("reflect.DeepEqual", func(m M, g *G, fn *ssa.Function, a []Value) Value {
		return low(m.deepEq(a[0], a[1], 0))
	})
}

type reflBox struct{ it Iface }

func (m *Machine) reflT() *RType {
	return rtypeOf(types.NewPointer(m.P.pkgs["reflect"].Type("rtype").Type()))
}

func (m *Machine) deepEq(a, b Value, d int) *Term {
	T := m.T
	if d > 30 {
		panic(unsupported("DeepEqual depth"))
	}
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return T.False
		}
		if x.t == nil {
			return T.True
		}
		return m.deepEq(x.v, y.v, d+1)
	case SliceV:
		y := b.(SliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return T.False
		}
		r := T.True
		for i := range x {
			r = T.And(r, m.deepEq(x[i].v, y[i].v, d+1))
		}
		return r
	case *StructV:
		y := b.(*StructV)
		r := T.True
		for i := range x.F {
			r = T.And(r, m.deepEq(x.F[i].v, y.F[i].v, d+1))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := T.True
		for i := range x.E {
			r = T.And(r, m.deepEq(x.E[i].v, y.E[i].v, d+1))
		}
		return r
	case *Slot:
		y := b.(*Slot)
		if x == y {
			return T.True
		}
		if x == nil || y == nil {
			return T.False
		}
		return m.deepEq(x.v, y.v, d+1)
	case *MapV:
		y := b.(*MapV)
		if x == y {
			return T.True
		}
		if x == nil || y == nil || x.n != y.n {
			return T.False
		}
		r := T.True
		for i := range x.keys {
			if x.vals[i] == nil {
				continue
			}
			k := m.mapFind(y, x.keys[i])
			if k < 0 {
				return T.False
			}
			r = T.And(r, m.deepEq(x.vals[i].v, y.vals[k].v, d+1))
		}
		return r
	case *FuncV:
		y := b.(*FuncV)
		return T.Bool(x == nil && y == nil)
	}
	return m.boolT(m.eqVal(a, b))
}

func (m *Machine) fromJSON(x any) Value {
	switch x := x.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{rtypeOf(types.Typ[types.Bool]), x}
	case float64:
		return Iface{rtypeOf(types.Typ[types.Float64]), x}
	case string:
		return Iface{rtypeOf(types.Typ[types.String]), x}
	case []any:
		s := make(SliceV, len(x))
		for i := range x {
			s[i].v = m.fromJSON(x[i])
		}
		return Iface{rtypeOf(types.NewSlice(types.NewInterfaceType(nil, nil))), s}
	case map[string]any:
		mp := newMap(types.Typ[types.String])
		for _, k := range sortedKeys(x) {
			m.mapSet(mp, k, m.fromJSON(x[k]))
		}
		return Iface{rtypeOf(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))), mp}
	}
	panic("fromJSON")
}

var _ = math.Pi
