package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) unop(i *ssa.UnOp, in *inst) Value {
	m := f.m
	switch i.Op {
	case token.MUL:
		return m.load(f.g, f.get(in.args[0]))
	case token.NOT:
		switch x := f.get(in.args[0]).(type) {
		case bool:
			return !x
		case *Term:
			return low(m.T.Not(x))
		}
	case token.SUB:
		x := f.get(in.args[0])
		switch x := x.(type) {
		case uint64:
			w, _, _ := intInfo(i.X.Type())
			return -x & mask(w)
		case float64:
			return -x
		case float32:
			return -x
		case complex128:
			return -x
		case *Term:
			if x.sort >= 100 {
				return low(m.T.FP(OFNeg, x.sort, x))
			}
			return low(m.T.Neg(x))
		}
	case token.XOR:
		switch x := f.get(in.args[0]).(type) {
		case uint64:
			w, _, _ := intInfo(i.X.Type())
			return ^x & mask(w)
		case *Term:
			return low(m.T.BNot(x))
		}
	case token.ARROW:
		v, ok := m.chanRecv(f.g, f.get(in.args[0]).(*ChanV))
		if i.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("unop %v", i.Op)))
}

var binOps = map[token.Token][2]Op{ // signed, unsigned
	token.ADD: {OAdd, OAdd}, token.SUB: {OSub, OSub}, token.MUL: {OMul, OMul},
	token.QUO: {OSDiv, OUDiv}, token.REM: {OSRem, OURem},
	token.AND: {OBAnd, OBAnd}, token.OR: {OBOr, OBOr}, token.XOR: {OBXor, OBXor},
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eqVal(x, y)
	case token.NEQ:
		switch r := m.eqVal(x, y).(type) {
		case bool:
			return !r
		case *Term:
			return low(m.T.Not(r))
		}
	}
	if w, signed, ok := intInfo(tx); ok {
		return m.intBin(op, w, signed, ty, x, y)
	}
	if s, ok := isFloat(tx); ok {
		return m.floatBin(op, s, x, y)
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			return mkStr(append(append([]Value{}, strBytes(x)...), strBytes(y)...))
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	}
	if c, ok := x.(complex128); ok {
		d := y.(complex128)
		switch op {
		case token.ADD:
			return c + d
		case token.SUB:
			return c - d
		case token.MUL:
			return c * d
		case token.QUO:
			return c / d
		}
	}
	if isBool(tx) {
		a, b := m.boolT(x), m.boolT(y)
		switch op {
		case token.AND:
			return low(m.T.And(a, b))
		case token.OR:
			return low(m.T.Or(a, b))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %v on %v", op, tx)))
}

func (m *Machine) notV(v Value) Value {
	switch r := v.(type) {
	case bool:
		return !r
	case *Term:
		return low(m.T.Not(r))
	}
	panic("notV")
}

func (m *Machine) intBin(op token.Token, w Sort, signed bool, ty types.Type, x, y Value) Value {
	T := m.T
	switch op {
	case token.SHL, token.SHR:
		wy, sy, _ := intInfo(ty)
		if yc, ok := y.(uint64); ok {
			if sy && sext(yc, wy) < 0 {
				m.goPanicRT("negative shift amount")
			}
			if xc, ok := x.(uint64); ok {
				o := OShl
				if op == token.SHR {
					o = OLShr
					if signed {
						o = OAShr
					}
				}
				if yc > 64 {
					yc = 64
				}
				r, _ := evalBin(o, w, xc, yc)
				return r
			}
			if yc >= uint64(w) {
				yc = uint64(w)
				if op == token.SHL || !signed {
					return uint64(0)
				}
				yc = uint64(w) - 1
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			return low(T.Bin(o, m.bv(x, w), T.BV(yc, w)))
		}
		yt := y.(*Term)
		if sy {
			if m.truth(low(T.SLt(yt, T.BV(0, wy)))) {
				m.goPanicRT("negative shift amount")
			}
		}
		big := T.False
		if wy > w {
			big = T.ULe(T.BV(uint64(w), wy), yt)
		}
		sh := T.Resize(yt, w, false)
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		xt := m.bv(x, w)
		r := T.Bin(o, xt, sh)
		if big != T.False {
			alt := T.BV(0, w)
			if o == OAShr {
				alt = T.Bin(OAShr, xt, T.BV(uint64(w)-1, w))
			}
			r = T.Ite(big, alt, r)
		}
		return low(r)
	case token.AND_NOT:
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				return a &^ b
			}
		}
		return low(T.Bin(OBAnd, m.bv(x, w), T.BNot(m.bv(y, w))))
	case token.QUO, token.REM:
		if yc, ok := y.(uint64); ok {
			if yc == 0 {
				m.goPanicRT("integer divide by zero")
			}
		} else if m.truth(low(T.Eq(y.(*Term), T.BV(0, w)))) {
			m.goPanicRT("integer divide by zero")
		}
	}
	if o, ok := binOps[op]; ok {
		k := o[1]
		if signed {
			k = o[0]
		}
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				r, _ := evalBin(k, w, a, b)
				return r
			}
		}
		return low(T.Bin(k, m.bv(x, w), m.bv(y, w)))
	}
	lt, le := OULt, OULe
	if signed {
		lt, le = OSLt, OSLe
	}
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			switch op {
			case token.LSS:
				return evalCmp(lt, w, a, b)
			case token.LEQ:
				return evalCmp(le, w, a, b)
			case token.GTR:
				return evalCmp(lt, w, b, a)
			case token.GEQ:
				return evalCmp(le, w, b, a)
			}
		}
	}
	a, b := m.bv(x, w), m.bv(y, w)
	switch op {
	case token.LSS:
		return low(T.cmp(lt, a, b))
	case token.LEQ:
		return low(T.cmp(le, a, b))
	case token.GTR:
		return low(T.cmp(lt, b, a))
	case token.GEQ:
		return low(T.cmp(le, b, a))
	}
	panic(unsupported(fmt.Sprintf("intBin %v", op)))
}

func (m *Machine) floatBin(op token.Token, s Sort, x, y Value) Value {
	_, sx := x.(*Term)
	_, sy := y.(*Term)
	if !sx && !sy {
		if s == SF64 {
			a, b := x.(float64), y.(float64)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		} else {
			a, b := x.(float32), y.(float32)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	a, b := m.fpT(x), m.fpT(y)
	T := m.T
	switch op {
	case token.ADD:
		return low(T.FP(OFAdd, s, a, b))
	case token.SUB:
		return low(T.FP(OFSub, s, a, b))
	case token.MUL:
		return low(T.FP(OFMul, s, a, b))
	case token.QUO:
		return low(T.FP(OFDiv, s, a, b))
	case token.LSS:
		return low(T.FP(OFLt, SBool, a, b))
	case token.LEQ:
		return low(T.FP(OFLe, SBool, a, b))
	case token.GTR:
		return low(T.FP(OFLt, SBool, b, a))
	case token.GEQ:
		return low(T.FP(OFLe, SBool, b, a))
	}
	panic(unsupported(fmt.Sprintf("floatBin %v", op)))
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	T := m.T
	uf, ut := under(from), under(to)
	if wf, sf, ok := intInfo(from); ok {
		if wt, _, ok := intInfo(to); ok {
			switch x := x.(type) {
			case uint64:
				if sf {
					return uint64(sext(x, wf)) & mask(wt)
				}
				return x & mask(wt)
			case *Term:
				return low(T.Resize(x, wt, sf))
			case *Slot:
				return x
			}
		}
		if s, ok := isFloat(to); ok {
			switch x := x.(type) {
			case uint64:
				if sf {
					if s == SF64 {
						return float64(sext(x, wf))
					}
					return float32(sext(x, wf))
				}
				if s == SF64 {
					return float64(x)
				}
				return float32(x)
			case *Term:
				if sf {
					return low(T.FP(OSToF, s, x))
				}
				return low(T.FP(OUToF, s, x))
			}
		}
		if isString(to) {
			v := int64(m.concInt(x, from))
			if v < 0 || v > utf8.MaxRune {
				return string(utf8.RuneError)
			}
			return string(rune(v))
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if c, ok := x.(uint64); ok && c == 0 {
				return (*Slot)(nil)
			}
			panic(unsupported("uintptr to unsafe.Pointer"))
		}
	}
	if sf, ok := isFloat(from); ok {
		if s, ok := isFloat(to); ok {
			switch x := x.(type) {
			case float64:
				if s == SF32 {
					return float32(x)
				}
				return x
			case float32:
				if s == SF64 {
					return float64(x)
				}
				return x
			case *Term:
				if s == sf {
					return x
				}
				return low(T.FP(OFToF, s, x))
			}
		}
		if wt, signed, ok := intInfo(to); ok {
			switch x := x.(type) {
			case float64:
				return f2i(x, wt, signed)
			case float32:
				return f2i(float64(x), wt, signed)
			case *Term:
				if signed {
					t := T.FP(OFToS, 64, x)
					return low(T.Resize(t, wt, true))
				}
				t := T.FP(OFToU, 64, x)
				return low(T.Resize(t, wt, false))
			}
		}
	}
	if isString(from) {
		if st, ok := ut.(*types.Slice); ok {
			w, _, _ := intInfo(st.Elem())
			if w == 8 {
				b := strBytes(x)
				s := make(SliceV, len(b))
				for i := range b {
					s[i].v = b[i]
				}
				return s
			}
			// []rune
			s := SliceV{}
			for p := 0; p < strLen(x); {
				r, n := m.decodeRune(x, p)
				s = append(s, Slot{v: r})
				p += n
			}
			return s
		}
		if isString(to) {
			return x
		}
	}
	if st, ok := uf.(*types.Slice); ok && isString(to) {
		s := x.(SliceV)
		w, _, _ := intInfo(st.Elem())
		if w == 8 {
			b := make([]Value, len(s))
			for i := range s {
				b[i] = s[i].v
			}
			return mkStr(b)
		}
		var b []Value
		for i := range s {
			b = append(b, m.encodeRune(s[i].v)...)
		}
		return mkStr(b)
	}
	if _, ok := x.(complex128); ok {
		return x
	}
	switch x := x.(type) {
	case *Slot: // pointer <-> unsafe.Pointer
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.Uintptr {
			return x
		}
		return x
	case SliceV:
		return x
	}
	if types.Identical(uf, ut) {
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %v -> %v (%T)", from, to, x)))
}

func f2i(x float64, w Sort, signed bool) Value {
	if signed {
		return uint64(int64(x)) & mask(w)
	}
	if x >= math.MaxInt64 {
		return uint64(x) & mask(w)
	}
	return uint64(int64(x)) & mask(w)
}

func (m *Machine) encodeRune(v Value) []Value {
	switch v := v.(type) {
	case uint64:
		return strBytes(string(rune(int32(v))))
	case *Term:
		if m.truth(low(m.T.ULt(v, m.T.BV(0x80, v.sort)))) {
			return []Value{low(m.T.Resize(v, 8, false))}
		}
		return strBytes(string(rune(int32(m.path.concretize(m, v)))))
	}
	panic("encodeRune")
}

// decodeRune decodes one rune of a string value at byte p.
func (m *Machine) decodeRune(s Value, p int) (Value, int) {
	if c, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(c[p:])
		return uint64(uint32(r)), n
	}
	b := s.(*SymStr).b
	switch x := b[p].(type) {
	case uint64:
		if x < 0x80 {
			return x, 1
		}
	case *Term:
		if m.truth(low(m.T.ULt(x, m.T.BV(0x80, 8)))) {
			return low(m.T.Resize(x, 32, false)), 1
		}
	}
	buf := []byte{}
	for i := p; i < len(b) && i < p+4; i++ {
		var c byte
		switch x := b[i].(type) {
		case uint64:
			c = byte(x)
		case *Term:
			c = byte(m.path.concretize(m, x))
		}
		buf = append(buf, c)
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return uint64(uint32(r)), n
}

func (m *Machine) builtin(g *G, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case SliceV:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if m.raceOn {
				m.raceReadMeta(g, &x.m)
			}
			return uint64(x.n)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *Slot:
			return uint64(len(x.v.(*ArrayV).E))
		case *ArrayV:
			return uint64(len(x.E))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return uint64(cap(x))
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *Slot:
			return uint64(len(x.v.(*ArrayV).E))
		case *ArrayV:
			return uint64(len(x.E))
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		var add SliceV
		switch y := args[1].(type) {
		case SliceV:
			add = y
		case string, *SymStr:
			bs := strBytes(y)
			add = make(SliceV, len(bs))
			for i := range bs {
				add[i].v = bs[i]
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			tmp := make([]Value, len(add))
			for i := range add {
				if m.raceOn {
					m.raceRead(g, &add[i])
				}
				tmp[i] = copyVal(add[i].v)
			}
			for i := range tmp {
				if m.raceOn {
					m.raceWrite(g, &r[len(s)+i])
				}
				storeInto(&r[len(s)+i], tmp[i])
			}
			return r
		}
		nc := growCap(cap(s), n, elemSize(cc.Args[0].Type()))
		r := make(SliceV, n, nc)
		for i := range s {
			if m.raceOn {
				m.raceRead(g, &s[i])
			}
			r[i].v = copyVal(s[i].v)
		}
		for i := range add {
			if m.raceOn {
				m.raceRead(g, &add[i])
			}
			r[len(s)+i].v = copyVal(add[i].v)
		}
		// spare capacity must hold zero values
		if nc > n {
			el := under(cc.Args[0].Type()).(*types.Slice).Elem()
			full := r[:nc]
			switch under(el).(type) {
			case *types.Struct, *types.Array:
				for i := n; i < nc; i++ {
					full[i].v = zero(el)
				}
			default:
				z := zero(el)
				for i := n; i < nc; i++ {
					full[i].v = z
				}
			}
		}
		return r
	case "copy":
		d := args[0].(SliceV)
		var n int
		switch y := args[1].(type) {
		case SliceV:
			n = min(len(d), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				if m.raceOn {
					m.raceRead(g, &y[i])
				}
				tmp[i] = copyVal(y[i].v)
			}
			for i := range tmp {
				if m.raceOn {
					m.raceWrite(g, &d[i])
				}
				storeInto(&d[i], tmp[i])
			}
		case string, *SymStr:
			bs := strBytes(y)
			n = min(len(d), len(bs))
			for i := 0; i < n; i++ {
				d[i].v = bs[i]
			}
		}
		return uint64(n)
	case "delete":
		mp := args[0].(*MapV)
		if mp != nil {
			if m.raceOn {
				m.raceWriteMeta(g, &mp.m)
			}
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				if m.raceOn {
					m.raceWriteMeta(g, &x.m)
				}
				for i := range x.vals {
					x.vals[i] = nil
				}
				x.idx = map[any]int{}
				x.nsym, x.n = 0, 0
			}
		case SliceV:
			el := under(cc.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				storeInto(&x[i], zero(el))
			}
		}
		return nil
	case "close":
		m.chanClose(g, args[0].(*ChanV))
		return nil
	case "panic":
		panic(&goPanic{v: args[0], stack: m.stack(g)})
	case "recover":
		f := g.top
		if f != nil && f.caller != nil && f.caller.panicking != nil {
			p := f.caller.panicking
			f.caller.panicking = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for i, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(op, cc.Args[i+1].Type(), t, a, r)
			if cb, ok := c.(bool); ok {
				if cb {
					r = a
				}
				continue
			}
			if w, _, ok := intInfo(t); ok {
				r = low(m.T.Ite(c.(*Term), m.bv(a, w), m.bv(r, w)))
			} else if m.truth(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if s, ok := args[0].(*Slot); ok && s == nil {
			m.goPanicRT("value method called using nil pointer")
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "SliceData":
		s := args[0].(SliceV)
		if cap(s) == 0 {
			return (*Slot)(nil)
		}
		p := &s[:1][0]
		m.sliceOf[p] = s[:cap(s)]
		return p
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return (*Slot)(nil)
		}
		s := make(SliceV, len(bs))
		for i := range bs {
			s[i].v = bs[i]
		}
		m.sliceOf[&s[0]] = s
		return &s[0]
	case "String":
		p := args[0].(*Slot)
		n := int(m.concInt(args[1], cc.Args[1].Type()))
		if n == 0 {
			return ""
		}
		s, ok := m.sliceOf[p]
		if !ok {
			if n == 1 {
				return mkStr([]Value{p.v})
			}
			panic(unsupported("unsafe.String"))
		}
		b := make([]Value, n)
		for i := range b {
			b[i] = s[i].v
		}
		return mkStr(b)
	case "Slice":
		p := args[0].(*Slot)
		n := int(m.concInt(args[1], cc.Args[1].Type()))
		if p == nil {
			return SliceV(nil)
		}
		s, ok := m.sliceOf[p]
		if !ok {
			panic(unsupported("unsafe.Slice"))
		}
		return s[:n]
	}
	panic(unsupported("builtin " + b.Name()))
}

func elemSize(t types.Type) int {
	st, ok := under(t).(*types.Slice)
	if !ok {
		return 8
	}
	return int(sizes.Sizeof(st.Elem()))
}

var sizes = types.SizesFor("gc", "amd64")

// growCap mirrors runtime.growslice (including size-class rounding for the common sizes) so
// that aliasing through spare capacity behaves as in the compiled program.
func growCap(old, n, es int) int {
	nc := old
	if n > old*2 {
		nc = n
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < n {
		nc = n
	}
	if es == 0 {
		return nc
	}
	return roundSize(nc*es) / es
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(b int) int {
	for _, c := range sizeClasses {
		if b <= c {
			return c
		}
	}
	return (b + 8191) / 8192 * 8192
}
