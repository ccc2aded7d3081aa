// Package c19 decides C19: path indexing and value conversion are deterministic, faithful and total.
package c19

import (
	"fmt"
	"math"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/value"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// kv is one list key.
type kv struct{ k, v string }

// spec is a path together with its index form.
type spec struct {
	p     *pb.Path
	elems []string // index without target and origin
}

// build is any path with up to ne elements of up to nk keys each.
func build(name string, ne, nk int, element, long bool) spec {
	s := spec{p: &pb.Path{}}
	str := func(name string, max int) string {
		if long {
			return nd.String(name, max)
		}
		return nd.StringN(name, 1)
	}
	if element {
		n := nd.Choose(name+".ne", ne+1)
		for i := 0; i < n; i++ {
			e := str(fmt.Sprintf("%s.e%d", name, i), 1)
			s.p.Element = append(s.p.Element, e)
			s.elems = append(s.elems, e)
		}
		return s
	}
	n := nd.Choose(name+".n", ne+1)
	for i := 0; i < n; i++ {
		e := str(fmt.Sprintf("%s.%d", name, i), 1)
		pe := &pb.PathElem{Name: e}
		s.elems = append(s.elems, e)
		var ks []kv
		for j, m := 0, nd.Choose(fmt.Sprintf("%s.%d.nk", name, i), nk+1); j < m; j++ {
			x := kv{str(fmt.Sprintf("%s.%d.k%d", name, i, j), 2), str(fmt.Sprintf("%s.%d.v%d", name, i, j), 1)}
			for _, o := range ks {
				nd.Assume(o.k != x.k)
			}
			ks = append(ks, x)
		}
		if len(ks) > 0 {
			pe.Key = map[string]string{}
			for _, x := range ks {
				pe.Key[x.k] = x.v
			}
		}
		// values ordered by key name
		for a := 1; a < len(ks); a++ {
			for b := a; b > 0 && ks[b].k < ks[b-1].k; b-- {
				ks[b], ks[b-1] = ks[b-1], ks[b]
			}
		}
		for _, x := range ks {
			s.elems = append(s.elems, x.v)
		}
		s.p.Elem = append(s.p.Elem, pe)
	}
	return s
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// HarnessToStrings: the index of any path, whatever the iteration order of its key maps.
//
//nd:harness prop=C19 maporder=3 quick:ne=2 quick:nk=2 thorough:ne=3 thorough:nk=3 quick:time=30 thorough:time=900
func HarnessToStrings() {
	s := build("p", nd.Param("ne", 2), nd.Param("nk", 2), nd.Bool("element"), false)
	s.p.Target = nd.String("target", 1)
	s.p.Origin = nd.String("origin", 1)
	prefix := nd.Bool("prefix")
	var want []string
	if prefix && s.p.Target != "" {
		want = append(want, s.p.Target)
	}
	if prefix && s.p.Origin != "" {
		want = append(want, s.p.Origin)
	}
	want = append(want, s.elems...)
	got := path.ToStrings(s.p, prefix)
	nd.Assert(eq(got, want), "the index is target and origin if requested and set, then each element followed by its key values ordered by key name")
	again := path.ToStrings(s.p, prefix)
	nd.Assert(eq(again, want), "indexing the same path again gives the same index")
	// indexes are independent of each other
	for i := range got {
		got[i] = "changed"
	}
	nd.Assert(eq(again, want), "two indexes share no memory")
	nd.Assert(eq(path.ToStrings(s.p, prefix), want), "indexing leaves the path unmodified")
	nd.CoverIf(len(want) > 5, "long index")
	nd.Observe("i", again)
}

// HarnessKeyNames: an element whose key names and values may be empty or longer.
//
//nd:harness prop=C19 maporder=3 nk=2 long=1 quick:time=20 thorough:time=900 thorough:nk=3
func HarnessKeyNames() { HarnessManyKeys() }

// HarnessManyKeys: elements with many keys.
//
//nd:harness prop=C19 maporder=4 quick:nk=4 thorough:nk=5 thorough:maporder=5 quick:time=30 thorough:time=900
func HarnessManyKeys() {
	nk := nd.Param("nk", 3)
	s := build("p", 1, nk, false, nd.Param("long", 0) == 1)
	nd.Assert(eq(path.ToStrings(s.p, false), s.elems), "key values are ordered by key name")
	nd.CoverIf(len(s.elems) == nk+1, "all keys")
	nd.Observe("i", path.ToStrings(s.p, false))
}

// HarnessEqualPaths: equal paths index identically and a path encoded with elements indexes as with elems.
//
//nd:harness prop=C19 quick:time=15 thorough:time=300 thorough:n=3
func HarnessEqualPaths() {
	n := nd.Choose("n", nd.Param("n", 2)+1)
	var a, b []string
	for i := 0; i < n; i++ {
		a = append(a, nd.String(fmt.Sprintf("a%d", i), 2))
		b = append(b, nd.String(fmt.Sprintf("b%d", i), 2))
	}
	pa, pb1 := &pb.Path{}, &pb.Path{}
	for i := range a {
		pa.Elem = append(pa.Elem, &pb.PathElem{Name: a[i]})
	}
	if nd.Bool("deprecated") {
		pb1.Element = b
	} else {
		for i := range b {
			pb1.Elem = append(pb1.Elem, &pb.PathElem{Name: b[i]})
		}
	}
	nd.Assert(eq(path.ToStrings(pa, false), path.ToStrings(pb1, false)) == eq(a, b), "plain paths index identically exactly when they are equal")
	nd.Assert(len(path.ToStrings(nil, true)) == 0, "nil path has an empty index")
	nd.CoverIf(eq(a, b), "equal")
}

// HarnessComplete: prefix and path are combined or rejected.
//
//nd:harness prop=C19 maporder=2 quick:time=30 thorough:time=600 quick:ne=2 thorough:ne=3
func HarnessComplete() {
	ne := nd.Param("ne", 1)
	pre := build("pre", ne, 2, nd.Bool("pre.element"), false)
	p := build("p", ne, 1, nd.Bool("p.element"), false)
	pre.p.Origin = nd.String("pre.origin", 1)
	pre.p.Target = "t"
	p.p.Origin = nd.String("p.origin", 1)
	p.p.Target = "u"
	switch nd.Choose("nil", 3) {
	case 1:
		pre = spec{}
	case 2:
		p = spec{}
	}
	oPre, oPath := pre.p.GetOrigin(), p.p.GetOrigin()
	got, err := path.CompletePath(pre.p, p.p)
	switch {
	case oPre != "" && oPath != "":
		nd.Assert(err != nil, "two origins are rejected")
	case oPath != "" && len(pre.elems) > 0:
		nd.Assert(err != nil, "an origin in the path below prefix elements is rejected")
	default:
		nd.Assert(err == nil, "a prefix and a path that do not conflict are combined")
		var want []string
		if oPre != "" {
			want = append(want, oPre)
		}
		if oPath != "" {
			want = append(want, oPath)
		}
		want = append(append(want, pre.elems...), p.elems...)
		nd.Assert(eq(got, want), "the combined index is the prefix index followed by the path index")
		again, _ := path.CompletePath(pre.p, p.p)
		nd.Assert(eq(again, want), "combining again gives the same")
	}
	nd.CoverIf(err != nil, "rejected")
	nd.Observe("c", got, err == nil)
}

// plain is any non-empty ASCII element without the metacharacters of the textual path syntax.
func plain(name string, max int) string {
	n := 1 + nd.Choose(name+".len", max)
	s := nd.StringN(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		nd.Assume(nd.And(nd.And(c > ' ', c < 0x7f), nd.And(c != '[', nd.And(c != ']', c != '\\'))))
	}
	return s
}

// HarnessQueryPath: a client query reaches the server indexed as the same elements.
//
//nd:harness prop=C19 quick:n=3 thorough:n=3 thorough:len=3 quick:time=40 thorough:time=900
func HarnessQueryPath() {
	n := nd.Choose("n", nd.Param("n", 2)+1)
	var q client.Path
	slash := false
	for i := 0; i < n; i++ {
		e := plain(fmt.Sprintf("q%d", i), nd.Param("len", 2))
		slash = nd.Or(slash, e[len(e)-1] == '/')
		q = append(q, e)
	}
	two := nd.Bool("two")
	qs := []client.Path{q}
	if two {
		qs = append(qs, client.Path{"x/y", "z"})
	}
	target := nd.String("target", 1)
	orig := append([]string{}, q...)
	r, err := gclient.ToSubscribeRequest(client.Query{Target: target, Type: client.Stream, Queries: qs})
	nd.Assert(err == nil, "a query of plain elements is accepted")
	if err != nil {
		return
	}
	l := r.GetSubscribe()
	nd.Assert(len(l.GetSubscription()) == len(qs), "one subscription per query path")
	nd.Assert(l.GetPrefix().GetTarget() == target, "the query's target is the prefix target")
	got, err := path.CompletePath(l.GetPrefix(), l.GetSubscription()[0].GetPath())
	nd.Assert(err == nil, "the server accepts the path")
	nd.Assert(eq(got, orig), "the server indexes the query as the same elements")
	nd.Assert(eq(path.ToStrings(&pb.Path{Element: l.GetSubscription()[0].GetPath().GetElement()}, false), orig), "the deprecated encoding indexes as the same elements")
	nd.Assert(eq(q, orig), "the query is left unmodified")
	if two {
		nd.Assert(eq(path.ToStrings(l.GetSubscription()[1].GetPath(), false), []string{"x/y", "z"}), "further query paths are converted alike")
	}
	nd.CoverIf(slash, "element ending in a slash")
	nd.Observe("q", got)
}

// HarnessQueryUnicode: the same for elements with multi-byte characters.
//
//nd:harness prop=C19 quick:time=20 thorough:time=300
func HarnessQueryUnicode() {
	a, b := nd.Byte("a"), nd.Byte("b")
	nd.Assume(a >= 0xc2 && a <= 0xdf && b >= 0x80 && b <= 0xbf)
	e := string([]byte{a, b})
	if nd.Bool("slash") {
		e = "/" + e + "/x"
	}
	q := client.Path{e, "y"}
	r, err := gclient.ToSubscribeRequest(client.Query{Queries: []client.Path{q}})
	nd.Assert(err == nil, "a query of plain elements is accepted")
	if err == nil {
		nd.Assert(eq(path.ToStrings(r.GetSubscribe().GetSubscription()[0].GetPath(), false), []string{e, "y"}), "the server indexes the query as the same elements")
	}
	nd.Observe("q", err == nil)
}

// HarnessQueryType: the type and flags of a query.
//
//nd:harness prop=C19 quick:time=10 thorough:time=60
func HarnessQueryType() {
	ty := []client.Type{client.Once, client.Poll, client.Stream}[nd.Choose("type", 3)]
	uo := nd.Bool("uo")
	r, err := gclient.ToSubscribeRequest(client.Query{Type: ty, UpdatesOnly: uo, Queries: []client.Path{{"a"}}})
	nd.Assert(err == nil, "accepted")
	want := map[client.Type]pb.SubscriptionList_Mode{client.Once: pb.SubscriptionList_ONCE, client.Poll: pb.SubscriptionList_POLL, client.Stream: pb.SubscriptionList_STREAM}[ty]
	nd.Assert(r.GetSubscribe().GetMode() == want && r.GetSubscribe().GetUpdatesOnly() == uo, "mode and updates_only are those of the query")
}

// sameScalar: out is in up to integer width and float precision.
func same(in, out interface{}) bool {
	switch v := in.(type) {
	case string:
		o, ok := out.(string)
		return ok && nd.Truth(o == v)
	case bool:
		o, ok := out.(bool)
		return ok && nd.Truth(o == v)
	case int:
		return sameInt(int64(v), out)
	case int8:
		return sameInt(int64(v), out)
	case int16:
		return sameInt(int64(v), out)
	case int32:
		return sameInt(int64(v), out)
	case int64:
		return sameInt(v, out)
	case uint:
		return sameUint(uint64(v), out)
	case uint8:
		return sameUint(uint64(v), out)
	case uint16:
		return sameUint(uint64(v), out)
	case uint32:
		return sameUint(uint64(v), out)
	case uint64:
		return sameUint(v, out)
	case float32:
		return sameFloat(float64(v), out)
	case float64:
		return sameFloat(v, out)
	case []byte:
		o, ok := out.([]byte)
		return ok && string(o) == string(v)
	case []string:
		o, ok := out.([]interface{})
		if !ok || len(o) != len(v) {
			return false
		}
		for i := range v {
			if !same(v[i], o[i]) {
				return false
			}
		}
		return true
	case []interface{}:
		o, ok := out.([]interface{})
		if !ok || len(o) != len(v) {
			return false
		}
		for i := range v {
			if !same(v[i], o[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameInt(v int64, out interface{}) bool {
	o, ok := out.(int64)
	return ok && nd.Truth(o == v)
}

func sameUint(v uint64, out interface{}) bool {
	o, ok := out.(uint64)
	return ok && nd.Truth(o == v)
}

func sameFloat(v float64, out interface{}) bool {
	switch o := out.(type) {
	case float64:
		return nd.Truth(nd.Or(o == v, nd.And(o != o, v != v)))
	case float32:
		// float precision may be lost
		return nd.Truth(nd.Or(o == float32(v), nd.And(o != o, v != v)))
	}
	return false
}

func scalar(name string, kinds int) interface{} {
	switch nd.Choose(name+".kind", kinds) {
	case 0:
		return nd.String(name+".s", 1)
	case 1:
		return nd.Int64(name + ".i64")
	case 2:
		return nd.Bool(name + ".b")
	case 3:
		return nd.Uint64(name + ".u64")
	case 4:
		return nd.Float64(name + ".f64")
	case 5:
		return nd.Float32(name + ".f32")
	case 6:
		return nd.Int(name + ".int")
	case 7:
		return int8(nd.Byte(name + ".i8"))
	case 8:
		return int16(nd.Uint16(name + ".i16"))
	case 9:
		return nd.Int32(name + ".i32")
	case 10:
		return uint(nd.Uint64(name + ".uint"))
	case 11:
		return nd.Byte(name + ".u8")
	case 12:
		return nd.Uint16(name + ".u16")
	case 13:
		return nd.Uint32(name + ".u32")
	case 14:
		return []byte(nd.String(name+".by", 2))
	case 15:
		r := make([]string, nd.Choose(name+".nss", 3))
		for i := range r {
			r[i] = nd.String(fmt.Sprintf("%s.ss%d", name, i), 1)
		}
		return r
	default:
		r := make([]interface{}, nd.Choose(name+".nil", 3))
		for i := range r {
			r[i] = scalar(fmt.Sprintf("%s.l%d", name, i), 6)
		}
		return r
	}
}

func utf8ok(v interface{}) bool {
	switch v := v.(type) {
	case string:
		for i := 0; i < len(v); i++ {
			if v[i] >= 0x80 {
				return false
			}
		}
	case []interface{}:
		for _, x := range v {
			if !utf8ok(x) {
				return false
			}
		}
	}
	return true
}

// HarnessScalar: a Go scalar converted to a TypedValue and back is unchanged.
//
//nd:harness prop=C19 quick:time=40 thorough:time=600
func HarnessScalar() {
	in := scalar("v", 17)
	tv, err := value.FromScalar(in)
	if !utf8ok(in) {
		nd.Assert(err != nil, "a string that is not UTF-8 is refused")
		return
	}
	nd.Assert(err == nil, "every supported scalar is converted")
	if err != nil {
		return
	}
	out, err := value.ToScalar(tv)
	nd.Assert(err == nil, "a converted scalar is converted back")
	nd.Assert(same(in, out), "a scalar converted to a TypedValue and back is unchanged")
	nd.Cover("round trip")
}

// HarnessNonScalar: what is not a scalar is refused.
//
//nd:harness prop=C19 quick:time=10 thorough:time=60
func HarnessNonScalar() {
	var in interface{}
	switch nd.Choose("k", 4) {
	case 1:
		in = map[string]interface{}{}
	case 2:
		in = []interface{}{1, struct{}{}}
	case 3:
		in = &struct{}{}
	}
	_, err := value.FromScalar(in)
	nd.Assert(err != nil, "a non-scalar is refused")
}

// typed is any TypedValue: every oneof arm, nil included.
func typed(name string, depth int) *pb.TypedValue {
	kinds := 14
	if depth > 0 {
		kinds = 16
	}
	switch nd.Choose(name+".arm", kinds) {
	case 0:
		return nil
	case 1:
		return &pb.TypedValue{}
	case 2:
		return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: nd.String(name+".s", 1)}}
	case 3:
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: nd.Int64(name + ".i")}}
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: nd.Uint64(name + ".u")}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: nd.Bool(name + ".b")}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte(nd.String(name+".by", 1))}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: nd.Float64(name + ".d")}}
	case 8:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: nd.Float32(name + ".f")}}
	case 9:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: nd.Int64(name + ".dg"), Precision: nd.Uint32(name + ".pr")}}}
	case 10:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{}}
	case 11:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(nd.StringN(name+".j", 1))}}
	case 12:
		switch nd.Choose(name+".other", 4) {
		case 0:
			return &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(nd.StringN(name+".ji", 1))}}
		case 1:
			return &pb.TypedValue{Value: &pb.TypedValue_AsciiVal{AsciiVal: nd.StringN(name+".as", 1)}}
		case 2:
			return &pb.TypedValue{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte(nd.StringN(name+".pb", 1))}}
		default:
			return &pb.TypedValue{Value: &pb.TypedValue_AnyVal{}}
		}
	case 13:
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{}}
	default:
		sa := &pb.ScalarArray{}
		for i, n := 0, nd.Choose(name+".n", 3); i < n; i++ {
			sa.Element = append(sa.Element, typed(fmt.Sprintf("%s.%d", name, i), depth-1))
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: sa}}
	}
}

// sameTyped: a and b are the same value.
func sameTyped(a, b *pb.TypedValue) bool {
	switch av := a.GetValue().(type) {
	case nil:
		return b.GetValue() == nil
	case *pb.TypedValue_StringVal:
		bv, ok := b.GetValue().(*pb.TypedValue_StringVal)
		return ok && nd.Truth(av.StringVal == bv.StringVal)
	case *pb.TypedValue_IntVal:
		bv, ok := b.GetValue().(*pb.TypedValue_IntVal)
		return ok && nd.Truth(av.IntVal == bv.IntVal)
	case *pb.TypedValue_UintVal:
		bv, ok := b.GetValue().(*pb.TypedValue_UintVal)
		return ok && nd.Truth(av.UintVal == bv.UintVal)
	case *pb.TypedValue_BoolVal:
		bv, ok := b.GetValue().(*pb.TypedValue_BoolVal)
		return ok && nd.Truth(av.BoolVal == bv.BoolVal)
	case *pb.TypedValue_BytesVal:
		bv, ok := b.GetValue().(*pb.TypedValue_BytesVal)
		return ok && nd.Truth(string(av.BytesVal) == string(bv.BytesVal))
	case *pb.TypedValue_DoubleVal:
		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
		return ok && nd.Truth(av.DoubleVal == bv.DoubleVal)
	case *pb.TypedValue_FloatVal:
		bv, ok := b.GetValue().(*pb.TypedValue_FloatVal)
		return ok && nd.Truth(av.FloatVal == bv.FloatVal)
	case *pb.TypedValue_DecimalVal:
		bv, ok := b.GetValue().(*pb.TypedValue_DecimalVal)
		return ok && nd.Truth(nd.And(av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits(), av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()))
	case *pb.TypedValue_JsonVal:
		bv, ok := b.GetValue().(*pb.TypedValue_JsonVal)
		return ok && nd.Truth(string(av.JsonVal) == string(bv.JsonVal))
	case *pb.TypedValue_JsonIetfVal:
		bv, ok := b.GetValue().(*pb.TypedValue_JsonIetfVal)
		return ok && nd.Truth(string(av.JsonIetfVal) == string(bv.JsonIetfVal))
	case *pb.TypedValue_AsciiVal:
		bv, ok := b.GetValue().(*pb.TypedValue_AsciiVal)
		return ok && nd.Truth(av.AsciiVal == bv.AsciiVal)
	case *pb.TypedValue_ProtoBytes:
		bv, ok := b.GetValue().(*pb.TypedValue_ProtoBytes)
		return ok && nd.Truth(string(av.ProtoBytes) == string(bv.ProtoBytes))
	case *pb.TypedValue_AnyVal:
		_, ok := b.GetValue().(*pb.TypedValue_AnyVal)
		return ok
	case *pb.TypedValue_LeaflistVal:
		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
		if !ok || len(av.LeaflistVal.GetElement()) != len(bv.LeaflistVal.GetElement()) {
			return false
		}
		for i, e := range av.LeaflistVal.GetElement() {
			if !sameTyped(e, bv.LeaflistVal.GetElement()[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// HarnessEqual: value equality is total, symmetric and never reports two different values as equal.
//
//nd:harness prop=C19 quick:depth=0 thorough:depth=0 quick:time=40 thorough:time=600
func HarnessEqual() {
	checkEqual(typed("a", nd.Param("depth", 0)), typed("b", nd.Param("depth", 0)))
}

// HarnessEqualList: the same for leaf-lists of any values.
//
//nd:harness prop=C19 quick:time=40 thorough:time=900 quick:n=1 thorough:n=2
func HarnessEqualList() {
	list := func(name string) *pb.TypedValue {
		sa := &pb.ScalarArray{}
		for i, n := 0, nd.Choose(name+".n", nd.Param("n", 1)+1); i < n; i++ {
			sa.Element = append(sa.Element, typed(fmt.Sprintf("%s.%d", name, i), 0))
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: sa}}
	}
	checkEqual(list("a"), list("b"))
}

// HarnessEqualInts: longer lists, nested lists.
//
//nd:harness prop=C19 quick:time=20 thorough:time=300 thorough:n=4
func HarnessEqualInts() {
	list := func(name string, n int) *pb.TypedValue {
		sa := &pb.ScalarArray{}
		for i := 0; i < n; i++ {
			sa.Element = append(sa.Element, &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: nd.Int64(fmt.Sprintf("%s.%d", name, i))}})
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: sa}}
	}
	max := nd.Param("n", 3) + 1
	a, b := list("a", nd.Choose("a.n", max)), list("b", nd.Choose("b.n", max))
	if nd.Bool("nest") {
		a = &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{a, a}}}}
		b = &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{a, b}}}}
	}
	checkEqual(a, b)
}

func checkEqual(a, b *pb.TypedValue) {
	var ab, ba bool
	p, _ := nd.Panics(func() { ab = value.Equal(a, b) })
	nd.Assert(!p, "Equal is total")
	p, _ = nd.Panics(func() { ba = value.Equal(b, a) })
	nd.Assert(!p, "Equal is total with its arguments exchanged")
	nd.Assert(ab == ba, "Equal is symmetric")
	nd.Assert(nd.Implies(ab, sameTyped(a, b)), "Equal never reports two different values as equal")
	nd.CoverIf(ab, "equal values")
	nd.CoverIf(!ab, "different values")
	nd.Observe("e", ab)
}

// HarnessEqualSelf: primitive values and lists of them equal themselves.
//
//nd:harness prop=C19 quick:time=20 thorough:time=300
func HarnessEqualSelf() {
	in := scalar("v", 17)
	if f, ok := in.(float64); ok {
		nd.Assume(!math.IsNaN(f))
	}
	if f, ok := in.(float32); ok {
		nd.Assume(f == f)
	}
	a, err := value.FromScalar(in)
	if err != nil {
		return
	}
	b, err := value.FromScalar(in)
	if err != nil {
		return
	}
	if l, ok := in.([]interface{}); ok {
		for _, x := range l {
			switch f := x.(type) {
			case float64:
				nd.Assume(f == f)
			case float32:
				nd.Assume(f == f)
			}
		}
	}
	nd.Assert(value.Equal(a, b), "the same scalar converted twice is equal")
}

// HarnessToScalarTotal: converting any TypedValue returns a value or an error.
//
//nd:harness prop=C19 quick:time=40 thorough:time=600 quick:depth=1 thorough:depth=1
func HarnessToScalarTotal() {
	tv := typed("v", nd.Param("depth", 1))
	// a decimal's precision scales it by a power of ten: 18 digits
	nd.Assume(tv.GetDecimalVal().GetPrecision() <= 18)
	for _, e := range tv.GetLeaflistVal().GetElement() {
		nd.Assume(e.GetDecimalVal().GetPrecision() <= 18)
	}
	var err error
	var out interface{}
	p, _ := nd.Panics(func() { out, err = value.ToScalar(tv) })
	nd.Assert(!p, "ToScalar is total")
	nd.Assert(nd.Or(err != nil, out != nil || tv.GetJsonVal() != nil), "a value or an error is returned")
	nd.CoverIf(err == nil, "converted")
	nd.CoverIf(err != nil, "refused")
}
