// Package cm has the reference model of one target's cache and the notification builders shared by the
// cache harnesses.
package cm

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Leaf is one stored leaf: an update, or an atomic group of updates stored at the group's prefix.
type Leaf struct {
	P      []string
	TS     int64
	Atomic bool
	V      []*pb.TypedValue // value per update
	Sub    []string // name of each update below the prefix of an atomic group
}

// Eq is equality of paths as a term.
func Eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// IsPrefix reports whether a is a prefix of b, as a term.
func IsPrefix(a, b []string) bool { return len(a) <= len(b) && Eq(a, b[:len(a)]) }

// Matches is the meaning of a delete or query path: a glob matches one element, a path that ends above a
// leaf matches everything below it, and one trailing glob may match nothing.
func Matches(q, p []string) bool {
	n := len(q)
	r := true
	if n == len(p)+1 {
		r = q[n-1] == "*"
		n--
	}
	if n > len(p) {
		return false
	}
	for i := 0; i < n; i++ {
		r = nd.And(r, nd.Or(q[i] == "*", q[i] == p[i]))
	}
	return r
}

// Result of an update.
type Result int

// Results.
const (
	Added Result = iota
	Replaced
	Suppressed
	Stale
	Future
	Conflict
)

// Model is the state of one target.
type Model struct {
	L      []Leaf
	Latest int64 // greatest accepted timestamp, 0 if none
	Now    int64
	Thr    int64
	Event  bool // event-driven emulation

	Adds, Dels, Upd, Supp, Stl, Fut, Empty, Errs int64
}

// Find is the index of the leaf at p, or -1.
func (m *Model) Find(p []string) int {
	for i, l := range m.L {
		if nd.Truth(Eq(l.P, p)) {
			return i
		}
	}
	return -1
}

// SameVal is equality of values as a term.
func SameVal(a, b *pb.TypedValue) bool {
	switch av := a.GetValue().(type) {
	case nil:
		return b.GetValue() == nil
	case *pb.TypedValue_IntVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_IntVal); ok {
			return av.IntVal == bv.IntVal
		}
		return false
	case *pb.TypedValue_UintVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_UintVal); ok {
			return av.UintVal == bv.UintVal
		}
		return false
	case *pb.TypedValue_StringVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_StringVal); ok {
			return av.StringVal == bv.StringVal
		}
		return false
	case *pb.TypedValue_BoolVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_BoolVal); ok {
			return av.BoolVal == bv.BoolVal
		}
		return false
	case *pb.TypedValue_DoubleVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal); ok {
			return av.DoubleVal == bv.DoubleVal
		}
		return false
	case *pb.TypedValue_BytesVal:
		if bv, ok := b.GetValue().(*pb.TypedValue_BytesVal); ok {
			return string(av.BytesVal) == string(bv.BytesVal)
		}
		return false
	case *pb.TypedValue_LeaflistVal:
		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
		return ok && sameVals(av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement())
	}
	return proto.Equal(a, b)
}

func sameVals(a, b []*pb.TypedValue) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = nd.And(r, SameVal(a[i], b[i]))
	}
	return r
}

// Ints is a list of integer values.
func Ints(vs ...int64) []*pb.TypedValue {
	var r []*pb.TypedValue
	for _, v := range vs {
		r = append(r, hx.IntVal(v))
	}
	return r
}

func same(a, b Leaf) bool {
	return a.Atomic == b.Atomic && nd.Truth(nd.And(sameVals(a.V, b.V), Eq(a.Sub, b.Sub)))
}

// Update applies one accepted-or-rejected update.
func (m *Model) Update(l Leaf) Result {
	r := m.update(l)
	n := int64(len(l.V))
	switch r {
	case Added, Replaced:
		m.Upd += n
	case Suppressed:
		m.Supp++
	case Stale:
		m.Stl++
	case Future:
		m.Fut++
	case Conflict:
		m.Errs++
	}
	if r == Added || r == Replaced || r == Suppressed {
		m.Latest = nd.IteInt(l.TS > m.Latest, l.TS, m.Latest)
	}
	return r
}

func (m *Model) update(l Leaf) Result {
	if i := m.Find(l.P); i >= 0 {
		o := &m.L[i]
		if nd.Truth(l.TS < o.TS) {
			return Stale
		}
		if nd.Truth(l.TS == o.TS) {
			if same(l, *o) {
				return Stale
			}
		} else if m.Thr != 0 && m.Latest != 0 && nd.Truth(nd.And(m.Thr > 0, nd.And(l.TS-m.Now > m.Thr, l.TS-m.Latest > m.Thr))) {
			return Future
		}
		eq := m.Event && !l.Atomic && !o.Atomic && nd.Truth(sameVals(l.V, o.V))
		*o = l
		if eq {
			return Suppressed
		}
		return Replaced
	}
	for _, o := range m.L {
		if nd.Truth(nd.Or(IsPrefix(o.P, l.P), IsPrefix(l.P, o.P))) {
			return Conflict
		}
	}
	m.L = append(m.L, l)
	m.Adds++
	return Added
}

// Delete removes the matching leaves older than ts and returns how many.
func (m *Model) Delete(q []string, ts int64) int {
	var keep []Leaf
	n := 0
	for _, l := range m.L {
		if nd.Truth(nd.And(Matches(q, l.P), l.TS < ts)) {
			n++
		} else {
			keep = append(keep, l)
		}
	}
	m.L = keep
	m.Dels += int64(n)
	m.Upd++
	return n
}

// LeafOf is the leaf a stored notification denotes at path p.
func LeafOf(p []string, n *pb.Notification) Leaf {
	l := Leaf{P: p, TS: n.GetTimestamp(), Atomic: n.GetAtomic()}
	for _, u := range n.GetUpdate() {
		l.V = append(l.V, u.GetVal())
		if n.GetAtomic() {
			l.Sub = append(l.Sub, path.ToStrings(u.GetPath(), false)...)
		}
	}
	return l
}

// Content is what the cache returns to a query for everything below the given roots of target t; paths
// under the metadata root are left out.
func Content(c *cache.Cache, t string) []Leaf {
	var r []Leaf
	c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v interface{}) error {
		n, ok := v.(*pb.Notification)
		nd.Assert(ok, "the cache stores notifications")
		if len(p) > 0 && nd.Truth(p[0] == "meta") {
			return nil
		}
		r = append(r, LeafOf(append([]string{}, p...), n))
		return nil
	})
	return r
}

// SameLeaf is equality of leaves as a term; timestamps are compared only if ts.
func SameLeaf(a, b Leaf, ts bool) bool {
	if a.Atomic != b.Atomic {
		return false
	}
	r := nd.And(Eq(a.P, b.P), nd.And(sameVals(a.V, b.V), Eq(a.Sub, b.Sub)))
	if ts {
		r = nd.And(r, a.TS == b.TS)
	}
	return r
}

// CheckSame asserts that got is exactly want.
func CheckSame(got, want []Leaf, ts bool, what string) {
	nd.Assert(len(got) == len(want), what+": number of leaves")
	for _, w := range want {
		ok := false
		for _, g := range got {
			ok = nd.Or(ok, SameLeaf(g, w, ts))
		}
		nd.Assert(ok, what+": a leaf is missing or has another value")
	}
}

// Elems is a path of 1..max one-byte elements; glob allows "*".
func Elems(name string, max int, glob bool) []string {
	n := 1 + nd.Choose(name+".n", max)
	p := make([]string, n)
	for i := range p {
		p[i] = nd.StringN(fmt.Sprintf("%s.%d", name, i), 1)
		if !glob {
			nd.Assume(p[i] != "*")
		}
	}
	return p
}

// TS is any positive timestamp that stays clear of overflow.
func TS(name string) int64 {
	ts := nd.Int64(name)
	nd.Assume(nd.And(ts > 0, ts < 1<<60))
	return ts
}

// Clock pins the cache's clock.
func Clock(ns int64) { cache.Now = func() time.Time { return time.Unix(0, ns) } }

// Noti builds an update notification of path p split between prefix and path at cut.
func Noti(t string, ts int64, cut int, p []string, v *pb.TypedValue) *pb.Notification {
	n := hx.Noti(t, ts, hx.Upd(v, p[cut:]...))
	n.Prefix.Elem = hx.PElems(p[:cut])
	return n
}

// Del builds a delete notification of path p split between prefix and path at cut.
func Del(t string, ts int64, cut int, p []string) *pb.Notification {
	n := hx.DelNoti(t, ts, p[cut:]...)
	n.Prefix.Elem = hx.PElems(p[:cut])
	return n
}

// AtomicNoti builds an atomic group at prefix p.
func AtomicNoti(t string, ts int64, p []string, sub []string, v []*pb.TypedValue) *pb.Notification {
	n := &pb.Notification{Timestamp: ts, Atomic: true, Prefix: &pb.Path{Target: t, Elem: hx.PElems(p)}}
	for i := range sub {
		n.Update = append(n.Update, hx.Upd(v[i], sub[i]))
	}
	return n
}

// Feed replays the change feed: an update sets a leaf, an atomic update replaces its subtree as one unit, a
// delete removes what it matches.
type Feed struct {
	T   map[string]*[]Leaf
	Log []*pb.Notification
}

// NewFeed returns an empty replay of the given targets.
func NewFeed(ts ...string) *Feed {
	f := &Feed{T: map[string]*[]Leaf{}}
	for _, t := range ts {
		f.T[t] = &[]Leaf{}
	}
	return f
}

// Client is the callback to register with the cache.
func (f *Feed) Client(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	nd.Assert(ok, "the feed carries notifications")
	f.Log = append(f.Log, n)
	f.Apply(n)
}

// Apply applies one notification.
func (f *Feed) Apply(n *pb.Notification) {
	ls := f.T[n.GetPrefix().GetTarget()]
	if ls == nil {
		nd.Fail("the feed names the target of each notification")
		return
	}
	pre := path.ToStrings(n.GetPrefix(), true)[1:]
	full := func(p *pb.Path) []string {
		return append(append([]string{}, pre...), path.ToStrings(p, false)...)
	}
	filter := func(drop func(Leaf) bool) {
		var keep []Leaf
		for _, l := range *ls {
			if !nd.Truth(drop(l)) {
				keep = append(keep, l)
			}
		}
		*ls = keep
	}
	if n.GetAtomic() {
		filter(func(l Leaf) bool { return IsPrefix(pre, l.P) })
		*ls = append(*ls, LeafOf(pre, n))
		return
	}
	for _, u := range n.GetUpdate() {
		p := full(u.GetPath())
		filter(func(l Leaf) bool { return Eq(l.P, p) })
		*ls = append(*ls, Leaf{P: p, TS: n.GetTimestamp(), V: []*pb.TypedValue{u.GetVal()}})
	}
	for _, d := range n.GetDelete() {
		q := full(d)
		filter(func(l Leaf) bool { return Matches(q, l.P) })
	}
}

// All is everything the cache returns for target t, metadata included.
func All(c *cache.Cache, t string) []Leaf {
	var r []Leaf
	c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v interface{}) error {
		n, ok := v.(*pb.Notification)
		nd.Assert(ok, "the cache stores notifications")
		r = append(r, LeafOf(append([]string{}, p...), n))
		return nil
	})
	return r
}
