// Package c03 decides C03: the cache's change feed reproduces the cache exactly.
package c03

import (
	"fmt"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

type world struct {
	c     *cache.Cache
	m     map[string]*cm.Model
	f     *cm.Feed
	event bool
}

func newWorld(event bool, ts ...string) *world {
	var opts []cache.Option
	if !event {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	w := &world{c: cache.New(ts, opts...), m: map[string]*cm.Model{}, f: cm.NewFeed(ts...), event: event}
	for _, t := range ts {
		w.m[t] = &cm.Model{Event: event}
	}
	w.c.SetClient(w.f.Client)
	return w
}

// send delivers n and checks that it is left unmodified.
func (w *world) send(n *pb.Notification) error {
	before := proto.Clone(n).(*pb.Notification)
	err := w.c.GnmiUpdate(n)
	nd.Assert(proto.Equal(before, n), "the caller's notification is left unmodified")
	return err
}

// check compares replay, cache and model of every target.
func (w *world) check() {
	for t, m := range w.m {
		all := cm.All(w.c, t)
		cm.CheckSame(*w.f.T[t], all, !w.event, "replaying the feed gives the cache's content")
		cm.CheckSame(cm.Content(w.c, t), m.L, true, "the cache's content")
	}
}

func val(name string) *pb.TypedValue {
	switch nd.Choose(name+".k", 4) {
	case 3: // a leaf list of two elements
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: cm.Ints(nd.Int64(name+".l"), nd.Int64(name+".l2"))}}}
	case 0:
		return hx.IntVal(nd.Int64(name + ".i"))
	case 1:
		return hx.StrVal(nd.StringN(name+".s", 1))
	default:
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: cm.Ints(nd.Int64(name + ".l"))}}}
	}
}

// pfx is a prefix object whose element slice has room to grow, as unmarshalled messages have.
func pfx(t string, es ...string) *pb.Path {
	return &pb.Path{Target: t, Elem: append(make([]*pb.PathElem, 0, 4), hx.PElems(es)...)}
}

// HarnessHistory: single updates, atomic groups and deletes on one target.
//
//nd:harness prop=C03 quick:k=3 thorough:k=4 quick:time=60 thorough:time=1500
func HarnessHistory() {
	w := newWorld(nd.Bool("event"), "t")
	m := w.m["t"]
	k := nd.Param("k", 3)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		before := len(w.f.Log)
		switch nd.Choose(name, 3) {
		case 0:
			p := cm.Elems(name+".p", 2, false)
			v := cm.Ints(nd.Int64(name + ".v"))
			r := m.Update(cm.Leaf{P: p, TS: ts, V: v})
			w.send(cm.Noti("t", ts, 0, p, v[0]))
			w.fed(r, before)
		case 1:
			q := cm.Elems(name+".q", 2, true)
			n := m.Delete(q, ts)
			w.send(cm.Del("t", ts, 0, q))
			nd.Assert(nd.Implies(n == 0, len(w.f.Log) == before), "a delete that removes nothing announces nothing")
			nd.CoverIf(n > 1, "several leaves deleted")
		case 2:
			p := cm.Elems(name+".p", 1, false)
			l := cm.Leaf{P: p, TS: ts, Atomic: true, Sub: []string{"x", "y"}[:1+nd.Choose(name+".n", 2)]}
			for j := range l.Sub {
				l.V = append(l.V, hx.IntVal(nd.Int64(fmt.Sprintf("%s.v%d", name, j))))
			}
			r := m.Update(l)
			w.send(cm.AtomicNoti("t", ts, p, l.Sub, l.V))
			w.fed(r, before)
		}
		w.check()
	}
}

// fed checks that an update reaches the feed exactly when it was accepted and not suppressed.
func (w *world) fed(r cm.Result, before int) {
	n := len(w.f.Log) - before
	switch r {
	case cm.Added, cm.Replaced:
		nd.Assert(n == 1, "an accepted update that changes the leaf is handed to the feed once")
	case cm.Suppressed:
		nd.Assert(n <= 1, "an unchanged value is handed to the feed at most once")
	default:
		nd.Assert(n == 0, "a rejected update is not handed to the feed")
	}
	nd.CoverIf(r == cm.Suppressed, "suppressed")
	nd.CoverIf(r == cm.Replaced, "replaced")
}

// HarnessValues: event-driven suppression for values of several types, atomic or not.
//
//nd:harness prop=C03 quick:time=40 thorough:time=900
func HarnessValues() {
	w := newWorld(true, "t")
	m := w.m["t"]
	p := []string{"a", "b"}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		before := len(w.f.Log)
		v := []*pb.TypedValue{val(name)}
		var r cm.Result
		if nd.Bool(name + ".atomic") {
			l := cm.Leaf{P: p, TS: ts, Atomic: true, Sub: []string{"x"}, V: v}
			if nd.Bool(name + ".two") {
				l.Sub, l.V = []string{"x", "y"}, append(l.V, hx.IntVal(nd.Int64(name+".w")))
			}
			r = m.Update(l)
			w.send(cm.AtomicNoti("t", ts, p, l.Sub, l.V))
		} else {
			r = m.Update(cm.Leaf{P: p, TS: ts, V: v})
			w.send(cm.Noti("t", ts, 0, p, v[0]))
		}
		w.fed(r, before)
		w.check()
	}
}

// encode writes the index path p into prefix and path with the chosen encodings.
func encode(name string, n *pb.Notification, p []string) *pb.Path {
	cut := nd.Choose(name+".cut", len(p)+1)
	ph := &pb.Path{}
	rest := p[cut:]
	set := func(d *pb.Path, es []string, kind int) {
		switch {
		case kind == 1:
			d.Element = es
		case kind == 2 && len(es) == 2: // a list element and its key
			d.Elem = []*pb.PathElem{{Name: es[0], Key: map[string]string{"k": es[1]}}}
		default:
			d.Elem = append(make([]*pb.PathElem, 0, 4), hx.PElems(es)...)
		}
	}
	if cut > 0 && nd.Bool(name+".origin") {
		n.Prefix.Origin = p[0]
		set(n.Prefix, p[1:cut], nd.Choose(name+".pe", 2))
	} else {
		set(n.Prefix, p[:cut], nd.Choose(name+".pe", 3))
	}
	set(ph, rest, nd.Choose(name+".ue", 3))
	return ph
}

// HarnessEncodings: whatever the encoding of updates and deletes, the feed's deletes remove what was deleted.
//
//nd:harness prop=C03 quick:time=60 thorough:time=900
func HarnessEncodings() {
	w := newWorld(nd.Bool("event"), "t")
	m := w.m["t"]
	p := []string{"a", "b", "c"}
	n := &pb.Notification{Timestamp: 5, Prefix: &pb.Path{Target: "t"}}
	v := cm.Ints(nd.Int64("v"))
	n.Update = []*pb.Update{{Path: encode("u", n, p), Val: v[0]}}
	if nd.Bool("atomic") {
		n.Atomic = true
		pre := path.ToStrings(n.Prefix, true)[1:]
		nd.Assume(len(pre) > 0)
		m.Update(cm.Leaf{P: pre, TS: n.Timestamp, V: v, Atomic: true, Sub: path.ToStrings(n.Update[0].Path, false)})
	} else {
		m.Update(cm.Leaf{P: p, TS: n.Timestamp, V: v})
	}
	nd.Assert(w.send(n) == nil, "accepted")
	w.check()
	q := p[:1+nd.Choose("q", 3)]
	d := &pb.Notification{Timestamp: 6, Prefix: &pb.Path{Target: "t"}}
	d.Delete = []*pb.Path{encode("d", d, q)}
	k := m.Delete(q, d.Timestamp)
	nd.Assert(w.send(d) == nil, "accepted")
	w.check()
	nd.CoverIf(k == 1, "deleted")
}

// HarnessShared: notifications that share prefix objects.
//
//nd:harness prop=C03 quick:time=60 thorough:time=900 quick:k=3 thorough:k=4
func HarnessShared() {
	w := newWorld(false, "t")
	m := w.m["t"]
	pre := pfx("t", "a")
	leaves := []string{"x", "y", "z"}
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		n := &pb.Notification{Timestamp: ts, Prefix: pre}
		op := 0
		if i > 0 {
			op = nd.Choose(name, 4)
		}
		switch op {
		case 0, 1:
			for j, nu := 0, 1+nd.Choose(name+".nu", 2); j < nu; j++ {
				un := fmt.Sprintf("%s.%d", name, j)
				l := leaves[nd.Choose(un, 2)]
				v := int64(i + j)
				n.Update = append(n.Update, hx.Upd(hx.IntVal(v), l))
				m.Update(cm.Leaf{P: []string{"a", l}, TS: ts, V: cm.Ints(v)})
			}
		case 2:
			n.Delete = []*pb.Path{hx.Elems("*")}
			k := m.Delete([]string{"a", "*"}, ts)
			nd.CoverIf(k > 1, "several leaves of one prefix object deleted")
		case 3:
			v := int64(i)
			n.Update = []*pb.Update{hx.Upd(hx.IntVal(v), "z")}
			m.Update(cm.Leaf{P: []string{"a", "z"}, TS: ts, V: cm.Ints(v)})
			n.Delete = []*pb.Path{hx.Elems("x")}
			m.Delete([]string{"a", "x"}, ts)
		}
		w.send(n)
		w.check()
	}
}

// HarnessSplit: a notification with several updates and deletes behaves as the same updates then deletes
// applied one at a time.
//
//nd:harness prop=C03 quick:time=60 thorough:time=900
func HarnessSplit() {
	event := nd.Bool("event")
	a, b := newWorld(event, "t"), newWorld(event, "t")
	paths := [][]string{{"a"}, {"b", "c"}, {"*"}}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		n := &pb.Notification{Timestamp: ts, Prefix: pfx("t")}
		nu, ndl := 2, 0
		if i == 1 {
			nu, ndl = nd.Choose(name+".nu", 3), nd.Choose(name+".nd", 3)
		}
		for j := 0; j < nu; j++ {
			un := fmt.Sprintf("%s.%d", name, j)
			k := j
			if i > 0 {
				k = nd.Choose(un, 2)
			}
			n.Update = append(n.Update, hx.Upd(hx.IntVal(nd.Int64(un+".v")), paths[k]...))
		}
		for j := 0; j < ndl; j++ {
			n.Delete = append(n.Delete, hx.Elems(paths[nd.Choose(fmt.Sprintf("%s.d%d", name, j), 3)]...))
		}
		failed := false
		for _, u := range n.Update {
			if b.c.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: pfx("t"), Update: []*pb.Update{proto.Clone(u).(*pb.Update)}}) != nil {
				failed = true
			}
		}
		for _, d := range n.Delete {
			b.c.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: pfx("t"), Delete: []*pb.Path{proto.Clone(d).(*pb.Path)}})
		}
		err := a.send(n)
		nd.Assert((err != nil) == failed, "an error is returned exactly when one of the parts fails")
		cm.CheckSame(cm.Content(a.c, "t"), cm.Content(b.c, "t"), true, "several at once and one at a time leave the same content")
		nd.Assert(len(a.f.Log) == len(b.f.Log), "several at once and one at a time feed as many notifications")
		for j := range a.f.Log {
			if j < len(b.f.Log) {
				nd.Assert(proto.Equal(a.f.Log[j], b.f.Log[j]), "several at once and one at a time feed the same notifications")
			}
		}
		cm.CheckSame(*a.f.T["t"], cm.All(a.c, "t"), !event, "replaying the feed gives the cache's content")
	}
}

// HarnessTargets: Reset and Remove among updates of several targets.
//
//nd:harness prop=C03 quick:time=60 thorough:time=900 quick:k=3 thorough:k=4
func HarnessTargets() {
	w := newWorld(nd.Bool("event"), "t", "u")
	now := int64(1 << 60)
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		t := "t"
		if nd.Bool(name + ".u") {
			t = "u"
		}
		now++
		cm.Clock(now)
		op := nd.Choose(name, 5)
		if i == 0 {
			nd.Assume(op < 2)
		}
		switch op {
		case 0, 1:
			p := short(name+".p", false)
			v := int64(i)
			ts := cm.TS(name + ".ts")
			w.m[t].Update(cm.Leaf{P: p, TS: ts, V: cm.Ints(v)})
			cut := 0
			n := cm.Noti(t, ts, 0, p, hx.IntVal(v))
			if op == 1 { // first element as origin
				cut = 1
				n = hx.Noti(t, ts, hx.Upd(hx.IntVal(v), p[1:]...))
				n.Prefix.Origin = p[0]
				if len(p) == cut {
					return
				}
			}
			w.send(n)
		case 2:
			q := short(name+".q", true)
			ts := cm.TS(name + ".ts")
			w.m[t].Delete(q, ts)
			w.send(cm.Del(t, ts, 0, q))
		case 3:
			w.c.Reset(t)
			nd.CoverIf(len(w.m[t].L) > 0, "reset")
			w.m[t].L = nil
		case 4:
			w.c.Remove(t)
			nd.Assert(len(*w.f.T[t]) == 0, "the removal of a target announces the delete of everything it had")
			w.c.Add(t)
			w.m[t].L = nil
			nd.Cover("removed")
		}
		w.check()
	}
}

// short is any one-byte element, alone or followed by a fixed one.
func short(name string, glob bool) []string {
	p := cm.Elems(name, 1, glob)
	if nd.Bool(name + ".z") {
		p = append(p, "z")
	}
	return p
}
