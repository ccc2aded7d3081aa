// Package c05 decides C05: ONCE and POLL return exactly the matching snapshot, then the sync marker.
package c05

import (
	"fmt"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/sv"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// state is the matching content of every target.
type state map[string][]cm.Leaf

func matching(w *sv.World, req *pb.SubscribeRequest) state {
	s := state{}
	for _, t := range w.Targets {
		s[t] = w.MatchingAll(t, req)
	}
	return s
}

// snapshot asserts that got is a snapshot of what the cache went through (one state if it did not change) and ends
// with the only sync marker.
func snapshot(w *sv.World, got []*pb.SubscribeResponse, during ...state) {
	nd.Assert(len(got) > 0 && sv.IsSync(got[len(got)-1]), "the sync marker comes last")
	nd.Assert(sv.Syncs(got) == 1, "exactly one sync marker")
	for _, r := range got[:len(got)-1] {
		n := r.GetUpdate()
		nd.Assert(n != nil && len(n.GetDelete()) == 0, "only updates before the sync marker")
		known := false
		for _, t := range w.Targets {
			known = known || n.GetPrefix().GetTarget() == t
		}
		nd.Assert(known, "the prefix has the target of the leaf")
	}
	for _, t := range w.Targets {
		sent := sv.Sent(t, got)
		for _, s := range sent {
			ok := false
			for _, st := range during {
				for _, l := range st[t] {
					ok = nd.Or(ok, cm.SameLeaf(l, s, true))
				}
			}
			nd.Assert(ok, "a response is a matching leaf with a value of the time of the call")
		}
		for _, l := range during[0][t] {
			throughout := true
			for _, st := range during[1:] {
				in := false
				for _, m := range st[t] {
					in = nd.Or(in, cm.Eq(l.P, m.P))
				}
				throughout = nd.And(throughout, in)
			}
			ok := false
			for _, s := range sent {
				ok = nd.Or(ok, cm.Eq(l.P, s.P))
			}
			nd.Assert(nd.Implies(throughout, ok), "a matching leaf is missing")
		}
	}
}

// fill writes arbitrary content.
func fill(w *sv.World, n, ops int) {
	for i := 0; i < n; i++ {
		t := "t"
		if nd.Bool(fmt.Sprint("u", i)) {
			t = "u"
		}
		put(w, fmt.Sprint("pre", i), t, int64(10+i), ops)
	}
}

func put(w *sv.World, name, t string, ts int64, ops int) {
	w.Tick()
	switch nd.Choose(name, ops) {
	case 0: // split between prefix and path, any origin
		p := cm.Elems(name+".p", 3, false)
		n := cm.Noti(t, ts, nd.Choose(name+".cut", len(p)), p, hx.IntVal(nd.Int64(name+".v")))
		if nd.Bool(name + ".o") {
			n.Prefix.Origin = nd.StringN(name+".origin", 1)
		}
		w.C.GnmiUpdate(n)
	case 1:
		w.C.GnmiUpdate(cm.AtomicNoti(t, ts, cm.Elems(name+".p", 2, false), []string{"x", "y"}, cm.Ints(1, nd.Int64(name+".v"))))
	case 2:
		w.C.Connect(t)
	}
}

// HarnessOnce: any content, any ONCE request.
//
//nd:harness prop=C05 mode=pb preempt=0 quick:pre=2 quick:ops=3 quick:time=40 thorough:pre=3 thorough:ops=3 thorough:paths=3 thorough:time=3000 maxpaths=3000000
func HarnessOnce() {
	w := sv.New([]string{"t", "u"}, nil)
	fill(w, nd.Param("pre", 2), nd.Param("ops", 2))
	req := sv.Request("r", pb.SubscriptionList_ONCE, nd.Param("paths", 2), 2)
	st := matching(w, req)
	b := w.Start("1", req, false)
	nd.Quiesce()
	nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
	snapshot(w, b.St.Got, st)
}

// HarnessOnceKeys: keyed paths and globs in keys.
//
//nd:harness prop=C05 mode=pb preempt=0 quick:time=15 thorough:time=600 maxpaths=3000000 maporder=2
func HarnessOnceKeys() {
	w := sv.New([]string{"t"}, nil)
	keyed := func(name string, glob bool) *pb.Path {
		k := map[string]string{}
		k["a"] = nd.StringN(name+".a", 1)
		k["b"] = nd.StringN(name+".b", 1)
		if !glob {
			nd.Assume(nd.And(k["a"] != "*", k["b"] != "*"))
		}
		return &pb.Path{Elem: []*pb.PathElem{{Name: "l", Key: k}, {Name: "x"}}}
	}
	for i := 0; i < 2; i++ {
		w.Tick()
		w.C.GnmiUpdate(&pb.Notification{Timestamp: int64(10 + i), Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: keyed(fmt.Sprint("k", i), false), Val: hx.IntVal(int64(i))}}})
	}
	req := hx.Sub("t", pb.SubscriptionList_ONCE, false, keyed("q", true))
	if nd.Bool("list") {
		req.GetSubscribe().Subscription[0].Path.Elem = []*pb.PathElem{{Name: "l"}}
	}
	st := matching(w, req)
	b := w.Start("1", req, false)
	nd.Quiesce()
	nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
	snapshot(w, b.St.Got, st)
}

// HarnessOnceStall: the content changes while the subscriber of a ONCE request is stalled.
//
//nd:harness prop=C05 mode=pb preempt=0 quick:pre=1 quick:during=1 quick:time=25 thorough:pre=2 thorough:during=2 thorough:time=2000 maxpaths=3000000
func HarnessOnceStall() {
	w := sv.New([]string{"t", "u"}, nil)
	fill(w, nd.Param("pre", 1), 2)
	req := sv.Request("r", pb.SubscriptionList_ONCE, 1, 2)
	sts := []state{matching(w, req)}
	b := w.Start("1", req, true)
	nd.Quiesce()
	for i := 0; i < nd.Param("during", 1); i++ {
		w.Write(fmt.Sprint("w", i), 6)
		nd.Quiesce()
		sts = append(sts, matching(w, req))
	}
	b.Release()
	nd.Quiesce()
	nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
	snapshot(w, b.St.Got, sts...)
}

// HarnessPoll: polls with changes before and during each.
//
//nd:harness prop=C05 mode=pb preempt=0 quick:pre=1 quick:polls=1 quick:time=30 thorough:pre=1 thorough:polls=3 thorough:time=3000 maxpaths=3000000
func HarnessPoll() {
	w := sv.New([]string{"t", "u"}, nil)
	fill(w, nd.Param("pre", 1), 1)
	req := sv.Request("r", pb.SubscriptionList_POLL, 1, 1)
	polls := nd.Param("polls", 1)
	n := nd.Choose("polls", polls+1)
	st := matching(w, req)
	b := w.Start("1", req, false)
	nd.Quiesce()
	nd.Assert(!b.Done, "the POLL subscription goes on")
	snapshot(w, b.St.Got, st)
	for i := 0; i < n; i++ {
		from := len(b.St.Got)
		w.Write(fmt.Sprint("w", i), 4)
		nd.Quiesce()
		nd.Assert(len(b.St.Got) == from, "nothing is sent between polls")
		sts := []state{matching(w, req)}
		during := nd.Bool(fmt.Sprint("during", i))
		if during {
			b.Hold()
		}
		b.St.Reqs <- []*pb.SubscribeRequest{{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}, {}}[nd.Choose(fmt.Sprint("trigger", i), 2)]
		nd.Quiesce()
		if during {
			w.Write(fmt.Sprint("d", i), 3)
			nd.Quiesce()
			sts = append(sts, matching(w, req))
			b.Release()
			nd.Quiesce()
		}
		nd.Assert(!b.Done, "the POLL subscription goes on")
		snapshot(w, b.St.Got[from:], sts...)
	}
	from := len(b.St.Got)
	close(b.St.Reqs)
	nd.Quiesce()
	nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
	nd.Assert(len(b.St.Got) == from, "nothing is sent after the last poll")
}

// HarnessPollSmall: more polls over a small alphabet.
//
//nd:harness prop=C05 mode=pb preempt=0 quick:polls=2 quick:time=40 thorough:polls=4 thorough:time=3000 maxpaths=3000000
func HarnessPollSmall() {
	w := sv.New([]string{"t", "u"}, nil)
	req := hx.Sub([]string{"t", "*"}[nd.Choose("target", 2)], pb.SubscriptionList_POLL, false, [][]*pb.Path{
		{hx.Elems()}, {hx.Elems("c")}, {hx.Elems("*", "a")}, {hx.Elems("c", "a"), hx.Elems("*", "b")}, {hx.Elems("meta")}}[nd.Choose("paths", 5)]...)
	change := func(name string, i int) {
		w.Tick()
		a := []string{"a", "b"}[nd.Choose(name+".e", 2)]
		ts := int64(10 + i)
		switch nd.Choose(name, 6) {
		case 0:
			w.C.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", a}, hx.IntVal(ts)))
		case 1:
			w.C.GnmiUpdate(cm.Noti("u", ts, 0, []string{"c", a}, hx.IntVal(ts)))
		case 2:
			w.C.GnmiUpdate(cm.Del("t", ts, 0, []string{"c", a}))
		case 3:
			w.C.Reset("t")
		case 4:
			w.C.UpdateMetadata()
		case 5:
			w.C.GnmiUpdate(cm.AtomicNoti("t", ts, []string{"c", a}, []string{"x", "y"}, cm.Ints(1, ts)))
		}
	}
	change("pre", 0)
	st := matching(w, req)
	b := w.Start("1", req, false)
	nd.Quiesce()
	snapshot(w, b.St.Got, st)
	for i := 1; i <= nd.Param("polls", 2); i++ {
		from := len(b.St.Got)
		change(fmt.Sprint("c", i), i)
		st := matching(w, req)
		b.St.Reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
		nd.Quiesce()
		snapshot(w, b.St.Got[from:], st)
	}
	nd.Assert(!b.Done, "the POLL subscription goes on")
	b.Cancel()
	nd.Quiesce()
	nd.Assert(b.Done, "the subscription ends with its stream")
}

var quiet = cache.WithExcludedMeta([]string{metadata.Sync, metadata.Connected, metadata.ConnectedAddr, metadata.ConnectError, metadata.AddCount,
	metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount,
	metadata.SuppressedCount, metadata.LatestTimestamp, metadata.Size, metadata.ServerName})

type op struct {
	do    func(c *cache.Cache)
	after []cm.Leaf // the content below c afterwards
}

func leaf(e string, ts int64) cm.Leaf {
	return cm.Leaf{P: []string{"c", e}, TS: ts, V: cm.Ints(ts)}
}

func upd(ts int64, e string) func(c *cache.Cache) {
	return func(c *cache.Cache) { c.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", e}, hx.IntVal(ts))) }
}

func del(ts int64, e string) func(c *cache.Cache) {
	return func(c *cache.Cache) { c.GnmiUpdate(cm.Del("t", ts, 0, []string{"c", e})) }
}

// writers are the concurrent histories.
var writers = [][]op{
	{{upd(11, "a"), []cm.Leaf{leaf("a", 11), leaf("b", 5)}}},
	{{del(11, "a"), []cm.Leaf{leaf("b", 5)}}, {upd(12, "a"), []cm.Leaf{leaf("a", 12), leaf("b", 5)}}},
	{{upd(11, "x"), []cm.Leaf{leaf("a", 5), leaf("b", 5), leaf("x", 11)}}, {del(12, "b"), []cm.Leaf{leaf("a", 5), leaf("x", 11)}}},
	{{func(c *cache.Cache) { c.Reset("t") }, nil}, {upd(12, "b"), []cm.Leaf{leaf("b", 12)}}},
}

func race(mode pb.SubscriptionList_Mode, wr []op, paths ...*pb.Path) {
	w := sv.New([]string{"t"}, []cache.Option{quiet})
	upd(5, "a")(w.C)
	upd(5, "b")(w.C)
	req := hx.Sub("t", mode, false, paths...)
	base := state{"t": {leaf("a", 5), leaf("b", 5)}}
	b := w.Make("1", req, false)
	from := 0
	if mode == pb.SubscriptionList_POLL {
		go b.Run()
		nd.Quiesce()
		snapshot(w, b.St.Got, base)
		from = len(b.St.Got)
	}
	during := []state{base}
	for _, o := range wr {
		during = append(during, state{"t": o.after})
	}
	nd.Explore(true)
	if mode == pb.SubscriptionList_POLL {
		b.St.Reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
	} else {
		go b.Run()
	}
	go func() {
		for _, o := range wr {
			o.do(w.C)
		}
	}()
	nd.Quiesce()
	nd.Explore(false)
	if mode == pb.SubscriptionList_ONCE {
		nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
	}
	snapshot(w, b.St.Got[from:], during...)
	b.Cancel()
	nd.Quiesce()
}

// HarnessOnceRace: every interleaving of a ONCE request with a writer.
//
//nd:harness prop=C05 mode=dpor quick:time=30 thorough:time=3000 maxpaths=50000000
func HarnessOnceRace() {
	race(pb.SubscriptionList_ONCE, writers[nd.Choose("writer", len(writers))], hx.Elems("c"))
}

// HarnessPollRace: every interleaving of a poll with a writer.
//
//nd:harness prop=C05 mode=dpor quick:time=30 thorough:time=3000 maxpaths=50000000
func HarnessPollRace() {
	race(pb.SubscriptionList_POLL, writers[nd.Choose("writer", len(writers))], hx.Elems("c", "*"))
}
