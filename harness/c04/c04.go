// Package c04 decides C04: STREAM subscribers converge to the cache, sync marks the initial snapshot.
package c04

import (
	"fmt"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/sv"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// HarnessHistory: any history of changes before and after the start of a subscription, with the subscriber stalled
// or not in between.
//
//nd:harness prop=C04 mode=pb preempt=0 quick:pre=1 quick:post=1 quick:ops=4 quick:time=35 thorough:pre=2 thorough:post=3 thorough:ops=5 thorough:time=3000 maxpaths=3000000
func HarnessHistory() {
	var opts []cache.Option
	if nd.Bool("not event driven") {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	w := sv.New([]string{"t", "u"}, opts)
	ops := nd.Param("ops", 4)
	for i := 0; i < nd.Param("pre", 1); i++ {
		w.Write(fmt.Sprint("pre", i), ops)
	}
	req := sv.Request("r", pb.SubscriptionList_STREAM, 1, 2)
	only := req.GetSubscribe().GetUpdatesOnly()
	held := nd.Bool("stalled")
	at := map[string][]cm.Leaf{}
	for _, t := range w.Targets {
		at[t] = w.Matching(t, req)
	}
	b := w.Start("1", req, held)
	nd.Quiesce()
	for i := 0; i < nd.Param("post", 2); i++ {
		w.Write(fmt.Sprint("post", i), ops)
		nd.Quiesce()
		if held && nd.Bool(fmt.Sprint("resume", i)) {
			b.Release()
			held = false
			nd.Quiesce()
		}
		if !held {
			check(b, only, at)
		}
	}
	b.Release()
	nd.Quiesce()
	check(b, only, at)
	nd.Assert(!b.Done, "the subscription goes on")
	b.Cancel()
	nd.Quiesce()
	nd.Assert(b.Done, "the subscription ends with its stream")
}

// check asserts what b received until now.
func check(b *sv.Sub, only bool, at map[string][]cm.Leaf) {
	nd.Assert(sv.Syncs(b.St.Got) == 1, "exactly one sync marker")
	if only {
		nd.Assert(sv.IsSync(b.St.Got[0]), "the sync marker comes first")
		// What did not change is not sent: the replay starts from the content at the subscription.
		got := b.W.ReplayFrom(at, b.St.Got)
		for _, t := range b.W.Targets {
			cm.CheckSame(sv.Filter(t, got[t], b.Req), b.W.Matching(t, b.Req), false, "the replayed responses")
		}
		return
	}
	for _, t := range b.W.Targets {
		b.CheckSnapshot(t, at[t])
	}
	b.CheckConverged("the replayed responses")
}

var names = []string{"a", "b"}

// step is one change over a small alphabet.
func step(w *sv.World, name string, i int) {
	w.Tick()
	ts := int64(10 + i)
	v := hx.IntVal(int64(100 + i))
	a := names[nd.Choose(name+".e", 2)]
	switch nd.Choose(name, 6) {
	case 0:
		w.C.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", a}, v))
	case 1:
		w.C.GnmiUpdate(cm.Del("t", ts, 0, []string{"c", a}))
	case 2:
		w.C.GnmiUpdate(cm.Del("t", ts, 0, []string{a}))
	case 3:
		w.C.Reset("t")
	case 4:
		w.C.GnmiUpdate(cm.AtomicNoti("t", ts, []string{"c", a}, []string{"x", "y"}, cm.Ints(1, int64(100+i))))
	case 5:
		n := cm.Noti("t", ts, 0, []string{a}, v)
		n.Prefix.Origin = "c"
		w.C.GnmiUpdate(n)
	}
}

// HarnessStall: longer histories over a small alphabet with the subscriber stalled and resumed at any step.
//
//nd:harness prop=C04 mode=pb preempt=0 quick:post=3 quick:time=40 thorough:post=5 thorough:time=3000 maxpaths=3000000
func HarnessStall() {
	w := sv.New([]string{"t"}, nil)
	step(w, "pre", 0)
	req := hx.Sub([]string{"t", "*"}[nd.Choose("target", 2)], pb.SubscriptionList_STREAM, nd.Bool("updatesOnly"), [][]*pb.Path{
		{hx.Elems()}, {hx.Elems("c")}, {hx.Elems("*", "a")}, {hx.Elems("c", "a"), hx.Elems("*", "b")}}[nd.Choose("paths", 4)]...)
	only := req.GetSubscribe().GetUpdatesOnly()
	at := map[string][]cm.Leaf{"t": w.Matching("t", req)}
	held := nd.Bool("stalled")
	b := w.Start("1", req, held)
	nd.Quiesce()
	for i := 1; i <= nd.Param("post", 3); i++ {
		if nd.Bool(fmt.Sprint("toggle", i)) {
			if held {
				b.Release()
			} else {
				b.Hold()
			}
			held = !held
			nd.Quiesce()
		}
		step(w, fmt.Sprint("s", i), i)
		nd.Quiesce()
		if !held {
			check(b, only, at)
		}
	}
	b.Release()
	nd.Quiesce()
	check(b, only, at)
}

var quiet = cache.WithExcludedMeta([]string{metadata.Sync, metadata.Connected, metadata.ConnectedAddr, metadata.ConnectError, metadata.AddCount,
	metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount,
	metadata.SuppressedCount, metadata.LatestTimestamp, metadata.Size, metadata.ServerName})

func race(only bool, target string, held bool, writers ...func(c *cache.Cache)) {
	w := sv.New([]string{"t", "u"}, []cache.Option{quiet})
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	b := w.Make("1", hx.Sub(target, pb.SubscriptionList_STREAM, only, hx.Elems("c")), held)
	nd.Explore(true)
	go b.Run()
	for _, f := range writers {
		f := f
		go f(w.C)
	}
	nd.Quiesce()
	nd.Explore(false)
	b.Release()
	nd.Quiesce()
	nd.Assert(!b.Done, "the subscription goes on")
	nd.Assert(sv.Syncs(b.St.Got) == 1, "exactly one sync marker")
	if only { // what the subscription missed before it was registered is unknown
		nd.Assert(sv.IsSync(b.St.Got[0]), "the sync marker comes first")
	} else {
		b.CheckConverged("the replayed responses")
	}
	b.Cancel()
	nd.Quiesce()
}

func upd(t string, ts int64, e string, v int64) func(c *cache.Cache) {
	return func(c *cache.Cache) { c.GnmiUpdate(cm.Noti(t, ts, 0, []string{"c", e}, hx.IntVal(v))) }
}

func del(t string, ts int64, e string) func(c *cache.Cache) {
	return func(c *cache.Cache) { c.GnmiUpdate(cm.Del(t, ts, 0, []string{"c", e})) }
}

func seq(fs ...func(c *cache.Cache)) func(c *cache.Cache) {
	return func(c *cache.Cache) {
		for _, f := range fs {
			f(c)
		}
	}
}

// HarnessRace: every interleaving of one change with the start of a subscription.
//
//nd:harness prop=C04 mode=dpor quick:time=40 thorough:time=3000 maxpaths=50000000
func HarnessRace() {
	race(false, "t", nd.Param("held", 1) == 1, []func(c *cache.Cache){upd("t", 11, "a", 2), upd("t", 11, "b", 2), del("t", 11, "a")}[nd.Choose("op", 3)])
}

// HarnessRaceUnstalled: the same with a subscriber that takes what it is sent, few preemptions.
//
//nd:harness prop=C04 mode=pb quick:preempt=1 quick:time=30 thorough:preempt=3 thorough:time=3000 maxpaths=50000000
func HarnessRaceUnstalled() {
	race(nd.Bool("updatesOnly"), "t", false, []func(c *cache.Cache){upd("t", 11, "a", 2), upd("t", 11, "b", 2), del("t", 11, "a")}[nd.Choose("op", 3)])
}

// HarnessRaceReadd: every interleaving of a delete and an update of the deleted leaf with the start of a subscription.
//
//nd:harness prop=C04 mode=dpor quick:time=100 thorough:time=3000 maxpaths=50000000
func HarnessRaceReadd() {
	race(false, "t", true, seq(del("t", 11, "a"), upd("t", 12, "a", 3)))
}

// HarnessRaceReset: every interleaving of a reset with the start of a subscription.
//
//nd:harness prop=C04 mode=dpor quick:time=100 thorough:time=3000 maxpaths=50000000
func HarnessRaceReset() {
	race(false, "t", true, func(c *cache.Cache) { c.Reset("t") })
}

// HarnessRaceTwo: changes of two targets with the start of a subscription to all targets.
//
//nd:harness prop=C04 mode=pb quick:preempt=1 quick:time=30 thorough:preempt=3 thorough:time=3000 maxpaths=50000000
func HarnessRaceTwo() {
	race(false, "*", true, upd("t", 11, "a", 2), upd("u", 11, "a", 2))
}

// HarnessRaceSame: two writers of the same target with a subscription.
//
//nd:harness prop=C04 mode=pb quick:preempt=1 quick:ops=2 quick:time=30 thorough:preempt=3 thorough:time=3000 maxpaths=50000000
func HarnessRaceSame() {
	race(false, "t", true, upd("t", 11, "a", 2), []func(c *cache.Cache){del("t", 12, "a"), upd("t", 12, "a", 3), func(c *cache.Cache) { c.Reset("t") }}[nd.Choose("op", nd.Param("ops", 3))])
}
