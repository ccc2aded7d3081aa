// Package c14 decides C14: Reset and Remove clear exactly one target and announce it; targets are isolated.
package c14

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"time"
)

type world struct {
	c   *cache.Cache
	f   *cm.Feed
	now int64
	log int // feed entries checked so far
}

func newWorld(opts ...cache.Option) *world {
	w := &world{c: cache.New([]string{"t", "u"}, opts...), f: cm.NewFeed("t", "u"), now: 1 << 60}
	w.c.SetClient(w.f.Client)
	w.tick()
	return w
}

func (w *world) tick() {
	w.now += 1000
	cm.Clock(w.now)
	latency.Now = func() time.Time { return time.Unix(0, w.now) }
}

var ints = []string{metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount,
	metadata.StaleCount, metadata.FutureCount, metadata.SuppressedCount, metadata.Size}
var bools = []string{metadata.Sync, metadata.Connected}

// state is everything observable about one target.
type state struct {
	has   bool
	all   []cm.Leaf
	ints  map[string]int64
	bools map[string]bool
	strs  map[string]string
	feed  []cm.Leaf
	log   int
}

func (w *world) state(t string) state {
	s := state{has: w.c.HasTarget(t), all: cm.All(w.c, t), feed: append([]cm.Leaf{}, *w.f.T[t]...), ints: map[string]int64{}, bools: map[string]bool{}, strs: map[string]string{}}
	if md := w.c.Metadata()[t]; md != nil {
		for _, k := range append([]string{metadata.LatestTimestamp}, ints...) {
			if v, err := md.GetInt(k); err == nil {
				s.ints[k] = v
			}
		}
		for _, k := range bools {
			if v, err := md.GetBool(k); err == nil {
				s.bools[k] = v
			}
		}
		for _, k := range []string{metadata.ConnectedAddr, metadata.ConnectError} {
			if v, err := md.GetStr(k); err == nil {
				s.strs[k] = v
			}
		}
	}
	for _, n := range w.f.Log {
		if n.GetPrefix().GetTarget() == t {
			s.log++
		}
	}
	return s
}

func unchanged(a, b state) {
	nd.Assert(a.has == b.has, "the other target stays known")
	cm.CheckSame(b.all, a.all, true, "what is stored for another target")
	cm.CheckSame(b.feed, a.feed, true, "what the feed reports for another target")
	nd.Assert(a.log == b.log, "nothing is announced for another target")
	nd.Assert(len(a.ints) == len(b.ints) && len(a.bools) == len(b.bools) && len(a.strs) == len(b.strs), "the metadata of another target stays set")
	for k, v := range a.ints {
		nd.Assert(b.ints[k] == v, "metadata of another target: "+k)
	}
	for k, v := range a.bools {
		nd.Assert(b.bools[k] == v, "metadata of another target: "+k)
	}
	for k, v := range a.strs {
		nd.Assert(b.strs[k] == v, "metadata of another target: "+k)
	}
}

// write is one accepted or rejected notification of target t.
func (w *world) write(name, t string) {
	ts := cm.TS(name + ".ts")
	switch nd.Choose(name, 4) {
	case 0:
		p := cm.Elems(name+".p", 2, false)
		n := cm.Noti(t, ts, 0, p, hx.IntVal(nd.Int64(name+".v")))
		if len(p) == 2 && nd.Bool(name+".o") {
			n = cm.Noti(t, ts, 0, p[1:], hx.IntVal(nd.Int64(name+".v")))
			n.Prefix.Origin = p[0]
		}
		w.c.GnmiUpdate(n)
	case 1:
		w.c.GnmiUpdate(cm.Del(t, ts, 0, cm.Elems(name+".q", 2, true)))
	case 2:
		p := cm.Elems(name+".p", 2, false)
		w.c.GnmiUpdate(cm.AtomicNoti(t, ts, p, []string{"x", "y"}, cm.Ints(1, nd.Int64(name+".v"))))
	case 3:
		n := hx.Noti(t, ts, hx.Upd(hx.IntVal(1), cm.Elems(name+".p", 1, false)...), hx.Upd(hx.IntVal(2), cm.Elems(name+".p2", 1, false)...))
		w.c.GnmiUpdate(n)
	}
}

func (w *world) life(op int, t string) {
	w.tick()
	switch op {
	case 0:
		w.c.Connect(t)
	case 1:
		w.c.Sync(t)
	case 2:
		w.c.ConnectError(t, errors.New("e"))
	case 3:
		w.c.Connect(t)
		w.c.Sync(t)
	}
}

// exported is the value of a metadata leaf.
func (w *world) exported(t, name string) (v *pb.TypedValue) {
	w.c.Query(t, metadata.Path(name), func(_ []string, _ *ctree.Leaf, x interface{}) error {
		v = x.(*pb.Notification).GetUpdate()[0].GetVal()
		return nil
	})
	return
}

// cleared checks target t after a reset.
func (w *world) cleared(t string, before state) {
	nd.Assert(w.c.HasTarget(t), "a reset target stays known")
	nd.Assert(len(cm.Content(w.c, t)) == 0, "a reset removes all non-metadata leaves")
	n := 0
	for _, l := range *w.f.T[t] {
		if !nd.Truth(l.P[0] == "meta") {
			n++
		}
	}
	nd.Assert(n == 0, "the deletes announced by a reset cover all leaves")
	s := w.state(t)
	for _, k := range ints {
		v, ok := s.ints[k]
		nd.Assert(ok && v == 0, "a reset returns the counters to zero")
		nd.Assert(w.exported(t, k) != nil && w.exported(t, k).GetIntVal() == 0, "the exported counters are zero after a reset")
	}
	for _, k := range bools {
		v, ok := s.bools[k]
		nd.Assert(ok && !v, "a reset target is not synced and not connected")
		e, ok := w.exported(t, k).GetValue().(*pb.TypedValue_BoolVal)
		nd.Assert(ok && !e.BoolVal, "a reset target is reported as not synced and not connected")
	}
	fresh := cache.New([]string{"f"})
	fresh.UpdateMetadata()
	lt, _ := fresh.Metadata()["f"].GetInt(metadata.LatestTimestamp)
	nd.Assert(s.ints[metadata.LatestTimestamp] == lt, "a reset returns the latest timestamp to that of a new target")
	cm.CheckSame(*w.f.T[t], cm.All(w.c, t), false, "after a reset the feed reproduces the cache")
}

// removed checks target t after its removal.
func (w *world) removed(t string, from int) {
	nd.Assert(!w.c.HasTarget(t), "a removed target is unknown")
	nd.Assert(w.c.GetTarget(t) == nil, "a removed target is unknown")
	err := w.c.Query(t, []string{"*"}, func([]string, *ctree.Leaf, interface{}) error {
		nd.Fail("a query of a removed target returns nothing")
		return nil
	})
	nd.Assert(err != nil, "a removed target is unknown to queries")
	w.c.Query("*", []string{"*"}, func(_ []string, _ *ctree.Leaf, v interface{}) error {
		nd.Assert(v.(*pb.Notification).GetPrefix().GetTarget() != t, "a query of all targets returns nothing of a removed target")
		return nil
	})
	_, ok := w.c.Metadata()[t]
	nd.Assert(!ok, "a removed target has no metadata")
	whole := 0
	for _, n := range w.f.Log[from:] {
		if n.GetPrefix().GetTarget() != t {
			continue // checked by unchanged
		}
		nd.Assert(len(n.GetUpdate()) == 0, "a removal announces no updates")
		for _, d := range n.GetDelete() {
			p := append(path.ToStrings(n.GetPrefix(), true)[1:], path.ToStrings(d, false)...)
			if len(p) == 0 || (len(p) == 1 && p[0] == "*") {
				whole++
			}
		}
	}
	nd.Assert(whole == 1, "a removal announces one whole-target delete")
	nd.Assert(len(*w.f.T[t]) == 0, "the announced delete covers everything")
	log := len(w.f.Log)
	err = w.c.GnmiUpdate(cm.Noti(t, 1<<59, 0, []string{"z"}, hx.IntVal(1)))
	nd.Assert(err != nil, "an update of a removed target is refused")
	for i := 0; i < 4; i++ {
		w.life(i, t)
	}
	w.c.Reset(t)
	w.c.UpdateMetadata()
	w.c.UpdateSize()
	for _, n := range w.f.Log[log:] {
		nd.Assert(n.GetPrefix().GetTarget() != t, "nothing is announced for a removed target")
	}
	nd.Assert(!w.c.HasTarget(t), "a removed target stays unknown")
}

// HarnessReset: any history of one target, then a reset or a removal; the other target is unaffected.
//
//nd:harness prop=C14 quick:k=2 thorough:k=3 quick:time=100 thorough:time=1500
func HarnessReset() {
	w := newWorld()
	life := nd.Choose("life", 3)
	if life > 0 {
		w.life(3, "u")
		w.life(3, "t")
	}
	w.c.GnmiUpdate(cm.Noti("u", 7, 0, []string{"a", "b"}, hx.IntVal(3)))
	w.c.GnmiUpdate(cm.AtomicNoti("u", 8, []string{"g"}, []string{"x", "y"}, cm.Ints(4, 5)))
	if life == 1 {
		w.tick()
		w.c.UpdateMetadata()
		w.c.UpdateSize()
	}
	u := w.state("u")
	for i := 0; i < nd.Param("k", 2); i++ {
		w.write(fmt.Sprintf("s%d", i), "t")
	}
	unchanged(u, w.state("u"))
	if life == 2 {
		w.tick()
		w.c.UpdateMetadata()
		u = w.state("u")
	}
	w.tick()
	from := len(w.f.Log)
	before := w.state("t")
	nd.CoverIf(len(cm.Content(w.c, "t")) > 1, "several leaves")
	if nd.Bool("remove") {
		w.c.Remove("t")
		unchanged(u, w.state("u"))
		w.removed("t", from)
	} else {
		w.c.Reset("t")
		unchanged(u, w.state("u"))
		w.cleared("t", before)
		// the target is usable again
		nd.Assert(w.c.GnmiUpdate(cm.Noti("t", 1, 0, []string{"n"}, hx.IntVal(9))) == nil, "a reset target accepts updates of any age")
		cm.CheckSame(cm.Content(w.c, "t"), []cm.Leaf{{P: []string{"n"}, TS: 1, V: cm.Ints(9)}}, true, "content after a reset")
	}
}

// HarnessLife: lifecycle events, resets and removals of either target in any order.
//
//nd:harness prop=C14 quick:k=3 thorough:k=5 quick:time=60 thorough:time=1500
func HarnessLife() {
	var opts []cache.Option
	if nd.Bool("excluded") {
		opts = append(opts, cache.WithExcludedMeta([]string{metadata.ConnectError, metadata.LatestTimestamp}))
	}
	w := newWorld(opts...)
	here := map[string]bool{"t": true, "u": true}
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		t, o := "t", "u"
		if i > 0 && nd.Bool(name+".u") {
			t, o = "u", "t"
		}
		other := w.state(o)
		from := len(w.f.Log)
		w.tick()
		switch op := nd.Choose(name, 7); op {
		case 0, 1, 2:
			w.life(op, t)
			if here[t] && op < 2 {
				v, _ := w.exported(t, bools[1-op]).GetValue().(*pb.TypedValue_BoolVal)
				nd.Assert(v != nil && v.BoolVal, "the event is reported")
			}
		case 3:
			p := []string{"a", nd.StringN(name+".p", 1)}
			nd.Assume(p[1] != "*")
			err := w.c.GnmiUpdate(cm.Noti(t, int64(10+i), 0, p, hx.IntVal(int64(i))))
			nd.Assert((err == nil) == here[t], "updates are accepted exactly for known targets")
		case 4:
			before := w.state(t)
			w.c.Reset(t)
			if here[t] {
				if len(opts) == 0 {
					w.cleared(t, before)
				}
			} else {
				nd.Assert(len(w.f.Log) == from, "resetting an unknown target does nothing")
			}
		case 5:
			w.c.Remove(t)
			here[t] = false
			if !here[o] {
				break
			}
			other2 := w.state(o)
			unchanged(other, other2)
			w.removed(t, from)
			other = w.state(o)
		case 6:
			if !here[t] {
				w.c.Add(t)
				here[t] = true
				nd.Assert(len(cm.All(w.c, t)) == 0, "a target that is added again starts empty")
			}
		}
		nd.Assert(w.c.HasTarget(t) == here[t], "targets are known until removed")
		unchanged(other, w.state(o))
	}
}

// HarnessSubscribers: what streaming subscribers see of a reset and a removal.
//
//nd:harness prop=C14 mode=pb preempt=0 quick:time=60 thorough:time=600
func HarnessSubscribers() {
	cm.Clock(1 << 60)
	c := cache.New([]string{"t", "u"})
	s, err := subscribe.NewServer(c)
	nd.Assert(err == nil, "NewServer")
	c.SetClient(s.Update)
	c.GnmiUpdate(cm.Noti("t", 5, 0, []string{"a", "b"}, hx.IntVal(1)))
	c.GnmiUpdate(cm.Noti("u", 5, 0, []string{"a", "b"}, hx.IntVal(2)))
	updatesOnly := nd.Bool("updatesOnly")
	type sub struct {
		st   *hx.Stream
		err  error
		done bool
	}
	start := func(name, target string, q ...string) *sub {
		sb := &sub{st: hx.NewStream(context.Background(), name, hx.Sub(target, pb.SubscriptionList_STREAM, updatesOnly, hx.Elems(q...)))}
		go func() { sb.err = s.Subscribe(sb.st); sb.done = true }()
		return sb
	}
	q := cm.Elems("q", 2, true)
	match := nd.Truth(cm.Matches(q, []string{"a", "b"}))
	st, su, all := start("1", "t", q...), start("2", "u", q...), start("3", "*", q...)
	nd.Quiesce()
	nd.Assert(!st.done && !su.done && !all.done, "the subscriptions are running")
	count := func(b *sub, target string, del bool) int {
		n := 0
		for _, r := range b.st.Got {
			u := r.GetUpdate()
			if u == nil {
				continue
			}
			if u.GetPrefix().GetTarget() == target && (len(u.GetDelete()) > 0) == del {
				n++
			}
		}
		return n
	}
	reset := nd.Bool("reset")
	if reset {
		c.Reset("t")
		nd.Quiesce()
		nd.Assert(!st.done && !su.done && !all.done, "a reset ends no subscription")
		nd.Assert(nd.Implies(match, count(st, "t", true) > 0 && count(all, "t", true) > 0), "a reset is announced to the subscribers of its leaves")
		nd.Assert(count(all, "u", true) == 0, "a reset of one target announces no deletes of another")
		nd.CoverIf(match, "matching")
	}
	before := count(all, "t", true)
	switch nd.Choose("op", 3) {
	case 0: // removed by name
		c.Remove("t")
		nd.Quiesce()
		nd.Assert(st.done, "the removal of its target ends a single-target subscription")
		nd.Assert(st.err == nil, "the removal of its target ends a single-target subscription cleanly")
		nd.Assert(count(st, "t", true) > 0, "the removal is delivered before the subscription ends")
		nd.Assert(!all.done, "the removal of one target does not end an all-targets subscription")
		nd.Assert(count(all, "t", true) == before+1, "the removal is announced to all-targets subscribers")
		nd.Cover("removed")
	case 1: // its leaves deleted
		c.GnmiUpdate(cm.Del("t", 9, 0, []string{"a"}))
		nd.Quiesce()
		nd.Assert(!st.done && !all.done, "deleting leaves ends no subscription")
	case 2: // removed and added again: the stream still ends
		c.Remove("t")
		c.Add("t")
		c.GnmiUpdate(cm.Noti("t", 50, 0, []string{"a", "b"}, hx.IntVal(7)))
		nd.Quiesce()
		nd.Assert(st.done && st.err == nil, "the removal of its target ends a single-target subscription also if it is added again")
		if match {
			nd.Assert(count(all, "t", false) > 0, "updates of the target that was added again reach all-targets subscribers")
		}
	}
	nd.Assert(!su.done, "other subscriptions go on")
	nd.Assert(count(su, "t", true)+count(su, "t", false) == 0, "a subscriber of one target receives nothing of another")
	nd.Assert(count(su, "u", true) == 0, "no deletes of the other target")
	n := count(su, "u", false)
	c.GnmiUpdate(cm.Noti("u", 60, 0, []string{"a", "b"}, hx.IntVal(8)))
	nd.Quiesce()
	nd.Assert(nd.Implies(match, count(su, "u", false) == n+1), "other subscriptions keep receiving")
}

// HarnessConcurrent: operations on two targets do not interfere.
//
//nd:harness prop=C14 mode=dpor race=1 quick:time=100 thorough:time=1500
func HarnessConcurrent() {
	w := newWorld()
	w.c.GnmiUpdate(cm.Noti("t", 5, 0, []string{"a", "b"}, hx.IntVal(1)))
	w.c.GnmiUpdate(cm.Noti("u", 5, 0, []string{"a", "b"}, hx.IntVal(2)))
	var mu sync.Mutex
	from := len(w.f.Log)
	w.c.SetClient(func(l *ctree.Leaf) {
		mu.Lock()
		defer mu.Unlock()
		w.f.Client(l)
	})
	op, oq := nd.Choose("t", 4), nd.Choose("u", 2)
	ou := nd.Int64("v")
	nd.Assume(ou != 2)
	var wg sync.WaitGroup
	wg.Add(2)
	nd.Explore(true)
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			w.c.Remove("t")
		case 1:
			w.c.GetTarget("t").Reset()
		case 2:
			w.c.GnmiUpdate(cm.Del("t", 9, 0, []string{"a"}))
		case 3:
			w.c.Remove("t")
			w.c.Add("t")
		}
	}()
	go func() {
		defer wg.Done()
		if oq == 0 {
			nd.Assert(w.c.GnmiUpdate(cm.Noti("u", 6, 0, []string{"a", "b"}, hx.IntVal(ou))) == nil, "an update of another target is accepted")
		} else {
			w.c.Sync("u")
			nd.Assert(w.c.HasTarget("u"), "the other target stays known")
		}
	}()
	wg.Wait()
	nd.Explore(false)
	want := []cm.Leaf{{P: []string{"a", "b"}, TS: 5, V: cm.Ints(2)}}
	if oq == 0 {
		want = []cm.Leaf{{P: []string{"a", "b"}, TS: 6, V: cm.Ints(ou)}}
	}
	cm.CheckSame(cm.Content(w.c, "u"), want, true, "content of the other target")
	cm.CheckSame(*w.f.T["u"], cm.All(w.c, "u"), true, "feed of the other target")
	if op == 0 {
		w.removed("t", from)
	} else {
		nd.Assert(len(cm.Content(w.c, "t")) == 0, "cleared")
	}
	nd.Assert(len(w.f.Log) > from, "announced")
}
