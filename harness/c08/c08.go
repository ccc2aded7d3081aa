// Package c08 decides C08: a stalled subscriber cannot stall the collector or other subscribers.
package c08

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/sv"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

var quiet = cache.WithExcludedMeta([]string{metadata.Sync, metadata.Connected, metadata.ConnectedAddr, metadata.ConnectError, metadata.AddCount,
	metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount,
	metadata.SuppressedCount, metadata.LatestTimestamp, metadata.Size, metadata.ServerName})

// entry is one expected response: an update of a leaf with its duplicates, or the delete of a leaf.
type entry struct {
	id  int // of the leaf, 0 of a delete
	p   []string
	v   []*pb.TypedValue
	ts  int64
	dup uint32
}

// client is a subscriber with the backlog it should have.
type client struct {
	b       *sv.Sub
	from    int // responses before the history
	held    bool
	flying  bool // a send is blocked
	pending []*entry
	want    []*entry
}

// event is a change of the feed.
func (c *client) event(e entry) {
	if !c.held {
		c.want = append(c.want, &e)
		return
	}
	if !c.flying { // the blocked send
		c.flying = true
		c.want = append(c.want, &e)
		return
	}
	if e.id != 0 {
		for _, p := range c.pending {
			if p.id == e.id {
				p.v, p.ts = e.v, e.ts
				p.dup++
				return
			}
		}
	}
	c.pending = append(c.pending, &e)
}

func (c *client) hold() {
	c.b.Hold()
	c.held = true
}

func (c *client) release() {
	c.b.Release()
	c.held, c.flying = false, false
	c.want = append(c.want, c.pending...)
	c.pending = nil
}

// check asserts that the responses are the expected ones.
func (c *client) check() {
	got := c.b.St.Got[c.from:]
	nd.Assert(len(got) <= len(c.want), "the backlog holds more than one entry per pending leaf and delete")
	nd.Assert(len(got) == len(c.want), "a pending leaf or delete is missing")
	used := make([]bool, len(got))
	for _, e := range c.want {
		found := false
		for i, r := range got {
			if !used[i] && is(r, e) {
				used[i], found = true, true
				break
			}
		}
		nd.Assert(found, fmt.Sprintf("no response for %v with the newest value and %d duplicates", e.p, e.dup))
	}
}

// is reports whether r is the response e.
func is(r *pb.SubscribeResponse, e *entry) bool {
	n := r.GetUpdate()
	if n == nil {
		return false
	}
	if e.id == 0 {
		return len(n.Delete) == 1 && len(n.Update) == 0 && samePath(n, n.Delete[0], e.p)
	}
	if n.Atomic {
		ok := len(n.Update) == len(e.v) && n.Update[0].Duplicates == e.dup && nd.Truth(n.Timestamp == e.ts) && samePath(n, nil, e.p)
		for i, v := range e.v {
			ok = ok && nd.Truth(cm.SameVal(n.Update[i].Val, v))
		}
		return ok
	}
	return len(n.Update) == 1 && len(n.Delete) == 0 && n.Update[0].Duplicates == e.dup && nd.Truth(n.Timestamp == e.ts) &&
		samePath(n, n.Update[0].Path, e.p) && nd.Truth(cm.SameVal(n.Update[0].Val, e.v[0]))
}

func samePath(n *pb.Notification, p *pb.Path, want []string) bool {
	var got []string
	for _, e := range n.GetPrefix().GetElem() {
		got = append(got, e.Name)
	}
	for _, e := range p.GetElem() {
		got = append(got, e.Name)
	}
	return nd.Truth(cm.Eq(got, want))
}

// returns asserts that f does not wait.
func returns(f func()) {
	done := false
	go func() {
		f()
		done = true
	}()
	nd.Quiesce()
	nd.Assert(done, "an update of the cache waits for a subscriber")
}

// world is a history with the reference model of its target.
type world struct {
	w   *sv.World
	m   cm.Model
	ids []int
	p   [][]string
	n   int
	cs  []*client
}

func (x *world) emit(e entry) {
	for _, c := range x.cs {
		c.event(e)
	}
}

func (x *world) id(p []string) int {
	for i, q := range x.p {
		if nd.Truth(cm.Eq(p, q)) {
			return x.ids[i]
		}
	}
	x.n++
	x.p = append(x.p, p)
	x.ids = append(x.ids, x.n)
	return x.n
}

func (x *world) update(ts int64, p []string, v *pb.TypedValue) {
	x.w.Tick()
	r := x.m.Update(cm.Leaf{P: p, TS: ts, V: []*pb.TypedValue{v}})
	returns(func() { x.w.C.GnmiUpdate(cm.Noti("t", ts, 0, p, v)) })
	if r == cm.Added || r == cm.Replaced {
		x.emit(entry{id: x.id(p), p: p, v: []*pb.TypedValue{v}, ts: ts})
	}
	if r == cm.Suppressed { // not announced, but stored
		for _, c := range x.cs {
			for _, e := range c.pending {
				if e.id == x.id(p) {
					e.ts = ts
				}
			}
		}
	}
}

func (x *world) atomic(ts int64, p []string) {
	x.w.Tick()
	l := cm.Leaf{P: p, TS: ts, V: cm.Ints(1, ts), Atomic: true, Sub: []string{"x", "y"}}
	r := x.m.Update(l)
	returns(func() { x.w.C.GnmiUpdate(cm.AtomicNoti("t", ts, p, l.Sub, l.V)) })
	if r == cm.Added || r == cm.Replaced {
		x.emit(entry{id: x.id(p), p: p, v: l.V, ts: ts})
	}
}

func (x *world) delete(ts int64, q []string) {
	x.w.Tick()
	before := append([]cm.Leaf{}, x.m.L...)
	x.m.Delete(q, ts)
	returns(func() { x.w.C.GnmiUpdate(cm.Del("t", ts, 0, q)) })
	for _, l := range before {
		if x.m.Find(l.P) < 0 {
			x.emit(entry{p: l.P})
			for i, p := range x.p { // another leaf from now on
				if nd.Truth(cm.Eq(p, l.P)) {
					x.p = append(append([][]string{}, x.p[:i]...), x.p[i+1:]...)
					x.ids = append(append([]int{}, x.ids[:i]...), x.ids[i+1:]...)
					break
				}
			}
		}
	}
}

func start(so ...subscribe.Option) *world {
	return &world{w: sv.New([]string{"t"}, []cache.Option{quiet}, so...), m: cm.Model{Event: true}}
}

func (x *world) subscribe(name string, only bool) *client {
	c := &client{b: x.w.Start(name, hx.Sub([]string{"t", "*"}[nd.Choose(name+".target", 2)], pb.SubscriptionList_STREAM, only, hx.Elems("*")), false)}
	nd.Quiesce()
	nd.Assert(sv.Syncs(c.b.St.Got) == 1, "exactly one sync marker")
	c.from = len(c.b.St.Got)
	x.cs = append(x.cs, c)
	return c
}

// HarnessBacklog: histories with two subscribers that stall and resume at any step, with symbolic values and
// timestamps.
//
//nd:harness prop=C08 mode=pb preempt=0 quick:n=3 quick:time=60 thorough:n=5 thorough:time=3000 maxpaths=5000000
func HarnessBacklog() {
	x := start(subscribe.WithStats())
	if nd.Bool("pre") {
		x.update(5, []string{"a"}, hx.IntVal(1))
	}
	c1, c2 := x.subscribe("1", nd.Bool("updatesOnly")), x.subscribe("2", false)
	c1.hold()
	for i := 0; i < nd.Param("n", 3); i++ {
		name := fmt.Sprint("s", i)
		e := []string{"a", "b"}[nd.Choose(name+".e", 2)]
		ts := int64(10 + i)
		switch nd.Choose(name, 6) {
		case 0:
			x.update(cm.TS(name+".ts"), []string{e}, hx.IntVal(nd.Int64(name+".v")))
		case 1:
			x.update(ts, []string{e}, hx.IntVal(ts))
		case 2:
			x.delete(ts, []string{e})
		case 3:
			x.delete(ts, []string{"*"})
		case 4:
			x.atomic(ts, []string{e})
		case 5:
			if c1.held {
				c1.release()
				c2.hold()
			} else {
				c1.hold()
				if c2.held {
					c2.release()
				}
			}
			nd.Quiesce()
		}
		for _, c := range x.cs {
			if !c.held {
				c.check()
			}
		}
	}
	for _, c := range x.cs {
		c.release()
	}
	nd.Quiesce()
	c1.check()
	c2.check()
	nd.Assert(!c1.b.Done && !c2.b.Done, "a slow subscription goes on")
	c1.b.Cancel()
	c2.b.Cancel()
	nd.Quiesce()
}

// HarnessCount: many updates of few leaves while stalled.
//
//nd:harness prop=C08 mode=pb preempt=0 quick:n=7 quick:time=20 thorough:n=11 thorough:time=1000 maxpaths=5000000
func HarnessCount() {
	x := start()
	x.update(5, []string{"a"}, hx.IntVal(1))
	c := x.subscribe("1", false)
	c.hold()
	for i := 0; i < nd.Param("n", 7); i++ {
		ts := int64(10 + i)
		switch nd.Choose(fmt.Sprint("s", i), 3) {
		case 0:
			x.update(ts, []string{"a"}, hx.IntVal(ts))
		case 1:
			x.update(ts, []string{"b"}, hx.IntVal(ts))
		case 2:
			x.delete(ts, []string{"a"})
		}
	}
	c.release()
	nd.Quiesce()
	c.check()
	c.b.Cancel()
	nd.Quiesce()
}

// HarnessOps: while a subscriber is stalled in any phase of any mode, no operation of the cache, of the server or
// of another subscriber waits.
//
//nd:harness prop=C08 mode=pb preempt=0 quick:ops=2 quick:time=40 thorough:ops=3 thorough:time=2000 maxpaths=5000000
func HarnessOps() {
	var so []subscribe.Option
	if nd.Bool("stats") {
		so = append(so, subscribe.WithStats())
	}
	w := sv.New([]string{"t", "u"}, nil, so...)
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	mode := []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, pb.SubscriptionList_STREAM}[nd.Choose("mode", 3)]
	only := mode == pb.SubscriptionList_STREAM && nd.Bool("updatesOnly")
	b := w.Make("1", hx.Sub([]string{"t", "*"}[nd.Choose("target", 2)], mode, only, hx.Elems("*")), false)
	sent, stall := 0, nd.Choose("stalled send", 3)
	hook := b.St.OnSend
	b.St.OnSend = func(r *pb.SubscribeResponse) error {
		if sent == stall {
			b.Hold()
		}
		sent++
		return hook(r)
	}
	go b.Run()
	nd.Quiesce()
	o := w.Start("2", hx.Sub("*", pb.SubscriptionList_STREAM, false, hx.Elems("c")), false)
	nd.Quiesce()
	nd.Assert(sv.Syncs(o.St.Got) == 1, "a new subscription waits for a stalled one")
	for i := 0; i < nd.Param("ops", 2); i++ {
		name := fmt.Sprint("op", i)
		ts := int64(10 + i)
		w.Tick()
		returns(func() {
			switch nd.Choose(name, 8) {
			case 0:
				w.C.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", "a"}, hx.IntVal(ts)))
			case 1:
				w.C.GnmiUpdate(cm.Del("t", ts, 0, []string{"c"}))
			case 2:
				w.C.Reset("t")
			case 3:
				w.C.Remove("t")
				w.C.Add("t")
			case 4:
				w.C.UpdateMetadata()
				w.C.UpdateSize()
			case 5:
				w.S.ClientStats()
				w.S.TypeStats()
				w.S.TargetStats()
			case 6:
				w.C.Sync("t")
			case 7:
				n := hx.Noti("u", ts, hx.Upd(hx.IntVal(ts), "c", "a"), hx.Upd(hx.IntVal(ts), "c", "d"))
				w.C.GnmiUpdate(n)
			}
		})
		got := o.W.Replay(o.St.Got)
		for _, t := range w.Targets {
			cm.CheckSame(sv.Filter(t, got[t], o.Req), w.Matching(t, o.Req), false, "the other subscriber")
		}
	}
	if nd.Bool("cancel") {
		o.Cancel()
		nd.Quiesce()
		nd.Assert(o.Done, "the end of a subscription waits for another one")
	}
	b.Cancel()
	nd.Quiesce()
	nd.Assert(b.Done, "a stalled subscription ends with its stream")
}

const timeout = 10 * time.Second

// HarnessTimeout: a send that stays blocked longer than the timeout ends the subscription with an error, in every
// mode and phase; shorter stalls and idle times do not.
//
//nd:harness prop=C08 mode=pb preempt=0 quick:time=30 thorough:time=1000 maxpaths=5000000
func HarnessTimeout() {
	w := sv.New([]string{"t"}, []cache.Option{quiet}, subscribe.WithTimeout(timeout))
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	mode := []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, pb.SubscriptionList_STREAM}[nd.Choose("mode", 3)]
	only := mode == pb.SubscriptionList_STREAM && nd.Bool("updatesOnly")
	b := w.Make("1", hx.Sub("t", mode, only, hx.Elems("c")), false)
	o := w.Start("2", hx.Sub("t", pb.SubscriptionList_STREAM, false, hx.Elems("c")), false)
	short := nd.Choose("short stalls", 3) // a send that is slow without being stalled, 0 is none
	stall := nd.Choose("stalled send", 5) // 4 is never
	sent := 0
	hook := b.St.OnSend
	b.St.OnSend = func(r *pb.SubscribeResponse) error {
		switch {
		case sent == stall:
			b.Hold()
		case sent < short:
			time.Sleep(timeout - 1)
		}
		sent++
		return hook(r)
	}
	go b.Run()
	settle := func() {
		nd.Quiesce()
		for i := 0; i < 2 && !b.Blocked; i++ {
			nd.Advance(timeout - 1)
			nd.Quiesce()
		}
	}
	settle()
	ts := int64(10)
	idle := nd.Bool("idle")
	for i := 0; i < 2 && !b.Done && !b.Blocked; i++ {
		if idle {
			nd.Advance(3 * timeout)
			nd.Quiesce()
			nd.Assert(!b.Done, "an idle subscription goes on")
		}
		ts++
		w.Tick()
		w.C.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", "a"}, hx.IntVal(ts)))
		if mode == pb.SubscriptionList_POLL {
			b.St.Reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
		}
		settle()
	}
	if b.Blocked {
		nd.Cover("a stalled send")
		nd.Assert(!b.Done, "a stall shorter than the timeout")
		nd.Advance(timeout - 1)
		nd.Quiesce()
		nd.Assert(!b.Done, "a stall shorter than the timeout")
		if nd.Bool("resume") {
			b.Release()
			nd.Quiesce()
			nd.Assert(!b.Done || mode == pb.SubscriptionList_ONCE && b.Err == nil, "a stall shorter than the timeout")
			stall = -1
		} else {
			nd.Advance(2)
			nd.Quiesce()
			nd.Assert(b.Done && b.Err != nil, "a send that stays blocked longer than the timeout ends the subscription with an error")
		}
	} else if mode == pb.SubscriptionList_ONCE {
		nd.Assert(b.Done && b.Err == nil, "a slow subscription")
	} else {
		nd.Assert(!b.Done, "a slow subscription goes on")
	}
	returns(func() {
		w.Tick()
		w.C.GnmiUpdate(cm.Noti("t", 100, 0, []string{"c", "a"}, hx.IntVal(100)))
	})
	nd.Assert(!o.Done, "the other subscription goes on")
	o.CheckConverged("the other subscriber")
	o.Cancel()
	b.Cancel()
	nd.Quiesce()
}

// HarnessRace: every interleaving of changes with a subscriber that is stalled, or not: the updates coalesced into
// the responses add up, and each delete is one response.
//
//nd:harness prop=C08 mode=dpor quick:time=40 thorough:time=3000 maxpaths=50000000
func HarnessRace() {
	w := sv.New([]string{"t"}, []cache.Option{quiet})
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	b := w.Start("1", hx.Sub("t", pb.SubscriptionList_STREAM, false, hx.Elems("c")), false)
	nd.Quiesce()
	from := len(b.St.Got)
	script := []string{"aa", "aaa", "abab", "aDa", "abD", "aDDa"}[nd.Choose("script", 6)]
	done := false
	if nd.Bool("stalled") {
		b.Hold()
	}
	nd.Explore(true)
	go func() {
		for i := range script {
			ts := int64(11 + i)
			if script[i] == 'D' {
				w.C.GnmiUpdate(cm.Del("t", ts, 0, []string{"c", "a"}))
			} else {
				w.C.GnmiUpdate(cm.Noti("t", ts, 0, []string{"c", script[i : i+1]}, hx.IntVal(ts)))
			}
		}
		done = true
	}()
	nd.Quiesce()
	nd.Explore(false)
	nd.Assert(done, "an update of the cache waits for a subscriber")
	b.Release()
	nd.Quiesce()
	ups, dels := 0, 0
	gone := false
	for i := range script {
		switch {
		case script[i] != 'D':
			ups++
			gone = gone && script[i] != 'a'
		case !gone:
			dels++
			gone = true
		}
	}
	n := 0
	for _, r := range b.St.Got[from:] {
		dels -= len(r.GetUpdate().GetDelete())
		for _, u := range r.GetUpdate().GetUpdate() {
			n += 1 + int(u.GetDuplicates())
		}
	}
	nd.Assert(n == ups, "the duplicate counts add up")
	nd.Assert(dels == 0, "each delete is one response")
	b.CheckConverged("the replayed responses")
	b.Cancel()
	nd.Quiesce()
}

// HarnessRaceOther: interleavings of a writer, a stalled subscriber and another one.
//
//nd:harness prop=C08 mode=dpor quick:time=30 thorough:time=3000 maxpaths=50000000
func HarnessRaceOther() {
	w := sv.New([]string{"t"}, []cache.Option{quiet}, subscribe.WithStats())
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	b := w.Start("1", hx.Sub("t", pb.SubscriptionList_STREAM, false, hx.Elems("c")), false)
	o := w.Start("2", hx.Sub("*", pb.SubscriptionList_STREAM, false, hx.Elems("c")), false)
	nd.Quiesce()
	b.Hold()
	done := false
	nd.Explore(true)
	go func() {
		w.C.GnmiUpdate(cm.Noti("t", 11, 0, []string{"c", "a"}, hx.IntVal(2)))
		w.C.GnmiUpdate(cm.Noti("t", 12, 0, []string{"c", "a"}, hx.IntVal(3)))
		done = true
	}()
	nd.Quiesce()
	nd.Explore(false)
	nd.Assert(done, "an update of the cache waits for a subscriber")
	o.CheckConverged("the other subscriber")
	b.Release()
	nd.Quiesce()
	b.CheckConverged("the replayed responses")
	b.Cancel()
	o.Cancel()
	nd.Quiesce()
}
