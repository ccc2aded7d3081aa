// Package c15 decides C15: per-target metadata counters and latency statistics are truthful.
package c15

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

type world struct {
	c   *cache.Cache
	m   cm.Model
	now int64
}

func newWorld(opts ...cache.Option) *world {
	w := &world{c: cache.New([]string{"t"}, opts...), now: 1 << 60}
	w.m.Event = true
	w.tick()
	return w
}

// tick advances the clock, which is ahead of all target timestamps.
func (w *world) tick() {
	w.now += 1000
	cm.Clock(w.now)
	w.m.Now = w.now
	latency.Now = func() time.Time { return time.Unix(0, w.now) }
}

func (w *world) get(name string) int64 {
	md := w.c.Metadata()["t"]
	nd.Assert(md != nil, "metadata of the target")
	v, err := md.GetInt(name)
	nd.Assert(err == nil, "the counter "+name+" is set")
	return v
}

type counts struct{ upd, supp, stale, fut, empty int64 }

func (w *world) counts() counts {
	return counts{w.get(metadata.UpdateCount), w.get(metadata.SuppressedCount), w.get(metadata.StaleCount), w.get(metadata.FutureCount), w.get(metadata.EmptyCount)}
}

// leaves checks the leaf counters against the content.
func (w *world) leaves() {
	n := int64(len(cm.Content(w.c, "t")))
	nd.Assert(n == int64(len(w.m.L)), "the content is that of the model")
	nd.Assert(w.get(metadata.LeafCount) == n, "the leaf count is the number of non-metadata leaves stored")
	nd.Assert(w.get(metadata.AddCount)-w.get(metadata.DelCount) == n, "the leaf count is leaves added minus leaves deleted since the last reset")
	nd.Assert(w.get(metadata.AddCount) == w.m.Adds, "leaves added")
	nd.Assert(w.get(metadata.DelCount) == w.m.Dels, "leaves deleted")
}

// exported is the value of a metadata leaf in the tree.
func (w *world) exported(name string) (v *pb.TypedValue, ok bool) {
	w.c.Query("t", metadata.Path(name), func(_ []string, _ *ctree.Leaf, x interface{}) error {
		v, ok = x.(*pb.Notification).GetUpdate()[0].GetVal(), true
		return nil
	})
	return
}

// refreshed checks what a refresh exports.
func (w *world) refreshed() {
	for _, k := range []string{metadata.LeafCount, metadata.AddCount, metadata.DelCount, metadata.UpdateCount, metadata.SuppressedCount, metadata.StaleCount, metadata.FutureCount, metadata.EmptyCount, metadata.LatestTimestamp} {
		v, ok := w.exported(k)
		nd.Assert(ok, "a refresh exports "+k)
		nd.Assert(v.GetIntVal() == w.get(k), "the exported "+k+" is the counter")
	}
	if w.m.Latest != 0 {
		nd.Assert(w.get(metadata.LatestTimestamp) == w.m.Latest, "the latest timestamp is the greatest accepted one")
	} else {
		nd.Assert(w.get(metadata.LatestTimestamp) <= 0, "no latest timestamp without accepted updates")
	}
}

// submit sends a notification and checks that each of its updates is counted exactly once.
func (w *world) submit(n *pb.Notification, before cm.Model) {
	c0 := w.counts()
	err := w.c.GnmiUpdate(n)
	c1 := w.counts()
	nu, ndel := int64(len(n.Update)), int64(len(n.Delete))
	d := counts{c1.upd - c0.upd, c1.supp - c0.supp, c1.stale - c0.stale, c1.fut - c0.fut, c1.empty - c0.empty}
	errs := w.m.Errs - before.Errs
	nd.Assert(nd.Implies(errs > 0, err != nil), "an update that is not counted is returned as an error")
	if nu+ndel == 0 {
		nd.Assert(d.empty == 1 && d.upd+d.supp+d.stale+d.fut == 0, "an empty notification is counted as empty")
		return
	}
	nd.Assert(d.empty == 0, "only empty notifications are counted as empty")
	// deletes may be counted as updates too
	nd.Assert(d.upd == w.m.Upd-before.Upd || d.upd == w.m.Upd-before.Upd-ndel, "accepted updates are counted as updated")
	nd.Assert(d.supp == w.m.Supp-before.Supp, "unchanged updates are counted as suppressed")
	if n.Atomic {
		s := w.m.Stl - before.Stl
		nd.Assert(d.stale >= s && d.stale <= s*nu, "a stale group is counted as stale")
	} else {
		nd.Assert(d.stale == w.m.Stl-before.Stl, "stale updates are counted as stale")
		nd.Assert(nd.Implies(ndel == 0, d.upd+d.supp+d.stale+d.fut+errs == nu), "each update is counted exactly once")
	}
	nd.Assert(d.fut == w.m.Fut-before.Fut, "future updates are counted as future")
	var e error = cache.ErrStale
	nd.Assert(nd.Implies(nu == 1 && ndel == 0 && d.stale == 1, errors.Is(err, e)), "stale is reported")
}

// step is one notification of the target.
func (w *world) step(name string) {
	before := w.m
	ts := cm.TS(name + ".ts")
	switch nd.Choose(name, 6) {
	case 0:
		p := cm.Elems(name+".p", 2, false)
		v := cm.Ints(nd.Int64(name + ".v"))
		w.m.Update(cm.Leaf{P: p, TS: ts, V: v})
		w.submit(cm.Noti("t", ts, 0, p, v[0]), before)
	case 1:
		q := cm.Elems(name+".q", 2, true)
		w.m.Delete(q, ts)
		w.submit(cm.Del("t", ts, 0, q), before)
	case 2:
		p := cm.Elems(name+".p", 1, false)
		l := cm.Leaf{P: p, TS: ts, Atomic: true, Sub: []string{"x", "y"}, V: cm.Ints(1, nd.Int64(name+".v"))}
		w.m.Update(l)
		w.submit(cm.AtomicNoti("t", ts, p, l.Sub, l.V), before)
		nd.CoverIf(w.m.Stl > before.Stl, "stale group")
	case 3:
		w.submit(&pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: "t"}}, before)
	case 4:
		w.submit(&pb.Notification{Timestamp: ts, Atomic: true, Prefix: &pb.Path{Target: "t"}}, before)
	case 5:
		n := &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: "t"}}
		for j := 0; j < 2; j++ {
			v := nd.Int64(fmt.Sprintf("%s.v%d", name, j))
			n.Update = append(n.Update, hx.Upd(hx.IntVal(v), "m"))
			w.m.Update(cm.Leaf{P: []string{"m"}, TS: ts, V: cm.Ints(v)})
		}
		if nd.Bool(name + ".del") {
			n.Delete = append(n.Delete, hx.Elems("*"))
			w.m.Delete([]string{"*"}, ts)
		}
		w.submit(n, before)
	}
}

func (w *world) lifecycle(op int) {
	w.tick()
	switch op {
	case 0:
		w.c.Connect("t")
	case 1:
		w.c.ConnectError("t", errors.New("e"))
	case 2:
		w.c.Sync("t")
	case 3:
		w.c.Reset("t")
		w.m = cm.Model{Event: true, Now: w.now, Thr: w.m.Thr}
		c := w.counts()
		nd.Assert(c == counts{}, "a reset clears the counters")
	case 4:
		w.c.UpdateMetadata()
		w.refreshed()
	case 5:
		w.c.UpdateSize()
	}
}

// HarnessCounters: any sequence of notifications.
//
//nd:harness prop=C15 quick:k=3 thorough:k=4 quick:time=90 thorough:time=1500
func HarnessCounters() {
	w := newWorld()
	for i := 0; i < nd.Param("k", 2); i++ {
		w.step(fmt.Sprintf("s%d", i))
		w.leaves()
	}
	w.tick()
	w.c.UpdateMetadata()
	w.refreshed()
	w.leaves()
	nd.CoverIf(w.m.Supp > 0, "suppressed")
	nd.CoverIf(w.m.Dels > 0, "deleted")
}

// HarnessLife: connection-lifecycle events and refreshes among updates and deletes.
//
//nd:harness prop=C15 quick:k=4 thorough:k=5 quick:time=90 thorough:time=1500
func HarnessLife() {
	w := newWorld()
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		op := nd.Choose(name, 8)
		switch op {
		case 6:
			before := w.m
			p := []string{nd.StringN(name+".p", 1)}
			nd.Assume(p[0] != "*")
			v := cm.Ints(int64(i))
			ts := int64(10 + i)
			w.m.Update(cm.Leaf{P: p, TS: ts, V: v})
			w.submit(cm.Noti("t", ts, 0, p, v[0]), before)
		case 7:
			before := w.m
			q := []string{nd.StringN(name+".q", 1)}
			ts := int64(100)
			if nd.Bool(name + ".late") {
				w.tick()
				ts = w.now // also newer than the metadata leaves
			}
			w.m.Delete(q, ts)
			w.submit(cm.Del("t", ts, 0, q), before)
		default:
			w.lifecycle(op)
		}
		w.leaves()
	}
	w.lifecycle(4)
	w.leaves()
}

// HarnessConnect: connection errors and connects leave the leaf counters alone.
//
//nd:harness prop=C15 quick:time=20 thorough:time=300 quick:k=4 thorough:k=6
func HarnessConnect() {
	w := newWorld()
	w.m.Update(cm.Leaf{P: []string{"a"}, TS: 5, V: cm.Ints(1)})
	w.c.GnmiUpdate(cm.Noti("t", 5, 0, []string{"a"}, hx.IntVal(1)))
	for i := 0; i < nd.Param("k", 4); i++ {
		w.lifecycle(nd.Choose(fmt.Sprintf("s%d", i), 6))
		w.leaves()
	}
}

// HarnessFuture: updates rejected as future are counted as such and do not move the latest timestamp.
//
//nd:harness prop=C15 quick:time=60 thorough:time=600 quick:k=3 thorough:k=4 querytimeout=30000
func HarnessFuture() {
	thr := nd.Int64("thr")
	nd.Assume(nd.And(thr > 0, thr < 1<<60))
	w := newWorld(cache.WithFutureThreshold(time.Duration(thr)))
	w.m.Thr = thr
	w.now = nd.Int64("now")
	nd.Assume(nd.And(w.now > 0, w.now < 1<<60))
	w.tick()
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		before := w.m
		ts := cm.TS(name + ".ts")
		v := cm.Ints(int64(i))
		w.m.Update(cm.Leaf{P: []string{"a"}, TS: ts, V: v})
		w.submit(cm.Noti("t", ts, 0, []string{"a"}, v[0]), before)
	}
	w.leaves()
	w.c.UpdateMetadata()
	w.refreshed()
	nd.CoverIf(w.m.Fut > 0, "future")
}

// HarnessLatest: the latest timestamp whatever the encoding and grouping of the updates.
//
//nd:harness prop=C15 quick:time=30 thorough:time=600
func HarnessLatest() {
	w := newWorld()
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		n := &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: "t"}}
		a, b := hx.Upd(hx.IntVal(int64(i)), "a"), hx.Upd(hx.IntVal(int64(i)), "b")
		la, lb := cm.Leaf{P: []string{"a"}, TS: ts, V: cm.Ints(int64(i))}, cm.Leaf{P: []string{"b"}, TS: ts, V: cm.Ints(int64(i))}
		switch nd.Choose(name, 6) {
		case 0:
			n.Update = []*pb.Update{a}
			w.m.Update(la)
		case 1:
			n.Update = []*pb.Update{{Path: &pb.Path{Element: []string{"a"}}, Val: a.Val}}
			w.m.Update(la)
		case 2:
			n.Prefix.Elem = hx.PElems([]string{"a"})
			n.Update = []*pb.Update{{Val: a.Val}}
			w.m.Update(la)
		case 3:
			n.Update = []*pb.Update{a, b}
			w.m.Update(la)
			w.m.Update(lb)
		case 4:
			n.Update = []*pb.Update{a}
			n.Delete = []*pb.Path{hx.Elems("b")}
			w.m.Update(la)
			w.m.Delete([]string{"b"}, ts)
		case 5:
			n.Prefix.Elem = hx.PElems([]string{"a"})
			n.Atomic = true
			n.Update = []*pb.Update{hx.Upd(hx.IntVal(int64(i)), "x")}
			w.m.Update(cm.Leaf{P: []string{"a"}, TS: ts, Atomic: true, Sub: []string{"x"}, V: cm.Ints(int64(i))})
		}
		w.c.GnmiUpdate(n)
	}
	w.leaves()
	w.tick()
	w.c.UpdateMetadata()
	w.refreshed()
}

// stats collects what latency exports.
type stats map[string]int64

func (s stats) SetInt(name string, v int64) error { s[name] = v; return nil }

// HarnessLatency: the statistics of each window lie within the latencies observed in it.
//
//nd:harness prop=C15 quick:periods=3 quick:samples=1 thorough:periods=4 thorough:samples=2 quick:time=60 thorough:time=1500 querytimeout=20000
func HarnessLatency() { latencies(50, false, false) }

// HarnessLatencyClock: the same with the latency computed from the timestamps.
//
//nd:harness prop=C15 quick:periods=2 quick:samples=1 thorough:periods=2 thorough:samples=2 quick:time=60 thorough:time=1500 querytimeout=20000
func HarnessLatencyClock() { latencies(30, false, true) }

// HarnessAverage: the same for the average.
//
//nd:harness prop=C15 quick:periods=2 quick:samples=2 thorough:periods=3 thorough:samples=1 quick:time=90 thorough:time=1500 quick:bits=5 thorough:bits=10 quick:querytimeout=20000 thorough:querytimeout=60000
func HarnessAverage() { latencies(nd.Param("bits", 8), true, false) }

func latencies(bits int, avg, def bool) {
	const period = int64(2000)
	size := period * int64(1+nd.Choose("size", 2))
	prec := int64(1)
	if avg {
		prec = []int64{1, 7}[nd.Choose("prec", 2)]
	}
	now := int64(1 << 40)
	latency.Now = func() time.Time { return time.Unix(0, now) }
	w := []time.Duration{time.Duration(size)}
	var given int64
	opts := &latency.Options{AvgPrecision: time.Duration(prec), ComputeFunc: func(ts, now time.Time) time.Duration { return time.Duration(given) }}
	if def {
		opts.ComputeFunc = nil
	}
	l := latency.New(w, opts)
	st := stats{}
	name := func(t latency.StatType) string { return latency.MetadataName(w[0], t) }
	np, ns := nd.Param("periods", 3), nd.Param("samples", 1)
	if nd.Bool("dense") {
		np, ns = np-1, ns+1
	}
	var hist [][]int64
	var prev int64
	var started bool
	up := avg && nd.Choose("order", 2) == 1
	l.UpdateReset(st)
	for p := 0; p < np; p++ {
		var cur []int64
		n := nd.Choose(fmt.Sprintf("n%d", p), ns+1)
		for i := 0; i < n; i++ {
			lat := nd.Int64(fmt.Sprintf("l%d.%d", p, i))
			nd.Assume(nd.And(lat > -(1<<bits), lat < 1<<bits))
			if avg {
				// the average does not depend on the order within a period: rising or falling latencies
				if started {
					nd.Assume(nd.Or(nd.And(up, lat >= prev), nd.And(!up, lat <= prev)))
				}
				prev, started = lat, true
			}
			now += period / 4
			if given = lat; def {
				l.Compute(time.Unix(0, now-lat))
			} else {
				l.Compute(time.Unix(0, now))
			}
			cur = append(cur, lat)
		}
		now += period - int64(n)*(period/4)
		hist = append(hist, cur)
		last := p == np-1
		if last && nd.Bool("final") {
			l.UpdateLast(st)
		} else {
			l.UpdateReset(st)
		}
		// the latencies observed in the window that ends now
		var in []int64
		for k := len(hist) - int(size/period); k < len(hist); k++ {
			if k >= 0 {
				in = append(in, hist[k]...)
			}
		}
		if len(in) == 0 {
			continue
		}
		lo, hi := in[0], in[0]
		for _, x := range in[1:] {
			lo = nd.IteInt(x < lo, x, lo)
			hi = nd.IteInt(x > hi, x, hi)
		}
		if v, ok := st[name(latency.Min)]; ok && !avg {
			nd.Assert(nd.And(v >= lo, v <= hi), "the exported minimum is within the latencies observed in the window")
			nd.Cover("min exported")
		}
		if v, ok := st[name(latency.Max)]; ok && !avg {
			nd.Assert(nd.And(v >= lo, v <= hi), "the exported maximum is within the latencies observed in the window")
		}
		if !avg {
			continue
		}
		if v, ok := st[name(latency.Avg)]; ok {
			nd.Cover("average exported")
			nd.Assert(nd.And(v > lo-prec, v < hi+prec), "the exported average is within the latencies observed in the window up to the precision")
		}
	}
}

// HarnessRefresh: the periodic refreshes run concurrently with the update stream.
//
//nd:harness prop=C15 mode=pb quick:preempt=1 thorough:preempt=2 race=1 quick:time=120 thorough:time=1500
func HarnessRefresh() { refresh(nd.Choose("ops", 4)) }

func refresh(ops int) {
	var excluded []string
	keep := map[string]bool{metadata.Sync: true, metadata.LeafCount: true, metadata.ConnectError: true}
	for k := range metadata.TargetIntValues {
		if !keep[k] {
			excluded = append(excluded, k)
		}
	}
	excluded = append(excluded, metadata.Connected, metadata.ConnectedAddr)
	now := int64(1 << 60)
	var mu sync.Mutex
	clock := func() time.Time { mu.Lock(); defer mu.Unlock(); now++; return time.Unix(0, now) }
	cache.Now = clock
	latency.Now = clock
	opt, err := cache.WithLatencyWindows([]string{"2s"}, 2*time.Second)
	nd.Assert(err == nil, "windows")
	c := cache.New([]string{"t"}, cache.WithExcludedMeta(excluded), opt)
	c.SetClient(func(*ctree.Leaf) {})
	up := func(i int64, p string) {
		nd.Assert(c.GnmiUpdate(cm.Noti("t", i, 0, []string{p}, hx.IntVal(i))) == nil, "accepted")
	}
	synced := false
	up(1, "a")
	if ops == 3 {
		c.Sync("t")
	}
	var wg sync.WaitGroup
	wg.Add(3)
	nd.Explore(true)
	go func() {
		defer wg.Done()
		switch ops {
		case 0:
			up(2, "b")
			c.Sync("t")
			up(3, "a")
			synced = true
		case 1:
			up(2, "a")
			c.GnmiUpdate(cm.Del("t", 3, 0, []string{"a"}))
		case 2:
			c.ConnectError("t", errors.New("x"))
			c.Connect("t")
		case 3:
			c.Reset("t")
			up(2, "b")
		}
	}()
	go func() { defer wg.Done(); c.UpdateMetadata() }()
	go func() { defer wg.Done(); c.UpdateSize() }()
	wg.Wait()
	nd.Explore(false)
	md := c.Metadata()["t"]
	n := int64(len(cm.Content(c, "t")))
	lc, _ := md.GetInt(metadata.LeafCount)
	ac, _ := md.GetInt(metadata.AddCount)
	dc, _ := md.GetInt(metadata.DelCount)
	nd.Assert(lc == n, "the leaf count is the number of leaves stored")
	nd.Assert(ac-dc == n, "the leaf count is leaves added minus leaves deleted")
	s, _ := md.GetBool(metadata.Sync)
	nd.Assert(s == synced, "a refresh does not undo a state reported by the target")
	c.UpdateMetadata()
	var leaf *pb.TypedValue
	c.Query("t", metadata.Path(metadata.LeafCount), func(_ []string, _ *ctree.Leaf, v interface{}) error {
		leaf = v.(*pb.Notification).GetUpdate()[0].GetVal()
		return nil
	})
	nd.Assert(leaf.GetIntVal() == n, "the exported leaf count is the number of leaves stored")
	nd.Observe("n", n)
}
