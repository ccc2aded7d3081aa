// Package c02 decides C02: the cache keeps the newest value per leaf (timestamp discipline).
package c02

import (
	"errors"
	"fmt"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

type world struct {
	c *cache.Cache
	m cm.Model
}

func newWorld(thr int64, event bool) *world {
	w := &world{}
	var opts []cache.Option
	if thr != 0 {
		opts = append(opts, cache.WithFutureThreshold(time.Duration(thr)))
	}
	if !event {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	w.m.Event = event
	w.m.Thr = thr
	w.c = cache.New([]string{"t", "other"}, opts...)
	w.m.Now = cm.TS("now")
	cm.Clock(w.m.Now)
	return w
}

func (w *world) check() {
	cm.CheckSame(cm.Content(w.c, "t"), w.m.L, true, "the cache holds exactly the newest accepted updates")
}

func (w *world) checkErr(err error, r cm.Result) {
	switch r {
	case cm.Stale:
		nd.Assert(errors.Is(err, cache.ErrStale), "an update older than or identical to the stored one is rejected as stale")
	case cm.Future:
		nd.Assert(errors.Is(err, cache.ErrFuture), "an update too far ahead of clock and latest timestamp is rejected as future")
	case cm.Conflict:
		nd.Assert(err != nil, "an update that conflicts with the tree is an error")
	default:
		nd.Assert(err == nil, "an update that is newer, or different at the same timestamp, is accepted")
	}
}

func (w *world) update(name string, p []string) cm.Result {
	l := cm.Leaf{P: p, TS: cm.TS(name + ".ts"), V: cm.Ints(nd.Int64(name + ".v"))}
	r := w.m.Update(l)
	w.checkErr(w.c.GnmiUpdate(cm.Noti("t", l.TS, 0, p, l.V[0])), r)
	return r
}

// HarnessLeaf: any sequence of updates, deletes and atomic groups on one path.
//
//nd:harness prop=C02 quick:k=4 thorough:k=5 quick:time=45 thorough:time=1500
func HarnessLeaf() {
	w := newWorld(0, nd.Bool("event"))
	p := []string{"a", "b"}
	for i := 0; i < nd.Param("k", 3); i++ {
		name := fmt.Sprintf("s%d", i)
		switch nd.Choose(name, 3) {
		case 0:
			r := w.update(name, p)
			nd.CoverIf(r == cm.Stale, "stale")
			nd.CoverIf(r == cm.Replaced, "replaced")
		case 1:
			ts := cm.TS(name + ".ts")
			n := w.m.Delete(p[:1], ts)
			nd.Assert(w.c.GnmiUpdate(cm.Del("t", ts, 0, p[:1])) == nil, "a delete is accepted")
			nd.CoverIf(n == 0 && len(w.m.L) > 0, "a leaf newer than the delete survives")
			nd.CoverIf(n > 0, "deleted")
		case 2:
			l := cm.Leaf{P: p, Atomic: true, TS: cm.TS(name + ".ts"), Sub: []string{"x", "y"}, V: cm.Ints(nd.Int64(name+".v0"), nd.Int64(name+".v1"))}
			r := w.m.Update(l)
			w.checkErr(w.c.GnmiUpdate(cm.AtomicNoti("t", l.TS, p, l.Sub, l.V)), r)
		}
		w.check()
	}
}

// HarnessTree: updates and wildcard deletes over arbitrary paths.
//
//nd:harness prop=C02 quick:k=3 thorough:k=4 quick:time=60 thorough:time=1500
func HarnessTree() {
	w := newWorld(0, true)
	k := nd.Param("k", 3)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("s%d", i)
		if i == k-1 || nd.Bool(name+".del") {
			q := cm.Elems(name+".q", 2, true)
			ts := cm.TS(name + ".ts")
			n := w.m.Delete(q, ts)
			cut := nd.Choose(name+".cut", len(q)+1)
			nd.Assert(w.c.GnmiUpdate(cm.Del("t", ts, cut, q)) == nil, "a delete is accepted")
			nd.CoverIf(n > 0 && len(w.m.L) > 0, "some leaves deleted, some not")
		} else {
			w.update(name, cm.Elems(name+".p", 2, false))
		}
		w.check()
	}
}

// HarnessFuture: the future threshold with any clock and threshold.
//
//nd:harness prop=C02 quick:k=3 thorough:k=5 quick:time=45 thorough:time=1500
func HarnessFuture() {
	thr := nd.Int64("thr")
	nd.Assume(nd.And(thr >= 0, thr < 1<<60))
	if nd.Bool("off") {
		thr = 0
	}
	w := newWorld(thr, false)
	paths := [][]string{{"a"}, {"b", "c"}}
	for i := 0; i < nd.Param("k", 4); i++ {
		name := fmt.Sprintf("s%d", i)
		if i > 0 {
			w.m.Now = cm.TS(name + ".now") // the clock may jump either way
			cm.Clock(w.m.Now)
		}
		op := nd.Choose(name+".p", 3)
		if op == 2 {
			w.c.Reset("t")
			w.m.L, w.m.Latest = nil, 0
			continue
		}
		r := w.update(name, paths[op])
		nd.CoverIf(r == cm.Future, "future")
		nd.CoverIf(nd.And(r == cm.Replaced && w.m.Thr != 0, w.m.L[0].TS > w.m.Now), "replaced ahead of the clock")
	}
	w.check()
}

// HarnessEncoding: the latest accepted timestamp counts whatever the encoding of the path.
//
//nd:harness prop=C02 quick:time=30 thorough:time=600
func HarnessEncoding() {
	thr := nd.Int64("thr")
	nd.Assume(nd.And(thr > 0, thr < 1<<60))
	w := newWorld(thr, false)
	enc := nd.Choose("enc", 5)
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("s%d", i)
		l := cm.Leaf{P: []string{"a", "b"}, TS: cm.TS(name + ".ts"), V: cm.Ints(nd.Int64(name + ".v"))}
		n := &pb.Notification{Timestamp: l.TS, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: &pb.Path{}, Val: l.V[0]}}}
		switch enc {
		case 0:
			n.Update[0].Path.Elem = hx.PElems(l.P)
		case 1:
			n.Update[0].Path.Element = l.P
		case 2:
			n.Prefix.Elem = hx.PElems(l.P)
		case 3:
			n.Prefix.Origin = "a"
			n.Update[0].Path.Element = []string{"b"}
		case 4:
			n.Prefix.Element = l.P
			n.Update[0].Path = nil
		}
		r := w.m.Update(l)
		w.checkErr(w.c.GnmiUpdate(n), r)
		nd.CoverIf(r == cm.Future, "future")
	}
	w.check()
}

// HarnessMulti: a notification of several updates and deletes follows the same discipline per update.
//
//nd:harness prop=C02 quick:time=45 thorough:time=900 quick:k=2 thorough:k=3
func HarnessMulti() {
	thr := int64(0)
	if nd.Bool("thr?") {
		thr = nd.Int64("thr")
		nd.Assume(nd.And(thr > 0, thr < 1<<60))
	}
	w := newWorld(thr, false)
	paths := [][]string{{"a"}, {"b", "c"}}
	for i := 0; i < nd.Param("k", 2); i++ {
		name := fmt.Sprintf("s%d", i)
		ts := cm.TS(name + ".ts")
		n := &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: "t"}}
		wantErr := false
		nu := nd.Choose(name+".nu", 3)
		if i == 0 {
			nu = 2
		}
		for j := 0; j < nu; j++ {
			un := fmt.Sprintf("%s.u%d", name, j)
			p := paths[nd.Choose(un, 2)]
			v := nd.Int64(un + ".v")
			n.Update = append(n.Update, hx.Upd(hx.IntVal(v), p...))
			switch w.m.Update(cm.Leaf{P: p, TS: ts, V: cm.Ints(v)}) {
			case cm.Stale, cm.Future:
				wantErr = true
			}
		}
		if i > 0 && nd.Bool(name+".del") {
			p := [][]string{{"a"}, {"*"}}[nd.Choose(name+".dp", 2)]
			n.Delete = append(n.Delete, hx.Elems(p...))
			w.m.Delete(p, ts)
		}
		err := w.c.GnmiUpdate(n)
		nd.Assert((err != nil) == wantErr, "an error is returned exactly when one of the updates is rejected")
		w.check()
		nd.CoverIf(wantErr && nu == 2, "one update rejected")
	}
}
