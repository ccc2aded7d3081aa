// Package c06 decides C06: the streaming filter is consistent with queries, one delivery per notification.
package c06

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// agree is the meaning of the filter: equal on every element both have, a glob agrees with anything.
func agree(q, p []string) bool {
	r := true
	for i := 0; i < len(q) && i < len(p); i++ {
		r = nd.And(r, nd.Or(q[i] == p[i], nd.Or(q[i] == "*", p[i] == "*")))
	}
	return r
}

type counter struct {
	n    int
	last interface{}
}

func (c *counter) Update(n interface{}) { c.n++; c.last = n }

func elems(name string, max int) []string {
	n := nd.Choose(name+".n", max+1)
	p := make([]string, n)
	for i := range p {
		p[i] = nd.StringN(fmt.Sprintf("%s.%d", name, i), 1)
	}
	return p
}

func join(a, b []string) []string { return append(append([]string{}, a...), b...) }

// HarnessOffer: a single-path match.Update against the queries of three clients, with removals.
//
//nd:harness prop=C06 quick:depth=2 thorough:depth=3 quick:pdepth=2 thorough:pdepth=3 quick:time=25 thorough:time=900
func HarnessOffer() {
	depth := nd.Param("depth", 2)
	m := match.New()
	qs := [][]string{elems("q0", depth), elems("q1", depth), elems("q2", depth)}
	// client 0 has two paths; client 1 has one, which may be the same as one of client 0's
	cs := []*counter{{}, {}}
	owner := []int{0, 0, 1}
	var rm []func()
	for i, q := range qs {
		rm = append(rm, m.AddQuery(q, cs[owner[i]]))
	}
	gone := nd.Choose("removed", 3)
	live := []bool{true, true}
	switch gone {
	case 1:
		rm[0]()
		rm[1]()
		live[0] = false
		if nd.Bool("twice") {
			rm[0]()
		}
	case 2:
		rm[2]()
		live[1] = false
	}
	p := elems("p", nd.Param("pdepth", 2))
	v := new(int)
	subscribe.UpdateNotification(m, v, &pb.Notification{Update: []*pb.Update{{Path: hx.Elems(p...)}}}, nil)
	want0 := nd.And(live[0], nd.Or(agree(qs[0], p), agree(qs[1], p)))
	want1 := nd.And(live[1], agree(qs[2], p))
	nd.Assert((cs[0].n > 0) == want0, "an update is offered to a subscriber exactly when its path agrees with one of the subscriber's paths and the subscriber is registered")
	nd.Assert((cs[1].n > 0) == want1, "an update is offered to the other subscriber exactly when its path agrees and it is registered")
	nd.Assert(cs[0].n <= 1, "a notification is offered at most once however many paths of a subscriber match")
	nd.Assert(cs[1].n <= 1, "a notification is offered at most once")
	for _, c := range cs {
		nd.Assert(c.n == 0 || c.last == interface{}(v), "the notification itself is offered")
	}
	nd.CoverIf(nd.And(want0, nd.And(agree(qs[0], p), agree(qs[1], p))), "two paths of one subscriber match")
	nd.CoverIf(nd.And(gone == 1, want1), "other subscriber unaffected by a removal")
	nd.Observe("n", cs[0].n, cs[1].n)
}

// HarnessMulti: notifications with several updates and deletes under a prefix.
//
//nd:harness prop=C06 quick:time=25 thorough:time=900 quick:np=2 thorough:np=3 quick:qd=1 thorough:qd=2
func HarnessMulti() {
	m := match.New()
	qd := nd.Param("qd", 1)
	qs := [][]string{elems("q0", 2), elems("q1", qd), elems("q2", qd)}
	cs := []*counter{{}, {}}
	owner := []int{0, 0, 1}
	for i, q := range qs {
		m.AddQuery(q, cs[owner[i]])
	}
	np := 1 + nd.Choose("np", nd.Param("np", 2))
	nu := nd.Choose("nu", np+1)
	var prefix []string
	if nd.Bool("prefix") {
		prefix = []string{nd.StringN("pre", 1)}
	}
	n := &pb.Notification{}
	want := []bool{false, false}
	for i := 0; i < np; i++ {
		p := elems(fmt.Sprintf("p%d", i), 1)
		if i < nu {
			n.Update = append(n.Update, &pb.Update{Path: hx.Elems(p...)})
		} else {
			n.Delete = append(n.Delete, hx.Elems(p...))
		}
		for j, q := range qs {
			want[owner[j]] = nd.Or(want[owner[j]], agree(q, join(prefix, p)))
		}
	}
	v := new(int)
	subscribe.UpdateNotification(m, v, n, prefix)
	for i, c := range cs {
		nd.Assert((c.n > 0) == want[i], "a notification is offered exactly when one of its paths agrees with one of the subscriber's")
		nd.Assert(c.n <= 1, "a notification is offered at most once however many of its updates match")
	}
	nd.CoverIf(nd.And(want[0], np > 1), "offered multi")
	nd.Observe("n", cs[0].n, cs[1].n)
}

// HarnessQuery: whatever a query returns is also streamed for the same path.
//
//nd:harness prop=C06 quick:time=15 thorough:time=300 quick:depth=3 thorough:depth=4
func HarnessQuery() {
	d := nd.Param("depth", 3)
	p := elems("p", d)
	for _, e := range p {
		nd.Assume(e != "*")
	}
	q := elems("q", d)
	t := &ctree.Tree{}
	if t.Add(p, 1) != nil {
		return
	}
	found := false
	t.Query(q, func([]string, *ctree.Leaf, interface{}) error { found = true; return nil })
	m := match.New()
	c := &counter{}
	m.AddQuery(q, c)
	m.Update(1, p)
	nd.Assert(!found || c.n > 0, "a leaf a query returns is also streamed for the same path")
	nd.CoverIf(found, "query returns the leaf")
	nd.Observe("f", found, c.n)
}

// HarnessServer: Server.Subscribe registers exactly the requested paths and unregisters them when it returns.
//
//nd:harness prop=C06 mode=pb preempt=0 quick:time=25 thorough:time=600
func HarnessServer() {
	c := cache.New([]string{"t"})
	s, err := subscribe.NewServer(c)
	nd.Assert(err == nil, "NewServer")
	c.SetClient(s.Update)
	ctx, cancel := context.WithCancel(context.Background())
	var paths []*pb.Path
	var qs [][]string
	for i := 0; i < 2; i++ {
		q := elems(fmt.Sprintf("q%d", i), 2)
		for _, e := range q {
			nd.Assume(e != "")
		}
		qs = append(qs, q)
		paths = append(paths, hx.Elems(q...))
	}
	st := hx.NewStream(ctx, "c", hx.Sub("t", pb.SubscriptionList_STREAM, true, paths...))
	done := make(chan error, 1)
	go func() { done <- s.Subscribe(st) }()
	nd.Quiesce()
	p := elems("p", 2)
	nd.Assume(len(p) > 0)
	for _, e := range p {
		nd.Assume(nd.And(e != "", e != "*"))
	}
	err = c.GnmiUpdate(hx.Noti("t", 10, hx.Upd(hx.IntVal(1), p...)))
	nd.Assert(err == nil, "update accepted")
	nd.Quiesce()
	want := nd.Or(agree(qs[0], p), agree(qs[1], p))
	got := 0
	for _, r := range st.Got {
		if u := r.GetUpdate(); u != nil {
			got++
			nd.Assert(u.Update[0].Duplicates == 0, "one notification is delivered without duplicates")
		}
	}
	nd.Assert((got > 0) == want, "an update is streamed exactly when its path agrees with a subscribed path")
	nd.Assert(got <= 1, "an update is streamed at most once")
	nd.CoverIf(want, "streamed")
	cancel()
	nd.Assert(<-done != nil, "Subscribe returns when the stream is cancelled")
	nd.Observe("got", got)
}

// HarnessUnsubscribe: when Subscribe has returned, its subscription is offered nothing any more, and
// another subscriber with the same paths still is.
//
//nd:harness prop=C06 mode=pb preempt=0 quick:time=25 thorough:time=600
func HarnessUnsubscribe() {
	const insert = "(*$MOD/coalesce.Queue).Insert"
	c := cache.New([]string{"t"})
	s, _ := subscribe.NewServer(c)
	c.SetClient(s.Update)
	var paths []*pb.Path
	var qs [][]string
	origin := nd.Choose("origin", 3)
	for i := 0; i < 2; i++ {
		q := elems(fmt.Sprintf("q%d", i), 2)
		for _, e := range q {
			nd.Assume(e != "")
		}
		p := hx.Elems(q...)
		if origin == 1 {
			p.Origin = "o"
		}
		qs = append(qs, q)
		paths = append(paths, p)
	}
	list := func() *pb.SubscribeRequest {
		r := hx.Sub("t", pb.SubscriptionList_STREAM, true, paths...)
		if origin == 2 {
			r.GetSubscribe().Prefix.Origin = "o"
		}
		return r
	}
	keep := nd.Bool("keep")
	ctx2, cancel2 := context.WithCancel(context.Background())
	other := hx.NewStream(ctx2, "c2", list())
	odone := make(chan error, 1)
	if keep {
		go func() { odone <- s.Subscribe(other) }()
		nd.Quiesce()
	}
	ctx, cancel := context.WithCancel(context.Background())
	st := hx.NewStream(ctx, "c", list())
	done := make(chan error, 1)
	go func() { done <- s.Subscribe(st) }()
	nd.Quiesce()
	cancel()
	nd.Assert(<-done != nil, "Subscribe returns when the stream is cancelled")
	p := elems("p", 2)
	nd.Assume(len(p) > 0)
	for _, e := range p {
		nd.Assume(nd.And(e != "", e != "*"))
	}
	n := hx.Noti("t", 10, hx.Upd(hx.IntVal(1), p...))
	if origin != 0 {
		n.Prefix.Origin = "o"
	}
	before := nd.Calls(insert)
	nd.Assert(c.GnmiUpdate(n) == nil, "update accepted")
	nd.Quiesce()
	want := nd.And(keep, nd.Or(agree(qs[0], p), agree(qs[1], p)))
	offered := nd.Calls(insert) - before
	nd.Assert(offered <= 1, "nothing is offered to a subscriber whose Subscribe has returned")
	nd.Assert((offered > 0) == want, "after a removal exactly the remaining subscribers are offered an update")
	nd.Assert((len(other.Got) == 2) == want, "the other subscriber with the same paths still receives the update")
	nd.Assert(len(st.Got) == 1, "nothing is sent after Subscribe returned")
	nd.CoverIf(want, "other subscriber served")
	cancel2()
	if keep {
		<-odone
	}
}

// HarnessRemoveRace: an update in flight, a removal and a registration run concurrently.
//
//nd:harness prop=C06 mode=dpor race=1 quick:time=25 thorough:time=600
func HarnessRemoveRace() {
	m := match.New()
	q := []string{nd.StringN("q", 1)}
	p := []string{nd.StringN("p", 1)}
	a, b, late := &acounter{}, &acounter{}, &acounter{}
	rm := m.AddQuery(q, a)
	m.AddQuery(q, b)
	v := new(int)
	n := &pb.Notification{Update: []*pb.Update{{Path: hx.Elems(p...)}}}
	var wg sync.WaitGroup
	wg.Add(3)
	atReturn := int32(0)
	nd.Explore(true)
	go func() { subscribe.UpdateNotification(m, v, n, nil); wg.Done() }()
	go func() { rm(); atReturn = atomic.LoadInt32(&a.n); wg.Done() }()
	go func() { m.AddQuery(q, late); wg.Done() }()
	wg.Wait()
	nd.Explore(false)
	ok := agree(q, p)
	nd.Assert(a.n == atReturn, "nothing is offered to a subscription after its removal returned")
	nd.Assert((b.n == 1) == ok, "the other subscriber with the same path is offered the update once")
	nd.Assert(nd.Or(late.n == 0, ok), "a concurrent registration is offered only what matches")
	nd.Assert(a.n <= 1 && b.n <= 1 && late.n <= 1, "at most one delivery")
	nd.CoverIf(a.n == 1, "offered before removal")
	nd.CoverIf(nd.And(ok, a.n == 0), "removed first")
	subscribe.UpdateNotification(m, v, n, nil)
	nd.Assert(a.n == atReturn, "nothing is offered to a removed subscription")
	nd.Assert((b.n == 2) == ok, "the other subscriber is offered the next update")
	nd.Assert((late.n >= 1) == ok, "the registered subscriber is offered the next update")
}

type acounter struct{ n int32 }

func (c *acounter) Update(interface{}) { atomic.AddInt32(&c.n, 1) }
