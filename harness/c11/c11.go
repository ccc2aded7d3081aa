// Package c11 decides C11: the coalescing queue delivers in first-insertion order with exact duplicate
// counts, loses nothing at close and always wakes its consumer.
package c11

import (
	"context"
	"fmt"
	"sync"

	"github.com/openconfig/gnmi/coalesce"
	"github.com/openconfig/gnmi/zzverif/nd"
)

type pend struct {
	v    int
	dups uint32
}

// HarnessSeq: any history of operations from one goroutine; items are arbitrary integers.
//
//nd:harness prop=C11 quick:ops=5 thorough:ops=7 quick:time=30 thorough:time=1200
func HarnessSeq() {
	q := coalesce.NewQueue()
	var m []pend
	closed := false
	ctx := context.Background()
	cctx, cancel := context.WithCancel(ctx)
	cancel()
	next := func(step string) {
		if len(m) == 0 && !closed {
			// would block: only a cancelled context may end it
			_, _, err := q.Next(cctx)
			nd.Assert(err == context.Canceled, "Next on an empty open queue ends only by its context"+step)
			nd.Cover("next cancelled")
			return
		}
		i, dups, err := q.Next(ctx)
		if len(m) == 0 {
			nd.Assert(coalesce.IsClosedQueue(err), "Next on a closed and drained queue reports the closed queue"+step)
			nd.Cover("closed reported")
			return
		}
		nd.Assert(err == nil, "Next delivers a pending item"+step)
		nd.Assert(!coalesce.IsClosedQueue(err), "not closed"+step)
		nd.Assert(i.(int) == m[0].v, "items are delivered in the order of their first pending insertion"+step)
		nd.Assert(dups == m[0].dups, "the duplicate count is the number of extra insertions"+step)
		nd.CoverIf(dups > 1, "two duplicates")
		m = m[1:]
	}
	n := nd.Param("ops", 5)
	for s := 0; s < n; s++ {
		nm := fmt.Sprintf("s%d", s)
		switch nd.Choose(nm+".op", 3) {
		case 0:
			v := nd.Int(nm + ".v")
			ok, err := q.Insert(v)
			if closed {
				nd.Assert(err != nil && coalesce.IsClosedQueue(err), "an insertion after close is refused")
				nd.Assert(!ok, "a refused insertion is not reported as new")
				nd.Cover("insert after close")
				break
			}
			nd.Assert(err == nil, "an insertion before close is accepted")
			at := -1
			for k := range m {
				if m[k].v == v {
					at = k
				}
			}
			nd.Assert(ok == (at < 0), "Insert reports whether the item was not pending")
			if at >= 0 {
				m[at].dups++
			} else {
				m = append(m, pend{v, 0})
			}
		case 1:
			next("")
		case 2:
			q.Close()
			closed = true
		}
		nd.Assert(q.Len() == len(m), "Len is the number of pending distinct items")
		nd.Assert(q.IsClosed() == closed, "IsClosed")
	}
	q.Close()
	closed = true
	for k := 0; k <= n && len(m) > 0; k++ {
		next(" (drain)")
	}
	next(" (end)")
	nd.Observe("len", q.Len())
}

type rec struct {
	v  int
	ok bool
}

// sess runs producers against one consumer and checks what was delivered.
func sess(producers, each int, closer int, second bool) {
	q := coalesce.NewQueue()
	ins := make([][]rec, producers)
	vals := make([][]int, producers)
	for p := range vals {
		for i := 0; i < each; i++ {
			vals[p] = append(vals[p], nd.Int(fmt.Sprintf("p%d.%d", p, i)))
		}
	}
	type del struct {
		v    int
		dups uint32
	}
	var got []del
	var end error
	var pw, all sync.WaitGroup
	var mu sync.Mutex
	closeCalled := false
	before := make([]int, producers) // insertions completed before Close was called
	pw.Add(producers)
	all.Add(2)
	nd.Explore(true)
	for p := 0; p < producers; p++ {
		go func(p int) {
			defer pw.Done()
			for _, v := range vals[p] {
				_, err := q.Insert(v)
				mu.Lock()
				ins[p] = append(ins[p], rec{v, err == nil})
				if err == nil && !closeCalled {
					before[p] = len(ins[p])
				}
				mu.Unlock()
			}
		}(p)
	}
	go func() {
		defer all.Done()
		for {
			i, d, err := q.Next(context.Background())
			if err != nil {
				end = err
				return
			}
			got = append(got, del{i.(int), d})
		}
	}()
	go func() {
		defer all.Done()
		if closer == 0 {
			pw.Wait()
		}
		mu.Lock()
		closeCalled = true
		mu.Unlock()
		q.Close()
		if second {
			q.Close()
		}
	}()
	all.Wait()
	pw.Wait()
	nd.Explore(false)
	nd.Assert(coalesce.IsClosedQueue(end), "the consumer is told that the queue is closed")
	// conservation per value
	for p := range ins {
		for k, r := range ins[p] {
			accepted, must, delivered := int64(0), int64(0), int64(0)
			for p2 := range ins {
				for k2, r2 := range ins[p2] {
					if r2.ok {
						accepted += nd.IteInt(r2.v == r.v, 1, 0)
						if k2 < before[p2] {
							must += nd.IteInt(r2.v == r.v, 1, 0)
						}
					}
				}
			}
			for _, d := range got {
				delivered += nd.IteInt(d.v == r.v, 1+int64(d.dups), 0)
			}
			nd.Assert(delivered <= accepted, "an item is delivered at most as often as it was inserted")
			nd.Assert(delivered >= must, "every insertion completed before the close is delivered (as an item or in a duplicate count)")
			if closer == 0 {
				nd.Assert(r.ok, "an insertion before close is accepted")
				nd.Assert(delivered == accepted, "deliveries plus duplicates equal the insertions")
			}
			_ = k
		}
	}
	for _, d := range got {
		src := false
		for p := range ins {
			for _, r := range ins[p] {
				src = nd.Or(src, nd.And(r.ok, r.v == d.v))
			}
		}
		nd.Assert(src, "only inserted items are delivered")
	}
	// order: distinct items of one producer are delivered in its insertion order
	for p := range ins {
		for k := 1; k < len(ins[p]); k++ {
			a, b := ins[p][0], ins[p][k]
			if !a.ok || !b.ok {
				continue
			}
			first := func(v int) int64 {
				r := int64(len(got))
				for i := len(got) - 1; i >= 0; i-- {
					r = nd.IteInt(got[i].v == v, int64(i), r)
				}
				return r
			}
			other := false // inserted by another producer (or earlier) as well: order is free
			for p2 := range ins {
				for k2, r := range ins[p2] {
					if !(p2 == p && (k2 == 0 || k2 == k)) {
						other = nd.Or(other, nd.Or(r.v == a.v, r.v == b.v))
					}
				}
			}
			nd.Assert(nd.Implies(nd.And(!other, a.v != b.v), first(a.v) <= first(b.v)), "items of one producer are delivered in the order of their insertion")
		}
	}
	nd.CoverIf(len(got) < producers*each, "coalesced or refused")
	nd.CoverIf(len(got) == producers*each, "all separate")
}

// HarnessDrain: the queue is closed after all insertions completed (the ONCE protocol).
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=40 thorough:time=1200 quick:each=1 thorough:each=2
func HarnessDrain() { sess(2, nd.Param("each", 1), 0, false) }

// HarnessOneProducer: one producer with several insertions, then close.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=40 thorough:time=1200 quick:each=2 thorough:each=4
func HarnessOneProducer() { sess(1, nd.Param("each", 2), 0, true) }

// HarnessClose: close at any moment.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=40 thorough:time=1200 quick:each=2 thorough:each=3
func HarnessClose() { sess(1, nd.Param("each", 2), 1, false) }

// HarnessClose2: two producers, close at any moment.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=40 thorough:time=1200 quick:each=1 thorough:each=2
func HarnessClose2() { sess(2, nd.Param("each", 1), 1, false) }

// HarnessCancel: a waiting consumer is woken by cancellation; items that were not delivered stay.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=30 thorough:time=900 quick:each=1 thorough:each=2
func HarnessCancel() {
	q := coalesce.NewQueue()
	each := nd.Param("each", 1)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(3)
	var vals []int
	for i := 0; i < each; i++ {
		vals = append(vals, nd.Int(fmt.Sprintf("v%d", i)))
	}
	got, sum := 0, uint32(0)
	var end error
	nd.Explore(true)
	go func() {
		defer wg.Done()
		for {
			_, d, err := q.Next(ctx)
			if err != nil {
				end = err
				return
			}
			got++
			sum += 1 + d
		}
	}()
	go func() {
		defer wg.Done()
		for _, v := range vals {
			q.Insert(v)
		}
	}()
	go func() {
		defer wg.Done()
		cancel()
	}()
	wg.Wait()
	nd.Explore(false)
	nd.Assert(end == context.Canceled, "a consumer with a cancelled context is told so")
	left := q.Len()
	for k := 0; k < left; k++ {
		_, d, err := q.Next(context.Background())
		nd.Assert(err == nil, "items that were not delivered are still pending")
		sum += 1 + d
	}
	nd.Assert(sum == uint32(each), "cancellation loses nothing")
	nd.CoverIf(left > 0, "left over")
	nd.CoverIf(got > 0, "delivered")
}

// HarnessWakeEach: insertions by two goroutines wake the consumer for every item, without a close.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=40 thorough:time=900
func HarnessWakeEach() {
	q := coalesce.NewQueue()
	if nd.Bool("stale") {
		q.Insert("pre")
		q.Next(context.Background())
	}
	a, b := nd.Int("a"), nd.Int("b")
	var wg sync.WaitGroup
	wg.Add(3)
	for _, v := range []int{a, b} {
		nd.Explore(true)
		go func(v int) {
			defer wg.Done()
			_, err := q.Insert(v)
			nd.Assert(err == nil, "accepted")
		}(v)
	}
	go func() {
		defer wg.Done()
		// two distinct items, or one item inserted twice in one or two deliveries
		for n := 0; n < 2; {
			i, d, err := q.Next(context.Background())
			nd.Assert(err == nil, "woken with an item")
			nd.Assert(nd.Or(i.(int) == a, i.(int) == b), "an inserted item")
			n += 1 + int(d)
		}
	}()
	wg.Wait()
	nd.Explore(false)
	nd.Assert(q.Len() == 0, "all delivered")
}

// HarnessWake: a consumer blocked in Next is woken by a single insertion, also when stale wake-up
// tokens of earlier insertions are pending.
//
//nd:harness prop=C11 mode=dpor race=1 quick:time=30 thorough:time=900
func HarnessWake() {
	q := coalesce.NewQueue()
	pre := nd.Choose("pre", 3)
	for i := 0; i < pre; i++ {
		q.Insert(i)
	}
	for i := 0; i < pre; i++ {
		q.Next(context.Background())
	}
	v := nd.Int("v")
	var wg sync.WaitGroup
	wg.Add(2)
	nd.Explore(true)
	go func() {
		defer wg.Done()
		for k := 0; k < 2; k++ {
			i, d, err := q.Next(context.Background())
			nd.Assert(err == nil, "woken with an item")
			if k == 0 {
				nd.Assert(i.(int) == v && d == 0, "the inserted item")
			} else {
				nd.Assert(i.(string) == "second" && d == 0, "the second item")
			}
		}
	}()
	go func() {
		defer wg.Done()
		q.Insert(v)
		q.Insert("second")
	}()
	wg.Wait()
	nd.Explore(false)
	nd.Cover("woken")
}
