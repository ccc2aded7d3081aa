// Package c16 decides C16: shared gRPC connections are reference-counted correctly.
package c16

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"google.golang.org/grpc"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/nd"
)

// world observes the dials, the connections and the requesters. Its own steps are atomic.
type world struct {
	m        *connection.Manager
	dialing  map[string]int
	dials    map[string]int
	failed   map[string][]error
	open     map[string]int // connections per address that are not closed
	holders  map[*grpc.ClientConn]int
	fail     func(addr string, n int) error
	waitCtx  bool
	requests int
}

func newWorld(opts ...string) *world {
	w := &world{dialing: map[string]int{}, dials: map[string]int{}, failed: map[string][]error{}, open: map[string]int{}, holders: map[*grpc.ClientConn]int{}}
	w.fail = func(string, int) error { return nil }
	gc.Closed = func(c *grpc.ClientConn) {
		nd.Atomic(func() {
			nd.Assert(gc.Closes[c] == 1, "a connection is closed exactly once")
			nd.Assert(w.holders[c] == 0, "a connection is not closed while a holder has not released it")
			w.open[gc.Addr[c]]--
		})
	}
	m, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: w.dial})
	nd.Assert(err == nil, "manager")
	w.m = m
	return w
}

func (w *world) dial(ctx context.Context, addr string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	var n int
	nd.Atomic(func() {
		w.dialing[addr]++
		n = w.dials[addr]
		w.dials[addr]++
		nd.Assert(w.dialing[addr] == 1, "at most one dial per address is in flight")
		nd.Assert(w.open[addr] == 0, "an address with an open connection is not dialled")
	})
	if w.waitCtx {
		<-ctx.Done()
	}
	nd.Yield()
	var c *grpc.ClientConn
	var err error
	nd.Atomic(func() {
		w.dialing[addr]--
		err = ctx.Err()
		if err == nil {
			err = w.fail(addr, n)
		}
		if err != nil {
			w.failed[addr] = append(w.failed[addr], err)
			return
		}
		c = gc.NewConn(addr)
		w.open[addr]++
	})
	return c, err
}

// get requests addr and checks what is handed out.
func (w *world) get(ctx context.Context, addr string) (*grpc.ClientConn, func(), error) {
	c, done, err := w.m.Connection(ctx, addr, connection.DEFAULT)
	nd.Atomic(func() {
		w.requests++
		nd.Assert(done != nil, "a release function is always returned")
		if err != nil {
			nd.Assert(c == nil, "no connection along with an error")
			own := err == ctx.Err() && err != nil
			shared := false
			for _, e := range w.failed[addr] {
				if e == err {
					shared = true
				}
			}
			nd.Assert(own || shared, "an error is that of a failed dial of the address or of the caller's context")
			return
		}
		nd.Assert(c != nil, "a connection is handed out")
		nd.Assert(gc.Addr[c] == addr, "the connection leads to the requested address")
		nd.Assert(gc.Closes[c] == 0, "the connection handed out is open")
		w.holders[c]++
	})
	return c, done, err
}

// put releases what get returned.
func (w *world) put(c *grpc.ClientConn, done func()) {
	nd.Atomic(func() {
		if c != nil {
			w.holders[c]--
		}
	})
	done()
}

func (w *world) using(c *grpc.ClientConn) {
	nd.Atomic(func() {
		if c != nil {
			nd.Assert(gc.Closes[c] == 0, "a connection in use is open")
		}
	})
}

// end checks the state once every holder has released.
func (w *world) end(addrs ...string) {
	for _, c := range gc.Conns {
		nd.Assert(gc.Closes[c] == 1, "after the last release the connection is closed")
	}
	for _, a := range addrs {
		before := w.dials[a]
		w.fail = func(string, int) error { return nil }
		w.waitCtx = false
		c, done, err := w.get(context.Background(), a)
		nd.Assert(err == nil, "a later request succeeds")
		nd.Assert(w.dials[a] == before+1, "the next request after the last release dials afresh")
		w.put(c, done)
		nd.Assert(gc.Closes[c] == 1, "and is closed again")
	}
}

// HarnessConc: concurrent holders of one address; every dial outcome; each releases once or twice, and the
// last of them requests again.
//
//nd:harness prop=C16 mode=dpor race=1 quick:threads=3 quick:time=60 thorough:threads=4 thorough:time=2400 steps=200000
func HarnessConc() {
	w := newWorld()
	n := nd.Param("threads", 2)
	e := errors.New("dial failed")
	f := []bool{nd.Bool("fail0"), nd.Bool("fail1"), nd.Bool("fail2"), nd.Bool("fail3"), nd.Bool("fail4")}
	w.fail = func(a string, k int) error {
		if k < len(f) && f[k] {
			return e
		}
		return nil
	}
	twice := nd.Choose("twice", n+1)
	again := nd.Bool("again")
	nd.Explore(true)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			c, done, err := w.get(context.Background(), "a")
			w.using(c)
			w.put(c, done)
			if i == twice {
				done()
			}
			if i == 0 && again {
				if err == nil {
					nd.Cover("requested again after a release")
				} else {
					nd.Cover("requested again after a failure")
				}
				c, d2, _ := w.get(context.Background(), "a")
				done()
				w.using(c)
				w.put(c, d2)
			}
		}()
	}
	wg.Wait()
	nd.Explore(false)
	nd.CoverIf(w.dials["a"] < w.requests, "a dial was shared")
	nd.CoverIf(w.dials["a"] == w.requests, "every request dialled")
	nd.CoverIf(len(w.failed["a"]) > 0, "a dial failed")
	w.end("a")
}

// HarnessTwoAddr: requests of two addresses do not influence each other.
//
//nd:harness prop=C16 mode=dpor race=1 quick:time=40 thorough:time=1200
func HarnessTwoAddr() {
	w := newWorld()
	e := errors.New("dial failed")
	fa, fb := nd.Bool("fail.a"), nd.Bool("fail.b")
	w.fail = func(a string, k int) error {
		if a == "a" && fa || a == "b" && fb {
			return e
		}
		return nil
	}
	second := []string{"a", "b"}[nd.Choose("second", 2)]
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		c, done, err := w.get(context.Background(), "a")
		nd.Assert((err != nil) == fa, "the outcome is that of the address")
		c2, done2, err2 := w.get(context.Background(), "b")
		nd.Assert((err2 != nil) == fb, "the outcome is that of the address ")
		w.using(c)
		w.put(c, done)
		w.using(c2)
		w.put(c2, done2)
	}()
	go func() {
		defer wg.Done()
		c, done, _ := w.get(context.Background(), second)
		w.using(c)
		w.put(c, done)
	}()
	wg.Wait()
	nd.Explore(false)
	w.end("a", "b")
}

// HarnessCancel: the dial ends with the context of the request that started it; joiners share its error, and
// a cancelled joiner does not disturb the others.
//
//nd:harness prop=C16 mode=dpor race=1 quick:time=60 thorough:time=1800
func HarnessCancel() {
	w := newWorld()
	w.waitCtx = nd.Bool("the dial waits for its context")
	ctx, cancel := context.WithCancel(context.Background())
	jctx, jcancel := context.WithCancel(context.Background())
	joinCancel := nd.Bool("joiner cancelled")
	if w.waitCtx {
		// whoever dials must be cancelled for the dial to end
		joinCancel = true
	}
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(3)
	req := func(ctx context.Context) {
		defer wg.Done()
		c, done, err := w.get(ctx, "a")
		w.using(c)
		w.put(c, done)
		if err != nil {
			done()
			nd.Cover("cancelled request")
		}
	}
	go req(ctx)
	go req(jctx)
	go func() {
		defer wg.Done()
		cancel()
		if joinCancel {
			jcancel()
		}
	}()
	wg.Wait()
	nd.Explore(false)
	jcancel()
	w.end("a")
}

// HarnessSeq: any history of requests, releases and double releases from one goroutine over two addresses,
// with any dial outcomes, against a reference count.
//
//nd:harness prop=C16 mode=pb preempt=0 quick:ops=5 quick:time=60 thorough:ops=7 thorough:time=2400 steps=400000
func HarnessSeq() {
	w := newWorld()
	e := errors.New("dial failed")
	fails := 0
	w.fail = func(a string, k int) error {
		if nd.Bool(fmt.Sprintf("fail.%s.%d", a, k)) {
			fails++
			return e
		}
		return nil
	}
	type hold struct {
		c    *grpc.ClientConn
		addr string
		done func()
		held bool
		err  error
	}
	var hs []*hold
	refs := map[string]int{}
	cur := map[string]*grpc.ClientConn{}
	n := nd.Param("ops", 6)
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	for s := 0; s < n; s++ {
		nm := fmt.Sprintf("s%d", s)
		switch op := nd.Choose(nm+".op", 3); op {
		case 0:
			a := []string{"a", "b"}[nd.Choose(nm+".addr", 2)]
			before := w.dials[a]
			c, done, err := w.get(context.Background(), a)
			if refs[a] > 0 {
				nd.Assert(err == nil && c == cur[a], "the open connection is shared")
				nd.Assert(w.dials[a] == before, "no dial for a shared connection")
			} else {
				nd.Assert(w.dials[a] == before+1, "an address without connection is dialled")
			}
			if err == nil {
				refs[a]++
				cur[a] = c
			}
			hs = append(hs, &hold{c, a, done, err == nil, err})
		case 1:
			if len(hs) == 0 {
				nd.Assume(false)
			}
			h := hs[nd.Choose(nm+".h", len(hs))]
			if h.held {
				h.held = false
				w.put(h.c, h.done)
				refs[h.addr]--
				want := 0
				if refs[h.addr] == 0 {
					want = 1
				}
				nd.Assert(gc.Closes[h.c] == want, "the last release closes the connection, an earlier one does not")
			} else {
				was := gc.Closes[h.c]
				h.done()
				if h.c != nil {
					nd.Assert(gc.Closes[h.c] == was, "a second release has no effect")
				}
				nd.Cover("release without effect")
			}
		case 2:
			a := []string{"a", "b"}[nd.Choose(nm+".addr", 2)]
			before := w.dials[a]
			c, done, err := w.m.Connection(cancelled, a, connection.DEFAULT)
			nd.Assert(c == nil && err != nil, "a cancelled request gets no connection")
			nd.Assert(w.dials[a] == before, "a cancelled request does not dial")
			hs = append(hs, &hold{nil, a, done, false, err})
		}
		for _, h := range hs {
			if h.held {
				nd.Assert(gc.Closes[h.c] == 0, "every held connection is open")
			}
		}
	}
	for _, h := range hs {
		if h.held {
			h.held = false
			w.put(h.c, h.done)
		}
	}
	w.end("a", "b")
}

// HarnessDialer: an unknown dialer is an error that leaves nothing behind; another dialer of the same
// address joins the open connection.
//
//nd:harness prop=C16 mode=pb preempt=0 time=20
func HarnessDialer() {
	w := newWorld()
	c, done, err := w.m.Connection(context.Background(), "a", "nosuch")
	nd.Assert(c == nil && err != nil, "an unknown dialer is an error")
	done()
	nd.Assert(w.dials["a"] == 0, "nothing was dialled")
	for _, d := range []map[string]connection.Dial{nil, {}, {"x": nil}} {
		m, err := connection.NewManagerCustom(d)
		nd.Assert(m == nil && err != nil, "a manager without usable dialers is refused")
	}
	w.end("a")
}
