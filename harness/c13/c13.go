// Package c13 decides C13: the target manager keeps a strict session discipline per target and is silent
// after Remove.
package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"google.golang.org/grpc"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

// session is what the target does when it is asked for a stream.
type session struct {
	dial, sub, send error
	dialWaits       bool // the dial ends with its context only
	resps           []*pb.SubscribeResponse
	end             error // nil: the stream stays open until its context ends
	gate            chan struct{} // when set, every step of the stream waits for a token
}

// tgt observes one target.
type tgt struct {
	name      string
	managed   bool // false before Add and after Remove returned
	script    []*session
	attempts  int // dials
	opened    int
	cur       *session
	next      int  // messages received of the current stream
	delivered int  // messages of the current stream that were reported
	connected bool // Connect reported for the current stream
	ended     bool // the current stream has ended and Reset was not reported
	open      bool // a stream is open and has not ended
	failAt    int64
	last      *session
	resets    int
	connects  int
	errs      int
	log       []string
}

func (t *tgt) say(f string, a ...any) { t.log = append(t.log, fmt.Sprintf(f, a...)) }

// want is what message i of the stream makes the manager report.
func kind(r *pb.SubscribeResponse) string {
	switch r.GetResponse().(type) {
	case *pb.SubscribeResponse_Update:
		return "update"
	case *pb.SubscribeResponse_SyncResponse:
		return "sync"
	}
	return "none"
}

type world struct {
	m  *manager.Manager
	cm *connection.Manager
	ts map[string]*tgt
}

func (t *tgt) session() *session {
	i := t.attempts - 1
	if i >= 0 && i < len(t.script) {
		return t.script[i]
	}
	return t.last
}

// allDelivered: every message received so far has been reported before the next step of the stream.
func (t *tgt) allDelivered(upto int, when string) {
	for t.delivered < upto {
		nd.Assert(kind(t.cur.resps[t.delivered]) == "none", "every received update and sync is reported before "+when)
		t.delivered++
	}
	if upto > 0 {
		nd.Assert(t.connected, "Connect is reported with the first message")
	}
}

func (w *world) known(name, what string) *tgt {
	t := w.ts[name]
	nd.Assert(t != nil, "callbacks name a target: "+what)
	nd.Assert(t.managed, "no callback after Remove returned: "+what)
	t.say("%s", what)
	return t
}

func (w *world) message(name, k string, n *pb.Notification) {
	nd.Atomic(func() {
		t := w.known(name, k)
		nd.Assert(t.connected && !t.ended, "updates and syncs come between Connect and Reset")
		for t.delivered < t.next && kind(t.cur.resps[t.delivered]) == "none" {
			t.delivered++
		}
		nd.Assert(t.delivered < t.next, "nothing is reported that was not received")
		r := t.cur.resps[t.delivered]
		nd.Assert(kind(r) == k, "messages are reported in stream order")
		if k == "update" {
			nd.Assert(r.GetUpdate() == n, "the update reported is the one received")
		}
		t.delivered++
	})
}

func newWorld(cfg manager.Config, ts ...*tgt) *world {
	w := &world{ts: map[string]*tgt{}}
	for _, t := range ts {
		w.ts[t.name] = t
		if t.last == nil {
			t.last = &session{}
		}
	}
	byAddr := func(a string) *tgt {
		// the address of target x is "x:1" (or "x:2", the second next hop)
		t := w.ts[a[:len(a)-2]]
		nd.Assert(t != nil, "only addresses of added targets are dialled")
		return t
	}
	gc.Dial = func(ctx context.Context, addr string) error {
		var s *session
		nd.Atomic(func() {
			t := byAddr(addr)
			t.attempts++
			nd.Assert(!t.open, "one stream at a time")
			t.say("dial %d", t.attempts)
			s = t.session()
		})
		if s.dialWaits {
			<-ctx.Done()
			return ctx.Err()
		}
		return s.dial
	}
	gc.Subscribe = func(ctx context.Context, c *grpc.ClientConn) (*gc.Stream, error) {
		t := byAddr(gc.Addr[c])
		s := t.session()
		nd.Assert(gc.Closes[c] == 0, "the stream is opened on an open connection")
		if s.sub != nil {
			return nil, s.sub
		}
		st := &gc.Stream{Ctx: ctx}
		sent := 0
		st.OnSend = func(r *pb.SubscribeRequest) error {
			sent++
			nd.Assert(sent == 1, "the subscription is requested once")
			nd.Assert(r.GetSubscribe().GetPrefix().GetTarget() == t.name, "the request names the target")
			if s.send != nil {
				return s.send
			}
			nd.Atomic(func() {
				nd.Assert(!t.open, "one stream at a time ")
				nd.Assert(!t.ended, "an ended stream is followed by a Reset before the next stream")
				t.open, t.connected, t.next, t.delivered, t.cur = true, false, 0, 0, s
				t.opened++
				t.say("stream %d", t.opened)
			})
			return nil
		}
		over := func(err error) (*pb.SubscribeResponse, error) {
			nd.Atomic(func() {
				t.open, t.ended = false, true
				t.failAt = nd.Now()
				t.say("end %v", err)
			})
			return nil, err
		}
		st.Next = func() (*pb.SubscribeResponse, error) {
			nd.Yield()
			nd.Atomic(func() {
				nd.Assert(t.open, "a stream is not read after it ended")
				t.allDelivered(t.next, "the next message is read")
			})
			if s.gate != nil {
				select {
				case <-s.gate:
				case <-ctx.Done():
					return over(ctx.Err())
				}
			}
			if t.next < len(s.resps) {
				nd.Atomic(func() { t.next++; t.say("msg %d", t.next) })
				return s.resps[t.next-1], nil
			}
			if s.end != nil {
				return over(s.end)
			}
			<-ctx.Done()
			return over(ctx.Err())
		}
		return st, nil
	}
	cm, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: grpc.DialContext})
	nd.Assert(err == nil, "connection manager")
	w.cm = cm
	cfg.ConnectionManager = cm
	cfg.Connect = func(name string) {
		nd.Atomic(func() {
			t := w.known(name, "Connect")
			nd.Assert(t.open && t.next == 1 && !t.connected, "Connect is reported once per stream, with its first message")
			nd.Assert(!t.ended, "an ended stream is followed by a Reset before any later Connect")
			t.connected = true
			t.connects++
		})
	}
	cfg.Reset = func(name string) {
		nd.Atomic(func() {
			t := w.known(name, "Reset")
			nd.Assert(t.ended, "one Reset per ended stream, after its end")
			t.allDelivered(t.next, "the Reset")
			t.ended, t.connected = false, false
			t.resets++
		})
	}
	cfg.Update = func(name string, n *pb.Notification) { w.message(name, "update", n) }
	cfg.Sync = func(name string) { w.message(name, "sync", nil) }
	errs := func(what string) func(string, error) {
		return func(name string, err error) {
			nd.Atomic(func() {
				t := w.known(name, what)
				nd.Assert(err != nil, "an error is reported")
				nd.Assert(!t.open && !t.ended, "the end of a session is reported after its Reset")
				t.errs++
				if t.failAt == 0 {
					t.failAt = nd.Now()
				}
			})
		}
	}
	cfg.ConnectError = errs("ConnectError")
	cfg.MonitorError = errs("MonitorError")
	m, err := manager.NewManager(cfg)
	nd.Assert(err == nil, "manager")
	w.m = m
	return w
}

func req() *pb.SubscribeRequest {
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Target: "template"}, Subscription: []*pb.Subscription{{Path: hx.Elems("a")}}}}}
}

func (w *world) add(t *tgt, more ...string) {
	r := req()
	var err error
	nd.Atomic(func() { t.managed = true })
	err = w.m.Add(t.name, &tpb.Target{Addresses: append([]string{t.name + ":1"}, more...)}, r)
	nd.Assert(err == nil, "a new target is added")
	nd.Assert(r.GetSubscribe().GetPrefix().GetTarget() == "template", "the request of the caller is not changed")
}

func (w *world) remove(t *tgt) {
	err := w.m.Remove(t.name)
	nd.Atomic(func() {
		nd.Assert(err == nil, "a managed target is removed")
		nd.Assert(!t.ended, "every ended stream was followed by a Reset")
		nd.Assert(!t.open, "the stream has ended when Remove returns")
		t.managed = false
		t.say("removed")
	})
}

// quiet checks that nothing happens any more.
func (w *world) quiet(t *tgt) {
	n := len(t.log)
	nd.Advance(5 * time.Minute)
	nd.Assert(len(t.log) == n, "nothing happens for a removed target")
	for _, c := range gc.Conns {
		nd.Assert(gc.Closes[c] == 1, "the connections are released")
	}
}

func resp(name string) *pb.SubscribeResponse {
	switch nd.Choose(name, 4) {
	case 1:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	case 2:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{}}}
	case 3:
		return &pb.SubscribeResponse{}
	}
	return upd()
}

func upd() *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: hx.Noti("", 1, hx.Upd(hx.IntVal(1), "a"))}}
}

func sync1() *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
}

var errX = errors.New("x")

func anySession(name string, msgs int) *session {
	s := &session{}
	switch nd.Choose(name+".kind", 6) {
	case 0:
		s.dial = errX
		nd.Cover("dial failure")
		return s
	case 1:
		s.sub = errX
		nd.Cover("stream cannot be opened")
		return s
	case 2:
		s.send = errX
		return s
	case 3:
		s.end = io.EOF
	case 4:
		s.end = errX
	case 5:
		nd.Cover("stream stays open")
	}
	n := nd.Choose(name+".n", msgs+1)
	for i := 0; i < n; i++ {
		s.resps = append(s.resps, resp(fmt.Sprintf("%s.m%d", name, i)))
	}
	return s
}

// maxDelay bounds the backoff: the documented maximum with its randomization.
func maxDelay() time.Duration {
	return time.Duration(float64(manager.RetryMaxDelay)*(1+manager.RetryRandomization)) + time.Second
}

// HarnessSessions: any script of sessions, one after the other; failed sessions are retried after a backoff,
// streams that stay open end by a forced reconnect, then Remove.
//
//nd:harness prop=C13 mode=pb preempt=0 quick:sessions=2 quick:msgs=2 quick:time=120 thorough:sessions=3 thorough:msgs=2 thorough:time=2400 steps=2000000
func HarnessSessions() {
	t := &tgt{name: "t"}
	n := nd.Param("sessions", 2)
	for i := 0; i < n; i++ {
		t.script = append(t.script, anySession(fmt.Sprintf("s%d", i), nd.Param("msgs", 2)))
	}
	w := newWorld(manager.Config{}, t)
	nd.Assert(w.m.Remove("t") != nil, "an unknown target cannot be removed")
	nd.Assert(w.m.Reconnect("t") != nil, "an unknown target cannot be reconnected")
	w.add(t)
	nd.Assert(w.m.Add("t", &tpb.Target{Addresses: []string{"t:1"}}, req()) != nil, "a duplicate is refused")
	for i := 0; i < n; i++ {
		nd.Advance(time.Millisecond)
		nd.Assert(t.attempts == i+1, "session by session")
		if t.open {
			nd.Assert(t.next == len(t.cur.resps), "everything sent was received")
			t.allDelivered(t.next, "the stream idles")
			nd.Assert(w.m.Reconnect("t") == nil, "a managed target can be reconnected")
			nd.Advance(time.Millisecond)
			nd.Assert(!t.open, "a forced reconnect ends the stream")
			nd.Cover("forced reconnect")
		}
		nd.Assert(!t.open && !t.ended, "an ended stream is followed by a Reset")
		nd.Assert(t.attempts == i+1, "a failed session is not retried without backoff")
		nd.Advance(time.Duration(float64(manager.RetryBaseDelay) * 0.25))
		nd.Assert(t.attempts == i+1, "a failed session is not retried without backoff ")
		for k := 0; k < 20 && t.attempts == i+1; k++ {
			// smaller than the smallest delay, so that attempts are seen one by one
			nd.Advance(manager.RetryBaseDelay * 2 / 5)
		}
		for k := 0; k < 4 && t.attempts == i+1; k++ {
			nd.Advance(maxDelay() / 4)
		}
		nd.Assert(t.attempts == i+2, "a failed session is retried after a backoff")
	}
	w.remove(t)
	w.quiet(t)
	nd.Assert(w.m.Remove("t") != nil, "a removed target cannot be removed again")
	nd.Assert(w.m.Reconnect("t") != nil, "a removed target cannot be reconnected")
	w.add(t)
	nd.Advance(time.Millisecond)
	nd.Assert(t.open, "a target added again is subscribed")
	w.remove(t)
	w.quiet(t)
}

// HarnessSessions3 is HarnessSessions with more, shorter sessions.
//
//nd:harness prop=C13 mode=pb preempt=0 sessions=3 msgs=1 quick:time=60 thorough:time=2400 steps=2000000
func HarnessSessions3() { HarnessSessions() }

// HarnessConc: while the target streams, it is reconnected, removed, and added again concurrently; timers may
// expire at any moment.
//
//nd:harness prop=C13 mode=dpor race=1 quick:time=100 quick:msgs=2 thorough:msgs=2 thorough:timers=2 thorough:time=2400 steps=2000000
func HarnessConc() {
	t := &tgt{name: "t"}
	s := &session{gate: make(chan struct{}, 4)}
	s.resps = []*pb.SubscribeResponse{upd(), sync1()}[:nd.Param("msgs", 1)]
	if nd.Bool("stream ends") {
		s.end = io.EOF
	}
	t.script = []*session{s}
	t.last = &session{resps: []*pb.SubscribeResponse{upd()}}
	w := newWorld(manager.Config{}, t)
	w.add(t)
	nd.Advance(time.Millisecond)
	nd.Assert(t.open, "the target is subscribed")
	op := nd.Choose("op", 4)
	nd.AsyncTimers(nd.Param("timers", 1))
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i <= len(s.resps); i++ {
			s.gate <- struct{}{}
		}
	}()
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			nd.Assert(w.m.Reconnect("t") == nil, "a managed target can be reconnected")
		case 1:
			w.remove(t)
		case 2:
			w.remove(t)
			w.add(t)
		case 3:
			nd.Assert(w.m.Reconnect("t") == nil, "a managed target can be reconnected")
			w.remove(t)
		}
	}()
	wg.Wait()
	nd.Explore(false)
	if t.managed {
		for i := 0; i < 10; i++ {
			nd.Advance(manager.RetryBaseDelay)
		}
		nd.Assert(t.open, "a managed target is subscribed again")
		t.allDelivered(t.next, "the stream idles")
		w.remove(t)
	}
	w.quiet(t)
}

// HarnessCallers: concurrent calls of Add, Remove and Reconnect from two goroutines.
//
//nd:harness prop=C13 mode=dpor race=1 quick:time=60 thorough:time=2400 steps=2000000
func HarnessCallers() {
	t := &tgt{name: "t"}
	w := newWorld(manager.Config{}, t)
	t.managed = true
	nd.Assert(w.m.Add("t", &tpb.Target{Addresses: []string{"t:1"}}, req()) == nil, "added")
	op := nd.Choose("op", 3)
	nd.AsyncTimers(1)
	var e1, e2 error
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); e1 = w.m.Remove("t") }()
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			e2 = w.m.Remove("t")
		case 1:
			e2 = w.m.Add("t", &tpb.Target{Addresses: []string{"t:1"}}, req())
		case 2:
			e2 = w.m.Reconnect("t")
		}
	}()
	wg.Wait()
	nd.Explore(false)
	switch op {
	case 0:
		nd.Assert((e1 == nil) != (e2 == nil), "one of two concurrent removals is refused")
	case 1:
		nd.Assert(e1 == nil, "the target is removed")
		nd.CoverIf(e2 == nil, "added again")
		nd.CoverIf(e2 != nil, "duplicate refused")
		if e2 == nil {
			nd.Advance(10 * time.Second)
			nd.Assert(t.open, "a target added again is subscribed")
			w.remove(t)
		}
	case 2:
		nd.Assert(e1 == nil, "the target is removed")
	}
	t.managed = false
	nd.Assert(w.m.Remove("t") != nil, "a removed target is unknown")
	w.quiet(t)
}

// HarnessTimeout: a stream that stays silent for the receive timeout is ended, reset and retried; messages
// arrive around the expiry.
//
//nd:harness prop=C13 mode=dpor race=1 quick:time=100 thorough:time=2400 steps=2000000
func HarnessTimeout() {
	t := &tgt{name: "t"}
	s := &session{gate: make(chan struct{}, 4), resps: []*pb.SubscribeResponse{upd()}}
	t.script = []*session{s}
	t.last = &session{resps: []*pb.SubscribeResponse{upd()}}
	cfg := manager.Config{ReceiveTimeout: 10 * time.Second}
	w := newWorld(cfg, t)
	w.add(t)
	nd.Advance(time.Millisecond)
	nd.Assert(t.open, "the target is subscribed")
	op := nd.Choose("op", 2)
	nd.AsyncTimers(1)
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		s.gate <- struct{}{}
		if op == 1 {
			w.remove(t)
		}
	}()
	wg.Wait()
	nd.Explore(false)
	if op == 0 {
		for i := 0; i < 60 && t.attempts < 2; i++ {
			nd.Advance(manager.RetryBaseDelay / 2)
		}
		nd.Assert(t.attempts >= 2 && t.resets >= 1, "a silent stream is ended and retried")
		if t.attempts == 2 && t.open {
			// the second session is supervised like the first
			for i := 0; i < 60 && t.attempts < 3; i++ {
				nd.Advance(manager.RetryBaseDelay / 2)
			}
			nd.Assert(t.attempts >= 3 && t.resets >= 2, "every silent stream is ended and retried")
			nd.Cover("second session supervised")
		}
		w.remove(t)
	}
	w.quiet(t)
}

// HarnessTwo: two managed targets; what happens to one of them does not end or
// silence the other.
//
//nd:harness prop=C13 mode=pb preempt=0 quick:time=40 thorough:time=600 steps=2000000
func HarnessTwo() {
	a := &tgt{name: "a", script: []*session{anySession("a0", 1)}}
	b := &tgt{name: "b", last: &session{resps: []*pb.SubscribeResponse{upd()}}}
	w := newWorld(manager.Config{}, a, b)
	w.add(b)
	nd.Advance(time.Millisecond)
	nd.Assert(b.open, "b is subscribed")
	w.add(a)
	nd.Advance(time.Millisecond)
	switch nd.Choose("op", 3) {
	case 0:
		nd.Assert(w.m.Reconnect("a") == nil, "a managed target can be reconnected")
		nd.Advance(3 * time.Second)
		w.remove(a)
	case 1:
		w.remove(a)
	case 2:
		w.remove(a)
		w.add(a)
		nd.Advance(time.Second)
		w.remove(a)
	}
	nd.Assert(b.open && b.opened == 1 && b.resets == 0, "the other target's stream is undisturbed")
	n := len(a.log)
	nd.Assert(w.m.Reconnect("b") == nil, "b is managed")
	nd.Advance(5 * time.Second)
	nd.Assert(b.open && b.opened == 2 && b.resets == 1, "b is subscribed again")
	nd.Assert(len(a.log) == n, "nothing happens for a removed target")
	w.remove(b)
	w.quiet(a)
	w.quiet(b)
}

// HarnessArgs: what Add refuses leaves nothing behind; sessions that fail before the dial are retried too.
//
//nd:harness prop=C13 mode=pb preempt=0 time=20 steps=2000000
func HarnessArgs() {
	t := &tgt{name: "t"}
	cred := &creds{}
	w := newWorld(manager.Config{Credentials: cred}, t)
	nd.Assert(w.m.Add("", &tpb.Target{Addresses: []string{"t:1"}}, req()) != nil, "no name")
	nd.Assert(w.m.Add("t", &tpb.Target{Addresses: []string{"t:1"}}, nil) != nil, "no request")
	nd.Assert(w.m.Add("t", &tpb.Target{}, req()) != nil, "no address")
	nd.Assert(w.m.Add("t", nil, req()) != nil, "no target")
	nd.Assert(w.m.Remove("t") != nil, "a refused target is unknown")
	nd.Advance(time.Minute)
	nd.Assert(len(t.log) == 0, "nothing happens for a refused target")
	t.managed = true
	tp := &tpb.Target{Addresses: []string{"t:1", "t:2"}, Credentials: &tpb.Credentials{Username: "u", PasswordId: "p"}}
	cred.fails = nd.Choose("fails", 3)
	t.script = []*session{{dial: errX}}
	nd.Assert(w.m.Add("t", tp, req()) == nil, "added")
	nd.Advance(20 * time.Second)
	nd.Assert(cred.n == cred.fails+1, "one lookup per attempt until one succeeds")
	nd.Assert(t.attempts == 2, "the second address is tried when the first fails")
	nd.Assert(t.errs == 2*cred.fails, "failed attempts are reported")
	nd.Assert(t.open, "the target is subscribed in the end")
	w.remove(t)
	w.quiet(t)
}

type creds struct{ n, fails int }

func (c *creds) Lookup(ctx context.Context, key string) (string, error) {
	c.n++
	if c.n <= c.fails {
		return "", errX
	}
	return "secret", nil
}

var rnd, rndN int

// float64s replaces the random factor of the backoff by its extremes and the middle.
//
//nd:model math/rand.Float64
func float64s() float64 {
	rndN++
	return []float64{0, 0.5, 0.999}[(rnd+rndN)%3]
}
