// Package c18 decides C18: Subscribe and Close of the client always terminate, and the reconnecting client
// keeps its callback discipline.
package c18

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"google.golang.org/grpc"

	"github.com/openconfig/gnmi/client"
	fake "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

var errX = errors.New("x")

// session is what the server does with one attempt.
type session struct {
	dial, sub, send error
	dialWaits       bool
	resps           []*pb.SubscribeResponse
	end             error
	gate            chan struct{}
}

// obs observes the attempts and callbacks of one client.
type obs struct {
	script   []*session
	last     *session
	attempts int // begun
	ended    int
	disc     int
	resets   int
	streams  int
	cur      *session
	open     bool
	recvd    int   // messages handed out on the current stream
	want     []string
	got      int // of want
	first    bool
	closed   bool // Close returned
	late     map[int]bool
	trace    []string
}

func (o *obs) say(f string, a ...any) { o.trace = append(o.trace, fmt.Sprintf(f, a...)) }

func (o *obs) session() *session {
	if i := o.attempts - 1; i >= 0 && i < len(o.script) {
		return o.script[i]
	}
	return o.last
}

// counted observes the attempts of the wrapped client.
type counted struct {
	client.Client
	o *obs
}

func (c *counted) Subscribe(ctx context.Context, q client.Query, typ ...string) error {
	nd.Atomic(func() {
		o := c.o
		nd.Assert(o.disc == o.ended, "the disconnect callback is invoked once per ended attempt, before the next")
		nd.Assert(o.resets == o.attempts, "the reset callback is invoked before each retry")
		nd.Assert(o.ended == o.attempts, "one attempt at a time")
		o.attempts++
		o.open = false
		o.say("attempt %d", o.attempts)
	})
	err := c.Client.Subscribe(ctx, q, typ...)
	nd.Atomic(func() { c.o.ended++; c.o.say("ended %v", err) })
	return err
}

func (o *obs) disconnect() {
	nd.Atomic(func() {
		o.disc++
		o.say("disconnect")
		nd.Assert(o.disc == o.ended, "the disconnect callback is invoked once per ended attempt")
	})
}

func (o *obs) reset() {
	nd.Atomic(func() {
		o.resets++
		o.say("reset")
		nd.Assert(o.resets == o.attempts && o.disc == o.attempts, "the reset callback is invoked once between the disconnect and the retry")
	})
}

// expect lists the notifications of a message.
func expect(r *pb.SubscribeResponse, i int) []string {
	var l []string
	switch v := r.GetResponse().(type) {
	case *pb.SubscribeResponse_Update:
		for range v.Update.Update {
			l = append(l, fmt.Sprintf("%d:update", i))
		}
		for range v.Update.Delete {
			l = append(l, fmt.Sprintf("%d:delete", i))
		}
	case *pb.SubscribeResponse_SyncResponse:
		l = append(l, fmt.Sprintf("%d:sync", i))
	}
	return l
}

func (o *obs) handler(n client.Notification) error {
	nd.Atomic(func() {
		nd.Assert(o.open, "notifications belong to a stream")
		if o.closed {
			o.late[o.recvd] = true
			nd.Assert(len(o.late) <= 1, "after Close returned, the notifications of at most one further message are delivered")
			nd.Cover("notification after Close")
		}
		if o.first {
			_, ok := n.(client.Connected)
			nd.Assert(ok, "a Connected notification precedes all others on every stream")
			o.first = false
			return
		}
		var what string
		ts := int64(0)
		switch v := n.(type) {
		case client.Update:
			what, ts = "update", v.TS.UnixNano()
		case client.Delete:
			what, ts = "delete", v.TS.UnixNano()
		case client.Sync:
			what = "sync"
		default:
			nd.Fail(fmt.Sprintf("unexpected notification %T", n))
		}
		nd.Assert(o.got < len(o.want), "nothing is delivered that was not received")
		nd.Assert(o.want[o.got] == fmt.Sprintf("%d:%s", o.recvd, what), "notifications are delivered in the order received")
		if what != "sync" {
			nd.Assert(ts == int64(o.recvd), "the notification is that of the received message")
		}
		o.got++
	})
	return nil
}

func setup(o *obs) {
	if o.last == nil {
		o.last = &session{}
	}
	o.late = map[int]bool{}
	gc.Dial = func(ctx context.Context, addr string) error {
		s := o.session()
		if s.dialWaits {
			<-ctx.Done()
			return ctx.Err()
		}
		nd.Yield()
		if err := ctx.Err(); err != nil {
			return err // as grpc.DialContext does
		}
		return s.dial
	}
	gc.Subscribe = func(ctx context.Context, c *grpc.ClientConn) (*gc.Stream, error) {
		s := o.session()
		if s.sub != nil {
			return nil, s.sub
		}
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		dead := make(chan struct{})
		gc.Closed = func(x *grpc.ClientConn) {
			if x == c && gc.Closes[c] == 1 {
				close(dead)
			}
		}
		st := &gc.Stream{Ctx: ctx}
		st.OnSend = func(*pb.SubscribeRequest) error {
			if s.send != nil {
				return s.send
			}
			nd.Atomic(func() {
				o.open, o.cur, o.recvd, o.want, o.got, o.first = true, s, 0, nil, 0, true
				o.streams++
				o.say("stream")
			})
			return nil
		}
		st.Next = func() (*pb.SubscribeResponse, error) {
			nd.Yield()
			nd.Assert(o.got == len(o.want), "every notification of a message is delivered before the next is received")
			nd.Assert(o.recvd == 0 || !o.first, "Connected is delivered with the first message")
			if s.gate != nil {
				select {
				case <-s.gate:
				case <-ctx.Done():
					return nil, ctx.Err()
				case <-dead:
					return nil, errX
				}
			}
			if o.recvd < len(s.resps) {
				r := s.resps[o.recvd]
				nd.Atomic(func() {
					o.recvd++
					o.want, o.got = expect(r, o.recvd), 0
					o.say("msg %d", o.recvd)
				})
				return r, nil
			}
			if s.end != nil {
				return nil, s.end
			}
			select {
			case <-ctx.Done():
				return nil, ctx.Err()
			case <-dead:
				return nil, errX
			}
		}
		return st, nil
	}
}

func msg(name string, i int) *pb.SubscribeResponse {
	n := &pb.Notification{Timestamp: int64(i), Update: []*pb.Update{hx.Upd(hx.IntVal(1), "a"), hx.Upd(hx.IntVal(2), "b")}}
	switch nd.Choose(name, 3) {
	case 1:
		n.Delete = []*pb.Path{hx.Elems("c")}
	case 2:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}
}

func simple(i int) *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: int64(i), Update: []*pb.Update{hx.Upd(hx.IntVal(1), "a"), hx.Upd(hx.IntVal(2), "b")}}}}
}

func query(o *obs) client.Query {
	return client.Query{Addrs: []string{"a:1"}, Target: "t", Queries: []client.Path{{"a"}}, Type: client.Stream, NotificationHandler: o.handler, Timeout: 10 * time.Second}
}

func newClient(cached bool) client.Client {
	if cached {
		return client.New()
	}
	return &client.BaseClient{}
}

func anySession(name string, msgs int) *session {
	s := &session{}
	switch nd.Choose(name+".kind", 7) {
	case 0:
		s.dial = errX
		return s
	case 1:
		s.dialWaits = true
		nd.Cover("dial times out")
		return s
	case 2:
		s.sub = errX
		return s
	case 3:
		s.send = errX
		return s
	case 4:
		s.end = io.EOF
	case 5:
		s.end = errX
	case 6:
		s.resps = []*pb.SubscribeResponse{{}} // an unusable message ends the stream
		nd.Cover("unusable message")
		return s
	}
	n := nd.Choose(name+".n", msgs+1)
	for i := 0; i < n; i++ {
		s.resps = append(s.resps, msg(fmt.Sprintf("%s.m%d", name, i), i+1))
	}
	return s
}

// bound is the largest backoff after n attempts in a row.
func bound(n int) time.Duration {
	d := float64(client.RetryBaseDelay)
	for i := 1; i < n; i++ {
		d *= 1.5
	}
	if d > float64(client.RetryMaxDelay) {
		d = float64(client.RetryMaxDelay)
	}
	return time.Duration(d*(1+client.RetryRandomization)) + time.Millisecond
}

// HarnessSessions: any script of attempts, one after the other; every failure is retried, then Close at any
// point of the last attempt's life.
//
//nd:harness prop=C18 mode=pb preempt=0 quick:sessions=2 quick:msgs=2 quick:time=100 thorough:sessions=3 thorough:msgs=2 thorough:time=2400 steps=2000000
func HarnessSessions() {
	o := &obs{}
	n := nd.Param("sessions", 2)
	for i := 0; i < n; i++ {
		o.script = append(o.script, anySession(fmt.Sprintf("s%d", i), nd.Param("msgs", 2)))
	}
	setup(o)
	stays := nd.Bool("the last stream stays open")
	if stays {
		o.last = &session{resps: []*pb.SubscribeResponse{simple(1)}}
	} else {
		o.last = &session{dial: errX}
	}
	c := client.Reconnect(&counted{newClient(nd.Bool("cached")), o}, o.disconnect, o.reset)
	returned := false
	var err error
	go func() {
		err = c.Subscribe(context.Background(), query(o))
		returned = true
	}()
	for i := 0; i < n; i++ {
		for k := 0; k < 40 && o.attempts < i+2; k++ {
			nd.Advance(client.RetryBaseDelay * 2 / 5)
			nd.Assert(!returned, "a reconnecting client that is not closed keeps resubscribing")
		}
		nd.Assert(o.attempts == i+2, "a failed attempt is retried within the backoff interval (and the dial timeout)")
		nd.Assert(o.disc >= i+1 && o.resets == i+1, "one disconnect and one reset per failed attempt")
		if s := o.script[i]; len(s.resps) > 0 && s.resps[0].Response != nil {
			nd.Assert(o.streams > 0, "the stream was read")
		}
	}
	if stays {
		nd.Assert(o.open && o.recvd == 1 && o.got == 2, "the last stream is read")
	}
	t0 := nd.Now()
	c.Close()
	nd.Assert(time.Duration(nd.Now()-t0) <= bound(o.attempts), "Close returns within the backoff interval")
	o.closed = true
	nd.Advance(time.Millisecond)
	nd.Assert(returned && err != nil, "Subscribe returns after Close")
	nd.Assert(o.disc == o.ended && o.ended == o.attempts, "one disconnect per ended attempt")
	l := len(o.trace)
	nd.Advance(5 * time.Minute)
	nd.Assert(len(o.trace) == l, "nothing happens after Close and Subscribe returned")
}

// HarnessClose: Close (once or twice) at any moment: before Subscribe, during the connect, while streaming or
// during the backoff.
//
//nd:harness prop=C18 mode=dpor race=1 quick:time=120 quick:timers=1 thorough:timers=2 thorough:time=2400 steps=2000000
func HarnessClose() {
	o := &obs{}
	s := &session{}
	feed := 0
	switch nd.Choose("first", 4) {
	case 0:
		s.dial = errX
	case 1:
		s.dialWaits = true
	case 2:
		s.gate = make(chan struct{}, 4)
		s.resps = []*pb.SubscribeResponse{simple(1), simple(2)}
		feed = 2
	case 3:
		s.gate = make(chan struct{}, 4)
		s.resps = []*pb.SubscribeResponse{simple(1)}
		s.end = io.EOF
		feed = 2
	}
	o.script = []*session{s}
	o.last = &session{resps: []*pb.SubscribeResponse{simple(1)}}
	setup(o)
	c := client.Reconnect(&counted{newClient(false), o}, o.disconnect, o.reset)
	for i := 0; i < feed; i++ {
		s.gate <- struct{}{}
	}
	// either timers expire at any moment, or time passes only when everything waits and Close comes at a chosen time
	var wait time.Duration
	timed := nd.Bool("timed")
	if timed {
		wait = []time.Duration{0, 300 * time.Millisecond, 2 * time.Second, 10*time.Second + 300*time.Millisecond}[nd.Choose("wait", 4)]
	} else {
		nd.AsyncTimers(nd.Param("timers", 1))
	}
	started := nd.Bool("Close after Subscribe started")
	var took time.Duration
	var err error
	var wg sync.WaitGroup
	wg.Add(2)
	sub := func() {
		defer wg.Done()
		err = c.Subscribe(context.Background(), query(o))
	}
	if started {
		nd.Explore(true)
		go sub()
	} else {
		nd.Explore(true)
	}
	go func() {
		defer wg.Done()
		if wait > 0 {
			time.Sleep(wait)
		}
		t0 := nd.Now()
		c.Close()
		nd.Atomic(func() {
			took = time.Duration(nd.Now() - t0)
			o.closed = true
		})
	}()
	if !started {
		go sub()
	}
	wg.Wait()
	nd.Explore(false)
	nd.Assert(err != nil, "Subscribe of a closed client returns an error")
	// a dial that waits is ended by Close, so only backoffs count
	nd.Assert(!timed || took <= bound(o.attempts), "Close returns within the backoff interval")
	nd.Assert(o.disc == o.ended && o.ended == o.attempts, "one disconnect per ended attempt")
	nd.CoverIf(o.attempts > 1, "closed after a retry")
	nd.CoverIf(o.streams == 0, "closed before streaming")
	nd.CoverIf(o.streams > 0, "closed while streaming")
	c.Close()
	l := len(o.trace)
	nd.Advance(5 * time.Minute)
	nd.Assert(len(o.trace) == l, "nothing happens after Close and Subscribe returned")
}

// HarnessBase: Close of a plain client while it streams.
//
//nd:harness prop=C18 mode=dpor race=1 quick:time=60 thorough:time=1200 steps=2000000
func HarnessBase() {
	o := &obs{attempts: 1}
	s := &session{gate: make(chan struct{}, 5)}
	s.resps = []*pb.SubscribeResponse{simple(1), simple(2), simple(3)}
	o.script = []*session{s}
	setup(o)
	c := newClient(nd.Bool("cached"))
	var err error
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		err = c.Subscribe(context.Background(), query(o))
	}()
	nd.Advance(time.Millisecond)
	nd.Assert(o.open, "subscribed")
	nd.Explore(true)
	for i := 0; i < 3; i++ {
		s.gate <- struct{}{}
	}
	go func() {
		defer wg.Done()
		c.Close()
		nd.Atomic(func() { o.closed = true })
	}()
	wg.Wait()
	nd.Explore(false)
	_ = err
	nd.CoverIf(len(o.late) == 1, "one message after Close")
	nd.CoverIf(o.recvd == 3, "all received")
	nd.CoverIf(o.recvd == 0, "none received")
}

// HarnessCtx: the context of the caller ends Subscribe, too.
//
//nd:harness prop=C18 mode=dpor race=1 quick:time=60 thorough:time=1200 steps=2000000
func HarnessCtx() {
	o := &obs{}
	s := &session{}
	switch nd.Choose("first", 3) {
	case 0:
		s.dial = errX
	case 1:
		s.dialWaits = true
	case 2:
		s.resps = []*pb.SubscribeResponse{simple(1)}
	}
	o.script = []*session{s}
	o.last = &session{resps: []*pb.SubscribeResponse{simple(1)}}
	setup(o)
	c := client.Reconnect(&counted{newClient(false), o}, o.disconnect, o.reset)
	ctx, cancel := context.WithCancel(context.Background())
	nd.AsyncTimers(1)
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		cancel()
	}()
	err := c.Subscribe(ctx, query(o))
	wg.Wait()
	nd.Explore(false)
	nd.Assert(err != nil, "Subscribe returns the error of its context")
	nd.Assert(o.disc == o.ended && o.ended == o.attempts, "one disconnect per ended attempt")
	c.Close()
}

// HarnessTypes: queries the reconnecting client does not serve are refused at once, Poll queries are served.
//
//nd:harness prop=C18 mode=pb preempt=0 time=20 steps=2000000
func HarnessTypes() {
	o := &obs{last: &session{resps: []*pb.SubscribeResponse{simple(1)}}}
	setup(o)
	c := client.Reconnect(&counted{newClient(false), o}, o.disconnect, o.reset)
	q := query(o)
	q.Type = client.Type(nd.Choose("type", 5))
	done := false
	var err error
	go func() { err = c.Subscribe(context.Background(), q); done = true }()
	nd.Advance(time.Millisecond)
	if q.Type == client.Stream || q.Type == client.Poll {
		nd.Assert(!done && o.open, "served")
	} else {
		nd.Assert(done && err != nil && o.attempts == 0, "refused")
	}
	c.Close()
	nd.Advance(time.Millisecond)
	nd.Assert(done, "Subscribe returns")
}

// HarnessFake: the fake client keeps the discipline, too.
//
//nd:harness prop=C18 mode=pb preempt=0 time=20 steps=2000000
func HarnessFake() {
	var ups []any
	n := nd.Choose("n", 4)
	for i := 0; i < n; i++ {
		switch nd.Choose(fmt.Sprintf("u%d", i), 4) {
		case 0:
			ups = append(ups, client.Update{Path: client.Path{"a"}, TS: time.Unix(0, int64(i)), Val: i})
		case 1:
			ups = append(ups, client.Delete{Path: client.Path{"a"}, TS: time.Unix(0, int64(i))})
		case 2:
			ups = append(ups, client.Sync{})
		case 3:
			ups = append(ups, errX)
		}
	}
	fake.Mock("fake", ups)
	var got []client.Notification
	q := client.Query{Addrs: []string{"a:1"}, Target: "t", Queries: []client.Path{{"a"}}, Type: client.Stream, NotificationHandler: func(n client.Notification) error { got = append(got, n); return nil }}
	err := (&client.BaseClient{}).Subscribe(context.Background(), q, "fake")
	nd.Assert(len(got) > 0, "something is delivered")
	_, ok := got[0].(client.Connected)
	nd.Assert(ok, "a Connected notification precedes all others on every stream")
	k := 1
	for _, u := range ups {
		if u == errX {
			nd.Assert(err != nil, "the error ends the stream")
			nd.Assert(len(got) == k, "nothing after the error")
			return
		}
		nd.Assert(k < len(got), "everything is delivered")
		switch v := u.(type) {
		case client.Update:
			w, ok := got[k].(client.Update)
			nd.Assert(ok && w.TS.Equal(v.TS) && w.Val == v.Val, "in order")
		case client.Delete:
			w, ok := got[k].(client.Delete)
			nd.Assert(ok && w.TS.Equal(v.TS), "in order")
		case client.Sync:
			_, ok := got[k].(client.Sync)
			nd.Assert(ok, "in order")
		}
		k++
	}
	nd.Assert(err == nil && len(got) == k+1, "a sync ends the updates")
	_ = gclient.Type
}

var rndN int

//nd:model math/rand.Float64
func float64s() float64 {
	rndN++
	return []float64{0, 0.5, 0.999}[rndN%3]
}
