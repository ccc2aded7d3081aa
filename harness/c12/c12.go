// Package c12 decides C12: no message from a remote peer can crash a process, and a rejected message leaves
// previously stored data intact. A panic in any harness is a violation by itself.
package c12

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	"google.golang.org/protobuf/types/known/anypb"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Val is any value a peer can put into an update.
func Val(name string) *pb.TypedValue {
	switch nd.Choose(name, 14) {
	case 0:
		return nil
	case 1:
		return &pb.TypedValue{}
	case 2:
		return hx.BoolVal(nd.Bool(name + ".b"))
	case 3:
		return hx.IntVal(nd.Int64(name + ".i"))
	case 4:
		return hx.StrVal(nd.String(name+".s", 1))
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: nd.Uint64(name + ".u")}}
	case 6:
		d := nd.Float64(name + ".d")
		nd.Assume(d == d)
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: d}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{}}}
	case 8:
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{hx.IntVal(1), {}}}}}
	case 9:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: nd.Int64(name + ".g"), Precision: uint32(nd.Choose(name+".p", 3))}}}
	case 10:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: [][]byte{nil, []byte("{"), []byte("[1]"), []byte("null")}[nd.Choose(name+".j", 4)]}}
	case 11:
		return &pb.TypedValue{Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{}}}
	case 12:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{}}
	}
	return &pb.TypedValue{Value: &pb.TypedValue_AsciiVal{AsciiVal: "a"}}
}

// few is Val with the kinds that matter to the code that keeps a value without looking into it.
func few(name string) *pb.TypedValue {
	switch nd.Choose(name, 5) {
	case 0:
		return nil
	case 1:
		return &pb.TypedValue{}
	case 2:
		return hx.BoolVal(true)
	case 3:
		return hx.StrVal("s")
	}
	return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{}}}
}

// second is the value of the second of two messages.
func second(name string) *pb.TypedValue {
	if nd.Param("full", 0) == 1 {
		return Val(name)
	}
	return few(name)
}

var names = []string{"*", "sync", "connectError", "latestTimestamp", "x"}

// Path is any path a peer can send, with up to max elements; nil is the path of a message that has none.
func Path(name string, max int) *pb.Path {
	n := nd.Choose(name+".n", max+2) - 1
	if n < 0 {
		return nil
	}
	p := &pb.Path{}
	if n == 0 {
		return p
	}
	var es []string
	for i := 0; i < n; i++ {
		m := names
		switch i {
		case 0:
			m = []string{"meta", "*", "x", ""}
		case 1:
		default:
			m = []string{"*", "x"}
		}
		es = append(es, m[nd.Choose(name+".e", len(m))])
	}
	if n < 3 && nd.Bool(name+".dep") {
		p.Element = es
	} else {
		p.Elem = hx.PElems(es)
	}
	return p
}

type world struct {
	c   *cache.Cache
	now int64
}

func newWorld(opts ...cache.Option) *world {
	w := &world{c: cache.New([]string{"t"}, opts...), now: 1 << 60}
	s, err := subscribe.NewServer(w.c)
	nd.Assert(err == nil, "server")
	w.c.SetClient(s.Update)
	// A subscriber of everything keeps the change feed's matching busy.
	w.tick()
	return w
}

func (w *world) tick() {
	w.now += 1000
	cm.Clock(w.now)
	latency.Now = func() time.Time { return time.Unix(0, w.now) }
}

// prior brings the target into one of several states.
func (w *world) prior(name string) {
	switch nd.Choose(name, 3) {
	case 0:
		w.c.UpdateMetadata()
	case 2:
		w.c.Connect("t")
		w.c.Sync("t")
		w.c.ConnectError("t", errors.New("e"))
		w.c.GnmiUpdate(hx.Noti("t", 5, hx.Upd(hx.IntVal(1), "x", "y"), hx.Upd(hx.IntVal(1), "y")))
		w.tick()
		w.c.UpdateMetadata()
	case 1:
		w.c.GnmiUpdate(hx.Noti("t", 5, hx.Upd(hx.IntVal(1), "x")))
		w.c.GnmiUpdate(cm.AtomicNoti("t", 5, []string{"z"}, []string{"a", "b"}, cm.Ints(1, 2)))
	}
}

// after runs what the collector does periodically, on a new session and for its clients.
func (w *world) after() {
	w.tick()
	w.c.UpdateMetadata()
	w.c.UpdateSize()
	w.all()
	w.tick()
	w.c.Connect("t")
	w.c.Sync("t")
	w.c.ConnectError("t", errors.New("e"))
	w.c.UpdateMetadata()
	w.c.Reset("t")
	w.tick()
	w.c.GnmiUpdate(hx.DelNoti("t", w.now, "*"))
	w.c.UpdateMetadata()
	w.c.Remove("t")
}

func (w *world) all() []cm.Leaf {
	r := cm.All(w.c, "t")
	w.c.Query("*", []string{}, func([]string, *ctree.Leaf, interface{}) error { return nil })
	return r
}

func (w *world) prefix(name string) *pb.Path {
	k := nd.Choose(name, 4)
	p := &pb.Path{Target: "t"}
	switch k {
	case 2:
		p.Elem = hx.PElems([]string{"meta"})
	case 3:
		p.Element = []string{"meta", "sync"}
	case 0:
		p.Origin = "meta"
	}
	return p
}

// send ingests a message; a rejected one changes nothing.
func (w *world) send(n *pb.Notification) {
	before := w.all()
	u, d, pre := n.GetUpdate(), n.GetDelete(), n.GetPrefix()
	if err := w.c.GnmiUpdate(n); err != nil && len(u)+len(d) <= 1 {
		nd.Cover("rejected")
		cm.CheckSame(w.all(), before, true, "a rejected message leaves stored data intact")
	} else if err == nil {
		nd.Cover("accepted")
	}
	nd.Assert(len(n.GetUpdate()) == len(u) && len(n.GetDelete()) == len(d) && n.GetPrefix() == pre, "the message is restored")
}

// HarnessUpdate ingests one update of any shape in any of several states.
//
//nd:harness prop=C12 mode=seq time=240
func HarnessUpdate() {
	w := newWorld()
	w.prior("prior")
	w.tick()
	n := &pb.Notification{Timestamp: w.now, Prefix: w.prefix("pre")}
	switch nd.Choose("kind", 3) {
	case 0:
		n.Timestamp = nd.Int64("ts")
	case 1:
		n.Atomic = true
	}
	u := &pb.Update{Path: Path("p", 2)}
	if k := nd.Choose("dep", 3); k < 2 {
		u.Value = &pb.Value{Value: []byte("1"), Type: pb.Encoding(k)}
	} else {
		u.Val = few("v")
	}
	n.Update = []*pb.Update{u}
	w.send(n)
	w.after()
}

// HarnessDelete ingests one delete of any shape, or an empty notification.
//
//nd:harness prop=C12 mode=seq time=240
func HarnessDelete() {
	w := newWorld()
	w.prior("prior")
	w.tick()
	ts := w.now
	if nd.Bool("old") {
		ts = nd.Int64("ts")
	}
	n := &pb.Notification{Timestamp: ts, Prefix: w.prefix("pre")}
	if p := Path("p", 3); p != nil {
		if nd.Choose("org", 2) == 0 && len(p.Elem)+len(p.Element) < 2 {
			p.Origin = "meta"
		}
		n.Delete = []*pb.Path{p}
	} else {
		n.Atomic = nd.Bool("atomic")
	}
	w.send(n)
	w.after()
}

// HarnessAddress ingests messages without a prefix, for no or an unknown target, and atomic deletes.
//
//nd:harness prop=C12 mode=seq
func HarnessAddress() {
	w := newWorld()
	w.prior("prior")
	var n *pb.Notification
	if k := nd.Choose("n", 5); k > 0 {
		n = &pb.Notification{}
		if k > 1 {
			n.Prefix = &pb.Path{Target: []string{"", "*", "u", "t"}[nd.Choose("t", 4)], Element: []string{"x"}[:nd.Choose("e", 2)]}
			n.Prefix.Origin = []string{"", "meta", "o", "*"}[nd.Choose("o", 4)]
		}
		n.Atomic = nd.Bool("atomic")
		if k > 2 {
			n.Delete = append(n.Delete, &pb.Path{})
		}
		if k > 3 {
			n.Delete = append(n.Delete, &pb.Path{Target: "u", Origin: "o"})
			n.Update = append(n.Update, &pb.Update{})
		}
	}
	before := w.all()
	if w.c.GnmiUpdate(n) != nil && len(n.GetUpdate()) == 0 {
		cm.CheckSame(w.all(), before, true, "a rejected message leaves stored data intact")
	}
	w.after()
}

// HarnessMulti ingests a message with several updates and deletes.
//
//nd:harness prop=C12 mode=seq
func HarnessMulti() {
	w := newWorld()
	w.prior("prior")
	w.tick()
	n := &pb.Notification{Timestamp: w.now, Prefix: &pb.Path{Target: "t"}}
	n.Atomic = nd.Bool("atomic")
	for i := 0; i < 2; i++ {
		n.Update = append(n.Update, &pb.Update{Path: Path("p", 1), Val: hx.IntVal(int64(i))})
	}
	if nd.Bool("del") {
		n.Delete = append(n.Delete, &pb.Path{}, hx.Elems("meta"))
	}
	w.send(n)
	w.after()
}

// HarnessTypes changes the type of a leaf's value and the shape of the tree below it.
//
//nd:harness prop=C12 mode=seq time=200 thorough:full=1 thorough:time=800
func HarnessTypes() {
	w := newWorld()
	if nd.Bool("meta") {
		w.c.UpdateMetadata()
	}
	paths := [][]string{{"x"}, {"x", "y"}, {"meta", "sync"}, {"meta", "latestTimestamp"}, {"meta", "connectError"}, {"meta", "new"}}
	p := paths[nd.Choose("p", len(paths))]
	q := p
	if nd.Bool("shape") {
		q = append(append([]string{}, p...), "z")
		if len(p) == 2 && nd.Bool("up") {
			q = p[:1]
		}
	}
	w.tick()
	w.send(&pb.Notification{Timestamp: w.now, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: hx.Elems(p...), Val: Val("v")}}})
	if nd.Bool("tick") {
		w.tick()
	}
	w.send(&pb.Notification{Timestamp: w.now, Prefix: &pb.Path{Target: "t"}, Atomic: nd.Bool("atomic"), Update: []*pb.Update{{Path: hx.Elems(q...), Val: second("w")}}})
	w.after()
}

// HarnessOptions ingests messages with the options that reject updates or leave metadata out.
//
//nd:harness prop=C12 mode=seq time=240
func HarnessOptions() {
	var opts []cache.Option
	switch nd.Choose("opt", 3) {
	case 0:
		opts = append(opts, cache.WithFutureThreshold(time.Second))
	case 1:
		opts = append(opts, cache.DisableEventDrivenEmulation())
	case 2:
		opts = append(opts, cache.WithExcludedMeta([]string{"sync"}))
	}
	w := newWorld(opts...)
	w.prior("prior")
	for i := 0; i < 2; i++ {
		n := &pb.Notification{Timestamp: nd.Int64("ts"), Prefix: &pb.Path{Target: "t"}, Atomic: nd.Bool("atomic")}
		n.Update = []*pb.Update{{Path: [](*pb.Path){hx.Elems("x"), hx.Elems("meta", "sync"), {}}[nd.Choose("p", 3)], Val: []*pb.TypedValue{nil, hx.BoolVal(true), hx.IntVal(1)}[nd.Choose("v", 3)]}}
		w.send(n)
	}
	w.after()
}

// end is how a client ends its stream.
func end(s *hx.Stream, k int, cancel func()) {
	switch k {
	case 0:
		close(s.Reqs)
	case 1:
		cancel()
	}
}

// HarnessSubscribe sends any request to the handler.
//
//nd:harness prop=C12 mode=pb preempt=0 time=200
func HarnessSubscribe() {
	w := newWorld()
	s, err := subscribe.NewServer(w.c)
	nd.Assert(err == nil, "server")
	w.c.SetClient(s.Update)
	w.prior("prior")
	ctx, cancel := context.WithCancel(context.Background())
	st := hx.NewStream(ctx, "p")
	req := &pb.SubscribeRequest{}
	mode := pb.SubscriptionList_ONCE
	switch nd.Choose("req", 4) {
	case 0:
		req.Request = &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}
	case 1: // no request at all
	case 2:
		close(st.Reqs) // nothing is ever sent
	default:
		l := &pb.SubscriptionList{Mode: []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_STREAM, pb.SubscriptionList_POLL, 7}[nd.Choose("mode", 4)]}
		l.UpdatesOnly = nd.Bool("only")
		switch nd.Choose("pre", 6) {
		case 0:
		case 1:
			l.Prefix = &pb.Path{}
		case 2:
			l.Prefix = &pb.Path{Target: "t"}
		case 3:
			l.Prefix = &pb.Path{Target: "*"}
		case 4:
			l.Prefix = &pb.Path{Target: "t", Origin: "o", Elem: hx.PElems([]string{"x"})}
		case 5:
			l.Prefix = &pb.Path{Target: "u"}
		}
		if nd.Bool("subs") {
			p := Path("p", 1)
			if p != nil && nd.Bool("org") {
				p.Origin = "o"
			}
			l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
			if nd.Bool("two") {
				l.Subscription = append(l.Subscription, &pb.Subscription{Path: hx.Elems("x", "y")}, &pb.Subscription{})
			}
		}
		mode = l.Mode
		req.Request = &pb.SubscribeRequest_Subscribe{Subscribe: l}
	}
	how := 0
	if mode != pb.SubscriptionList_ONCE {
		how = nd.Choose("end", 3)
	}
	done := make(chan error, 1)
	closed := nd.Truth(false)
	func() {
		defer func() {
			if recover() != nil {
				closed = true
			}
		}()
		st.Reqs <- req
	}()
	go func() { done <- s.Subscribe(st) }()
	nd.Quiesce()
	w.tick()
	w.c.GnmiUpdate(hx.Noti("t", w.now, hx.Upd(hx.IntVal(7), "x", "y")))
	w.c.GnmiUpdate(hx.DelNoti("t", w.now+1, "*"))
	nd.Quiesce()
	if !closed {
		if mode == pb.SubscriptionList_POLL && nd.Bool("poll") {
			st.Reqs <- &pb.SubscribeRequest{}
			nd.Quiesce()
		}
		if how < 2 {
			end(st, how, cancel)
		} else {
			w.c.Remove("t")
			nd.Quiesce()
			cancel()
		}
	}
	cancel()
	if err := <-done; err != nil && err != io.EOF {
		nd.Cover("refused")
	} else {
		nd.Cover("served")
	}
	cancel()
	nd.Quiesce()
}
