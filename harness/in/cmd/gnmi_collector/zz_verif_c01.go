package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"sort"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/osm"
	"github.com/openconfig/gnmi/zzverif/pipe"
	"github.com/openconfig/grpctunnel/dialer"
	"github.com/openconfig/grpctunnel/tunnel"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	zztpb "github.com/openconfig/gnmi/proto/target"
)

// The collector of this file runs unchanged; its configuration file, the sockets, TLS and the tunnel are stand-ins.

var (
	zzConfig *zztpb.Configuration
	zzServer pb.GNMIServer
)

func zzUnmarshal(text string, m proto.Message) error {
	c, ok := m.(*zztpb.Configuration)
	if !ok || text != "the configuration" {
		return errors.New("not the configuration")
	}
	c.Request, c.Target, c.Revision, c.InstanceId = zzConfig.Request, zzConfig.Target, zzConfig.Revision, zzConfig.InstanceId
	return nil
}

//nd:model google.golang.org/grpc/credentials.NewServerTLSFromFile
func zzCreds(cert, key string) (credentials.TransportCredentials, error) { return nil, nil }

//nd:model github.com/openconfig/grpctunnel/tunnel.NewServer
func zzTunnel(tunnel.ServerConfig) (*tunnel.Server, error) { return &tunnel.Server{}, nil }

//nd:model github.com/openconfig/grpctunnel/dialer.FromServer
func zzDialer(s *tunnel.Server) (*dialer.ServerDialer, error) { return &dialer.ServerDialer{}, nil }

//nd:model google.golang.org/grpc.Creds
func zzCredsOpt(credentials.TransportCredentials) grpc.ServerOption { return nil }

//nd:model google.golang.org/grpc.NewServer
func zzNewServer(...grpc.ServerOption) *grpc.Server { return new(grpc.Server) }

//nd:model (*google.golang.org/grpc.Server).RegisterService
func zzRegister(s *grpc.Server, d *grpc.ServiceDesc, impl any) {
	if g, ok := impl.(pb.GNMIServer); ok {
		zzServer = g
	}
}

//nd:model (*google.golang.org/grpc.Server).Serve
func zzServe(*grpc.Server, net.Listener) error { return nil }

//nd:model (*google.golang.org/grpc.Server).Stop
func zzStop(*grpc.Server) {}

// The backoff of a retry has its mean length.
//
//nd:model math/rand.Float64
func zzFloat64() float64 { return 0.5 }

//nd:model net.Listen
func zzListen(network, address string) (net.Listener, error) { return nil, nil }

// zzTarget is a configured target: what it streams and what its state is.
type zzTarget struct {
	name  string
	m     cm.Model
	feed  chan *pb.SubscribeResponse
	gone  chan struct{} // closed to end the stream
	conns int
	req   *pb.SubscribeRequest // last received
	sent  []*pb.Notification   // the state as a target sends it after a reconnect
}

type zzWorld struct {
	ts     map[string]*zzTarget
	cancel func()
	done   bool
}

// zzStart runs the collector with targets of the names; shared tells whether they share one request.
func zzStart(names []string, shared bool) *zzWorld {
	w := &zzWorld{ts: map[string]*zzTarget{}}
	zzConfig = &zztpb.Configuration{Request: map[string]*pb.SubscribeRequest{}, Target: map[string]*zztpb.Target{}}
	for i, n := range names {
		r := "r"
		if !shared {
			r = fmt.Sprint("r", i)
		}
		zzConfig.Request[r] = hx.Sub("", pb.SubscriptionList_STREAM, false, hx.Elems("q"+r))
		zzConfig.Target[n] = &zztpb.Target{Addresses: []string{"addr-" + n}, Request: r}
		w.ts[n] = &zzTarget{name: n, feed: make(chan *pb.SubscribeResponse, 16), gone: make(chan struct{})}
	}
	for k, v := range map[string]string{"config_file": "config", "cert_file": "cert", "key_file": "key", "port": "1"} {
		nd.Assert(flag.Set(k, v) == nil, "the collector has its flags")
	}
	osm.Files["config"], osm.Proto = "the configuration", zzUnmarshal
	gc.Subscribe = w.subscribe
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	go func() {
		err := runCollector(ctx)
		nd.Assert(err == context.Canceled, fmt.Sprint("the collector stops: ", err))
		w.done = true
	}()
	nd.Advance(time.Millisecond) // the sessions start on a timer
	nd.Quiesce()
	nd.Assert(zzServer != nil, "the collector serves gNMI")
	return w
}

// subscribe is the other end of every Subscribe RPC: a target, or the collector itself.
func (w *zzWorld) subscribe(ctx context.Context, c *grpc.ClientConn) (*gc.Stream, error) {
	a := gc.Addr[c]
	if a == "collector" {
		return pipe.New(ctx, zzServer), nil
	}
	t := w.ts[a[len("addr-"):]]
	nd.Assert(t != nil, "a connection to an address of the configuration")
	t.conns++
	gone := t.gone
	st := &gc.Stream{Ctx: ctx}
	st.OnSend = func(r *pb.SubscribeRequest) error { t.req = r; return nil }
	st.Next = func() (*pb.SubscribeResponse, error) {
		select {
		case r := <-t.feed:
			return r, nil
		case <-gone:
			return nil, io.EOF
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	return st, nil
}

// zzPath is the index path of a notification's path at the collector, the target excluded.
func zzPath(prefix, p *pb.Path) []string {
	o := prefix.GetOrigin()
	if o == "" {
		o = p.GetOrigin()
	}
	if o == "" {
		o = "openconfig"
	}
	r := []string{o}
	add := func(p *pb.Path) {
		if len(p.GetElem()) == 0 {
			r = append(r, p.GetElement()...)
		}
		for _, e := range p.GetElem() {
			r = append(r, e.GetName())
			var ks []string
			for k := range e.GetKey() {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				r = append(r, e.GetKey()[k])
			}
		}
	}
	add(prefix)
	add(p)
	return r
}

// stream makes the target stream n and applies it to its state.
func (t *zzTarget) stream(n *pb.Notification) {
	for _, d := range n.Delete {
		t.m.Delete(zzPath(n.Prefix, d), n.Timestamp)
	}
	if n.Atomic { // everything below the prefix
		t.m.Delete(zzPath(n.Prefix, nil), n.Timestamp)
	}
	for _, u := range n.Update {
		t.m.Update(cm.Leaf{P: zzPath(n.Prefix, u.Path), TS: n.Timestamp, V: []*pb.TypedValue{u.Val}})
	}
	t.feed <- &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}
	nd.Quiesce()
}

func (t *zzTarget) sync() {
	t.feed <- &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	nd.Quiesce()
}

// zzView is a client of the collector.
type zzView struct {
	c    *client.CacheClient
	err  error
	done bool
	q    client.Query
}

func zzSubscribe(q client.Query) *zzView {
	q.Addrs = []string{"collector"}
	q.NotificationHandler = func(client.Notification) error { return nil }
	v := &zzView{c: client.New(), q: q}
	go func() {
		v.err = v.c.Subscribe(context.Background(), q, gclient.Type)
		v.done = true
	}()
	nd.Quiesce()
	return v
}

// check asserts that the view is the state of the targets below the query.
func (v *zzView) check(w *zzWorld, ts ...string) {
	var got []client.Leaf
	for _, l := range v.c.Leaves() {
		nd.Assert(len(l.Path) > 1, "a leaf has a target and a path")
		if !nd.Truth(l.Path[1] == "meta") {
			got = append(got, l)
		}
	}
	n := 0
	for _, t := range ts {
		for _, l := range w.ts[t].m.L {
			in := false
			for _, q := range v.q.Queries {
				in = in || nd.Truth(cm.Matches(q, l.P))
			}
			if !in {
				continue
			}
			n++
			ok := false
			for _, g := range got {
				if len(g.Path) == len(l.P)+1 && g.Path[0] == t && nd.Truth(cm.Eq(g.Path[1:], l.P)) {
					nd.Assert(zzSame(g.Val, l.V[0]), "a leaf of the client has another value than the target's")
					ok = true
				}
			}
			nd.Assert(ok, "a leaf of the target is missing at the client")
		}
	}
	nd.Assert(len(got) == n, "the client has a leaf that the target does not have")
}

// zzSame reports whether the client's value is the target's.
func zzSame(got any, want *pb.TypedValue) bool {
	switch w := want.GetValue().(type) {
	case *pb.TypedValue_IntVal:
		g, ok := got.(int64)
		return ok && nd.Truth(g == w.IntVal)
	case *pb.TypedValue_UintVal:
		g, ok := got.(uint64)
		return ok && nd.Truth(g == w.UintVal)
	case *pb.TypedValue_StringVal:
		g, ok := got.(string)
		return ok && nd.Truth(g == w.StringVal)
	case *pb.TypedValue_BoolVal:
		g, ok := got.(bool)
		return ok && nd.Truth(g == w.BoolVal)
	case *pb.TypedValue_BytesVal:
		g, ok := got.([]byte)
		return ok && nd.Truth(string(g) == string(w.BytesVal))
	case *pb.TypedValue_FloatVal:
		g, ok := got.(float32)
		return ok && nd.Truth(g == w.FloatVal)
	case *pb.TypedValue_DoubleVal:
		g, ok := got.(float64)
		return ok && nd.Truth(g == w.DoubleVal)
	case *pb.TypedValue_DecimalVal:
		f, ok := got.(float32)
		return ok && w.DecimalVal.Precision == 1 && nd.Truth(f == float32(float64(w.DecimalVal.Digits)/10))
	case *pb.TypedValue_LeaflistVal:
		g, ok := got.([]any)
		if !ok || len(g) != len(w.LeaflistVal.Element) {
			return false
		}
		for i, e := range w.LeaflistVal.Element {
			if !zzSame(g[i], e) {
				return false
			}
		}
		return true
	}
	return false
}

// zzValue is a value of any scalar type.
func zzValue(name string) *pb.TypedValue {
	switch nd.Choose(name, 9) {
	case 0:
		return hx.IntVal(nd.Int64(name + ".i"))
	case 1:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: nd.Uint64(name + ".u")}}
	case 2:
		return hx.StrVal(nd.String(name+".s", 2))
	case 3:
		return hx.BoolVal(nd.Bool(name + ".b"))
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte(nd.String(name+".y", 2))}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 1.5}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 2.25}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 15, Precision: 1}}}
	}
	return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{hx.IntVal(nd.Int64(name + ".l")), hx.StrVal("x")}}}}
}

// zzNoti is a notification as targets send them: with or without a prefix, a (wrong) target, an origin in the
// prefix or the paths, keyed or deprecated paths, several updates and deletes.
func zzNoti(name string, ts int64, v *pb.TypedValue) *pb.Notification {
	n := &pb.Notification{Timestamp: ts}
	elem := func(i int) string {
		e := nd.StringN(fmt.Sprint(name, ".e", i), 1)
		nd.Assume(e != "*")
		return e
	}
	path := func(i int, del bool) *pb.Path {
		switch nd.Choose(fmt.Sprint(name, ".path", i), 3) {
		case 0:
			return hx.Elems("a", elem(i))
		case 1: // keyed
			return &pb.Path{Elem: []*pb.PathElem{{Name: "l", Key: map[string]string{"k": elem(i)}}, {Name: "x"}}}
		}
		return &pb.Path{Element: []string{"a", elem(i)}}
	}
	origin := ""
	if nd.Bool(name + ".o") {
		origin = nd.StringN(name+".origin", 1)
		nd.Assume(origin != "*")
	}
	inPath := false
	switch nd.Choose(name+".prefix", 4) {
	case 0: // none, an origin in the path
		inPath = true
	case 1: // empty
		n.Prefix = &pb.Path{Origin: origin}
	case 2: // a foreign target
		n.Prefix = &pb.Path{Target: "someone", Origin: origin}
	case 3: // elements
		n.Prefix = &pb.Path{Origin: origin, Elem: hx.PElems([]string{"p"})}
	}
	add := func(i int, del bool) {
		p := path(i, del)
		if inPath {
			p.Origin = origin
		}
		if del {
			n.Delete = append(n.Delete, p)
		} else {
			n.Update = append(n.Update, &pb.Update{Path: p, Val: v})
		}
	}
	switch nd.Choose(name+".shape", 3) {
	case 0:
		add(0, false)
	case 1:
		add(0, true)
	case 2:
		add(0, false)
		add(1, true)
	}
	return n
}

// HarnessZZValues: one leaf of any type and path reaches the clients before and after it, and its delete too.
//
//nd:harness prop=C01 mode=pb preempt=0 native=0 quick:time=30 thorough:time=1000 maxpaths=3000000
func HarnessZZValues() {
	w := zzStart([]string{"t"}, true)
	t := w.ts["t"]
	v1 := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"*"}}, Type: client.Stream})
	nd.Assert(!v1.done, "a configured target can be subscribed to")
	p := &pb.Path{Elem: []*pb.PathElem{{Name: "l", Key: map[string]string{"k2": "z", "k1": nd.StringN("k", 1)}}, {Name: "x"}}}
	t.stream(&pb.Notification{Timestamp: 10, Update: []*pb.Update{{Path: p, Val: zzValue("v")}}})
	v1.check(w, "t")
	v2 := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"openconfig", "l"}}, Type: client.Stream})
	v2.check(w, "t")
	t.sync()
	t.stream(&pb.Notification{Timestamp: 11, Update: []*pb.Update{{Path: p, Val: zzValue("w")}}})
	v1.check(w, "t")
	v2.check(w, "t")
	if nd.Bool("delete") {
		t.stream(&pb.Notification{Timestamp: 12, Delete: []*pb.Path{{Elem: []*pb.PathElem{{Name: "l"}}}}})
		v1.check(w, "t")
		v2.check(w, "t")
	}
	v3 := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"*"}}, Type: client.Once})
	nd.Assert(v3.done && v3.err == nil, "a ONCE query ends")
	v3.check(w, "t")
	w.stop(v1, v2, v3)
}

// HarnessZZPaths: streams of any shape of notification.
//
//nd:harness prop=C01 mode=pb preempt=0 native=0 quick:n=1 quick:time=60 thorough:n=2 thorough:time=3000 maxpaths=3000000
func HarnessZZPaths() {
	w := zzStart([]string{"t"}, true)
	t := w.ts["t"]
	v1 := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"*"}}, Type: client.Stream})
	origin := nd.StringN("o", 1)
	nd.Assume(origin != "*")
	t.stream(&pb.Notification{Timestamp: 10, Prefix: &pb.Path{Origin: origin}, Update: []*pb.Update{{Path: hx.Elems("a", "b"), Val: hx.IntVal(1)}}})
	v1.check(w, "t")
	for i := 0; i < nd.Param("n", 1); i++ {
		name := fmt.Sprint("n", i)
		t.stream(zzNoti(name, int64(20+i), hx.IntVal(nd.Int64(name+".v"))))
		v1.check(w, "t")
	}
	v2 := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"*"}}, Type: client.Once})
	v2.check(w, "t")
	w.stop(v1, v2)
}

// HarnessZZTargets: two targets with shared or distinct requests; disconnects; clients of one or all targets.
//
//nd:harness prop=C01 mode=pb preempt=0 native=0 quick:n=3 quick:time=60 thorough:n=5 thorough:time=3000 maxpaths=3000000
func HarnessZZTargets() {
	shared := nd.Bool("shared")
	w := zzStart([]string{"t", "u"}, shared)
	var vs []*zzView
	all := zzSubscribe(client.Query{Target: "*", Queries: []client.Path{{"*"}}, Type: client.Stream})
	one := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"openconfig", "a"}}, Type: client.Stream})
	vs = append(vs, all, one)
	for i := 0; i < nd.Param("n", 3); i++ {
		name := fmt.Sprint("s", i)
		tn := []string{"t", "u"}[nd.Choose(name+".t", 2)]
		t := w.ts[tn]
		r := "r"
		if !shared {
			r = map[string]string{"t": "r0", "u": "r1"}[tn]
		}
		nd.Assert(t.conns > 0 && t.req != nil, "a configured target is subscribed to")
		nd.Assert(t.req.GetSubscribe().GetSubscription()[0].GetPath().GetElem()[0].GetName() == "q"+r, "with its own request")
		ts := int64(10 + i)
		switch nd.Choose(name, 5) {
		case 0:
			t.stream(hx.Noti("", ts, hx.Upd(hx.IntVal(ts), "a", "x")))
		case 1:
			t.stream(hx.Noti("", ts, hx.Upd(hx.IntVal(ts), "b"), hx.Upd(hx.IntVal(ts), "a", "y")))
		case 2:
			t.stream(&pb.Notification{Timestamp: ts, Delete: []*pb.Path{hx.Elems("a")}})
		case 3:
			t.sync()
		case 4: // the stream ends, and the target streams another state on the next one
			old := t.gone
			t.gone = make(chan struct{})
			conns := t.conns
			close(old)
			t.m = cm.Model{}
			nd.Quiesce()
			all.check(w, "t", "u")
			nd.Advance(time.Minute)
			nd.Assert(t.conns > conns, "the target is subscribed to again")
			t.stream(hx.Noti("", ts, hx.Upd(hx.IntVal(ts), "a", "z")))
		}
		all.check(w, "t", "u")
		one.check(w, "t")
	}
	once := zzSubscribe(client.Query{Target: "*", Queries: []client.Path{{"openconfig"}}, Type: client.Once})
	once.check(w, "t", "u")
	vs = append(vs, once)
	w.stop(vs...)
}

// HarnessZZAtomic: atomic groups, other leaves and deletes, seen by streaming and polling clients.
//
//nd:harness prop=C01 mode=pb preempt=0 native=0 quick:n=3 quick:time=60 thorough:n=4 thorough:time=3000 maxpaths=3000000
func HarnessZZAtomic() {
	w := zzStart([]string{"t"}, true)
	t := w.ts["t"]
	stream := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"*"}}, Type: client.Stream})
	poll := zzSubscribe(client.Query{Target: "t", Queries: []client.Path{{"openconfig", "g"}, {"openconfig", "h"}}, Type: client.Poll})
	wide := nd.StringN("wide", 1)
	nd.Assume(nd.And(wide != "*", wide != ""))
	for i := 0; i < nd.Param("n", 2); i++ {
		name := fmt.Sprint("s", i)
		n := &pb.Notification{Timestamp: int64(10 + i), Prefix: &pb.Path{Elem: hx.PElems([]string{"g"})}}
		up := func(es ...string) {
			n.Update = append(n.Update, hx.Upd(hx.IntVal(nd.Int64(fmt.Sprint(name, ".v", len(n.Update)))), es...))
		}
		switch nd.Choose(name, 6) {
		case 0: // a group
			n.Atomic = true
			up("x")
			up(wide, "y")
		case 1: // a smaller one
			n.Atomic = true
			up("x")
		case 2: // another one
			n.Atomic = true
			up("z", "u")
			n.Prefix.Elem = hx.PElems([]string{"h"})
		case 3:
			n.Prefix = nil
			n.Delete = []*pb.Path{hx.Elems("g")}
		case 4:
			n.Prefix = nil
			up("h2")
			n.Update[0].Path = hx.Elems("h2", "w")
		case 5:
			n.Prefix.Elem = nil
			n.Delete = []*pb.Path{hx.Elems("*")}
		}
		t.stream(n)
		stream.check(w, "t")
		if nd.Bool(name + ".poll") {
			nd.Assert(poll.c.Poll() == nil, "a poll ends")
			poll.check(w, "t")
		}
	}
	w.stop(stream, poll)
}

// stop ends the clients and the collector.
func (w *zzWorld) stop(vs ...*zzView) {
	for _, v := range vs {
		if !v.done {
			v.c.Close()
		}
	}
	w.cancel()
	nd.Quiesce()
	nd.Assert(w.done, "the collector stops")
}
