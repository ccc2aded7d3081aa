package main

import (
	"context"
	"flag"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/osm"
	"github.com/openconfig/gnmi/zzverif/pipe"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// The CLI runs against the real cache and Subscribe server. Text protos are names of the messages in zzProtos.

var zzProtos = map[string]*pb.SubscribeRequest{}

func zzUnmarshal(text string, m proto.Message) error {
	r, ok := m.(*pb.SubscribeRequest)
	src := zzProtos[text]
	if !ok || src == nil {
		return nil // an empty text is an empty message
	}
	r.Request = proto.Clone(src).(*pb.SubscribeRequest).Request
	return nil
}

// zzExit is what ends a program.
//
//nd:model github.com/golang/glog.Exitf
func zzExitf(format string, args ...any) { nd.Fail("the program exits: " + fmt.Sprintf(format, args...)) }

type zzWorld struct {
	c     *cache.Cache
	m     cm.Model
	ts    int64
	reqs  []*pb.SubscribeRequest
	out   []string
	err   error
	done  bool
	leafs int
}

// zzQuery is a query of the CLI and the request it stands for.
type zzQuery struct {
	flag string
	qs   [][]string
	ps   []*pb.Path
}

func zzQueries() []zzQuery {
	keyed := &pb.Path{Elem: []*pb.PathElem{{Name: "a"}, {Name: "l", Key: map[string]string{"k": "v/w"}}}}
	return []zzQuery{
		{"a", [][]string{{"a"}}, []*pb.Path{hx.Elems("a")}},
		{"/a/*/", [][]string{{"a", "*"}}, []*pb.Path{hx.Elems("a", "*")}},
		{"a/l[k=v/w]", [][]string{{"a", "l", "v/w"}}, []*pb.Path{keyed}},
		{"a/x,b", [][]string{{"a", "x"}, {"b"}}, []*pb.Path{hx.Elems("a", "x"), hx.Elems("b")}},
	}
}

// zzRun starts the CLI with the query handed over in one of the ways.
func (w *zzWorld) start(q zzQuery, mode pb.SubscriptionList_Mode, how int, display string) {
	set := func(k, v string) { nd.Assert(flag.Set(k, v) == nil, "the CLI has its flags") }
	set("address", "server")
	set("display_type", display)
	set("polling_interval", "1s")
	short := nd.Param("short", 0) == 1
	name := func(long, s string) string {
		if short {
			return s
		}
		return long
	}
	if mode == pb.SubscriptionList_POLL {
		set("count", "2")
	}
	switch how {
	case 0:
		set(name("target", "t"), "t")
		set(name("query", "q"), q.flag)
		set(name("query_type", "qt"), map[pb.SubscriptionList_Mode][]string{
			pb.SubscriptionList_ONCE: {"once", "o"}, pb.SubscriptionList_POLL: {"polling", "p"}, pb.SubscriptionList_STREAM: {"streaming", "s"}}[mode][nd.Param("short", 0)])
	case 1:
		set(name("proto", "p"), "request")
	case 2:
		set("proto_file", "file")
	}
	zzProtos["request"] = hx.Sub("t", mode, false, q.ps...)
	osm.Files["file"], osm.Proto = "request", zzUnmarshal
	cfg.Display = func(b []byte) { w.out = append(w.out, string(b)) }
	srv, err := subscribe.NewServer(w.c)
	nd.Assert(err == nil, "a Subscribe server")
	w.c.SetClient(srv.Update)
	gc.Subscribe = func(ctx context.Context, c *grpc.ClientConn) (*gc.Stream, error) {
		st := pipe.New(ctx, srv)
		send := st.OnSend
		st.OnSend = func(r *pb.SubscribeRequest) error {
			if r.GetSubscribe() != nil {
				w.reqs = append(w.reqs, r)
			}
			return send(r)
		}
		return st, nil
	}
	go func() {
		w.err = executeSubscribe(context.Background())
		w.done = true
	}()
	nd.Quiesce()
}

// op is one change of the target.
func (w *zzWorld) op(name string) {
	w.ts++
	up := func(v *pb.TypedValue, p *pb.Path, path ...string) {
		w.m.Update(cm.Leaf{P: path, TS: w.ts, V: []*pb.TypedValue{v}})
		nd.Assert(w.c.GnmiUpdate(&pb.Notification{Timestamp: w.ts, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: p, Val: v}}}) == nil, "an update is accepted")
	}
	switch nd.Choose(name, 5) {
	case 0:
		up(hx.IntVal(w.ts), hx.Elems("a", "x"), "a", "x")
	case 1:
		up(&pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{hx.StrVal("s"), hx.IntVal(2)}}}},
			&pb.Path{Elem: []*pb.PathElem{{Name: "a"}, {Name: "l", Key: map[string]string{"k": "v/w"}}, {Name: "y"}}}, "a", "l", "v/w", "y")
	case 2:
		up(hx.StrVal("t\""), hx.Elems("b", "z"), "b", "z")
	case 3:
		w.m.Delete([]string{"a", "x"}, w.ts)
		w.c.GnmiUpdate(hx.DelNoti("t", w.ts, "a", "x"))
	case 4:
		w.m.Delete([]string{"a"}, w.ts)
		w.c.GnmiUpdate(hx.DelNoti("t", w.ts, "a"))
	}
	nd.Quiesce()
}

func zzText(v *pb.TypedValue, quote bool) string {
	switch x := v.Value.(type) {
	case *pb.TypedValue_IntVal:
		return fmt.Sprint(x.IntVal)
	case *pb.TypedValue_StringVal:
		if quote {
			return fmt.Sprintf("%q", x.StringVal)
		}
		return x.StringVal
	case *pb.TypedValue_LeaflistVal:
		var l []string
		for _, e := range x.LeaflistVal.Element {
			l = append(l, zzText(e, quote))
		}
		if quote {
			return "[" + strings.Join(l, ", ") + "]"
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	return "?"
}

// zzTree is the group display of leaves, which are sorted.
func zzTree(ls [][]string, indent string) string {
	var parts []string
	for i := 0; i < len(ls); {
		j := i
		var sub [][]string
		for j < len(ls) && ls[j][0] == ls[i][0] {
			sub = append(sub, ls[j][1:])
			j++
		}
		s := ""
		if len(sub) == 1 && len(sub[0]) == 1 {
			s = sub[0][0]
		} else {
			s = zzTree(sub, indent+"  ")
		}
		parts = append(parts, indent+"  "+fmt.Sprintf("%q: ", ls[i][0])+s)
		i = j
	}
	return "{\n" + strings.Join(parts, ",\n") + "\n" + indent + "}"
}

// state is what a query of the target's state returns, as paths with the displayed value as last element.
func (w *zzWorld) state(q zzQuery, quote bool) (ls [][]string) {
	for _, l := range w.m.L {
		ok := false
		for _, p := range q.qs {
			ok = ok || nd.Truth(cm.Matches(p, l.P))
		}
		if ok {
			ls = append(ls, append(append([]string{"t"}, l.P...), zzText(l.V[0], quote)))
		}
	}
	sort.Slice(ls, func(i, j int) bool { return strings.Join(ls[i], "\x00") < strings.Join(ls[j], "\x00") })
	return ls
}

// HarnessZZCLI: the CLI subscribes with the request it is given, whichever way, and displays the target's state.
//
//nd:harness prop=C01 mode=pb preempt=0 native=0 quick:n=1 quick:m=1 quick:time=60 thorough:n=2 thorough:m=2 thorough:time=2000 maxpaths=3000000
func HarnessZZCLI() {
	cache.Now = func() time.Time { return time.Unix(0, 1) }
	w := &zzWorld{c: cache.New([]string{"t"}), ts: 10}
	qs := zzQueries()
	q := qs[nd.Choose("query", len(qs))]
	mode := []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, pb.SubscriptionList_STREAM}[nd.Choose("mode", 3)]
	display := []string{"group", "single"}[nd.Choose("display", 2)]
	for i := 0; i < nd.Param("n", 1); i++ {
		w.op(fmt.Sprint("before", i))
	}
	w.op("before")
	first := w.state(q, display == "group")
	w.start(q, mode, nd.Choose("how", 3), display)

	nd.Assert(len(w.reqs) == 1, "the CLI subscribes")
	want := proto.Clone(zzProtos["request"]).(*pb.SubscribeRequest)
	got := proto.Clone(w.reqs[0]).(*pb.SubscribeRequest)
	for _, s := range got.GetSubscribe().GetSubscription() {
		if p := s.GetPath(); len(p.GetElem()) > 0 {
			p.Element = nil // the deprecated encoding of the same path may come along
		}
	}
	nd.Assert(proto.Equal(got, want), "every way to hand over a request gives the same request")

	nd.Assert(!w.done || w.err == nil, fmt.Sprint("the CLI ends well: ", w.err))
	nd.Assert(w.done == (mode == pb.SubscriptionList_ONCE || display == "single" && mode == pb.SubscriptionList_POLL), "the CLI ends after the sync of a ONCE query, and stays otherwise")
	w.check("the initial state", display, nil, first)
	w.out = nil
	for i := 0; !w.done && i < nd.Param("m", 1); i++ {
		old := w.state(q, display == "group")
		if mode == pb.SubscriptionList_POLL {
			if i > 0 {
				break
			}
			w.op("between")
			nd.Advance(time.Second)
			nd.Assert(w.done && w.err == nil, "two polls and the CLI ends")
			w.check("the second poll", display, nil, w.state(q, true))
			return
		}
		w.op(fmt.Sprint("live", i))
		now := w.state(q, display == "group")
		w.live(display, old, now)
		w.out = nil
	}
}

// check asserts that exactly the leaves are displayed.
func (w *zzWorld) check(what, display string, _ [][]string, ls [][]string) {
	if display == "group" {
		nd.Assert(len(w.out) == 1, what+" is displayed once")
		nd.Assert(w.out[0] == zzTree(ls, ""), what+" is displayed as it is")
		return
	}
	var want []string
	for _, l := range ls {
		want = append(want, strings.Join(l[:len(l)-1], "/")+", "+l[len(l)-1])
	}
	got := append([]string{}, w.out...)
	sort.Strings(got)
	sort.Strings(want)
	nd.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), what+" is displayed as it is")
}

// live asserts that the change from old to now is displayed.
func (w *zzWorld) live(display string, old, now [][]string) {
	key := func(l []string) string { return strings.Join(l, "\x00") }
	had, has := map[string]bool{}, map[string]bool{}
	for _, l := range old {
		had[key(l)] = true
	}
	for _, l := range now {
		has[key(l)] = true
	}
	var want []string
	show := func(p []string, v string) {
		if display == "group" {
			want = append(want, zzTree([][]string{append(append([]string{}, p...), v)}, ""))
		} else {
			want = append(want, strings.Join(p, "/")+", "+v)
		}
	}
	for _, l := range now {
		if !had[key(l)] {
			show(l[:len(l)-1], l[len(l)-1])
		}
	}
	for _, l := range old {
		p := l[:len(l)-1]
		gone := true
		for _, n := range now {
			gone = gone && key(n[:len(n)-1]) != key(p)
		}
		if gone {
			show(p, "<nil>")
		}
	}
	got := append([]string{}, w.out...)
	sort.Strings(got)
	sort.Strings(want)
	nd.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), fmt.Sprintf("a change is displayed as it is: %q, want %q", got, want))
}
