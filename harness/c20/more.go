package c20

import (
	"context"
	"fmt"
	"io"
	"math"

	"google.golang.org/protobuf/proto"

	fake "github.com/openconfig/gnmi/testing/fake/gnmi"
	"github.com/openconfig/gnmi/testing/fake/queue"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
)

// HarnessOrder: several values with any timestamps and deltas, one of them possibly added later.
//
//nd:harness prop=C20 native=0 quick:values=3 quick:steps_=4 quick:time=130 thorough:values=3 thorough:steps_=6 thorough:time=1800 maxpaths=3000000
func HarnessOrder() {
	n := nd.Param("values", 3)
	var cfg []*fpb.Value
	for i := 0; i < n; i++ {
		name := fmt.Sprint("v", i)
		v := value(name, kConst, 0)
		v.Value = &fpb.Value_IntValue{&fpb.IntValue{Value: int64(i)}}
		v.Timestamp = stamp(name)
		v.Timestamp.DeltaMax = v.Timestamp.DeltaMin
		switch i {
		case 0:
			v.Repeat = int32(nd.Choose(name+".repeat", 3))
		case 1:
			v.Repeat = int32(1 + nd.Choose(name+".repeat", 2))
		default:
			v.Repeat = 1
		}
		nd.Assume(goodStamp(v.Timestamp))
		cfg = append(cfg, v)
	}
	orig := clone(cfg)
	q := queue.New(false, 3, cfg[:n-1])
	q.Add(cfg[n-1])
	latest := q.Latest()
	max := int64(0)
	for _, c := range orig {
		if c.Timestamp.Timestamp > max {
			max = c.Timestamp.Timestamp
		}
	}
	nd.Assert(latest == max, "Latest is the latest timestamp in the queue")
	steps := nd.Param("steps_", 4)
	out, drained := run(q, orig, steps)
	t := total(orig)
	if t >= 0 && t < steps {
		nd.Assert(drained, "a bounded configuration ends")
		nd.Cover("ends")
	} else {
		nd.Assert(!drained, "an unbounded configuration does not end")
	}
	// A value comes out before later ones.
	first := map[string]bool{}
	for _, e := range out {
		for _, c := range orig {
			if !first[c.Path[0]] && c.Path[0] != e.Path[0] {
				nd.Assert(e.Timestamp.Timestamp <= c.Timestamp.Timestamp, "a value is emitted in time")
			}
		}
		first[e.Path[0]] = true
	}
}

// HarnessInvalid: no configuration makes the generator panic, and whatever it generates stays ordered.
//
//nd:harness prop=C20 native=0 quick:time=100 thorough:time=900 maxpaths=3000000
func HarnessInvalid() {
	k := nd.Choose("kind", kinds)
	nd.Assume(k != kDouble)
	v := value("a", k, nd.Choose("opts", 2))
	switch nd.Choose("timestamp", 3) {
	case 0:
		v.Timestamp = &fpb.Timestamp{Timestamp: 5, DeltaMin: 1, DeltaMax: 1}
	case 1:
		nd.Assume(k == kConst)
		t := stamp("a")
		nd.Assume(nd.Implies(validStamp(t), goodStamp(t)))
		v.Timestamp = t
	}
	if k == kConst && nd.Bool("no value") {
		v.Value = nil
	}
	if k == kInt || k == kUint { // HarnessRanges has the valid ones
		nd.Assume(!goodValue(v))
	}
	q := queue.New(false, 3, []*fpb.Value{v})
	var last int64
	for i := 0; i < 2; i++ {
		x, err := q.Next()
		if err != nil {
			nd.Cover("error")
			return
		}
		e := x.(*fpb.Value)
		nd.Assert(i == 0 || e.Timestamp.Timestamp >= last, "updates are emitted in non-decreasing timestamp order")
		last = e.Timestamp.Timestamp
	}
	nd.Cover("values")
}

func validStamp(t *fpb.Timestamp) bool {
	return nd.And(t.Timestamp >= 0, nd.And(t.DeltaMin >= 0, t.DeltaMin <= t.DeltaMax))
}

// HarnessStampsWide: valid timestamp configurations with timestamps that may overflow.
//
//nd:harness prop=C20 native=0 time=20 maxpaths=3000000
func HarnessStampsWide() {
	v := value("a", kConst, 0)
	v.Timestamp = stamp("a")
	nd.Assume(validStamp(v.Timestamp))
	nd.Assume(nd.Or(v.Timestamp.DeltaMax == math.MaxInt64, v.Timestamp.Timestamp > math.MaxInt64-v.Timestamp.DeltaMax))
	run(queue.New(false, 3, []*fpb.Value{v}), clone([]*fpb.Value{v}), 2)
}

func response(e *fpb.Value, target string) *pb.SubscribeResponse {
	n := &pb.Notification{Timestamp: e.GetTimestamp().GetTimestamp()}
	if target != "" {
		n.Prefix = &pb.Path{Target: target}
	}
	p := &pb.Path{Element: e.Path}
	var tv *pb.TypedValue
	switch x := e.Value.(type) {
	case *fpb.Value_IntValue:
		tv = &pb.TypedValue{Value: &pb.TypedValue_IntVal{x.IntValue.Value}}
	case *fpb.Value_UintValue:
		tv = &pb.TypedValue{Value: &pb.TypedValue_UintVal{x.UintValue.Value}}
	case *fpb.Value_DoubleValue:
		tv = &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{x.DoubleValue.Value}}
	case *fpb.Value_StringValue:
		tv = &pb.TypedValue{Value: &pb.TypedValue_StringVal{x.StringValue.Value}}
	case *fpb.Value_BoolValue:
		tv = &pb.TypedValue{Value: &pb.TypedValue_BoolVal{x.BoolValue.Value}}
	case *fpb.Value_StringListValue:
		l := &pb.ScalarArray{}
		for _, s := range x.StringListValue.Value {
			l.Element = append(l.Element, &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}})
		}
		tv = &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{l}}
	case *fpb.Value_Delete:
		n.Delete = []*pb.Path{p}
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{n}}
	case *fpb.Value_Sync:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{x.Sync != 0}}
	}
	n.Update = []*pb.Update{{Path: p, Val: tv}}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{n}}
}

func isSync(r *pb.SubscribeResponse) bool {
	_, ok := r.Response.(*pb.SubscribeResponse_SyncResponse)
	return ok
}

// HarnessClient: the fake target's stream is the generator's, with the sync marker after the first emission of every
// value.
//
//nd:harness prop=C20 native=0 mode=pb preempt=0 quick:values=2 quick:time=100 thorough:values=3 thorough:time=1200 maxpaths=3000000
func HarnessClient() { stream(false) }

// HarnessRandomGenerator: the values are configured as a random generator.
//
//nd:harness prop=C20 native=0 mode=pb preempt=0 values=2 time=20 maxpaths=3000000
func HarnessRandomGenerator() { stream(true) }

func stream(random bool) {
	n := nd.Param("values", 2)
	var cfg []*fpb.Value
	for i := 0; i < n; i++ {
		name := fmt.Sprint("v", i)
		v := value(name, []int{kConst, kIntList, kDelete, kStringList, kBool, kStringListValue}[nd.Choose(name+".kind", 6)], 1)
		v.Timestamp = &fpb.Timestamp{Timestamp: int64(4 * nd.Choose(name+".ts", 2)), DeltaMin: 4, DeltaMax: 4}
		v.Repeat = int32(1 + nd.Choose(name+".repeat", 2))
		cfg = append(cfg, v)
	}
	c := &fpb.Config{Target: "dev"}
	if random {
		c.Generator = &fpb.Config_Random{&fpb.RandomGenerator{Seed: 3, Values: clone(cfg)}}
	} else {
		c.Seed, c.Values = 3, clone(cfg)
	}
	c.DisableSync = nd.Bool("no sync")
	target := "t"
	if c.DisableSync {
		target = ""
	}
	poll := nd.Bool("poll")
	mode := pb.SubscriptionList_STREAM
	if poll {
		mode = pb.SubscriptionList_POLL
	}
	ctx, cancel := context.WithCancel(context.Background())
	st := hx.NewStream(ctx, "client", hx.Sub(target, mode, false))
	cl := fake.NewClient(c)
	done := make(chan error, 1)
	go func() { done <- cl.Run(st) }()
	nd.Quiesce()
	rounds := 1
	if poll {
		checkSent(st.Got, cfg, c.DisableSync, target)
		st.Got = nil
		st.Reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{&pb.Poll{}}}
		nd.Quiesce()
		rounds = 2
		nd.Cover("poll")
	}
	checkSent(st.Got, cfg, c.DisableSync, target)
	nd.Assert(len(cl.Requests()) == rounds, "the requests are recorded")
	if !poll {
		nd.Assert(<-done == nil, "the stream ends")
	}
	cancel()
	nd.Quiesce()
}

func checkSent(got []*pb.SubscribeResponse, cfg []*fpb.Value, noSync bool, target string) {
	q := queue.New(false, 3, clone(cfg))
	seen := map[string]bool{}
	syncs := 0
	for _, r := range got {
		if isSync(r) {
			syncs++
			nd.Assert(r.GetSyncResponse(), "the sync marker is true")
			nd.Assert(len(seen) == len(cfg), "the sync marker comes after the first emission of every value")
			continue
		}
		x, err := q.Next()
		nd.Assert(err == nil && x != nil, "the target emits no more than the generator")
		e := x.(*fpb.Value)
		seen[e.Path[0]] = true
		nd.Assert(proto.Equal(r, response(e, target)), "the target emits what the generator generates")
	}
	x, err := q.Next()
	nd.Assert(err == nil && x == nil, "the target emits everything the generator generates")
	if noSync {
		nd.Assert(syncs == 0, "no sync marker if disabled")
	} else {
		nd.Assert(syncs == 1, "one sync marker")
	}
}

// HarnessFixed: the fixed generator emits the configured responses in order and then the sync marker.
//
//nd:harness prop=C20 native=0 mode=pb preempt=0 quick:responses=2 thorough:responses=4 quick:time=60 thorough:time=600
func HarnessFixed() {
	n := nd.Choose("responses", 1+nd.Param("responses", 3))
	var rs []*pb.SubscribeResponse
	for i := 0; i < n; i++ {
		if nd.Bool(fmt.Sprint("sync", i)) {
			rs = append(rs, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}})
		} else {
			rs = append(rs, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{hx.Noti("dev", int64(4*nd.Choose(fmt.Sprint("ts", i), 3)), hx.Upd(hx.IntVal(int64(i)), "a"))}})
		}
	}
	c := &fpb.Config{Target: "dev", DisableSync: nd.Bool("no sync"), EnableDelay: nd.Bool("delay"),
		Generator: &fpb.Config_Fixed{&fpb.FixedGenerator{Responses: rs}}}
	orig := proto.Clone(c).(*fpb.Config)
	target := []string{"", "t"}[nd.Choose("target", 2)]
	for round := 0; round < 2; round++ {
		st := hx.NewStream(context.Background(), "client", hx.Sub(target, pb.SubscriptionList_STREAM, false))
		nd.Assert(fake.NewClient(c).Run(st) == nil, "the stream ends")
		want := n
		if !c.DisableSync {
			want++
		}
		nd.Assert(len(st.Got) == want, "every response is emitted once")
		for i, r := range st.Got {
			if i == n || isSync(rs[i]) {
				nd.Assert(r.GetSyncResponse(), "the sync marker comes last")
				continue
			}
			w := proto.Clone(rs[i]).(*pb.SubscribeResponse)
			if target != "" {
				w.GetUpdate().Prefix.Target = target
			}
			nd.Assert(proto.Equal(r, w), "the responses are emitted in order")
		}
		nd.Assert(proto.Equal(c, orig), "emitting does not change the configuration")
	}
}

var _ = io.EOF
