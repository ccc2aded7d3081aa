// Package c07 decides C07: subscribers never receive data for targets their ACL denies.
package c07

import (
	"context"
	"errors"
	"fmt"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"
	"github.com/openconfig/gnmi/zzverif/sv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// acl is a table of users and the targets they may see.
type acl struct {
	allow map[string]map[string]bool
	fail  map[string]bool // authorisation cannot be established
}

type rpcACL struct{ allow map[string]bool }

func (a *acl) NewRPCACL(ctx context.Context) (subscribe.RPCACL, error) {
	p, ok := peer.FromContext(ctx)
	nd.Assert(ok, "the ACL is asked with the context of the call")
	u := p.Addr.String()
	if a.fail[u] {
		return nil, errors.New("who are you")
	}
	return &rpcACL{a.allow[u]}, nil
}

func (r *rpcACL) Check(target string) bool { return r.allow[target] }

// Check answers for a user.
func (a *acl) Check(user, target string) bool { return !a.fail[user] && a.allow[user][target] }

// table is any ACL of the users over the targets.
func table(users ...string) *acl {
	a := &acl{map[string]map[string]bool{}, map[string]bool{}}
	for _, u := range users {
		m := map[string]bool{}
		a.allow[u] = m
		for _, t := range []string{"t", "u"} {
			m[t] = nd.Bool("allow." + u + "." + t)
		}
	}
	return a
}

// foreign asserts that nothing of a denied target was sent.
func foreign(a *acl, user string, got []*pb.SubscribeResponse) {
	for _, r := range got {
		if sv.IsSync(r) {
			continue
		}
		n := r.GetUpdate()
		nd.Assert(n != nil, "a response is a notification or the sync marker")
		t := n.GetPrefix().GetTarget()
		nd.Assert(t == "t" || t == "u", "a response names its target")
		nd.Assert(a.allow[user][t], "a response for a denied target was sent")
	}
}

// rejected asserts that the call was rejected with code before any data was sent.
func rejected(b *sv.Sub, code codes.Code) {
	nd.Assert(b.Done && b.Err != nil, "the call is rejected")
	nd.Assert(status.Code(b.Err) == code, fmt.Sprintf("the call is rejected with %v", code))
	nd.Assert(len(b.St.Got) == 0, "nothing is sent before the rejection")
}

// delivered asserts that what was sent for the allowed targets is what the cache has.
func delivered(a *acl, user string, b *sv.Sub) {
	got := b.W.Replay(b.St.Got)
	for _, t := range b.W.Targets {
		if a.allow[user][t] {
			cm.CheckSame(sv.Filter(t, got[t], b.Req), b.W.Matching(t, b.Req), false, "the replayed responses")
		} else {
			nd.Assert(len(got[t]) == 0, "a leaf of a denied target")
		}
	}
}

func fill(w *sv.World, n int) {
	for i := 0; i < n; i++ {
		name := fmt.Sprint("pre", i)
		t := []string{"t", "u"}[nd.Choose(name+".t", 2)]
		w.Tick()
		if nd.Bool(name + ".atomic") {
			w.C.GnmiUpdate(cm.AtomicNoti(t, int64(10+i), cm.Elems(name+".p", 2, false), []string{"x", "y"}, cm.Ints(1, 2)))
		} else {
			w.C.GnmiUpdate(cm.Noti(t, int64(10+i), 0, cm.Elems(name+".p", 2, false), hx.IntVal(nd.Int64(name+".v"))))
		}
	}
}

func modes(name string) pb.SubscriptionList_Mode {
	return []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, pb.SubscriptionList_STREAM}[nd.Choose(name, 3)]
}

// HarnessCall: any table, any content, any request; two users, changes and polls after the first snapshot.
//
//nd:harness prop=C07 mode=pb preempt=0 quick:pre=1 quick:post=1 quick:time=50 thorough:pre=2 thorough:post=2 thorough:time=3000 maxpaths=3000000
func HarnessCall() {
	a := table("1")
	w := sv.New([]string{"t", "u"}, nil, subscribe.WithACL(a))
	fill(w, nd.Param("pre", 1))
	mode := modes("mode")
	req := sv.Request("r", mode, 1, 2)
	target := req.GetSubscribe().GetPrefix().GetTarget()
	only := req.GetSubscribe().GetUpdatesOnly()
	b := w.Start("1", req, false)
	nd.Quiesce()
	if target != "*" && !a.allow["1"][target] {
		rejected(b, codes.PermissionDenied)
		return
	}
	foreign(a, "1", b.St.Got)
	nd.Assert(sv.Syncs(b.St.Got) == 1, "exactly one sync marker")
	if !only {
		delivered(a, "1", b)
	}
	if mode == pb.SubscriptionList_ONCE {
		nd.Assert(b.Done && b.Err == nil, "the stream ends successfully")
		return
	}
	for i := 0; i < nd.Param("post", 1); i++ {
		from := len(b.St.Got)
		w.Write(fmt.Sprint("post", i), 6)
		nd.Quiesce()
		if mode == pb.SubscriptionList_POLL {
			b.St.Reqs <- &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
			nd.Quiesce()
			nd.Assert(sv.Syncs(b.St.Got[from:]) == 1, "exactly one sync marker")
			b.St.Got = b.St.Got[from:]
		}
		foreign(a, "1", b.St.Got)
		if !only {
			delivered(a, "1", b)
		}
	}
	nd.Assert(!b.Done, "the subscription goes on")
	b.Cancel()
	nd.Quiesce()
}

// HarnessReject: whatever the request, a call whose authorisation cannot be established is unauthenticated, and one
// for a denied target sends nothing even while the content changes.
//
//nd:harness prop=C07 mode=pb preempt=0 quick:time=20 thorough:time=600
func HarnessReject() {
	a := table("1")
	a.fail["1"] = nd.Bool("fail")
	w := sv.New([]string{"t", "u"}, nil, subscribe.WithACL(a))
	fill(w, 1)
	mode := modes("mode")
	target := []string{"t", "*", "u"}[nd.Choose("target", 3)]
	req := hx.Sub(target, mode, nd.Bool("updatesOnly"), hx.Elems("*"))
	if nd.Bool("no subscription") {
		req = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
	}
	b := w.Make("1", req, false)
	go b.Run()
	nd.Quiesce()
	switch {
	case a.fail["1"]:
		rejected(b, codes.Unauthenticated)
	case req.GetSubscribe() == nil:
		rejected(b, codes.InvalidArgument)
	case target != "*" && !a.allow["1"][target]:
		rejected(b, codes.PermissionDenied)
	default:
		nd.Assert(!b.Done || b.Err == nil, "the call is accepted")
		nd.Assert(sv.Syncs(b.St.Got) == 1, "the call is answered")
	}
	w.Write("post", 3)
	nd.Quiesce()
	foreign(a, "1", b.St.Got)
	if b.Err != nil {
		nd.Assert(len(b.St.Got) == 0, "nothing is sent after the rejection")
	}
	b.Cancel()
	nd.Quiesce()
}

// step is one change over a small alphabet.
func step(w *sv.World, name string, i int) {
	w.Tick()
	t := []string{"t", "u"}[nd.Choose(name+".t", 2)]
	ts := int64(10 + i)
	switch nd.Choose(name, 7) {
	case 0:
		w.C.GnmiUpdate(cm.Noti(t, ts, 0, []string{"c", "a"}, hx.IntVal(ts)))
	case 1:
		w.C.GnmiUpdate(cm.Del(t, ts, 0, []string{"c"}))
	case 2:
		w.C.Reset(t)
	case 3:
		w.C.GnmiUpdate(cm.AtomicNoti(t, ts, []string{"c", "b"}, []string{"x", "y"}, cm.Ints(1, ts)))
	case 4:
		w.C.Remove(t)
		w.C.Add(t)
	case 5:
		n := hx.Noti(t, ts, hx.Upd(hx.IntVal(ts), "c", "a"), hx.Upd(hx.IntVal(ts), "c", "d"))
		n.Delete = []*pb.Path{hx.Elems("c", "b")}
		w.C.GnmiUpdate(n)
	case 6:
		w.C.Connect(t)
		w.C.UpdateMetadata()
	}
}

// HarnessStream: longer histories with two users at once, one of them stalled at times.
//
//nd:harness prop=C07 mode=pb preempt=0 quick:post=2 quick:time=50 thorough:post=4 thorough:time=3000 maxpaths=3000000
func HarnessStream() {
	a := table("1", "2")
	w := sv.New([]string{"t", "u"}, nil, subscribe.WithACL(a))
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	w.C.GnmiUpdate(cm.Noti("u", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	held := nd.Bool("stalled")
	only := nd.Bool("updatesOnly")
	b1 := w.Start("1", hx.Sub("*", pb.SubscriptionList_STREAM, only, hx.Elems()), held)
	b2 := w.Start("2", hx.Sub("*", pb.SubscriptionList_STREAM, false, hx.Elems("c"), hx.Elems("*", "a")), false)
	nd.Quiesce()
	for i := 0; i < nd.Param("post", 2); i++ {
		step(w, fmt.Sprint("s", i), i+1)
		nd.Quiesce()
	}
	b1.Release()
	nd.Quiesce()
	foreign(a, "1", b1.St.Got)
	foreign(a, "2", b2.St.Got)
	if !only {
		delivered(a, "1", b1)
	}
	delivered(a, "2", b2)
	nd.Assert(!b1.Done && !b2.Done, "the subscriptions go on")
	b1.Cancel()
	b2.Cancel()
	nd.Quiesce()
}

var quiet = cache.WithExcludedMeta([]string{metadata.Sync, metadata.Connected, metadata.ConnectedAddr, metadata.ConnectError, metadata.AddCount,
	metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount,
	metadata.SuppressedCount, metadata.LatestTimestamp, metadata.Size, metadata.ServerName})

// HarnessRace: interleavings of an all-targets stream of a user who may see one target with changes of both.
//
//nd:harness prop=C07 mode=pb quick:preempt=1 quick:time=40 thorough:preempt=3 thorough:time=3000 maxpaths=50000000
func HarnessRace() {
	a := &acl{map[string]map[string]bool{"1": {"t": true}}, map[string]bool{}}
	w := sv.New([]string{"t", "u"}, []cache.Option{quiet}, subscribe.WithACL(a))
	w.C.GnmiUpdate(cm.Noti("t", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	w.C.GnmiUpdate(cm.Noti("u", 5, 0, []string{"c", "a"}, hx.IntVal(1)))
	b := w.Make("1", hx.Sub("*", []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE}[nd.Choose("mode", 2)], false, hx.Elems("c")), false)
	nd.Explore(true)
	go b.Run()
	go func() {
		if nd.Bool("delete") {
			w.C.GnmiUpdate(cm.Del("u", 11, 0, []string{"c", "a"}))
		} else {
			w.C.GnmiUpdate(cm.Noti("u", 11, 0, []string{"c", "a"}, hx.IntVal(2)))
		}
		w.C.GnmiUpdate(cm.Noti("t", 11, 0, []string{"c", "a"}, hx.IntVal(2)))
	}()
	nd.Quiesce()
	nd.Explore(false)
	foreign(a, "1", b.St.Got)
	nd.Assert(sv.Syncs(b.St.Got) == 1, "exactly one sync marker")
	if b.Req.GetSubscribe().GetMode() == pb.SubscriptionList_STREAM {
		delivered(a, "1", b)
	} else {
		nd.Assert(b.Done && b.Err == nil && len(sv.Sent("t", b.St.Got)) == 1, "the leaf of the allowed target is sent")
	}
	b.Cancel()
	nd.Quiesce()
}
