package sv

import (
	"fmt"

	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Request is any request of 1..paths paths of up to max elements with globs: prefix elements, an origin in the
// prefix or in the path, an absent path, one target or all.  Only a STREAM request may be updates_only.
func Request(name string, mode pb.SubscriptionList_Mode, paths, max int) *pb.SubscribeRequest {
	target := []string{"t", "*"}[nd.Choose(name+".target", 2)]
	l := &pb.SubscriptionList{Prefix: &pb.Path{Target: target}, Mode: mode}
	if mode == pb.SubscriptionList_STREAM {
		l.UpdatesOnly = nd.Bool(name + ".updatesOnly")
	}
	n := 1 + nd.Choose(name+".paths", paths)
	pre := func() {
		if nd.Bool(name + ".prefix") {
			l.Prefix.Elem = hx.PElems([]string{nd.StringN(name+".pre", 1)})
		}
	}
	sub := func(i, max int, origin string) {
		p := hx.Elems(Elems(fmt.Sprint(name, ".p", i), max)...)
		p.Origin = origin
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	switch nd.Choose(name+".origin", 4) {
	case 0: // prefix elements and paths
		pre()
		for i := 0; i < n; i++ {
			sub(i, max, "")
		}
	case 1: // the origin in the prefix
		l.Prefix.Origin = nd.StringN(name+".o", 1)
		for i := 0; i < n; i++ {
			sub(i, max-1, "")
		}
	case 2: // the origin in the path, and a path without an origin
		sub(0, max-1, nd.StringN(name+".o", 1))
		for i := 1; i < n; i++ {
			sub(i, max, "")
		}
	case 3: // no path
		pre()
		l.Subscription = []*pb.Subscription{{}}
		for i := 1; i < n; i++ {
			sub(i, max, "")
		}
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

// Elems is a path of 0..max one-byte elements, globs included.
func Elems(name string, max int) []string {
	n := nd.Choose(name+".n", max+1)
	p := make([]string, n)
	for i := range p {
		p[i] = nd.StringN(fmt.Sprintf("%s.%d", name, i), 1)
	}
	return p
}

// Write is one accepted or rejected change of the cache.
func (w *World) Write(name string, ops int) {
	t := "t"
	if nd.Bool(name + ".u") {
		t = "u"
	}
	w.Tick()
	switch nd.Choose(name, ops) {
	case 0:
		p := cm.Elems(name+".p", 2, false)
		n := cm.Noti(t, cm.TS(name+".ts"), 0, p, hx.IntVal(nd.Int64(name+".v")))
		if len(p) == 2 && nd.Bool(name+".o") {
			n = cm.Noti(t, n.Timestamp, 0, p[1:], n.Update[0].Val)
			n.Prefix.Origin = p[0]
		}
		w.C.GnmiUpdate(n)
	case 1:
		w.C.GnmiUpdate(cm.Del(t, cm.TS(name+".ts"), 0, cm.Elems(name+".q", 2, true)))
	case 2:
		w.C.Reset(t)
	case 3:
		w.C.GnmiUpdate(hx.Noti(t, cm.TS(name+".ts"), hx.Upd(hx.IntVal(1), cm.Elems(name+".p", 1, false)...), hx.Upd(hx.IntVal(nd.Int64(name+".v")), cm.Elems(name+".p2", 1, false)...)))
	case 4:
		w.C.Connect(t)
	case 5:
		w.C.GnmiUpdate(cm.AtomicNoti(t, cm.TS(name+".ts"), cm.Elems(name+".p", 2, false), []string{"x", "y"}, cm.Ints(1, nd.Int64(name+".v"))))
	}
}
