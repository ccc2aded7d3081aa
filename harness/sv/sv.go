// Package sv has what the harnesses of the Subscribe server share: a server over a cache, subscribers whose sends
// can be stalled, and the replay of what they received.
package sv

import (
	"context"
	"sync"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zzverif/cm"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// World is a server over a cache.
type World struct {
	C       *cache.Cache
	S       *subscribe.Server
	Targets []string
	now     int64
}

// New returns a server over a cache of the targets.
func New(targets []string, co []cache.Option, so ...subscribe.Option) *World {
	w := &World{C: cache.New(targets, co...), Targets: targets, now: 1 << 60}
	cm.Clock(w.now)
	s, err := subscribe.NewServer(w.C, so...)
	nd.Assert(err == nil, "NewServer")
	w.S = s
	w.C.SetClient(s.Update)
	return w
}

// Tick advances the clock of the cache.
func (w *World) Tick() {
	w.now += 1000
	cm.Clock(w.now)
}

// Sub is one subscription.
type Sub struct {
	W       *World
	St      *hx.Stream
	Req     *pb.SubscribeRequest
	Cancel  context.CancelFunc
	Err     error
	Done    bool
	mu      sync.Mutex
	gate    chan struct{}
	Blocked bool
	left    int // sends until the stall
}

// Start starts a subscription; it is stalled before its first send if held.
func (w *World) Start(name string, req *pb.SubscribeRequest, held bool) *Sub {
	b := w.Make(name, req, held)
	go b.Run()
	return b
}

// Make prepares a subscription for Run.
func (w *World) Make(name string, req *pb.SubscribeRequest, held bool) *Sub {
	ctx, cancel := context.WithCancel(context.Background())
	b := &Sub{W: w, Req: req, Cancel: cancel}
	b.St = hx.NewStream(ctx, name, req)
	if held {
		b.Hold()
	}
	b.St.OnSend = func(*pb.SubscribeResponse) error {
		b.mu.Lock()
		g := b.gate
		b.mu.Unlock()
		if g != nil {
			b.Blocked = true
			select {
			case <-g:
				b.Blocked = false
			case <-ctx.Done():
				return ctx.Err()
			}
		}
		return nil
	}
	return b
}

// Run runs the RPC.
func (b *Sub) Run() {
	b.Err = b.W.S.Subscribe(b.St)
	b.Done = true
	b.Cancel()
}

// Hold stalls the subscriber from its next send on.
func (b *Sub) Hold() {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.gate == nil {
		b.gate = make(chan struct{})
	}
}

// Release ends the stall.
func (b *Sub) Release() {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.gate != nil {
		close(b.gate)
		b.gate = nil
	}
}

// IsSync reports whether r is a sync marker.
func IsSync(r *pb.SubscribeResponse) bool {
	_, ok := r.GetResponse().(*pb.SubscribeResponse_SyncResponse)
	return ok
}

// Syncs is the number of sync markers.
func Syncs(got []*pb.SubscribeResponse) int {
	n := 0
	for _, r := range got {
		if IsSync(r) {
			nd.Assert(r.GetSyncResponse(), "the sync marker is true")
			n++
		}
	}
	return n
}

// Queries are the complete paths of the request, without the target.
func Queries(req *pb.SubscribeRequest) (qs [][]string) {
	l := req.GetSubscribe()
	for _, s := range l.GetSubscription() {
		var q []string
		if o := l.GetPrefix().GetOrigin(); o != "" {
			q = append(q, o)
		}
		if o := s.GetPath().GetOrigin(); o != "" {
			q = append(q, o)
		}
		q = append(q, path.ToStrings(l.GetPrefix(), false)...)
		qs = append(qs, append(q, path.ToStrings(s.GetPath(), false)...))
	}
	return
}

// Matching is the content of target t that matches one of the request's paths, metadata aside.
func (w *World) Matching(t string, req *pb.SubscribeRequest) (ls []cm.Leaf) {
	return Filter(t, cm.Content(w.C, t), req)
}

// MatchingAll is Matching with the metadata.
func (w *World) MatchingAll(t string, req *pb.SubscribeRequest) (ls []cm.Leaf) {
	return Filter(t, cm.All(w.C, t), req)
}

// Filter is what of ls of target t matches one of the request's paths.
func Filter(t string, all []cm.Leaf, req *pb.SubscribeRequest) (ls []cm.Leaf) {
	if tt := req.GetSubscribe().GetPrefix().GetTarget(); tt != "*" && tt != t {
		return nil
	}
	qs := Queries(req)
	for _, l := range all {
		m := false
		for _, q := range qs {
			m = nd.Or(m, cm.Matches(q, l.P))
		}
		if nd.Truth(m) {
			ls = append(ls, l)
		}
	}
	return
}

// Replay applies the responses in order and returns each target's leaves, metadata aside.
func (w *World) Replay(got []*pb.SubscribeResponse) map[string][]cm.Leaf {
	return w.ReplayFrom(nil, got)
}

// ReplayFrom applies the responses in order to base.
func (w *World) ReplayFrom(base map[string][]cm.Leaf, got []*pb.SubscribeResponse) map[string][]cm.Leaf {
	f := cm.NewFeed(w.Targets...)
	for t, ls := range base {
		*f.T[t] = append([]cm.Leaf{}, ls...)
	}
	for _, r := range got {
		if u := r.GetUpdate(); u != nil {
			f.Apply(u)
		}
	}
	m := map[string][]cm.Leaf{}
	for _, t := range w.Targets {
		for _, l := range *f.T[t] {
			if len(l.P) > 0 && nd.Truth(l.P[0] == "meta") {
				continue
			}
			m[t] = append(m[t], l)
		}
	}
	return m
}

// Sent is every leaf that was ever sent for target t, metadata aside.
func Sent(t string, got []*pb.SubscribeResponse) (ls []cm.Leaf) {
	for _, r := range got {
		n := r.GetUpdate()
		if n == nil || n.GetPrefix().GetTarget() != t {
			continue
		}
		if n.GetAtomic() {
			ls = append(ls, cm.LeafOf(path.ToStrings(n.GetPrefix(), true)[1:], n))
			continue
		}
		for _, u := range n.GetUpdate() {
			p := append(path.ToStrings(n.GetPrefix(), true)[1:], path.ToStrings(u.GetPath(), false)...)
			ls = append(ls, cm.Leaf{P: p, TS: n.GetTimestamp(), V: []*pb.TypedValue{u.GetVal()}})
		}
	}
	return
}

// CheckConverged asserts that the replay of the responses is the matching content of the cache.
func (b *Sub) CheckConverged(what string) {
	got := b.W.Replay(b.St.Got)
	for _, t := range b.W.Targets {
		// A leaf above the subscribed path is streamed as well, see C06.
		cm.CheckSame(Filter(t, got[t], b.Req), b.W.Matching(t, b.Req), false, what)
	}
}

// CheckSnapshot asserts that every leaf of want of target t was sent before the sync marker.
func (b *Sub) CheckSnapshot(t string, want []cm.Leaf) {
	var before []*pb.SubscribeResponse
	for _, r := range b.St.Got {
		if IsSync(r) {
			break
		}
		before = append(before, r)
	}
	sent := Sent(t, before)
	for _, w := range want {
		ok := false
		for _, s := range sent {
			ok = nd.Or(ok, cm.Eq(s.P, w.P))
		}
		nd.Assert(ok, "every matching leaf is sent before the sync marker")
	}
}
