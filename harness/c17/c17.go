// Package c17 decides C17: target configuration loads are monotonic and announced as exact diffs.
package c17

import (
	"fmt"
	"sync"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/target"
	"github.com/openconfig/gnmi/zzverif/nd"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	pb "github.com/openconfig/gnmi/proto/target"
)

// replay applies the handler calls to a set.
type replay struct {
	set   map[string]target.Update
	calls map[string]int
	n     int
}

func (r *replay) handler() target.Handler {
	return target.Handler{
		Add: func(u target.Update) {
			_, ok := r.set[u.Name]
			nd.Assert(!ok, "only new targets are added")
			r.set[u.Name] = u
			r.calls[u.Name]++
			r.n++
		},
		Update: func(u target.Update) {
			_, ok := r.set[u.Name]
			nd.Assert(ok, "only known targets are updated")
			r.set[u.Name] = u
			r.calls[u.Name]++
			r.n++
		},
		Delete: func(name string) {
			_, ok := r.set[name]
			nd.Assert(ok, "only known targets are deleted")
			delete(r.set, name)
			r.calls[name]++
			r.n++
		},
	}
}

func newReplay() *replay { return &replay{set: map[string]target.Update{}, calls: map[string]int{}} }

// sameAs compares the replayed set with a configuration.
func (r *replay) sameAs(c *pb.Configuration, when string) {
	nd.Assert(len(r.set) == len(c.GetTarget()), "the replayed set has the targets of the configuration"+when)
	for _, k := range all {
		t, in := c.GetTarget()[k]
		if !in {
			continue
		}
		u, ok := r.set[k]
		nd.Assert(ok, "every configured target was announced"+when)
		nd.Assert(proto.Equal(u.Target, t), "the announced settings are those of the configuration"+when)
		nd.Assert(proto.Equal(u.Request, c.GetRequest()[t.GetRequest()]), "the announced request is that of the configuration"+when)
	}
}

// all avoids ranging over maps, whose order is explored.
var all = []string{"t1", "t2", "t3", ""}

var names = []string{"t1", "t2"}
var reqs = []string{"r1", "r2"}

// request is any of a family of requests, told apart by a symbolic string.
func request(name string) *gpb.SubscribeRequest {
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{
		Prefix: &gpb.Path{Origin: nd.StringN(name+".origin", 1)}}}}
}

func tgt(name string, cred bool) *pb.Target {
	t := &pb.Target{Request: reqs[nd.Choose(name+".req", 2)]}
	t.Addresses = []string{nd.StringN(name+".addr", 1)}
	if cred && nd.Bool(name+".cred") {
		t.Credentials = &pb.Credentials{Username: nd.StringN(name+".user", 1)}
	}
	return t
}

// config is any configuration with the two targets and two requests, valid or not.
func config(name string) *pb.Configuration {
	c := &pb.Configuration{Revision: nd.Int64(name + ".rev"), Target: map[string]*pb.Target{}, Request: map[string]*gpb.SubscribeRequest{}}
	for i, r := range reqs {
		if i == 0 || nd.Bool(name+".has."+r) {
			c.Request[r] = request(name + "." + r)
		}
	}
	for i, n := range names {
		if nd.Bool(name + ".has." + n) {
			c.Target[n] = tgt(name+"."+n, i == 0)
		}
	}
	return c
}

// bad makes the configuration invalid in one way.
func bad(name string, c *pb.Configuration) bool {
	switch nd.Choose(name, 6) {
	case 1:
		c.Target[""] = &pb.Target{Request: "r1", Addresses: []string{"a"}}
		c.Request["r1"] = &gpb.SubscribeRequest{}
	case 2:
		c.Target["t3"] = nil
	case 3:
		c.Target["t3"] = &pb.Target{Request: "r1"}
		c.Request["r1"] = &gpb.SubscribeRequest{}
	case 4:
		c.Target["t3"] = &pb.Target{Addresses: []string{"a"}}
	case 5:
		c.Target["t3"] = &pb.Target{Request: "nosuch", Addresses: []string{"a"}}
	default:
		return false
	}
	return true
}

// valid is the validity of what config makes.
func valid(c *pb.Configuration) bool {
	for _, k := range all {
		t, in := c.Target[k]
		if !in {
			continue
		}
		if _, ok := c.Request[t.GetRequest()]; !ok {
			return false
		}
	}
	return true
}

func step(c *target.Config, r *replay, cur **pb.Configuration, cf *pb.Configuration, ok bool, when string) {
	old := *cur
	r.calls = map[string]int{}
	r.n = 0
	in := proto.Clone(cf)
	err := c.Load(cf)
	nd.Assert(proto.Equal(in, cf), "the configuration of the caller is not changed")
	accept := ok && (old == nil || cf.Revision > old.Revision)
	if !accept {
		nd.Assert(err != nil, "an invalid or outdated configuration is refused"+when)
		nd.Assert(r.n == 0, "no handler runs for a refused configuration"+when)
		nd.Assert(proto.Equal(c.Current(), old), "a refused configuration changes nothing"+when)
		if ok {
			nd.Cover("refused revision")
		}
		return
	}
	nd.Assert(err == nil, "a valid newer configuration is accepted"+when)
	nd.Assert(proto.Equal(c.Current(), cf), "the accepted configuration is current"+when)
	r.sameAs(cf, when)
	for _, n := range names {
		nt, ot := cf.Target[n], old.GetTarget()[n]
		same := false
		if nt != nil && ot != nil {
			same = proto.Equal(nt, ot) && proto.Equal(cf.Request[nt.Request], old.Request[ot.Request])
		}
		if same {
			nd.Assert(r.calls[n] == 0, "an unchanged target is not announced"+when)
			nd.Cover("unchanged target")
		} else if nt != nil || ot != nil {
			nd.Assert(r.calls[n] == 1, "a changed target is announced once"+when)
		} else {
			nd.Assert(r.calls[n] == 0, "an unknown target is not announced"+when)
		}
	}
	*cur = cf
}

// HarnessLoads: any sequence of valid or invalid configurations.
//
//nd:harness prop=C17 thorough:maporder=2 quick:loads=2 quick:time=150 thorough:loads=2 thorough:time=3000 maxpaths=3000000
func HarnessLoads() {
	r := newReplay()
	c := target.NewConfig(r.handler())
	var cur *pb.Configuration
	nd.Assert(c.Load(nil) != nil, "no configuration is refused")
	n := nd.Param("loads", 2)
	for i := 0; i < n; i++ {
		cf := config(fmt.Sprintf("c%d", i))
		step(c, r, &cur, cf, valid(cf), "")
	}
}

// HarnessInvalid: every kind of invalid configuration is refused, at first and later, and the next valid one
// is judged as if it had never been offered.
//
//nd:harness prop=C17 maporder=2 quick:time=60 thorough:time=600
func HarnessInvalid() {
	r := newReplay()
	c := target.NewConfig(r.handler())
	var cur *pb.Configuration
	mk := func(name string) *pb.Configuration {
		return &pb.Configuration{Revision: nd.Int64(name + ".rev"), Target: map[string]*pb.Target{"t1": {Request: "r2", Addresses: []string{nd.String(name+".addr", 1)}}}, Request: map[string]*gpb.SubscribeRequest{"r2": {}}}
	}
	for i := 0; i < 3; i++ {
		nm := fmt.Sprintf("c%d", i)
		cf := mk(nm)
		step(c, r, &cur, cf, !bad(nm+".bad", cf), "")
	}
}

// HarnessRequests: chains of three configurations of one target whose request name and contents change,
// including requests that vanish and come back.
//
//nd:harness prop=C17 maporder=2 quick:loads=3 quick:time=60 thorough:loads=4 thorough:time=1200
func HarnessRequests() {
	r := newReplay()
	c := target.NewConfig(r.handler())
	var cur *pb.Configuration
	n := nd.Param("loads", 3)
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("c%d", i)
		cf := &pb.Configuration{Revision: int64(i + 1), Target: map[string]*pb.Target{}, Request: map[string]*gpb.SubscribeRequest{}}
		if nd.Bool(nm + ".has") {
			cf.Target["t1"] = &pb.Target{Request: reqs[nd.Choose(nm+".req", 2)], Addresses: []string{"a"}}
		}
		for _, q := range reqs {
			if nd.Bool(nm + ".has." + q) {
				cf.Request[q] = request(nm + "." + q)
			}
		}
		if !valid(cf) {
			nd.Assume(false)
		}
		step(c, r, &cur, cf, true, "")
	}
}

// HarnessBase: a base configuration is validated and is what the first load is compared with.
//
//nd:harness prop=C17 maporder=2 quick:time=60 thorough:time=600 maxpaths=3000000
func HarnessBase() {
	r := newReplay()
	base := config("base")
	if nd.Bool("invalid") {
		if !bad("base.bad", base) {
			nd.Assume(false)
		}
		c, err := target.NewConfigWithBase(r.handler(), base)
		nd.Assert(c == nil && err != nil, "an invalid base configuration is refused")
		return
	}
	c, err := target.NewConfigWithBase(r.handler(), base)
	if !valid(base) {
		nd.Assert(err != nil, "an invalid base configuration is refused")
		return
	}
	nd.Assert(err == nil && r.n == 0, "a base configuration is not announced")
	nd.Assert(proto.Equal(c.Current(), base), "the base configuration is current")
	for _, k := range all {
		t, in := base.Target[k]
		if !in {
			continue
		}
		r.set[k] = target.Update{Name: k, Target: t, Request: base.Request[t.Request]}
	}
	cur := base
	cf := &pb.Configuration{Revision: nd.Int64("c.rev"), Target: map[string]*pb.Target{"t1": tgt("c.t1", true)}, Request: map[string]*gpb.SubscribeRequest{"r1": request("c.r1"), "r2": request("c.r2")}}
	step(c, r, &cur, cf, true, "")
}

// HarnessNoHandlers: handlers are optional.
//
//nd:harness prop=C17 maporder=2 time=20
func HarnessNoHandlers() {
	c := target.NewConfig(target.Handler{})
	for i := 0; i < 2; i++ {
		cf := &pb.Configuration{Revision: int64(i), Target: map[string]*pb.Target{}, Request: map[string]*gpb.SubscribeRequest{"r1": {}}}
		for _, n := range names {
			if nd.Bool(fmt.Sprint(n, i)) {
				cf.Target[n] = &pb.Target{Request: "r1", Addresses: []string{nd.String(fmt.Sprint("a", n, i), 1)}}
			}
		}
		nd.Assert(c.Load(cf) == nil, "accepted")
		nd.Assert(proto.Equal(c.Current(), cf), "current")
	}
}

// HarnessConc: concurrent loads are applied one after the other.
//
//nd:harness prop=C17 mode=dpor race=1 quick:time=60 thorough:time=600
func HarnessConc() {
	r := newReplay()
	c := target.NewConfig(r.handler())
	var cur *pb.Configuration
	mk := func(rev int64, addr string, names ...string) *pb.Configuration {
		cf := &pb.Configuration{Revision: rev, Target: map[string]*pb.Target{}, Request: map[string]*gpb.SubscribeRequest{"r1": {}}}
		for _, n := range names {
			cf.Target[n] = &pb.Target{Request: "r1", Addresses: []string{addr}}
		}
		return cf
	}
	step(c, r, &cur, mk(1, "a", "t1"), true, "")
	r1 := nd.Int64("rev1")
	r2 := nd.Int64("rev2")
	c1, c2 := mk(r1, "b", "t1", "t2"), mk(r2, "c", "t2")
	var e1, e2 error
	nd.Explore(true)
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); e1 = c.Load(c1) }()
	go func() { defer wg.Done(); e2 = c.Load(c2) }()
	go func() {
		defer wg.Done()
		x := c.Current()
		nd.Assert(proto.Equal(x, cur) || proto.Equal(x, c1) || proto.Equal(x, c2), "Current is one of the configurations")
	}()
	wg.Wait()
	nd.Explore(false)
	nd.Assert((e1 == nil) == (r1 > 1) || e2 == nil && r2 >= r1, "a newer revision is accepted unless it was overtaken")
	nd.Assert((e2 == nil) == (r2 > 1) || e1 == nil && r1 >= r2, "a newer revision is accepted unless it was overtaken ")
	last := cur
	switch {
	case e1 == nil && e2 == nil:
		last = c1
		if r2 > r1 {
			last = c2
		}
		nd.Assert(r1 != r2, "equal revisions are not both accepted")
	case e1 == nil:
		last = c1
	case e2 == nil:
		last = c2
	}
	nd.Assert(proto.Equal(c.Current(), last), "the newest accepted configuration is current")
	r.sameAs(last, "")
}
