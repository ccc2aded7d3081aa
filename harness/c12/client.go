package c12

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/openconfig/gnmi/cli"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"
	"github.com/openconfig/gnmi/zzverif/nd"

	"google.golang.org/grpc"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// response is any response a server can send.
func response(name string, val func(string) *pb.TypedValue) *pb.SubscribeResponse {
	switch nd.Choose(name, 6) {
	case 0:
		return &pb.SubscribeResponse{}
	case 1:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{}}}
	case 2:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: nd.Bool(name + ".sync")}}
	}
	n := &pb.Notification{Timestamp: nd.Int64(name + ".ts")}
	switch nd.Choose(name+".pre", 4) {
	case 1:
		n.Prefix = &pb.Path{}
	case 2:
		n.Prefix = &pb.Path{Target: "t"}
	case 3:
		n.Prefix = &pb.Path{Elem: hx.PElems([]string{"x"})}
	}
	u := &pb.Update{Path: cpath(name + ".p")}
	switch k := nd.Choose(name+".k", 4); k {
	case 0:
		u.Val = val(name + ".v")
		n.Update = append(n.Update, u)
	case 1:
		u.Value = &pb.Value{Type: pb.Encoding(nd.Choose(name+".enc", 5)), Value: [][]byte{nil, []byte("{"), []byte("{}")}[nd.Choose(name+".json", 3)]}
		n.Update = append(n.Update, u)
	case 2:
		if u.Path != nil {
			n.Delete = append(n.Delete, u.Path)
		}
	case 3:
		u.Val = hx.IntVal(1)
		n.Update = append(n.Update, u, &pb.Update{Path: hx.Elems("x", "z"), Val: hx.StrVal("s")})
		n.Delete = append(n.Delete, hx.Elems("*"))
	}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}
}

func cpath(name string) *pb.Path {
	switch nd.Choose(name, 6) {
	case 0:
		return nil
	case 1:
		return &pb.Path{}
	case 2:
		return hx.Elems("x")
	case 3:
		return hx.Elems("x", "y")
	case 4:
		return &pb.Path{Element: []string{""}}
	}
	return &pb.Path{Origin: "o", Elem: []*pb.PathElem{{Name: "l", Key: map[string]string{"k": "*"}}}}
}

func serve(resps []*pb.SubscribeResponse, err error) {
	gc.Subscribe = func(ctx context.Context, _ *grpc.ClientConn) (*gc.Stream, error) {
		return &gc.Stream{Ctx: ctx, Resps: resps, Err: err}, nil
	}
}

func query(typ client.Type) client.Query {
	return client.Query{Addrs: []string{"a"}, Target: "t", Type: typ, Queries: []client.Path{{"*"}}, Timeout: time.Second}
}

// HarnessClient decodes any two responses into the client's cache.
//
//nd:harness prop=C12 mode=pb preempt=0 time=200
func HarnessClient() {
	typ := []client.Type{client.Once, client.Poll, client.Stream}[nd.Choose("type", 3)]
	rs := []*pb.SubscribeResponse{response("r0", Val)}
	sync := &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	x := &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: hx.Noti("t", 5, hx.Upd(hx.IntVal(1), "x"), hx.Upd(hx.IntVal(1), "x", "y", "z"))}}
	switch nd.Choose("order", 4) {
	case 0:
		rs = append(rs, sync)
	case 1:
		rs = append([]*pb.SubscribeResponse{sync, sync}, rs...)
	case 2:
		rs = append(rs, x, rs[0])
	case 3:
		rs = append([]*pb.SubscribeResponse{x}, rs...)
	}
	serve(rs, nil)
	c := client.New()
	q := query(typ)
	if nd.Bool("handler") {
		q.NotificationHandler = func(client.Notification) error { return nil }
	}
	err := c.Subscribe(context.Background(), q, gclient.Type)
	nd.CoverIf(err == nil, "accepted")
	nd.CoverIf(err != nil, "rejected")
	c.Leaves()
	if typ == client.Poll {
		c.Poll()
	}
	c.Close()
}

// HarnessDisplay shows any two responses in the CLI.
//
//nd:harness prop=C12 mode=pb preempt=0 time=200
func HarnessDisplay() {
	typ := []client.Type{client.Once, client.Poll, client.Stream}[nd.Choose("type", 3)]
	var err error
	rs := []*pb.SubscribeResponse{response("r0", few)}
	sync := &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	switch nd.Choose("order", 4) {
	case 0:
		rs = append(rs, sync)
	case 3:
		rs = append(rs, sync)
		err = errors.New("broken")
	case 1:
		rs = append([]*pb.SubscribeResponse{sync}, rs...)
	case 2:
		rs = append(rs, &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: hx.Noti("t", 5, hx.Upd(hx.IntVal(1), "x"), hx.Upd(hx.IntVal(1), "x", "y", "z"))}}, sync)
	}
	serve(rs, err)
	cfg := &cli.Config{Delimiter: "/", Count: 1, DisplayIndent: " ", ClientTypes: []string{gclient.Type}, Display: func([]byte) { nd.Cover("displayed") }}
	switch cfg.DisplayType = "g"; nd.Choose("opt", 4) {
	case 1:
		cfg.Timestamp, cfg.DisplayPeer, cfg.DisplaySize = "raw", true, true
	case 2:
		cfg.DisplayType = "s"
	case 3:
		cfg.DisplayType = "s"
		cfg.Latency, cfg.Timestamp, cfg.FilterDeletes = true, "on", true
	}
	if e := cli.QueryDisplay(context.Background(), query(typ), cfg); e != nil && err == nil && !errors.Is(e, io.EOF) {
		nd.Cover("refused")
	}
}
