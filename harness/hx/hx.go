// Package hx has helpers shared by the harnesses.
package hx

import (
	"context"
	"io"
	"net"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Elems is a path of plain elements.
func Elems(es ...string) *pb.Path { return &pb.Path{Elem: PElems(es)} }

// PElems is a list of plain path elements.
func PElems(es []string) []*pb.PathElem {
	var r []*pb.PathElem
	for _, e := range es {
		r = append(r, &pb.PathElem{Name: e})
	}
	return r
}

// IntVal is an integer value.
func IntVal(v int64) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}
}

// StrVal is a string value.
func StrVal(v string) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: v}}
}

// BoolVal is a boolean value.
func BoolVal(v bool) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: v}}
}

// Upd is an update of one leaf.
func Upd(v *pb.TypedValue, es ...string) *pb.Update { return &pb.Update{Path: Elems(es...), Val: v} }

// Noti is a notification of target t at time ts.
func Noti(t string, ts int64, us ...*pb.Update) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: t}, Update: us}
}

// DelNoti is a delete notification.
func DelNoti(t string, ts int64, es ...string) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: t}, Delete: []*pb.Path{Elems(es...)}}
}

// Sub is a subscription request.
func Sub(target string, mode pb.SubscriptionList_Mode, updatesOnly bool, paths ...*pb.Path) *pb.SubscribeRequest {
	l := &pb.SubscriptionList{Prefix: &pb.Path{Target: target}, Mode: mode, UpdatesOnly: updatesOnly}
	for _, p := range paths {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

var _ net.Addr = addr("")

// PeerCtx is a context as gRPC hands it to a handler.
func PeerCtx(ctx context.Context, name string) context.Context {
	return peer.NewContext(ctx, &peer.Peer{Addr: addr(name)})
}

// Stream is an in-memory server side of the Subscribe RPC.
type Stream struct {
	grpc.ServerStream
	Ctx  context.Context
	Reqs chan *pb.SubscribeRequest
	// OnSend, when set, runs in Send before the response is recorded.
	OnSend func(*pb.SubscribeResponse) error
	Got    []*pb.SubscribeResponse
	Syncs  chan struct{}
}

var _ pb.GNMI_SubscribeServer = &Stream{}

// NewStream returns a stream whose requests are reqs; the client half-closes only when Reqs is closed.
func NewStream(ctx context.Context, name string, reqs ...*pb.SubscribeRequest) *Stream {
	s := &Stream{Ctx: PeerCtx(ctx, name), Reqs: make(chan *pb.SubscribeRequest, 8), Syncs: make(chan struct{}, 64)}
	for _, r := range reqs {
		s.Reqs <- r
	}
	return s
}

func (s *Stream) Context() context.Context     { return s.Ctx }
func (s *Stream) SetHeader(metadata.MD) error  { return nil }
func (s *Stream) SendHeader(metadata.MD) error { return nil }
func (s *Stream) SetTrailer(metadata.MD)       {}

// Recv returns the next request, io.EOF after the client half-closed, or the context's error.
func (s *Stream) Recv() (*pb.SubscribeRequest, error) {
	select {
	case r, ok := <-s.Reqs:
		if !ok {
			return nil, io.EOF
		}
		return r, nil
	case <-s.Ctx.Done():
		return nil, s.Ctx.Err()
	}
}

// Send records a response.
func (s *Stream) Send(r *pb.SubscribeResponse) error {
	if s.OnSend != nil {
		if err := s.OnSend(r); err != nil {
			return err
		}
	}
	s.Got = append(s.Got, r)
	if _, ok := r.Response.(*pb.SubscribeResponse_SyncResponse); ok {
		s.Syncs <- struct{}{}
	}
	return nil
}

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

//nd:model context.WithValue
func ctxWithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}
