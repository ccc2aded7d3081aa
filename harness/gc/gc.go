// Package gc stands in for gRPC on the client side: connections are counted objects and streams are
// in-memory, everything above them is the real code. Harnesses that import it cannot be replayed natively.
package gc

import (
	"context"
	"errors"
	"io"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/metadata"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Dial is called for every connection attempt.
var Dial = func(ctx context.Context, addr string) error { return nil }

// Dials, Closes and Addr describe the connections handed out.
var (
	Conns  []*grpc.ClientConn
	Addr   = map[*grpc.ClientConn]string{}
	Closes = map[*grpc.ClientConn]int{}
	Opened func(*grpc.ClientConn)
	Closed func(*grpc.ClientConn)
)

// NewConn is a new open connection.
func NewConn(addr string) *grpc.ClientConn {
	c := new(grpc.ClientConn)
	Conns = append(Conns, c)
	Addr[c] = addr
	if Opened != nil {
		Opened(c)
	}
	return c
}

//nd:model google.golang.org/grpc.DialContext
func dialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	if err := Dial(ctx, target); err != nil {
		return nil, err
	}
	return NewConn(target), nil
}

//nd:model (*google.golang.org/grpc.ClientConn).Close
func connClose(c *grpc.ClientConn) error {
	Closes[c]++
	if Closed != nil {
		Closed(c)
	}
	if Closes[c] > 1 {
		return errors.New("the connection is closed")
	}
	return nil
}

//nd:model (*google.golang.org/grpc.ClientConn).GetState
func connState(c *grpc.ClientConn) connectivity.State {
	if Closes[c] > 0 {
		return connectivity.Shutdown
	}
	return connectivity.Ready
}

// Subscribe is the server side of every Subscribe RPC.
var Subscribe = func(ctx context.Context, conn *grpc.ClientConn) (*Stream, error) {
	return &Stream{Ctx: ctx}, nil
}

type gnmiClient struct {
	pb.GNMIClient
	c *grpc.ClientConn
}

//nd:model $MOD/proto/gnmi.NewGNMIClient
func newGNMIClient(cc grpc.ClientConnInterface) pb.GNMIClient {
	c, _ := cc.(*grpc.ClientConn)
	return &gnmiClient{c: c}
}

func (g *gnmiClient) Subscribe(ctx context.Context, opts ...grpc.CallOption) (pb.GNMI_SubscribeClient, error) {
	s, err := Subscribe(ctx, g.c)
	if err != nil {
		return nil, err
	}
	return s, nil
}

// Stream is an in-memory client side of the Subscribe RPC.
type Stream struct {
	grpc.ClientStream
	Ctx context.Context
	// Next, when set, produces the responses; otherwise they come from Resps and then Err.
	Next  func() (*pb.SubscribeResponse, error)
	Resps []*pb.SubscribeResponse
	Err   error // io.EOF if nil
	Sent  []*pb.SubscribeRequest
	// OnSend, when set, decides about a request.
	OnSend func(*pb.SubscribeRequest) error
}

var _ pb.GNMI_SubscribeClient = &Stream{}

func (s *Stream) Header() (metadata.MD, error) { return nil, nil }
func (s *Stream) Trailer() metadata.MD         { return nil }
func (s *Stream) CloseSend() error             { return nil }
func (s *Stream) Context() context.Context     { return s.Ctx }

// Send records a request.
func (s *Stream) Send(r *pb.SubscribeRequest) error {
	if s.OnSend != nil {
		if err := s.OnSend(r); err != nil {
			return err
		}
	}
	s.Sent = append(s.Sent, r)
	return nil
}

// Recv is the next response.
func (s *Stream) Recv() (*pb.SubscribeResponse, error) {
	if s.Next != nil {
		return s.Next()
	}
	if len(s.Resps) > 0 {
		r := s.Resps[0]
		s.Resps = s.Resps[1:]
		return r, nil
	}
	if s.Err != nil {
		return nil, s.Err
	}
	return nil, io.EOF
}
