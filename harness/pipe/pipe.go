// Package pipe connects a client to a server without a network.
package pipe

import (
	"context"
	"io"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/zzverif/gc"
	"github.com/openconfig/gnmi/zzverif/hx"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// New starts a Subscribe RPC at srv and returns its client side. Messages are copied, as a transport does, and the
// client receives everything that was sent before the RPC ended.
func New(ctx context.Context, serve pb.GNMIServer) *gc.Stream {
	ctx, cancel := context.WithCancel(ctx)
	srv := hx.NewStream(ctx, "client")
	resps := make(chan *pb.SubscribeResponse, 64)
	end := make(chan error, 1)
	srv.OnSend = func(r *pb.SubscribeResponse) error {
		resps <- proto.Clone(r).(*pb.SubscribeResponse)
		return nil
	}
	go func() {
		err := serve.Subscribe(srv)
		if err == nil {
			err = io.EOF
		}
		end <- err
		cancel()
	}()
	st := &gc.Stream{Ctx: ctx}
	st.OnSend = func(r *pb.SubscribeRequest) error {
		srv.Reqs <- proto.Clone(r).(*pb.SubscribeRequest)
		return nil
	}
	st.Next = func() (*pb.SubscribeResponse, error) {
		select {
		case r := <-resps:
			return r, nil
		default:
		}
		select {
		case r := <-resps:
			return r, nil
		case err := <-end:
			select {
			case r := <-resps:
				end <- err
				return r, nil
			default:
			}
			return nil, err
		}
	}
	return st
}
