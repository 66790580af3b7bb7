// Package fakestream is an in-memory server side of a Subscribe RPC.
package fakestream

import (
	"context"
	"io"
	"net"
	"sync"

	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Stream implements pb.GNMI_SubscribeServer. The server under test is its
// caller; the harness is the client.
type Stream struct {
	ctx    context.Context
	cancel context.CancelFunc
	reqs   chan *pb.SubscribeRequest
	eof    chan struct{}

	// OnSend, if set, is called at the start of every Send and can block or
	// fail it.
	OnSend func(*pb.SubscribeResponse) error

	mu   sync.Mutex
	resp []*pb.SubscribeResponse
	done chan struct{}
	err  error
}

// New returns a stream of a client with the given address.
func New(ctx context.Context, addr string) *Stream {
	ctx, cancel := context.WithCancel(peer.NewContext(ctx, &peer.Peer{Addr: &net.UnixAddr{Name: addr, Net: "unix"}}))
	return &Stream{ctx: ctx, cancel: cancel, reqs: make(chan *pb.SubscribeRequest, 100), eof: make(chan struct{}), done: make(chan struct{})}
}

// Request queues a request of the client.
func (s *Stream) Request(r *pb.SubscribeRequest) { s.reqs <- r }

// CloseSend ends the requests.
func (s *Stream) CloseSend() { close(s.eof) }

// Cancel cancels the RPC.
func (s *Stream) Cancel() { s.cancel() }

// Serve runs a handler on the stream.
func (s *Stream) Serve(h func(pb.GNMI_SubscribeServer) error) {
	err := h(s)
	s.mu.Lock()
	s.err = err
	s.mu.Unlock()
	// As gRPC does when the handler returns.
	s.cancel()
	close(s.done)
}

// Done is closed when the handler has returned.
func (s *Stream) Done() <-chan struct{} { return s.done }

// Err returns whether and how the handler has returned.
func (s *Stream) Err() (bool, error) {
	select {
	case <-s.done:
		s.mu.Lock()
		defer s.mu.Unlock()
		return true, s.err
	default:
		return false, nil
	}
}

// Responses returns the responses from number i on.
func (s *Stream) Responses(i int) []*pb.SubscribeResponse {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*pb.SubscribeResponse(nil), s.resp[i:]...)
}

// Send implements pb.GNMI_SubscribeServer.
func (s *Stream) Send(r *pb.SubscribeResponse) error {
	if f := s.OnSend; f != nil {
		if err := f(r); err != nil {
			return err
		}
	}
	if err := s.ctx.Err(); err != nil {
		return err
	}
	// The message is serialized before Send returns.
	c := proto.Clone(r).(*pb.SubscribeResponse)
	s.mu.Lock()
	s.resp = append(s.resp, c)
	s.mu.Unlock()
	return nil
}

// Recv implements pb.GNMI_SubscribeServer.
func (s *Stream) Recv() (*pb.SubscribeRequest, error) {
	select {
	case r := <-s.reqs:
		return r, nil
	default:
	}
	select {
	case r := <-s.reqs:
		return r, nil
	case <-s.eof:
		return nil, io.EOF
	case <-s.ctx.Done():
		return nil, s.ctx.Err()
	}
}

// Context implements pb.GNMI_SubscribeServer.
func (s *Stream) Context() context.Context { return s.ctx }

func (s *Stream) SetHeader(metadata.MD) error  { return nil }
func (s *Stream) SendHeader(metadata.MD) error { return nil }
func (s *Stream) SetTrailer(metadata.MD)       {}
func (s *Stream) SendMsg(m any) error          { return s.Send(m.(*pb.SubscribeResponse)) }
func (s *Stream) RecvMsg(m any) error {
	r, err := s.Recv()
	if err == nil {
		proto.Merge(m.(proto.Message), r)
	}
	return err
}

// Request returns a subscribe request.
func Request(mode pb.SubscriptionList_Mode, prefix *pb.Path, updatesOnly bool, paths ...*pb.Path) *pb.SubscribeRequest {
	sl := &pb.SubscriptionList{Prefix: prefix, Mode: mode, UpdatesOnly: updatesOnly}
	for _, p := range paths {
		sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: p})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}}
}

// Path makes a path of plain elements.
func Path(es ...string) *pb.Path {
	p := &pb.Path{}
	for _, e := range es {
		p.Elem = append(p.Elem, &pb.PathElem{Name: e})
	}
	return p
}
