package c01

import (
	"context"
	"net"
	"sync"
	"time"
	"verifharness/procs"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/proto"

	tunnelpb "github.com/openconfig/grpctunnel/proto/tunnel"
	"github.com/openconfig/grpctunnel/tunnel"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// device is a scripted target.
type device struct {
	gpb.UnimplementedGNMIServer
	name string
	addr string
	srv  *grpc.Server
	lis  net.Listener

	mu       sync.Mutex
	cur      *session
	sessions int
	reqs     []*gpb.SubscribeRequest
	changed  chan struct{}
}

// session is one Subscribe RPC of the collector.
type session struct {
	send chan *gpb.SubscribeResponse
	kill chan error
	done chan struct{}
}

func newDevice(name string, c *procs.Certs) (*device, error) {
	d := &device{name: name, changed: make(chan struct{}, 1)}
	d.srv = grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&c.Pair)))
	gpb.RegisterGNMIServer(d.srv, d)
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	d.lis, d.addr = lis, lis.Addr().String()
	go d.srv.Serve(lis)
	return d, nil
}

// listenTunnel serves the device through the tunnel of the collector as well.
func (d *device) listenTunnel(ctx context.Context, addr, cert string) {
	go func() {
		l, err := tunnel.Listen(ctx, addr, cert, map[tunnel.Target]struct{}{{ID: d.name, Type: tunnelpb.TargetType_GNMI_GNOI.String()}: {}})
		if err == nil {
			d.srv.Serve(l)
		}
	}()
}

func (d *device) close() {
	d.srv.Stop()
	d.lis.Close()
}

// Subscribe implements the gNMI service.
func (d *device) Subscribe(s gpb.GNMI_SubscribeServer) error {
	req, err := s.Recv()
	if err != nil {
		return err
	}
	x := &session{send: make(chan *gpb.SubscribeResponse, 64), kill: make(chan error, 1), done: make(chan struct{})}
	defer close(x.done)
	d.mu.Lock()
	d.cur = x
	d.sessions++
	d.reqs = append(d.reqs, proto.Clone(req).(*gpb.SubscribeRequest))
	d.mu.Unlock()
	select {
	case d.changed <- struct{}{}:
	default:
	}
	for {
		select {
		case m := <-x.send:
			if err := s.Send(m); err != nil {
				return err
			}
		case err := <-x.kill:
			// What was handed over is sent first.
			for {
				select {
				case m := <-x.send:
					if err := s.Send(m); err != nil {
						return err
					}
					continue
				default:
				}
				return err
			}
		case <-s.Context().Done():
			return s.Context().Err()
		}
	}
}

// session waits for a session after the n-th.
func (d *device) session(n int, limit time.Duration) (*session, int) {
	deadline := time.After(limit)
	for {
		d.mu.Lock()
		s, k := d.cur, d.sessions
		d.mu.Unlock()
		if k > n {
			return s, k
		}
		select {
		case <-d.changed:
		case <-time.After(50 * time.Millisecond):
		case <-deadline:
			return nil, k
		}
	}
}
