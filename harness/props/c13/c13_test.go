// Package c13 checks property C13: the session discipline of the target
// manager.
package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"

	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C13", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			r.Until(1, 2)
			for i, n := 0, r.N(6000, 160000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("virtual %d", i)
					synctest.Test(t, func(t *testing.T) { session(r, i, true) })
				}
			}
		}
		n := r.N(4000, 60000)
		if race {
			n = r.N(1200, 24000)
		}
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				r.Journal("real %d race %v", i, race)
				session(r, i, false)
			}
		}
	})
}

type kind int

const (
	addCall kind = iota
	addRet
	rmCall
	rmRet
	rcCall
	rcRet
	lookup
	lookupErr
	attempt
	attemptErr
	open
	openErr
	sendErr
	recv
	end
	cbConnect
	cbUpdate
	cbSync
	cbReset
	cbConnErr
	cbMonErr
	cbDone
	goodMode
)

var kindNames = []string{"Add called", "Add returned", "Remove called", "Remove returned", "Reconnect called", "Reconnect returned", "credentials looked up", "lookup failed",
	"connection requested", "connection failed", "stream opened", "opening failed", "send failed", "received", "stream ended", "CONNECT", "UPDATE", "SYNC", "RESET", "CONNECTERROR", "MONITORERROR", "callback done", "(all succeeds from here)"}

// what a received message is.
const (
	mUpdate = iota
	mSync
	mOther
)

type ev struct {
	at     time.Duration
	kind   kind
	target string
	stream int
	msg    int // of recv: what it is
	id     int64
	ok     bool
	op     int
	note   string
}

func (e ev) String() string {
	s := fmt.Sprintf("%v %s %s", e.at, e.target, kindNames[e.kind])
	if e.stream != 0 {
		s += fmt.Sprintf(" stream %d", e.stream)
	}
	if e.kind == recv || e.kind == cbUpdate {
		s += fmt.Sprintf(" %s %d", []string{"update", "sync", "other"}[e.msg], e.id)
	}
	switch e.kind {
	case addRet, rmRet, rcRet:
		s += fmt.Sprintf(" ok=%v", e.ok)
	}
	return s + " " + e.note
}

// tgt is a target of the script.
type tgt struct {
	name  string
	conf  *tpb.Target
	rt    time.Duration // receive timeout in effect
	hops  int
	mu    sync.Mutex
	rnd   *rand.Rand
	never bool // always fails
	loner bool // sessions succeed, and are long
}

type run struct {
	r       *vk.Run
	virtual bool
	unit    time.Duration
	start   time.Time
	good    atomic.Bool
	goodCh  chan struct{}
	nstream atomic.Int64
	nmsg    atomic.Int64
	nop     atomic.Int64
	targets map[string]*tgt
	names   []string
	slowCB  bool
	longCB  int  // in units, 0: none
	slow    bool // dials take time
	wire    bool
	timeout time.Duration
	base    time.Duration
	max     time.Duration
	jitter  float64
	m       *manager.Manager
	cm      *connection.Manager

	mu  sync.Mutex
	evs []ev
	bad string
	rnd *rand.Rand

	srvMu sync.Mutex
	srv   map[string]*grpc.Server
	lis   map[string]*bufconn.Listener
}

func (x *run) log(e ev) {
	x.mu.Lock()
	e.at = time.Since(x.start)
	x.evs = append(x.evs, e)
	x.mu.Unlock()
}

func (x *run) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.rnd.Intn(n)
}

func (t *tgt) intn(n int) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.rnd.Intn(n)
}

// span is a random duration of up to n units.
func (x *run) span(t *tgt, n float64) time.Duration {
	t.mu.Lock()
	defer t.mu.Unlock()
	return time.Duration(t.rnd.Float64() * n * float64(x.unit))
}

var errScript = errors.New("scripted failure")

// Lookup implements manager.CredentialsClient.
func (x *run) Lookup(ctx context.Context, key string) (string, error) {
	t := x.targets[key]
	x.log(ev{kind: lookup, target: key})
	if x.slow {
		sleep(ctx, x.span(t, 1))
	}
	if !x.good.Load() && t.intn(5) == 0 {
		x.log(ev{kind: lookupErr, target: key})
		return "", errScript
	}
	return "secret", nil
}

func sleep(ctx context.Context, d time.Duration) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-tm.C:
	case <-ctx.Done():
	}
}

func outgoing(ctx context.Context) string {
	md, _ := metadata.FromOutgoingContext(ctx)
	if v := md.Get(manager.Target); len(v) > 0 {
		return v[0]
	}
	return ""
}

// Connection implements manager.ConnectionManager.
func (x *run) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	name := outgoing(ctx)
	x.log(ev{kind: attempt, target: name, note: addr})
	c, done, err := x.cm.Connection(ctx, addr, dialer)
	if err != nil {
		x.log(ev{kind: attemptErr, target: name, note: addr})
	}
	return c, done, err
}

func (x *run) dial(ctx context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
	if !x.good.Load() {
		n := x.intn(10)
		// An address that never answers.
		if strings.HasPrefix(addr, "dead") {
			n = 0
		}
		switch {
		case n == 0:
			return nil, errScript
		case n == 1 && x.slow:
			sleep(ctx, time.Duration(x.intn(3000))*x.unit/1000)
			return nil, errScript
		case n == 2 && x.slow:
			d := time.Duration(x.intn(3000)) * x.unit / 1000
			if x.intn(2) == 0 || x.virtual && !x.slowCB {
				sleep(ctx, d)
			} else {
				// One that ignores its context.
				time.Sleep(d)
			}
		case n == 3 && x.timeout > 0 && x.slow:
			<-ctx.Done()
			return nil, ctx.Err()
		}
		if n != 4 && ctx.Err() != nil {
			return nil, ctx.Err()
		}
	}
	opts := []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithStreamInterceptor(x.intercept)}
	if x.wire {
		opts = append(opts, grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
			x.srvMu.Lock()
			l := x.lis[addr]
			x.srvMu.Unlock()
			if l == nil {
				return nil, errScript
			}
			return l.DialContext(ctx)
		}))
	}
	return grpc.NewClient("passthrough:///"+addr, opts...)
}

// plan is what a session shall do.
type plan struct {
	msgs []*pb.SubscribeResponse
	gaps []time.Duration
	// The end.
	err  error // nil: silence
	last time.Duration
	// After a cancellation so many messages are still received.
	buffered int
	good     bool
}

var idOf = func(m *pb.SubscribeResponse) (int, int64) {
	switch v := m.GetResponse().(type) {
	case *pb.SubscribeResponse_Update:
		return mUpdate, v.Update.GetTimestamp()
	case *pb.SubscribeResponse_SyncResponse:
		return mSync, 0
	}
	return mOther, 0
}

func (x *run) message(t *tgt) *pb.SubscribeResponse {
	switch t.intn(10) {
	case 0, 1:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: t.intn(4) > 0}}
	case 2:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{Code: 3}}}
	case 3:
		if t.intn(3) == 0 {
			return &pb.SubscribeResponse{}
		}
	}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: x.nmsg.Add(1)}}}
}

func (x *run) plan(t *tgt) *plan {
	if x.good.Load() {
		return &plan{msgs: []*pb.SubscribeResponse{{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}}, gaps: []time.Duration{0}, good: true}
	}
	p := &plan{}
	n := 0
	switch t.intn(4) {
	case 0:
	case 1:
		n = 1
	default:
		n = t.intn(12)
	}
	for i := 0; i < n; i++ {
		p.msgs = append(p.msgs, x.message(t))
		var d time.Duration
		switch t.intn(6) {
		case 0:
			d = x.span(t, 10)
		case 1, 2:
			d = x.span(t, 1)
		}
		if t.loner {
			d = x.span(t, 40)
		}
		p.gaps = append(p.gaps, d)
	}
	switch t.intn(5) {
	case 0:
		p.err = io.EOF
	case 1, 2:
		p.err = status.Error(14, "scripted end")
	case 3:
		// Silence.
	default:
		p.err = errScript
	}
	if t.intn(3) == 0 {
		p.last = x.span(t, 10)
	}
	p.buffered = max(0, t.intn(6)-3)
	return p
}

// stream is the client side of a scripted stream, or a recorder around a
// real one.
type stream struct {
	grpc.ClientStream
	x      *run
	t      *tgt
	ctx    context.Context
	id     int
	p      *plan
	i      int
	ended  bool
	cancel bool
}

func (x *run) intercept(ctx context.Context, desc *grpc.StreamDesc, cc *grpc.ClientConn, method string, streamer grpc.Streamer, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	name := outgoing(ctx)
	t := x.targets[name]
	if t == nil {
		x.fail("a stream was opened for the unknown target %q", name)
		return nil, errScript
	}
	if !x.good.Load() && t.intn(12) == 0 {
		x.log(ev{kind: openErr, target: name})
		return nil, errScript
	}
	s := &stream{x: x, t: t, ctx: ctx, id: int(x.nstream.Add(1))}
	if x.wire {
		var err error
		if s.ClientStream, err = streamer(ctx, desc, cc, method, opts...); err != nil {
			x.log(ev{kind: openErr, target: name, note: err.Error()})
			return nil, err
		}
	} else {
		s.p = x.plan(t)
	}
	x.log(ev{kind: open, target: name, stream: s.id})
	return s, nil
}

func (x *run) fail(format string, args ...any) {
	x.mu.Lock()
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, args...)
	}
	x.mu.Unlock()
}

func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Context() context.Context     { return s.ctx }

func (s *stream) SendMsg(m any) error {
	if s.ClientStream != nil {
		err := s.ClientStream.SendMsg(m)
		if err != nil {
			s.x.log(ev{kind: sendErr, target: s.t.name, stream: s.id})
		}
		return err
	}
	if !s.x.good.Load() && s.t.intn(12) == 0 {
		s.x.log(ev{kind: sendErr, target: s.t.name, stream: s.id})
		return io.EOF
	}
	return nil
}

func (s *stream) got(m *pb.SubscribeResponse) error {
	what, id := idOf(m)
	s.x.log(ev{kind: recv, target: s.t.name, stream: s.id, msg: what, id: id})
	return nil
}

func (s *stream) over(err error) error {
	if !s.ended {
		s.ended = true
		s.x.log(ev{kind: end, target: s.t.name, stream: s.id, note: err.Error()})
	}
	return err
}

// forced reports whether Reconnect or Remove was called since the attempt
// began that led to the stream.
func (x *run) forced(s *stream) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	opened := false
	for i := len(x.evs) - 1; i >= 0; i-- {
		e := x.evs[i]
		if e.target != s.t.name {
			continue
		}
		switch e.kind {
		case rcCall, rmCall:
			return true
		case open:
			opened = opened || e.stream == s.id
		case cbMonErr, addCall:
			if opened {
				return false
			}
		}
	}
	return false
}

func (s *stream) RecvMsg(m any) error {
	began := time.Now()
	if s.ClientStream != nil {
		if err := s.ClientStream.RecvMsg(m); err != nil {
			return s.over(err)
		}
		return s.got(m.(*pb.SubscribeResponse))
	}
	if s.ended {
		return s.over(io.EOF)
	}
	d, err := s.p.last, s.p.err
	if s.i < len(s.p.msgs) {
		d, err = s.p.gaps[s.i], nil
	} else if err == nil {
		d = -1
	}
	if d == 0 && s.ctx.Err() != nil && s.t.intn(2) == 0 {
		d = -1
	}
	if d != 0 {
		var c <-chan time.Time
		if d > 0 {
			tm := time.NewTimer(d)
			defer tm.Stop()
			c = tm.C
		}
		goodCh := s.x.goodCh
		if s.p.good {
			goodCh = nil
		}
		select {
		case <-c:
		case <-goodCh:
			if len(s.p.msgs) > 0 && s.i == 0 {
				break
			}
			return s.over(io.EOF)
		case <-s.ctx.Done():
			if w := time.Since(began); s.x.virtual && s.t.rt > 0 && w > s.t.rt {
				s.x.fail("the stream %d of %q was silent for %v, but the receive timeout is %v", s.id, s.t.name, w, s.t.rt)
			}
			if s.x.virtual && !s.cancel && !s.x.forced(s) && (s.t.rt <= 0 || time.Since(began) < s.t.rt) {
				s.x.fail("the stream %d of %q was cancelled, but nothing called for it (receive timeout %v, silent for %v)", s.id, s.t.name, s.t.rt, time.Since(began))
			}
			s.cancel = true
			if s.p.buffered > 0 && s.i < len(s.p.msgs) {
				s.p.buffered--
				break
			}
			return s.over(status.FromContextError(s.ctx.Err()).Err())
		}
		if w := time.Since(began); s.x.virtual && s.t.rt > 0 && w > s.t.rt {
			s.x.fail("the stream %d of %q was silent for %v, but the receive timeout is %v", s.id, s.t.name, w, s.t.rt)
		}
	}
	if s.i >= len(s.p.msgs) {
		return s.over(err)
	}
	msg := s.p.msgs[s.i]
	s.i++
	out := m.(*pb.SubscribeResponse)
	proto.Reset(out)
	proto.Merge(out, msg)
	return s.got(out)
}

// handler is the server of the wire runs.
type handler struct {
	pb.UnimplementedGNMIServer
	x *run
}

func (h *handler) Subscribe(s pb.GNMI_SubscribeServer) error {
	req, err := s.Recv()
	if err != nil {
		return err
	}
	t := h.x.targets[req.GetSubscribe().GetPrefix().GetTarget()]
	if t == nil {
		h.x.fail("a request for the unknown target %q was received", req.GetSubscribe().GetPrefix().GetTarget())
		return errScript
	}
	p := h.x.plan(t)
	for i, m := range p.msgs {
		if p.gaps[i] > 0 {
			sleep(s.Context(), p.gaps[i])
		}
		if err := s.Send(m); err != nil {
			return err
		}
	}
	sleep(s.Context(), p.last)
	if p.err == nil {
		select {
		case <-s.Context().Done():
		case <-h.x.goodCh:
			if p.good {
				<-s.Context().Done()
			}
		}
	}
	if p.err == io.EOF {
		return nil
	}
	return p.err
}

func (x *run) serve(addr string) {
	l := bufconn.Listen(1 << 16)
	srv := grpc.NewServer()
	pb.RegisterGNMIServer(srv, &handler{x: x})
	x.srvMu.Lock()
	old := x.srv[addr]
	x.srv[addr], x.lis[addr] = srv, l
	x.srvMu.Unlock()
	go srv.Serve(l)
	if old != nil {
		old.Stop()
	}
}

func (x *run) cb(k kind, name string, id int64) {
	x.log(ev{kind: k, target: name, id: id})
	if x.slowCB && (!x.virtual || !x.good.Load()) && x.intn(4) == 0 {
		d := time.Duration(x.intn(500)) * x.unit / 1000
		if x.virtual && x.longCB > 0 && x.intn(12) == 0 {
			// Longer than anybody would care to wait.
			d = time.Duration(x.intn(x.longCB)) * x.unit
			x.r.Count("long_callbacks", 1)
		}
		time.Sleep(d)
	}
	x.log(ev{kind: cbDone, target: name})
}

func session(r *vk.Run, i int, virtual bool) {
	mode := "real"
	if virtual {
		mode = "virtual"
	}
	rnd := r.Rand(mode, i, os.Getenv("VERIF_BUILD"))
	x := &run{r: r, virtual: virtual, rnd: r.Rand("run", mode, i), start: time.Now(), goodCh: make(chan struct{}), targets: map[string]*tgt{},
		srv: map[string]*grpc.Server{}, lis: map[string]*bufconn.Listener{}}
	how := ""
	rts := true
	shared := true
	noRemove := false
	if virtual {
		x.unit = time.Second
		x.base, x.max, x.jitter = time.Second, time.Minute, 0
		if rnd.Intn(3) == 0 {
			x.jitter = rnd.Float64()
		}
		if rnd.Intn(3) == 0 {
			x.base = time.Duration(1+rnd.Intn(5000)) * time.Millisecond
			x.max = x.base * time.Duration(1+rnd.Intn(60))
		}
		// A target waiting for the manager's lock would stop the virtual
		// clock: receive timeouts along with slow callbacks or slow dials that
		// are shared are for the runs in real time.
		switch rnd.Intn(4) {
		case 0:
			x.slowCB, x.slow, rts = true, true, false
		case 3:
			x.slowCB, noRemove = true, true
		case 1:
			x.slow, shared = true, false
		case 2:
		}
		if x.slowCB && rnd.Intn(2) == 0 {
			x.longCB = []int{10, 60, 600, 5000}[rnd.Intn(4)]
		}
	} else {
		x.unit = time.Millisecond
		x.base = time.Duration(100+rnd.Intn(400)) * time.Microsecond
		x.max = x.base * time.Duration(1+rnd.Intn(6))
		x.jitter = 0.5 * float64(rnd.Intn(2))
		x.slowCB, x.slow = rnd.Intn(2) == 0, rnd.Intn(2) == 0
		x.wire = rnd.Intn(4) == 0
		how = sched.Pick(rnd, time.Duration(50+rnd.Intn(1500))*time.Microsecond)
		defer sched.Off()
	}
	manager.RetryBaseDelay, manager.RetryMaxDelay, manager.RetryRandomization = x.base, x.max, x.jitter
	cfg := manager.Config{
		Connect:           func(n string) { x.cb(cbConnect, n, 0) },
		Reset:             func(n string) { x.cb(cbReset, n, 0) },
		Sync:              func(n string) { x.cb(cbSync, n, 0) },
		Update:            func(n string, u *pb.Notification) { x.cb(cbUpdate, n, u.GetTimestamp()) },
		ConnectError:      func(n string, err error) { x.cb(cbConnErr, n, 0) },
		MonitorError:      func(n string, err error) { x.cb(cbMonErr, n, 0) },
		Credentials:       x,
		ConnectionManager: x,
	}
	if rnd.Intn(2) == 0 {
		cfg.Timeout = time.Duration(1+rnd.Intn(20)) * x.unit / 2
		x.timeout = cfg.Timeout
	}
	if rts && rnd.Intn(2) == 0 {
		cfg.ReceiveTimeout = time.Duration(1+rnd.Intn(40))*x.unit/2 + 1
	}
	var err error
	if x.cm, err = connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: x.dial, "other": x.dial}); err != nil {
		panic(err)
	}
	if x.m, err = manager.NewManager(cfg); err != nil {
		panic(err)
	}
	addrs := map[string]bool{}
	n := 1 + rnd.Intn(4)
	if virtual && rnd.Intn(40) == 0 {
		n += 8 + rnd.Intn(24)
		r.Count("many_targets", 1)
	}
	for ; n > 0; n-- {
		t := &tgt{name: fmt.Sprint("t", n), rnd: r.Rand("target", mode, i, n), rt: cfg.ReceiveTimeout}
		t.conf = &tpb.Target{Meta: map[string]string{}}
		for h := 1 + max(0, rnd.Intn(5)-3); h > 0; h-- {
			a := fmt.Sprint("shared", rnd.Intn(2))
			if !shared || rnd.Intn(2) == 0 {
				a = fmt.Sprint("of-", t.name, "-", h)
			}
			if rnd.Intn(8) == 0 {
				a = "dead-" + a
			}
			if rnd.Intn(4) == 0 {
				a += manager.AddrSeparator + "beyond"
			}
			t.conf.Addresses = append(t.conf.Addresses, a)
		}
		hops := map[string]bool{}
		for _, a := range t.conf.Addresses {
			hops[strings.Split(a, manager.AddrSeparator)[0]] = true
			addrs[strings.Split(a, manager.AddrSeparator)[0]] = true
		}
		t.hops = len(hops)
		if rnd.Intn(3) == 0 {
			t.conf.Credentials = &tpb.Credentials{Username: "u", PasswordId: t.name}
		}
		if rts && rnd.Intn(3) == 0 {
			t.rt = time.Duration(1+rnd.Intn(40))*x.unit/2 + 1
			t.conf.Meta["receive_timeout"] = fmt.Sprintf("%dns", t.rt)
		} else if rnd.Intn(6) == 0 {
			t.conf.Meta["receive_timeout"] = "soon"
		}
		t.loner = virtual && rnd.Intn(6) == 0
		x.targets[t.name] = t
		x.names = append(x.names, t.name)
	}
	if x.wire {
		for a := range addrs {
			x.serve(a)
		}
	}

	request := &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{Prefix: &pb.Path{Origin: "o"}, Subscription: []*pb.Subscription{{Path: &pb.Path{}}}}}}
	op := func(k int, name string) {
		id := int(x.nop.Add(1))
		switch k {
		case 0:
			x.log(ev{kind: addCall, target: name, op: id})
			err := x.m.Add(name, x.targets[name].conf, request)
			x.log(ev{kind: addRet, target: name, op: id, ok: err == nil})
		case 1:
			x.log(ev{kind: rmCall, target: name, op: id})
			err := x.m.Remove(name)
			x.log(ev{kind: rmRet, target: name, op: id, ok: err == nil})
		case 2:
			x.log(ev{kind: rcCall, target: name, op: id})
			err := x.m.Reconnect(name)
			x.log(ev{kind: rcRet, target: name, op: id, ok: err == nil})
		}
	}
	ops := func(rnd *rand.Rand, n int, scale float64) {
		for ; n > 0; n-- {
			d := time.Duration(rnd.Float64() * rnd.Float64() * scale * float64(x.unit))
			if x.virtual {
				d += time.Microsecond
			}
			time.Sleep(d)
			name := x.names[rnd.Intn(len(x.names))]
			switch k := rnd.Intn(10); {
			case noRemove && k >= 4 && k < 6:
			case k < 4:
				op(0, name)
			case k < 6:
				op(1, name)
			case k < 9:
				op(2, name)
			case x.wire:
				x.srvMu.Lock()
				as := vk.SortedKeys(x.lis)
				x.srvMu.Unlock()
				x.serve(as[rnd.Intn(len(as))])
			}
		}
	}
	if rnd.Intn(8) != 0 {
		for _, n := range x.names {
			op(0, n)
		}
	}
	if virtual {
		scale := []float64{5, 100, 1000}[rnd.Intn(3)]
		ops(rnd, 5+rnd.Intn(30), scale)
	} else {
		var wg sync.WaitGroup
		for g := 1 + rnd.Intn(3); g > 0; g-- {
			or := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				ops(or, 3+or.Intn(12), 8)
			}()
		}
		wg.Wait()
	}
	// Now everything succeeds: what is managed must get a session.
	if virtual {
		time.Sleep(time.Microsecond)
	}
	x.good.Store(true)
	x.log(ev{kind: goodMode})
	close(x.goodCh)
	managed := x.managed()
	deadline := time.Now().Add(20 * time.Second)
	if virtual {
		// Two failures may still be under way.
		deadline = time.Now().Add(2*time.Duration(float64(x.max)*(1+x.jitter)) + time.Duration(40+2*x.longCB)*x.unit)
	}
	settled := false
	for !settled {
		late := time.Now().After(deadline)
		if virtual {
			time.Sleep(x.unit)
			synctest.Wait()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
		settled = true
		for _, n := range managed {
			if !x.sessionSince(n) {
				settled = false
				if late {
					if virtual || time.Now().After(deadline.Add(20*time.Second)) {
						x.fail("the target %q is managed, but gets no session any more", n)
						settled = true
					}
				}
			}
		}
	}
	if virtual && noRemove {
		// Removals shall not meet callbacks that go on.
		time.Sleep(time.Duration(x.longCB) * x.unit)
	}
	for _, n := range x.names {
		op(1, n)
		if virtual {
			time.Sleep(time.Microsecond)
		}
	}
	if virtual {
		time.Sleep(3 * x.max)
	} else {
		time.Sleep(x.max + time.Millisecond)
	}
	for _, s := range x.srv {
		s.Stop()
	}
	x.mu.Lock()
	evs := append([]ev(nil), x.evs...)
	bad := x.bad
	x.mu.Unlock()
	desc := fmt.Sprintf("%s %d (%s): base %v max %v randomization %v, dial timeout %v, slow callbacks %v (up to %d long), slow dials %v, wire %v", mode, i, how, x.base, x.max, x.jitter, x.timeout, x.slowCB, x.longCB, x.slow, x.wire)
	if bad != "" {
		r.Violation("session", "%s\n%s\n%s", desc, bad, show(evs, ""))
	}
	for _, n := range x.names {
		if why := x.judge(n, evs); why != "" {
			r.Violation("discipline", "%s\n%s of %q (timeout %v, %v)\n%s", desc, why, n, x.targets[n].rt, x.targets[n].conf, show(evs, n))
		}
	}
	if why := opsLegal(evs); why != "" {
		r.Violation("refusals", "%s\n%s\n%s", desc, why, show(evs, ""))
	}
	var sb strings.Builder
	for _, e := range evs {
		fmt.Fprint(&sb, e.target, e.kind, e.msg, e.ok, ",")
	}
	r.Eval(1)
	r.Distinct(sb.String())
	if virtual && r.WantSample() && len(evs) > 40 && len(evs) < 120 {
		r.Sample("%s\n%s", desc, show(evs, ""))
	}
}

func show(evs []ev, name string) string {
	var sb strings.Builder
	for _, e := range evs {
		if e.kind != cbDone && (name == "" || e.target == name || e.target == "") {
			fmt.Fprintln(&sb, " ", e)
		}
	}
	s := sb.String()
	if len(s) > 15000 {
		s = s[:3000] + "\n ...\n" + s[len(s)-12000:]
	}
	return s
}

// managed returns the targets that are managed now; no operation is running.
func (x *run) managed() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	m := map[string]int{}
	for _, e := range x.evs {
		if e.ok && e.kind == addRet {
			m[e.target]++
		}
		if e.ok && e.kind == rmRet {
			m[e.target]--
		}
	}
	var r []string
	for n, c := range m {
		if c > 0 {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

// sessionSince reports whether a session of the target began after all
// succeeds, or is live.
func (x *run) sessionSince(name string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	for i := len(x.evs) - 1; i >= 0; i-- {
		e := x.evs[i]
		if e.kind == goodMode {
			// A session that goes on, if any, has one of these last.
			live := false
			for _, e := range x.evs[:i] {
				if e.target == name {
					switch e.kind {
					case cbConnect:
						live = true
					case end, sendErr, openErr:
						live = false
					}
				}
			}
			for _, e := range x.evs[i:] {
				if e.target == name && e.kind == end {
					live = false
				}
			}
			return live
		}
		if e.target == name && e.kind == cbConnect {
			return true
		}
	}
	return false
}

type sess struct {
	id        int
	pending   []ev // received, not yet delivered
	received  int
	connected int
	resets    int
	ended     bool
	sendFail  bool
}

// judge replays the events of a target.
func (x *run) judge(name string, all []ev) string {
	t := x.targets[name]
	// When the target was managed: from the call of a successful Add to the
	// return of the Remove that follows.
	okAdd, okRm := map[int]bool{}, map[int]bool{}
	for _, e := range all {
		if e.target == name && e.ok {
			switch e.kind {
			case addRet:
				okAdd[e.op] = true
			case rmRet:
				okRm[e.op] = true
			}
		}
	}
	windows := 0
	var cur *sess
	inCB := false
	var connects, resets, streams, forcedSince int
	failed := time.Duration(-1)
	var began, prev time.Duration
	run := 0
	slow, cbBegan := time.Duration(0), time.Duration(0)
	attempting := false
	for i, e := range all {
		if e.target != name {
			continue
		}
		at := func(s string, args ...any) string { return fmt.Sprintf("event %v: ", e) + fmt.Sprintf(s, args...) }
		_ = i
		switch e.kind {
		case addCall:
			if okAdd[e.op] {
				windows++
				if windows == 1 {
					failed, prev, run, forcedSince, attempting = -1, 0, 0, 0, false
				}
			}
		case rmRet:
			if okRm[e.op] {
				windows--
				if windows == 0 && inCB {
					return at("Remove returned during a callback")
				}
				if windows == 0 && cur != nil && cur.ended && !cur.sendFail && cur.resets == 0 {
					return at("Remove returned, but the stream %d that ended got no Reset", cur.id)
				}
				if windows == 0 && cur != nil && !cur.ended {
					return at("Remove returned, but the stream %d has not ended", cur.id)
				}
				x.r.Count("removals", 1)
				if cur != nil && cur.connected > 0 {
					x.r.Count("removals_after_sessions", 1)
				}
			}
		case rcCall:
			forcedSince++
		case lookup, attempt:
			if windows == 0 {
				return at("an attempt while the target is not managed")
			}
			if failed >= 0 {
				d := e.at - failed
				x.r.Count("retries", 1)
				if x.virtual {
					lo := time.Duration(float64(x.base)*(1-x.jitter)) - time.Microsecond
					hi := time.Duration(float64(x.max)*(1+x.jitter)) + time.Millisecond + slow
					if d > hi && forcedSince == 0 {
						return at("the retry came %v after the failure, the maximal interval is %v", d, hi)
					}
					if t.hops == 1 && d < lo {
						return at("the retry came %v after the failure, the minimal interval is %v", d, lo)
					}
					if t.hops == 1 && x.jitter == 0 && !x.slowCB {
						if d < prev-time.Millisecond {
							return at("the interval shrank from %v to %v", prev, d)
						}
						if run >= 30 && d < x.max/2 {
							return at("after %d failures in a row the interval is %v, the maximal one is %v", run, d, x.max)
						}
						prev = d
						x.r.Count("backoff_intervals_checked", 1)
					}
				}
				failed, slow, forcedSince = -1, 0, 0
				attempting = false
			}
			if !attempting {
				attempting, began = true, e.at
			}
			if cur != nil && !cur.ended {
				return at("an attempt while the stream %d is open", cur.id)
			}
		case lookupErr, attemptErr, openErr, sendErr:
			if e.kind == sendErr {
				cur.sendFail, cur.ended = true, true
			}
			failed = e.at
			run++
			if e.at-began > 2*x.max-time.Millisecond {
				prev, run = 0, 0
			}
		case open:
			if windows == 0 {
				return at("a stream was opened while the target is not managed")
			}
			if cur != nil && !cur.ended {
				return at("a stream was opened while the stream %d is open", cur.id)
			}
			if cur != nil && !cur.sendFail && cur.resets != 1 {
				// Tolerated until a Connect.
				x.r.Count("late_resets", 1)
			}
			streams++
			prevSess := cur
			cur = &sess{id: e.stream}
			if prevSess != nil && !prevSess.sendFail && prevSess.resets != 1 {
				return at("the stream %d ended, but got %d Resets before the next stream", prevSess.id, prevSess.resets)
			}
		case recv:
			cur.received++
			if e.msg != mOther {
				cur.pending = append(cur.pending, e)
			}
		case end:
			cur.ended = true
			failed = e.at
			run++
			if cur.received > 0 || e.at-began > 2*x.max-time.Millisecond {
				prev, run = 0, 0
			}
		case cbDone:
			inCB = false
			slow += e.at - cbBegan
			if windows == 0 {
				return at("a callback ended after Remove had returned")
			}
		case cbConnect, cbUpdate, cbSync, cbReset, cbConnErr, cbMonErr:
			if windows == 0 {
				return at("a callback while the target is not managed")
			}
			if inCB {
				return at("a callback during another one")
			}
			inCB, cbBegan = true, e.at
			x.r.Count("callbacks", 1)
			switch e.kind {
			case cbConnErr, cbMonErr:
				x.r.Count("errors_reported", 1)
				continue
			}
			if cur == nil {
				return at("there was no stream yet")
			}
			switch e.kind {
			case cbConnect:
				connects++
				if cur.received == 0 {
					return at("the stream %d has received nothing", cur.id)
				}
				if cur.connected > 0 {
					return at("this is the second Connect of the stream %d", cur.id)
				}
				if cur.resets > 0 {
					return at("the stream %d was reset already", cur.id)
				}
				cur.connected++
			case cbUpdate, cbSync:
				if cur.connected == 0 || cur.resets > 0 {
					return at("the stream %d has %d Connects and %d Resets", cur.id, cur.connected, cur.resets)
				}
				want := mUpdate
				if e.kind == cbSync {
					want = mSync
				}
				if len(cur.pending) == 0 {
					return at("the stream %d has received nothing more", cur.id)
				}
				if p := cur.pending[0]; p.msg != want || p.id != e.id {
					return at("the next message of the stream %d is %v", cur.id, p)
				}
				cur.pending = cur.pending[1:]
				x.r.Count("messages_delivered", 1)
			case cbReset:
				resets++
				if !cur.ended {
					return at("the stream %d has not ended", cur.id)
				}
				cur.resets++
				if cur.resets > 1 {
					return at("this is the Reset number %d of the stream %d", cur.resets, cur.id)
				}
				if len(cur.pending) > 0 {
					return at("the message %v was not delivered before the Reset", cur.pending[0])
				}
			}
		}
	}
	if windows != 0 {
		return fmt.Sprintf("still managed at the end (%d)", windows)
	}
	x.r.Count("streams", streams)
	x.r.Count("connects", connects)
	x.r.Count("resets", resets)
	return ""
}

type regIn struct {
	kind kind
	name string
}

var register = porcupine.Model{
	Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range ops {
			n := o.Input.(regIn).name
			m[n] = append(m[n], o)
		}
		var r [][]porcupine.Operation
		for _, k := range vk.SortedKeys(m) {
			r = append(r, m[k])
		}
		return r
	},
	Init: func() any { return false },
	Step: func(s, in, out any) (bool, any) {
		there, ok := s.(bool), out.(bool)
		switch in.(regIn).kind {
		case addCall:
			return ok == !there, true
		case rmCall:
			return ok == there, false
		}
		// Only an unknown target makes Reconnect fail.
		return ok == there, there
	},
	Equal: func(a, b any) bool { return a == b },
}

// opsLegal judges the results of Add, Remove and Reconnect.
func opsLegal(evs []ev) string {
	var ops []porcupine.Operation
	calls := map[int]int{}
	for i, e := range evs {
		switch e.kind {
		case addCall, rmCall, rcCall:
			calls[e.op] = i
		case addRet, rmRet, rcRet:
			c := calls[e.op]
			ops = append(ops, porcupine.Operation{ClientId: e.op, Input: regIn{evs[c].kind, e.target}, Call: int64(c), Output: e.ok, Return: int64(i)})
		}
	}
	if porcupine.CheckOperationsTimeout(register, ops, 10*time.Second) == porcupine.Illegal {
		return "the results of Add, Remove and Reconnect are not those of any order of the calls"
	}
	return ""
}
