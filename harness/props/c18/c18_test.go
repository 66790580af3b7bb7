// Package c18 checks property C18: Subscribe and Close of clients terminate,
// and reconnecting ones keep to their callback discipline.
package c18

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	fclient "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"

	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C18", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			r.Until(1, 2)
			for i, n := 0, r.N(120000, 3000000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("virtual %d", i)
					synctest.Test(t, func(t *testing.T) { session(r, i, true) })
				}
			}
		}
		n := r.N(16000, 400000)
		if race {
			n = r.N(6000, 120000)
		}
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				r.Journal("real %d race %v", i, race)
				session(r, i, false)
			}
		}
	})
}

type kind int

const (
	subCall kind = iota
	subRet
	closeCall
	closeRet
	cancelled
	begin // of an attempt
	end
	disc
	reset
	notif
	recv // a message was handed to the client implementation
	over // the end of a stream was
)

var kindNames = []string{"Subscribe called", "Subscribe returned", "Close called", "Close returned", "context cancelled", "attempt begins", "attempt ends", "DISCONNECT", "RESET", "NOTIFICATION", "message received", "end of stream received"}

type ev struct {
	at      time.Duration
	kind    kind
	attempt int
	stream  int
	msg     int64
	what    string
	op      int
	err     bool
}

func (e ev) String() string {
	s := fmt.Sprintf("%v %s", e.at, kindNames[e.kind])
	if e.stream > 0 {
		s += fmt.Sprintf(" stream %d", e.stream)
	}
	if e.msg > 0 {
		s += fmt.Sprintf(" message %d", e.msg)
	}
	return s + " " + e.what
}

const (
	own    = iota // a scripted implementation
	rpc           // the gNMI implementation over a scripted stream
	faked         // the fake of the repository
	wired         // the gNMI implementation over gRPC
	nKinds = iota
)

var implNames = []string{"scripted", "gnmi", "fake", "gnmi over gRPC"}

// kept is the path of a notification.
type kept struct {
	p   client.Path
	was string
}

type run struct {
	kept    []kept
	r       *vk.Run
	virtual bool
	unit    time.Duration
	start   time.Time
	impl    int
	base    time.Duration
	max     time.Duration
	jitter  float64
	slowCB  bool
	noCtx   bool // streams end when they are closed, not by the context
	plain   bool // no reconnecting client
	qtype   client.Type
	nstream atomic.Int64
	nmsg    atomic.Int64
	nop     atomic.Int64

	mu      sync.Mutex
	rnd     *rand.Rand
	evs     []ev
	attempt int
	stream  int // the stream that was begun last
	bad     string
	first   chan struct{}
	seen    bool         // a notification of the round
	want    map[int][]ev // by stream, the notifications that were received
	lis     *bufconn.Listener
	srv     *grpc.Server
}

func (x *run) log(e ev) {
	x.mu.Lock()
	e.at = time.Since(x.start)
	e.attempt = x.attempt
	x.evs = append(x.evs, e)
	x.mu.Unlock()
}

func (x *run) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.rnd.Intn(n)
}

func (x *run) span(n float64) time.Duration {
	x.mu.Lock()
	defer x.mu.Unlock()
	return time.Duration(x.rnd.Float64() * n * float64(x.unit))
}

func (x *run) fail(format string, args ...any) {
	x.mu.Lock()
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, args...)
	}
	x.mu.Unlock()
}

var errScript = errors.New("scripted failure")

func sleep(ctx context.Context, d time.Duration) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-tm.C:
	case <-ctx.Done():
	}
}

// client.Client that records the attempts.
type recorder struct {
	client.Client
	x *run
}

func (c *recorder) Subscribe(ctx context.Context, q client.Query, typ ...string) error {
	c.x.mu.Lock()
	c.x.attempt++
	c.x.mu.Unlock()
	c.x.log(ev{kind: begin})
	err := c.Client.Subscribe(ctx, q, typ...)
	what := ""
	if err != nil {
		what = err.Error()
	}
	c.x.log(ev{kind: end, err: err != nil, what: what})
	return err
}

// message is what a stream hands over: notifications of one message, each
// with the id of the message and its place.
type message struct {
	id  int64
	n   int // updates
	del int // deletes
	syn bool
	bad bool // the client cannot handle it
}

type plan struct {
	msgs     []message
	gaps     []time.Duration
	err      error // nil: blocks
	last     time.Duration
	buffered int // still received after a cancellation
}

func (x *run) plan() *plan {
	p := &plan{}
	n := 0
	switch x.intn(4) {
	case 0:
	case 1:
		n = 1
	default:
		n = x.intn(10)
	}
	for i := 0; i < n; i++ {
		m := message{id: x.nmsg.Add(1)}
		switch x.intn(8) {
		case 0:
			m.syn = true
		case 1:
			m.bad = x.intn(4) == 0
			m.n = 1
		default:
			m.n, m.del = x.intn(4), x.intn(3)
		}
		p.msgs = append(p.msgs, m)
		var d time.Duration
		switch x.intn(4) {
		case 0:
			d = x.span(5)
		case 1:
			d = x.span(0.5)
		}
		p.gaps = append(p.gaps, d)
	}
	switch x.intn(6) {
	case 0:
		p.err = io.EOF
	case 1, 2:
		p.err = status.Error(14, "scripted end")
	case 3, 4:
		// It blocks.
	default:
		p.err = errScript
	}
	if x.intn(3) == 0 {
		p.last = x.span(20)
	}
	p.buffered = max(0, x.intn(6)-3)
	return p
}

// script plays a plan.
type script struct {
	x      *run
	id     int
	ctx    context.Context
	p      *plan
	i      int
	ended  bool
	closed chan struct{}
	once   sync.Once
}

func (x *run) script(ctx context.Context) *script {
	s := &script{x: x, id: int(x.nstream.Add(1)), ctx: ctx, p: x.plan(), closed: make(chan struct{})}
	x.mu.Lock()
	x.stream = s.id
	x.mu.Unlock()
	return s
}

func (s *script) close() { s.once.Do(func() { close(s.closed) }) }

// next returns the next message or the end.
func (s *script) next() (message, error) {
	if s.ended {
		return message{}, io.EOF
	}
	d, err := s.p.last, s.p.err
	if s.i < len(s.p.msgs) {
		d, err = s.p.gaps[s.i], nil
	} else if err == nil {
		d = -1
	}
	done := s.ctx.Done()
	if s.x.noCtx {
		done = nil
	}
	hit := false
	select {
	case <-done:
		hit = true
	case <-s.closed:
		hit = true
	default:
	}
	if d == 0 && hit && s.x.intn(2) == 0 {
		d = -1
	}
	if d != 0 {
		var c <-chan time.Time
		if d > 0 {
			tm := time.NewTimer(d)
			defer tm.Stop()
			c = tm.C
		}
		cause := error(nil)
		select {
		case <-c:
		case <-s.closed:
			cause = status.Error(1, "the connection is closing")
		case <-done:
			cause = status.FromContextError(s.ctx.Err()).Err()
		}
		if cause != nil {
			if s.p.buffered == 0 || s.i >= len(s.p.msgs) {
				s.ended = true
				s.x.log(ev{kind: over, stream: s.id, what: cause.Error()})
				return message{}, cause
			}
			s.p.buffered--
		}
	}
	if s.i >= len(s.p.msgs) {
		s.ended = true
		s.x.log(ev{kind: over, stream: s.id, what: err.Error()})
		return message{}, err
	}
	m := s.p.msgs[s.i]
	s.i++
	s.x.received(s.id, m)
	return m, nil
}

// received notes that a message was handed to the client.
func (x *run) received(stream int, m message) {
	x.log(ev{kind: recv, stream: stream, msg: m.id, what: fmt.Sprintf("%d updates, %d deletes, sync %v, bad %v", m.n, m.del, m.syn, m.bad)})
	if m.bad {
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for i := 0; i < m.n; i++ {
		x.want[stream] = append(x.want[stream], ev{msg: m.id, what: fmt.Sprint("update ", i)})
	}
	for i := 0; i < m.del; i++ {
		x.want[stream] = append(x.want[stream], ev{msg: m.id, what: fmt.Sprint("delete ", i)})
	}
	if m.syn {
		x.want[stream] = append(x.want[stream], ev{msg: m.id, what: "sync"})
	}
}

// handle is the notification handler.
func (x *run) handle(n client.Notification) error {
	e := ev{kind: notif}
	x.mu.Lock()
	e.stream = x.stream
	x.mu.Unlock()
	// The application may keep what it is given.
	keep := func(p client.Path) {
		x.mu.Lock()
		x.kept = append(x.kept, kept{p: p, was: strings.Join(p, "\x00")})
		x.mu.Unlock()
	}
	switch v := n.(type) {
	case client.Connected:
		e.what = "connected"
	case client.Sync:
		e.what = "sync"
	case client.Update:
		e.msg, e.what = v.TS.UnixNano(), fmt.Sprint("update ", v.Val)
		keep(v.Path)
	case client.Delete:
		e.msg, e.what = v.TS.UnixNano(), "delete "+v.Path[len(v.Path)-1]
		keep(v.Path)
	default:
		e.what = fmt.Sprintf("%T %v", n, n)
	}
	x.log(e)
	x.mu.Lock()
	if !x.seen {
		x.seen = true
		close(x.first)
	}
	x.mu.Unlock()
	if x.slowCB && x.intn(3) == 0 {
		time.Sleep(x.span(0.5))
	}
	return nil
}

// ownImpl is a scripted client.Impl.
type ownImpl struct {
	x         *run
	s         *script
	q         client.Query
	connected bool
	mu        sync.Mutex
	shut      bool
}

func (o *ownImpl) Subscribe(ctx context.Context, q client.Query) error {
	if err := o.x.slowStart(ctx); err != nil {
		return err
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.s, o.q = o.x.script(ctx), q
	if o.shut {
		o.s.close()
	}
	return nil
}

func (o *ownImpl) Recv() error {
	m, err := o.s.next()
	if err != nil {
		return err
	}
	if !o.connected {
		o.connected = true
		o.q.NotificationHandler(client.Connected{})
	}
	if m.bad {
		return errScript
	}
	ts := time.Unix(0, m.id)
	for i := 0; i < m.n; i++ {
		o.q.NotificationHandler(client.Update{Path: client.Path{"a"}, TS: ts, Val: int64(i)})
	}
	for i := 0; i < m.del; i++ {
		o.q.NotificationHandler(client.Delete{Path: client.Path{fmt.Sprint(i)}, TS: ts})
	}
	if m.syn {
		o.q.NotificationHandler(client.Sync{})
	}
	return nil
}

func (o *ownImpl) Close() error {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.shut = true
	if o.s != nil {
		o.s.close()
	}
	return nil
}

func (o *ownImpl) Poll() error { return nil }

// slowStart is the beginning of a connection or a subscription.
func (x *run) slowStart(ctx context.Context) error {
	switch x.intn(16) {
	case 0:
		return errScript
	case 1:
		sleep(ctx, x.span(3))
		return errScript
	case 2:
		// It ignores its context.
		time.Sleep(x.span(2))
	case 3:
		<-ctx.Done()
		return ctx.Err()
	case 4, 5:
		sleep(ctx, x.span(3))
		return ctx.Err()
	}
	return nil
}

// rpcImpl is the gNMI implementation over a scripted stream.
type rpcImpl struct {
	*gclient.Client
	x    *run
	mu   sync.Mutex
	s    *script
	shut bool
}

func (p *rpcImpl) Close() error {
	p.mu.Lock()
	p.shut = true
	if p.s != nil {
		p.s.close()
	}
	p.mu.Unlock()
	return p.Client.Close()
}

func (p *rpcImpl) intercept(ctx context.Context, desc *grpc.StreamDesc, cc *grpc.ClientConn, method string, streamer grpc.Streamer, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if err := p.x.slowStart(ctx); err != nil {
		return nil, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.s = p.x.script(ctx)
	if p.shut {
		p.s.close()
	}
	return &stream{s: p.s}, nil
}

// stream is the client side of a scripted RPC, or records a real one.
type stream struct {
	grpc.ClientStream
	s *script
}

func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Context() context.Context     { return s.s.ctx }

func (s *stream) SendMsg(m any) error {
	if s.ClientStream != nil {
		return s.ClientStream.SendMsg(m)
	}
	if s.s.x.intn(12) == 0 {
		return io.EOF
	}
	return nil
}

func response(m message) *pb.SubscribeResponse {
	switch {
	case m.bad && m.id%2 == 0:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{Code: 3}}}
	case m.bad:
		return &pb.SubscribeResponse{}
	case m.syn:
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	}
	n := &pb.Notification{Timestamp: m.id}
	if m.id%2 == 0 {
		n.Prefix = &pb.Path{Target: "t", Elem: []*pb.PathElem{{Name: "p"}, {Name: "q"}}}
	}
	for i := 0; i < m.n; i++ {
		n.Update = append(n.Update, &pb.Update{Path: &pb.Path{Elem: []*pb.PathElem{{Name: "a"}, {Name: fmt.Sprint(i)}}}, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(i)}}})
	}
	for i := 0; i < m.del; i++ {
		n.Delete = append(n.Delete, &pb.Path{Elem: []*pb.PathElem{{Name: "d"}, {Name: fmt.Sprint(i)}}})
	}
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}
}

// parse is the inverse of response.
func parse(r *pb.SubscribeResponse) message {
	switch v := r.GetResponse().(type) {
	case *pb.SubscribeResponse_Update:
		return message{id: v.Update.Timestamp, n: len(v.Update.Update), del: len(v.Update.Delete)}
	case *pb.SubscribeResponse_SyncResponse:
		return message{syn: true}
	}
	return message{bad: true}
}

func (s *stream) RecvMsg(m any) error {
	out := m.(*pb.SubscribeResponse)
	if s.ClientStream != nil {
		if err := s.ClientStream.RecvMsg(m); err != nil {
			s.s.x.log(ev{kind: over, stream: s.s.id, what: err.Error()})
			return err
		}
		s.s.x.received(s.s.id, parse(out))
		return nil
	}
	msg, err := s.s.next()
	if err != nil {
		return err
	}
	proto.Reset(out)
	proto.Merge(out, response(msg))
	return nil
}

// server is the other side of the wired runs.
type server struct {
	pb.UnimplementedGNMIServer
	x *run
}

func (h *server) Subscribe(s pb.GNMI_SubscribeServer) error {
	if _, err := s.Recv(); err != nil {
		return err
	}
	p := h.x.plan()
	for i, m := range p.msgs {
		if p.gaps[i] > 0 {
			sleep(s.Context(), p.gaps[i])
		}
		if err := s.Send(response(m)); err != nil {
			return err
		}
	}
	sleep(s.Context(), p.last)
	switch p.err {
	case nil:
		<-s.Context().Done()
		return nil
	case io.EOF:
		return nil
	}
	return p.err
}

// newImpl is the constructor of the implementations.
func (x *run) newImpl(ctx context.Context, d client.Destination) (client.Impl, error) {
	if err := x.slowStart(ctx); err != nil {
		return nil, err
	}
	switch x.impl {
	case own:
		return &ownImpl{x: x}, nil
	case rpc:
		p := &rpcImpl{x: x}
		cc, err := grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithStreamInterceptor(p.intercept))
		if err != nil {
			panic(err)
		}
		if p.Client, err = gclient.NewFromConn(ctx, cc, d); err != nil {
			return nil, err
		}
		return p, nil
	case wired:
		opts := []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithBlock(),
			grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
				x.mu.Lock()
				l := x.lis
				x.mu.Unlock()
				return l.DialContext(ctx)
			}),
			grpc.WithStreamInterceptor(func(ctx context.Context, desc *grpc.StreamDesc, cc *grpc.ClientConn, method string, streamer grpc.Streamer, opts ...grpc.CallOption) (grpc.ClientStream, error) {
				s, err := streamer(ctx, desc, cc, method, opts...)
				if err != nil {
					return nil, err
				}
				sc := &script{x: x, id: int(x.nstream.Add(1)), ctx: ctx}
				x.mu.Lock()
				x.stream = sc.id
				x.mu.Unlock()
				return &stream{ClientStream: s, s: sc}, nil
			})}
		cc, err := grpc.DialContext(ctx, "passthrough:///x", opts...)
		if err != nil {
			return nil, err
		}
		return gclient.NewFromConn(ctx, cc, d)
	}
	// The fake of the repository, which has notifications for messages.
	id := int(x.nstream.Add(1))
	x.mu.Lock()
	x.stream = id
	x.mu.Unlock()
	c := &fclient.Client{Context: ctx}
	p := x.plan()
	for i, m := range p.msgs {
		switch {
		case p.gaps[i] > 0:
			b := make(fclient.Block)
			d := p.gaps[i]
			time.AfterFunc(d, b.Unblock)
			c.Updates = append(c.Updates, b)
		}
		n := client.Notification(client.Update{Path: client.Path{"a"}, TS: time.Unix(0, m.id), Val: int64(0)})
		if m.syn {
			n = client.Sync{}
		} else if m.bad {
			c.Updates = append(c.Updates, errScript)
			continue
		}
		c.Updates = append(c.Updates, n)
	}
	if p.err != nil {
		c.Updates = append(c.Updates, p.err)
	} else {
		c.Updates = append(c.Updates, make(fclient.Block))
	}
	return c, nil
}

var typeID atomic.Int64

func session(r *vk.Run, i int, virtual bool) {
	mode := "real"
	if virtual {
		mode = "virtual"
	}
	rnd := r.Rand(mode, i, os.Getenv("VERIF_BUILD"))
	x := &run{r: r, virtual: virtual, rnd: r.Rand("inner", mode, i), want: map[int][]ev{}, start: time.Now()}
	how := ""
	x.qtype = client.Stream
	if virtual {
		x.unit = time.Second
		x.base, x.max = time.Second, time.Minute
		if rnd.Intn(2) == 0 {
			x.base = time.Duration(1+rnd.Intn(3000)) * time.Millisecond
			x.max = x.base * time.Duration(1+rnd.Intn(40))
		}
		x.impl = rnd.Intn(3)
	} else {
		x.unit = time.Millisecond
		x.base = time.Duration(50+rnd.Intn(800)) * time.Microsecond
		x.max = x.base * time.Duration(1+rnd.Intn(5))
		x.impl = rnd.Intn(nKinds)
		how = sched.Pick(rnd, time.Duration(50+rnd.Intn(1500))*time.Microsecond)
		defer sched.Off()
	}
	if rnd.Intn(2) == 0 {
		x.jitter = rnd.Float64()
	}
	x.slowCB = rnd.Intn(3) == 0
	x.noCtx = x.impl != faked && x.impl != wired && rnd.Intn(3) == 0
	// The fake takes no notice of Close.
	x.plain = x.impl != faked && rnd.Intn(6) == 0
	if x.impl == wired {
		x.lis = bufconn.Listen(1 << 16)
		x.srv = grpc.NewServer()
		pb.RegisterGNMIServer(x.srv, &server{x: x})
		go x.srv.Serve(x.lis)
	}
	typ := fmt.Sprint("scripted", typeID.Add(1))
	client.RegisterTest(typ, x.newImpl)
	typs := []string{typ}
	client.RetryBaseDelay, client.RetryMaxDelay, client.RetryRandomization = x.base, x.max, x.jitter
	var inner client.Client = &client.BaseClient{}
	cached := rnd.Intn(2) == 0
	if cached {
		inner = client.New()
	}
	rec := &recorder{inner, x}
	var c client.Client = rec
	if !x.plain {
		c = client.Reconnect(rec, func() {
			x.log(ev{kind: disc})
			if x.slowCB && x.intn(3) == 0 {
				time.Sleep(x.span(0.5))
			}
		}, func() {
			x.log(ev{kind: reset})
			if x.slowCB && x.intn(3) == 0 {
				time.Sleep(x.span(0.5))
			}
		})
	}
	q := client.Query{Addrs: []string{"x"}, Target: "t", Queries: []client.Path{{"a"}}, Type: client.Stream, NotificationHandler: x.handle}
	rounds := 1
	if x.plain {
		rounds = 1 + rnd.Intn(3)
	}
	if x.impl != own && x.impl != faked {
		switch {
		case x.plain && rnd.Intn(3) == 0:
			x.qtype = client.Once
		case rnd.Intn(4) == 0:
			x.qtype = client.Poll
		}
	}
	q.Type = x.qtype
	desc := fmt.Sprintf("%s %d (%s): %s implementation, reconnecting %v, caching %v, base %v max %v randomization %v, slow callbacks %v, streams ignore their context %v, %v query", mode, i, how, implNames[x.impl], !x.plain, cached, x.base, x.max, x.jitter, x.slowCB, x.noCtx, x.qtype)
	for n := 0; n < rounds; n++ {
		x.mu.Lock()
		x.evs, x.first, x.seen = nil, make(chan struct{}), false
		x.mu.Unlock()
		evs, bad := x.round(rnd, n, c, q, typs)
		if n == rounds-1 && x.srv != nil {
			x.srv.Stop()
		}
		var sb strings.Builder
		for _, e := range evs {
			fmt.Fprint(&sb, e.kind, e.err, e.stream, e.msg, e.what, ",")
		}
		r.Distinct(x.impl, sb.String())
		if n > 0 {
			r.Count("subscribed_again", 1)
		}
		if bad != "" {
			r.Violation("client", "%s, round %d\n%s\n%s", desc, n, bad, show(evs))
			// For the goroutines to end.
			x.mu.Lock()
			x.noCtx = false
			x.mu.Unlock()
			inner.Close()
			break
		}
		if virtual && r.WantSample() && len(evs) > 20 && len(evs) < 60 {
			r.Sample("%s\n%s", desc, show(evs))
		}
	}
	inner.Close() // A stream that has ended may have left its connection.
	r.Eval(1)
	r.Count("runs_"+implNames[x.impl], 1)
}

// round is one call of Subscribe, until it is closed. It returns what happened
// and what was wrong.
func (x *run) round(rnd *rand.Rand, n int, c client.Client, q client.Query, typs []string) ([]ev, string) {
	virtual := x.virtual
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	subscribed := make(chan struct{})
	closer := func(d time.Duration) {
		defer wg.Done()
		if x.plain && n > 0 {
			// Close would affect the former stream.
			select {
			case <-x.first:
			case <-subscribed:
			case <-time.After(d):
				return
			}
		}
		if d > 0 {
			time.Sleep(d)
		}
		op := int(x.nop.Add(1))
		x.log(ev{kind: closeCall, op: op})
		err := c.Close()
		x.log(ev{kind: closeRet, op: op, err: err != nil})
	}
	subscriber := func(d time.Duration) {
		defer close(subscribed)
		if d > 0 {
			time.Sleep(d)
		}
		x.log(ev{kind: subCall})
		err := c.Subscribe(ctx, q, typs...)
		what := ""
		if err != nil {
			what = err.Error()
		}
		x.log(ev{kind: subRet, err: err != nil, what: what})
	}
	// When, relative to each other.
	life := []float64{0.1, 2, 10, 60, 600}[rnd.Intn(5)]
	if !virtual {
		life = []float64{0.1, 1, 3, 10, 30}[rnd.Intn(5)]
	}
	after := time.Duration(rnd.Float64() * life * float64(x.unit))
	first := rnd.Intn(6)
	byCtx := !x.noCtx && !x.plain && rnd.Intn(5) == 0
	if x.plain {
		// A client that does not reconnect can only be closed once it streams,
		// or else by its context, which streams then must obey.
		first = 5
		x.noCtx = false
	}
	switch first {
	case 0: // Close before Subscribe.
		wg.Add(1)
		closer(0)
		go subscriber(time.Duration(rnd.Intn(2)) * time.Microsecond)
	case 1: // Together.
		wg.Add(1)
		go closer(time.Duration(rnd.Intn(3)) * time.Microsecond)
		go subscriber(time.Duration(rnd.Intn(3)) * time.Microsecond)
	default:
		go subscriber(0)
		wg.Add(1)
		if byCtx {
			wg.Done()
			time.Sleep(after)
			x.log(ev{kind: cancelled})
			cancel()
		} else {
			go closer(after)
		}
		if rnd.Intn(4) == 0 {
			wg.Add(1)
			go closer(time.Duration(rnd.Float64() * life * float64(x.unit)))
		}
	}
	wg.Wait()
	if x.plain {
		// Nothing may come of the Close if the client was not yet streaming.
		select {
		case <-subscribed:
		default:
			if !x.streamsSince() {
				x.log(ev{kind: cancelled})
				cancel()
			}
		}
	}
	// Subscribe must return, too.
	limit := 20 * time.Second
	if virtual {
		limit = time.Duration(float64(x.max)*(1+x.jitter)) + 20*x.unit
	}
	tm := time.NewTimer(limit)
	select {
	case <-subscribed:
	case <-tm.C:
		x.fail("Subscribe has not returned %v after the last Close", limit)
	}
	tm.Stop()
	if byCtx && !x.plain {
		wg.Add(1)
		closer(0)
	}
	// Nothing more may come.
	if virtual {
		time.Sleep(time.Minute)
	} else {
		time.Sleep(time.Millisecond)
	}
	x.mu.Lock()
	evs := append([]ev(nil), x.evs...)
	bad := x.bad
	x.mu.Unlock()
	if bad == "" {
		bad = x.judge(evs)
		x.mu.Lock()
		for _, k := range x.kept {
			if is := strings.Join(k.p, "\x00"); bad == "" && is != k.was {
				bad = fmt.Sprintf("the path of a notification that was delivered as %q has turned into %q", k.was, is)
			}
		}
		x.r.Count("paths_kept", len(x.kept))
		x.mu.Unlock()
	}
	return evs, bad
}

// streamsSince reports whether Close was called when the client was streaming.
func (x *run) streamsSince() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, e := range x.evs {
		if e.kind == closeRet && !e.err {
			return true
		}
	}
	return false
}

func show(evs []ev) string {
	var sb strings.Builder
	for i, e := range evs {
		if len(evs) > 200 && i > 40 && i < len(evs)-140 {
			continue
		}
		fmt.Fprintln(&sb, " ", e)
	}
	return sb.String()
}

func (x *run) judge(evs []ev) string {
	slack := 10 * x.unit
	bound := time.Duration(float64(x.max)*(1+x.jitter)) + slack
	if !x.virtual {
		bound = 20 * time.Second
	}
	var stopped, subDone, closeDone = time.Duration(-1), false, false
	var subscribing, attempting bool
	discs, resets := 0, 0
	goesOn := false
	ended := time.Duration(-1)
	failed, bySync := false, false // an answered poll query ends without a failure
	closeAt := map[int]time.Duration{}
	// Notifications.
	stream := 0
	pos := 0
	late := map[string]bool{}
	for _, e := range evs {
		at := func(s string, args ...any) string { return fmt.Sprintf("event %v: ", e) + fmt.Sprintf(s, args...) }
		switch e.kind {
		case subCall:
			subscribing = true
			if stopped >= 0 {
				stopped = e.at // it begins only now
				x.r.Count("closed_before_subscribe", 1)
			}
		case closeCall, cancelled:
			if e.kind == closeCall {
				closeAt[e.op] = e.at
			}
			// A plain client is only closed by a Close that succeeds.
			if stopped < 0 && (e.kind == cancelled || !x.plain) {
				stopped = e.at
				switch {
				case !subscribing:
				case subDone:
					x.r.Count("closed_after_the_end", 1)
				case attempting && stream > 0:
					x.r.Count("closed_while_attempting", 1)
				case attempting:
					x.r.Count("closed_during_first_attempt", 1)
				default:
					x.r.Count("closed_in_backoff", 1)
				}
			}
		case closeRet:
			if d := e.at - closeAt[e.op]; d > bound {
				return at("Close took %v, the limit is %v", d, bound)
			}
			if !e.err || !x.plain {
				closeDone = true
				if stopped < 0 {
					stopped = closeAt[e.op]
					x.r.Count("plain_closed", 1)
				}
			}
			x.r.Count("closes", 1)
		case subRet:
			subDone = true
			if attempting {
				return at("the attempt has not ended")
			}
			if stopped >= 0 {
				if d := e.at - stopped; d > bound {
					return at("Subscribe returned %v after it was to stop, the limit is %v", d, bound)
				}
			} else if !x.plain && failed {
				return at("Subscribe gave up though the client is not closed")
			}
			if !x.plain && ended >= 0 && discs != 1 {
				return at("%d disconnects of the last attempt", discs)
			}
			x.r.Count("subscribes", 1)
		case begin:
			if attempting {
				return at("another attempt is going on")
			}
			if subDone {
				return at("an attempt after Subscribe returned")
			}
			if ended >= 0 {
				if discs != 1 {
					return at("%d disconnects since the last attempt ended", discs)
				}
				if resets != 1 {
					return at("%d resets since the last attempt ended", resets)
				}
				if d := e.at - ended; d > bound {
					return at("the attempt came %v after the last one, the limit is %v", d, bound)
				}
				x.r.Count("retries", 1)
			}
			attempting, discs, resets, bySync = true, 0, 0, false
		case over:
			goesOn = false
		case recv:
			goesOn = !strings.HasSuffix(e.what, "bad true")
			if x.qtype != client.Stream && strings.Contains(e.what, "sync true") {
				goesOn, bySync = false, true
				x.r.Count("ended_by_sync", 1)
			}
		case end:
			if goesOn && stopped < 0 && len(closeAt) == 0 {
				return at("the attempt ended, though its stream goes on and the client is not closed")
			}
			goesOn = false
			attempting, ended, failed = false, e.at, e.err || !bySync
			x.r.Count("attempts", 1)
		case disc:
			if attempting {
				return at("the attempt has not ended")
			}
			discs++
			if discs > 1 || ended < 0 {
				return at("disconnect number %d of the attempt", discs)
			}
			x.r.Count("disconnects", 1)
		case reset:
			if attempting || discs != 1 {
				return at("%d disconnects before it, attempt running: %v", discs, attempting)
			}
			resets++
			if resets > 1 {
				return at("reset number %d before the next attempt", resets)
			}
			x.r.Count("resets", 1)
		case notif:
			if subDone {
				return at("a notification after Subscribe has returned")
			}
			if !attempting {
				return at("a notification outside of an attempt")
			}
			if e.stream != stream {
				stream, pos = e.stream, 0
				if e.what != "connected" {
					return at("the first notification of the stream is not Connected")
				}
				x.r.Count("streams_connected", 1)
				pos = 0
				break
			}
			if e.what == "connected" {
				return at("a second Connected of the stream")
			}
			if x.impl != faked {
				w := x.want[stream]
				if pos >= len(w) {
					return at("the stream has received nothing more")
				}
				if got := (ev{msg: e.msg, what: e.what}); got.what != w[pos].what || got.what != "sync" && got.msg != w[pos].msg {
					return at("the next notification of the stream is message %d %s", w[pos].msg, w[pos].what)
				}
				e.msg = w[pos].msg
				if e.what == "sync" {
					e.msg = -int64(pos)
				}
				pos++
			} else if e.msg > 0 {
				if int(e.msg) < pos {
					return at("message %d came before it", pos)
				}
				pos = int(e.msg)
			} else {
				e.msg = -int64(len(late)) - 1
			}
			x.r.Count("notifications", 1)
			if closeDone {
				late[fmt.Sprint(e.stream, e.msg)] = true
				if len(late) > 1 {
					return at("notifications of %d messages came after Close had returned", len(late))
				}
				x.r.Count("notifications_after_close", 1)
			}
		}
		if e.kind == end && x.impl != faked && stream > 0 {
			if w := x.want[stream]; pos < len(w) && e.stream == 0 && x.streamOf(evs, e) == stream {
				return at("message %d %s of the stream %d was not delivered", w[pos].msg, w[pos].what, stream)
			}
		}
		if ended >= 0 && !attempting && !subDone && !x.plain && stopped < 0 && e.at-ended > bound {
			return at("no attempt for %v", e.at-ended)
		}
	}
	return ""
}

// streamOf returns the stream of the attempt that ends with e, or 0.
func (x *run) streamOf(evs []ev, e ev) int {
	s := 0
	for _, o := range evs {
		if o.attempt == e.attempt && o.kind == recv {
			s = o.stream
		}
	}
	return s
}
