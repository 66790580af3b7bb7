package c12

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"verifharness/hostile"
	"verifharness/procs"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

// The real processes, with peers that speak in bytes: hostile targets and
// subscribers around gnmi_collector, hostile servers before gnmi_cli.

// raw passes messages as they are.
type raw struct{}

func (raw) Name() string { return "proto" }

func (raw) Marshal(v any) ([]byte, error) {
	switch x := v.(type) {
	case []byte:
		return x, nil
	case *[]byte:
		return *x, nil
	case proto.Message:
		return proto.Marshal(x)
	}
	return nil, fmt.Errorf("type %T", v)
}

func (raw) Unmarshal(b []byte, v any) error {
	switch x := v.(type) {
	case *[]byte:
		*x = append([]byte(nil), b...)
		return nil
	case proto.Message:
		return proto.Unmarshal(b, x)
	}
	return fmt.Errorf("type %T", v)
}

// session is what a hostile server does in one RPC.
type session struct {
	frames [][]byte
	end    int
}

// The ends of sessions.
const (
	endEOF = iota
	endError
	endGarbage
	endOpen
	nEnds
)

var ends = []error{nil, status.Error(codes.Unavailable, "gone"), status.Error(codes.OK, ""), errors.New("%s%d\n\x00")}

// spoilBytes changes bytes of a message so that it probably does not decode.
func spoilBytes(rnd *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	switch rnd.Intn(4) {
	case 0:
		x := make([]byte, rnd.Intn(20))
		rnd.Read(x)
		return append(b, x...)
	case 1:
		return b[:rnd.Intn(len(b)+1)]
	case 2:
		return append(b, 0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f)
	}
	for i := 0; i < 1+len(b)/8 && len(b) > 0; i++ {
		b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
	}
	return b
}

// streamFrames makes a session of a target.
func streamFrames(rnd *rand.Rand, g *hostile.Gen, n int) session {
	var s session
	var prev []*pb.SubscribeResponse
	for ; n > 0; n-- {
		g.Advance()
		m := g.Response()
		if u := m.GetUpdate(); u == nil && !m.GetSyncResponse() && rnd.Intn(10) > 0 {
			// Most of what ends a session is left out.
			continue
		}
		if len(prev) > 0 && rnd.Intn(4) == 0 {
			m = proto.Clone(prev[rnd.Intn(len(prev))]).(*pb.SubscribeResponse)
			if u := m.GetUpdate(); u != nil {
				vary(rnd, g, u)
			}
		}
		out := &pb.SubscribeResponse{}
		if !g.Wire(m, out) {
			continue
		}
		b, err := proto.Marshal(out)
		if err != nil {
			continue
		}
		prev = append(prev, out)
		s.frames = append(s.frames, b)
	}
	s.end = rnd.Intn(nEnds)
	if s.end == endGarbage {
		b := []byte{}
		if len(s.frames) > 0 {
			b = s.frames[rnd.Intn(len(s.frames))]
		}
		s.frames = append(s.frames, spoilBytes(rnd, b))
	}
	return s
}

// peer is a hostile server.
type peer struct {
	addr string
	srv  *grpc.Server
	// next makes the next session of a stream.
	next func(method string) session
	// polled has frames of the session sent per request.
	polled bool

	mu   sync.Mutex
	log  []string
	sent int
	open int
}

func newPeer(c *procs.Certs, polled bool, next func(string) session) (*peer, error) {
	p := &peer{next: next, polled: polled}
	p.srv = grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&c.Pair)), grpc.ForceServerCodec(raw{}), grpc.UnknownServiceHandler(p.serve))
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p.addr = lis.Addr().String()
	go p.srv.Serve(lis)
	return p, nil
}

func (p *peer) note(format string, args ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.log = append(p.log, fmt.Sprintf(format, args...))
	if len(p.log) > 400 {
		p.log = append([]string(nil), p.log[200:]...)
	}
}

func (p *peer) messages() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.sent
}

func (p *peer) serve(_ any, s grpc.ServerStream) error {
	method, _ := grpc.MethodFromServerStream(s)
	var in []byte
	if err := s.RecvMsg(&in); err != nil {
		return err
	}
	x := p.next(method)
	p.note("session %s after %x", method, in)
	for i, f := range x.frames {
		if p.polled && i > 0 && i%5 == 0 {
			if err := s.RecvMsg(&in); err != nil {
				return err
			}
		}
		p.note("%s", base64.StdEncoding.EncodeToString(f))
		if err := s.SendMsg(f); err != nil {
			return err
		}
		p.mu.Lock()
		p.sent++
		p.mu.Unlock()
	}
	if x.end == endOpen {
		select {
		case <-s.Context().Done():
		case <-time.After(time.Second):
		}
		return s.Context().Err()
	}
	p.note("end %v", ends[x.end])
	return ends[x.end]
}

func (p *peer) describe() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return strings.Join(p.log, "\n")
}

// good is a target that behaves.
type good struct {
	pb.UnimplementedGNMIServer
	count atomic.Int64
}

func (g *good) response(name string, v int64) *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: time.Now().UnixNano(), Update: []*pb.Update{{
		Path: &pb.Path{Elem: []*pb.PathElem{{Name: name}, {Name: "b"}}}, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}},
	}}}}}
}

func (g *good) Subscribe(s pb.GNMI_SubscribeServer) error {
	if _, err := s.Recv(); err != nil {
		return err
	}
	for i, n := range []string{"a", "b", "c"} {
		if err := s.Send(g.response(n, int64(i))); err != nil {
			return err
		}
	}
	if err := s.Send(&pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
		return err
	}
	for {
		if err := s.Send(g.response("alive", g.count.Add(1))); err != nil {
			return err
		}
		select {
		case <-s.Context().Done():
			return nil
		case <-time.After(20 * time.Millisecond):
		}
	}
}

func bin(name string) string { return filepath.Join(os.Getenv("VERIF_BDIR"), name+".bin") }

// processes runs the cases with processes.
func processes(r *vk.Run) {
	tmp, err := os.MkdirTemp("", "verif-c12-")
	if err != nil {
		r.Inconclusive("scratch directory: %v", err)
		return
	}
	defer os.RemoveAll(tmp)
	c, err := procs.MakeCerts(tmp)
	if err != nil {
		r.Inconclusive("certificates: %v", err)
		return
	}
	for i, n := 0, r.N(24, 1600); i < n && !r.TooMany(); i++ {
		if !r.Mine(i) {
			continue
		}
		r.Journal("collector %d", i)
		collectorCase(r, tmp, c, i)
		for j := range r.N(20, 20) {
			r.Journal("cli %d/%d", i, j)
			cliCase(r, c, i, j)
		}
		r.Eval(1)
	}
}

func collectorCase(r *vk.Run, dir string, c *procs.Certs, i int) {
	rnd := r.Rand("collector", i)
	conf := &tpb.Configuration{
		Request: map[string]*pb.SubscribeRequest{"r": {Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{Subscription: []*pb.Subscription{{Path: &pb.Path{}}}}}}},
		Target:  map[string]*tpb.Target{},
	}
	names := []string{"t1", "t2", "x"}[:1+rnd.Intn(3)]
	var peers []*peer
	for _, n := range names {
		var mu sync.Mutex
		prnd := rand.New(rand.NewSource(rnd.Int63()))
		g := hostile.New(prnd)
		if prnd.Intn(3) == 0 {
			// Timestamps a target would send: what the cache accepts.
			g.Base = time.Now().UnixNano()
		}
		p, err := newPeer(c, false, func(string) session {
			mu.Lock()
			defer mu.Unlock()
			return streamFrames(prnd, g, 200+prnd.Intn(1000))
		})
		if err != nil {
			r.Inconclusive("listen: %v", err)
			return
		}
		defer p.srv.Stop()
		peers = append(peers, p)
		conf.Target[n] = &tpb.Target{Request: "r", Addresses: []string{p.addr}}
	}
	gt := &good{}
	gsrv := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&c.Pair)))
	pb.RegisterGNMIServer(gsrv, gt)
	glis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("listen: %v", err)
		return
	}
	go gsrv.Serve(glis)
	defer gsrv.Stop()
	conf.Target["good"] = &tpb.Target{Request: "r", Addresses: []string{glis.Addr().String()}}

	flags := []string{"-metadata_update_period", "20ms", "-size_update_period", "20ms"}
	if rnd.Intn(4) == 0 {
		flags = append(flags, "-v", "2") // Dropped messages are printed.
	}
	coll, err := procs.StartCollector(bin("collector"), dir, c, conf, flags...)
	if errors.Is(err, procs.ErrPort) {
		r.Inconclusive("%v", err)
		return
	}
	fail := func(kind, format string, args ...any) {
		var sb strings.Builder
		fmt.Fprintf(&sb, format, args...)
		for k, p := range peers {
			fmt.Fprintf(&sb, "\ntarget %s (base64 of what it sent last):\n%s", names[k], p.describe())
		}
		r.Violation(kind, "collector case %d: %s", i, sb.String())
	}
	if err != nil {
		fail("collector-start", "%v", err)
		return
	}
	defer coll.Kill()
	conn, err := grpc.NewClient(coll.Addr, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})), grpc.WithDefaultCallOptions(grpc.ForceCodec(raw{})))
	if err != nil {
		r.Inconclusive("client: %v", err)
		return
	}
	defer conn.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()

	// Hostile subscribers.
	var wg sync.WaitGroup
	var mu sync.Mutex
	var subLog []string
	answered, rejectedN := 0, 0
	for range 4 + rnd.Intn(8) {
		srnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := hostile.New(srnd)
			for range 4 {
				sctx, scancel := context.WithTimeout(ctx, time.Duration(20+srnd.Intn(400))*time.Millisecond)
				a, rej, log := subscriber(sctx, conn, srnd, g, names)
				scancel()
				mu.Lock()
				answered += a
				rejectedN += rej
				subLog = append(subLog, log...)
				mu.Unlock()
			}
		}()
	}
	// Sessions are renewed.
	for range 2 + rnd.Intn(4) {
		time.Sleep(time.Duration(rnd.Intn(150)) * time.Millisecond)
		for _, n := range names {
			b, _ := proto.Marshal(&pb.Path{Element: []string{n}}) // field 1: the names
			var out []byte
			conn.Invoke(ctx, "/gnmi.Collector/Reconnect", b, &out)
		}
	}
	wg.Wait()

	// The collector still works.
	was := gt.count.Load()
	deadline := time.Now().Add(20 * time.Second)
	for {
		if !coll.Running() {
			fail("collector-ended", "the collector ended with %d\nsubscribers:\n%s\nits output:\n%s", coll.RC, strings.Join(subLog, "\n"), coll.Stderr())
			return
		}
		got, err := leaves(ctx, conn)
		if err == nil && got["a/b"] == 0 && got["b/b"] == 1 && got["c/b"] == 2 && len(got) == 4 && got["alive/b"] > was {
			break
		}
		if time.Now().After(deadline) {
			fail("collector-stuck", "the good target is served as %v (%v), its counter was %d\nsubscribers:\n%s\nthe output of the collector:\n%s", got, err, was, strings.Join(subLog, "\n"), coll.Stderr())
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	if s := procs.Crashed(coll.Stderr()); s != "" {
		fail("collector-panic", "%s", s)
		return
	}
	sent := 0
	for _, p := range peers {
		sent += p.messages()
	}
	r.Count("collector_messages", sent)
	r.Count("collector_requests_answered", answered)
	r.Count("collector_requests_rejected", rejectedN)
	r.Count("collector_cases", 1)
	r.Distinct("collector", i)
}

// subscriber makes one RPC with a hostile request.
func subscriber(ctx context.Context, conn *grpc.ClientConn, rnd *rand.Rand, g *hostile.Gen, names []string) (answered, rejected int, log []string) {
	note := func(what string, b []byte) { log = append(log, what+" "+base64.StdEncoding.EncodeToString(b)) }
	if rnd.Intn(8) == 0 {
		m := []string{"/gnmi.gNMI/Get", "/gnmi.gNMI/Set", "/gnmi.gNMI/Capabilities", "/gnmi.Collector/Reconnect", "/gnmi.gNMI/Other"}[rnd.Intn(5)]
		msg := []proto.Message{&pb.GetRequest{}, &pb.SetRequest{}, &pb.CapabilityRequest{}, &pb.Path{}}[rnd.Intn(4)]
		g.Fill(msg.ProtoReflect(), 4)
		b, _ := proto.Marshal(msg)
		if rnd.Intn(3) == 0 {
			b = spoilBytes(rnd, b)
		}
		note(m, b)
		var out []byte
		if conn.Invoke(ctx, m, b, &out) == nil {
			return 1, 0, log
		}
		return 0, 1, log
	}
	s, err := conn.NewStream(ctx, &grpc.StreamDesc{ClientStreams: true, ServerStreams: true}, "/gnmi.gNMI/Subscribe")
	if err != nil {
		return 0, 0, log
	}
	for k := range 1 + rnd.Intn(3) {
		b, err := proto.Marshal(g.Request())
		if err != nil {
			break
		}
		if k > 0 && rnd.Intn(2) == 0 {
			b, _ = proto.Marshal(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
		}
		if rnd.Intn(12) == 0 {
			b = spoilBytes(rnd, b)
		}
		note("request", b)
		if s.SendMsg(b) != nil {
			break
		}
	}
	if rnd.Intn(3) == 0 {
		s.CloseSend()
	}
	for {
		var out []byte
		if err := s.RecvMsg(&out); err != nil {
			if err != io.EOF && status.Code(err) != codes.DeadlineExceeded {
				rejected++
			}
			return answered, rejected, log
		}
		answered++
	}
}

// leaves reads what is stored for the good target.
func leaves(ctx context.Context, conn *grpc.ClientConn) (map[string]int64, error) {
	ctx, cancel := context.WithTimeout(ctx, 5*time.Second)
	defer cancel()
	s, err := conn.NewStream(ctx, &grpc.StreamDesc{ClientStreams: true, ServerStreams: true}, "/gnmi.gNMI/Subscribe")
	if err != nil {
		return nil, err
	}
	var subs []*pb.Subscription
	for _, n := range []string{"a", "b", "c", "alive"} {
		subs = append(subs, &pb.Subscription{Path: &pb.Path{Elem: []*pb.PathElem{{Name: n}}}})
	}
	if err := s.SendMsg(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Target: "good", Origin: "openconfig"}, Mode: pb.SubscriptionList_ONCE, Subscription: subs,
	}}}); err != nil {
		return nil, err
	}
	got := map[string]int64{}
	for {
		m := &pb.SubscribeResponse{}
		if err := s.RecvMsg(m); err != nil {
			if err == io.EOF {
				err = nil
			}
			return got, err
		}
		for _, u := range m.GetUpdate().GetUpdate() {
			var p []string
			for _, e := range u.GetPath().GetElem() {
				p = append(p, e.GetName())
			}
			if len(p) == 0 {
				for _, e := range m.GetUpdate().GetPrefix().GetElem() {
					p = append(p, e.GetName())
				}
			}
			got[strings.Join(p, "/")] = u.GetVal().GetIntVal()
		}
	}
}

// cliCase runs gnmi_cli before a hostile server.
func cliCase(r *vk.Run, c *procs.Certs, i, j int) {
	rnd := r.Rand("cli", i, j)
	g := hostile.New(rnd)
	if rnd.Intn(2) == 0 {
		g.Base = time.Now().UnixNano()
	}
	args := []string{"-tls_skip_verify", "-timeout", "5s"}
	unary := rnd.Intn(6) == 0
	qt := ""
	if unary {
		args = append(args, []string{"-get", "-set", "-capabilities"}[rnd.Intn(3)], "-proto", " ")
	} else {
		qt = []string{"once", "polling", "streaming", "streaming"}[rnd.Intn(4)]
		args = append(args, "-qt", qt, "-t", "t1", "-q", []string{"a", "*", "a/b", "meta", "/"}[rnd.Intn(5)], "-dt", []string{"group", "single", "proto", "shortproto", "graph", "g", "s", "p", "other"}[rnd.Intn(9)])
		if rnd.Intn(2) == 0 {
			args = append(args, "-ts", []string{"on", "raw", "Jan 2 15:04:05.000", "%s"}[rnd.Intn(4)])
		}
		for _, f := range []string{"-l", "-ds", "-fld", "-flu", "-u"} {
			if rnd.Intn(5) == 0 {
				args = append(args, f)
			}
		}
		if rnd.Intn(6) == 0 {
			args = append(args, "-flml", "1ms")
		}
		if rnd.Intn(6) == 0 {
			args = append(args, "-display_prefix", "%d", "-display_indent", "")
		}
		if rnd.Intn(3) == 0 || qt == "polling" {
			args = append(args, "-c", fmt.Sprint(1+rnd.Intn(4)))
		}
		if rnd.Intn(4) == 0 {
			args = append(args, "-sd", "100ms")
		}
		args = append(args, "-pi", "2ms")
	}
	x := streamFrames(rnd, g, 1+rnd.Intn(40))
	if unary {
		var m proto.Message = &pb.CapabilityResponse{}
		switch args[len(args)-3] {
		case "-get":
			m = &pb.GetResponse{}
		case "-set":
			m = &pb.SetResponse{}
		}
		g.Fill(m.ProtoReflect(), 4)
		b, _ := proto.Marshal(m)
		if rnd.Intn(4) == 0 {
			b = spoilBytes(rnd, b)
		}
		x = session{frames: [][]byte{b}, end: rnd.Intn(2)}
	}
	p, err := newPeer(c, qt == "polling", func(string) session { return x })
	if err != nil {
		r.Inconclusive("listen: %v", err)
		return
	}
	defer p.srv.Stop()
	args = append(args, "-a", p.addr)
	cmd, err := procs.Start(bin("cli"), args...)
	if err != nil {
		r.Inconclusive("gnmi_cli: %v", err)
		return
	}
	if !cmd.Wait(1500 * time.Millisecond) {
		r.Count("cli_interrupted", 1)
		cmd.Interrupt()
	}
	if s := procs.Crashed(cmd.Stderr()); s != "" {
		r.Violation("cli-panic", "cli case %d/%d: gnmi_cli %s: exit %d: %s\nthe server (base64):\n%s", i, j, strings.Join(args, " "), cmd.RC, s, p.describe())
		return
	}
	r.Count("cli_runs", 1)
	r.Count("cli_messages", p.messages())
	if len(cmd.Stdout()) > 0 {
		r.Count("cli_displayed", 1)
	}
	h := make([]string, 0, len(x.frames))
	for _, f := range x.frames {
		h = append(h, string(f))
	}
	sort.Strings(args)
	r.Distinct("cli", h, args)
}
