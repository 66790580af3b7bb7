// Package c12 checks property C12: no message of a remote peer makes the
// processes of the repository panic, and rejected messages leave what is stored
// intact.
package c12

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/cli"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/manager"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hostile"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C12", func(t *testing.T, r *vk.Run) {
		switch os.Getenv("VERIF_BUILD") {
		case "fuzz":
			fuzzing(r)
			return
		case "procs":
			processes(r)
			return
		}
		r.Until(1, 2)
		for i, n := 0, r.N(120000, 4000000); i < n && !r.TooMany(); i++ {
			if !r.Mine(i) {
				continue
			}
			ops := worldOps(r.Rand("world", i))
			r.Journal("world %d %s", i, encode(ops))
			synctest.Test(t, func(t *testing.T) { world(r, fmt.Sprint("world ", i), ops) })
			r.Eval(1)
		}
		r.Until(2, 2)
		for i, n := 0, r.N(80000, 3000000); i < n && !r.TooMany(); i++ {
			if !r.Mine(i) {
				continue
			}
			ops := clientOps(r.Rand("client", i))
			r.Journal("client %d %s", i, encode(ops))
			synctest.Test(t, func(t *testing.T) { receiver(r, fmt.Sprint("client ", i), ops) })
			r.Eval(1)
		}
	})
}

// op is a step of a case: what is done and with which message.
type op struct {
	kind byte
	data []byte
}

// encode makes a single string of bytes of ops.
func pack(ops []op) []byte {
	var b []byte
	for _, o := range ops {
		b = append(b, o.kind, byte(len(o.data)>>8), byte(len(o.data)))
		b = append(b, o.data...)
	}
	return b
}

func encode(ops []op) string { return base64.StdEncoding.EncodeToString(pack(ops)) }

func unpack(b []byte) []op {
	var ops []op
	for len(b) >= 3 && len(ops) < 40 {
		n := min(int(b[1])<<8|int(b[2]), len(b)-3)
		ops = append(ops, op{b[0], b[3 : 3+n]})
		b = b[3+n:]
	}
	return ops
}

// The steps of world cases.
const (
	oUpdate = iota
	oSubscribe
	oMore
	oHangUp
	oMetadata
	oSize
	oReset
	oRemove
	oSync
	oConnect
	oConnectError
	oQuery
	oTime
	oOptions
	nOps
)

var opNames = []string{"update", "subscribe", "another request", "hang up", "update metadata", "update size", "reset", "remove", "sync", "connect", "connect error", "query", "time passes", "options"}

func worldOps(rnd *rand.Rand) []op {
	g := hostile.New(rnd)
	ops := []op{{oOptions, []byte{byte(rnd.Intn(256)), byte(rnd.Intn(256))}}}
	var prev []*pb.Notification
	add := func(k byte, m, out proto.Message) {
		if g.Wire(m, out) {
			if b, err := proto.Marshal(out); err == nil && len(b) < 1<<16 {
				ops = append(ops, op{k, b})
			}
		}
	}
	for n := 1 + rnd.Intn(16); n > 0; n-- {
		g.Advance()
		switch rnd.Intn(16) {
		default:
			m := g.Notification()
			if len(prev) > 0 && rnd.Intn(3) == 0 {
				// Something close to what was sent before.
				m = proto.Clone(prev[rnd.Intn(len(prev))]).(*pb.Notification)
				vary(rnd, g, m)
			}
			out := &pb.Notification{}
			add(oUpdate, m, out)
			prev = append(prev, out)
		case 0, 1, 2:
			add(oSubscribe, g.Request(), &pb.SubscribeRequest{})
		case 3:
			add(oMore, g.Request(), &pb.SubscribeRequest{})
		case 4:
			ops = append(ops, op{byte(oHangUp + rnd.Intn(oQuery-oHangUp)), []byte{byte(rnd.Intn(256))}})
		case 5:
			ops = append(ops, op{oMetadata, nil})
		case 6:
			p := g.Path()
			if p == nil {
				p = &pb.Path{}
			}
			p.Target = hostile.Targets[rnd.Intn(len(hostile.Targets))]
			add(oQuery, p, &pb.Path{})
		case 7:
			ops = append(ops, op{oTime, nil})
		}
	}
	return ops
}

// vary changes parts of a notification.
func vary(rnd *rand.Rand, g *hostile.Gen, n *pb.Notification) {
	n.Timestamp += int64(rnd.Intn(3))
	for _, x := range n.Update {
		switch rnd.Intn(8) {
		case 0, 1:
			x.Val = g.Value(2)
		case 2:
			x.Val = nil
		case 3:
			x.Path = g.Path()
		case 4:
			if x.Path != nil && len(x.Path.Elem) > 0 {
				x.Path.Elem = x.Path.Elem[:len(x.Path.Elem)-1]
			}
		case 5:
			if x.Path != nil {
				x.Path.Elem = append(x.Path.Elem, &pb.PathElem{Name: "a"})
			}
		}
	}
	switch rnd.Intn(12) {
	case 0:
		n.Atomic = !n.Atomic
	case 1:
		for _, x := range n.Update {
			n.Delete = append(n.Delete, proto.Clone(x.GetPath()).(*pb.Path))
		}
		n.Update = nil
		for i, d := range n.Delete {
			if d == nil {
				n.Delete[i] = &pb.Path{}
			}
		}
	case 2:
		n.Prefix = &pb.Path{Target: n.GetPrefix().GetTarget()}
	case 3:
		n.Update = append(n.Update, g.Update())
	}
}

func describe(ops []op) string {
	var sb strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&sb, "%d: %s ", i, opNames[o.kind%nOps])
		switch o.kind % nOps {
		case oUpdate:
			n := &pb.Notification{}
			proto.Unmarshal(o.data, n)
			fmt.Fprintln(&sb, prototext.Format(n))
		case oSubscribe, oMore:
			n := &pb.SubscribeRequest{}
			proto.Unmarshal(o.data, n)
			fmt.Fprintln(&sb, prototext.Format(n))
		default:
			fmt.Fprintf(&sb, "%x\n", o.data)
		}
	}
	return sb.String()
}

// snapshot returns the leaves of a cache with the targets named: by target and
// path, the serialized notification.
func snapshot(c *cache.Cache) map[string]*pb.Notification {
	m := map[string]*pb.Notification{}
	for _, t := range []string{"t1", "t2"} {
		c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
			n, _ := v.(*pb.Notification)
			m[t+"\x00"+strings.Join(p, "\x00")] = n
			return nil
		})
	}
	return m
}

// rejected checks that what n, which was rejected, changed is only what its
// accepted parts say. It returns what is wrong.
func rejected(before, after map[string]*pb.Notification, n *pb.Notification) string {
	whole := n.Atomic || len(n.Update)+len(n.Delete) <= 1
	for k, a := range after {
		b, ok := before[k]
		if ok && a == b {
			continue
		}
		if ok && proto.Equal(a, b) {
			continue
		}
		if whole {
			return fmt.Sprintf("it changed %q to %v", k, a)
		}
		found := false
		for _, u := range n.Update {
			found = found || len(a.GetUpdate()) == 1 && a.GetTimestamp() == n.Timestamp && equal(a.Update[0], u)
		}
		if !found {
			return fmt.Sprintf("it changed %q to %v, which it does not contain", k, a)
		}
	}
	for k, b := range before {
		if _, ok := after[k]; ok {
			continue
		}
		if whole || len(n.Delete) == 0 || b.GetTimestamp() >= n.Timestamp {
			return fmt.Sprintf("it deleted %q: %v", k, b)
		}
	}
	return ""
}

// equal compares the bytes: NaN is not equal to itself.
func equal(a, b proto.Message) bool {
	m := proto.MarshalOptions{Deterministic: true}
	x, _ := m.Marshal(a)
	y, _ := m.Marshal(b)
	return bytes.Equal(x, y)
}

type reporter interface {
	Violation(kind, format string, args ...any)
	Count(name string, n int)
	Distinct(vals ...any)
	Guard(kind, desc string, f func()) bool
}

// world runs ops on a cache with a subscribe server.
func world(r reporter, name string, ops []op) {
	var opts []cache.Option
	var sopts []subscribe.Option
	limited, slow := false, false
	for _, o := range ops[:min(1, len(ops))] {
		if o.kind%nOps != oOptions || len(o.data) < 2 {
			continue
		}
		b := int(o.data[0]) | int(o.data[1])<<8
		bit := func() bool { b >>= 1; return b&1 == 1 }
		if bit() {
			if w, err := cache.WithLatencyWindows([]string{"2s", "10s"}, time.Second); err == nil {
				opts = append(opts, w)
			}
			if bit() {
				opts = append(opts, cache.WithAvgLatencyPrecision(time.Microsecond))
			}
		}
		if bit() {
			opts = append(opts, cache.WithFutureThreshold(time.Hour))
		}
		if bit() && bit() {
			opts = append(opts, cache.DisableEventDrivenEmulation())
		}
		if bit() && bit() {
			opts = append(opts, cache.WithServerName("server"))
		}
		if bit() && bit() {
			opts = append(opts, cache.WithExcludedMeta([]string{"sync", "targetSize"}))
		}
		slow = bit()
		if bit() {
			sopts = append(sopts, subscribe.WithStats())
		}
		if bit() && bit() {
			sopts = append(sopts, subscribe.WithoutDupReport())
		}
		if bit() && bit() {
			sopts = append(sopts, subscribe.WithACL(acl{}))
			limited = true
		}
	}
	c := cache.New([]string{"t1", "t2"}, opts...)
	s, err := subscribe.NewServer(c, sopts...)
	if err != nil {
		panic(err)
	}
	c.SetClient(s.Update)
	var streams []*fakestream.Stream
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	accepted, refused := 0, 0
	ok := r.Guard("world", name+"\n"+describe(ops), func() {
		for i, o := range ops {
			target := "t1"
			if len(o.data) > 0 && o.data[0]&1 == 1 {
				target = "t2"
			}
			switch o.kind % nOps {
			case oUpdate:
				n := &pb.Notification{}
				if proto.Unmarshal(o.data, n) != nil {
					continue
				}
				before := snapshot(c)
				if err := c.GnmiUpdate(n); err == nil {
					accepted++
					continue
				}
				refused++
				if bad := rejected(before, snapshot(c), n); bad != "" {
					r.Violation("rejected", "%s: notification %d was rejected, but %s\n%s", name, i, bad, describe(ops))
				}
			case oSubscribe:
				q := &pb.SubscribeRequest{}
				if proto.Unmarshal(o.data, q) != nil || len(streams) >= 8 {
					continue
				}
				st := fakestream.New(ctx, "peer")
				if slow {
					st.OnSend = func(*pb.SubscribeResponse) error {
						select {
						case <-time.After(300 * time.Millisecond):
						case <-ctx.Done():
						}
						return nil
					}
				}
				st.Request(q)
				before := snapshot(c)
				go st.Serve(s.Subscribe)
				synctest.Wait()
				if bad := rejected(before, snapshot(c), &pb.Notification{}); bad != "" {
					r.Violation("rejected", "%s: subscription %d: %s\n%s", name, i, bad, describe(ops))
				}
				if done, err := st.Err(); done && err == nil && !synced(st) {
					r.Violation("ignored", "%s: subscription %d ended without an error and without a sync response: it was neither processed nor refused\n%s", name, i, describe(ops))
				}
				streams = append(streams, st)
			case oMore:
				q := &pb.SubscribeRequest{}
				if proto.Unmarshal(o.data, q) != nil || len(streams) == 0 {
					continue
				}
				streams[len(streams)-1].Request(q)
				synctest.Wait()
			case oHangUp:
				if len(streams) > 0 && len(o.data) > 0 {
					st := streams[int(o.data[0])%len(streams)]
					if o.data[0]&1 == 0 {
						st.Cancel()
					}
					synctest.Wait()
				}
			case oMetadata:
				c.UpdateMetadata()
			case oSize:
				c.UpdateSize()
			case oReset:
				c.Reset(target)
			case oRemove:
				c.Remove(target)
				if len(o.data) > 0 && o.data[0]&2 == 0 {
					c.Add(target)
				}
			case oSync:
				c.Sync(target)
			case oConnect:
				c.Connect(target)
			case oConnectError:
				c.ConnectError(target, errors.New("a connect error"))
			case oQuery:
				p := &pb.Path{}
				if proto.Unmarshal(o.data, p) != nil {
					continue
				}
				var es []string
				for _, e := range p.Elem {
					es = append(es, e.Name)
				}
				es = append(es, p.Element...)
				n := 0
				if c.Query(p.Target, es, func([]string, *ctree.Leaf, any) error { n++; return nil }) == nil {
					r.Count("queries", 1)
				}
			case oTime:
				time.Sleep(time.Second)
			}
		}
		synctest.Wait()
		c.UpdateMetadata()
		c.UpdateSize()
	})
	if ok {
		// The server is still of use.
		for _, t := range []string{"t1", "t2"} {
			if !c.HasTarget(t) {
				c.Add(t)
			}
			good := &pb.Notification{Timestamp: time.Now().UnixNano(), Prefix: &pb.Path{Target: t}, Update: []*pb.Update{{Path: fakestream.Path("health", "leaf"), Val: &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: "ok"}}}}}
			if err := c.GnmiUpdate(good); err != nil {
				r.Violation("health", "%s: afterwards a good update of %s was rejected: %v\n%s", name, t, err, describe(ops))
				continue
			}
			if limited && t == "t2" {
				continue
			}
			st := fakestream.New(ctx, "peer")
			st.Request(fakestream.Request(pb.SubscriptionList_ONCE, &pb.Path{Target: t}, false, fakestream.Path("health")))
			go st.Serve(s.Subscribe)
			synctest.Wait()
			done, err := st.Err()
			got := st.Responses(0)
			if !done || err != nil || len(got) != 2 || !got[1].GetSyncResponse() || got[0].GetUpdate().GetUpdate()[0].GetVal().GetStringVal() != "ok" {
				r.Violation("health", "%s: afterwards a good subscription to %s ended: %v with %v, it received %v\n%s", name, t, done, err, got, describe(ops))
			}
		}
	}
	cancel()
	synctest.Wait()
	ended, served := 0, 0
	for i, st := range streams {
		done, err := st.Err()
		if ok && !done {
			r.Violation("stuck", "%s: subscription number %d has not ended after it was cancelled\n%s", name, i, describe(ops))
		}
		if n := len(st.Responses(0)); n > 0 {
			served++
			r.Count("responses", n)
			for _, x := range st.Responses(0) {
				for _, u := range x.GetUpdate().GetUpdate() {
					if u.Duplicates > 0 {
						r.Count("coalesced", 1)
					}
				}
			}
		} else if err != nil {
			ended++
		}
		// As gRPC does with each response.
		for _, x := range st.Responses(0) {
			if x.GetUpdate() == nil && x.GetResponse() == nil {
				r.Violation("response", "%s: subscription number %d received an empty response\n%s", name, i, describe(ops))
			}
		}
	}
	r.Count("notifications_accepted", accepted)
	r.Count("notifications_rejected", refused)
	r.Count("subscriptions_served", served)
	r.Count("subscriptions_rejected", ended)
	if accepted+served > 0 {
		r.Distinct(pack(ops))
	}
}

func synced(st *fakestream.Stream) bool {
	for _, x := range st.Responses(0) {
		if x.GetSyncResponse() {
			return true
		}
	}
	return false
}

type acl struct{}

func (acl) NewRPCACL(context.Context) (subscribe.RPCACL, error) { return rpcACL{}, nil }
func (acl) Check(user, t string) bool                           { return true }

type rpcACL struct{}

func (rpcACL) Check(t string) bool { return t != "t2" }

// What receives the responses in client cases.
const (
	cCache = iota
	cBase
	cProto
	cCLI
	cManager
	nClients
)

func clientOps(rnd *rand.Rand) []op {
	g := hostile.New(rnd)
	conf := make([]byte, 16)
	rnd.Read(conf)
	ops := []op{{byte(rnd.Intn(256)), conf}}
	prev := []*pb.SubscribeResponse{}
	for n := 1 + rnd.Intn(12); n > 0; n-- {
		g.Advance()
		m := g.Response()
		if len(prev) > 0 && rnd.Intn(6) == 0 {
			// Something close to what was sent before.
			m = proto.Clone(prev[rnd.Intn(len(prev))]).(*pb.SubscribeResponse)
			if u := m.GetUpdate(); u != nil {
				vary(rnd, g, u)
			}
		}
		out := &pb.SubscribeResponse{}
		if g.Wire(m, out) {
			if b, err := proto.Marshal(out); err == nil && len(b) < 1<<16 {
				ops = append(ops, op{byte(rnd.Intn(256)), b})
				prev = append(prev, out)
			}
		}
	}
	return ops
}

func describeResponses(ops []op) string {
	var sb strings.Builder
	for i, o := range ops[1:] {
		n := &pb.SubscribeResponse{}
		proto.Unmarshal(o.data, n)
		fmt.Fprintf(&sb, "%d: %s\n", i, prototext.Format(n))
	}
	return sb.String()
}

// script is the client side of an RPC that receives the responses.
type script struct {
	grpc.ClientStream
	ctx    context.Context
	resps  []*pb.SubscribeResponse
	i      int
	stay   bool
	before func(i int)
	ended  bool
}

func (s *script) Header() (metadata.MD, error) { return nil, nil }
func (s *script) Trailer() metadata.MD         { return nil }
func (s *script) CloseSend() error             { return nil }
func (s *script) Context() context.Context     { return s.ctx }
func (s *script) SendMsg(any) error {
	if s.ended {
		return io.EOF
	}
	return nil
}
func (s *script) RecvMsg(m any) error {
	if s.before != nil {
		s.before(s.i)
	}
	if s.i >= len(s.resps) {
		s.ended = true
		if s.stay {
			<-s.ctx.Done()
			return s.ctx.Err()
		}
		return io.EOF
	}
	out := m.(*pb.SubscribeResponse)
	proto.Reset(out)
	proto.Merge(out, s.resps[s.i])
	s.i++
	return nil
}

func (s *script) conn() *grpc.ClientConn {
	cc, err := grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, _ *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			s.ctx = ctx
			return s, nil
		}))
	if err != nil {
		panic(err)
	}
	return cc
}

var registerMu sync.Mutex

// receiver hands responses to a client, the CLI or the target manager.
func receiver(r reporter, name string, ops []op) {
	if len(ops) == 0 {
		return
	}
	conf := append(append([]byte(nil), ops[0].data...), make([]byte, 16)...)
	s := &script{stay: conf[0]&3 == 0}
	for _, o := range ops[1:] {
		m := &pb.SubscribeResponse{}
		if proto.Unmarshal(o.data, m) == nil {
			s.resps = append(s.resps, m)
		}
	}
	kind := int(ops[0].kind) % nClients
	if conf[1]&1 == 0 && kind != cManager {
		kind = cCLI
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	desc := fmt.Sprintf("%s, kind %d, configuration %x\n%s", name, kind, conf[:16], describeResponses(ops))
	if kind == cManager {
		toManager(r, ctx, s, desc, conf)
		return
	}
	var impl *gclient.Client
	// Cases run one at a time.
	client.RegisterTest(gclient.Type, func(ctx context.Context, d client.Destination) (client.Impl, error) {
		var err error
		impl, err = gclient.NewFromConn(ctx, s.conn(), d)
		return impl, err
	})
	q := client.Query{Addrs: []string{"x"}, Target: "t1", Queries: []client.Path{{"*"}}, Type: client.Type(1 + int(conf[2])%3), NotificationHandler: func(n client.Notification) error {
		_ = fmt.Sprint(n)
		return nil
	}}
	var c client.Client
	switch kind {
	case cCLI:
		display(r, ctx, s, q, desc, conf)
	case cCache:
		cc := client.New()
		c = cc
		view := func() map[string]client.TreeVal {
			m := map[string]client.TreeVal{}
			for _, l := range cc.Leaves() {
				m[strings.Join(l.Path, "\x00")] = client.TreeVal{Val: l.Val, TS: l.TS}
			}
			return m
		}
		var before map[string]client.TreeVal
		s.before = func(int) { before = view() }
		r.Guard("client", desc, func() {
			err := c.Subscribe(ctx, q, gclient.Type)
			for k := 0; q.Type == client.Poll && k < 3 && err == nil; k++ {
				err = c.Poll()
			}
			after := view()
			r.Count("client_leaves", len(after))
			if err == nil || s.i == 0 || before == nil || s.i >= len(s.resps) && fmt.Sprint(err) == "EOF" || ctx.Err() != nil {
				return
			}
			r.Count("client_rejected", 1)
			// The last message was rejected.
			if bad := changed(before, after, s.resps[s.i-1].GetUpdate()); bad != "" {
				r.Violation("rejected", "response %d was rejected (%v), but %s\n%s", s.i-1, err, bad, desc)
			}
		})
	case cProto:
		q.NotificationHandler = nil
		q.ProtoHandler = func(m proto.Message) error {
			_ = prototext.Format(m)
			return nil
		}
		fallthrough
	default:
		c = &client.BaseClient{}
		r.Guard("client", desc, func() {
			if c.Subscribe(ctx, q, gclient.Type) != nil {
				r.Count("client_rejected", 1)
			}
		})
	}
	if impl != nil {
		impl.Close()
	}
	cancel()
	if s.i > 0 {
		r.Distinct(pack(ops))
		r.Count("responses_received", s.i)
	}
	r.Count([]string{"cache_clients", "base_clients", "proto_clients", "cli_displays"}[kind], 1)
}

// changed is rejected for the view of a client.
func changed(before, after map[string]client.TreeVal, n *pb.Notification) string {
	whole := len(n.GetUpdate())+len(n.GetDelete()) <= 1
	writes := 0
	for k, a := range after {
		if b, ok := before[k]; ok && a.TS.Equal(b.TS) && fmt.Sprint(a.Val) == fmt.Sprint(b.Val) {
			continue
		}
		writes++
		if whole || writes > len(n.Update) || a.TS.UnixNano() != n.Timestamp {
			return fmt.Sprintf("it changed %q to %v", k, a)
		}
	}
	for k := range before {
		if _, ok := after[k]; !ok && (whole || len(n.Delete) == 0) {
			return fmt.Sprintf("it deleted %q", k)
		}
	}
	return ""
}

// display shows the responses with the CLI.
func display(r reporter, ctx context.Context, s *script, q client.Query, desc string, conf []byte) {
	b := func(i int) int { return int(conf[3+i]) }
	shown := 0
	size := 0
	cfg := &cli.Config{
		PollingInterval: time.Duration(b(0)) * time.Millisecond, Count: uint(b(1) % 6), Delimiter: []string{"/", "", "."}[b(2)%3],
		DisplayPrefix: []string{"", "> "}[b(3)%2], DisplayIndent: []string{"", "  "}[b(3)/2%2],
		DisplayType: []string{"group", "single", "proto", "shortproto", "g", "s", "p", "sp", "group", "group", "single", "x"}[b(4)%12],
		DisplayPeer: b(5)&1 == 1, DisplaySize: b(5)&2 != 0, Latency: b(5)&4 != 0, FilterDeletes: b(5)&24 == 8, FilterUpdates: b(5)&24 == 16,
		Timestamp: []string{"", "", "on", "raw", "2006-01-02", "%"}[b(6)%6], ClientTypes: []string{gclient.Type},
		Display: func(b []byte) { shown++; size += len(b) },
	}
	if b(7)&3 == 0 {
		cfg.StreamingDuration = time.Duration(1+b(8)) * 100 * time.Millisecond
	}
	if b(7)&4 == 0 {
		cfg.Location = time.UTC
	}
	if b(7)&56 == 0 {
		cfg.FilterMinLatency = time.Millisecond
	}
	desc = fmt.Sprintf("%s\n%+v %v", desc, *cfg, q.Type)
	q.NotificationHandler = nil
	ok := r.Guard("display", desc, func() {
		if cli.QueryDisplay(ctx, q, cfg) != nil {
			r.Count("cli_errors", 1)
		}
	})
	if ok {
		r.Count("displayed", shown)
		r.Count("displayed_bytes", size)
		r.Distinct("display", cfg.DisplayType, cfg.Timestamp, shown, size)
	}
}

// connMgr is the manager.ConnectionManager of a script.
type connMgr struct {
	s    *script
	used bool
	cc   *grpc.ClientConn
}

func (m *connMgr) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	if m.used {
		return nil, nil, errors.New("no more")
	}
	m.used = true
	m.cc = m.s.conn()
	return m.cc, func() {}, nil
}

// toManager hands the responses to the target manager and its updates to a
// cache, as the collector does.
func toManager(r reporter, ctx context.Context, s *script, desc string, conf []byte) {
	c := cache.New([]string{"t1", "t2"})
	srv, err := subscribe.NewServer(c)
	if err != nil {
		panic(err)
	}
	c.SetClient(srv.Update)
	st := fakestream.New(ctx, "peer")
	st.Request(fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: "t1"}, false, &pb.Path{}))
	go st.Serve(srv.Subscribe)
	accepted, refused := 0, 0
	cm := &connMgr{s: s}
	// Updates come from one goroutine.
	m, err := manager.NewManager(manager.Config{
		Reset: c.Reset, Sync: c.Sync, Connect: c.Connect, ConnectError: c.ConnectError, ConnectionManager: cm, Timeout: time.Second,
		Update: func(target string, n *pb.Notification) {
			if n.GetPrefix() == nil {
				if n == nil {
					r.Violation("nil", "an update callback without a notification\n%s", desc)
					return
				}
				n.Prefix = &pb.Path{}
			}
			n.Prefix.Target = target
			before := snapshot(c)
			if err := c.GnmiUpdate(n); err == nil {
				accepted++
				return
			}
			refused++
			if bad := rejected(before, snapshot(c), n); bad != "" {
				r.Violation("rejected", "a notification was rejected, but %s\n%v\n%s", bad, n, desc)
			}
		},
	})
	if err != nil {
		panic(err)
	}
	conf2 := &tpb.Target{Addresses: []string{"x"}, Request: "r"}
	if err := m.Add("t1", conf2, fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: "t1"}, false, &pb.Path{})); err != nil {
		panic(err)
	}
	synctest.Wait()
	c.UpdateMetadata()
	c.UpdateSize()
	synctest.Wait()
	if s.i < len(s.resps) {
		r.Violation("stream", "the manager read only %d of %d responses\n%s", s.i, len(s.resps), desc)
	}
	if err := m.Remove("t1"); err != nil {
		r.Violation("remove", "%v\n%s", err, desc)
	}
	st.Cancel()
	if cm.cc != nil {
		cm.cc.Close()
	}
	synctest.Wait()
	r.Count("managers", 1)
	r.Count("manager_responses", s.i)
	r.Count("manager_accepted", accepted)
	r.Count("manager_rejected", refused)
	if accepted > 0 {
		r.Distinct("manager", desc)
	}
}

// fatal is the reporter of fuzz targets.
type fatal struct{ t *testing.T }

func (f fatal) Violation(kind, format string, args ...any) {
	f.t.Fatalf("violation (%s): %s", kind, fmt.Sprintf(format, args...))
}
func (f fatal) Count(string, int)    {}
func (f fatal) Distinct(vals ...any) {}
func (f fatal) Guard(kind, desc string, g func()) bool {
	if p := vk.Catch(g); p != nil {
		if !p.InRepo() {
			panic(p.Value)
		}
		f.t.Fatalf("violation (panic:%s): panic: %v\n%s\n%s", kind, p.Value, p.Stack, desc)
	}
	return true
}

func FuzzWorld(f *testing.F) {
	for i := 0; i < 300; i++ {
		f.Add(pack(worldOps(rand.New(rand.NewSource(int64(i))))))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if ops := unpack(b); len(ops) > 0 {
			synctest.Test(t, func(t *testing.T) { world(fatal{t}, "fuzz", ops) })
		}
	})
}

func FuzzClient(f *testing.F) {
	for i := 0; i < 300; i++ {
		f.Add(pack(clientOps(rand.New(rand.NewSource(int64(i))))))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if ops := unpack(b); len(ops) > 0 {
			synctest.Test(t, func(t *testing.T) { receiver(fatal{t}, "fuzz", ops) })
		}
	})
}

var (
	execsRE = regexp.MustCompile(`execs: (\d+)`)
	newRE   = regexp.MustCompile(`new interesting: (\d+) \(total: (\d+)\)`)
	inputRE = regexp.MustCompile(`Failing input written to (\S+)`)
)

// fuzzing runs the fuzz targets of this binary, built with coverage.
func fuzzing(r *vk.Run) {
	name := []string{"FuzzWorld", "FuzzClient"}[r.Shard%2]
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d := strconv.Itoa(r.N(25, 1500)) + "s"
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			env = append(env, e)
		}
	}
	cmd := exec.Command(exe, "-test.run=^$", "-test.fuzz=^"+name+"$", "-test.fuzztime="+d, "-test.fuzzminimizetime=20x", "-test.fuzzcachedir="+filepath.Join(wd, "cache"), "-test.parallel="+strconv.Itoa(r.N(2, 4)))
	cmd.Env = env
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	var all []string
	execs, interesting, total := 0, 0, 0
	sc := bufio.NewScanner(out)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l := sc.Text()
		all = append(all, l)
		r.Journal("%s %s", name, l)
		if m := execsRE.FindStringSubmatch(l); m != nil {
			execs, _ = strconv.Atoi(m[1])
		}
		if m := newRE.FindStringSubmatch(l); m != nil {
			interesting, _ = strconv.Atoi(m[1])
			total, _ = strconv.Atoi(m[2])
		}
	}
	err = cmd.Wait()
	text := strings.Join(all, "\n")
	if err != nil {
		in := inputRE.FindStringSubmatch(text)
		if in == nil {
			r.Inconclusive("%s ended: %v\n%s", name, err, text)
		} else {
			// Does the input fail again?
			again := exec.Command(exe, "-test.run=^"+name+"$/^"+filepath.Base(in[1])+"$", "-test.timeout=60s")
			again.Env = env
			o, err2 := again.CombinedOutput()
			input, _ := os.ReadFile(in[1])
			switch {
			case err2 == nil:
				r.Count("fuzz_failures_not_reproduced", 1)
			case bytes.Contains(o, []byte("violation (")) || strings.Contains(string(o), "github.com/openconfig/gnmi/"):
				r.Violation("fuzz", "%s:\n%s\ninput: %s", name, o, input)
			default:
				r.Inconclusive("%s: %s\ninput: %s", name, o, input)
			}
		}
	}
	r.Count("fuzz_executions", execs)
	r.Count("fuzz_new_coverage", interesting)
	r.Count("fuzz_corpus", total)
	r.Eval(execs)
	fs, _ := filepath.Glob(filepath.Join(wd, "cache", "*", "*"))
	sort.Strings(fs)
	for _, f := range fs {
		r.Distinct(filepath.Base(f))
	}
}
