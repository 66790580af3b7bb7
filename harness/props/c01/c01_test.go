// Package c01 checks property C01: the collector relays each configured
// target's state to subscribers faithfully. It runs the real gnmi_collector
// and gnmi_cli binaries between scripted targets and an oracle of their state.
package c01

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"

	"verifharness/procs"
	"verifharness/vk"

	cpb "github.com/openconfig/gnmi/proto/collector"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C01", func(t *testing.T, r *vk.Run) {
		dir, err := os.MkdirTemp("", "c01-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		c, err := procs.MakeCerts(dir)
		if err != nil {
			panic(err)
		}
		for i, n := 0, r.N(200, 4000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				r.Journal("episode %d", i)
				d := filepath.Join(dir, fmt.Sprint(i))
				if err := os.Mkdir(d, 0o700); err != nil {
					panic(err)
				}
				(&episode{r: r, i: i, rnd: r.Rand("episode", i), dir: d, certs: c}).run()
				os.RemoveAll(d)
			}
		}
	})
}

// target is a configured target of an episode: a scripted device, or an agent
// of the repository.
type target struct {
	*gen
	dev    *device
	agent  *fgnmi.Agent
	ses    *session
	nses   int
	conf   *tpb.Target
	logMu  sync.Mutex
	log    []string
	tunnel bool
}

type episode struct {
	r     *vk.Run
	i     int
	rnd   *rand.Rand
	dir   string
	certs *procs.Certs
	ts    []*target
	gens  []*gen
	conf  *tpb.Configuration
	coll  *procs.Collector
	flags []string
	bad   bool
	any   bool
	files int
	grp   bool // some target has atomic groups
}

func (e *episode) fail(kind, f string, a ...any) {
	e.bad = true
	var sb strings.Builder
	fmt.Fprintf(&sb, "episode %d, collector flags %v\n", e.i, e.flags)
	fmt.Fprintf(&sb, f, a...)
	fmt.Fprintf(&sb, "\nconfiguration: %v", e.conf)
	for _, t := range e.ts {
		t.logMu.Lock()
		l := t.log
		if len(l) > 60 {
			l = append(append([]string{}, l[:10]...), append([]string{fmt.Sprintf("... %d more", len(l)-60)}, l[len(l)-50:]...)...)
		}
		fmt.Fprintf(&sb, "\n%s streams:\n  %s", t.name, strings.Join(l, "\n  "))
		t.logMu.Unlock()
	}
	if e.coll != nil {
		fmt.Fprintf(&sb, "\ncollector:\n%s", e.coll.Stderr())
	}
	text := sb.String()
	for large := strings.Repeat("large", 100); strings.Contains(text, large); {
		text = strings.ReplaceAll(text, large, "LARGE*100 ")
	}
	e.r.Violation(kind, "%s", text)
}

func bin(name string) string { return filepath.Join(os.Getenv("VERIF_BDIR"), name+".bin") }

func (e *episode) tls() *tls.Config {
	pool := x509.NewCertPool()
	b, _ := os.ReadFile(e.certs.Cert)
	pool.AppendCertsFromPEM(b)
	return &tls.Config{RootCAs: pool}
}

const patience = 30 * time.Second

func (e *episode) run() {
	rnd := e.rnd
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	e.any = rnd.Intn(6) == 0
	n := 1 + rnd.Intn(4)
	e.conf = &tpb.Configuration{Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*tpb.Target{}, Revision: int64(rnd.Intn(3))}
	for k := range 1 + rnd.Intn(n) {
		l := &gpb.SubscriptionList{Prefix: &gpb.Path{Origin: pick(rnd, "", "openconfig", "native")}, Mode: gpb.SubscriptionList_STREAM, UpdatesOnly: rnd.Intn(8) == 0, Encoding: pick(rnd, gpb.Encoding_JSON, gpb.Encoding_PROTO)}
		for range 1 + rnd.Intn(3) {
			p := &gpb.Path{}
			for _, s := range (&gen{Rand: rnd}).segs(rnd.Intn(4)) {
				p.Elem = append(p.Elem, s.elem())
			}
			l.Subscription = append(l.Subscription, &gpb.Subscription{Path: p, Mode: pick(rnd, gpb.SubscriptionMode_TARGET_DEFINED, gpb.SubscriptionMode_ON_CHANGE, gpb.SubscriptionMode_SAMPLE), SampleInterval: uint64(rnd.Intn(3)) * 1e9})
		}
		switch rnd.Intn(6) {
		case 0:
			// The target is filled in by the collector.
			l.Prefix.Target = pick(rnd, "dev1", "other", "*")
		case 1:
			l.Prefix = nil
		}
		e.conf.Request[fmt.Sprint("req", k)] = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
	}
	names := []string{"dev1", "dev2", "router-3.example.net:9339", "d/4"}
	if rnd.Intn(3) > 0 {
		names[3] = "dev10"
	}
	for k := range n {
		g := &gen{Rand: rand.New(rand.NewSource(rnd.Int63())), name: names[k], m: newModel(), origins: []string{defaultOrigin}, anyVals: e.any, plain: rnd.Intn(2) == 0, stats: e.r.Count}
		if rnd.Intn(25) == 0 {
			g.large = 1 + rnd.Intn(3)
		}
		g.m.ts = 1_700_000_000_000_000_000 + int64(rnd.Intn(1000))
		for _, o := range []string{"native", "vendor"} {
			if rnd.Intn(3) == 0 {
				g.origins = append(g.origins, o)
			}
		}
		g.makePool(2 + rnd.Intn(20))
		for _, l := range g.pool {
			e.grp = e.grp || l.group != nil
		}
		t := &target{gen: g, conf: &tpb.Target{Request: fmt.Sprint("req", rnd.Intn(len(e.conf.Request)))}}
		defer func() {
			if t.dev != nil {
				t.dev.close()
			}
			if t.agent != nil {
				t.agent.Close()
			}
		}()
		var err error
		if rnd.Intn(6) == 0 {
			err = e.fixed(t)
		} else if t.dev, err = newDevice(g.name, e.certs); err == nil {
			if t.tunnel = rnd.Intn(5) == 0 && !strings.ContainsAny(t.name, ":/"); t.tunnel {
				t.conf.Dialer = "tunnel"
				t.conf.Addresses = []string{"unused:1"}
			} else {
				t.conf.Addresses = []string{t.dev.addr}
				if rnd.Intn(8) == 0 {
					t.conf.Addresses = append(t.conf.Addresses, t.dev.addr)
				}
			}
		}
		if err != nil {
			e.r.Inconclusive("target: %v", err)
			return
		}
		e.conf.Target[g.name] = t.conf
		e.ts = append(e.ts, t)
		e.gens = append(e.gens, g)
	}
	if rnd.Intn(3) == 0 {
		e.flags = append(e.flags, "-metadata_update_period", "50ms")
	}
	if rnd.Intn(3) == 0 {
		e.flags = append(e.flags, "-size_update_period", "50ms")
	}
	var err error
	e.coll, err = procs.StartCollector(bin("collector"), e.dir, e.certs, e.conf, e.flags...)
	if err != nil {
		if errors.Is(err, procs.ErrPort) {
			e.r.Inconclusive("%v", err)
		} else {
			e.fail("start", "%v", err)
		}
		return
	}
	defer e.coll.Kill()
	for _, t := range e.ts {
		if t.tunnel {
			t.dev.listenTunnel(ctx, e.coll.Addr, e.certs.Cert)
			e.r.Count("tunnel_targets", 1)
		}
	}
	// Clients that see all of it.
	clients := []*observer{e.lib(sub{target: "*", paths: []leaf{{origin: "*"}}})}
	rounds := 1 + rnd.Intn(3)
	late := 0
	for k := rnd.Intn(4); k > 0; k-- {
		if len(clients) < 4 {
			late++
		}
	}
	polls := []*observer{}
	for round := range rounds {
		for ; late > 0 && (round == rounds-1 || rnd.Intn(2) == 0); late-- {
			if o := e.observer(); o != nil {
				clients = append(clients, o)
			}
		}
		for _, t := range e.ts {
			if t.dev != nil && !e.attach(t, round) {
				return
			}
		}
		if !e.any && rnd.Intn(3) == 0 {
			if p := e.pollClient(); p != nil {
				polls = append(polls, p)
			}
		}
		// All targets stream at once.
		var wg sync.WaitGroup
		for _, t := range e.ts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.feed(t, round)
			}()
		}
		wg.Wait()
		if e.dead() {
			return
		}
		if round < rounds-1 && rnd.Intn(2) == 0 {
			time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		}
	}
	defer func() {
		for _, c := range append(clients, polls...) {
			c.close()
		}
	}()
	for _, c := range clients {
		e.settle(c, rounds-1)
		if e.bad {
			return
		}
	}
	for _, t := range e.ts {
		e.requested(t)
	}
	e.snapshots(polls)
	// Still so.
	for _, c := range clients {
		if diffs, known, err := c.check(); !e.bad && (err != nil || len(diffs) > 0) {
			e.fail("later", "%s: the view was right, now it is not: %v %v", c.what, err, diffs)
		} else {
			e.known(known)
		}
	}
	if e.dead() {
		return
	}
	leaves := 0
	for _, g := range e.gens {
		leaves += len(g.m.leaves)
	}
	e.r.Eval(1)
	e.r.Count("targets", len(e.ts))
	e.r.Count("final_leaves", leaves)
	e.r.Count("streaming_clients", len(clients))
	for _, c := range clients {
		e.r.Count("client_"+c.kind, 1)
	}
	e.r.Distinct(e.i, leaves, len(e.ts))
	if e.i < 2 {
		var sb strings.Builder
		for _, t := range e.ts {
			fmt.Fprintf(&sb, "%s: %d notifications, the last: %s; ", t.name, len(t.log), t.log[len(t.log)-1])
		}
		e.r.Sample("%s", sb.String())
	}
}

func (e *episode) known(ids []string) {
	for _, id := range ids {
		e.r.Known(id)
	}
}

// dead reports a collector that ended.
func (e *episode) dead() bool {
	if e.bad {
		return true
	}
	if !e.coll.Running() {
		e.fail("crash", "the collector ended with exit code %d: %s", e.coll.RC, procs.Crashed(e.coll.Stderr()))
		return true
	}
	return false
}

// fixed makes an agent of the repository that streams a fixed sequence.
func (e *episode) fixed(t *target) error {
	var rs []*gpb.SubscribeResponse
	add := func(n *gpb.Notification) {
		rs = append(rs, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
		t.log = append(t.log, fmt.Sprint(n))
	}
	k := e.rnd.Intn(60)
	at := e.rnd.Intn(k + 1)
	for i := range k {
		add(t.next())
		if i == at {
			rs = append(rs, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}})
		}
	}
	for r := range 3 {
		add(t.gen.sentinel(r))
	}
	var err error
	t.agent, err = fgnmi.New(&fpb.Config{Target: t.name, Generator: &fpb.Config_Fixed{Fixed: &fpb.FixedGenerator{Responses: rs}}, DisableEof: true, ClientType: fpb.Config_GRPC_GNMI},
		[]grpc.ServerOption{grpc.Creds(credentials.NewServerTLSFromCert(&e.certs.Pair))})
	if err == nil {
		t.conf.Addresses = []string{t.agent.Address()}
		e.r.Count("agent_targets", 1)
	}
	return err
}

// attach makes sure that there is a session, at times a new one.
func (e *episode) attach(t *target, round int) bool {
	if t.ses != nil {
		reconnect := false
		switch e.rnd.Intn(6) {
		case 0:
			t.ses.kill <- pick(e.rnd, nil, status.Error(codes.Unavailable, "scripted"), status.Error(codes.Internal, "scripted"))
			e.r.Count("sessions_broken", 1)
		case 1:
			reconnect = true
		default:
			return true
		}
		if reconnect {
			cc, err := grpc.NewClient("passthrough:///"+e.coll.Addr, grpc.WithTransportCredentials(credentials.NewTLS(e.tls())))
			if err != nil {
				e.r.Inconclusive("%v", err)
				return false
			}
			defer cc.Close()
			ctx, cancel := context.WithTimeout(context.Background(), patience)
			defer cancel()
			if _, err := cpb.NewCollectorClient(cc).Reconnect(ctx, &cpb.ReconnectRequest{Target: []string{t.name}}); err != nil {
				e.fail("reconnect", "Reconnect of %q fails: %v", t.name, err)
				return false
			}
			e.r.Count("reconnects", 1)
		}
		t.note("(session ends)")
		t.m.reset()
	}
	t.ses, t.nses = t.dev.session(t.nses, patience)
	if t.ses == nil {
		if !e.dead() {
			e.fail("subscribe", "the collector does not subscribe to the target %q within %v", t.name, patience)
		}
		return false
	}
	return true
}

func (t *target) note(f string, a ...any) {
	l := fmt.Sprintf(f, a...)
	if len(l) > 10000 {
		l = l[:5000] + "..." + l[len(l)-5000:]
	}
	t.logMu.Lock()
	t.log = append(t.log, l)
	t.logMu.Unlock()
}

// feed streams notifications.
func (e *episode) feed(t *target, round int) {
	if t.agent != nil {
		return
	}
	send := func(m *gpb.SubscribeResponse) {
		select {
		case t.ses.send <- m:
		case <-t.ses.done:
			if !e.coll.Running() {
				return
			}
			t.note("(the collector ended the session)")
		}
	}
	k := t.Intn(60)
	if t.Intn(8) == 0 {
		k = t.Intn(600)
	}
	at := t.Intn(k + 1)
	for i := range k {
		if i == at && t.Intn(4) > 0 {
			send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}})
		}
		n := t.next()
		t.note("%v", n)
		send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
		if t.Intn(10) == 0 {
			time.Sleep(time.Duration(t.Intn(2000)) * time.Microsecond)
		}
	}
	n := t.gen.sentinel(round)
	t.note("%v", n)
	send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
	e.r.Count("notifications", k+1)
}

// requested checks what the collector asked the target for.
func (e *episode) requested(t *target) {
	want := proto.Clone(e.conf.Request[t.conf.Request]).(*gpb.SubscribeRequest)
	if want.GetSubscribe().Prefix == nil {
		want.GetSubscribe().Prefix = &gpb.Path{}
	}
	want.GetSubscribe().Prefix.Target = t.name
	var reqs []*gpb.SubscribeRequest
	if t.agent != nil {
		reqs = t.agent.Requests()
	} else {
		t.dev.mu.Lock()
		reqs = append(reqs, t.dev.reqs...)
		t.dev.mu.Unlock()
	}
	for _, q := range reqs {
		if !proto.Equal(q, want) {
			e.fail("request", "the request sent to %q is %v, configured is %v", t.name, q, want)
		}
	}
	e.r.Count("requests_checked", len(reqs))
}

// observer is a client under observation.
type observer struct {
	kind  string
	what  string
	s     sub
	seen  func(text string) bool // whether the value was received
	check func() (diffs, known []string, err error)
	close func()
	alive func() string
}

// settle waits until the client has received everything, and judges its view.
func (e *episode) settle(c *observer, round int) {
	deadline := time.Now().Add(patience)
	for _, s := range c.s.sentinels(e.gens, round) {
		for !c.seen(s) {
			if time.Now().After(deadline) || !e.coll.Running() || c.alive() != "" {
				if !e.dead() {
					_, _, err := c.check()
					e.fail("progress", "%s: the last update of the stream (%s) does not arrive within %v (%v) %s", c.what, s, patience, err, c.alive())
				}
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	deadline = time.Now().Add(10 * time.Second)
	for {
		diffs, known, err := c.check()
		if err == nil && len(diffs) == 0 {
			e.known(known)
			return
		}
		if time.Now().After(deadline) {
			e.fail("view", "%s: the view differs from the state of the target: %v\n%s", c.what, err, strings.Join(diffs, "\n"))
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (e *episode) query(s sub, typ client.Type) (client.Query, bool) {
	q := client.Query{Addrs: []string{e.coll.Addr}, Target: s.target, Type: typ, Timeout: patience, TLS: e.tls()}
	if e.rnd.Intn(2) == 0 {
		mode := map[client.Type]gpb.SubscriptionList_Mode{client.Once: gpb.SubscriptionList_ONCE, client.Poll: gpb.SubscriptionList_POLL, client.Stream: gpb.SubscriptionList_STREAM}[typ]
		p, err := client.NewQuery(s.protoReq(e.rnd, mode))
		if err != nil {
			e.fail("query", "%v: %v", s, err)
			return q, false
		}
		p.Addrs, p.Timeout, p.TLS = q.Addrs, q.Timeout, q.TLS
		return p, true
	}
	qs, ok := s.queries(e.rnd)
	for _, p := range qs {
		q.Queries = append(q.Queries, p)
	}
	return q, ok
}

func libView(c *client.CacheClient) view {
	v := view{}
	for _, l := range c.Leaves() {
		v[join(l.Path)] = entry{scalar: l.Val, kind: 's'}
	}
	return v
}

// lib starts a streaming client of the client library.
func (e *episode) lib(s sub) *observer {
	if e.any {
		// Values the client library does not support.
		return e.cli(s, pick(e.rnd, "proto", "shortproto"))
	}
	q, ok := e.query(s, client.Stream)
	if !ok {
		return nil
	}
	c := client.New()
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	var err error
	go func() {
		defer close(done)
		err = c.Subscribe(ctx, q, gclient.Type)
	}()
	return &observer{
		kind: "library", what: fmt.Sprintf("client library (%v; %v %v)", s, q.Queries, q.SubReq), s: s,
		seen: func(x string) bool {
			for _, l := range c.Leaves() {
				if v, ok := l.Val.(string); ok && v == x {
					return true
				}
			}
			return false
		},
		check: func() ([]string, []string, error) {
			d, k := compare(libView(c), s.want(e.gens), false, true, false, nil)
			return d, k, nil
		},
		alive: func() string {
			select {
			case <-done:
				return fmt.Sprintf("the subscription ended with %v", err)
			default:
				return ""
			}
		},
		close: func() {
			cancel()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				e.r.Count("library_clients_left", 1)
			}
		},
	}
}

// pollClient starts a polling client of the client library.
func (e *episode) pollClient() *observer {
	s := genSub(e.rnd, e.gens).narrow(e.rnd)
	q, ok := e.query(s, client.Poll)
	if !ok {
		return nil
	}
	c := client.New()
	ctx, cancel := context.WithTimeout(context.Background(), 4*patience)
	what := fmt.Sprintf("polling client library (%v; %v %v)", s, q.Queries, q.SubReq)
	if err := c.Subscribe(ctx, q, gclient.Type); err != nil {
		cancel()
		if !e.dead() {
			e.fail("poll", "%s: Subscribe: %v", what, err)
		}
		return nil
	}
	return &observer{kind: "library_poll", what: what, s: s,
		check: func() ([]string, []string, error) {
			before := libView(c)
			if err := c.Poll(); err != nil {
				return nil, nil, fmt.Errorf("Poll: %w", err)
			}
			d, k := compare(libView(c), s.want(e.gens), false, false, false, before)
			return d, k, nil
		},
		close: func() { c.Close(); cancel() },
	}
}

// observer makes a random streaming client.
func (e *episode) observer() *observer {
	s := genSub(e.rnd, e.gens)
	if e.any {
		return e.cli(s, pick(e.rnd, "proto", "shortproto", "p", "sp"))
	}
	switch e.rnd.Intn(3) {
	case 0:
		return e.lib(s)
	}
	return e.cli(s, pick(e.rnd, displays...))
}

var displays = []string{"group", "g", "GROUP", "single", "s", "SINGLE", "proto", "p", "PROTO", "shortproto", "sp", "SHORTPROTO"}

func displayKind(d string) string {
	return map[string]string{"g": "group", "s": "single", "p": "proto", "sp": "shortproto"}[strings.ToLower(d)] + map[bool]string{true: strings.ToLower(d)}[len(d) > 2]
}

// cliArgs renders the command line of a subscription in one of its forms.
func (e *episode) cliArgs(s sub, mode gpb.SubscriptionList_Mode, delim string) ([]string, string) {
	rnd := e.rnd
	args := []string{pick(rnd, "-a", "-address", "--address"), e.coll.Addr}
	if rnd.Intn(2) == 0 {
		args = append(args, "-tls_skip_verify")
	} else {
		args = append(args, "-ca_crt", e.certs.Cert)
	}
	if rnd.Intn(3) == 0 {
		if q, ok := s.flagQuery(delim); ok && s.target != "" {
			t := map[gpb.SubscriptionList_Mode][]string{
				gpb.SubscriptionList_ONCE: {"o", "once", "ONCE"}, gpb.SubscriptionList_POLL: {"p", "polling", "POLLING"}, gpb.SubscriptionList_STREAM: {"s", "streaming", "STREAMING"}}[mode]
			if rnd.Intn(3) == 0 {
				parts := strings.Split(q, ",")
				for i := range parts {
					// Leading and trailing delimiters are ignored.
					if rnd.Intn(2) == 0 {
						parts[i] += delim
					}
					if rnd.Intn(3) > 0 {
						parts[i] = delim + parts[i]
					}
				}
				q = strings.Join(parts, ",")
			}
			args = append(args, pick(rnd, "-q", "-query"), q, pick(rnd, "-t", "-target"), s.target)
			if mode != gpb.SubscriptionList_ONCE || rnd.Intn(2) == 0 {
				args = append(args, pick(rnd, "-qt", "-query_type"), pick(rnd, t...))
			}
			return args, "flags"
		}
	}
	m := prototext.MarshalOptions{Multiline: rnd.Intn(2) == 0}
	b, _ := m.Marshal(s.protoReq(rnd, mode))
	if rnd.Intn(2) == 0 {
		return append(args, pick(rnd, "-p", "-proto"), string(b)), "proto"
	}
	e.files++
	f := filepath.Join(e.dir, fmt.Sprintf("req%d.txt", e.files))
	os.WriteFile(f, b, 0o600)
	return append(args, "-proto_file", f), "proto_file"
}

// show is how a CLI process displays.
type show struct {
	display, delim, prefix string
	ts                     bool
}

// style chooses how to display and adds the flags.
func (e *episode) style(display string, args []string, delim string) (show, []string) {
	sh := show{display: displayKind(display), delim: delim}
	if display != "group" || e.rnd.Intn(2) == 0 {
		args = append(args, pick(e.rnd, "-dt", "-display_type"), display)
	}
	if delim != "/" {
		args = append(args, pick(e.rnd, "-d", "-delimiter"), delim)
	}
	if e.rnd.Intn(3) == 0 && (sh.display == "group" || sh.display == "single") {
		sh.ts = true
		args = append(args, pick(e.rnd, "-ts", "-timestamp"), pick(e.rnd, "raw", "on", "2006-01-02T15:04:05.999999999"))
	}
	if e.rnd.Intn(4) == 0 && sh.display == "group" {
		sh.prefix = pick(e.rnd, "# ", "\t", ">>")
		args = append(args, "-display_prefix", sh.prefix, "-display_indent", pick(e.rnd, " ", "\t", "    "))
	}
	return sh, args
}

// judge compares the output with what it should say.
func (e *episode) judge(sh show, out string, s sub, stream bool) (diffs, known []string, err error) {
	w := s.want(e.gens)
	switch sh.display {
	case "proto", "shortproto":
		v, _, err := parseProto(out, sh.display == "shortproto")
		if err != nil {
			return nil, nil, err
		}
		diffs, known = compare(v, w, false, stream, true, nil)
	case "single":
		jw, ok := joined(w, sh.delim)
		if !ok {
			return nil, nil, nil // ambiguous
		}
		v, err := parseSingle(out, sh.delim, sh.ts)
		if err != nil {
			return nil, nil, err
		}
		jv := view{}
		for k, x := range v {
			if strings.Contains(k, sh.delim+"meta"+sh.delim) || strings.HasSuffix(k, sh.delim+"meta") {
				if _, ok := jw.may[k]; !ok {
					continue
				}
			}
			jv[k] = x
		}
		diffs, known = compare(jv, jw, false, stream, false, nil)
	default:
		bs, err := parseGroups(out, sh.prefix)
		if err != nil {
			return nil, nil, err
		}
		if len(bs) == 0 {
			return nil, nil, errors.New("no output yet")
		}
		if sh.ts {
			for i := range bs {
				bs[i] = stripTS(bs[i])
			}
		}
		v := groupView(bs[len(bs)-1])
		if stream {
			v = replayGroups(bs)
		}
		diffs, known = compare(v, w, true, stream, false, nil)
	}
	e.r.Count("judged_"+sh.display, 1)
	return diffs, known, nil
}

func pickDelim(r *rand.Rand) string { return pick(r, "/", "/", "/", "|", ";", "→") }

// cli starts a streaming CLI.
func (e *episode) cli(s sub, display string) *observer {
	mode := gpb.SubscriptionList_STREAM
	if displayKind(display) == "group" && e.rnd.Intn(2) == 0 {
		// Shows all of it again and again.
		mode = gpb.SubscriptionList_POLL
	}
	delim := pickDelim(e.rnd)
	args, form := e.cliArgs(s, mode, delim)
	sh, args := e.style(display, args, delim)
	kind := "cli_" + sh.display + "_" + form
	if mode == gpb.SubscriptionList_POLL {
		kind = "cli_polling_" + form
		args = append(args, pick(e.rnd, "-pi", "-polling_interval"), "30ms")
	}
	p, err := procs.Start(bin("cli"), args...)
	if err != nil {
		e.r.Inconclusive("%v", err)
		return nil
	}
	out := func() string {
		o := p.Stdout()
		if i := strings.Index(o, "sendQueryAndDisplay("); i >= 0 {
			o = o[:i]
		}
		// An incomplete line may be there.
		return o[:strings.LastIndex(o, "\n")+1]
	}
	return &observer{
		kind: kind, what: fmt.Sprintf("gnmi_cli %q (%v)", args, s), s: s,
		seen:  func(x string) bool { return strings.Contains(p.Stdout(), x) },
		check: func() ([]string, []string, error) { return e.judge(sh, out(), s, mode == gpb.SubscriptionList_STREAM) },
		alive: func() string {
			if p.Running() {
				return ""
			}
			return fmt.Sprintf("the CLI ended with exit code %d: %s%s", p.RC, tail(p.Stdout()), tail(p.Stderr()))
		},
		close: func() {
			p.Interrupt()
			if c := procs.Crashed(p.Stderr()); c != "" && !e.bad {
				e.fail("crash", "gnmi_cli %q: %s", args, c)
			}
		},
	}
}

func tail(s string) string {
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

// snapshots asks for the final state in many ways.
func (e *episode) snapshots(polls []*observer) {
	for _, p := range polls {
		diffs, known, err := p.check()
		if e.dead() {
			return
		}
		if err != nil || len(diffs) > 0 {
			e.fail("poll", "%s: %v\n%s", p.what, err, strings.Join(diffs, "\n"))
			return
		}
		e.known(known)
		e.r.Count("library_polls", 1)
	}
	for k := 3 + e.rnd.Intn(4); k > 0 && !e.bad; k-- {
		s := genSub(e.rnd, e.gens).narrow(e.rnd)
		if !e.any && e.rnd.Intn(3) == 0 {
			e.libOnce(s)
			continue
		}
		display := pick(e.rnd, displays...)
		if e.any {
			display = pick(e.rnd, displays[6:]...)
		}
		mode := gpb.SubscriptionList_ONCE
		delim := pickDelim(e.rnd)
		if displayKind(display) == "group" && e.rnd.Intn(3) == 0 {
			mode = gpb.SubscriptionList_POLL
		}
		args, form := e.cliArgs(s, mode, delim)
		sh, args := e.style(display, args, delim)
		blocks := 1
		if mode == gpb.SubscriptionList_POLL {
			blocks = 1 + e.rnd.Intn(3)
			args = append(args, pick(e.rnd, "-c", "-count"), fmt.Sprint(blocks), pick(e.rnd, "-pi", "-polling_interval"), "20ms")
		}
		p, err := procs.Start(bin("cli"), args...)
		if err != nil {
			e.r.Inconclusive("%v", err)
			return
		}
		what := fmt.Sprintf("gnmi_cli %q (%v)", args, s)
		if !p.Wait(patience) {
			p.Kill()
			if !e.dead() {
				e.fail("end", "%s does not end", what)
			}
			return
		}
		if p.RC != 0 {
			if !e.dead() {
				e.fail("exit", "%s ends with exit code %d: %s%s", what, p.RC, tail(p.Stdout()), tail(p.Stderr()))
			}
			return
		}
		if mode == gpb.SubscriptionList_POLL {
			bs, err := parseGroups(p.Stdout(), sh.prefix)
			if err != nil || len(bs) != blocks {
				e.fail("count", "%s shows %d results (%v): %s", what, len(bs), err, tail(p.Stdout()))
				return
			}
		}
		diffs, _, err := e.judge(sh, p.Stdout(), s, false)
		if err != nil || len(diffs) > 0 {
			e.fail("snapshot", "%s: %v\n%s\noutput: %s", what, err, strings.Join(diffs, "\n"), tail(p.Stdout()))
			return
		}
		e.r.Count("cli_"+strings.ToLower(mode.String())+"_"+sh.display+"_"+form, 1)
	}
}

func (e *episode) libOnce(s sub) {
	q, ok := e.query(s, client.Once)
	if !ok {
		return
	}
	c := client.New()
	defer c.Close()
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	what := fmt.Sprintf("client library, ONCE (%v; %v %v)", s, q.Queries, q.SubReq)
	if err := c.Subscribe(ctx, q, gclient.Type); err != nil {
		if !e.dead() {
			e.fail("once", "%s: %v", what, err)
		}
		return
	}
	if diffs, _ := compare(libView(c), s.want(e.gens), false, false, false, nil); len(diffs) > 0 {
		e.fail("snapshot", "%s:\n%s", what, strings.Join(diffs, "\n"))
	}
	e.r.Count("library_once", 1)
}

var _ = sort.Strings
