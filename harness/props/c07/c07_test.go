// Package c07 checks property C07: subscribers never receive data for targets
// their ACL denies.
package c07

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C07", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			r.Until(1, 2)
			for i, n := 0, r.N(6000, 150000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("history %d", i)
					synctest.Test(t, func(t *testing.T) { history(r, i) })
				}
			}
		}
		n := r.N(2000, 40000)
		if race {
			n = r.N(600, 12000)
		}
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
	})
}

type userKey struct{}

// table is an ACL: what each user may see. Users without an entry can not be
// authorized at all.
type table struct {
	allow  map[string]map[string]bool
	checks atomic.Int64
}

func (a *table) Check(user, target string) bool { return a.allow[user][target] }

func (a *table) NewRPCACL(ctx context.Context) (subscribe.RPCACL, error) {
	u, _ := ctx.Value(userKey{}).(string)
	if _, ok := a.allow[u]; !ok {
		return nil, errors.New("who are you?")
	}
	return &rpc{a, u}, nil
}

type rpc struct {
	a    *table
	user string
}

func (p *rpc) Check(target string) bool {
	p.a.checks.Add(1)
	return p.a.allow[p.user][target]
}

func (a *table) String() string {
	var s []string
	for u, ts := range a.allow {
		var l []string
		for t, ok := range ts {
			if ok {
				l = append(l, t)
			}
		}
		sort.Strings(l)
		s = append(s, fmt.Sprintf("%s may see %v", u, l))
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

var users = []string{"alice", "bob", "carol", "", "nobody"}

func newTable(rnd *rand.Rand, targets []string) *table {
	a := &table{allow: map[string]map[string]bool{}}
	for _, u := range users[:4] {
		if rnd.Intn(8) == 0 {
			continue
		}
		p := rnd.Intn(4)
		a.allow[u] = map[string]bool{}
		for _, t := range targets {
			a.allow[u][t] = rnd.Intn(3) < p
		}
	}
	return a
}

// sub is a call of a user.
type sub struct {
	id     int
	user   string
	target string
	mode   pb.SubscriptionList_Mode
	only   bool
	qs     [][]string
	s      *fakestream.Stream
	read   int
	view   hist.View
	ended  bool
	sends  atomic.Int64
}

func (s *sub) String() string {
	return fmt.Sprintf("#%d %v of %q at %q by %q (updates only: %v)", s.id, s.mode, s.target, s.qs, s.user, s.only)
}

func (s *sub) wants(t string, p []string) bool {
	if s.target != "*" && s.target != t {
		return false
	}
	for _, q := range s.qs {
		if hist.QueryMatches(q, p) {
			return true
		}
	}
	return false
}

// watch makes the monitor of every Send.
func watch(s *sub, a *table, fail func(kind, f string, args ...any), slow func()) {
	s.s.OnSend = func(m *pb.SubscribeResponse) error {
		s.sends.Add(1)
		if n := m.GetUpdate(); n != nil {
			if t := n.GetPrefix().GetTarget(); !a.allow[s.user][t] {
				fail("denied", "%v is sent %s; %v", s, hist.Text(n), a)
			}
		}
		if slow != nil {
			slow()
		}
		return nil
	}
}

func history(r *vk.Run, i int) {
	rnd := r.Rand("history", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2", "dev3", "oc"}[:1+rnd.Intn(4)]...)
	if rnd.Intn(4) == 0 {
		targets[0] = "a"
	}
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(hist.Config{Targets: targets, EventDriven: rnd.Intn(2) == 0}, func(string, string, ...any) {})
	acl := newTable(rnd, targets)
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.Log, "\n  "))
	}
	opts := []subscribe.Option{subscribe.WithACL(acl)}
	if rnd.Intn(3) == 0 {
		opts = append(opts, subscribe.WithStats())
	}
	if rnd.Intn(3) == 0 {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	srv, err := subscribe.NewServer(w.C, opts...)
	if err != nil {
		panic(err)
	}
	w.OnEvent = func(l *ctree.Leaf) { srv.Update(l) }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	alive := map[string]bool{}
	for _, t := range targets {
		alive[t] = true
	}
	var subs []*sub
	content := func(s *sub) hist.View {
		v := hist.View{}
		for _, t := range targets {
			if !alive[t] || !acl.allow[s.user][t] {
				continue
			}
			w.C.Query(t, nil, func(_ []string, _ *ctree.Leaf, val any) error {
				n := val.(*pb.Notification)
				if p := hist.LeafIndex(n); s.wants(t, p) {
					if v[t] == nil {
						v[t] = map[string]string{}
					}
					v[t][hist.Key(p)] = hist.ValueOf(n)
				}
				return nil
			})
		}
		return v
	}
	compare := func(what string, s *sub, got, want hist.View) {
		for _, t := range targets {
			g := map[string]string{}
			for k, v := range got[t] {
				if s.wants(t, hist.Unkey(k)) {
					g[k] = v
				}
			}
			if d := hist.Diff(g, want[t]); d != "" {
				fail("withheld", "%s: %v is authorized for %q: %v, but knows of %s; %v", what, s, t, acl.allow[s.user][t], d, acl)
			}
			if acl.allow[s.user][t] {
				r.Count("leaves_delivered", len(g))
			}
		}
	}
	snapshot := func(what string, s *sub) {
		rs := s.s.Responses(s.read)
		s.read += len(rs)
		v := hist.View{}
		for k, m := range rs {
			if m.GetSyncResponse() != (k == len(rs)-1) {
				fail("sync", "%s: response %d of %d of %v is %v", what, k+1, len(rs), s, m)
			}
			if n := m.GetUpdate(); n != nil {
				v.Apply(n)
			}
		}
		if len(rs) == 0 {
			fail("sync", "%s: %v receives no sync_response", what, s)
		}
		want := content(s)
		if s.only {
			want = hist.View{}
		}
		compare(what, s, v, want)
	}
	start := func() {
		s := &sub{id: len(subs), user: users[rnd.Intn(len(users))], target: targets[rnd.Intn(len(targets))], view: hist.View{}}
		if rnd.Intn(2) == 0 {
			s.target = "*"
		}
		s.mode = []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}[rnd.Intn(3)]
		s.only = s.mode == pb.SubscriptionList_STREAM && rnd.Intn(3) == 0
		var paths []*pb.Path
		for k := 1 + rnd.Intn(3); k > 0; k-- {
			q := make([]string, rnd.Intn(3))
			for x := range q {
				if q[x] = g.Names[rnd.Intn(len(g.Names))]; rnd.Intn(3) == 0 {
					q[x] = "*"
				}
			}
			s.qs = append(s.qs, q)
			paths = append(paths, fakestream.Path(q...))
		}
		w.Log = append(w.Log, "Subscribe "+s.String())
		s.s = fakestream.New(context.WithValue(ctx, userKey{}, s.user), fmt.Sprint("client", s.id))
		watch(s, acl, fail, nil)
		s.s.Request(fakestream.Request(s.mode, &pb.Path{Target: s.target}, s.only, paths...))
		go s.s.Serve(srv.Subscribe)
		synctest.Wait()
		_, known := acl.allow[s.user]
		done, err := s.s.Err()
		refused := codes.OK
		switch {
		case !known:
			refused = codes.Unauthenticated
		case s.target != "*" && !alive[s.target]:
			refused = codes.NotFound
		case s.target != "*" && !acl.allow[s.user][s.target]:
			refused = codes.PermissionDenied
		}
		if refused != codes.OK {
			if !done || err == nil || refused != codes.NotFound && status.Code(err) != refused {
				fail("refusal", "%v has ended: %v, with %v, expected %v; %v", s, done, err, refused, acl)
			}
			if n := s.sends.Load(); n > 0 {
				fail("denied", "%v is refused after %d responses", s, n)
			}
			r.Count("refused_"+refused.String(), 1)
			return
		}
		if done && (s.mode != pb.SubscriptionList_ONCE || err != nil) {
			fail("refusal", "%v ends with %v; %v", s, err, acl)
			return
		}
		r.Count("started_"+strings.ToLower(s.mode.String()), 1)
		switch s.mode {
		case pb.SubscriptionList_ONCE:
			if !done {
				fail("end", "%v does not end", s)
			}
			snapshot("once", s)
			return
		case pb.SubscriptionList_POLL:
			snapshot("poll", s)
		default:
			if s.only {
				s.view = content(s)
			}
		}
		subs = append(subs, s)
	}
	r.Guard("history", fmt.Sprintf("history %d", i), func() {
		steps := 10 + rnd.Intn(50)
		for step := 0; step < steps && !r.TooMany(); step++ {
			hist.Clock.Add(1)
			target := targets[rnd.Intn(len(targets))]
			removed := ""
			switch k := rnd.Intn(40); {
			case k < 10:
				start()
			case k < 13:
				var polls []*sub
				for _, s := range subs {
					if s.mode == pb.SubscriptionList_POLL && (s.target == "*" || alive[s.target]) {
						polls = append(polls, s)
					}
				}
				if len(polls) > 0 {
					s := polls[rnd.Intn(len(polls))]
					s.s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
					synctest.Wait()
					snapshot("poll", s)
				}
			case k == 13:
				w.Reset(target)
			case k == 14 && rnd.Intn(2) == 0:
				if alive[target] {
					w.Remove(target)
					removed = target
				} else {
					w.Add(target)
				}
				alive[target] = !alive[target]
			case k == 15:
				w.UpdateMetadata()
			case k == 16:
				w.Sync(target)
			default:
				w.Submit(g.Notification(target), w.C.GnmiUpdate)
			}
			synctest.Wait()
			for _, s := range subs {
				if s.ended || s.mode == pb.SubscriptionList_POLL {
					continue
				}
				rs := s.s.Responses(s.read)
				s.read += len(rs)
				for _, m := range rs {
					if n := m.GetUpdate(); n != nil {
						s.view.Apply(n)
					}
				}
				if done, err := s.s.Err(); done {
					if s.target != removed || err != nil {
						fail("end", "%v ends with %v", s, err)
					}
					s.ended = true
					continue
				}
				compare("stream", s, s.view, content(s))
				r.Count("streams_judged", 1)
			}
		}
	})
	cancel()
	synctest.Wait()
	r.Count("acl_checks", int(acl.checks.Load()))
	r.Eval(1)
	r.Distinct("h", acl.String(), strings.Join(w.Log, "\n"))
	if i < 2 {
		r.Sample("%v: %s", acl, strings.Join(w.Log, " ; "))
	}
}

// concurrent runs calls of several users along with writers of all targets.
func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(300))*time.Microsecond)
	defer sched.Off()
	r.Journal("concurrent %d (race build: %v): %s", i, race, how)
	targets := []string{"dev1", "dev2", "dev3"}
	acl := newTable(rnd, targets)
	c := cache.New(targets)
	srv, err := subscribe.NewServer(c, subscribe.WithACL(acl), subscribe.WithStats())
	if err != nil {
		panic(err)
	}
	c.SetClient(srv.Update)
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s (run %d, %s)", fmt.Sprintf(f, a...), i, how)
	}
	var stamps atomic.Int64
	stamps.Store(1000)
	var wg sync.WaitGroup
	ops := 20 + rnd.Intn(40)
	for _, t := range targets {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		write := func() {
			n := &pb.Notification{Timestamp: stamps.Add(1), Prefix: &pb.Path{Target: t}}
			p := []string{string(rune('a' + wr.Intn(3))), string(rune('a' + wr.Intn(2)))}
			switch k := wr.Intn(20); {
			case k == 0:
				hist.Clock.Add(1)
				c.Reset(t)
				return
			case k < 5:
				n.Delete = []*pb.Path{fakestream.Path(p[:1+wr.Intn(2)]...)}
			default:
				n.Update = []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: n.Timestamp}}}}
			}
			if err := c.GnmiUpdate(n); err != nil {
				panic(err)
			}
		}
		for k := wr.Intn(10); k > 0; k-- {
			write()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < ops; k++ {
				write()
				if wr.Intn(4) == 0 {
					time.Sleep(time.Duration(wr.Intn(60)) * time.Microsecond)
				}
			}
		}()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var subs []*sub
	for k := 3 + rnd.Intn(6); k > 0; k-- {
		s := &sub{id: len(subs), user: users[rnd.Intn(len(users))], target: targets[rnd.Intn(len(targets))], view: hist.View{}}
		if rnd.Intn(3) > 0 {
			s.target = "*"
		}
		s.mode = []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}[rnd.Intn(4)]
		s.only = s.mode == pb.SubscriptionList_STREAM && rnd.Intn(3) == 0
		s.qs = [][]string{{string(rune('a' + rnd.Intn(3)))}}
		if rnd.Intn(2) == 0 {
			s.qs = [][]string{{}}
		}
		s.s = fakestream.New(context.WithValue(ctx, userKey{}, s.user), fmt.Sprint("client", s.id))
		var slow func()
		if d := time.Duration(rnd.Intn(200)) * time.Microsecond; rnd.Intn(4) == 0 {
			slow = func() { time.Sleep(d) }
		}
		watch(s, acl, fail, slow)
		s.s.Request(fakestream.Request(s.mode, &pb.Path{Target: s.target}, s.only, fakestream.Path(s.qs[0]...)))
		subs = append(subs, s)
		delay := time.Duration(rnd.Intn(1+20*ops)) * time.Microsecond
		triggers := rnd.Intn(4)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			go s.s.Serve(srv.Subscribe)
			if s.mode == pb.SubscriptionList_POLL {
				for ; triggers > 0; triggers-- {
					time.Sleep(100 * time.Microsecond)
					s.s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
				}
				s.s.CloseSend()
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(60 * time.Second):
		fail("stuck", "the writers do not finish\n%s", vk.Stacks())
		return
	}
	sched.Off()
	await := func(s *sub, what string, cond func() bool) bool {
		for end := time.Now().Add(60 * time.Second); !cond(); time.Sleep(50 * time.Microsecond) {
			if time.Now().After(end) {
				fail("stuck", "%v: %s; %v\n%s", s, what, acl, vk.Stacks())
				return false
			}
		}
		return true
	}
	done := func(s *sub) bool { d, _ := s.s.Err(); return d }
	delivered, refusals := 0, 0
	for _, s := range subs {
		want := codes.OK
		if _, known := acl.allow[s.user]; !known {
			want = codes.Unauthenticated
		} else if s.target != "*" && !acl.allow[s.user][s.target] {
			want = codes.PermissionDenied
		}
		if want != codes.OK || s.mode != pb.SubscriptionList_STREAM {
			if !await(s, "the call does not end", func() bool { return done(s) }) {
				return
			}
		}
		if want != codes.OK {
			refusals++
			if _, err := s.s.Err(); status.Code(err) != want || s.sends.Load() > 0 {
				fail("refusal", "%v ends with %v after %d responses, expected %v; %v", s, err, s.sends.Load(), want, acl)
			}
			continue
		}
		if s.mode != pb.SubscriptionList_STREAM {
			if _, err := s.s.Err(); err != nil {
				fail("end", "%v ends with %v", s, err)
			}
			delivered += len(s.s.Responses(0))
			continue
		}
		// Replay of the stream once all is sent.
		t := ""
		for _, x := range targets {
			if acl.allow[s.user][x] && (s.target == "*" || s.target == x) {
				t = x
			}
		}
		if t == "" {
			if !await(s, "there is no sync_response", func() bool { return len(s.s.Responses(0)) > 0 }) {
				return
			}
			continue
		}
		if !await(s, "there is no sync_response", func() bool {
			for _, m := range s.s.Responses(0) {
				if m.GetSyncResponse() {
					return true
				}
			}
			return false
		}) {
			return
		}
		p := append(append([]string(nil), s.qs[0]...), "sentinel", fmt.Sprint(s.id))
		srv.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: t}, Update: []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{}}}}))
		if !await(s, "an update is not received", func() bool {
			for _, m := range s.s.Responses(0) {
				if n := m.GetUpdate(); n != nil && len(n.Update) == 1 && hist.Key(hist.LeafIndex(n)) == hist.Key(p) {
					return true
				}
			}
			return false
		}) {
			return
		}
		for _, m := range s.s.Responses(0) {
			if n := m.GetUpdate(); n != nil {
				s.view.Apply(proto.Clone(n).(*pb.Notification))
				delivered++
			}
		}
		for _, t := range targets {
			if s.target != "*" && s.target != t || !acl.allow[s.user][t] {
				continue
			}
			want := map[string]string{}
			c.Query(t, s.qs[0], func(_ []string, _ *ctree.Leaf, v any) error {
				n := v.(*pb.Notification)
				want[hist.Key(hist.LeafIndex(n))] = hist.ValueOf(n)
				return nil
			})
			got := map[string]string{}
			for k, v := range s.view[t] {
				if p := hist.Unkey(k); len(p) == 2 && s.wants(t, p) && (p[0] != "sentinel") {
					got[k] = v
				}
			}
			if s.only { // may not know what did not change
				for k := range want {
					if _, ok := got[k]; !ok {
						delete(want, k)
					}
				}
			}
			if d := hist.Diff(got, want); d != "" {
				fail("withheld", "%v is authorized for %q, but its replay differs from the cache: %s; %v", s, t, d, acl)
			}
			r.Count("concurrent_views", 1)
		}
	}
	r.Count("concurrent_responses", delivered)
	r.Count("concurrent_refusals", refusals)
	r.Eval(1)
	r.Distinct("c", i, race, delivered, refusals)
}
