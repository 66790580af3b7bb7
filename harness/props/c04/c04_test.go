// Package c04 checks property C04: STREAM subscribers converge to the cache;
// sync marks the initial snapshot.
package c04

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

const timeout = 60 * time.Second

func TestCheck(t *testing.T) {
	vk.Main(t, "C04", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		n := r.N(4000, 100000)
		if race {
			n = r.N(1000, 25000)
		}
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
	})
}

// change is a change of a leaf, in effect some time within [call, ret].
type change struct {
	call, ret int64
	value     string // "" if deleted
}

// sub is a STREAM subscriber.
type sub struct {
	id     int
	target string
	qs     [][]string
	only   bool
	s      *fakestream.Stream
	t0     int64 // before the RPC
	t1     atomic.Int64
	cancel bool
	synced chan struct{}
	// state of the judge
	read   int
	syncs  int
	view   hist.View
	before map[string]bool // leaves received before the sync
	done   string          // id of the sentinel waited for
	last   map[string]int64
	got    int
}

func (s *sub) String() string {
	return fmt.Sprintf("#%d of %q at %q, updates only: %v", s.id, s.target, s.qs, s.only)
}

func (s *sub) matches(t string, p []string) bool {
	if s.target != "*" && s.target != t {
		return false
	}
	for _, q := range s.qs {
		if hist.QueryMatches(q, p) {
			return true
		}
	}
	return false
}

type run struct {
	r      *vk.Run
	i      int
	how    string
	c      *cache.Cache
	srv    *subscribe.Server
	clock  atomic.Int64
	names  []string
	leaves [][]string

	mu    sync.Mutex
	hists map[string][]change // by target and leaf; complete only for single writers
	multi map[string]bool     // targets with several writers of a leaf
	log   []string
}

func (x *run) note(f string, a ...any) {
	x.mu.Lock()
	x.log = append(x.log, fmt.Sprintf("%d ", x.clock.Load())+fmt.Sprintf(f, a...))
	x.mu.Unlock()
}

func (x *run) fail(kind, f string, a ...any) {
	x.mu.Lock()
	l := append([]string(nil), x.log...)
	x.mu.Unlock()
	x.r.Violation(kind, "%s\nrun %d, %s, log:\n  %s", fmt.Sprintf(f, a...), x.i, x.how, strings.Join(l, "\n  "))
}

func id(t string, p []string) string { return t + "\x1f" + hist.Key(p) }

func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(300))*time.Microsecond)
	defer sched.Off()
	r.Journal("run %d (race build: %v): %s", i, race, how)
	targets := hist.Targets(rnd, []string{"dev1", "dev2", "dev3"}[:1+rnd.Intn(3)]...)
	var opts []cache.Option
	if rnd.Intn(3) == 0 {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	x := &run{r: r, i: i, how: how, c: cache.New(targets, opts...), hists: map[string][]change{}, multi: map[string]bool{}}
	srv, err := subscribe.NewServer(x.c)
	if err != nil {
		panic(err)
	}
	x.srv = srv
	x.c.SetClient(srv.Update)
	x.names = hist.Alphabet(rnd, 1+rnd.Intn(3), "a", "b", "c")
	for _, n := range x.names {
		for _, m := range x.names {
			x.leaves = append(x.leaves, []string{n, m, "v"})
			if rnd.Intn(2) == 0 {
				x.leaves = append(x.leaves, []string{n, m, "w"})
			}
		}
		if rnd.Intn(2) == 0 {
			x.leaves = append(x.leaves, []string{"oc", n, "g"}) // atomic group
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var values, stamps atomic.Int64
	stamps.Store(1000)
	var subs []*sub
	phases := 1 + rnd.Intn(3)
	ops := 10 + rnd.Intn(60)
	for phase := 0; phase < phases && !r.TooMany(); phase++ {
		var wg sync.WaitGroup
		for _, t := range targets {
			writers := 1
			if rnd.Intn(3) == 0 {
				writers = 2 + rnd.Intn(2)
				x.multi[t] = true
			}
			for w := 0; w < writers; w++ {
				wr := rand.New(rand.NewSource(rnd.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < ops; k++ {
						x.write(wr, t, &values, &stamps)
						if wr.Intn(4) == 0 {
							time.Sleep(time.Duration(wr.Intn(100)) * time.Microsecond)
						}
					}
				}()
			}
		}
		if rnd.Intn(2) == 0 { // the periodic jobs of the collector, and the manager
			wr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops/4; k++ {
					hist.Clock.Add(1)
					t := targets[wr.Intn(len(targets))]
					switch wr.Intn(6) {
					case 0:
						x.c.Sync(t)
					case 1:
						x.c.Connect(t)
					case 2:
						x.c.ConnectError(t, errors.New(fmt.Sprint("error ", k)))
					default:
						x.c.UpdateMetadata()
					}
					time.Sleep(time.Duration(wr.Intn(50)) * time.Microsecond)
				}
			}()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops/4; k++ {
					hist.Clock.Add(1)
					x.c.UpdateMetadata()
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		var fresh []*sub
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			s := &sub{id: len(subs) + len(fresh), view: hist.View{}, before: map[string]bool{}, last: map[string]int64{}, synced: make(chan struct{})}
			s.target = targets[rnd.Intn(len(targets))]
			if rnd.Intn(3) == 0 {
				s.target = "*"
			}
			s.only = rnd.Intn(4) == 0
			prefix := &pb.Path{Target: s.target}
			var paths []*pb.Path
			for n := 1 + rnd.Intn(3); n > 0; n-- {
				q := x.query(rnd)
				if k := len(s.qs); k > 0 && rnd.Intn(5) == 0 {
					if c := hist.Confuse(rnd, s.qs[k-1]); c != nil {
						q = c // looks the same
					}
				} else if c := hist.Confuse(rnd, q); c != nil && n > 1 && rnd.Intn(10) == 0 {
					q = c
				}
				s.qs = append(s.qs, q)
				p := &pb.Path{}
				if len(q) > 0 && q[0] == "oc" && rnd.Intn(2) == 0 {
					p = fakestream.Path(q[1:]...)
					p.Origin = "oc"
				} else {
					p = fakestream.Path(q...)
				}
				paths = append(paths, p)
			}
			s.s = fakestream.New(ctx, fmt.Sprint("client", s.id))
			s.s.Request(fakestream.Request(pb.SubscriptionList_STREAM, prefix, s.only, paths...))
			slow := rnd.Intn(4) == 0
			var pauses [32]time.Duration
			for k := range pauses {
				pauses[k] = time.Duration(rnd.Intn(200)) * time.Microsecond
			}
			n := 0
			once := sync.Once{}
			s.s.OnSend = func(m *pb.SubscribeResponse) error {
				if n++; slow {
					time.Sleep(pauses[n%len(pauses)])
				}
				if m.GetSyncResponse() {
					once.Do(func() { s.t1.Store(x.clock.Add(1)); close(s.synced) })
				}
				return nil
			}
			fresh = append(fresh, s)
			delay := time.Duration(rnd.Intn(1+20*ops)) * time.Microsecond
			quit := rnd.Intn(6) == 0
			s.cancel = quit
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(delay)
				x.note("Subscribe %v", s)
				s.t0 = x.clock.Add(1)
				go s.s.Serve(srv.Subscribe)
				if quit {
					time.Sleep(delay / 2)
					s.s.Cancel()
				}
			}()
		}
		subs = append(subs, fresh...)
		finished := make(chan struct{})
		go func() { wg.Wait(); close(finished) }()
		select {
		case <-finished:
		case <-time.After(timeout):
			x.fail("stuck", "the writers do not finish\n%s", vk.Stacks())
			return
		}
		sched.Off()
		for _, s := range subs {
			if !x.settle(s, fmt.Sprint("phase", phase), targets) {
				return
			}
			x.judge(s, targets)
		}
	}
	cancel()
	for _, s := range subs {
		select {
		case <-s.s.Done():
		case <-time.After(timeout):
			x.fail("stuck", "the stream of %v does not end after cancellation\n%s", s, vk.Stacks())
			return
		}
	}
	got := 0
	for _, s := range subs {
		got += s.got
	}
	r.Eval(1)
	r.Count("streams", len(subs))
	r.Count("responses", got)
	r.Distinct("c", i, race, got, how)
	if i < 2 {
		r.Sample("%s: %s", how, strings.Join(x.log[:min(len(x.log), 30)], " ; "))
	}
}

func (x *run) query(rnd *rand.Rand) []string {
	l := x.leaves[rnd.Intn(len(x.leaves))]
	q := append([]string(nil), l[:rnd.Intn(len(l)+1)]...)
	for k := range q {
		if rnd.Intn(4) == 0 {
			q[k] = "*"
		}
	}
	if rnd.Intn(8) == 0 {
		q = []string{"meta"}
	}
	return q
}

// write makes one change of target t.
func (x *run) write(wr *rand.Rand, t string, values, stamps *atomic.Int64) {
	n := &pb.Notification{Timestamp: stamps.Add(1), Prefix: &pb.Path{Target: t}}
	if wr.Intn(10) == 0 {
		n.Timestamp -= 5
	}
	changes := map[string]string{}
	var order []string
	set := func(l []string, v string) { changes[id(t, l)] = v; order = append(order, id(t, l)) }
	l := x.leaves[wr.Intn(len(x.leaves))]
	val := func() *pb.TypedValue {
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: values.Add(1)}}
	}
	switch k := wr.Intn(24); {
	case k < 14 && l[0] == "oc":
		n.Prefix.Origin, n.Prefix.Elem, n.Atomic = "oc", fakestream.Path(l[1:]...).Elem, true
		for m := 1 + wr.Intn(3); m > 0; m-- {
			n.Update = append(n.Update, &pb.Update{Path: fakestream.Path(fmt.Sprint("m", m)), Val: val()})
		}
		set(l, hist.ValueOf(n))
	case k < 14:
		for m := 1 + wr.Intn(3)*wr.Intn(2); m > 0; m-- {
			if l[0] != "oc" {
				u := &pb.Update{Path: fakestream.Path(l...), Val: val()}
				n.Update = append(n.Update, u)
				set(l, "v"+hist.Bytes(u.Val))
			}
			l = x.leaves[wr.Intn(len(x.leaves))]
		}
		if wr.Intn(8) == 0 { // also a delete
			n.Delete = append(n.Delete, fakestream.Path(x.names[0], x.names[len(x.names)-1]))
			for _, l := range x.leaves {
				if l[0] == x.names[0] && l[1] == x.names[len(x.names)-1] {
					set(l, "")
				}
			}
		}
	case k < 23:
		q := append([]string(nil), l[:1+wr.Intn(len(l))]...)
		if wr.Intn(3) == 0 {
			q[wr.Intn(len(q))] = "*"
		}
		n.Delete = []*pb.Path{fakestream.Path(q...)}
		for _, l := range x.leaves {
			if hist.QueryMatches(q, l) {
				set(l, "")
			}
		}
	default:
		n = nil
		for _, l := range x.leaves {
			set(l, "")
		}
	}
	call := x.clock.Add(1)
	if n == nil {
		hist.Clock.Add(1)
		x.c.Reset(t)
		x.note("Reset(%s)", t)
	} else {
		x.c.GnmiUpdate(n)
		x.note("%s", hist.Text(n))
	}
	ret := x.clock.Add(1)
	x.mu.Lock()
	for _, k := range order {
		x.hists[k] = append(x.hists[k], change{call, ret, changes[k]})
	}
	x.mu.Unlock()
}

// settle waits until everything queued for s was sent.
func (x *run) settle(s *sub, mark string, targets []string) bool {
	if s.cancel {
		select {
		case <-s.s.Done():
			return true
		case <-time.After(timeout):
			x.fail("stuck", "the stream of %v does not end after cancellation\n%s", s, vk.Stacks())
			return false
		}
	}
	select {
	case <-s.synced:
	case <-s.s.Done():
		_, err := s.s.Err()
		x.fail("stream-end", "the stream of %v ends with %v", s, err)
		return false
	case <-time.After(timeout):
		x.fail("sync", "%v receives no sync_response\n%s", s, vk.Stacks())
		return false
	}
	// What is queued last is sent last.
	t := s.target
	if t == "*" {
		t = targets[0]
	}
	p := append(append([]string(nil), s.qs[0]...), "sentinel", mark, fmt.Sprint(s.id))
	s.done = hist.Key(p)
	x.srv.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: t}, Update: []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{}}}}))
	for end := time.Now().Add(timeout); ; {
		rs := s.s.Responses(0)
		if k := len(rs); k > s.read {
			for _, m := range rs[s.read:] {
				if n := m.GetUpdate(); n != nil && len(n.Update) == 1 && hist.Key(hist.LeafIndex(n)) == s.done {
					return true
				}
			}
		}
		if done, err := s.s.Err(); done {
			x.fail("stream-end", "the stream of %v ends with %v", s, err)
			return false
		}
		if time.Now().After(end) {
			x.fail("stuck", "%v does not receive an update\n%s", s, vk.Stacks())
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func sentinel(p []string) bool {
	for _, e := range p {
		if e == "sentinel" {
			return true
		}
	}
	return false
}

// judge replays what s received.
func (x *run) judge(s *sub, targets []string) {
	rs := s.s.Responses(s.read)
	first := s.read == 0
	s.read += len(rs)
	s.got += len(rs)
	for k, m := range rs {
		if m.GetSyncResponse() {
			if s.syncs++; s.syncs > 1 {
				x.fail("sync", "%v receives sync_response %d", s, s.syncs)
			}
			if s.only && !(first && k == 0) {
				x.fail("sync", "%v receives something before the sync_response", s)
			}
			continue
		}
		n := m.GetUpdate()
		if n == nil {
			x.fail("response", "%v receives %v", s, m)
			continue
		}
		t := n.GetPrefix().GetTarget()
		if s.target != "*" && t != s.target {
			x.fail("response", "%v receives %s", s, hist.Text(n))
		}
		if len(n.Update) > 0 {
			p := hist.LeafIndex(n)
			if sentinel(p) {
				continue
			}
			if s.syncs == 0 {
				s.before[id(t, p)] = true
			}
			// A value is not replaced by an older one.
			if ts, ok := s.last[id(t, p)]; ok && n.Timestamp < ts && !hist.IsMeta(p) {
				x.fail("order", "%v receives %s after a newer value of the leaf", s, hist.Text(n))
			}
			s.last[id(t, p)] = n.Timestamp
		}
		for _, d := range n.Delete {
			q := hist.Index(n.Prefix, d)
			for k := range s.last {
				if f := strings.SplitN(k, "\x1f", 2); f[0] == t && hist.QueryMatches(q, hist.Unkey(f[1])) {
					delete(s.last, k)
				}
			}
		}
		s.view.Apply(n)
	}
	if s.cancel {
		return
	}
	if s.syncs != 1 {
		x.fail("sync", "%v receives %d sync_responses", s, s.syncs)
	}
	t1 := s.t1.Load()
	for _, t := range targets {
		if s.target != "*" && s.target != t {
			continue
		}
		want := map[string]string{}
		x.c.Query(t, nil, func(_ []string, _ *ctree.Leaf, v any) error {
			n := v.(*pb.Notification)
			if p := hist.LeafIndex(n); s.matches(t, p) {
				want[hist.Key(p)] = hist.ValueOf(n)
			}
			return nil
		})
		got := map[string]string{}
		for k, v := range s.view[t] {
			if p := hist.Unkey(k); s.matches(t, p) {
				got[k] = v
			}
		}
		if s.only {
			// What did not change since may be unknown to the subscriber.
			for k := range want {
				if _, ok := got[k]; !ok && !x.changedAfter(t, k, t1) {
					delete(want, k)
				}
			}
		}
		if d := hist.Diff(got, want); d != "" {
			x.fail("replay", "%v: the replay of its responses differs from the content of target %q: %s\nreceived:\n  %s", s, t, d, responses(s.s.Responses(0)))
		}
		x.r.Count("views_compared", 1)
		x.r.Count("leaves_compared", len(want))
		// The initial snapshot.
		if s.only || x.multi[t] || !first {
			continue
		}
		for _, l := range x.leaves {
			if s.matches(t, l) && x.present(id(t, l), s.t0, t1) {
				x.r.Count("snapshot_leaves_required", 1)
				if !s.before[id(t, l)] {
					x.fail("snapshot", "%v: %q of %s was there from the subscription [%d] to the sync_response [%d], but is not received before the latter", s, l, t, s.t0, t1)
				}
			}
		}
		x.r.Count("snapshots_judged", 1)
	}
}

// changedAfter reports whether a leaf of a target surely changed after t1.
func (x *run) changedAfter(t, k string, t1 int64) bool {
	p := hist.Unkey(k)
	if hist.IsMeta(p) || x.multi[t] {
		return false
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	h := x.hists[id(t, p)]
	// The current value was written after t1: the last change was.
	for _, c := range h {
		if c.value != "" && c.call > t1 && x.isCurrent(t, p, c.value) {
			return true
		}
	}
	return false
}

func (x *run) isCurrent(t string, p []string, v string) bool {
	cur := ""
	x.c.Query(t, p, func(_ []string, _ *ctree.Leaf, val any) error { cur = hist.ValueOf(val.(*pb.Notification)); return nil })
	return cur == v
}

// present reports whether the leaf was surely there during all of [t0, t1]:
// some update made before is not followed by a delete that began before t1.
func (x *run) present(k string, t0, t1 int64) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	there := false
	for _, c := range x.hists[k] {
		switch {
		case c.call > t1:
		case c.value == "":
			there = false
		case c.ret < t0:
			there = true
		}
	}
	return there
}

func responses(rs []*pb.SubscribeResponse) string {
	var s []string
	for _, m := range rs {
		if m.GetSyncResponse() {
			s = append(s, "sync_response")
		} else {
			s = append(s, hist.Text(m.GetUpdate()))
		}
	}
	return strings.Join(s, "\n  ")
}
