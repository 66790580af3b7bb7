// Package c14 checks property C14: reset and removal clear exactly one target
// and announce it; targets are isolated.
package c14

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C14", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		m := r.N(2000, 40000)
		if race {
			m = r.N(800, 15000)
		}
		r.Until(1, 2)
		for i := 0; i < m && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
		if race {
			return
		}
		n := r.N(4000, 120000)
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				r.Journal("history %d", i)
				synctest.Test(t, func(t *testing.T) { random(r, i) })
			}
		}
	})
}

// sub is a STREAM subscriber.
type sub struct {
	target string
	query  []string
	s      *fakestream.Stream
	read   int
	view   hist.View
	synced int
	ended  bool
	name   string
}

func (s *sub) String() string { return s.name }

type snap struct {
	leaves   map[string]string
	counters hist.Counters
}

func random(r *vk.Run, i int) {
	rnd := r.Rand("random", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2", "dev3", "oc"}[:2+rnd.Intn(3)]...)
	if rnd.Intn(4) == 0 {
		targets[1] = "a" // also the name of an element
	}
	cfg := hist.Config{Targets: targets, EventDriven: rnd.Intn(3) > 0}
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(cfg, r.Violation)
	srv, err := subscribe.NewServer(w.C)
	if err != nil {
		panic(err)
	}
	w.OnEvent = func(l *ctree.Leaf) { srv.Update(l) }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var subs []*sub
	alive := map[string]bool{}
	for _, t := range targets {
		alive[t] = true
	}
	take := func(t string) snap {
		all, _ := w.Snapshot(t)
		return snap{all, w.Counters(t)}
	}
	// drain processes what the subscribers received. touched is the target of
	// the last operation, "" for all.
	drain := func(touched, op string, removed bool) {
		synctest.Wait()
		for _, s := range subs {
			if s.ended {
				continue
			}
			rs := s.s.Responses(s.read)
			s.read += len(rs)
			for _, m := range rs {
				if m.GetSyncResponse() {
					s.synced++
					continue
				}
				n := m.GetUpdate()
				t := n.GetPrefix().GetTarget()
				if s.target != "*" && t != s.target {
					w.Fail("isolation", "subscriber %v receives %s", s, hist.Text(n))
				}
				if touched != "" && t != touched && s.synced > 0 {
					w.Fail("isolation", "after %s on target %q subscriber %v receives %s", op, touched, s, hist.Text(n))
				}
				s.view.Apply(n)
				r.Count("responses", 1)
			}
			done, err := s.s.Err()
			want := removed && s.target == touched
			switch {
			case done && err != nil:
				w.Fail("stream-error", "after %s of %q the stream of %v ends with %v", op, touched, s, err)
			case done && !want:
				w.Fail("stream-end", "after %s of %q the stream of %v ends", op, touched, s)
			case !done && want:
				w.Fail("stream-end", "target %q is removed, but the stream of %v does not end", touched, s)
			case done:
				r.Count("streams_ended_by_removal", 1)
				if len(s.view[touched]) != 0 {
					w.Fail("removal-not-announced", "target %q was removed, but %v still believes in %v", touched, s, s.view[touched])
				}
			}
			s.ended = done
			// What the subscriber believes is what the cache holds.
			for _, t := range targets {
				if s.target != "*" && s.target != t || s.ended {
					continue
				}
				want := map[string]string{}
				if alive[t] {
					all, _ := w.Snapshot(t)
					for k, v := range all {
						if hist.QueryMatches(s.query, hist.Unkey(k)) {
							want[k] = v
						}
					}
				}
				got := map[string]string{}
				for k, v := range s.view[t] {
					if hist.QueryMatches(s.query, hist.Unkey(k)) {
						got[k] = v
					}
				}
				if d := hist.Diff(got, want); d != "" {
					w.Fail("subscriber-view", "after %s on %q, subscriber %v: its view of target %q differs from the cache: %s", op, touched, s, t, d)
				}
			}
		}
	}
	r.Guard("random", fmt.Sprintf("history %d", i), func() {
		steps := 10 + rnd.Intn(50)
		for step := 0; step < steps && !r.TooMany(); step++ {
			target := targets[rnd.Intn(len(targets))]
			hist.Clock.Add(1 + rnd.Int63n(2))
			if rnd.Intn(8) == 0 && hist.Clock.Load() < g.Base+g.Span {
				hist.Clock.Store(g.Base + g.Span)
			}
			before := map[string]snap{}
			for _, t := range targets {
				if alive[t] {
					before[t] = take(t)
				}
			}
			op := ""
			touched := target
			removed := false
			switch k := rnd.Intn(40); {
			case k < 3:
				op = "Reset"
				w.Reset(target)
				checkReset(r, w, target, before[target], alive[target])
			case k < 5:
				if alive[target] {
					op, removed = "Remove", true
					alive[target] = false
					w.Remove(target)
					checkRemove(r, w, target, before[target])
				} else {
					op = "Add"
					alive[target] = true
					w.Add(target)
				}
			case k == 5:
				op = "Sync"
				w.Sync(target)
			case k == 6:
				op = "Connect"
				w.Connect(target)
			case k == 7:
				op = "ConnectError"
				w.ConnectError(target, fmt.Sprint("error ", step))
			case k < 10:
				op, touched = "UpdateMetadata", ""
				w.UpdateMetadata()
			case k == 10:
				op, touched = "UpdateSize", ""
				w.UpdateSize()
			case k < 14 && len(subs) < 6:
				op, touched = "Subscribe", ""
				s := &sub{target: target, view: hist.View{}}
				if rnd.Intn(3) == 0 {
					s.target = "*"
				}
				if s.target != "*" && !alive[s.target] {
					continue
				}
				s.query = nil
				var p *pb.Path
				if rnd.Intn(2) == 0 {
					s.query = []string{g.Names[rnd.Intn(len(g.Names))]}
					p = fakestream.Path(s.query...)
				} else {
					p = &pb.Path{}
				}
				s.name = fmt.Sprintf("#%d of %q at %q", len(subs), s.target, s.query)
				s.s = fakestream.New(ctx, s.name)
				s.s.Request(fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: s.target}, false, p))
				subs = append(subs, s)
				w.Log = append(w.Log, "Subscribe "+s.name)
				go s.s.Serve(srv.Subscribe)
			default:
				op = "an update"
				n := g.Notification(target)
				w.Submit(n, w.C.GnmiUpdate)
			}
			for _, t := range targets {
				if !alive[t] {
					if w.C.HasTarget(t) || w.C.GetTarget(t) != nil {
						w.Fail("removed-known", "target %q was removed but is known", t)
					}
					if w.C.Query(t, []string{"*"}, func([]string, *ctree.Leaf, any) error { return nil }) == nil {
						w.Fail("removed-known", "target %q was removed but can be queried", t)
					}
					if _, ok := w.C.Metadata()[t]; ok {
						w.Fail("removed-known", "target %q was removed but has metadata", t)
					}
					continue
				}
				if !w.C.HasTarget(t) {
					w.Fail("unknown", "target %q is unknown after %s of %q", t, op, target)
					continue
				}
				w.CheckStored(t)
				w.CheckView(t)
				if touched == "" || t == touched {
					continue
				}
				now := take(t)
				if d := hist.Diff(now.leaves, before[t].leaves); d != "" {
					w.Fail("isolation", "%s on target %q changes target %q: %s", op, touched, t, d)
				}
				if !reflect.DeepEqual(now.counters, before[t].counters) {
					w.Fail("isolation", "%s on target %q changes the metadata of target %q from %v to %v", op, touched, t, before[t].counters, now.counters)
				}
				r.Count("isolation_checks", 1)
			}
			if touched != "" {
				for _, e := range w.Feed {
					if e.N.GetPrefix().GetTarget() != touched {
						w.Fail("isolation", "%s on target %q announces %s", op, touched, hist.Text(e.N))
					}
				}
			}
			drain(touched, op, removed)
			r.Count("op_"+strings.ReplaceAll(op, " ", "_"), 1)
		}
	})
	cancel()
	synctest.Wait()
	for _, s := range subs {
		if done, _ := s.s.Err(); !done {
			w.Fail("stream-end", "the stream of %v does not end after cancellation", s)
		}
	}
	r.Eval(1)
	r.Distinct("r", strings.Join(w.Log, "\n"))
	if i < 3 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
}

func checkReset(r *vk.Run, w *hist.World, target string, before snap, alive bool) {
	if !alive {
		return
	}
	all, data := w.Snapshot(target)
	for k := range data {
		w.Fail("reset-leaves", "after Reset target %q still holds %s", target, hist.Show(k))
	}
	// Every leaf that is gone is covered by an announced delete.
	for k := range before.leaves {
		p := hist.Unkey(k)
		if hist.IsMeta(p) {
			continue
		}
		covered := false
		for _, e := range w.Feed {
			for _, d := range e.N.GetDelete() {
				covered = covered || e.N.GetPrefix().GetTarget() == target && hist.QueryMatches(hist.Index(e.N.GetPrefix(), d), p)
			}
		}
		if !covered {
			w.Fail("reset-announce", "Reset of target %q removes %s without announcing a delete", target, hist.Show(k))
		}
		r.Count("reset_leaves", 1)
	}
	c := w.Counters(target)
	for k, v := range c.Int {
		if v != 0 && !(k == metadata.LatestTimestamp && v < 0) {
			w.Fail("reset-metadata", "after Reset of target %q its metadata %s is %d", target, k, v)
		}
	}
	for k, v := range c.Bool {
		if v {
			w.Fail("reset-metadata", "after Reset of target %q its metadata %s is true", target, k)
		}
	}
	for _, k := range []string{metadata.Sync, metadata.Connected} {
		if _, ok := c.Bool[k]; !ok {
			w.Fail("reset-metadata", "after Reset of target %q its metadata %s is not set", target, k)
		}
		if v, ok := all[hist.Key([]string{"meta", k})]; ok && v != falseVal {
			w.Fail("reset-metadata", "after Reset of target %q the leaf meta/%s is %q", target, k, v)
		}
	}
	for k, v := range c.Str {
		if v != "" && k != metadata.ServerName {
			w.Fail("reset-metadata", "after Reset of target %q its metadata %s is %q", target, k, v)
		}
	}
	for k := range metadata.TargetIntValues {
		if k == metadata.LatestTimestamp {
			continue
		}
		if v, ok := all[hist.Key([]string{"meta", k})]; ok && v != zeroVal {
			w.Fail("reset-metadata", "after Reset of target %q the leaf meta/%s is %q", target, k, v)
		}
	}
	r.Count("resets", 1)
}

var (
	falseVal = hist.ValueOf(&pb.Notification{Update: []*pb.Update{{Val: &pb.TypedValue{Value: &pb.TypedValue_BoolVal{}}}}})
	zeroVal  = hist.ValueOf(&pb.Notification{Update: []*pb.Update{{Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{}}}}})
)

func checkRemove(r *vk.Run, w *hist.World, target string, before snap) {
	whole := false
	for _, e := range w.Feed {
		for _, d := range e.N.GetDelete() {
			q := hist.Index(e.N.GetPrefix(), d)
			whole = whole || len(q) == 0 || len(q) == 1 && q[0] == "*"
		}
	}
	if !whole {
		w.Fail("remove-announce", "Remove of target %q does not announce a delete of the whole target", target)
	}
	if err := w.C.GnmiUpdate(&pb.Notification{Timestamp: 1, Prefix: &pb.Path{Target: target}, Update: []*pb.Update{{Path: fakestream.Path("a"), Val: &pb.TypedValue{}}}}); err == nil {
		w.Fail("removed-known", "target %q was removed but accepts updates", target)
	}
	r.Count("removes", 1)
}

// concurrent resets, removes and adds targets while they send updates, and
// while another target, which is left alone, sends some too.
func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(300))*time.Microsecond)
	defer sched.Off()
	r.Journal("concurrent %d (race build: %v): %s", i, race, how)
	targets := []string{"dev1", "dev2", "quiet"}
	c := cache.New(targets)
	srv, err := subscribe.NewServer(c)
	if err != nil {
		panic(err)
	}
	type event struct {
		at int64
		n  *pb.Notification
	}
	var clock atomic.Int64
	var mu sync.Mutex
	var events []event
	var log []string
	c.SetClient(func(l *ctree.Leaf) {
		srv.Update(l)
		// What it is when the subscribers read it.
		n := proto.Clone(l.Value().(*pb.Notification)).(*pb.Notification)
		mu.Lock()
		events = append(events, event{clock.Add(1), n})
		mu.Unlock()
	})
	note := func(f string, a ...any) {
		mu.Lock()
		log = append(log, fmt.Sprintf("%d ", clock.Load())+fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\nrun %d, %s, log:\n  %s", fmt.Sprintf(f, a...), i, how, strings.Join(log, "\n  "))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	all := fakestream.New(ctx, "all")
	all.Request(fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: "*"}, true, &pb.Path{}))
	go all.Serve(srv.Subscribe)
	for len(all.Responses(0)) == 0 {
		time.Sleep(10 * time.Microsecond)
	}
	var stamps atomic.Int64
	stamps.Store(1000)
	var wg sync.WaitGroup
	ops := 10 + rnd.Intn(40)
	want := map[string]int64{} // of the target that is left alone
	for _, t := range targets {
		for w := 0; w < 1+rnd.Intn(2); w++ {
			if t == "quiet" && w > 0 {
				continue
			}
			wr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops; k++ {
					ts := stamps.Add(1)
					n := &pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: t}}
					p := []string{string(rune('a' + wr.Intn(3))), string(rune('a' + wr.Intn(2)))}
					if wr.Intn(5) == 0 {
						n.Delete = []*pb.Path{fakestream.Path(p...)}
					} else {
						n.Update = []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: ts}}}}
					}
					note("-> %s", hist.Text(n))
					err := c.GnmiUpdate(n)
					if t == "quiet" {
						if err != nil {
							fail("isolation", "an update of the target left alone is refused: %v", err)
						}
						if n.Delete != nil {
							delete(want, hist.Key(p))
						} else {
							want[hist.Key(p)] = ts
						}
					}
					if wr.Intn(4) == 0 {
						time.Sleep(time.Duration(wr.Intn(60)) * time.Microsecond)
					}
				}
			}()
		}
	}
	// Subscribers of single targets, beginning at any time.
	type single struct {
		target string
		s      *fakestream.Stream
		synced atomic.Int64
	}
	var singles []*single
	for k := rnd.Intn(6); k > 0; k-- {
		s := &single{target: targets[rnd.Intn(2)]}
		s.s = fakestream.New(ctx, fmt.Sprint("single", k))
		s.s.Request(fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: s.target}, rnd.Intn(2) == 0, &pb.Path{}))
		s.s.OnSend = func(m *pb.SubscribeResponse) error {
			if m.GetSyncResponse() {
				s.synced.Store(clock.Add(1))
			}
			return nil
		}
		singles = append(singles, s)
		delay := time.Duration(rnd.Intn(1+ops*40)) * time.Microsecond
		go func() {
			time.Sleep(delay)
			s.s.Serve(srv.Subscribe)
		}()
	}
	type span struct{ call, from, to int64 } // call and return of Remove, call of Add
	gone := map[string][]span{}
	alive := map[string]bool{"dev1": true, "dev2": true, "quiet": true}
	var amu sync.Mutex
	for _, t := range targets[:2] {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var away []span
			live := true
			for k := 0; k < ops/4; k++ {
				time.Sleep(time.Duration(wr.Intn(100)) * time.Microsecond)
				hist.Clock.Add(1)
				switch x := wr.Intn(6); {
				case !live:
					note("Add(%s)", t)
					away[len(away)-1].to = clock.Add(1)
					c.Add(t)
					live = true
				case x == 0:
					c.Reset(t)
					note("Reset(%s)", t)
				case x == 1:
					c.Sync(t)
				case x == 2:
					c.Connect(t)
				case x == 3:
					c.ConnectError(t, errors.New("error"))
				case x == 4:
					c.UpdateMetadata()
				default:
					call := clock.Add(1)
					c.Remove(t)
					away = append(away, span{call, clock.Add(1), 1 << 62})
					note("Remove(%s)", t)
					live = false
				}
			}
			amu.Lock()
			gone[t], alive[t] = away, live
			amu.Unlock()
		}()
	}
	// The same without regard to when targets come and go, by their names and
	// through what was once known by that name.
	for k := rnd.Intn(3); k > 0; k-- {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var known []*cache.Target
			for k := 0; k < ops/3; k++ {
				time.Sleep(time.Duration(wr.Intn(80)) * time.Microsecond)
				name := targets[wr.Intn(2)]
				if t := c.GetTarget(name); t != nil && len(known) < 4 {
					known = append(known, t)
				}
				if len(known) > 0 && wr.Intn(2) == 0 {
					t := known[wr.Intn(len(known))]
					switch x := wr.Intn(5); x {
					case 0, 1:
						t.Reset()
					case 2:
						t.Sync()
					case 3:
						t.Connect()
					case 4:
						known = nil
					}
					r.Count("concurrent_handle_ops", 1)
					continue
				}
				switch wr.Intn(6) {
				case 0, 1:
					c.Reset(name)
				case 2:
					c.Sync(name)
				case 3:
					c.ConnectError(name, errors.New("error"))
				case 4:
					c.UpdateSize()
				case 5:
					c.UpdateMetadata()
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(60 * time.Second):
		mu.Lock()
		defer mu.Unlock()
		fail("stuck", "the writers do not finish\n%s", vk.Stacks())
		return
	}
	sched.Off()
	srv.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: "quiet"}, Update: []*pb.Update{{Path: fakestream.Path("sentinel"), Val: &pb.TypedValue{}}}}))
	var rs []*pb.SubscribeResponse
	for end := time.Now().Add(60 * time.Second); ; {
		rs = all.Responses(0)
		if n := rs[len(rs)-1].GetUpdate(); n != nil && len(n.Update) > 0 && hist.Key(hist.LeafIndex(n)) == "sentinel" {
			rs = rs[:len(rs)-1]
			break
		}
		if done, err := all.Err(); done || time.Now().After(end) {
			fail("stream-end", "the stream of all targets stalls or ends (%v, %v)\n%s", done, err, vk.Stacks())
			return
		}
		time.Sleep(20 * time.Microsecond)
	}
	view := hist.View{}
	for _, m := range rs {
		if n := m.GetUpdate(); n != nil {
			view.Apply(n)
		}
	}
	for _, s := range singles {
		removed := int64(0) // a removal that must end the stream
		for _, x := range gone[s.target] {
			if !alive[s.target] || s.synced.Load() > 0 && s.synced.Load() < x.call {
				removed = x.from
			}
		}
		if removed == 0 {
			continue
		}
		select {
		case <-s.s.Done():
			if _, err := s.s.Err(); err != nil && status.Code(err) != codes.NotFound {
				fail("stream-end", "target %q was removed, but its stream ends with %v", s.target, err)
			}
			r.Count("concurrent_streams_ended", 1)
		case <-time.After(20 * time.Second):
			fail("stream-end", "target %q was removed [%d], known now: %v, but its stream, synced at %d, does not end", s.target, removed, alive[s.target], s.synced.Load())
		}
	}
	removals := 0
	for _, t := range targets {
		content := map[string]string{}
		c.Query(t, nil, func(_ []string, _ *ctree.Leaf, v any) error {
			n := v.(*pb.Notification)
			if g := n.GetPrefix().GetTarget(); g != t {
				fail("isolation", "target %q stores %s", t, hist.Text(n))
			}
			content[hist.Key(hist.LeafIndex(n))] = hist.ValueOf(n)
			return nil
		})
		if c.HasTarget(t) != alive[t] {
			fail("known", "target %q is known: %v, expected %v", t, !alive[t], alive[t])
		}
		if d := hist.Diff(view[t], content); d != "" {
			fail("subscriber-view", "the view of a subscriber of all targets differs from the content of %q (known: %v): %s", t, alive[t], d)
		}
		for _, s := range gone[t] {
			removals++
			for _, e := range events {
				if e.n.GetPrefix().GetTarget() == t && e.at > s.from && e.at < s.to {
					fail("after-removal", "target %q was removed [%d], but %s is announced after that [%d]", t, s.from, hist.Text(e.n), e.at)
				}
			}
		}
		r.Count("concurrent_views", 1)
	}
	got := map[string]int64{}
	c.Query("quiet", []string{"*", "*"}, func(p []string, _ *ctree.Leaf, v any) error {
		if n := v.(*pb.Notification); !hist.IsMeta(hist.LeafIndex(n)) {
			got[hist.Key(hist.LeafIndex(n))] = n.Update[0].Val.GetIntVal()
		}
		return nil
	})
	if !reflect.DeepEqual(got, want) {
		fail("isolation", "the target that is left alone holds %v, expected %v", got, want)
	}
	r.Count("concurrent_removals", removals)
	r.Count("concurrent_events", len(events))
	r.Eval(1)
	r.Distinct("c", i, race, len(events), removals)
}
