// Package c08 checks property C08: a stalled subscriber stalls neither the
// collector nor other subscribers.
package c08

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C08", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			r.Until(1, 3)
			for i, n := 0, r.N(4000, 100000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("history %d", i)
					synctest.Test(t, func(t *testing.T) { history(r, i) })
				}
			}
			r.Until(2, 3)
			for i, n := 0, r.N(16, 200); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("wire %d", i)
					wire(r, i)
				}
			}
		}
		n := r.N(1600, 40000)
		if race {
			n = r.N(600, 12000)
		}
		r.Until(3, 3)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
	})
}

// handle is what is pending for a subscriber: a leaf, or a delete.
type handle struct {
	l    *ctree.Leaf
	key  string
	del  bool
	sync bool
	left int // announcements not yet accounted for by messages
	val  string
	// Without duplicate counts: messages, and the last value received.
	msgs    int
	last    string
	resumed int
}

// sent is a send that was begun.
type sent struct {
	m  *pb.SubscribeResponse
	at time.Time
}

// sub is a subscriber.
type sub struct {
	id     int
	mode   pb.SubscriptionList_Mode
	target string
	qs     [][]string
	s      *fakestream.Stream

	mu       sync.Mutex
	held     bool
	resume   chan struct{} // closed to end the stall
	permit   chan struct{}
	begun    []sent
	blocked  time.Time // since when the send in flight is blocked, zero if none is
	endedAt  time.Time
	finished bool // Serve has returned

	pending []*handle
	ended   bool
	// stalls that were judged
	wasBlocked bool
}

func (s *sub) String() string {
	return fmt.Sprintf("#%d %v of %q at %q", s.id, s.mode, s.target, s.qs)
}

func (s *sub) wants(t string, p []string) bool {
	if s.target != "*" && s.target != t {
		return false
	}
	for _, q := range s.qs {
		if hist.QueryMatches(q, p) {
			return true
		}
	}
	return false
}

func (s *sub) onSend(m *pb.SubscribeResponse) error {
	c := proto.Clone(m).(*pb.SubscribeResponse)
	s.mu.Lock()
	s.begun = append(s.begun, sent{c, time.Now()})
	if !s.held {
		s.mu.Unlock()
		return nil
	}
	s.blocked = time.Now()
	resume, permit := s.resume, s.permit
	s.mu.Unlock()
	var err error
	select {
	case <-resume:
	case <-permit:
	case <-s.s.Context().Done():
		err = s.s.Context().Err()
	}
	s.mu.Lock()
	s.blocked = time.Time{}
	s.mu.Unlock()
	return err
}

func (s *sub) hold() {
	s.mu.Lock()
	s.held, s.resume, s.permit = true, make(chan struct{}), make(chan struct{})
	s.mu.Unlock()
}

func (s *sub) release() {
	s.mu.Lock()
	if s.held {
		s.held = false
		close(s.resume)
	}
	s.mu.Unlock()
}

// step lets the send in flight pass, if there is one, and nothing more.
func (s *sub) step() {
	s.mu.Lock()
	ok, permit := s.held && !s.blocked.IsZero(), s.permit
	s.mu.Unlock()
	if ok {
		permit <- struct{}{}
	}
}

func (s *sub) serve(srv *subscribe.Server) {
	s.s.Serve(srv.Subscribe)
	s.mu.Lock()
	s.endedAt, s.finished = time.Now(), true
	s.mu.Unlock()
}

func (s *sub) stalled() (since time.Time, ok bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.blocked, !s.blocked.IsZero()
}

// note accounts for an announcement.
func (s *sub) note(l *ctree.Leaf, key string, del bool, val string) {
	for _, h := range s.pending {
		if h.l == l {
			h.left++
			h.val = val
			s.renew(h)
			return
		}
	}
	s.pending = append(s.pending, &handle{l: l, key: key, del: del, left: 1, val: val})
	s.renew(s.pending[len(s.pending)-1])
}

// renew notes that a path is announced anew: if s is stalled, there must be
// another message for it.
func (s *sub) renew(h *handle) {
	if _, ok := s.stalled(); ok {
		h0 := s.group(h)[0]
		h0.msgs, h0.resumed = 0, 0
	}
}

// group returns the handles of the path of h. Without duplicate counts it is
// unknown which one a message is for; the first keeps the account.
func (s *sub) group(h *handle) []*handle {
	var r []*handle
	for _, x := range s.pending {
		if x.key == h.key && x.del == h.del && x.sync == h.sync {
			r = append(r, x)
		}
	}
	return r
}

func keyOf(n *pb.Notification) (key string, del bool) {
	if len(n.GetUpdate()) > 0 {
		return n.GetPrefix().GetTarget() + "\x1f" + hist.Key(hist.LeafIndex(n)), false
	}
	return n.GetPrefix().GetTarget() + "\x1f" + hist.Key(hist.Index(n.GetPrefix(), n.GetDelete()[0])), true
}

func history(r *vk.Run, i int) {
	rnd := r.Rand("history", i)
	g := hist.NewGen(rnd)
	g.Fixed = true
	g.Base = 1_000_000_000
	big := rnd.Intn(80) == 0
	targets := []string{"dev1", "dev2", "dev3"}[:1+rnd.Intn(3)]
	hist.Clock.Store(g.Base)
	cfg := hist.Config{Targets: targets, EventDriven: rnd.Intn(2) == 0}
	timeout := time.Minute
	opts := []subscribe.Option{subscribe.WithStats()}
	if rnd.Intn(2) == 0 {
		timeout = time.Duration(1+rnd.Intn(200)) * time.Second
		opts = append(opts, subscribe.WithTimeout(timeout))
	}
	noDup := rnd.Intn(4) == 0
	if noDup {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	var subs []*sub
	var log func() string
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\ntimeout %v, without dup report: %v, subscribers: %v, history:\n  %s", fmt.Sprintf(f, a...), timeout, noDup, subs, log())
	}
	w := hist.NewWorld(cfg, func(kind, f string, a ...any) { fail(kind, f, a...) })
	log = func() string {
		l := w.Log
		if len(l) > 80 {
			l = append(append([]string(nil), l[:20]...), l[len(l)-60:]...)
		}
		return strings.Join(l, "\n  ")
	}
	srv, err := subscribe.NewServer(w.C, opts...)
	if err != nil {
		panic(err)
	}
	w.OnEvent = func(l *ctree.Leaf) {
		n := l.Value().(*pb.Notification)
		key, del := keyOf(n)
		p := hist.Unkey(key)
		val := "delete"
		if !del {
			val = hist.ValueOf(n)
		}
		for _, s := range subs {
			if !s.ended && s.mode == pb.SubscriptionList_STREAM && s.wants(p[0], p[1:]) {
				s.note(l, key, del, val)
				continue
			}
			// ONCE and POLL: what is pending has its newest value all the same.
			for _, h := range s.pending {
				if h.l == l {
					h.val = val
				}
			}
		}
		srv.Update(l)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// drain accounts for the sends begun since the last time. exact means that
	// nothing was announced meanwhile.
	drain := func(s *sub, what string, exact bool) {
		s.mu.Lock()
		begun := s.begun
		s.begun = nil
		s.mu.Unlock()
		for _, b := range begun {
			n := b.m.GetUpdate()
			var h *handle
			dup := 0
			if n == nil {
				for _, x := range s.pending {
					if x.sync {
						h = x
						break
					}
				}
			} else {
				key, del := keyOf(n)
				for _, u := range n.GetUpdate() {
					dup += int(u.GetDuplicates())
				}
				for _, x := range s.pending {
					if !x.sync && x.key == key && x.del == del && x.left > 0 {
						h = x
						break
					}
				}
			}
			if h == nil {
				fail("backlog", "%s: %v is sent %v, which is not pending for it", what, s, b.m)
				continue
			}
			r.Count("messages", 1)
			if exact {
				r.Count("resumed_messages", 1)
				if (!noDup || len(s.group(h)) == 1) && !h.sync && !h.del && hist.ValueOf(n) != h.val {
					fail("newest", "%s: %v is sent for %s the value %q when the newest is %q", what, s, hist.Show(h.key), hist.ValueOf(n), h.val)
				}
			}
			if noDup {
				if dup != 0 {
					fail("dup-count", "%s: %v is sent duplicate count %d although they are not reported: %s", what, s, dup, hist.Text(n))
				}
				group := s.group(h)
				h, max := group[0], 0
				for _, x := range group {
					max += x.left
				}
				h.msgs++
				if exact {
					h.resumed++
				}
				if h.msgs > max || exact && h.resumed > len(group) {
					fail("backlog", "%s: %v is sent %d messages (%d on resuming) for %s, of which %d handles are pending, announced %d times", what, s, h.msgs, h.resumed, hist.Show(h.key), len(group), max)
				}
				if n != nil && !h.del {
					h.last = hist.ValueOf(n)
				}
				continue
			}
			if 1+dup > h.left || exact && 1+dup != h.left {
				fail("dup-count", "%s: %v is sent duplicate count %d when %d announcements are pending: %s", what, s, dup, h.left, hist.Text(n))
			}
			h.left -= 1 + dup
			if dup > 0 {
				r.Count("coalesced", dup)
			}
			if h.left <= 0 {
				if !h.sync && !h.del && hist.ValueOf(n) != h.val {
					fail("newest", "%s: the last that %v is sent for %s is the value %q when the newest is %q", what, s, hist.Show(h.key), hist.ValueOf(n), h.val)
				}
				for k, x := range s.pending {
					if x == h {
						s.pending = append(s.pending[:k], s.pending[k+1:]...)
						break
					}
				}
			}
		}
	}
	// judge looks at all subscribers when everything is quiescent.
	judge := func(what string, resumed *sub) {
		for _, s := range subs {
			if s.ended {
				continue
			}
			s.mu.Lock()
			finished, endedAt := s.finished, s.endedAt
			s.mu.Unlock()
			_, err := s.s.Err()
			since, stalled := s.stalled()
			drain(s, what, s == resumed)
			if finished {
				s.ended = true
				switch {
				case s.mode == pb.SubscriptionList_ONCE && err == nil && (noDup || len(s.pending) == 0):
					r.Count("once_completed", 1)
				case s.wasBlocked && err != nil:
					// Timed out: when is judged below by the step that slept.
					fail("early-timeout", "%s: %v ends with %v at %v", what, s, err, endedAt)
				default:
					fail("end", "%s: %v ends with %v, %d pending", what, s, err, len(s.pending))
				}
				continue
			}
			if stalled {
				if d := time.Since(since); d > timeout {
					fail("timeout", "%s: a send of %v is blocked for %v", what, s, d)
				}
			} else if s.mode == pb.SubscriptionList_ONCE {
				fail("end", "%s: %v does not end", what, s)
			} else {
				for _, h := range s.pending {
					if noDup {
						group := s.group(h)
						if group[0].msgs > 0 {
							if val := group[len(group)-1].val; s.mode == pb.SubscriptionList_STREAM && !h.sync && !h.del && group[0].last != val {
								fail("newest", "%s: the last that %v is sent for %s is the value %q when the newest is %q", what, s, hist.Show(h.key), group[0].last, val)
							}
							continue
						}
					}
					if h.left > 0 {
						fail("starved", "%s: %v is not stalled, but is not sent %s (delete: %v, sync: %v), announced %d times", what, s, hist.Show(h.key), h.del, h.sync, h.left)
					}
				}
				s.pending = nil
			}
			s.wasBlocked = stalled
			if stalled {
				r.Count("stalled_quiescent_points", 1)
			}
		}
		for k, st := range srv.ClientStats() {
			for _, s := range subs {
				if !s.ended && strings.HasPrefix(k, fmt.Sprintf("client%d:", s.id)) {
					if st.QueueSize > int64(len(s.pending)) {
						fail("backlog", "%s: %v has a backlog of %d entries, %d are pending", what, s, st.QueueSize, len(s.pending))
					}
					r.Count("backlogs_bounded", 1)
				}
			}
		}
	}
	start := func() {
		s := &sub{id: len(subs), target: targets[rnd.Intn(len(targets))]}
		if rnd.Intn(2) == 0 {
			s.target = "*"
		}
		s.mode = []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_STREAM, pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}[rnd.Intn(5)]
		only := s.mode == pb.SubscriptionList_STREAM && rnd.Intn(3) == 0
		// Subscriptions that do not overlap.
		switch rnd.Intn(4) {
		case 0:
			s.qs = [][]string{{}}
		case 1:
			s.qs = [][]string{{"*"}}
		default:
			for _, k := range rnd.Perm(len(g.Names))[:1+rnd.Intn(len(g.Names))] {
				s.qs = append(s.qs, []string{g.Names[k]})
			}
		}
		var paths []*pb.Path
		for _, q := range s.qs {
			paths = append(paths, fakestream.Path(q...))
		}
		w.Log = append(w.Log, fmt.Sprintf("Subscribe %v, updates only: %v", s, only))
		s.s = fakestream.New(ctx, fmt.Sprint("client", s.id))
		s.s.OnSend = s.onSend
		if rnd.Intn(3) == 0 {
			w.Log = append(w.Log, fmt.Sprintf("stall #%d", s.id))
			s.hold()
		}
		snapshot(w, s, only)
		subs = append(subs, s)
		s.s.Request(fakestream.Request(s.mode, &pb.Path{Target: s.target}, only, paths...))
		go s.serve(srv)
		synctest.Wait()
		r.Count("subscribers", 1)
		judge("subscribe", s)
	}
	// sleep lets time pass; some streams may time out.
	sleep := func(d time.Duration) {
		w.Log = append(w.Log, fmt.Sprintf("sleep %v", d))
		began := time.Now()
		type due struct {
			s  *sub
			at time.Time
		}
		var dues []due
		for _, s := range subs {
			if s.ended {
				continue
			}
			if since, ok := s.stalled(); ok {
				dues = append(dues, due{s, since.Add(timeout)})
			}
		}
		time.Sleep(d)
		synctest.Wait()
		now := began.Add(d)
		for _, x := range dues {
			s := x.s
			s.mu.Lock()
			finished, endedAt := s.finished, s.endedAt
			s.mu.Unlock()
			_, err := s.s.Err()
			switch {
			case now.After(x.at) && !finished:
				fail("timeout", "%v does not end although a send is blocked for %v", s, now.Sub(x.at)+timeout)
				s.ended = true
				s.s.Cancel()
			case now.After(x.at) && err == nil:
				fail("timeout", "%v ends without error after a send was blocked for %v", s, timeout)
				s.ended = true
			case now.After(x.at):
				if !endedAt.Equal(x.at) {
					fail("timeout", "%v ends %v after its send became blocked", s, endedAt.Sub(x.at)+timeout)
				}
				r.Count("timeouts_observed", 1)
				s.ended = true
			case finished && now.Before(x.at):
				fail("early-timeout", "%v ends with %v %v after its send became blocked", s, err, endedAt.Sub(x.at)+timeout)
				s.ended = true
			case finished && now.Equal(x.at):
				s.ended = true
			}
		}
		judge("sleep", nil)
	}
	update := func(n *pb.Notification) {
		before := time.Now()
		w.Submit(n, w.C.GnmiUpdate)
		if d := time.Since(before); d > 0 {
			fail("writer-stalled", "an update of %q takes %v: %s", n.GetPrefix().GetTarget(), d, hist.Text(n))
		}
		for _, s := range subs {
			if _, ok := s.stalled(); ok && !s.ended {
				r.Count("updates_during_stalls", 1)
				break
			}
		}
	}
	pick := func(ok func(*sub) bool) *sub {
		for _, k := range rnd.Perm(len(subs)) {
			if s := subs[k]; !s.ended && ok(s) {
				return s
			}
		}
		return nil
	}
	hot := 0
	r.Guard("history", fmt.Sprintf("history %d", i), func() {
		steps := 20 + rnd.Intn(60)
		for step := 0; step < steps && !r.TooMany(); step++ {
			hist.Clock.Add(1)
			switch k := rnd.Intn(40); {
			case k < 4 && len(subs) < 8:
				start()
				continue
			case k < 8:
				if s := pick(func(s *sub) bool { return !s.held }); s != nil {
					w.Log = append(w.Log, fmt.Sprintf("stall #%d", s.id))
					s.hold()
				}
				continue
			case k < 11:
				if s := pick(func(s *sub) bool { return s.held }); s != nil {
					w.Log = append(w.Log, fmt.Sprintf("resume #%d", s.id))
					s.release()
					synctest.Wait()
					judge("resume", s)
				}
				continue
			case k < 14:
				if s := pick(func(s *sub) bool { return s.held && !s.blocked.IsZero() }); s != nil {
					w.Log = append(w.Log, fmt.Sprintf("one send of #%d", s.id))
					s.step()
					synctest.Wait()
					judge("one send", s)
					r.Count("single_sends", 1)
				}
				continue
			case k < 17:
				d := time.Duration(rnd.Int63n(int64(timeout))) | 1
				switch rnd.Intn(6) {
				case 0:
					d += timeout
				case 1:
					d = timeout*9/10 + 1
				}
				sleep(d)
				continue
			case k == 17:
				if s := pick(func(s *sub) bool { return true }); s != nil && rnd.Intn(3) == 0 {
					w.Log = append(w.Log, fmt.Sprintf("cancel #%d", s.id))
					s.ended = true
					s.s.Cancel()
					synctest.Wait()
					if done, _ := s.s.Err(); !done {
						fail("cancel", "%v does not end when cancelled", s)
					}
					judge("cancel", nil)
				}
				continue
			case k == 18:
				if s := pick(func(s *sub) bool { return s.mode == pb.SubscriptionList_POLL && !s.held }); s != nil {
					w.Log = append(w.Log, fmt.Sprintf("poll #%d", s.id))
					if rnd.Intn(2) == 0 {
						s.hold()
						w.Log = append(w.Log, fmt.Sprintf("stall #%d", s.id))
					}
					snapshot(w, s, false)
					s.s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
					synctest.Wait()
					judge("poll", s)
				}
				continue
			case k == 19:
				w.UpdateMetadata()
			case k < 24:
				// A burst, of one leaf or of many.
				target := targets[rnd.Intn(len(targets))]
				n := 1 + rnd.Intn(40)
				if big {
					n = 500 + rnd.Intn(1500)
				}
				one := rnd.Intn(3) == 0
				del := rnd.Intn(4) == 0
				name := g.Names[rnd.Intn(len(g.Names))]
				for j := 0; j < n; j++ {
					hot++
					p := fakestream.Path(name, "burst", fmt.Sprint("x", j))
					if one {
						p = fakestream.Path(name, "burst", "x0")
					}
					m := &pb.Notification{Timestamp: 2_000_000_000 + int64(hot), Prefix: &pb.Path{Target: target}}
					m.Update = []*pb.Update{{Path: p, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(hot)}}}}
					update(m)
					if del && j%2 == 1 {
						hot++
						update(&pb.Notification{Timestamp: 2_000_000_000 + int64(hot), Prefix: &pb.Path{Target: target}, Delete: []*pb.Path{p}})
					}
				}
				r.Count("burst_updates", n)
			default:
				update(g.Notification(targets[rnd.Intn(len(targets))]))
			}
			synctest.Wait()
			judge("update", nil)
		}
		// Resume the last.
		for _, s := range subs {
			if s.ended || !s.held {
				continue
			}
			w.Log = append(w.Log, fmt.Sprintf("resume #%d", s.id))
			s.release()
			synctest.Wait()
			judge("resume", s)
		}
		for _, t := range targets {
			w.CheckStored(t)
		}
	})
	cancel()
	for _, s := range subs {
		s.release()
	}
	synctest.Wait()
	if n := len(srv.ClientStats()); n > 0 {
		fail("client-stats", "%d subscribers remain in the client statistics after all have ended", n)
	}
	r.Eval(1)
	r.Distinct("h", strings.Join(w.Log, "\n"))
	if i < 2 {
		r.Sample("%s", log())
	}
}

// snapshot makes the content of the cache pending for s.
func snapshot(w *hist.World, s *sub, only bool) {
	ts := []string{s.target}
	if s.target == "*" {
		ts = w.Targets()
	}
	for _, t := range ts {
		if only {
			break
		}
		w.C.Query(t, nil, func(_ []string, l *ctree.Leaf, v any) error {
			n := v.(*pb.Notification)
			if p := hist.LeafIndex(n); s.wants(t, p) {
				key, _ := keyOf(n)
				s.note(l, key, false, hist.ValueOf(n))
			}
			return nil
		})
	}
	s.pending = append(s.pending, &handle{sync: true, left: 1})
}

// concurrent runs stalled and other subscribers along with writers, perturbed.
func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(300))*time.Microsecond)
	defer sched.Off()
	r.Journal("concurrent %d (race build: %v): %s", i, race, how)
	targets := []string{"dev1", "dev2", "dev3"}[:1+rnd.Intn(3)]
	c := cache.New(targets)
	noDup := rnd.Intn(5) == 0
	var opts []subscribe.Option
	if noDup {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	if rnd.Intn(2) == 0 {
		opts = append(opts, subscribe.WithStats())
	}
	srv, err := subscribe.NewServer(c, opts...)
	if err != nil {
		panic(err)
	}
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s (run %d, %s)", fmt.Sprintf(f, a...), i, how)
	}
	// What is announced.
	type ann struct {
		target string
		path   []string
		del    bool
		l      *ctree.Leaf
	}
	var mu sync.Mutex
	var anns []ann
	c.SetClient(func(l *ctree.Leaf) {
		key, del := keyOf(l.Value().(*pb.Notification))
		p := hist.Unkey(key)
		mu.Lock()
		anns = append(anns, ann{p[0], p[1:], del, l})
		mu.Unlock()
		srv.Update(l)
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	await := func(s *sub, what string, cond func() bool) bool {
		for end := time.Now().Add(60 * time.Second); !cond(); time.Sleep(50 * time.Microsecond) {
			if time.Now().After(end) {
				fail("starved", "%v: %s\n%s", s, what, vk.Stacks())
				return false
			}
		}
		return true
	}
	var stamps atomic.Int64
	stamps.Store(1000)
	write := func(wr *rand.Rand, t string) {
		n := &pb.Notification{Timestamp: stamps.Add(1), Prefix: &pb.Path{Target: t}}
		p := []string{string(rune('a' + wr.Intn(3))), string(rune('a' + wr.Intn(4)))}
		switch k := wr.Intn(20); {
		case k < 3:
			n.Delete = []*pb.Path{fakestream.Path(p[:1+wr.Intn(2)]...)}
		default:
			n.Update = []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: n.Timestamp}}}}
		}
		// Another writer may have been faster.
		c.GnmiUpdate(n)
	}
	for _, t := range targets {
		for k := rnd.Intn(10); k > 0; k-- {
			write(rnd, t)
		}
	}
	// Subscribers begin, then some of them are stalled.
	var subs []*sub
	for k := 2 + rnd.Intn(5); k > 0; k-- {
		s := &sub{id: len(subs), target: targets[rnd.Intn(len(targets))], mode: pb.SubscriptionList_STREAM}
		if rnd.Intn(2) == 0 {
			s.target = "*"
		}
		s.qs = [][]string{{}}
		if rnd.Intn(2) == 0 {
			s.qs = [][]string{{string(rune('a' + rnd.Intn(3)))}}
		}
		s.s = fakestream.New(ctx, fmt.Sprint("client", s.id))
		s.s.OnSend = s.onSend
		s.s.Request(fakestream.Request(s.mode, &pb.Path{Target: s.target}, rnd.Intn(3) == 0, fakestream.Path(s.qs[0]...)))
		subs = append(subs, s)
		go s.serve(srv)
		if !await(s, "there is no sync_response", func() bool {
			rs := s.s.Responses(0)
			return len(rs) > 0 && rs[len(rs)-1].GetSyncResponse()
		}) {
			return
		}
		s.mu.Lock()
		s.begun = nil
		s.mu.Unlock()
	}
	mu.Lock()
	anns = nil
	mu.Unlock()
	stallers := map[int]bool{}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for _, s := range subs {
		switch rnd.Intn(4) {
		case 0, 1:
			stallers[s.id] = true
			s.hold()
		case 2:
			// Stalls now and then.
			sr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					s.hold()
					time.Sleep(time.Duration(sr.Intn(300)) * time.Microsecond)
					s.release()
					select {
					case <-stop:
						return
					default:
					}
					time.Sleep(time.Duration(sr.Intn(100)) * time.Microsecond)
				}
			}()
		}
	}
	var writers sync.WaitGroup
	ops := 20 + rnd.Intn(60)
	var inserted atomic.Int64
	for _, t := range targets {
		for k := 1 + rnd.Intn(2); k > 0; k-- {
			wr := rand.New(rand.NewSource(rnd.Int63()))
			writers.Add(1)
			go func() {
				defer writers.Done()
				for k := 0; k < ops; k++ {
					write(wr, t)
					inserted.Add(1)
					if wr.Intn(6) == 0 {
						time.Sleep(time.Duration(wr.Intn(60)) * time.Microsecond)
					}
				}
			}()
		}
	}
	finished := make(chan struct{})
	go func() { writers.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(50 * time.Second):
		fail("writer-stalled", "the writers do not finish while %d of %d subscribers are stalled\n%s", len(stallers), len(subs), vk.Stacks())
		return
	}
	close(stop)
	wg.Wait()
	sched.Off()
	mu.Lock()
	all := anns
	mu.Unlock()
	// finish waits until s has all and judges it.
	finish := func(s *sub) bool {
		t := s.target
		if t == "*" {
			t = targets[0]
		}
		p := append(append([]string(nil), s.qs[0]...), "sentinel", fmt.Sprint(s.id))
		srv.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: t}, Update: []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{}}}}))
		mark := t + "\x1f" + hist.Key(p)
		last := func() bool {
			s.mu.Lock()
			defer s.mu.Unlock()
			for k := len(s.begun) - 1; k >= 0; k-- {
				if n := s.begun[k].m.GetUpdate(); n != nil {
					if key, _ := keyOf(n); key == mark {
						return true
					}
				}
			}
			return false
		}
		if !await(s, "an update is not received", last) {
			return false
		}
		type acc struct{ handles, anns int }
		want := map[string]*acc{}
		seen := map[*ctree.Leaf]bool{}
		for _, a := range all {
			if !s.wants(a.target, a.path) {
				continue
			}
			k := fmt.Sprint(a.del, " ", a.target) + "\x1f" + hist.Key(a.path)
			if want[k] == nil {
				want[k] = &acc{}
			}
			want[k].anns++
			if !seen[a.l] {
				seen[a.l] = true
				want[k].handles++
			}
		}
		got := map[string]*acc{}
		newest := map[string]string{}
		s.mu.Lock()
		begun := s.begun
		s.mu.Unlock()
		for _, b := range begun {
			n := b.m.GetUpdate()
			if n == nil {
				fail("backlog", "%v is sent %v", s, b.m)
				continue
			}
			key, del := keyOf(n)
			if strings.Contains(key, "sentinel") {
				continue
			}
			k := fmt.Sprint(del, " ") + key
			if got[k] == nil {
				got[k] = &acc{}
			}
			got[k].handles++
			got[k].anns++
			for _, u := range n.GetUpdate() {
				got[k].anns += int(u.GetDuplicates())
				r.Count("concurrent_coalesced", int(u.GetDuplicates()))
				newest[key] = hist.ValueOf(n)
			}
			r.Count("concurrent_messages", 1)
		}
		for k, x := range want {
			y := got[k]
			if y == nil {
				y = &acc{}
			}
			// A staller has one send in flight when the rest coalesces.
			switch {
			case !noDup && x.anns != y.anns:
				fail("dup-count", "%v: %d announcements of %q, but the messages with their duplicate counts make %d", s, x.anns, k, y.anns)
			case y.handles < x.handles:
				fail("starved", "%v: only %d messages for %q, which was %d times deleted or announced anew", s, y.handles, k, x.handles)
			case stallers[s.id] && y.handles > x.handles+1:
				fail("backlog", "%v: was stalled all the time, but is sent %d messages for %q, of which there were %d handles", s, y.handles, k, x.handles)
			}
		}
		for k := range got {
			if want[k] == nil {
				fail("backlog", "%v: is sent %q, which was not announced", s, k)
			}
		}
		// The newest value.
		ts := []string{s.target}
		if s.target == "*" {
			ts = targets
		}
		for _, t := range ts {
			c.Query(t, s.qs[0], func(_ []string, _ *ctree.Leaf, v any) error {
				n := v.(*pb.Notification)
				key, _ := keyOf(n)
				if v, ok := newest[key]; ok && v != hist.ValueOf(n) {
					fail("newest", "%v: the last it is sent for %s is %q when the newest is %q", s, hist.Show(key), v, hist.ValueOf(n))
				}
				r.Count("concurrent_newest_checked", 1)
				return nil
			})
		}
		return true
	}
	// The others get all they are due while the stalled ones are blocked.
	for _, s := range subs {
		if !stallers[s.id] && !finish(s) {
			return
		}
	}
	for _, s := range subs {
		if stallers[s.id] {
			if _, ok := s.stalled(); ok {
				r.Count("concurrent_stalls", 1)
			}
			s.release()
			if !finish(s) {
				return
			}
		}
	}
	cancel()
	for _, s := range subs {
		<-s.s.Done()
	}
	r.Eval(1)
	r.Distinct("c", i, race, len(all), len(stallers))
}

// wire runs subscribers over real gRPC, of which one does not read.
func wire(r *vk.Run, i int) {
	rnd := r.Rand("wire", i)
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s (wire run %d)", fmt.Sprintf(f, a...), i)
	}
	c := cache.New([]string{"dev1"})
	timeout := time.Duration(300+rnd.Intn(500)) * time.Millisecond
	srv, err := subscribe.NewServer(c, subscribe.WithTimeout(timeout), subscribe.WithStats())
	if err != nil {
		panic(err)
	}
	c.SetClient(srv.Update)
	lis := bufconn.Listen(1 << 10)
	gs := grpc.NewServer()
	pb.RegisterGNMIServer(gs, srv)
	go gs.Serve(lis)
	defer gs.Stop()
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	dial := func() pb.GNMI_SubscribeClient {
		conn, err := grpc.NewClient("passthrough:///x", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }),
			grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithInitialWindowSize(1<<16), grpc.WithInitialConnWindowSize(1<<16))
		if err != nil {
			panic(err)
		}
		context.AfterFunc(ctx, func() { conn.Close() })
		st, err := pb.NewGNMIClient(conn).Subscribe(ctx)
		if err != nil {
			panic(err)
		}
		if err := st.Send(fakestream.Request(pb.SubscriptionList_STREAM, &pb.Path{Target: "dev1"}, false, &pb.Path{})); err != nil {
			panic(err)
		}
		m, err := st.Recv()
		if err != nil || !m.GetSyncResponse() {
			fail("sync", "a subscriber first receives %v, %v", m, err)
		}
		return st
	}
	stalled, reader := dial(), dial()
	type leaf struct{ val, anns int64 }
	leaves := 50 + rnd.Intn(200)
	rounds := 40 + rnd.Intn(40)
	got := map[string]*leaf{}
	read := make(chan error, 1)
	go func() {
		for {
			m, err := reader.Recv()
			if err != nil {
				read <- err
				return
			}
			u := m.GetUpdate().GetUpdate()[0]
			k := hist.Key(hist.Elems(u.Path))
			if got[k] == nil {
				got[k] = &leaf{}
			}
			got[k].val = int64(len(u.GetVal().GetBytesVal()))
			got[k].anns += 1 + int64(u.Duplicates)
			if k == "end" {
				read <- nil
				return
			}
		}
	}()
	began := time.Now()
	ts := int64(1000)
	send := func(p string, size int) {
		ts++
		v := make([]byte, size)
		if err := c.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: "dev1"}, Update: []*pb.Update{{Path: fakestream.Path(p), Val: &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: v}}}}}); err != nil {
			fail("writer", "%v", err)
		}
	}
	for k := 0; k < rounds; k++ {
		for l := 0; l < leaves; l++ {
			send(fmt.Sprint("x", l), 1000+k)
		}
	}
	took := time.Since(began)
	send("end", 1)
	select {
	case err := <-read:
		if err != nil {
			fail("starved", "the subscriber that reads receives error %v while another is stalled", err)
			return
		}
	case <-time.After(60 * time.Second):
		fail("starved", "a subscriber does not receive all updates while another is stalled\n%s", vk.Stacks())
		return
	}
	for l := 0; l < leaves; l++ {
		x := got[fmt.Sprint("x", l)]
		if x == nil || x.val != int64(1000+rounds-1) || x.anns != int64(rounds) {
			fail("dup-count", "leaf x%d: %+v is received, %d updates were sent", l, x, rounds)
			break
		}
	}
	// The stalled one ends with an error, long after the timeout at the latest;
	// its status is read from the far end of what it did not read.
	time.Sleep(2*timeout + 200*time.Millisecond)
	n := 0
	for {
		_, err := stalled.Recv()
		if err != nil {
			if ctx.Err() != nil {
				fail("timeout", "the stalled subscriber is not ended: %v", err)
			}
			r.Count("wire_timeouts_observed", 1)
			break
		}
		if n++; n > leaves*rounds {
			fail("timeout", "the stalled subscriber receives %d messages and no error", n)
			break
		}
	}
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		st := srv.TypeStats()["stream"]
		if st.ActiveSubscriptionCount == 1 {
			break
		}
		if time.Now().After(end) {
			fail("timeout", "there are %d active subscriptions after the stalled one has ended", st.ActiveSubscriptionCount)
			break
		}
	}
	r.Count("wire_updates", leaves*rounds)
	r.Count("max_wire_write_ms", int(took.Milliseconds()))
	r.Eval(1)
	r.Distinct("w", i, leaves, rounds)
}
