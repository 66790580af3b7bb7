// Package c06 checks property C06: the streaming filter.
package c06

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C06", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		if os.Getenv("VERIF_BUILD") == "race" {
			r.Until(1, 3)
			for i, n := 0, r.N(1500, 20000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Guard("concurrent", fmt.Sprint("run ", i), func() { concurrent(r, i) })
				}
			}
			return
		}
		r.Guard("pairs", "all pairs of paths", func() { pairs(r) })
		r.Until(2, 3)
		for i, n := 0, r.N(40000, 600000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				if i%32 == r.Shard {
					r.Journal("registrations %d", i)
				}
				r.Guard("registrations", fmt.Sprint("history ", i), func() { registrations(r, i) })
			}
		}
		r.Until(3, 3)
		for i, n := 0, r.N(12000, 200000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				r.Journal("server %d", i)
				synctest.Test(t, func(t *testing.T) { server(r, i) })
			}
		}
	})
}

// client counts what it is offered.
type client struct {
	id      int
	n       int
	removed atomic.Bool
	// concurrent use
	mu    sync.Mutex
	got   map[int]int
	after atomic.Int64
}

func (c *client) Update(v any) {
	if c.got != nil {
		if c.removed.Load() {
			c.after.Add(1)
		}
		c.mu.Lock()
		c.got[v.(int)]++
		c.mu.Unlock()
		return
	}
	c.n++
}

// all enumerates the paths up to a length.
func all(names []string, length int) [][]string {
	r := [][]string{{}}
	last := r
	for l := 0; l < length; l++ {
		var next [][]string
		for _, p := range last {
			for _, n := range names {
				next = append(next, append(append([]string(nil), p...), n))
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

// pairs compares all pairs of a subscription path and an update path.
func pairs(r *vk.Run) {
	length := r.N(4, 5)
	names := []string{"a", "b", "*"}
	ps := all(names, length)
	// Each alone.
	for qi, q := range ps {
		if !r.Mine(qi) {
			continue
		}
		r.Journal("pairs with %q", q)
		m := match.New()
		c := &client{}
		remove := m.AddQuery(q, c)
		for _, p := range ps {
			want := hist.Compatible(q, p)
			c.n = 0
			m.Update("x", p)
			if (c.n > 0) != want {
				r.Violation("pair", "subscription %q: update of %q is offered %d times, expected to be: %v", q, p, c.n, want)
			}
			c.n = 0
			up := map[match.Client]struct{}{}
			m.UpdateOnce("x", p, up)
			m.UpdateOnce("x", p, up)
			if n := count(want); c.n != n {
				r.Violation("once", "subscription %q: notification with %q twice is offered %d times, expected %d", q, p, c.n, n)
			}
			r.Count("pairs", 1)
			r.Distinct("pair", q, "|", p)
		}
		// What a query returns is streamed.
		for _, p := range ps {
			if len(p) == 0 || hist.Key(p) != strings.ReplaceAll(hist.Key(p), "*", "") {
				continue
			}
			t := &ctree.Tree{}
			if err := t.Add(p, 1); err != nil {
				panic(err)
			}
			found := false
			t.Query(q, func([]string, *ctree.Leaf, any) error { found = true; return nil })
			if !found {
				continue
			}
			c.n = 0
			m.Update("x", p)
			if c.n == 0 {
				r.Violation("query-not-streamed", "a query of %q returns leaf %q, but its update is not offered", q, p)
			}
			r.Count("queries_contained", 1)
		}
		remove()
		c.n = 0
		for _, p := range ps {
			m.Update("x", p)
		}
		if c.n > 0 {
			r.Violation("after-removal", "subscription %q gets %d updates after its removal", q, c.n)
		}
		r.Eval(len(ps))
	}
	// All registered at once, each client by one path.
	if r.Shard == 0 {
		m := match.New()
		var cs []*client
		for range ps {
			cs = append(cs, &client{})
		}
		var removes []func()
		for i, q := range ps {
			removes = append(removes, m.AddQuery(q, cs[i]))
		}
		gone := make([]bool, len(ps))
		sweep := func() {
			for _, p := range ps {
				for _, c := range cs {
					c.n = 0
				}
				m.UpdateOnce("x", p, map[match.Client]struct{}{})
				for i, q := range ps {
					want := count(hist.Compatible(q, p) && !gone[i])
					if cs[i].n != want {
						r.Violation("pair", "among all subscriptions, %q (removed: %v) is offered update of %q %d times, expected %d", q, gone[i], p, cs[i].n, want)
					}
				}
				r.Count("pairs", len(ps))
			}
		}
		sweep()
		rnd := r.Rand("sweep")
		for k, i := range rnd.Perm(len(ps)) {
			removes[i]()
			gone[i] = true
			if k%12 == 0 || k == len(ps)-1 {
				sweep()
			}
			if r.TooMany() {
				return
			}
		}
	}
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

var alphabet = []string{"a", "b", "c", "*", "x/y", "", "dev", "oc"}

func randPath(rnd *rand.Rand, names []string, n int) []string {
	p := make([]string, rnd.Intn(n+1), n+4)
	for i := range p {
		p[i] = names[rnd.Intn(len(names))]
	}
	return p
}

// registrations runs a history of several clients on one Match.
func registrations(r *vk.Run, i int) {
	rnd := r.Rand("registrations", i)
	m := match.New()
	names := alphabet[:2+rnd.Intn(len(alphabet)-1)]
	depth := 1 + rnd.Intn(5)
	var log []string
	type reg struct {
		c       *client
		q       []string
		removes []func()
	}
	var regs []*reg
	has := func(c *client, q []string) bool {
		for _, g := range regs {
			if g.c == c && hist.Key(g.q) == hist.Key(q) && len(g.q) == len(q) {
				return true
			}
		}
		return false
	}
	var cs []*client
	k := 1 + rnd.Intn(5)
	if rnd.Intn(40) == 0 {
		k += 10 + rnd.Intn(90)
		r.Count("many_clients", 1)
	}
	for ; k > 0; k-- {
		cs = append(cs, &client{id: len(cs)})
	}
	var pool [][]string
	path := func() []string {
		if len(pool) > 0 && rnd.Intn(3) > 0 {
			p := pool[rnd.Intn(len(pool))]
			switch rnd.Intn(4) {
			case 0:
				p = p[:rnd.Intn(len(p)+1)]
			case 1:
				p = append(append([]string(nil), p...), names[rnd.Intn(len(names))])
			case 2:
				if len(p) > 0 {
					p = append([]string(nil), p...)
					p[rnd.Intn(len(p))] = "*"
				}
			}
			return p
		}
		p := randPath(rnd, names, depth)
		pool = append(pool, p)
		return p
	}
	steps := 10 + rnd.Intn(60)
	for s := 0; s < steps && !r.TooMany(); s++ {
		switch k := rnd.Intn(10); {
		case k < 3:
			c, q := cs[rnd.Intn(len(cs))], path()
			if has(c, q) {
				continue
			}
			// The same path twice in one subscription is removed at once.
			g := &reg{c: c, q: append([]string(nil), q...)}
			for n := 1 + rnd.Intn(8)/7; n > 0; n-- {
				g.removes = append(g.removes, m.AddQuery(q, c))
			}
			regs = append(regs, g)
			log = append(log, fmt.Sprintf("AddQuery(%q, client %d)", q, c.id))
		case k < 5 && len(regs) > 0:
			x := rnd.Intn(len(regs))
			g := regs[x]
			regs = append(regs[:x:x], regs[x+1:]...)
			for _, f := range g.removes {
				f()
			}
			if rnd.Intn(4) == 0 {
				g.removes[0]()
			}
			log = append(log, fmt.Sprintf("remove (%q, client %d)", g.q, g.c.id))
		default:
			var ps [][]string
			for n := 1 + rnd.Intn(3); n > 0; n-- {
				ps = append(ps, path())
			}
			for _, c := range cs {
				c.n = 0
			}
			up := map[match.Client]struct{}{}
			for _, p := range ps {
				m.UpdateOnce(s, p, up)
			}
			log = append(log, fmt.Sprintf("UpdateOnce(%q)", ps))
			for _, c := range cs {
				want := 0
				for _, g := range regs {
					for _, p := range ps {
						if g.c == c && hist.Compatible(g.q, p) {
							want = 1
						}
					}
				}
				if c.n != want {
					r.Violation("offer", "client %d is offered the notification %d times, expected %d\n%s", c.id, c.n, want, strings.Join(log, "\n"))
				}
				r.Count("offers_judged", 1)
				r.Count("offers_made", c.n)
			}
		}
	}
	r.Eval(1)
	r.Distinct("reg", strings.Join(log, ";"))
}

// concurrent registers, removes and updates from several goroutines.
func concurrent(r *vk.Run, i int) {
	rnd := r.Rand("concurrent", i)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(200))*time.Microsecond)
	defer sched.Off()
	r.Journal("concurrent %d: %s", i, how)
	m := match.New()
	names := []string{"a", "b", "*"}
	var clock atomic.Int64
	type upd struct {
		call, ret int64
		paths     [][]string
	}
	type life struct {
		c                           *client
		qs                          [][]string
		addRet, remCall, remRet     int64
		addCall                     int64
		neverRemoved, removedByTest bool
	}
	var mu sync.Mutex
	upds := map[int]upd{}
	var lives []*life
	var wg sync.WaitGroup
	for w := 0; w < 2+rnd.Intn(2); w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 30; k++ {
				id := w*1000 + k
				var u upd
				for n := 1 + wr.Intn(2); n > 0; n-- {
					u.paths = append(u.paths, randPath(wr, names, 3))
				}
				up := map[match.Client]struct{}{}
				u.call = clock.Add(1)
				for _, p := range u.paths {
					m.UpdateOnce(id, p, up)
				}
				u.ret = clock.Add(1)
				mu.Lock()
				upds[id] = u
				mu.Unlock()
			}
		}()
	}
	for w := 0; w < 2+rnd.Intn(3); w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 12; k++ {
				l := &life{c: &client{id: w*100 + k, got: map[int]int{}}}
				var rem []func()
				l.addCall = clock.Add(1)
				for n := 1 + wr.Intn(3); n > 0; n-- {
					q := randPath(wr, names, 3)
					l.qs = append(l.qs, q)
					rem = append(rem, m.AddQuery(q, l.c))
				}
				l.addRet = clock.Add(1)
				for n := wr.Intn(4); n > 0; n-- {
					time.Sleep(time.Duration(wr.Intn(60)) * time.Microsecond)
				}
				l.remCall = clock.Add(1)
				for _, f := range rem {
					f()
				}
				l.c.removed.Store(true)
				l.remRet = clock.Add(1)
				mu.Lock()
				lives = append(lives, l)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	offered, sure := 0, 0
	for _, l := range lives {
		if n := l.c.after.Load(); n > 0 {
			r.Violation("after-removal", "client with %q is offered %d updates after its removal (%s)", l.qs, n, how)
		}
		for id, u := range upds {
			want := false
			for _, q := range l.qs {
				for _, p := range u.paths {
					want = want || hist.Compatible(q, p)
				}
			}
			n := l.c.got[id]
			offered += n
			switch {
			case n > 1:
				r.Violation("once", "a notification with %q is offered %d times to a client with %q (%s)", u.paths, n, l.qs, how)
			case n == 1 && !want:
				r.Violation("offer", "a notification with %q is offered to a client with %q (%s)", u.paths, l.qs, how)
			case n == 1 && (u.ret < l.addCall || u.call > l.remRet):
				r.Violation("after-removal", "a notification is offered outside of the life of the subscription (%s)", how)
			case n == 0 && want && u.call > l.addRet && u.ret < l.remCall:
				r.Violation("offer", "a notification with %q is not offered to a client with %q that was registered all the time (%s)", u.paths, l.qs, how)
			}
			if want && u.call > l.addRet && u.ret < l.remCall {
				sure++
			}
		}
	}
	r.Count("concurrent_offers", offered)
	r.Count("concurrent_offers_required", sure)
	r.Eval(1)
	r.Distinct("concurrent", i, offered, sure)
}

// sub is a STREAM subscriber of the server.
type sub struct {
	id     int
	s      *fakestream.Stream
	read   int
	prefix *pb.Path
	paths  []*pb.Path
	// index of the subscriptions, target first
	qs     [][]string
	cancel bool
	ended  bool
	direct *client
	remove func()
}

// subIndex is the index of a subscription, target first.
func subIndex(prefix, p *pb.Path) []string {
	q := []string{prefix.GetTarget()}
	if o := prefix.GetOrigin(); o != "" {
		q = append(q, o)
	} else if o := p.GetOrigin(); o != "" {
		q = append(q, o)
	}
	return append(append(q, hist.Elems(prefix)...), hist.Elems(p)...)
}

// notePaths are the full paths of the updates and deletes of a notification.
func notePaths(n *pb.Notification) [][]string {
	var r [][]string
	for _, u := range n.GetUpdate() {
		r = append(r, append([]string{n.GetPrefix().GetTarget()}, hist.Index(n.GetPrefix(), u.GetPath())...))
	}
	for _, d := range n.GetDelete() {
		r = append(r, append([]string{n.GetPrefix().GetTarget()}, hist.Index(n.GetPrefix(), d)...))
	}
	return r
}

// server runs a history with subscribers of a real server. It is quiescent
// after every operation, so that what each is sent is determined.
func server(r *vk.Run, i int) {
	rnd := r.Rand("server", i)
	g := hist.NewGen(rnd)
	targets := []string{"dev1", "dev2"}[:1+rnd.Intn(2)]
	if rnd.Intn(4) == 0 {
		targets[0] = "a"
	}
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(hist.Config{Targets: targets, EventDriven: rnd.Intn(3) > 0}, func(string, string, ...any) {})
	// Only the violations of this property are reported.
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.Log, "\n  "))
	}
	srv, err := subscribe.NewServer(w.C)
	if err != nil {
		panic(err)
	}
	m := match.New()
	var events []*pb.Notification
	w.OnEvent = func(l *ctree.Leaf) {
		n, ok := l.Value().(*pb.Notification)
		if !ok {
			return
		}
		events = append(events, proto.Clone(n).(*pb.Notification))
		srv.Update(l)
		// The way a server does it.
		subscribe.UpdateNotification(m, l, n, prefixStrings(n.GetPrefix()))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var subs []*sub
	newPath := func() *pb.Path {
		l := rnd.Intn(g.Depth + 2)
		es := make([]string, l)
		for k := range es {
			es[k] = g.Names[rnd.Intn(len(g.Names))]
			if rnd.Intn(4) == 0 {
				es[k] = "*"
			}
		}
		p := &pb.Path{}
		if rnd.Intn(5) == 0 {
			p.Element = es
		} else {
			p = fakestream.Path(es...)
			if l > 1 && rnd.Intn(4) == 0 {
				p.Elem = p.Elem[:l-1]
				p.Elem[l-2].Key = map[string]string{"k": es[l-1]}
			}
		}
		if rnd.Intn(20) == 0 {
			p = nil
		}
		return p
	}
	subscribeOne := func() {
		s := &sub{id: len(subs), prefix: &pb.Path{Target: targets[rnd.Intn(len(targets))]}}
		if rnd.Intn(3) == 0 {
			s.prefix.Target = "*"
		}
		pathOrigin := false
		switch rnd.Intn(6) {
		case 0:
			s.prefix.Origin = "oc"
		case 1:
			pathOrigin = true
		case 2:
			s.prefix.Elem = fakestream.Path(g.Names[rnd.Intn(len(g.Names))]).Elem
		case 3:
			s.prefix.Element = []string{g.Names[rnd.Intn(len(g.Names))], "*"}[:1+rnd.Intn(2)]
		}
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			p := newPath()
			if pathOrigin && p != nil && rnd.Intn(2) == 0 {
				p.Origin = "oc"
			}
			s.paths = append(s.paths, p)
			if rnd.Intn(4) == 0 { // the same once more
				s.paths = append(s.paths, p)
			}
		}
		if len(subs) > 0 && rnd.Intn(3) == 0 { // as another subscriber
			o := subs[rnd.Intn(len(subs))]
			s.prefix, s.paths = o.prefix, o.paths
		}
		for _, p := range s.paths {
			s.qs = append(s.qs, subIndex(s.prefix, p))
		}
		only := rnd.Intn(3) == 0
		w.Log = append(w.Log, fmt.Sprintf("Subscribe #%d: prefix {%v} paths %v updates only %v", s.id, s.prefix, s.paths, only))
		s.s = fakestream.New(ctx, fmt.Sprint("client", s.id))
		s.s.Request(fakestream.Request(pb.SubscriptionList_STREAM, proto.Clone(s.prefix).(*pb.Path), only, s.paths...))
		subs = append(subs, s)
		go s.s.Serve(srv.Subscribe)
		synctest.Wait()
		s.read = len(s.s.Responses(0))
		if done, err := s.s.Err(); done {
			fail("stream-end", "the stream of subscriber #%d ends with %v", s.id, err)
		}
		// A client of its own match for the same paths.
		s.direct = &client{id: s.id}
		var rem []func()
		for _, q := range s.qs {
			rem = append(rem, m.AddQuery(q, s.direct))
		}
		s.remove = func() {
			for _, f := range rem {
				f()
			}
		}
		r.Count("streams", 1)
	}
	r.Guard("server", fmt.Sprintf("history %d", i), func() {
		steps := 10 + rnd.Intn(40)
		for step := 0; step < steps && !r.TooMany(); step++ {
			target := targets[rnd.Intn(len(targets))]
			hist.Clock.Add(1)
			if rnd.Intn(5) == 0 && len(subs) < 8 {
				subscribeOne()
				continue
			}
			if rnd.Intn(12) == 0 && len(subs) > 0 {
				s := subs[rnd.Intn(len(subs))]
				if !s.cancel {
					s.cancel = true
					s.s.Cancel()
					s.remove()
					synctest.Wait()
					if done, _ := s.s.Err(); !done {
						fail("stream-end", "the stream of subscriber #%d does not end after cancellation", s.id)
					}
					s.read = len(s.s.Responses(0))
					w.Log = append(w.Log, fmt.Sprintf("Cancel #%d", s.id))
				}
				continue
			}
			events = nil
			for _, s := range subs {
				s.direct.n = 0
			}
			switch k := rnd.Intn(20); {
			case k == 0:
				w.Reset(target)
			case k == 1:
				w.UpdateMetadata()
			case k == 2:
				w.Sync(target)
			default:
				w.Submit(g.Notification(target), w.C.GnmiUpdate)
			}
			synctest.Wait()
			times := announced(events)
			for _, s := range subs {
				rs := s.s.Responses(s.read)
				s.read += len(rs)
				if s.ended {
					continue
				}
				done, err := s.s.Err()
				if done && !s.cancel {
					fail("stream-end", "the stream of subscriber #%d ends with %v", s.id, err)
					s.ended = true
				}
				var want []string
				for _, e := range events {
					if s.cancel {
						break
					}
					for _, p := range notePaths(e) {
						if matches(s.qs, p) {
							want = append(want, identity(e))
							break
						}
					}
				}
				if s.direct.n != len(want) {
					fail("direct", "a client for the paths of subscriber #%d is offered %d notifications, expected %d (cancelled: %v)", s.id, s.direct.n, len(want), s.cancel)
				}
				var got []string
				for _, m := range rs {
					n := m.GetUpdate()
					if n == nil {
						fail("response", "subscriber #%d receives %v", s.id, m)
						continue
					}
					// A leaf announced several times in one operation may be coalesced.
					for _, u := range n.Update {
						if int(u.Duplicates) > max(0, times[leafID(n)]-1) {
							fail("duplicates", "subscriber #%d, which keeps up, receives a notification with %d duplicates, announced %d times: %s", s.id, u.Duplicates, times[leafID(n)], hist.Text(n))
						}
					}
					got = append(got, identity(n))
				}
				// A leaf that is announced twice in one operation is sent as it
				// is then, once or twice.
				if d := compare(got, want, latest(events)); d != "" {
					fail("stream", "subscriber #%d at %q: %s\nevents:\n  %s\nreceived:\n  %s", s.id, s.qs, d, texts(events), responses(rs))
				}
				r.Count("streamed", len(got))
				r.Count("stream_judged", len(events))
			}
		}
	})
	cancel()
	synctest.Wait()
	r.Eval(1)
	r.Distinct("s", strings.Join(w.Log, "\n"))
	if i < 2 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
}

func prefixStrings(p *pb.Path) []string {
	var r []string
	if p.GetTarget() != "" {
		r = append(r, p.GetTarget())
	}
	if p.GetOrigin() != "" {
		r = append(r, p.GetOrigin())
	}
	return append(r, hist.Elems(p)...)
}

func matches(qs [][]string, p []string) bool {
	for _, q := range qs {
		if hist.Compatible(q, p) {
			return true
		}
	}
	return false
}

// identity identifies a notification up to the way in which its path is
// written: a suppressed update of the same leaf may have replaced it.
func identity(n *pb.Notification) string {
	c := strip(n)
	if !c.Atomic && len(c.Update) == 1 {
		c.Update[0].Path = fakestream.Path(hist.LeafIndex(n)...)
		c.Prefix = &pb.Path{Target: n.GetPrefix().GetTarget()}
	}
	return hist.Bytes(c)
}

func strip(n *pb.Notification) *pb.Notification {
	c := proto.Clone(n).(*pb.Notification)
	for _, u := range c.Update {
		u.Duplicates = 0
	}
	return c
}

func leafID(n *pb.Notification) string {
	return n.GetPrefix().GetTarget() + "\x1f" + hist.Key(hist.LeafIndex(n))
}

// announced counts the announcements of each leaf.
func announced(events []*pb.Notification) map[string]int {
	n := map[string]int{}
	for _, e := range events {
		if len(e.GetUpdate()) > 0 {
			n[leafID(e)]++
		}
	}
	return n
}

// latest tells for the events of one operation which leaves are announced
// more than once: those may be coalesced.
func latest(events []*pb.Notification) map[string]bool {
	n := announced(events)
	r := map[string]bool{}
	for _, e := range events {
		if len(e.GetUpdate()) > 0 && n[leafID(e)] > 1 {
			r[identity(e)] = true
		}
	}
	return r
}

func compare(got, want []string, loose map[string]bool) string {
	filter := func(s []string) []string {
		var r []string
		for _, x := range s {
			if !loose[x] {
				r = append(r, x)
			}
		}
		sort.Strings(r)
		return r
	}
	g, w := filter(got), filter(want)
	if len(g) != len(w) {
		return fmt.Sprintf("%d notifications are streamed, expected %d", len(g), len(w))
	}
	for i := range g {
		if g[i] != w[i] {
			return "other notifications than expected are streamed"
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d notifications are streamed, expected at most %d", len(got), len(want))
	}
	return ""
}

func texts(ns []*pb.Notification) string {
	var s []string
	for _, n := range ns {
		s = append(s, hist.Text(n))
	}
	return strings.Join(s, "\n  ")
}

func responses(rs []*pb.SubscribeResponse) string {
	var s []string
	for _, m := range rs {
		s = append(s, hist.Text(m.GetUpdate()))
	}
	return strings.Join(s, "\n  ")
}
