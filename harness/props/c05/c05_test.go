// Package c05 checks property C05: ONCE and POLL return exactly the matching
// snapshot, then sync.
package c05

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C05", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			r.Until(1, 2)
			for i, n := 0, r.N(6000, 150000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("static %d", i)
					synctest.Test(t, func(t *testing.T) { static(r, i) })
				}
			}
		}
		n := r.N(3000, 60000)
		if race {
			n = r.N(800, 15000)
		}
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
	})
}

// query is a subscription list and its meaning.
type query struct {
	prefix *pb.Path
	paths  []*pb.Path
	qs     [][]string
}

func (q *query) String() string { return fmt.Sprintf("prefix {%v} paths %v", q.prefix, q.paths) }

func (q *query) request(mode pb.SubscriptionList_Mode) *pb.SubscribeRequest {
	return fakestream.Request(mode, proto.Clone(q.prefix).(*pb.Path), false, q.paths...)
}

func (q *query) matches(p []string) bool {
	for _, x := range q.qs {
		if hist.QueryMatches(x, p) {
			return true
		}
	}
	return false
}

// newQuery makes a random subscription list that conflicts in no origin.
// Elements come from known leaf paths or names.
func newQuery(rnd *rand.Rand, target string, origins, names []string, known [][]string, depth int) *query {
	q := &query{prefix: &pb.Path{Target: target}}
	shape := rnd.Intn(6)
	n := 1 + rnd.Intn(4)
	if rnd.Intn(30) == 0 {
		n = 0
	}
	var pre []string
	origin := ""
	if shape == 0 || shape == 1 {
		origin = origins[rnd.Intn(len(origins))]
		q.prefix.Origin = origin
	}
	if shape == 1 || shape == 2 {
		pre = elems(rnd, names, known, 1+rnd.Intn(2), 0, origin)
		setElems(rnd, q.prefix, pre)
	}
	for ; n > 0; n-- {
		var p *pb.Path
		o := ""
		if shape >= 4 {
			o = origins[rnd.Intn(len(origins))]
		}
		es := elems(rnd, names, known, rnd.Intn(depth+2), len(pre), origin+o)
		p = &pb.Path{Origin: o}
		setElems(rnd, p, es)
		if len(es) == 0 && o == "" && rnd.Intn(2) == 0 {
			p = nil
		}
		var full []string
		if origin+o != "" {
			full = append(full, origin+o)
		}
		full = append(append(full, pre...), es...)
		q.paths = append(q.paths, p)
		q.qs = append(q.qs, full)
		if c := hist.Confuse(rnd, es); c != nil && rnd.Intn(5) == 0 {
			// Another path that looks the same.
			p2 := &pb.Path{Origin: o, Elem: fakestream.Path(c...).Elem}
			full2 := append(append([]string(nil), full[:len(full)-len(es)]...), c...)
			q.paths = append(q.paths, p2)
			q.qs = append(q.qs, full2)
			if k := len(q.qs); rnd.Intn(2) == 0 {
				q.paths[k-1], q.paths[k-2] = q.paths[k-2], q.paths[k-1]
				q.qs[k-1], q.qs[k-2] = q.qs[k-2], q.qs[k-1]
			}
		}
		if rnd.Intn(8) == 0 { // once more
			q.paths = append(q.paths, p)
			q.qs = append(q.qs, full)
		}
	}
	return q
}

// elems makes n query elements, often along a known path.
func elems(rnd *rand.Rand, names []string, known [][]string, n, skip int, origin string) []string {
	var base []string
	if len(known) > 0 && rnd.Intn(4) > 0 {
		base = known[rnd.Intn(len(known))]
		if origin != "" && len(base) > 0 && base[0] == origin {
			skip++
		}
		base = base[min(skip, len(base)):]
		if rnd.Intn(2) == 0 {
			n = len(base) - rnd.Intn(2)
		}
	}
	var r []string
	for i := 0; i < n; i++ {
		e := names[rnd.Intn(len(names))]
		if i < len(base) {
			e = base[i]
		}
		if rnd.Intn(4) == 0 {
			e = "*"
		}
		r = append(r, e)
	}
	return r
}

func setElems(rnd *rand.Rand, p *pb.Path, es []string) {
	if rnd.Intn(5) == 0 {
		p.Element = es
		return
	}
	for i := 0; i < len(es); i++ {
		e := &pb.PathElem{Name: es[i]}
		if i+1 < len(es) && rnd.Intn(4) == 0 {
			e.Key = map[string]string{"k": es[i+1]}
			if i+2 < len(es) && rnd.Intn(2) == 0 {
				e.Key["l"] = es[i+2]
				i++
			}
			i++
		}
		p.Elem = append(p.Elem, e)
	}
}

// strip returns n without duplicate counts.
func strip(n *pb.Notification) *pb.Notification {
	c := proto.Clone(n).(*pb.Notification)
	for _, u := range c.Update {
		u.Duplicates = 0
	}
	return c
}

// static polls and queries a cache that changes only in between.
func static(r *vk.Run, i int) {
	rnd := r.Rand("static", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2", "oc"}[:1+rnd.Intn(3)]...)
	if rnd.Intn(4) == 0 {
		targets[0] = "a"
	}
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(hist.Config{Targets: targets, EventDriven: rnd.Intn(2) == 0}, func(string, string, ...any) {})
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.Log, "\n  "))
	}
	var opts []subscribe.Option
	if rnd.Intn(3) == 0 {
		opts = append(opts, subscribe.WithStats())
	}
	if rnd.Intn(3) == 0 {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	srv, err := subscribe.NewServer(w.C, opts...)
	if err != nil {
		panic(err)
	}
	w.OnEvent = func(l *ctree.Leaf) { srv.Update(l) }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type poller struct {
		q    *query
		s    *fakestream.Stream
		read int
		id   int
	}
	var polls []*poller
	ids := 0
	names := append(append([]string{"meta", "sync", "dev1"}, g.Names...), "a")
	expect := func(q *query) (map[string]*pb.Notification, [][]string) {
		want := map[string]*pb.Notification{}
		var known [][]string
		for _, t := range targets {
			all := stored(w.C, t)
			for k, n := range all {
				known = append(known, hist.Unkey(k))
				if q != nil && (q.prefix.Target == "*" || q.prefix.Target == t) && q.matches(hist.Unkey(k)) {
					want[t+"\x1f"+k] = n
				}
			}
		}
		sort.Slice(known, func(i, j int) bool { return hist.Key(known[i]) < hist.Key(known[j]) })
		return want, known
	}
	judge := func(what string, q *query, rs []*pb.SubscribeResponse) {
		want, _ := expect(q)
		got := map[string]bool{}
		for k, m := range rs {
			if m.GetSyncResponse() {
				if k != len(rs)-1 {
					fail("sync", "%s at %v: response %d of %d is a sync_response", what, q, k+1, len(rs))
				}
				continue
			}
			n := m.GetUpdate()
			if k == len(rs)-1 {
				fail("sync", "%s at %v: the last response is %v, no sync_response", what, q, hist.Text(n))
			}
			if n == nil || len(n.Update) == 0 || len(n.Delete) > 0 {
				fail("response", "%s at %v: response %v", what, q, m)
				continue
			}
			id := n.GetPrefix().GetTarget() + "\x1f" + hist.Key(hist.LeafIndex(n))
			x, ok := want[id]
			switch {
			case !ok:
				fail("extra", "%s at %v: %s is no matching leaf", what, q, hist.Text(n))
			case !proto.Equal(x, strip(n)):
				fail("value", "%s at %v: received\n  %s\nthe leaf is\n  %s", what, q, hist.Text(n), hist.Text(x))
			}
			got[id] = true
		}
		if len(rs) == 0 {
			fail("sync", "%s at %v: there is no response", what, q)
		}
		for id, n := range want {
			if !got[id] {
				fail("missing", "%s at %v: %s is not returned", what, q, hist.Text(n))
			}
		}
		r.Count("leaves_returned", len(got))
		r.Count("snapshots_judged", 1)
		if len(got) > 0 {
			r.Count("snapshots_with_leaves", 1)
		}
	}
	run := func() {
		steps := 10 + rnd.Intn(30)
		if rnd.Intn(60) == 0 {
			// A large content.
			steps /= 2
			for k := 2 + rnd.Intn(30); k > 0; k-- {
				n := &pb.Notification{Timestamp: hist.Clock.Add(1), Prefix: &pb.Path{Target: targets[rnd.Intn(len(targets))]}}
				for j := range 100 {
					n.Update = append(n.Update, &pb.Update{Path: fakestream.Path(g.Names[rnd.Intn(len(g.Names))]+"+", fmt.Sprint("k", k), fmt.Sprint("n", j)), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(j)}}})
				}
				w.Submit(n, w.C.GnmiUpdate)
			}
			r.Count("large_contents", 1)
		}
		for step := 0; step < steps && !r.TooMany(); step++ {
			hist.Clock.Add(1)
			for k := rnd.Intn(5); k > 0; k-- {
				target := targets[rnd.Intn(len(targets))]
				switch x := rnd.Intn(40); {
				case x == 0:
					w.Reset(target)
				case x == 1:
					w.UpdateMetadata()
				case x == 2:
					w.Sync(target)
				default:
					w.Submit(g.Notification(target), w.C.GnmiUpdate)
				}
			}
			synctest.Wait()
			for _, p := range polls {
				if rs := p.s.Responses(p.read); len(rs) > 0 {
					fail("unasked", "poll stream %d at %v receives %v without a trigger", p.id, p.q, rs[0])
					p.read += len(rs)
				}
			}
			fresh := func() *query {
				_, known := expect(nil)
				target := targets[rnd.Intn(len(targets))]
				if rnd.Intn(3) == 0 {
					target = "*"
				}
				return newQuery(rnd, target, g.Origins, names, known, g.Depth)
			}
			switch k := rnd.Intn(10); {
			case k < 5:
				ids++
				q := fresh()
				w.Log = append(w.Log, fmt.Sprintf("ONCE #%d %v", ids, q))
				s := fakestream.New(ctx, fmt.Sprint("once", ids))
				s.Request(q.request(pb.SubscriptionList_ONCE))
				if rnd.Intn(2) == 0 {
					s.CloseSend()
				}
				if rnd.Intn(4) == 0 { // slow
					s.OnSend = func(*pb.SubscribeResponse) error { time.Sleep(time.Second); return nil }
				}
				go s.Serve(srv.Subscribe)
				time.Sleep(time.Hour)
				synctest.Wait()
				judge("ONCE", q, s.Responses(0))
				if done, err := s.Err(); !done || err != nil {
					fail("end", "ONCE at %v: the stream has ended: %v, error: %v", q, done, err)
				}
				r.Count("once", 1)
			case k < 6 && len(polls) < 4:
				ids++
				p := &poller{q: fresh(), id: ids}
				w.Log = append(w.Log, fmt.Sprintf("POLL #%d %v", ids, p.q))
				p.s = fakestream.New(ctx, fmt.Sprint("poll", ids))
				p.s.Request(p.q.request(pb.SubscriptionList_POLL))
				if rnd.Intn(4) == 0 { // slow
					p.s.OnSend = func(*pb.SubscribeResponse) error { time.Sleep(time.Second); return nil }
				}
				go p.s.Serve(srv.Subscribe)
				time.Sleep(time.Hour)
				synctest.Wait()
				rs := p.s.Responses(0)
				p.read = len(rs)
				judge(fmt.Sprintf("POLL #%d", p.id), p.q, rs)
				polls = append(polls, p)
			case len(polls) > 0:
				p := polls[rnd.Intn(len(polls))]
				w.Log = append(w.Log, fmt.Sprintf("trigger #%d", p.id))
				p.s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
				time.Sleep(time.Hour)
				synctest.Wait()
				rs := p.s.Responses(p.read)
				p.read += len(rs)
				judge(fmt.Sprintf("poll trigger of #%d", p.id), p.q, rs)
				if done, err := p.s.Err(); done {
					fail("end", "POLL #%d at %v ends with %v", p.id, p.q, err)
				}
				r.Count("polls", 1)
			}
		}
	}
	r.Guard("static", fmt.Sprintf("history %d", i), run)
	cancel()
	synctest.Wait()
	r.Eval(1)
	r.Distinct("s", strings.Join(w.Log, "\n"))
	if i < 2 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
}

// stored reads what the cache holds for a target, by leaf.
func stored(c *cache.Cache, target string) map[string]*pb.Notification {
	r := map[string]*pb.Notification{}
	c.Query(target, nil, func(_ []string, _ *ctree.Leaf, v any) error {
		n := v.(*pb.Notification)
		r[hist.Key(hist.LeafIndex(n))] = n
		return nil
	})
	return r
}

// version is a state of a leaf during [from, to]: it may have begun at any
// time in [from, sure] and ended at any time in [endFrom, to].
type version struct {
	value         string // "" if absent
	from, sure    int64
	endFrom, endT int64
}

const never = int64(1) << 62

// concurrent runs writers, one per target, along with ONCE and POLL streams.
func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(300))*time.Microsecond)
	defer sched.Off()
	r.Journal("concurrent %d: %s", i, how)
	targets := []string{"dev1", "dev2", "dev3"}[:1+rnd.Intn(3)]
	c := cache.New(targets)
	srv, err := subscribe.NewServer(c)
	if err != nil {
		panic(err)
	}
	c.SetClient(srv.Update)
	var clock atomic.Int64
	names := hist.Alphabet(rnd, 2+rnd.Intn(2), "a", "b", "c")
	var leaves [][]string
	for _, x := range names {
		for _, y := range names {
			leaves = append(leaves, []string{x, y, "v"}, []string{x, y, "w"})
		}
		leaves = append(leaves, []string{"oc", x, "g"}) // an atomic group below an origin
	}
	type leafID struct{ target, path string }
	hists := map[string]map[string][]version{} // target, path
	for _, t := range targets {
		hists[t] = map[string][]version{}
		for _, l := range leaves {
			hists[t][hist.Key(l)] = []version{{value: "", endFrom: never, endT: never}}
		}
	}
	var writers, readers sync.WaitGroup
	stop := make(chan struct{})
	ops := 20 + rnd.Intn(60)
	var values atomic.Int64
	for _, t := range targets {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		h := hists[t]
		ts := int64(1000)
		write := func() {
			ts++
			var n *pb.Notification
			changes := map[string]string{}
			reset := false
			l := leaves[wr.Intn(len(leaves))]
			atomicGroup := l[0] == "oc"
			val := func() *pb.TypedValue {
				return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: values.Add(1)}}
			}
			switch k := wr.Intn(20); {
			case k < 12 && atomicGroup:
				n = &pb.Notification{Prefix: &pb.Path{Target: t, Origin: "oc", Elem: fakestream.Path(l[1:]...).Elem}, Atomic: true}
				for m := 1 + wr.Intn(3); m > 0; m-- {
					n.Update = append(n.Update, &pb.Update{Path: fakestream.Path(fmt.Sprint("m", m)), Val: val()})
				}
				changes[hist.Key(l)] = hist.ValueOf(n)
			case k < 12:
				n = &pb.Notification{Prefix: &pb.Path{Target: t}}
				u := &pb.Update{Path: fakestream.Path(l...), Val: val()}
				n.Update = append(n.Update, u)
				changes[hist.Key(l)] = "v" + hist.Bytes(u.Val)
				for m := wr.Intn(3); m > 0; m-- {
					l := leaves[wr.Intn(len(leaves))]
					if l[0] == "oc" {
						continue
					}
					if _, ok := changes[hist.Key(l)]; ok {
						continue
					}
					u := &pb.Update{Path: fakestream.Path(l...), Val: val()}
					n.Update = append(n.Update, u)
					changes[hist.Key(l)] = "v" + hist.Bytes(u.Val)
				}
			case k < 19:
				q := append([]string(nil), l[:1+wr.Intn(len(l))]...)
				if wr.Intn(2) == 0 {
					q[wr.Intn(len(q))] = "*"
				}
				n = &pb.Notification{Prefix: &pb.Path{Target: t}, Delete: []*pb.Path{fakestream.Path(q...)}}
				for _, l := range leaves {
					if hist.QueryMatches(q, l) {
						changes[hist.Key(l)] = ""
					}
				}
			default:
				reset = true
				for _, l := range leaves {
					changes[hist.Key(l)] = ""
				}
			}
			call := clock.Add(1)
			if reset {
				c.Reset(t)
			} else {
				n.Timestamp = ts
				if err := c.GnmiUpdate(n); err != nil {
					panic(fmt.Sprint(n, err))
				}
			}
			ret := clock.Add(1)
			for k, v := range changes {
				vs := h[k]
				last := &vs[len(vs)-1]
				if last.value == "" && v == "" {
					continue
				}
				last.endFrom, last.endT = call, ret
				h[k] = append(vs, version{value: v, from: call, sure: ret, endFrom: never, endT: never})
			}
		}
		// The first half is there beforehand.
		for k := wr.Intn(ops); k > 0; k-- {
			write()
		}
		writers.Add(1)
		go func() {
			defer writers.Done()
			for k := 0; k < ops; k++ {
				write()
				select {
				case <-stop:
					return
				default:
				}
				if wr.Intn(3) == 0 {
					time.Sleep(time.Duration(wr.Intn(100)) * time.Microsecond)
				}
			}
		}()
	}
	type call struct {
		what   string
		q      *query
		t0, t1 int64
		rs     []*pb.SubscribeResponse
	}
	var mu sync.Mutex
	var calls []call
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for k := 0; k < 2+rnd.Intn(3); k++ {
		rr := rand.New(rand.NewSource(rnd.Int63()))
		readers.Add(1)
		go func() {
			defer readers.Done()
			for m := 0; m < 4; m++ {
				target := targets[rr.Intn(len(targets))]
				if rr.Intn(2) == 0 {
					target = "*"
				}
				q := newQuery(rr, target, []string{"", "oc"}, append([]string{"v"}, names...), leaves, 3)
				s := fakestream.New(ctx, fmt.Sprint("reader", k))
				slow := rr.Intn(3) == 0
				var pause [64]time.Duration
				for x := range pause {
					pause[x] = time.Duration(rr.Intn(100)) * time.Microsecond
				}
				syncs := make(chan int64, 100)
				sends := 0
				s.OnSend = func(m *pb.SubscribeResponse) error {
					if sends++; slow {
						time.Sleep(pause[sends%len(pause)])
					}
					if m.GetSyncResponse() {
						syncs <- clock.Add(1)
					}
					return nil
				}
				mode, triggers := pb.SubscriptionList_ONCE, 0
				if rr.Intn(2) == 0 {
					mode, triggers = pb.SubscriptionList_POLL, 1+rr.Intn(3)
				}
				t0 := clock.Add(1)
				s.Request(q.request(mode))
				go s.Serve(srv.Subscribe)
				read := 0
				for x := 0; x <= triggers; x++ {
					if x > 0 {
						t0 = clock.Add(1)
						s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
					}
					what := fmt.Sprintf("%v, trigger %d", mode, x)
					select {
					case t1 := <-syncs:
						// The sync is recorded right after.
						var rs []*pb.SubscribeResponse
						for {
							rs = s.Responses(read)
							if len(rs) > 0 && rs[len(rs)-1].GetSyncResponse() {
								break
							}
							if len(rs) > 0 && containsSync(rs) {
								break
							}
							time.Sleep(20 * time.Microsecond)
						}
						read += len(rs)
						mu.Lock()
						calls = append(calls, call{what, q, t0, t1, rs})
						mu.Unlock()
					case <-time.After(60 * time.Second):
						r.Violation("sync", "%s at %v: no sync_response after 60 s (%s)\n%s", what, q, how, vk.Stacks())
						return
					}
				}
				if mode == pb.SubscriptionList_POLL {
					s.CloseSend()
				}
				select {
				case <-s.Done():
				case <-time.After(60 * time.Second):
					r.Violation("end", "%v at %v: the stream does not end (%s)\n%s", mode, q, how, vk.Stacks())
					return
				}
				if _, err := s.Err(); mode == pb.SubscriptionList_ONCE && err != nil {
					r.Violation("end", "%v at %v: the stream ends with %v (%s)", mode, q, err, how)
				}
				if rs := s.Responses(read); len(rs) > 0 {
					r.Violation("sync", "%v at %v: %v comes after the sync_response (%s)", mode, q, rs[0], how)
				}
			}
		}()
	}
	readers.Wait()
	close(stop)
	writers.Wait()
	required, overlapping := 0, 0
	for _, cl := range calls {
		got := map[leafID][]string{}
		for k, m := range cl.rs {
			if m.GetSyncResponse() != (k == len(cl.rs)-1) {
				r.Violation("sync", "%s at %v: response %d of %d is %v (%s)", cl.what, cl.q, k+1, len(cl.rs), m, how)
				continue
			}
			if m.GetSyncResponse() {
				continue
			}
			n := m.GetUpdate()
			if n == nil || len(n.Update) == 0 || len(n.Delete) > 0 {
				r.Violation("response", "%s at %v: response %v (%s)", cl.what, cl.q, m, how)
				continue
			}
			p := hist.LeafIndex(n)
			t := n.GetPrefix().GetTarget()
			if !cl.q.matches(p) || cl.q.prefix.Target != "*" && cl.q.prefix.Target != t {
				r.Violation("extra", "%s at %v: %s does not match (%s)", cl.what, cl.q, hist.Text(n), how)
			}
			if hist.IsMeta(p) {
				continue
			}
			id := leafID{t, hist.Key(p)}
			v := hist.ValueOf(strip(n))
			got[id] = append(got[id], v)
			ok := false
			for _, x := range hists[t][id.path] {
				ok = ok || x.value == v && x.from <= cl.t1 && x.endT >= cl.t0
			}
			if !ok {
				r.Violation("value", "%s at %v: %s was no value of the leaf during the call [%d, %d]; the leaf was %s (%s)", cl.what, cl.q, hist.Text(n), cl.t0, cl.t1, versions(hists[t][id.path]), how)
			}
		}
		for _, t := range targets {
			if cl.q.prefix.Target != "*" && cl.q.prefix.Target != t {
				continue
			}
			for _, l := range leaves {
				if !cl.q.matches(l) {
					continue
				}
				k := hist.Key(l)
				if present(hists[t][k], cl.t0, cl.t1) {
					required++
					if len(got[leafID{t, k}]) == 0 {
						r.Violation("missing", "%s at %v: leaf %s of %s was there during the whole call [%d, %d], but is not returned; it was %s (%s)", cl.what, cl.q, hist.Show(k), t, cl.t0, cl.t1, versions(hists[t][k]), how)
					}
				}
				for _, x := range hists[t][k] {
					if x.from > cl.t0 && x.from < cl.t1 {
						overlapping++
					}
				}
			}
		}
	}
	r.Count("concurrent_calls", len(calls))
	r.Count("concurrent_leaves_required", required)
	r.Count("concurrent_changes_during_calls", overlapping)
	r.Eval(1)
	r.Distinct("c", i, race, required, overlapping, len(calls))
}

func containsSync(rs []*pb.SubscribeResponse) bool {
	for _, m := range rs {
		if m.GetSyncResponse() {
			return true
		}
	}
	return false
}

// present reports whether the leaf was there during all of [t0, t1].
func present(vs []version, t0, t1 int64) bool {
	for _, v := range vs {
		// An absent state that may have been in effect at some time in between.
		if v.value == "" && v.from <= t1 && v.endT >= t0 {
			return false
		}
	}
	return true
}

func versions(vs []version) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprintf("%q from [%d,%d] to [%d,%d]", v.value, v.from, v.sure, v.endFrom, v.endT))
	}
	return strings.Join(s, ", ")
}
