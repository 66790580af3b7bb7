// Package c03 checks property C03: the change feed reproduces the cache.
package c03

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"

	"verifharness/hist"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C03", func(t *testing.T, r *vk.Run) {
		n := r.N(12000, 300000)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				random(r, i)
			}
		}
	})
}

// twin is a second cache that gets every notification split into single
// updates and deletes.
type twin struct {
	c    *cache.Cache
	feed []string
}

// isMeta reports whether an event is about metadata, whose refresh depends on
// the order of maps.
func isMeta(n *pb.Notification) bool {
	for _, u := range n.Update {
		if hist.IsMeta(hist.Index(n.Prefix, u.Path)) {
			return true
		}
	}
	for _, d := range n.Delete {
		if hist.IsMeta(hist.Index(n.Prefix, d)) {
			return true
		}
	}
	return false
}

func newTwin(cfg hist.Config) *twin {
	opts := append([]cache.Option(nil), cfg.Options...)
	if !cfg.EventDriven {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if cfg.Threshold > 0 {
		opts = append(opts, cache.WithFutureThreshold(cfg.Threshold))
	}
	t := &twin{c: cache.New(cfg.Targets, opts...)}
	t.c.SetClient(func(l *ctree.Leaf) {
		if n := l.Value().(*pb.Notification); !isMeta(n) {
			t.feed = append(t.feed, hist.Bytes(n))
		}
	})
	return t
}

func (t *twin) submit(n *pb.Notification) (errs int) {
	one := func(m *pb.Notification) {
		if t.c.GnmiUpdate(m) != nil {
			errs++
		}
	}
	if n.Atomic || len(n.Update)+len(n.Delete) == 0 {
		one(proto.Clone(n).(*pb.Notification))
		return errs
	}
	for _, u := range n.Update {
		m := proto.Clone(&pb.Notification{Timestamp: n.Timestamp, Prefix: n.Prefix, Update: []*pb.Update{u}}).(*pb.Notification)
		one(m)
	}
	for _, d := range n.Delete {
		m := proto.Clone(&pb.Notification{Timestamp: n.Timestamp, Prefix: n.Prefix, Delete: []*pb.Path{d}}).(*pb.Notification)
		one(m)
	}
	return errs
}

func (t *twin) snapshot(target string) map[string]string {
	res := map[string]string{}
	t.c.Query(target, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
		if !hist.IsMeta(p) {
			res[hist.Key(p)] = hist.Bytes(v.(*pb.Notification))
		}
		return nil
	})
	return res
}

func random(r *vk.Run, i int) {
	rnd := r.Rand("random", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2", "dev3"}[:1+rnd.Intn(3)]...)
	cfg := hist.Config{Targets: targets, EventDriven: rnd.Intn(3) > 0}
	if rnd.Intn(4) == 0 {
		cfg.Threshold = time.Duration(1 + rnd.Intn(5))
		g.Far = int64(cfg.Threshold) + 1
	}
	g.Share = []int{30, 60, 95}[rnd.Intn(3)]
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(cfg, r.Violation)
	tw := newTwin(cfg)
	r.Journal("random history %d", i)
	alive := map[string]bool{}
	for _, t := range targets {
		alive[t] = true
	}
	r.Guard("random", fmt.Sprintf("random history %d", i), func() {
		steps := 10 + rnd.Intn(50)
		for s := 0; s < steps && !r.TooMany(); s++ {
			target := targets[rnd.Intn(len(targets))]
			if rnd.Intn(3) == 0 {
				hist.Clock.Store(g.Base + rnd.Int63n(g.Span+3))
			} else if rnd.Intn(10) == 0 {
				hist.Clock.Store(g.Base - rnd.Int63n(g.Span+3))
			}
			tw.feed = nil
			switch k := rnd.Intn(40); {
			case k == 0:
				w.Reset(target)
				tw.c.Reset(target)
			case k == 1:
				w.Sync(target)
				tw.c.Sync(target)
			case k == 2:
				w.Connect(target)
				tw.c.Connect(target)
			case k == 3:
				w.ConnectError(target, fmt.Sprint("error ", s))
				tw.c.ConnectError(target, fmt.Errorf("error %d", s))
			case k < 6:
				w.UpdateMetadata()
				tw.c.UpdateMetadata()
			case k == 6:
				w.UpdateSize()
				tw.c.UpdateSize()
			case k == 7 && rnd.Intn(2) == 0:
				if alive[target] {
					w.Remove(target)
					tw.c.Remove(target)
				} else {
					w.Add(target)
					tw.c.Add(target)
				}
				alive[target] = !alive[target]
			default:
				n := g.Notification(target)
				c := proto.Clone(n).(*pb.Notification)
				res := w.Submit(n, w.C.GnmiUpdate)
				te := tw.submit(c)
				if te == 0 != (res.Err == nil) {
					w.Fail("one-at-a-time", "%s returns %v, but %d of its parts fail one at a time", hist.Text(c), res.Err, te)
				}
				var got []string
				for _, e := range res.Events {
					if !isMeta(e.N) {
						got = append(got, hist.Bytes(e.N))
					}
				}
				want := append([]string(nil), tw.feed...)
				if c.Atomic || len(c.Delete) > 0 {
					sort.Strings(got)
					sort.Strings(want)
				}
				if strings.Join(got, "|") != strings.Join(want, "|") {
					w.Fail("one-at-a-time", "%s gives events %q, but one at a time %q", hist.Text(c), got, want)
				}
				if len(c.Update)+len(c.Delete) > 1 && !c.Atomic {
					r.Count("multi", 1)
				}
				if c.Atomic {
					r.Count("atomic", 1)
				}
			}
			for _, t := range targets {
				if !alive[t] {
					if len(w.View[t]) != 0 {
						w.Fail("replay", "target %q was removed, but the replayed feed holds %v", t, w.View[t])
					}
					continue
				}
				w.CheckView(t)
				_, data := w.Snapshot(t)
				got := map[string]string{}
				for k, n := range data {
					got[k] = hist.Bytes(n)
				}
				if d := hist.Diff(got, tw.snapshot(t)); d != "" {
					w.Fail("one-at-a-time", "target %q differs from a cache that gets the updates and deletes one at a time: %s", t, d)
				}
				r.Count("replays_compared", 1)
				r.Count("leaves_compared", len(got))
			}
			r.Count("operations", 1)
		}
		w.CheckIntact()
	})
	r.Eval(1)
	r.Distinct("r", strings.Join(w.Log, "\n"))
	if i < 3 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
	for k, v := range w.Obs {
		r.Count(k, v)
	}
}
