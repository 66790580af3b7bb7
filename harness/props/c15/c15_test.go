// Package c15 checks property C15: per-target counters and latency statistics
// are truthful.
package c15

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/verifsched"

	"verifharness/hist"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	latency.Now = func() time.Time { return time.Unix(0, hist.Clock.Load()) }
	vk.Main(t, "C15", func(t *testing.T, r *vk.Run) {
		if os.Getenv("VERIF_BUILD") == "race" {
			n := r.N(160, 4000)
			for i := 0; i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					concurrent(r, i)
				}
			}
			return
		}
		n := r.N(8000, 200000)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				sequential(r, i)
				windows(r, i)
			}
		}
	})
}

// latModel is what was observed for the latency windows: samples by the
// refresh that closed their interval.
type latModel struct {
	open     []int64 // latencies since the last refresh
	openSure bool
	slots    []latSlot
}

type latSlot struct {
	end  int64
	lat  []int64
	sure bool
}

// refresh closes the interval at now.
func (m *latModel) refresh(now int64) {
	if len(m.open) > 0 {
		m.slots = append(m.slots, latSlot{now, m.open, m.openSure})
		m.open, m.openSure = nil, false
	}
}

// bounds returns the extreme latencies observed in the window of the given
// size that ends now.
func (m *latModel) bounds(now, size int64) (min, max int64, ok bool) {
	for _, s := range m.slots {
		if s.end <= now-size {
			continue
		}
		for _, l := range s.lat {
			if !ok || l < min {
				min = l
			}
			if !ok || l > max {
				max = l
			}
			ok = true
		}
	}
	return min, max, ok
}

// sure reports whether a latency that must have been recorded is in the window.
func (m *latModel) sure(now, size int64) bool {
	for _, s := range m.slots {
		if s.end > now-size && s.sure {
			return true
		}
	}
	return false
}

func checkStats(fail func(kind, f string, a ...any), r *vk.Run, m *latModel, now int64, size time.Duration, precision int64, exact bool, get func(latency.StatType) (int64, bool)) {
	lo, hi, ok := m.bounds(now, int64(size))
	if !ok || !m.sure(now, int64(size)) {
		return // Nothing was observed in the window.
	}
	for _, typ := range []latency.StatType{latency.Avg, latency.Max, latency.Min} {
		v, set := get(typ)
		if !set {
			continue
		}
		r.Count("latency_values_checked", 1)
		slack := int64(0)
		if typ == latency.Avg {
			slack = precision
		}
		if v < lo-slack || v > hi+slack || slack > 0 && (v == lo-slack && slack > 1 || v == hi+slack && slack > 1) {
			fail("latency", "window %v at %d: %v = %d, but the latencies observed in it are in [%d,%d], precision %d", size, now, typ, v, lo, hi, precision)
		}
		if exact && (typ == latency.Max && v != hi || typ == latency.Min && v != lo) {
			fail("latency", "window %v at %d: %v = %d, but the latencies observed in it are in [%d,%d]", size, now, typ, v, lo, hi)
		}
	}
}

type setter map[string]int64

func (s setter) SetInt(n string, v int64) error { s[n] = v; return nil }

// windows drives the latency package alone.
func windows(r *vk.Run, i int) {
	rnd := r.Rand("windows", i)
	period := int64(time.Second) * int64(1+rnd.Intn(5))
	var sizes []time.Duration
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		sizes = append(sizes, time.Duration(period)*time.Duration(1+rnd.Intn([]int{3, 6, 20}[rnd.Intn(3)])))
	}
	precision := []int64{1, 1, 1000, 1000000, int64(time.Second)}[rnd.Intn(5)]
	var opts *latency.Options
	if precision > 1 || rnd.Intn(2) == 0 {
		opts = &latency.Options{AvgPrecision: time.Duration(precision)}
	}
	l := latency.New(sizes, opts)
	var log []string
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\nwindows %v, period %v, precision %d\n%s", fmt.Sprintf(f, a...), sizes, time.Duration(period), precision, strings.Join(log, "\n"))
	}
	m := &latModel{}
	now := int64(1_600_000_000_000_000_000) + rnd.Int63n(int64(time.Second))
	next := now + period
	jitter := rnd.Intn(3) == 0
	spread := []int64{1, 10, int64(time.Millisecond), int64(time.Second), int64(time.Hour)}[rnd.Intn(5)]
	base := []int64{0, 0, spread, 100 * spread, -spread / 2, -2 * spread}[rnd.Intn(6)]
	r.Guard("windows", "latency windows", func() {
		for k, steps := 0, 10+rnd.Intn(60); k < steps; k++ {
			n := rnd.Intn(6)
			if rnd.Intn(5) == 0 {
				n = 0
			}
			for ; n > 0; n-- {
				if d := (next - now) / 4; d > 0 {
					now += rnd.Int63n(d)
				}
				hist.Clock.Store(now)
				lat := base + rnd.Int63n(spread)
				log = append(log, fmt.Sprintf("%d: latency %d", now, lat))
				l.Compute(time.Unix(0, now-lat))
				m.open, m.openSure = append(m.open, lat), true
				r.Count("latency_samples", 1)
			}
			now = next
			if jitter {
				now += rnd.Int63n(period / 4)
			}
			next = now + period
			hist.Clock.Store(now)
			got := setter{}
			m.refresh(now)
			if k%9 == 8 && rnd.Intn(4) == 0 {
				l.UpdateLast(got)
			} else {
				l.UpdateReset(got)
			}
			log = append(log, fmt.Sprintf("%d: update %v", now, got))
			for _, size := range sizes {
				checkStats(fail, r, m, now, size, precision, true, func(typ latency.StatType) (int64, bool) {
					v, ok := got[latency.MetadataName(size, typ)]
					return v, ok
				})
			}
		}
	})
	r.Eval(1)
	r.Distinct("w", strings.Join(log, "\n"))
}

var counted = []string{metadata.UpdateCount, metadata.SuppressedCount, metadata.StaleCount, metadata.FutureCount, metadata.EmptyCount}

func sequential(r *vk.Run, i int) {
	rnd := r.Rand("sequential", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2"}[:1+rnd.Intn(2)]...)
	cfg := hist.Config{Targets: targets, EventDriven: rnd.Intn(3) > 0}
	if rnd.Intn(3) == 0 {
		cfg.Threshold = time.Duration(1 + rnd.Intn(20))
		g.Far = int64(cfg.Threshold) + 2
	}
	period := int64(10)
	var sizes []time.Duration
	precision := int64(1)
	if rnd.Intn(2) == 0 {
		for k := 1 + rnd.Intn(2); k > 0; k-- {
			sizes = append(sizes, time.Duration(period)*time.Duration(1+rnd.Intn(4)))
		}
		var ws []string
		for _, s := range sizes {
			ws = append(ws, s.String())
		}
		o, err := cache.WithLatencyWindows(ws, time.Duration(period))
		if err != nil {
			panic(err)
		}
		cfg.Options = append(cfg.Options, o)
		if rnd.Intn(2) == 0 {
			precision = 3
			cfg.Options = append(cfg.Options, cache.WithAvgLatencyPrecision(time.Duration(precision)))
		}
	}
	excluded := rnd.Intn(5) == 0
	if excluded {
		cfg.Options = append(cfg.Options, cache.WithExcludedMeta([]string{metadata.UpdateCount, metadata.Size}))
	}
	g.Base = 1_000_000_000
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(cfg, r.Violation)
	lats := map[string]*latModel{}
	for _, t := range targets {
		lats[t] = &latModel{}
	}
	synced := func(t string) bool { return w.Counters(t).Bool[metadata.Sync] }
	r.Journal("sequential history %d", i)
	r.Guard("sequential", fmt.Sprintf("history %d", i), func() {
		steps := 10 + rnd.Intn(60)
		for s := 0; s < steps && !r.TooMany(); s++ {
			target := targets[rnd.Intn(len(targets))]
			hist.Clock.Add(1 + rnd.Int63n(3))
			now := hist.Clock.Load()
			refreshed := map[string]bool{}
			switch k := rnd.Intn(30); {
			case k == 0:
				w.Reset(target)
				lats[target].refresh(now)
				refreshed[target] = true
			case k == 1:
				w.Sync(target)
			case k == 2:
				w.Connect(target)
			case k == 3:
				w.ConnectError(target, fmt.Sprint("error ", s))
			case k < 8:
				w.UpdateMetadata()
				for _, t := range targets {
					lats[t].refresh(now)
					refreshed[t] = true
				}
			case k == 8:
				w.UpdateSize()
			case k < 11:
				metaUpdate(r, w, rnd, target, now)
			default:
				wasSynced := synced(target)
				n := g.Notification(target)
				keep := proto.Clone(n).(*pb.Notification)
				res := w.Submit(n, w.C.GnmiUpdate)
				account(w, keep, res)
				r.Count("notifications_accounted", 1)
				if wasSynced {
					for _, o := range res.Updates {
						if o == hist.Accepted {
							l := lats[target]
							l.open = append(l.open, now-keep.Timestamp)
							// Latencies of withheld updates may not be recorded.
							l.openSure = l.openSure || res.Withheld == 0
						}
					}
				}
			}
			for _, t := range targets {
				_, data := w.Snapshot(t)
				c := w.Counters(t).Int
				m := w.M[t]
				if c[metadata.LeafCount] != int64(len(data)) || c[metadata.LeafCount] != c[metadata.AddCount]-c[metadata.DelCount] || c[metadata.AddCount] != m.Added || c[metadata.DelCount] != m.Deleted {
					w.Fail("leaf-count", "target %q stores %d leaves; leaf count %d, added %d, deleted %d; expected added %d, deleted %d", t, len(data), c[metadata.LeafCount], c[metadata.AddCount], c[metadata.DelCount], m.Added, m.Deleted)
				}
				r.Count("leaf_count_checks", 1)
				if !refreshed[t] {
					continue
				}
				// What was exported by the refresh.
				all, _ := w.Snapshot(t)
				checkExport(w, t, all, excluded)
				if v := c[metadata.LatestTimestamp]; m.HasTS && v != m.Latest || !m.HasTS && v > 0 {
					w.Fail("latest-timestamp", "target %q: latest timestamp is %d, the greatest accepted timestamp is %d (any: %v)", t, v, m.Latest, m.HasTS)
				}
				for _, size := range sizes {
					checkStats(w.Fail, r, lats[t], now, size, precision, false, func(typ latency.StatType) (int64, bool) {
						v, ok := c[latency.MetadataName(size, typ)]
						return v, ok
					})
				}
				r.Count("exports_checked", 1)
			}
		}
	})
	r.Eval(1)
	r.Distinct("s", strings.Join(w.Log, "\n"))
	if i < 3 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
	for k, v := range w.Obs {
		r.Count(k, v)
	}
}

func intVal(v int64) string {
	return hist.ValueOf(&pb.Notification{Update: []*pb.Update{{Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}}}})
}

// checkExport compares the exported metadata leaves with the counters.
func checkExport(w *hist.World, t string, all map[string]string, excluded bool) {
	c := w.Counters(t).Int
	for _, k := range []string{metadata.LeafCount, metadata.AddCount, metadata.DelCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount, metadata.EmptyCount, metadata.SuppressedCount, metadata.LatestTimestamp} {
		v, ok := all[hist.Key([]string{"meta", k})]
		if excluded && k == metadata.UpdateCount {
			if ok {
				w.Fail("export", "target %q exports excluded metadata %s", t, k)
			}
			continue
		}
		if !ok || v != intVal(c[k]) {
			w.Fail("export", "target %q: after a refresh the leaf meta/%s is %q (present: %v), the counter is %d", t, k, v, ok, c[k])
		}
	}
}

// metaUpdate submits an update of a metadata path, which is counted, too.
func metaUpdate(r *vk.Run, w *hist.World, rnd *rand.Rand, target string, now int64) {
	leaf := []string{metadata.Sync, metadata.Connected, metadata.ConnectedAddr, metadata.ConnectError, "own"}[rnd.Intn(5)]
	v := &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: []string{"a", "b"}[rnd.Intn(2)]}}
	if leaf == metadata.Sync || leaf == metadata.Connected || rnd.Intn(8) == 0 {
		v = &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: rnd.Intn(2) == 0}}
	}
	n := &pb.Notification{Timestamp: now - int64(rnd.Intn(4)), Prefix: &pb.Path{Target: target}, Update: []*pb.Update{{Path: &pb.Path{Elem: []*pb.PathElem{{Name: metadata.Root}, {Name: leaf}}}, Val: v}}}
	w.Note("submit %s", hist.Text(n))
	before := w.Counters(target).Int
	err := w.C.GnmiUpdate(n)
	after := w.Counters(target).Int
	got := map[string]int64{}
	sum := int64(0)
	for _, k := range counted {
		got[k] = after[k] - before[k]
		sum += got[k]
	}
	bad := false
	switch {
	case err == nil:
		bad = sum != 1 || got[metadata.UpdateCount]+got[metadata.SuppressedCount] != 1
	case errors.Is(err, cache.ErrStale):
		bad = sum != 1 || got[metadata.StaleCount] != 1
	case errors.Is(err, cache.ErrFuture):
		bad = sum != 1 || got[metadata.FutureCount] != 1
	default:
		bad = sum != 0
	}
	if bad {
		w.Fail("accounting", "submitting %s returns %v and changes the counters by %v, expected exactly one by one, or none for another error", hist.Text(n), err, got)
	}
	r.Count("metadata_updates_accounted", 1)
}

// account verifies that every update of a notification is counted once.
func account(w *hist.World, n *pb.Notification, res *hist.Result) {
	d := map[string]int64{}
	for _, k := range counted {
		d[k] = res.After.Int[k] - res.Before.Int[k]
	}
	want := map[string]int64{}
	if len(n.Update)+len(n.Delete) == 0 {
		want[metadata.EmptyCount] = 1
	}
	for _, o := range res.Updates {
		switch o {
		case hist.Stale:
			want[metadata.StaleCount] += res.Width
		case hist.Future:
			want[metadata.FutureCount] += res.Width
		case hist.Accepted:
			want[metadata.UpdateCount] += res.Width
		}
	}
	want[metadata.UpdateCount] -= int64(res.Withheld)
	want[metadata.SuppressedCount] += int64(res.Withheld)
	for _, k := range counted {
		if d[k] == want[k] || k == metadata.UpdateCount && d[k] == want[k]+int64(res.Deletes) {
			continue
		}
		w.Fail("accounting", "%s with outcomes %v (%d updates each, %d withheld) changes %s by %d, expected %d", hist.Text(n), res.Updates, res.Width, res.Withheld, k, d[k], want[k])
	}
}

// concurrent runs one update stream per target along with the refreshes.
func concurrent(r *vk.Run, i int) {
	rnd := r.Rand("concurrent", i)
	targets := []string{"dev1", "dev2"}[:1+rnd.Intn(2)]
	lifecycle := rnd.Intn(2) == 0
	var opts []cache.Option
	if o, err := cache.WithLatencyWindows([]string{"2s", "4s"}, time.Second); err == nil && rnd.Intn(3) > 0 {
		opts = append(opts, o)
	}
	threshold := rnd.Intn(3) == 0
	if threshold {
		opts = append(opts, cache.WithFutureThreshold(50))
	}
	hist.Clock.Store(1_000_000_000)
	c := cache.New(targets, opts...)
	c.SetClient(func(l *ctree.Leaf) {
		if n, ok := l.Value().(*pb.Notification); ok {
			_ = n.GetTimestamp()
		}
	})
	switch rnd.Intn(4) {
	case 0:
		verifsched.Off()
	case 1:
		verifsched.Random(20, 0)
	default:
		verifsched.Random(uint32(50+rnd.Intn(300)), time.Duration(10+rnd.Intn(200))*time.Microsecond)
	}
	defer verifsched.Off()
	r.Journal("concurrent %d: targets %v lifecycle %v", i, targets, lifecycle)
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	refreshes := 0
	bg.Add(2)
	go func() {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			c.UpdateMetadata()
			refreshes++
			hist.Clock.Add(int64(time.Second))
		}
	}()
	go func() {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			c.UpdateSize()
			for t, m := range c.Metadata() {
				for k := range metadata.TargetBoolValues {
					m.GetBool(k)
				}
				for k := range metadata.TargetIntValues {
					m.GetInt(k)
				}
				for k := range metadata.TargetStrValues {
					m.GetStr(k)
				}
				c.Query(t, []string{"meta"}, func([]string, *ctree.Leaf, any) error { return nil })
			}
		}
	}()
	type tally struct {
		submitted, deletes, empty, lifecycle, resets int
		outcome                                      map[string]int
		latest                                       int64
	}
	tallies := map[string]*tally{}
	for ti, t := range targets {
		ta := &tally{outcome: map[string]int{}}
		tallies[t] = ta
		g := hist.NewGen(rand.New(rand.NewSource(rnd.Int63())))
		g.Atomic, g.Base = 10, 1_000_000_000
		if threshold {
			g.Far = 60
		}
		tr := rand.New(rand.NewSource(rnd.Int63() + int64(ti)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			steps := 60 + tr.Intn(120)
			c.Sync(t)
			ta.lifecycle++
			for s := 0; s < steps; s++ {
				if lifecycle && tr.Intn(12) == 0 {
					ta.lifecycle++
					switch tr.Intn(4) {
					case 0:
						c.Sync(t)
					case 1:
						c.Connect(t)
						ta.lifecycle++
					case 2:
						c.ConnectError(t, errors.New("x"))
					case 3:
						c.Reset(t)
						ta.resets++
						ta.latest = 0
					}
					continue
				}
				n := g.Notification(t)
				n = proto.Clone(n).(*pb.Notification)
				if len(n.Update)+len(n.Delete) == 0 {
					ta.empty++
				}
				// One at a time, to know the outcome of each.
				var parts []*pb.Notification
				if n.Atomic || len(n.Update)+len(n.Delete) <= 1 {
					parts = append(parts, n)
				} else {
					for _, u := range n.Update {
						parts = append(parts, &pb.Notification{Timestamp: n.Timestamp, Prefix: n.Prefix, Update: []*pb.Update{u}})
					}
					for _, d := range n.Delete {
						parts = append(parts, &pb.Notification{Timestamp: n.Timestamp, Prefix: n.Prefix, Delete: []*pb.Path{d}})
					}
				}
				for _, p := range parts {
					err := c.GnmiUpdate(p)
					w := len(p.Update)
					ta.submitted += w
					ta.deletes += len(p.Delete)
					switch {
					case errors.Is(err, cache.ErrStale):
						ta.outcome["stale"] += w
					case errors.Is(err, cache.ErrFuture):
						ta.outcome["future"] += w
					case err != nil:
						ta.outcome["error"] += w
					case w > 0:
						ta.outcome["accepted"] += w
						if p.Timestamp > ta.latest {
							ta.latest = p.Timestamp
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	verifsched.Off()
	for _, t := range targets {
		ta := tallies[t]
		hist.Clock.Add(1)
		c.UpdateMetadata()
		ct := hist.ReadCounters(c, t).Int
		leaves := 0
		exported := int64(-1 << 60)
		c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
			if !hist.IsMeta(p) {
				leaves++
			}
			if len(p) == 2 && p[0] == "meta" && p[1] == metadata.LeafCount {
				exported = v.(*pb.Notification).Update[0].GetVal().GetIntVal()
			}
			return nil
		})
		desc := fmt.Sprintf("concurrent run %d, target %q (lifecycle %v, %d resets): %+v, counters %v", i, t, lifecycle, ta.resets, *ta, hist.ReadCounters(c, t))
		if ct[metadata.LeafCount] != int64(leaves) || ct[metadata.LeafCount] != ct[metadata.AddCount]-ct[metadata.DelCount] || exported != int64(leaves) {
			r.Violation("leaf-count-concurrent", "%d leaves are stored, leaf count %d, added %d, deleted %d, exported %d\n%s", leaves, ct[metadata.LeafCount], ct[metadata.AddCount], ct[metadata.DelCount], exported, desc)
		}
		if v := ct[metadata.LatestTimestamp]; ta.latest > 0 && v != ta.latest || ta.latest == 0 && v > 0 {
			r.Violation("latest-timestamp-concurrent", "latest timestamp is %d, expected %d\n%s", v, ta.latest, desc)
		}
		if ta.resets == 0 {
			// The refresh itself and lifecycle events can be counted as stale or
			// suppressed when they race for a metadata leaf.
			slack := int64(0)
			if lifecycle {
				slack = int64(ta.lifecycle + refreshes*10)
			}
			between := func(name string, v, lo, hi int64) {
				if v < lo || v > hi {
					r.Violation("accounting-concurrent", "%s is %d, expected %d to %d\n%s", name, v, lo, hi, desc)
				}
			}
			// Sync() at the start counts, too.
			sy := int64(ta.lifecycle)
			between("stale", ct[metadata.StaleCount], int64(ta.outcome["stale"]), int64(ta.outcome["stale"])+slack+sy)
			between("future", ct[metadata.FutureCount], int64(ta.outcome["future"]), int64(ta.outcome["future"]))
			between("empty", ct[metadata.EmptyCount], int64(ta.empty), int64(ta.empty))
			between("updated+suppressed", ct[metadata.UpdateCount]+ct[metadata.SuppressedCount], int64(ta.outcome["accepted"]), int64(ta.outcome["accepted"]+ta.deletes)+slack+sy)
			r.Count("concurrent_accounted", 1)
		}
		r.Count("concurrent_updates", ta.submitted)
		r.Count("concurrent_leaves", leaves)
	}
	r.Count("concurrent_refreshes", refreshes)
	r.Count("max_schedule_points_reached", len(verifsched.Hit()))
	r.Eval(1)
	r.Distinct("c", i, refreshes, fmt.Sprint(tallies[targets[0]]))
}
