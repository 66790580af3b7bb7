// Package c02 checks property C02: the cache keeps the newest value per leaf.
package c02

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"verifharness/hist"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C02", func(t *testing.T, r *vk.Run) {
		exhaustive(r)
		n := r.N(12000, 400000)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				random(r, i)
			}
		}
	})
}

func val(i int) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(i)}}
}

func path(es ...string) *pb.Path {
	p := &pb.Path{}
	for _, e := range es {
		p.Elem = append(p.Elem, &pb.PathElem{Name: e})
	}
	return p
}

// exhaustive runs all sequences of a few operations on one leaf and a wildcard
// delete around it, with timestamps 1 to 3, two values, with and without a
// threshold.
func exhaustive(r *vk.Run) {
	const base = 1000
	type op func() *pb.Notification
	var ops []op
	for ts := int64(1); ts <= 3; ts++ {
		ts := ts
		for v := 0; v < 2; v++ {
			v := v
			ops = append(ops, func() *pb.Notification {
				return &pb.Notification{Timestamp: base + ts, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: path("a", "b"), Val: val(v)}}}
			})
		}
		ops = append(ops, func() *pb.Notification {
			return &pb.Notification{Timestamp: base + ts, Prefix: &pb.Path{Target: "t"}, Delete: []*pb.Path{path("a", "*")}}
		})
		ops = append(ops, func() *pb.Notification {
			return &pb.Notification{Timestamp: base + ts, Atomic: true, Prefix: &pb.Path{Target: "t", Elem: path("a", "b").Elem}, Update: []*pb.Update{{Path: path("x"), Val: val(0)}}}
		})
	}
	ops = append(ops, func() *pb.Notification {
		return &pb.Notification{Timestamp: base + 60, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: path("a", "b"), Val: val(2)}}}
	})
	depth := r.N(4, 5)
	var seq []int
	count := 0
	var rec func()
	rec = func() {
		if r.TooMany() {
			return
		}
		if len(seq) == depth {
			count++
			if !r.Mine(count) {
				return
			}
			hist.Clock.Store(base)
			w := hist.NewWorld(hist.Config{Targets: []string{"t"}, EventDriven: count%2 == 0, Threshold: time.Duration(count%4/2) * 20}, r.Violation)
			r.Guard("exhaustive", fmt.Sprint(seq), func() {
				for _, o := range seq {
					n := ops[o]()
					w.Submit(n, w.C.GnmiUpdate)
					w.CheckStored("t")
				}
			})
			r.Eval(1)
			r.Distinct("x", fmt.Sprint(seq), count%4)
			for k, v := range w.Obs {
				r.Count(k, v)
			}
			return
		}
		for o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

func random(r *vk.Run, i int) {
	rnd := r.Rand("random", i)
	g := hist.NewGen(rnd)
	targets := hist.Targets(rnd, []string{"dev1", "dev2"}[:1+rnd.Intn(2)]...)
	cfg := hist.Config{Targets: targets, EventDriven: rnd.Intn(2) == 0}
	if rnd.Intn(2) == 0 {
		cfg.Threshold = time.Duration([]int64{1, 3, 10, 1000}[rnd.Intn(4)])
		g.Far = int64(cfg.Threshold) * int64(1+rnd.Intn(2))
	}
	hist.Clock.Store(g.Base)
	w := hist.NewWorld(cfg, r.Violation)
	r.Journal("random history %d", i)
	r.Guard("random", fmt.Sprintf("random history %d", i), func() {
		steps := 10 + rnd.Intn(50)
		for s := 0; s < steps && !r.TooMany(); s++ {
			target := targets[rnd.Intn(len(targets))]
			switch k := rnd.Intn(40); {
			case k == 0:
				w.Reset(target)
			case k == 1:
				w.Sync(target)
			case k == 2:
				w.UpdateMetadata()
			case k < 8:
				// The clock reads anything, also going back.
				hist.Clock.Store(g.Base + rnd.Int63n(2*g.Span+2) - g.Span + int64(rnd.Intn(3)-1)*g.Far)
				continue
			default:
				n := g.Notification(target)
				via := w.C.GnmiUpdate
				if rnd.Intn(3) == 0 {
					via = w.C.GetTarget(target).GnmiUpdate
				}
				w.Submit(n, via)
			}
			for _, t := range targets {
				w.CheckStored(t)
			}
			r.Count("operations", 1)
		}
	})
	r.Eval(1)
	r.Distinct("r", strings.Join(w.Log, "\n"))
	if i < 3 {
		r.Sample("%s", strings.Join(w.Log, " ; "))
	}
	for k, v := range w.Obs {
		r.Count(k, v)
	}
}
