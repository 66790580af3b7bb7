// Package c20 checks property C20: the synthetic target's update stream.
package c20

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	"github.com/openconfig/gnmi/testing/fake/queue"

	"verifharness/fakestream"
	"verifharness/vk"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C20", func(t *testing.T, r *vk.Run) {
		loop := func(kind string, n int, f func(i int)) {
			for i := 0; i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("%s %d", kind, i)
					r.Guard(kind, fmt.Sprint(kind, " ", i), func() { f(i) })
				}
			}
		}
		loop("queue", r.N(24000, 1200000), func(i int) { queueRun(r, i) })
		loop("invalid", r.N(6000, 200000), func(i int) { invalidRun(r, i) })
		loop("extreme", r.N(4000, 100000), func(i int) { extremeRun(r, i) })
		loop("fixed", r.N(2000, 50000), func(i int) { synctest.Test(t, func(*testing.T) { fixedRun(r, i) }) })
		loop("delay", r.N(2000, 50000), func(i int) { synctest.Test(t, func(*testing.T) { delayRun(r, i) }) })
		loop("client", r.N(4000, 100000), func(i int) { synctest.Test(t, func(*testing.T) { clientRun(r, i) }) })
		loop("agent", r.N(64, 1000), func(i int) { agentRun(r, i) })
	})
}

// gen makes value configurations.
type gen struct {
	*rand.Rand
	n int
	// unbounded values are allowed
	unbounded bool
}

func pick[T any](g *rand.Rand, vs ...T) T { return vs[g.Intn(len(vs))] }

// smallInt is a number of varied size, negative ones included.
func (g *gen) smallInt() int64 {
	switch g.Intn(4) {
	case 0:
		return int64(g.Intn(5)) - 2
	case 1:
		return int64(g.Intn(2001)) - 1000
	case 2:
		return g.Int63n(1<<40) - 1<<39
	}
	return pick(g.Rand, int64(0), 1, -1, 100)
}

func order(a, b int64) (int64, int64) {
	if a > b {
		return b, a
	}
	return a, b
}

var kinds = []string{"int", "uint", "double", "string", "stringlist", "bool", "delete", "sync"}

// value returns a valid configuration of the kind.
func (g *gen) value(kind string) *fpb.Value {
	g.n++
	v := &fpb.Value{Path: []string{"v", fmt.Sprint(g.n)}}
	if g.Intn(3) == 0 {
		v.Path = append(v.Path, "leaf")
	}
	v.Timestamp = &fpb.Timestamp{Timestamp: pick(g.Rand, 0, 1, int64(g.Intn(10)), int64(g.Intn(1000)), 1e9, 1500000000e9)}
	switch g.Intn(6) {
	case 0: // never moves
	case 1:
		d := pick(g.Rand, 1, int64(g.Intn(20)), 1e9)
		v.Timestamp.DeltaMin, v.Timestamp.DeltaMax = d, d
	case 2:
		v.Timestamp.DeltaMax = int64(g.Intn(4))
	default:
		v.Timestamp.DeltaMin = int64(g.Intn(10))
		v.Timestamp.DeltaMax = v.Timestamp.DeltaMin + pick(g.Rand, 0, int64(g.Intn(10)), int64(g.Intn(1000)))
	}
	v.Repeat = int32(pick(g.Rand, 1, 1, 2, 3, 1+g.Intn(12), 1+g.Intn(60)))
	if g.unbounded && g.Intn(3) == 0 {
		v.Repeat = 0
		if v.Timestamp.DeltaMax == 0 && g.Intn(10) > 0 {
			v.Timestamp.DeltaMax = 1 + int64(g.Intn(10))
		}
	}
	if g.Intn(3) == 0 {
		v.Seed = pick(g.Rand, 1, 2, g.Int63(), -g.Int63())
	}
	nopt := 1 + g.Intn(pick(g.Rand, 1, 2, 4, 9))
	random := g.Intn(2) == 0
	switch kind {
	case "int":
		x := &fpb.IntValue{Value: g.smallInt()}
		switch g.Intn(5) {
		case 0:
		case 1, 2, 3:
			lo, hi := order(g.smallInt(), g.smallInt())
			if g.Intn(6) == 0 {
				lo = hi
			}
			rg := &fpb.IntRange{Minimum: lo, Maximum: hi}
			x.Value = lo + g.Int63n(hi-lo+1)
			if g.Intn(5) == 0 {
				x.Value = pick(g.Rand, lo, hi)
			}
			if g.Intn(2) == 0 {
				rg.DeltaMin, rg.DeltaMax = order(g.smallInt(), g.smallInt())
				if g.Intn(4) == 0 {
					rg.DeltaMin = rg.DeltaMax
				}
			}
			x.Distribution = &fpb.IntValue_Range{Range: rg}
		case 4:
			l := &fpb.IntList{Random: random}
			for range nopt {
				l.Options = append(l.Options, pick(g.Rand, g.smallInt(), math.MaxInt64, math.MinInt64))
			}
			x.Distribution = &fpb.IntValue_List{List: l}
		}
		v.Value = &fpb.Value_IntValue{IntValue: x}
	case "uint":
		abs := func() int64 {
			n := g.smallInt()
			if n < 0 {
				return -n
			}
			return n
		}
		x := &fpb.UintValue{Value: uint64(abs())}
		switch g.Intn(5) {
		case 0:
		case 1, 2, 3:
			lo, hi := order(abs(), abs())
			if g.Intn(6) == 0 {
				lo = hi
			}
			rg := &fpb.UintRange{Minimum: uint64(lo), Maximum: uint64(hi)}
			x.Value = uint64(lo + g.Int63n(hi-lo+1))
			if g.Intn(5) == 0 {
				x.Value = uint64(pick(g.Rand, lo, hi))
			}
			if g.Intn(2) == 0 {
				rg.DeltaMin, rg.DeltaMax = order(g.smallInt(), g.smallInt())
			}
			x.Distribution = &fpb.UintValue_Range{Range: rg}
		case 4:
			l := &fpb.UintList{Random: random}
			for range nopt {
				l.Options = append(l.Options, pick(g.Rand, uint64(abs()), math.MaxUint64))
			}
			x.Distribution = &fpb.UintValue_List{List: l}
		}
		v.Value = &fpb.Value_UintValue{UintValue: x}
	case "double":
		num := func() float64 {
			return pick(g.Rand, float64(g.smallInt()), g.NormFloat64(), g.NormFloat64()*1e9, 0, 1e-9)
		}
		x := &fpb.DoubleValue{Value: num()}
		switch g.Intn(5) {
		case 0:
		case 1, 2, 3:
			lo, hi := num(), num()
			if lo > hi {
				lo, hi = hi, lo
			}
			if g.Intn(6) == 0 {
				lo = hi
			}
			rg := &fpb.DoubleRange{Minimum: lo, Maximum: hi}
			x.Value = math.Min(hi, math.Max(lo, lo+g.Float64()*(hi-lo)))
			if g.Intn(5) == 0 {
				x.Value = pick(g.Rand, lo, hi)
			}
			if g.Intn(2) == 0 {
				rg.DeltaMin, rg.DeltaMax = num(), num()
				if rg.DeltaMin > rg.DeltaMax {
					rg.DeltaMin, rg.DeltaMax = rg.DeltaMax, rg.DeltaMin
				}
			}
			x.Distribution = &fpb.DoubleValue_Range{Range: rg}
		case 4:
			l := &fpb.DoubleList{Random: random}
			for range nopt {
				l.Options = append(l.Options, num())
			}
			x.Distribution = &fpb.DoubleValue_List{List: l}
		}
		v.Value = &fpb.Value_DoubleValue{DoubleValue: x}
	case "string":
		x := &fpb.StringValue{Value: pick(g.Rand, "", "x", "initial")}
		if g.Intn(4) > 0 {
			x.Distribution = &fpb.StringValue_List{List: &fpb.StringList{Options: g.strs(nopt), Random: random}}
		}
		v.Value = &fpb.Value_StringValue{StringValue: x}
	case "stringlist":
		x := &fpb.StringListValue{Value: g.strs(g.Intn(4))}
		if g.Intn(4) > 0 {
			x.Distribution = &fpb.StringListValue_List{List: &fpb.StringList{Options: g.strs(nopt), Random: random}}
		}
		v.Value = &fpb.Value_StringListValue{StringListValue: x}
	case "bool":
		x := &fpb.BoolValue{Value: g.Intn(2) == 0}
		if g.Intn(4) > 0 {
			l := &fpb.BoolList{Random: random}
			for range nopt {
				l.Options = append(l.Options, g.Intn(2) == 0)
			}
			x.Distribution = &fpb.BoolValue_List{List: l}
		}
		v.Value = &fpb.Value_BoolValue{BoolValue: x}
	case "delete":
		v.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}
	case "sync":
		v.Value = &fpb.Value_Sync{Sync: uint64(pick(g.Rand, 0, 1, 1, 7))}
	}
	return v
}

func (g *gen) strs(n int) []string {
	var s []string
	for range n {
		s = append(s, pick(g.Rand, "a", "b", "c", "", "x/y", "ü", fmt.Sprint(g.Intn(20))))
	}
	return s
}

func (g *gen) values(max int) []*fpb.Value {
	n := 1 + g.Intn(max)
	if g.Intn(40) == 0 {
		n = 0
	}
	var vs []*fpb.Value
	// Often all at few instants.
	var instants []int64
	if g.Intn(2) == 0 {
		for range 1 + g.Intn(3) {
			instants = append(instants, int64(g.Intn(20)))
		}
	}
	for range n {
		v := g.value(pick(g.Rand, kinds...))
		if instants != nil {
			v.Timestamp.Timestamp = pick(g.Rand, instants...)
		}
		if g.Intn(25) == 0 {
			v.Timestamp = nil
		}
		vs = append(vs, v)
	}
	return vs
}

func clone(vs []*fpb.Value) []*fpb.Value {
	var c []*fpb.Value
	for _, v := range vs {
		c = append(c, proto.Clone(v).(*fpb.Value))
	}
	return c
}

func show(vs []*fpb.Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, prototext.MarshalOptions{}.Format(v))
	}
	return strings.Join(s, "\n")
}

func key(v *fpb.Value) string { return strings.Join(v.Path, "/") }

// in reports whether every element of s is an option, used at most as often as
// it is listed.
func in(s, options []string) bool {
	left := map[string]int{}
	for _, o := range options {
		left[o]++
	}
	for _, e := range s {
		if left[e]--; left[e] < 0 {
			return false
		}
	}
	return true
}

func clamp64(x, lo, hi int64) int64 { return min(max(x, lo), hi) }

// stepOK judges the k-th emission (k>0) of the value configured by c, given
// the previous one.
func stepOK(c, prev, v *fpb.Value, k int) string {
	at := func(n int) int { return (k - 1) % n }
	switch x := c.Value.(type) {
	case *fpb.Value_IntValue:
		if v.GetIntValue() == nil {
			return "another kind of value"
		}
		got, p := v.GetIntValue().Value, prev.GetIntValue().GetValue()
		switch d := x.IntValue.Distribution.(type) {
		case *fpb.IntValue_Range:
			lo, hi := d.Range.Minimum, d.Range.Maximum
			if got < lo || got > hi {
				return fmt.Sprintf("%d is not in [%d, %d]", got, lo, hi)
			}
			if d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0 {
				a, b := clamp64(p+d.Range.DeltaMin, lo, hi), clamp64(p+d.Range.DeltaMax, lo, hi)
				if got < a || got > b {
					return fmt.Sprintf("%d after %d is not a step of [%d, %d] in [%d, %d]", got, p, d.Range.DeltaMin, d.Range.DeltaMax, lo, hi)
				}
			}
		case *fpb.IntValue_List:
			return listOK(d.List.Options, d.List.Random, got, at)
		default:
			if got != x.IntValue.Value {
				return fmt.Sprintf("%d is not the constant", got)
			}
		}
	case *fpb.Value_UintValue:
		if v.GetUintValue() == nil {
			return "another kind of value"
		}
		got, p := v.GetUintValue().Value, int64(prev.GetUintValue().GetValue())
		switch d := x.UintValue.Distribution.(type) {
		case *fpb.UintValue_Range:
			lo, hi := d.Range.Minimum, d.Range.Maximum
			if got < lo || got > hi {
				return fmt.Sprintf("%d is not in [%d, %d]", got, lo, hi)
			}
			if d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0 {
				a, b := clamp64(p+d.Range.DeltaMin, int64(lo), int64(hi)), clamp64(p+d.Range.DeltaMax, int64(lo), int64(hi))
				if int64(got) < a || int64(got) > b {
					return fmt.Sprintf("%d after %d is not a step of [%d, %d] in [%d, %d]", got, p, d.Range.DeltaMin, d.Range.DeltaMax, lo, hi)
				}
			}
		case *fpb.UintValue_List:
			return listOK(d.List.Options, d.List.Random, got, at)
		default:
			if got != x.UintValue.Value {
				return fmt.Sprintf("%d is not the constant", got)
			}
		}
	case *fpb.Value_DoubleValue:
		if v.GetDoubleValue() == nil {
			return "another kind of value"
		}
		got, p := v.GetDoubleValue().Value, prev.GetDoubleValue().GetValue()
		switch d := x.DoubleValue.Distribution.(type) {
		case *fpb.DoubleValue_Range:
			lo, hi := d.Range.Minimum, d.Range.Maximum
			if !(got >= lo && got <= hi) {
				return fmt.Sprintf("%g is not in [%g, %g]", got, lo, hi)
			}
			if d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0 {
				a, b := p+d.Range.DeltaMin, p+d.Range.DeltaMax
				eps := 1e-9 * (math.Abs(p) + math.Abs(a) + math.Abs(b))
				a, b = math.Min(hi, math.Max(lo, a-eps)), math.Min(hi, math.Max(lo, b+eps))
				if got < a || got > b {
					return fmt.Sprintf("%g after %g is not a step of [%g, %g] in [%g, %g]", got, p, d.Range.DeltaMin, d.Range.DeltaMax, lo, hi)
				}
			}
		case *fpb.DoubleValue_List:
			return listOK(d.List.Options, d.List.Random, got, at)
		default:
			if got != x.DoubleValue.Value {
				return fmt.Sprintf("%g is not the constant", got)
			}
		}
	case *fpb.Value_StringValue:
		if v.GetStringValue() == nil {
			return "another kind of value"
		}
		got := v.GetStringValue().Value
		if l := x.StringValue.GetList(); l != nil {
			return listOK(l.Options, l.Random, got, at)
		} else if got != x.StringValue.Value {
			return fmt.Sprintf("%q is not the constant", got)
		}
	case *fpb.Value_BoolValue:
		if v.GetBoolValue() == nil {
			return "another kind of value"
		}
		got := v.GetBoolValue().Value
		if l := x.BoolValue.GetList(); l != nil {
			return listOK(l.Options, l.Random, got, at)
		} else if got != x.BoolValue.Value {
			return fmt.Sprintf("%v is not the constant", got)
		}
	case *fpb.Value_StringListValue:
		if v.GetStringListValue() == nil {
			return "another kind of value"
		}
		got := v.GetStringListValue().Value
		if l := x.StringListValue.GetList(); l != nil {
			if !in(got, l.Options) {
				return fmt.Sprintf("%q is not out of %q", got, l.Options)
			}
			if n := len(l.Options); !l.Random {
				// The options, rotated once more each time.
				for i, e := range got {
					if e != l.Options[(k+i)%n] {
						return fmt.Sprintf("%q is not the cycle %d of %q", got, k, l.Options)
					}
				}
			}
		} else if strings.Join(got, "\x00") != strings.Join(x.StringListValue.Value, "\x00") || len(got) != len(x.StringListValue.Value) {
			return fmt.Sprintf("%q is not the constant", got)
		}
	case *fpb.Value_Delete:
		if _, ok := v.Value.(*fpb.Value_Delete); !ok {
			return "another kind of value"
		}
	case *fpb.Value_Sync:
		if s, ok := v.Value.(*fpb.Value_Sync); !ok || s.Sync != x.Sync {
			return "not the sync value"
		}
	}
	return ""
}

func listOK[T comparable](options []T, random bool, got T, at func(int) int) string {
	if !random {
		if want := options[at(len(options))]; got != want {
			return fmt.Sprintf("%v is not %v, the next of the list %v", got, want, options)
		}
		return ""
	}
	for _, o := range options {
		if o == got {
			return ""
		}
	}
	return fmt.Sprintf("%v is not among %v", got, options)
}

// monitor follows the emissions of one generator.
type monitor struct {
	conf   []*fpb.Value
	byKey  map[string]int
	seen   []int
	last   []*fpb.Value
	t      int64
	n      int
	bad    func(kind, format string, args ...any)
	silent bool
}

func newMonitor(conf []*fpb.Value, bad func(kind, format string, args ...any)) *monitor {
	m := &monitor{conf: clone(conf), byKey: map[string]int{}, seen: make([]int, len(conf)), last: make([]*fpb.Value, len(conf)), t: math.MinInt64, bad: bad}
	for i, v := range m.conf {
		if v.Timestamp == nil {
			// The default is not part of the property; it is taken as emitted.
			v.Timestamp = nil
		}
		m.byKey[key(v)] = i
	}
	return m
}

func (m *monitor) emit(v *fpb.Value) {
	m.n++
	i, ok := m.byKey[key(v)]
	if !ok {
		m.bad("unknown_value", "emission %d is of no configured value: %v", m.n, v)
		return
	}
	c := m.conf[i]
	if v.Timestamp == nil {
		m.bad("timestamp", "emission %d has no timestamp: %v", m.n, v)
		return
	}
	t := v.Timestamp.Timestamp
	if t < m.t {
		m.bad("order", "emission %d of %s has timestamp %d after one of %d", m.n, key(v), t, m.t)
	}
	m.t = t
	k := m.seen[i]
	m.seen[i]++
	if c.Repeat > 0 && m.seen[i] > int(c.Repeat) {
		m.bad("repeat", "%s is emitted for the %d. time, with a repeat count of %d", key(v), m.seen[i], c.Repeat)
	}
	if k == 0 {
		w := proto.Clone(c).(*fpb.Value)
		g := proto.Clone(v).(*fpb.Value)
		if w.Timestamp == nil {
			g.Timestamp = nil
		}
		if !proto.Equal(w, g) {
			m.bad("initial", "the first emission {%v} of %s is not the configured value {%v}", v, key(v), c)
		}
	} else {
		step := t - m.last[i].Timestamp.Timestamp
		if step < c.Timestamp.GetDeltaMin() || step > c.Timestamp.GetDeltaMax() {
			m.bad("timestamp_step", "emission %d of %s has timestamp %d after %d, not a step of [%d, %d]", k, key(v), t, m.last[i].Timestamp.Timestamp, c.Timestamp.GetDeltaMin(), c.Timestamp.GetDeltaMax())
		}
		if s := stepOK(c, m.last[i], v, k); s != "" {
			m.bad("value", "emission %d of %s: %s (configuration %v)", k, key(v), s, c)
		}
	}
	m.last[i] = proto.Clone(v).(*fpb.Value)
}

// end judges the counts when the generator is exhausted (or not).
func (m *monitor) end(exhausted bool) {
	for i, c := range m.conf {
		if exhausted {
			if c.Repeat <= 0 {
				m.bad("repeat", "the generator ended although %s is unbounded", key(c))
			} else if m.seen[i] != int(c.Repeat) {
				m.bad("repeat", "the generator ended after %d emissions of %s, with a repeat count of %d", m.seen[i], key(c), c.Repeat)
			}
			continue
		}
		if c.Repeat > 0 && m.seen[i] >= int(c.Repeat) {
			continue
		}
		// Still to come, hence not before the present time.
		due := c.Timestamp.GetTimestamp()
		if m.seen[i] > 0 {
			due = m.last[i].Timestamp.Timestamp + c.Timestamp.GetDeltaMax()
		} else if c.Timestamp == nil {
			continue
		}
		if due < m.t {
			m.bad("overdue", "the emission %d of %s was due by %d, the generator is at %d", m.seen[i], key(c), due, m.t)
		}
	}
}

func next(q *queue.UpdateQueue) (*fpb.Value, error) {
	x, err := q.Next()
	if err != nil || x == nil {
		return nil, err
	}
	return x.(*fpb.Value), nil
}

// drain takes up to n emissions.
func drain(q *queue.UpdateQueue, n int, f func(*fpb.Value)) (exhausted bool, err error) {
	for range n {
		v, err := next(q)
		if err != nil {
			return false, err
		}
		if v == nil {
			for range 2 {
				if v, err := next(q); v != nil || err != nil {
					return false, fmt.Errorf("an exhausted queue returned %v, %v", v, err)
				}
			}
			return true, nil
		}
		f(v)
	}
	return false, nil
}

func seedOf(g *rand.Rand) int64 { return pick(g, 1, 2, 42, g.Int63(), -1-g.Int63n(1000)) }

func queueRun(r *vk.Run, i int) {
	rng := r.Rand("queue", i)
	g := &gen{Rand: rng, unbounded: rng.Intn(2) == 0}
	conf := g.values(8)
	seed := seedOf(rng)
	orig := clone(conf)
	late := 0
	bad := func(kind, format string, args ...any) {
		r.Violation(kind, "queue run %d, seed %d: %s\nconfiguration:\n%s", i, seed, fmt.Sprintf(format, args...), show(orig))
	}
	q := queue.New(false, seed, conf)
	m := newMonitor(orig, bad)
	latest := int64(0)
	for _, v := range orig {
		latest = max(latest, v.Timestamp.GetTimestamp())
	}
	if q.Latest() != latest {
		bad("latest", "Latest() is %d, expected %d", q.Latest(), latest)
	}
	var seq, cp []*fpb.Value
	budget := 50 + rng.Intn(400)
	// Values may be added later.
	addAt := -1
	var added *fpb.Value
	if rng.Intn(6) == 0 {
		addAt = rng.Intn(20)
	}
	exhausted, err := drain(q, budget, func(v *fpb.Value) {
		m.emit(v)
		seq, cp = append(seq, v), append(cp, proto.Clone(v).(*fpb.Value))
		if len(seq) == addAt {
			added = g.value(pick(rng, kinds...))
			added.Timestamp.Timestamp = m.t + int64(rng.Intn(5))
			m.conf, m.seen, m.last = append(m.conf, proto.Clone(added).(*fpb.Value)), append(m.seen, 0), append(m.last, nil)
			m.byKey[key(added)] = len(m.conf) - 1
			q.Add(proto.Clone(added).(*fpb.Value))
			late++
		}
	})
	if err != nil {
		bad("error", "Next() failed on a valid configuration: %v", err)
		return
	}
	m.end(exhausted)
	r.Eval(1)
	r.Distinct(fmt.Sprint(seed), show(orig))
	r.Count("emissions", len(seq))
	r.Count("late_additions", late)
	if exhausted {
		r.Count("exhausted_generators", 1)
	}
	for _, c := range m.conf {
		r.Count(strings.Replace(fmt.Sprintf("%T", c.Value), "*gnmi_fake.Value_", "of_", 1), 1)
	}
	for j := range seq {
		if !proto.Equal(seq[j], cp[j]) {
			bad("emitted_changed", "emission %d was {%v}, and became {%v} afterwards", j, cp[j], seq[j])
			break
		}
	}
	for j := range conf {
		a, b := proto.Clone(conf[j]).(*fpb.Value), proto.Clone(orig[j]).(*fpb.Value)
		if b.Timestamp == nil {
			a.Timestamp = nil
		}
		if !proto.Equal(a, b) {
			bad("configuration_changed", "the configuration {%v} became {%v}", orig[j], conf[j])
		}
	}
	// The same again, from a copy, and from the very same configuration.
	for _, c := range [][]*fpb.Value{clone(orig), conf} {
		q2 := queue.New(false, seed, c)
		k := 0
		ex2, err := drain(q2, budget, func(v *fpb.Value) {
			if k < len(cp) && !proto.Equal(v, cp[k]) {
				bad("not_reproducible", "emission %d is {%v}, of another generator of the same seed {%v}", k, v, cp[k])
			}
			k++
			if added != nil && k == addAt {
				q2.Add(proto.Clone(added).(*fpb.Value))
			}
		})
		if err != nil || ex2 != exhausted || k != len(cp) {
			bad("not_reproducible", "a generator of the same seed emitted %d updates (ended: %v, %v), the other one %d (ended: %v)", k, ex2, err, len(cp), exhausted)
		}
		r.Count("sequences_compared", 1)
	}
	// A value with a seed of its own depends on no other value, nor on the
	// global seed.
	if rng.Intn(3) == 0 && addAt < 0 {
		for j, c := range orig {
			if c.Seed == 0 {
				continue
			}
			q3 := queue.New(false, seedOf(rng), []*fpb.Value{proto.Clone(c).(*fpb.Value)})
			var alone []*fpb.Value
			if _, err := drain(q3, m.seen[j], func(v *fpb.Value) { alone = append(alone, proto.Clone(v).(*fpb.Value)) }); err != nil {
				bad("error", "Next() failed on a valid configuration: %v", err)
				return
			}
			k := 0
			for _, v := range cp {
				if key(v) == key(c) {
					if k >= len(alone) || !proto.Equal(v, alone[k]) {
						bad("own_seed", "emission %d of %s depends on the other values or the global seed", k, key(c))
						break
					}
					k++
				}
			}
			r.Count("own_seeds_checked", 1)
		}
	}
	if r.WantSample() && len(seq) > 5 {
		r.Sample("queue run %d seed %d:\n%s\nfirst emissions:\n%s", i, seed, show(orig), show(cp[:5]))
	}
}

// spoil makes a value invalid; its advance must fail.
func spoil(g *gen, v *fpb.Value) string {
	var can []string
	can = append(can, "negative_ts", "delta_order", "delta_negative", "no_kind")
	switch x := v.Value.(type) {
	case *fpb.Value_IntValue:
		if x.IntValue.GetRange() != nil {
			can = append(can, "range_order", "outside", "step_order")
		} else if x.IntValue.GetList() != nil {
			can = append(can, "no_options")
		}
	case *fpb.Value_UintValue:
		if x.UintValue.GetRange() != nil {
			can = append(can, "range_order", "outside", "step_order")
		} else if x.UintValue.GetList() != nil {
			can = append(can, "no_options")
		}
	case *fpb.Value_DoubleValue:
		if x.DoubleValue.GetRange() != nil {
			can = append(can, "range_order", "outside", "step_order")
		} else if x.DoubleValue.GetList() != nil {
			can = append(can, "no_options")
		}
	case *fpb.Value_StringValue:
		if x.StringValue.GetList() != nil {
			can = append(can, "no_options")
		}
	case *fpb.Value_StringListValue:
		if x.StringListValue.GetList() != nil {
			can = append(can, "no_options")
		}
	case *fpb.Value_BoolValue:
		if x.BoolValue.GetList() != nil {
			can = append(can, "no_options")
		}
	}
	how := pick(g.Rand, can...)
	if v.Timestamp == nil {
		v.Timestamp = &fpb.Timestamp{}
	}
	switch how {
	case "negative_ts":
		v.Timestamp.Timestamp = -1 - int64(g.Intn(1000))
	case "delta_order":
		v.Timestamp.DeltaMin = v.Timestamp.DeltaMax + 1 + int64(g.Intn(5))
	case "delta_negative":
		v.Timestamp.DeltaMin = -1 - int64(g.Intn(5))
	case "no_kind":
		v.Value = nil
	case "range_order":
		if x := v.GetIntValue().GetRange(); x != nil {
			x.Minimum = x.Maximum + 1
		} else if x := v.GetUintValue().GetRange(); x != nil {
			x.Minimum = x.Maximum + 1
		} else if x := v.GetDoubleValue().GetRange(); x != nil {
			x.Minimum = x.Maximum + math.Abs(x.Maximum) + 1
		}
	case "outside":
		if x := v.GetIntValue(); x != nil {
			x.Value = pick(g.Rand, x.GetRange().Minimum-1, x.GetRange().Maximum+1)
		} else if x := v.GetUintValue(); x != nil {
			x.Value = x.GetRange().Maximum + 1
		} else if x := v.GetDoubleValue(); x != nil {
			x.Value = x.GetRange().Maximum + math.Abs(x.GetRange().Maximum) + 1
		}
	case "step_order":
		if x := v.GetIntValue().GetRange(); x != nil {
			x.DeltaMin, x.DeltaMax = 3, pick(g.Rand, int64(2), 0, -5)
		} else if x := v.GetUintValue().GetRange(); x != nil {
			x.DeltaMin, x.DeltaMax = 3, pick(g.Rand, int64(2), 0, -5)
		} else if x := v.GetDoubleValue().GetRange(); x != nil {
			x.DeltaMin, x.DeltaMax = 3, pick(g.Rand, 2.5, 0, -5)
		}
	case "no_options":
		switch x := v.Value.(type) {
		case *fpb.Value_IntValue:
			x.IntValue.GetList().Options = nil
		case *fpb.Value_UintValue:
			x.UintValue.GetList().Options = nil
		case *fpb.Value_DoubleValue:
			x.DoubleValue.GetList().Options = nil
		case *fpb.Value_StringValue:
			x.StringValue.GetList().Options = nil
		case *fpb.Value_StringListValue:
			x.StringListValue.GetList().Options = nil
		case *fpb.Value_BoolValue:
			x.BoolValue.GetList().Options = nil
		}
	}
	return how
}

// invalidRun: a value that cannot be advanced ends the stream with an error;
// it never emits values that break its own bounds.
func invalidRun(r *vk.Run, i int) {
	rng := r.Rand("invalid", i)
	g := &gen{Rand: rng}
	conf := g.values(4)
	if len(conf) == 0 {
		return
	}
	j := rng.Intn(len(conf))
	how := spoil(g, conf[j])
	conf[j].Repeat = int32(pick(rng, 0, 2, 3, 10))
	orig := clone(conf)
	bad := func(kind, format string, args ...any) {
		r.Violation(kind, "invalid run %d (%s of %s): %s\nconfiguration:\n%s", i, how, key(orig[j]), fmt.Sprintf(format, args...), show(orig))
	}
	q := queue.New(false, seedOf(rng), conf)
	m := newMonitor(orig, bad)
	_, err := drain(q, 2000, m.emit)
	if err == nil {
		bad("no_error", "the generator emitted %d updates without an error", m.n)
	}
	r.Eval(1)
	r.Count("invalid_refused_"+how, 1)
	r.Distinct(show(orig))
}

// extremeRun: ranges and timestamps at the limits of their types.
func extremeRun(r *vk.Run, i int) {
	rng := r.Rand("extreme", i)
	g := &gen{Rand: rng}
	v := g.value("delete")
	v.Repeat = int32(2 + rng.Intn(4))
	exI := func() int64 {
		return pick[int64](rng, math.MinInt64, math.MinInt64+1, -1<<62, -1, 0, 1, 1<<62, math.MaxInt64-1, math.MaxInt64)
	}
	exU := func() uint64 {
		return pick[uint64](rng, 0, 1, 1<<62, math.MaxInt64-1, math.MaxInt64, 1<<63, 1<<63+5, math.MaxUint64-1, math.MaxUint64)
	}
	exD := func() float64 {
		return pick(rng, -math.MaxFloat64, -1e300, -1, 0, math.SmallestNonzeroFloat64, 1, 1e300, math.MaxFloat64)
	}
	// The documented bounds need an interval whose size does not fit.
	known := ""
	size := func(lo, hi int64) {
		if hi-lo+1 <= 0 {
			known = "C20-range-size-overflow"
		}
	}
	judgeStep := true
	switch rng.Intn(4) {
	case 0:
		lo, hi := order(exI(), exI())
		x := &fpb.IntRange{Minimum: lo, Maximum: hi}
		val := pick(rng, lo, hi)
		if rng.Intn(2) == 0 {
			x.DeltaMin, x.DeltaMax = order(exI(), exI())
			judgeStep = false
		}
		if x.DeltaMin != 0 || x.DeltaMax != 0 {
			size(x.DeltaMin, x.DeltaMax)
		} else {
			size(lo, hi)
		}
		v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: val, Distribution: &fpb.IntValue_Range{Range: x}}}
	case 1:
		lo, hi := exU(), exU()
		if lo > hi {
			lo, hi = hi, lo
		}
		x := &fpb.UintRange{Minimum: lo, Maximum: hi}
		val := pick(rng, lo, hi)
		if rng.Intn(2) == 0 {
			x.DeltaMin, x.DeltaMax = order(exI(), exI())
			judgeStep = false
		}
		if x.DeltaMin != 0 || x.DeltaMax != 0 {
			size(x.DeltaMin, x.DeltaMax)
		} else {
			size(int64(lo), int64(hi))
		}
		v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: val, Distribution: &fpb.UintValue_Range{Range: x}}}
	case 2:
		lo, hi := exD(), exD()
		if lo > hi {
			lo, hi = hi, lo
		}
		x := &fpb.DoubleRange{Minimum: lo, Maximum: hi}
		if rng.Intn(2) == 0 {
			x.DeltaMin, x.DeltaMax = exD(), exD()
			if x.DeltaMin > x.DeltaMax {
				x.DeltaMin, x.DeltaMax = x.DeltaMax, x.DeltaMin
			}
			judgeStep = false
		}
		v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: pick(rng, lo, hi), Distribution: &fpb.DoubleValue_Range{Range: x}}}
	case 3:
		v.Timestamp.DeltaMax = pick[int64](rng, 0, 1<<62, math.MaxInt64-1, math.MaxInt64)
		v.Timestamp.DeltaMin = pick(rng, 0, v.Timestamp.DeltaMax)
		size(v.Timestamp.DeltaMin, v.Timestamp.DeltaMax)
		if rng.Intn(2) == 0 {
			v.Timestamp.Timestamp = pick[int64](rng, math.MaxInt64, math.MaxInt64-1)
		}
	}
	orig := proto.Clone(v).(*fpb.Value)
	q := queue.New(false, seedOf(rng), []*fpb.Value{v})
	var first string
	overflow := false
	m := newMonitor([]*fpb.Value{orig}, func(kind, format string, args ...any) {
		if !judgeStep && kind == "value" && strings.Contains(fmt.Sprintf(format, args...), "is not a step of") {
			return // only the range is claimed where the arithmetic of steps overflows
		}
		if first == "" {
			first = kind + ": " + fmt.Sprintf(format, args...)
		}
	})
	p := vk.Catch(func() {
		_, err := drain(q, 100, func(v *fpb.Value) {
			if m.n > 0 && v.Timestamp.Timestamp < m.t && m.t+orig.Timestamp.DeltaMax < m.t {
				overflow = true
			}
			m.emit(v)
		})
		if err != nil && m.n > 0 && m.t+orig.Timestamp.DeltaMax < m.t && strings.Contains(err.Error(), "timestamp must be positive") {
			overflow = true
		}
		if err != nil && !overflow {
			first = "error: " + err.Error()
		}
	})
	r.Eval(1)
	r.Count("extreme_values", m.n)
	r.Distinct(show([]*fpb.Value{orig}))
	if p != nil {
		if !p.InRepo() && !strings.Contains(fmt.Sprint(p.Value), "invalid argument to Int63n") {
			panic(fmt.Sprintf("%v\n%s", p.Value, p.Stack))
		}
		if known != "" && strings.Contains(fmt.Sprint(p.Value), "invalid argument to Int63n") {
			r.Known(known)
			return
		}
		r.Violation("panic", "extreme run %d: %v\nconfiguration: %v\n%s", i, p.Value, orig, p.Stack)
		return
	}
	if overflow {
		// The timestamp went beyond the largest one.
		r.Known("C20-timestamp-overflow")
		return
	}
	if first != "" {
		r.Violation("extreme", "extreme run %d: %s\nconfiguration: %v", i, first, orig)
	}
}

func fixedResponses(g *gen, n int) []*gpb.SubscribeResponse {
	var rs []*gpb.SubscribeResponse
	for k := range n {
		if g.Intn(8) == 0 {
			rs = append(rs, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}})
			continue
		}
		rs = append(rs, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{
			Timestamp: int64(g.Intn(1000)), Update: []*gpb.Update{{Path: fakestream.Path("f", fmt.Sprint(k)), Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(k)}}}}}}})
	}
	return rs
}

// fixedRun: the fixed queue hands out its responses in order, once.
func fixedRun(r *vk.Run, i int) {
	rng := r.Rand("fixed", i)
	g := &gen{Rand: rng}
	rs := fixedResponses(g, rng.Intn(12))
	delay := rng.Intn(2) == 0
	q := queue.NewFixed(rs[:len(rs):len(rs)], delay)
	all := append([]*gpb.SubscribeResponse(nil), rs...)
	addAt := rng.Intn(15)
	for k := 0; ; k++ {
		if k == addAt {
			x := fixedResponses(g, 1)
			q.Add(x[0])
			all = append(all, x[0])
		}
		x, err := q.Next()
		if err != nil {
			r.Violation("fixed", "fixed run %d: Next failed: %v", i, err)
			return
		}
		if x == nil {
			if k != len(all) {
				r.Violation("fixed", "fixed run %d: the queue ended after %d of %d responses", i, k, len(all))
			}
			break
		}
		if k >= len(all) || !proto.Equal(x.(*gpb.SubscribeResponse), all[k]) {
			r.Violation("fixed", "fixed run %d: response %d is %v", i, k, x)
			return
		}
		r.Count("fixed_responses", 1)
	}
	r.Eval(1)
}

// delayRun: honoring delays changes when the updates are emitted, not which.
func delayRun(r *vk.Run, i int) {
	rng := r.Rand("delay", i)
	g := &gen{Rand: rng, unbounded: true}
	conf := g.values(5)
	// The clock of a bubble starts at 2000; it must not run over.
	for _, v := range conf {
		if v.Timestamp == nil {
			v.Timestamp = &fpb.Timestamp{}
		}
		v.Timestamp.Timestamp %= 1e12
	}
	seed := seedOf(rng)
	orig := clone(conf)
	var want []*fpb.Value
	if _, err := drain(queue.New(false, seed, clone(conf)), 60, func(v *fpb.Value) { want = append(want, proto.Clone(v).(*fpb.Value)) }); err != nil {
		r.Violation("error", "delay run %d: Next() failed on a valid configuration: %v\n%s", i, err, show(orig))
		return
	}
	q := queue.New(true, seed, conf)
	k := 0
	start := time.Now()
	_, err := drain(q, 60, func(v *fpb.Value) {
		if k < len(want) {
			if !proto.Equal(v, want[k]) {
				r.Violation("not_reproducible", "delay run %d, seed %d: emission %d is {%v}, without delays {%v}\n%s", i, seed, k, v, want[k], show(orig))
			}
			if d, w := time.Since(start), v.Timestamp.Timestamp-want[0].Timestamp.Timestamp; int64(d) != w {
				r.Violation("delay", "delay run %d, seed %d: emission %d comes after %d ns, its timestamp is %d ns after the first one\n%s", i, seed, k, d, w, show(orig))
			}
		}
		k++
	})
	if err != nil || k != len(want) {
		r.Violation("not_reproducible", "delay run %d, seed %d: %d emissions (%v), without delays %d\n%s", i, seed, k, err, len(want), show(orig))
	}
	r.Eval(1)
	r.Count("delayed_emissions", k)
}

func subscribe(mode gpb.SubscriptionList_Mode, target string) *gpb.SubscribeRequest {
	return fakestream.Request(mode, &gpb.Path{Target: target}, false, fakestream.Path("*"))
}

// expect converts an emission as the fake target sends it.
func expect(v *fpb.Value, target string) *gpb.SubscribeResponse {
	if _, ok := v.Value.(*fpb.Value_Sync); ok {
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: v.GetSync() > 0}}
	}
	n := &gpb.Notification{Timestamp: v.Timestamp.Timestamp}
	if target != "" {
		n.Prefix = &gpb.Path{Target: target}
	}
	tv := &gpb.TypedValue{}
	switch x := v.Value.(type) {
	case *fpb.Value_Delete:
		n.Delete = []*gpb.Path{{Element: v.Path}}
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}}
	case *fpb.Value_IntValue:
		tv.Value = &gpb.TypedValue_IntVal{IntVal: x.IntValue.Value}
	case *fpb.Value_UintValue:
		tv.Value = &gpb.TypedValue_UintVal{UintVal: x.UintValue.Value}
	case *fpb.Value_DoubleValue:
		tv.Value = &gpb.TypedValue_DoubleVal{DoubleVal: x.DoubleValue.Value}
	case *fpb.Value_StringValue:
		tv.Value = &gpb.TypedValue_StringVal{StringVal: x.StringValue.Value}
	case *fpb.Value_BoolValue:
		tv.Value = &gpb.TypedValue_BoolVal{BoolVal: x.BoolValue.Value}
	case *fpb.Value_StringListValue:
		l := &gpb.ScalarArray{}
		for _, s := range x.StringListValue.Value {
			l.Element = append(l.Element, &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: s}})
		}
		tv.Value = &gpb.TypedValue_LeaflistVal{LeaflistVal: l}
	}
	n.Update = []*gpb.Update{{Path: &gpb.Path{Element: v.Path}, Val: tv}}
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}}
}

// respKey names the leaf of a response, or its sync.
func respKey(s *gpb.SubscribeResponse) string {
	if n := s.GetUpdate(); n != nil {
		for _, u := range n.Update {
			return strings.Join(u.Path.Element, "/")
		}
		for _, d := range n.Delete {
			return strings.Join(d.Element, "/")
		}
		return "?"
	}
	return "sync"
}

// judge checks one round of responses of a fake target against its
// configuration, without looking at the generator.
func judge(conf *fpb.Config, rs []*gpb.SubscribeResponse, bad func(kind, format string, args ...any)) {
	counts, want := map[string]int{}, map[string]int{}
	for _, v := range conf.Values {
		if _, ok := v.Value.(*fpb.Value_Sync); ok {
			want["sync"] += int(v.Repeat)
		} else {
			want[key(v)] = int(v.Repeat)
		}
	}
	ownSyncs := want["sync"]
	if !conf.DisableSync {
		want["sync"]++
	}
	t := int64(math.MinInt64)
	marker := false
	for k, s := range rs {
		if n := s.GetUpdate(); n != nil {
			if n.Timestamp < t {
				bad("order", "response %d has timestamp %d after one of %d", k, n.Timestamp, t)
			}
			t = n.Timestamp
		}
		rk := respKey(s)
		counts[rk]++
		if rk == "sync" {
			all := true
			for x, n := range want {
				if x != "sync" && n > 0 && counts[x] == 0 {
					all = false
				}
			}
			if all && s.GetSyncResponse() {
				marker = true
			} else if !all && ownSyncs == 0 {
				bad("early_sync", "response %d is the sync marker, before the first emission of every configured value", k)
			}
		}
	}
	if !conf.DisableSync && !marker {
		bad("no_sync", "no sync marker after the first emission of every configured value")
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range counts {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if counts[k] != want[k] {
			bad("repeat", "%s is sent %d times, expected %d", k, counts[k], want[k])
		}
	}
}

// clientRun: the responses of the fake target's client handler.
func clientRun(r *vk.Run, i int) {
	rng := r.Rand("client", i)
	g := &gen{Rand: rng}
	conf := &fpb.Config{Target: "dev", Seed: seedOf(rng), Values: g.values(pick(rng, 6, 6, 24)), DisableSync: rng.Intn(4) == 0, DisableEof: rng.Intn(3) == 0, EnableDelay: rng.Intn(3) == 0}
	for _, v := range conf.Values {
		if v.Timestamp == nil {
			v.Timestamp = &fpb.Timestamp{}
		}
		if conf.EnableDelay {
			v.Timestamp.Timestamp %= 1e12
		}
	}
	var fixed []*gpb.SubscribeResponse
	if rng.Intn(6) == 0 {
		fixed = fixedResponses(g, rng.Intn(8))
		conf.Generator = &fpb.Config_Fixed{Fixed: &fpb.FixedGenerator{Responses: fixed}}
		conf.Values = nil
	}
	mode := pick(rng, gpb.SubscriptionList_STREAM, gpb.SubscriptionList_ONCE, gpb.SubscriptionList_POLL)
	if mode == gpb.SubscriptionList_POLL {
		conf.DisableEof = false
	}
	random := false
	if fixed == nil && rng.Intn(50) == 0 && len(conf.Values) > 0 {
		// The generator that replaces the deprecated fields.
		random = true
		conf.Generator = &fpb.Config_Random{Random: &fpb.RandomGenerator{Seed: conf.Seed, Values: conf.Values}}
		conf.Values, conf.Seed = nil, 0
	}
	target := pick(rng, "", "dev")
	orig := proto.Clone(conf).(*fpb.Config)
	bad := func(kind, format string, args ...any) {
		r.Violation(kind, "client run %d (%v): %s\nconfiguration:\n%s", i, mode, fmt.Sprintf(format, args...), prototext.Format(orig))
	}
	// What is to be sent in a round.
	var want []*gpb.SubscribeResponse
	if fixed != nil {
		for _, s := range fixed {
			s = proto.Clone(s).(*gpb.SubscribeResponse)
			if n := s.GetUpdate(); n != nil && target != "" {
				n.Prefix = &gpb.Path{Target: target}
			}
			want = append(want, s)
		}
		if !conf.DisableSync {
			want = append(want, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}})
		}
	} else if !random {
		vs := clone(conf.Values)
		if !conf.DisableSync {
			last := int64(0)
			for _, v := range vs {
				last = max(last, v.Timestamp.GetTimestamp())
			}
			vs = append(vs, &fpb.Value{Timestamp: &fpb.Timestamp{Timestamp: last}, Repeat: 1, Value: &fpb.Value_Sync{Sync: 1}})
		}
		if _, err := drain(queue.New(false, conf.Seed, vs), 10000, func(v *fpb.Value) { want = append(want, expect(v, target)) }); err != nil {
			bad("error", "Next() failed on a valid configuration: %v", err)
			return
		}
	}
	// Two clients of the same configuration at once.
	n := 1 + rng.Intn(2)
	rounds := 1
	if mode == gpb.SubscriptionList_POLL {
		rounds = 1 + rng.Intn(3)
	}
	var clients []*fgnmi.Client
	var streams []*fakestream.Stream
	for range n {
		s := fakestream.New(context.Background(), "client")
		c := fgnmi.NewClient(conf)
		s.Request(subscribe(mode, target))
		go s.Serve(func(x gpb.GNMI_SubscribeServer) error { return c.Run(x) })
		clients, streams = append(clients, c), append(streams, s)
	}
	pos := make([]int, n)
	for round := range rounds {
		if round > 0 {
			for _, s := range streams {
				s.Request(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}})
			}
		}
		// Longer than all delays.
		time.Sleep(48 * time.Hour)
		synctest.Wait()
		for k, s := range streams {
			rs := s.Responses(pos[k])
			pos[k] += len(rs)
			if random {
				cnt := 0
				for _, x := range rs {
					if respKey(x) != "sync" {
						cnt++
					}
				}
				if cnt == 0 {
					r.Known("C20-random-generator-ignored")
				} else {
					oc := proto.Clone(orig).(*fpb.Config)
					oc.Values = orig.GetRandom().Values
					judge(oc, rs, bad)
				}
				continue
			}
			if fixed == nil {
				judge(orig, rs, bad)
			}
			if len(rs) != len(want) {
				bad("responses", "client %d received %d responses in round %d, expected %d", k, len(rs), round, len(want))
			}
			for j := 0; j < len(rs) && j < len(want); j++ {
				if !proto.Equal(rs[j], want[j]) {
					bad("responses", "response %d of client %d in round %d is {%v}, expected {%v}", j, k, round, rs[j], want[j])
					break
				}
			}
			r.Count("client_responses", len(rs))
			r.Count("client_rounds", 1)
		}
	}
	for k, s := range streams {
		done, _ := s.Err()
		held := mode == gpb.SubscriptionList_POLL || conf.DisableEof
		if done == held {
			bad("end", "client %d: stream ended: %v; disable_eof is %v", k, done, conf.DisableEof)
		}
		// A client waiting for a poll is released by one.
		clients[k].Close()
		s.Request(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}})
		synctest.Wait()
		s.Cancel()
	}
	synctest.Wait()
	r.Eval(1)
	r.Distinct(prototext.Format(orig), mode)
}

// agentRun: the same over real connections.
func agentRun(r *vk.Run, i int) {
	rng := r.Rand("agent", i)
	g := &gen{Rand: rng}
	conf := &fpb.Config{Target: "dev", Seed: seedOf(rng), Values: g.values(6)}
	for _, v := range conf.Values {
		if v.Timestamp == nil {
			v.Timestamp = &fpb.Timestamp{}
		}
	}
	orig := proto.Clone(conf).(*fpb.Config)
	bad := func(kind, format string, args ...any) {
		r.Violation(kind, "agent run %d: %s\nconfiguration:\n%s", i, fmt.Sprintf(format, args...), prototext.Format(orig))
	}
	a, err := fgnmi.New(conf, nil)
	if err != nil {
		r.Inconclusive("agent: %v", err)
		return
	}
	defer a.Close()
	n := 1 + rng.Intn(4)
	all := make([][]*gpb.SubscribeResponse, n)
	var wg sync.WaitGroup
	for k := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cc, err := grpc.NewClient("passthrough:///"+a.Address(), grpc.WithTransportCredentials(insecure.NewCredentials()))
			if err != nil {
				return
			}
			defer cc.Close()
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			s, err := gpb.NewGNMIClient(cc).Subscribe(ctx)
			if err != nil {
				return
			}
			s.Send(subscribe(gpb.SubscriptionList_STREAM, ""))
			for {
				x, err := s.Recv()
				if err != nil {
					return
				}
				all[k] = append(all[k], x)
			}
		}()
	}
	wg.Wait()
	for k, rs := range all {
		judge(orig, rs, bad)
		if len(rs) != len(all[0]) {
			bad("not_reproducible", "client %d received %d responses, client 0 %d", k, len(rs), len(all[0]))
			continue
		}
		for j := range rs {
			if !proto.Equal(rs[j], all[0][j]) {
				bad("not_reproducible", "response %d of client %d is {%v}, of client 0 {%v}", j, k, rs[j], all[0][j])
				break
			}
		}
		r.Count("agent_responses", len(rs))
	}
	r.Eval(1)
}
