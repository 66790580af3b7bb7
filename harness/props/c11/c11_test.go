// Package c11 checks property C11: the coalescing queue.
package c11

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/openconfig/gnmi/coalesce"

	"verifharness/sched"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C11", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		if os.Getenv("VERIF_BUILD") == "race" {
			r.Until(1, 4)
			for i, n := 0, r.N(4000, 150000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					linearizable(r, i)
				}
			}
			r.Until(2, 4)
			for i, n := 0, r.N(150, 4000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					stress(r, i)
				}
			}
			return
		}
		exhaustive(r)
		r.Until(3, 4)
		for i, n := 0, r.N(3000, 60000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				random(r, i)
			}
		}
		r.Until(4, 4)
		for i, n := 0, r.N(3000, 60000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				wakeup(t, r, i)
			}
		}
	})
}

// entry is a pending item.
type entry struct {
	item any
	dups uint32
}

// model is the specification of the queue.
type model struct {
	q      []entry
	closed bool
}

func (m *model) insert(i any) (bool, bool) {
	if m.closed {
		return false, true
	}
	for k := range m.q {
		if m.q[k].item == i {
			m.q[k].dups++
			return false, false
		}
	}
	m.q = append(m.q, entry{i, 0})
	return true, false
}

var cancelled = func() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}()

// step runs one operation on queue and model and returns what went wrong.
func step(q *coalesce.Queue, m *model, op int, item any) (desc, bad string) {
	switch op {
	case 0:
		ok, err := q.Insert(item)
		wok, closed := m.insert(item)
		desc = fmt.Sprintf("Insert(%v)=%v,%v", item, ok, err)
		if ok != wok || (err != nil) != closed || err != nil && !coalesce.IsClosedQueue(err) {
			bad = fmt.Sprintf("expected %v, refused: %v", wok, closed)
		}
	case 1, 2:
		ctx := context.Background()
		if op == 2 || len(m.q) == 0 && !m.closed {
			ctx = cancelled
		}
		i, dups, err := q.Next(ctx)
		desc = fmt.Sprintf("Next=%v,%d,%v", i, dups, err)
		switch {
		case len(m.q) > 0:
			if err != nil && ctx == cancelled && err == ctx.Err() {
				break // It may look at the context first; nothing is lost.
			}
			e := m.q[0]
			m.q = m.q[1:]
			if err != nil || i != e.item || dups != e.dups {
				bad = fmt.Sprintf("expected %v,%d", e.item, e.dups)
			}
		case err == nil:
			bad = "the queue is empty"
		case m.closed && coalesce.IsClosedQueue(err):
		case ctx == cancelled && err == ctx.Err():
		default:
			bad = fmt.Sprintf("wrong error, closed: %v, context cancelled: %v", m.closed, ctx == cancelled)
		}
	case 3:
		n := q.Len()
		desc = fmt.Sprintf("Len=%d", n)
		if n != len(m.q) {
			bad = fmt.Sprintf("expected %d", len(m.q))
		}
	case 4:
		q.Close()
		m.closed = true
		desc = "Close"
	case 5:
		c := q.IsClosed()
		desc = fmt.Sprintf("IsClosed=%v", c)
		if c != m.closed {
			bad = fmt.Sprintf("expected %v", m.closed)
		}
	}
	return desc, bad
}

// exhaustive runs all sequences of a length over three items.
func exhaustive(r *vk.Run) {
	type op struct {
		op   int
		item any
	}
	ops := []op{{0, "a"}, {0, "b"}, {0, "c"}, {1, nil}, {2, nil}, {3, nil}, {4, nil}}
	length := r.N(6, 8)
	total := 1
	for i := 0; i < length; i++ {
		total *= len(ops)
	}
	n := 0
	for code := 0; code < total && !r.TooMany(); code++ {
		if !r.Mine(code) {
			continue
		}
		n++
		if n%1024 == 1 {
			r.Journal("sequence %d", code)
		}
		q, m := coalesce.NewQueue(), &model{}
		var log []string
		c := code
		r.Guard("exhaustive", fmt.Sprint("sequence ", code), func() {
			for i := 0; i < length; i++ {
				o := ops[c%len(ops)]
				c /= len(ops)
				d, bad := step(q, m, o.op, o.item)
				log = append(log, d)
				if bad != "" {
					r.Violation("sequence", "%s: %s", strings.Join(log, "; "), bad)
					return
				}
			}
			drain(r, q, m, &log)
		})
		r.Eval(1)
		r.DistinctHash(uint64(code))
	}
	r.Count("sequences_exhaustive", n)
}

// drain closes the queue and receives all that is left.
func drain(r *vk.Run, q *coalesce.Queue, m *model, log *[]string) {
	for _, op := range []int{4, 3, 5, 0} {
		d, bad := step(q, m, op, "z")
		*log = append(*log, d)
		if bad != "" {
			r.Violation("sequence", "%s: %s", strings.Join(*log, "; "), bad)
			return
		}
	}
	for k := len(m.q); k >= 0; k-- {
		d, bad := step(q, m, 1, nil)
		*log = append(*log, d)
		if bad != "" {
			r.Violation("sequence", "%s: %s", strings.Join(*log, "; "), bad)
			return
		}
	}
}

type key struct {
	a int
	b string
}

// random runs long sequences over items of several types.
func random(r *vk.Run, i int) {
	rnd := r.Rand("random", i)
	var items []any
	x := new(int)
	all := []any{nil, 0, "", "a", 1, 1.0, uint8(1), key{1, "a"}, key{1, "b"}, x, new(int), &key{}, true, [2]int{1, 2}}
	for k := 1 + rnd.Intn(len(all)); k > 0; k-- {
		items = append(items, all[rnd.Intn(len(all))])
	}
	if rnd.Intn(4) == 0 {
		for k := 0; k < 200; k++ {
			items = append(items, k)
		}
	}
	bias := 1 + rnd.Intn(5)
	q, m := coalesce.NewQueue(), &model{}
	var log []string
	r.Journal("random %d", i)
	r.Guard("random", fmt.Sprint("history ", i), func() {
		for k := 20 + rnd.Intn(400); k > 0; k-- {
			op := 0
			if rnd.Intn(6) >= bias {
				op = 1 + rnd.Intn(2)
			}
			switch rnd.Intn(100) {
			case 0, 1, 2, 3:
				op = 3
			case 4:
				op = 5
			case 5:
				if rnd.Intn(4) == 0 {
					op = 4
				}
			}
			d, bad := step(q, m, op, items[rnd.Intn(len(items))])
			log = append(log, d)
			if bad != "" {
				r.Violation("sequence", "%s: %s", strings.Join(log, "; "), bad)
				return
			}
		}
		drain(r, q, m, &log)
	})
	r.Eval(1)
	r.Distinct("random", strings.Join(log, ";"))
	r.Count("sequences_random", 1)
}

// Linearizability of recorded concurrent histories.

type input struct {
	op   string // insert, next, len, close, isclosed
	item int
	// overlaps tells that an insert was called before Close returned.
	overlaps bool
}

type output struct {
	ok     bool
	item   int
	dups   uint32
	n      int
	err    string // "", closed, cancelled
	closed bool
}

var spec = porcupine.Model{
	Init: func() any { return "|" },
	Step: func(state, in, out any) (bool, any) {
		m := decode(state.(string))
		i, o := in.(input), out.(output)
		switch i.op {
		case "insert":
			if o.err != "" {
				return m.closed, state
			}
			if m.closed && !i.overlaps {
				return false, state
			}
			c := m.closed
			m.closed = false
			ok, _ := m.insert(i.item)
			m.closed = c
			return ok == o.ok, encode(m)
		case "next":
			switch o.err {
			case "closed":
				return m.closed && len(m.q) == 0, state
			case "cancelled":
				return true, state
			}
			if len(m.q) == 0 || m.q[0].item != o.item || m.q[0].dups != o.dups {
				return false, state
			}
			m.q = m.q[1:]
			return true, encode(m)
		case "len":
			return len(m.q) == o.n, state
		case "close":
			m.closed = true
			return true, encode(m)
		case "isclosed":
			return m.closed == o.closed, state
		}
		return false, state
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func encode(m *model) string {
	var sb strings.Builder
	if m.closed {
		sb.WriteByte('c')
	}
	sb.WriteByte('|')
	for _, e := range m.q {
		fmt.Fprintf(&sb, "%d:%d,", e.item, e.dups)
	}
	return sb.String()
}

func decode(s string) *model {
	m := &model{}
	if s[0] == 'c' {
		m.closed = true
		s = s[1:]
	}
	for _, f := range strings.Split(s[1:], ",") {
		if f == "" {
			continue
		}
		var i int
		var d uint32
		fmt.Sscanf(f, "%d:%d", &i, &d)
		m.q = append(m.q, entry{i, d})
	}
	return m
}

// linearizable records a small concurrent history of producers, one consumer,
// a closer and an observer, and checks it against the specification.
func linearizable(r *vk.Run, i int) {
	rnd := r.Rand("linearizable", i)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(150))*time.Microsecond)
	defer sched.Off()
	q := coalesce.NewQueue()
	producers := 1 + rnd.Intn(4)
	per := 1 + rnd.Intn(5)
	items := 1 + rnd.Intn(4)
	closing := rnd.Intn(3) > 0
	waitClose := rnd.Intn(3) == 0
	r.Journal("linearizable %d: %s, %d producers x %d of %d items, closing %v", i, how, producers, per, items, closing)
	var clock atomic.Int64
	var mu sync.Mutex
	var hist []porcupine.Operation
	record := func(id int, in input, call, ret int64, out output) {
		mu.Lock()
		hist = append(hist, porcupine.Operation{ClientId: id, Input: in, Call: call, Output: out, Return: ret})
		mu.Unlock()
	}
	ctx, cancel := context.WithCancel(context.Background())
	var prod, cons sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < producers; p++ {
		pr := rand.New(rand.NewSource(rnd.Int63()))
		prod.Add(1)
		go func() {
			defer prod.Done()
			<-start
			for k := 0; k < per; k++ {
				it := pr.Intn(items)
				c := clock.Add(1)
				ok, err := q.Insert(it)
				out := output{ok: ok}
				if err != nil {
					out.err = "closed"
					if !coalesce.IsClosedQueue(err) {
						out.err = err.Error()
					}
				}
				record(p, input{op: "insert", item: it}, c, clock.Add(1), out)
				if pr.Intn(6) == 0 {
					c := clock.Add(1)
					n := q.Len()
					record(p, input{op: "len"}, c, clock.Add(1), output{n: n})
				}
			}
		}()
	}
	cons.Add(1)
	cr := rand.New(rand.NewSource(rnd.Int63()))
	go func() {
		defer cons.Done()
		<-start
		for {
			cctx := ctx
			if cr.Intn(4) == 0 {
				c2, cc := context.WithTimeout(ctx, time.Duration(cr.Intn(200))*time.Microsecond)
				cctx = c2
				defer cc()
			}
			c := clock.Add(1)
			v, dups, err := q.Next(cctx)
			out := output{dups: dups}
			switch {
			case err == nil:
				out.item = v.(int)
			case coalesce.IsClosedQueue(err):
				out.err = "closed"
			case cctx.Err() != nil && err == cctx.Err():
				out.err = "cancelled"
			default:
				out.err = "unexpected: " + err.Error()
			}
			record(100, input{op: "next"}, c, clock.Add(1), out)
			if out.err == "closed" || out.err == "cancelled" && ctx.Err() != nil {
				return
			}
		}
	}()
	doClose := func() {
		c := clock.Add(1)
		q.Close()
		record(101, input{op: "close"}, c, clock.Add(1), output{})
		c = clock.Add(1)
		b := q.IsClosed()
		record(101, input{op: "isclosed"}, c, clock.Add(1), output{closed: b})
	}
	if closing && !waitClose {
		prod.Add(1)
		d := time.Duration(rnd.Intn(150)) * time.Microsecond
		go func() {
			defer prod.Done()
			<-start
			time.Sleep(d)
			doClose()
		}()
	}
	close(start)
	prod.Wait()
	if closing && waitClose {
		doClose()
	}
	if closing {
		// The consumer ends by itself.
		done := make(chan struct{})
		go func() { cons.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			r.Violation("lost-wakeup", "the consumer of a closed queue does not return within 60 s (%s)", how)
		}
	} else {
		// Everything must arrive before it is cancelled.
		deadline := time.Now().Add(60 * time.Second)
		for q.Len() > 0 {
			if time.Now().After(deadline) {
				r.Violation("lost-wakeup", "the consumer does not take pending items within 60 s (%s)", how)
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	cancel()
	cons.Wait()
	closeReturn := int64(1) << 60
	for _, o := range hist {
		if o.Input.(input).op == "close" {
			closeReturn = o.Return
		}
	}
	for k := range hist {
		in := hist[k].Input.(input)
		in.overlaps = hist[k].Call < closeReturn
		hist[k].Input = in
	}
	sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
	res := porcupine.CheckOperationsTimeout(spec, hist, 20*time.Second)
	var sb strings.Builder
	overlapping := 0
	var maxRet int64
	for _, o := range hist {
		fmt.Fprintf(&sb, "  [%d,%d] client %d: %+v -> %+v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		if o.Call < maxRet {
			overlapping++
		}
		maxRet = max(maxRet, o.Return)
	}
	switch res {
	case porcupine.Illegal:
		r.Violation("linearizability", "a history of the queue has no sequential explanation (%s):\n%s", how, sb.String())
	case porcupine.Unknown:
		r.Count("histories_undecided", 1)
	default:
		r.Count("histories_linearizable", 1)
	}
	r.Count("history_operations", len(hist))
	r.Count("history_overlapping_operations", overlapping)
	r.Eval(1)
	r.Distinct("lin", sb.String())
	if i < 2 {
		r.Sample("%s\n%s", how, sb.String())
	}
}

// stress runs many producers against one consumer and checks conservation,
// the order of items inserted once, and the end.
func stress(r *vk.Run, i int) {
	rnd := r.Rand("stress", i)
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(200))*time.Microsecond)
	defer sched.Off()
	q := coalesce.NewQueue()
	producers := 2 + rnd.Intn(15)
	per := 50 + rnd.Intn(300)
	shared := 1 + rnd.Intn(20)
	r.Journal("stress %d: %s, %d producers x %d, %d shared items", i, how, producers, per, shared)
	type uniq struct{ p, k int }
	inserted := make([]map[any]int, producers)
	firsts := make([]int, producers)
	var prod sync.WaitGroup
	for p := 0; p < producers; p++ {
		pr := rand.New(rand.NewSource(rnd.Int63()))
		m := map[any]int{}
		inserted[p] = m
		prod.Add(1)
		go func() {
			defer prod.Done()
			for k := 0; k < per; k++ {
				var it any = pr.Intn(shared)
				if pr.Intn(3) == 0 {
					it = uniq{p, k}
				}
				ok, err := q.Insert(it)
				if err != nil {
					r.Violation("refused", "an insertion into an open queue fails: %v (%s)", err, how)
					return
				}
				if ok {
					firsts[p]++
				}
				m[it]++
			}
		}()
	}
	got := map[any]int{}
	deliveries := 0
	last := map[int]int{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			v, dups, err := q.Next(context.Background())
			if err != nil {
				if !coalesce.IsClosedQueue(err) {
					r.Violation("next-error", "Next fails: %v (%s)", err, how)
				}
				return
			}
			got[v] += 1 + int(dups)
			deliveries++
			if u, ok := v.(uniq); ok {
				if l, ok := last[u.p]; ok && l > u.k {
					r.Violation("order", "item %d of producer %d is delivered after item %d (%s)", u.k, u.p, l, how)
				}
				last[u.p] = u.k
			}
		}
	}()
	prod.Wait()
	q.Close()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Violation("lost-wakeup", "the consumer of a closed queue does not return within 60 s (%s)", how)
		return
	}
	want := map[any]int{}
	nfirst := 0
	for p := range inserted {
		for k, v := range inserted[p] {
			want[k] += v
		}
		nfirst += firsts[p]
	}
	total := 0
	for k, v := range want {
		total += v
		if got[k] != v {
			r.Violation("conservation", "item %v was inserted %d times; its deliveries and duplicates add up to %d (%s)", k, v, got[k], how)
		}
	}
	if len(got) != len(want) {
		r.Violation("conservation", "%d items were delivered, %d inserted (%s)", len(got), len(want), how)
	}
	if nfirst != deliveries {
		r.Violation("conservation", "%d insertions were reported as new, %d items delivered (%s)", nfirst, deliveries, how)
	}
	r.Eval(1)
	r.Distinct("stress", i)
	r.Count("stress_insertions", total)
	r.Count("stress_deliveries", deliveries)
}

// wakeup checks in virtual time that a consumer does not stay asleep.
func wakeup(t *testing.T, r *vk.Run, i int) {
	rnd := r.Rand("wakeup", i)
	var how string
	if len(sched.Points) > 0 && rnd.Intn(2) == 0 {
		how = sched.Target(rnd, 1+i%len(sched.Points), time.Duration(10+rnd.Intn(100))*time.Microsecond)
	} else {
		how = sched.Pick(rnd, 50*time.Microsecond)
	}
	defer sched.Off()
	rounds := 1 + rnd.Intn(8)
	producers := 1 + rnd.Intn(4)
	r.Journal("wakeup %d: %s, %d producers, %d rounds", i, how, producers, rounds)
	synctest.Test(t, func(t *testing.T) {
		q := coalesce.NewQueue()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var nexts atomic.Int64
		var wait atomic.Bool
		done := make(chan struct{})
		var end error
		received := 0
		pause := time.Duration(rnd.Intn(2)) * time.Millisecond
		go func() {
			defer close(done)
			for {
				wait.Store(true)
				_, dups, err := q.Next(ctx)
				wait.Store(false)
				nexts.Add(1)
				if err != nil {
					end = err
					return
				}
				received += 1 + int(dups)
				if pause > 0 {
					time.Sleep(pause)
				}
			}
		}()
		settle := func() bool {
			for k := 0; k < 200; k++ {
				synctest.Wait()
				if wait.Load() || end != nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
			select {
			case <-done:
				return false
			default:
			}
			if q.Len() > 0 {
				r.Violation("lost-wakeup", "the consumer sleeps in Next while %d items are pending (%s)", q.Len(), how)
				return false
			}
			return true
		}
		sent := 0
		var log []string
		for k := 0; k < rounds; k++ {
			var wg sync.WaitGroup
			for p := 0; p < producers; p++ {
				n := 1 + rnd.Intn(3)
				base := rnd.Intn(3)
				sent += n
				log = append(log, fmt.Sprint(n, base))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for x := 0; x < n; x++ {
						if _, err := q.Insert(base + x); err != nil {
							r.Violation("refused", "an insertion into an open queue fails: %v (%s)", err, how)
						}
					}
				}()
			}
			if rnd.Intn(2) == 0 {
				wg.Wait()
			}
			if k < rounds-1 || rnd.Intn(2) == 0 {
				if !settle() {
					q.Close()
					cancel()
					return
				}
			}
			wg.Wait()
		}
		// The end: by close or by cancellation, sometimes with items pending.
		ending := rnd.Intn(3)
		var wg sync.WaitGroup
		switch ending {
		case 0:
			q.Close()
		case 1:
			cancel()
		case 2:
			wg.Add(1)
			go func() { defer wg.Done(); q.Close() }()
			q.Close()
		}
		wg.Wait()
		for k := 0; k < 200; k++ {
			synctest.Wait()
			if end != nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
		select {
		case <-done:
			if ending != 1 && received != sent {
				r.Violation("conservation", "%d insertions completed before the close, %d were delivered (%s)", sent, received, how)
			}
			if ending == 1 && end != context.Canceled || ending != 1 && !coalesce.IsClosedQueue(end) {
				r.Violation("next-error", "the consumer ends with %v (ending %d, %s)", end, ending, how)
			}
		default:
			r.Violation("lost-wakeup", "the consumer sleeps in Next, closed: %v, context: %v, pending: %d (%s)", q.IsClosed(), ctx.Err(), q.Len(), how)
			q.Close()
			cancel()
			time.Sleep(time.Second)
			q.Insert("wake")
			return
		}
		r.Distinct("wakeup", strings.Join(log, " "), pause, ending, how)
		r.Count("wakeup_insertions", sent)
		r.Count("wakeups_observed", int(nexts.Load()))
	})
	r.Eval(1)
	r.Count("wakeup_runs", 1)
}
