// Package c16 checks property C16: shared connections are counted correctly.
package c16

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"

	"github.com/openconfig/gnmi/connection"

	"verifharness/sched"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C16", func(t *testing.T, r *vk.Run) {
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		if !race {
			exhaustive(t, r)
			r.Until(1, 2)
			for i, n := 0, r.N(40000, 1000000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Journal("script %d", i)
					rnd := r.Rand("script", i)
					synctest.Test(t, func(t *testing.T) {
						w := newWorld(r, 1+rnd.Intn(3))
						w.random(rnd, 5+rnd.Intn(40))
						r.Distinct(w.trace.String())
					})
				}
			}
		}
		n := r.N(24000, 600000)
		if race {
			n = r.N(6000, 200000)
		}
		r.Until(2, 2)
		for i := 0; i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				concurrent(r, i, race)
			}
		}
	})
}

func newConn(addr string) *grpc.ClientConn {
	cc, err := grpc.NewClient("passthrough:///"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc
}

func closed(cc *grpc.ClientConn) bool { return cc.GetState() == connectivity.Shutdown }

// Scripts: every step is followed by quiescence, so that a model tells
// everything.

type request struct {
	id     int
	addr   string
	ctx    context.Context
	cancel context.CancelFunc
	ret    chan struct{}
	conn   *grpc.ClientConn
	done   func()
	err    error
	// The model.
	waiting  bool
	owns     *mconn // conn it shall hold
	wantErr  error  // error it shall get
	anyErr   bool
	released int
	judged   bool
}

type outcome struct {
	cc  *grpc.ClientConn
	err error
}

// mconn is an address's entry of the model.
type mconn struct {
	addr    string
	dialing bool
	first   *request
	waiters []*request
	cc      *grpc.ClientConn
	refs    int
	// ignores: the dial ignores its context.
	result chan outcome
}

type world struct {
	r      *vk.Run
	m      *connection.Manager
	addrs  []string
	model  map[string]*mconn
	reqs   []*request
	conns  map[*grpc.ClientConn]*mconn
	trace  strings.Builder
	broken bool

	mu       sync.Mutex
	inFlight map[string]int
	dials    map[string]int // observed
	want     map[string]int // expected
	pending  map[string]chan outcome
	obey     map[string]bool
	late     string
}

func newWorld(r *vk.Run, addrs int) *world {
	w := &world{r: r, model: map[string]*mconn{}, conns: map[*grpc.ClientConn]*mconn{}, inFlight: map[string]int{}, dials: map[string]int{}, want: map[string]int{}, pending: map[string]chan outcome{}, obey: map[string]bool{}}
	for i := 0; i < addrs; i++ {
		w.addrs = append(w.addrs, fmt.Sprint("addr", i))
	}
	var err error
	w.m, err = connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: w.dial, "second": w.dial})
	if err != nil {
		panic(err)
	}
	return w
}

func (w *world) dial(ctx context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
	ch := make(chan outcome, 1)
	w.mu.Lock()
	w.inFlight[addr]++
	if w.inFlight[addr] > 1 {
		w.late = fmt.Sprintf("%d dials of %s are in flight", w.inFlight[addr], addr)
	}
	w.dials[addr]++
	w.pending[addr] = ch
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.inFlight[addr]--
		w.mu.Unlock()
	}()
	for {
		select {
		case o := <-ch:
			return o.cc, o.err
		case <-ctx.Done():
			w.mu.Lock()
			obey := w.obey[addr]
			w.mu.Unlock()
			if obey {
				return nil, ctx.Err()
			}
			o := <-ch
			return o.cc, o.err
		}
	}
}

func (w *world) fail(format string, args ...any) {
	if !w.broken {
		w.broken = true
		w.r.Violation("script", "%s\nafter the steps\n%s", fmt.Sprintf(format, args...), w.trace.String())
	}
}

// settle waits for quiescence and compares everything with the model.
func (w *world) settle() {
	synctest.Wait()
	w.mu.Lock()
	late := w.late
	for _, a := range w.addrs {
		if w.dials[a] != w.want[a] {
			late = fmt.Sprintf("%s was dialled %d times, want %d", a, w.dials[a], w.want[a])
		}
		want := 0
		if c := w.model[a]; c != nil && c.dialing {
			want = 1
		}
		if w.inFlight[a] != want {
			late = fmt.Sprintf("%d dials of %s are in flight, want %d", w.inFlight[a], a, want)
		}
	}
	w.mu.Unlock()
	if late != "" {
		w.fail("%s", late)
		return
	}
	for _, q := range w.reqs {
		returned := false
		select {
		case <-q.ret:
			returned = true
		default:
		}
		if returned == q.waiting {
			w.fail("request %d of %s: returned %v, want %v", q.id, q.addr, returned, !q.waiting)
			return
		}
		if !returned || q.judged {
			continue
		}
		q.judged = true
		if q.done == nil {
			w.fail("request %d of %s returned no function to release it (error %v)", q.id, q.addr, q.err)
			return
		}
		if q.owns != nil {
			if q.err != nil || q.conn != q.owns.cc {
				w.fail("request %d of %s returned connection %p and error %v, want the shared connection %p", q.id, q.addr, q.conn, q.err, q.owns.cc)
				return
			}
			w.r.Count("shared_connections_checked", 1)
			continue
		}
		if q.err == nil || q.conn != nil || !q.anyErr && !errors.Is(q.err, q.wantErr) {
			w.fail("request %d of %s returned connection %p and error %v, want the error %v", q.id, q.addr, q.conn, q.err, q.wantErr)
			return
		}
		w.r.Count("shared_errors_checked", 1)
	}
	for cc, c := range w.conns {
		if got, want := closed(cc), c.refs == 0; got != want {
			w.fail("the connection to %s with %d holders: closed is %v", c.addr, c.refs, got)
			return
		}
	}
	w.r.Count("states_checked", 1)
}

func (w *world) step(format string, args ...any) {
	fmt.Fprintf(&w.trace, "  "+format+"\n", args...)
}

// ask begins a request.
func (w *world) ask(addr, dialer string, cancelled bool) {
	q := &request{id: len(w.reqs), addr: addr, ret: make(chan struct{})}
	q.ctx, q.cancel = context.WithCancel(context.Background())
	w.step("request %d of %s, dialer %q, cancelled %v", q.id, addr, dialer, cancelled)
	if cancelled {
		q.cancel()
	}
	c := w.model[addr]
	switch {
	case cancelled:
		q.wantErr = context.Canceled
	case c != nil && c.dialing:
		q.waiting = true
		c.waiters = append(c.waiters, q)
		w.r.Count("joins_of_dials", 1)
	case c != nil:
		c.refs++
		q.owns = c
		w.r.Count("joins_of_connections", 1)
	case dialer == "unknown":
		q.anyErr = true
	default:
		c = &mconn{addr: addr, dialing: true, first: q, waiters: []*request{q}}
		w.model[addr] = c
		w.want[addr]++
		q.waiting = true
	}
	w.reqs = append(w.reqs, q)
	go func() {
		q.conn, q.done, q.err = w.m.Connection(q.ctx, addr, dialer)
		close(q.ret)
	}()
	w.settle()
}

// resolve ends the dial of addr.
func (w *world) resolve(addr string, err error) {
	c := w.model[addr]
	w.step("the dial of %s ends: %v", addr, err)
	w.mu.Lock()
	ch := w.pending[addr]
	w.mu.Unlock()
	o := outcome{err: err}
	if err == nil {
		o.cc = newConn(addr)
	}
	w.ended(c, o)
	ch <- o
	w.settle()
}

// ended updates the model when a dial ends.
func (w *world) ended(c *mconn, o outcome) {
	c.dialing = false
	for _, q := range c.waiters {
		q.waiting = false
		if o.err != nil {
			q.wantErr = o.err
		} else {
			q.owns = c
			c.refs++
		}
	}
	c.waiters = nil
	if o.err != nil {
		delete(w.model, c.addr)
	} else {
		c.cc = o.cc
		w.conns[o.cc] = c
	}
}

// cancelReq cancels the context of a request.
func (w *world) cancelReq(q *request, obey bool) {
	w.step("the context of request %d is cancelled, the dial obeys: %v", q.id, obey)
	w.mu.Lock()
	w.obey[q.addr] = obey
	w.mu.Unlock()
	if c := w.model[q.addr]; c != nil && c.dialing && c.first == q && obey {
		w.ended(c, outcome{err: context.Canceled})
	}
	q.cancel()
	w.settle()
}

// release calls the release function of a request, perhaps another time.
func (w *world) release(q *request, times int) {
	w.step("request %d is released (call %d, %d calls at once)", q.id, q.released+1, times)
	if q.owns != nil && q.released == 0 {
		c := q.owns
		c.refs--
		if c.refs == 0 {
			delete(w.model, c.addr)
			w.r.Count("last_releases", 1)
		}
	} else {
		w.r.Count("releases_without_effect", 1)
	}
	q.released++
	var wg sync.WaitGroup
	for ; times > 0; times-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q.done()
		}()
	}
	wg.Wait()
	w.settle()
}

// move is a possible step.
type move struct {
	kind int // 0 ask, 1 resolve, 2 cancel, 3 release
	addr string
	arg  int
	q    *request
}

// moves lists the steps that are possible now. With few, only the essential
// ones.
func (w *world) moves(few bool) []move {
	var ms []move
	for _, a := range w.addrs {
		ms = append(ms, move{kind: 0, addr: a})
		if !few {
			ms = append(ms, move{kind: 0, addr: a, arg: 1}, move{kind: 0, addr: a, arg: 2}, move{kind: 0, addr: a, arg: 3})
		}
		if c := w.model[a]; c != nil && c.dialing {
			ms = append(ms, move{kind: 1, addr: a}, move{kind: 1, addr: a, arg: 1})
		}
	}
	for _, q := range w.reqs {
		if q.waiting {
			if q.ctx.Err() == nil {
				ms = append(ms, move{kind: 2, q: q})
				if !few {
					ms = append(ms, move{kind: 2, q: q, arg: 1})
				}
			}
		} else if q.released < 2 {
			ms = append(ms, move{kind: 3, q: q})
		} else if !few {
			ms = append(ms, move{kind: 3, q: q})
		}
	}
	return ms
}

func (w *world) make(m move) {
	switch m.kind {
	case 0:
		w.ask(m.addr, []string{connection.DEFAULT, "second", "unknown", connection.DEFAULT}[m.arg], m.arg == 3)
	case 1:
		var err error
		if m.arg == 1 {
			err = fmt.Errorf("dial error %d", w.want[m.addr])
		}
		w.resolve(m.addr, err)
	case 2:
		w.cancelReq(m.q, m.arg == 0)
	case 3:
		w.release(m.q, 1+m.arg)
	}
}

// finish ends all dials, releases everything, and demands that all is closed.
func (w *world) finish() {
	for _, a := range w.addrs {
		if c := w.model[a]; c != nil && c.dialing && !w.broken {
			w.resolve(a, nil)
		}
	}
	if !w.broken {
		for _, q := range w.reqs {
			if !w.broken {
				w.release(q, 1)
			}
		}
	}
	// For the bubble to end after a violation.
	w.mu.Lock()
	for a, ch := range w.pending {
		if w.inFlight[a] > 0 {
			select {
			case ch <- outcome{err: errors.New("over")}:
			default:
			}
		}
	}
	w.mu.Unlock()
	for cc := range w.conns {
		cc.Close()
	}
	for _, q := range w.reqs {
		q.cancel()
	}
	w.r.Eval(1)
}

func (w *world) random(rnd *rand.Rand, n int) {
	for ; n > 0 && !w.broken; n-- {
		ms := w.moves(false)
		m := ms[rnd.Intn(len(ms))]
		// Old requests are not the most interesting ones.
		for i := 0; i < 3 && m.kind == 3 && m.q.released > 0; i++ {
			m = ms[rnd.Intn(len(ms))]
		}
		if m.kind == 3 {
			m.arg = rnd.Intn(3)
		}
		w.make(m)
	}
	w.finish()
	if w.r.WantSample() {
		w.r.Sample("%s", w.trace.String())
	}
}

// exhaustive runs all sequences of steps up to a length on one address, and
// shorter ones on two.
func exhaustive(t *testing.T, r *vk.Run) {
	for _, c := range []struct{ addrs, depth int }{{1, r.N(7, 9)}, {2, r.N(6, 7)}} {
		// Depth-first over the choices; a sequence is run from the start.
		path := []int{}
		n := 0
		for {
			var sizes []int
			mine := r.Mine(n)
			run := func() {
				synctest.Test(t, func(t *testing.T) {
					w := newWorld(r, c.addrs)
					for d := 0; d < c.depth && !w.broken; d++ {
						ms := w.moves(true)
						sizes = append(sizes, len(ms))
						k := 0
						if d < len(path) {
							k = path[d]
						} else {
							path = append(path, 0)
						}
						w.make(ms[k])
					}
					w.finish()
					r.Count("exhaustive_sequences", 1)
					r.Distinct(c.addrs, fmt.Sprint(path))
				})
			}
			r.Journal("exhaustive %d addresses %v", c.addrs, path)
			if mine {
				run()
			} else {
				sizes = simulate(c.addrs, c.depth, &path)
			}
			n++
			if r.TooMany() || len(sizes) < len(path) {
				return
			}
			// Next.
			i := len(path) - 1
			for i >= 0 && path[i]+1 >= sizes[i] {
				i--
			}
			if i < 0 {
				break
			}
			path = append(path[:i], path[i]+1)
		}
	}
}

// simulate follows a path in the model alone.
func simulate(addrs, depth int, path *[]int) []int {
	type sreq struct {
		addr      int
		waiting   bool
		cancelled bool
		owner     int // index of the entry, -1
		released  int
	}
	type entry struct {
		dialing bool
		first   int
		refs    int
	}
	var reqs []*sreq
	entries := []*entry{}
	at := make([]int, addrs) // entry by address, -1
	for i := range at {
		at[i] = -1
	}
	var sizes []int
	for d := 0; d < depth; d++ {
		type mv struct{ kind, a, arg, q int }
		var ms []mv
		for a := 0; a < addrs; a++ {
			ms = append(ms, mv{0, a, 0, 0})
			if at[a] >= 0 && entries[at[a]].dialing {
				ms = append(ms, mv{1, a, 0, 0}, mv{1, a, 1, 0})
			}
		}
		for i, q := range reqs {
			if q.waiting {
				if !q.cancelled {
					ms = append(ms, mv{2, 0, 0, i})
				}
			} else if q.released < 2 {
				ms = append(ms, mv{3, 0, 0, i})
			}
		}
		sizes = append(sizes, len(ms))
		k := 0
		if d < len(*path) {
			k = (*path)[d]
		} else {
			*path = append(*path, 0)
		}
		finish := func(a int, ok bool) {
			e := at[a]
			entries[e].dialing = false
			for _, q := range reqs {
				if q.waiting && q.addr == a {
					q.waiting = false
					if ok {
						q.owner = e
						entries[e].refs++
					}
				}
			}
			if !ok {
				at[a] = -1
			}
		}
		switch m := ms[k]; m.kind {
		case 0:
			q := &sreq{addr: m.a, owner: -1}
			switch {
			case at[m.a] < 0:
				entries = append(entries, &entry{dialing: true, first: len(reqs)})
				at[m.a] = len(entries) - 1
				q.waiting = true
			case entries[at[m.a]].dialing:
				q.waiting = true
			default:
				q.owner = at[m.a]
				entries[at[m.a]].refs++
			}
			reqs = append(reqs, q)
		case 1:
			finish(m.a, m.arg == 0)
		case 2:
			q := reqs[m.q]
			q.cancelled = true
			if e := at[q.addr]; e >= 0 && entries[e].dialing && entries[e].first == m.q {
				finish(q.addr, false)
			}
		case 3:
			q := reqs[m.q]
			if q.owner >= 0 && q.released == 0 {
				entries[q.owner].refs--
				if entries[q.owner].refs == 0 {
					at[q.addr] = -1
				}
			}
			q.released++
		}
	}
	return sizes
}

// Concurrent runs.

type dialRec struct {
	id         int
	addr       string
	start, end int64
	published  int64 // when its error was first returned
	cc         *grpc.ClientConn
	err        error
}

type dialErr struct{ d *dialRec }

func (e *dialErr) Error() string { return fmt.Sprintf("dial %d of %s failed", e.d.id, e.d.addr) }

type crun struct {
	r       *vk.Run
	rnd     *rand.Rand
	mu      sync.Mutex
	clock   int64
	busy    map[string]int // requests in progress or holding
	pending map[string]int // requests in progress
	holders map[string]int // between the return of a request and the call of its release
	flying  map[string]int
	live    map[string]*dialRec
	byConn  map[*grpc.ClientConn]*dialRec
	dials   []*dialRec
	held    map[*grpc.ClientConn]int
	bad     string
	log     []string
}

func (x *crun) fail(format string, args ...any) {
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, args...)
	}
}

func (x *crun) note(format string, args ...any) {
	x.clock++
	x.log = append(x.log, fmt.Sprintf("%d ", x.clock)+fmt.Sprintf(format, args...))
}

func (x *crun) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.rnd.Intn(n)
}

func (x *crun) dial(ctx context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
	x.mu.Lock()
	d := &dialRec{id: len(x.dials) + 1, addr: addr}
	x.dials = append(x.dials, d)
	x.note("dial %d of %s begins", d.id, addr)
	d.start = x.clock
	x.flying[addr]++
	if x.flying[addr] > 1 {
		x.fail("dial %d: %d dials of %s are in flight", d.id, x.flying[addr], addr)
	}
	if x.holders[addr] > 0 {
		x.fail("dial %d of %s began while a connection to it was held", d.id, addr)
	}
	if x.pending[addr] == 0 {
		x.fail("dial %d of %s began without a request", d.id, addr)
	}
	k, wait := x.rnd.Intn(10), time.Duration(x.rnd.Intn(600))*time.Microsecond
	x.mu.Unlock()
	err := error(nil)
	switch {
	case k < 3:
	case k < 5:
		time.Sleep(wait)
	case k < 7:
		select {
		case <-ctx.Done():
			err = &dialErr{d}
		case <-time.After(wait):
		}
	case k < 8:
		err = &dialErr{d}
	default:
		time.Sleep(wait)
		err = &dialErr{d}
	}
	var cc *grpc.ClientConn
	if err == nil {
		cc = newConn(addr)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.note("dial %d of %s ends: %v", d.id, addr, err)
	d.end, d.cc, d.err = x.clock, cc, err
	x.flying[addr]--
	if cc != nil {
		x.byConn[cc] = d
	}
	return cc, err
}

func concurrent(r *vk.Run, i int, race bool) {
	rnd := r.Rand("concurrent", i, race)
	x := &crun{r: r, rnd: r.Rand("inner", i, race), busy: map[string]int{}, pending: map[string]int{}, holders: map[string]int{}, flying: map[string]int{}, live: map[string]*dialRec{}, byConn: map[*grpc.ClientConn]*dialRec{}, held: map[*grpc.ClientConn]int{}}
	m, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: x.dial, "second": x.dial})
	if err != nil {
		panic(err)
	}
	how := sched.Pick(rnd, time.Duration(20+rnd.Intn(800))*time.Microsecond)
	defer sched.Off()
	gs, ops, addrs := 2+rnd.Intn(7), 2+rnd.Intn(10), 1+rnd.Intn(3)
	desc := fmt.Sprintf("run %d (%s): %d goroutines, %d requests each, %d addresses", i, how, gs, ops, addrs)
	r.Journal("%s", desc)
	var wg, rel sync.WaitGroup
	var shared atomic.Int64
	for g := 0; g < gs; g++ {
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := 0; o < ops; o++ {
				addr := fmt.Sprint("addr", rnd.Intn(addrs))
				dialer := ""
				ctx, cancel := context.WithCancel(context.Background())
				switch rnd.Intn(12) {
				case 0:
					cancel()
				case 1, 2:
					d := time.Duration(rnd.Intn(500)) * time.Microsecond
					time.AfterFunc(d, cancel)
				case 3:
					dialer = "second"
				case 4:
					dialer = "unknown"
				}
				name := fmt.Sprintf("%d.%d", g, o)
				x.mu.Lock()
				x.busy[addr]++
				x.pending[addr]++
				x.note("request %s of %s, dialer %q", name, addr, dialer)
				call := x.clock
				x.mu.Unlock()
				cc, done, err := m.Connection(ctx, addr, dialer)
				x.mu.Lock()
				x.pending[addr]--
				x.note("request %s of %s returns: %v", name, addr, err)
				switch {
				case done == nil:
					x.fail("request %s returned no function to release it", name)
				case err != nil:
					var de *dialErr
					if errors.As(err, &de) {
						if p := de.d.published; de.d.addr != addr || p > 0 && p < call {
							x.fail("request %s of %s got the error of a dial of %s that had been returned at %d, before the request", name, addr, de.d.addr, p)
						}
						if de.d.published == 0 {
							de.d.published = x.clock
						}
						shared.Add(1)
					} else if errors.Is(err, context.Canceled) {
						if ctx.Err() == nil {
							x.fail("request %s of %s: error %v, but its context is not cancelled", name, addr, err)
						}
					}
					if cc != nil {
						x.fail("request %s returned both a connection and the error %v", name, err)
					}
					x.busy[addr]--
				default:
					d := x.byConn[cc]
					if d == nil || d.addr != addr {
						x.fail("request %s of %s returned a connection of %v", name, addr, d)
						break
					}
					x.holders[addr]++
					x.held[cc]++
					if x.held[cc] > 1 {
						r.Count("concurrent_shared_holds", 1)
					}
					if closed(cc) {
						x.fail("request %s of %s returned the connection of dial %d, which is closed", name, addr, d.id)
					}
					if x.holders[addr] != x.held[cc] {
						x.fail("request %s of %s returned the connection of dial %d while another one to the same address is held", name, addr, d.id)
					}
				}
				bad := x.bad != ""
				x.mu.Unlock()
				if bad || done == nil {
					cancel()
					return
				}
				if err != nil {
					// It has no effect, at any time.
					f := done
					rel.Add(1)
					d := time.Duration(rnd.Intn(2000)) * time.Microsecond
					time.AfterFunc(d, func() {
						defer rel.Done()
						f()
						f()
					})
					r.Count("concurrent_releases_without_effect", 2)
					cancel()
					continue
				}
				r.Count("concurrent_holds", 1)
				if rnd.Intn(2) == 0 {
					cancel()
				}
				if rnd.Intn(3) > 0 {
					time.Sleep(time.Duration(rnd.Intn(500)) * time.Microsecond)
				}
				x.mu.Lock()
				if closed(cc) {
					x.fail("the connection of dial %d to %s was closed while request %s held it", x.byConn[cc].id, addr, name)
				}
				x.note("request %s of %s is released", name, addr)
				x.holders[addr]--
				x.held[cc]--
				x.mu.Unlock()
				twice := rnd.Intn(3)
				done()
				if twice == 1 {
					done()
				}
				x.mu.Lock()
				x.busy[addr]--
				if x.busy[addr] == 0 {
					r.Count("concurrent_last_releases", 1)
					if !closed(cc) {
						x.fail("request %s of %s was the last one, and is released, but the connection of dial %d is open", name, addr, x.byConn[cc].id)
					}
				}
				x.note("request %s of %s: release returned", name, addr)
				x.mu.Unlock()
				if twice == 2 {
					f := done
					rel.Add(1)
					time.AfterFunc(time.Duration(rnd.Intn(1000))*time.Microsecond, func() {
						defer rel.Done()
						f()
					})
					r.Count("concurrent_releases_without_effect", 1)
				}
				cancel()
			}
		}()
	}
	wg.Wait()
	rel.Wait()
	x.mu.Lock()
	for cc, d := range x.byConn {
		if !closed(cc) {
			x.fail("all is released, but the connection of dial %d to %s is open", d.id, d.addr)
		}
	}
	n := len(x.dials)
	bad, log := x.bad, strings.Join(x.log, "\n  ")
	x.mu.Unlock()
	// A fresh dial for everyone who asks now.
	for a := 0; a < addrs && bad == ""; a++ {
		addr := fmt.Sprint("addr", a)
		x.mu.Lock()
		x.pending[addr]++
		x.mu.Unlock()
		cc, done, err := m.Connection(context.Background(), addr, "")
		if err == nil && closed(cc) {
			bad = "a new request got a closed connection"
		}
		if len(x.dials) != n+1 {
			bad = fmt.Sprintf("a new request of %s began %d dials", addr, len(x.dials)-n)
		}
		n = len(x.dials)
		if err == nil {
			done()
			if !closed(cc) {
				bad = "the connection is open after the release"
			}
		}
		x.mu.Lock()
		x.pending[addr]--
		if x.bad != "" {
			bad = x.bad
		}
		x.mu.Unlock()
	}
	if bad != "" {
		r.Violation("concurrent", "%s\n%s\n  %s", desc, bad, log)
		for cc := range x.byConn {
			cc.Close()
		}
	}
	r.Count("concurrent_dials", n)
	r.Count("concurrent_shared_errors", int(shared.Load()))
	r.Eval(1)
	r.Distinct("c", log)
}
