// Package c17 checks property C17: target configuration loads.
package c17

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/target"

	"verifharness/hostile"
	"verifharness/sched"
	"verifharness/vk"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	pb "github.com/openconfig/gnmi/proto/target"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C17", func(t *testing.T, r *vk.Run) {
		if os.Getenv("VERIF_BUILD") == "race" {
			defer sched.Report(r)
			r.Until(1, 2)
			for i, n := 0, r.N(300, 10000); i < n && !r.TooMany(); i++ {
				if r.Mine(i) {
					r.Guard("concurrent", fmt.Sprint("run ", i), func() { concurrent(r, i) })
				}
			}
			return
		}
		r.Until(2, 2)
		for i, n := 0, r.N(15000, 500000); i < n && !r.TooMany(); i++ {
			if r.Mine(i) {
				if i%64 == r.Shard {
					r.Journal("history %d", i)
				}
				r.Guard("sequential", fmt.Sprint("history ", i), func() { sequential(r, i) })
			}
		}
	})
}

// known is what a consumer of the handler calls knows of a target.
type known struct {
	t *pb.Target
	r *gpb.SubscribeRequest
}

type call struct {
	op   string
	name string
}

// replayer follows the handler calls.
type replayer struct {
	mu    sync.Mutex
	set   map[string]known
	calls []call
	bad   []string
}

func (p *replayer) upd(op string) func(target.Update) {
	return func(u target.Update) {
		p.mu.Lock()
		defer p.mu.Unlock()
		p.calls = append(p.calls, call{op, u.Name})
		_, ok := p.set[u.Name]
		if ok != (op == "update") {
			p.bad = append(p.bad, fmt.Sprintf("%s of target %q, which is known: %v", op, u.Name, ok))
		}
		k := known{}
		if u.Target != nil {
			k.t = proto.Clone(u.Target).(*pb.Target)
		}
		if u.Request != nil {
			k.r = proto.Clone(u.Request).(*gpb.SubscribeRequest)
		}
		p.set[u.Name] = k
	}
}

func (p *replayer) handler() target.Handler {
	return target.Handler{Add: p.upd("add"), Update: p.upd("update"), Delete: func(n string) {
		p.mu.Lock()
		defer p.mu.Unlock()
		p.calls = append(p.calls, call{"delete", n})
		if _, ok := p.set[n]; !ok {
			p.bad = append(p.bad, fmt.Sprintf("delete of target %q, which is not known", n))
		}
		delete(p.set, n)
	}}
}

// content is what the set must be for a configuration.
func content(c *pb.Configuration) map[string]known {
	m := map[string]known{}
	for n, t := range c.GetTarget() {
		m[n] = known{t, c.GetRequest()[t.GetRequest()]}
	}
	return m
}

func (k known) equal(o known) bool { return proto.Equal(k.t, o.t) && proto.Equal(k.r, o.r) }

func diff(got, want map[string]known) string {
	var s []string
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			s = append(s, fmt.Sprintf("target %q is missing", n))
		} else if !g.equal(w) {
			s = append(s, fmt.Sprintf("target %q has settings {%v} and request {%v}, expected {%v} and {%v}", n, g.t, g.r, w.t, w.r))
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			s = append(s, fmt.Sprintf("target %q is extra", n))
		}
	}
	return strings.Join(s, "; ")
}

// valid is the validity of a configuration as the property's code documents it.
func valid(c *pb.Configuration) bool {
	if c == nil {
		return false
	}
	for n, t := range c.Target {
		if n == "" || t == nil || len(t.Addresses) == 0 || t.Request == "" {
			return false
		}
		if _, ok := c.Request[t.Request]; !ok {
			return false
		}
	}
	return true
}

var names = []string{"t1", "t2", "t3", "t4", "r1", "é"}
var reqs = []string{"r1", "r2", "r3", "t1"}

func genRequest(rnd *rand.Rand) *gpb.SubscribeRequest {
	if rnd.Intn(8) == 0 {
		return &gpb.SubscribeRequest{}
	}
	l := &gpb.SubscriptionList{Mode: gpb.SubscriptionList_Mode(rnd.Intn(2)), UpdatesOnly: rnd.Intn(3) == 0, Encoding: gpb.Encoding(rnd.Intn(2))}
	if rnd.Intn(3) == 0 {
		l.Prefix = &gpb.Path{Origin: []string{"", "openconfig"}[rnd.Intn(2)]}
	}
	for k := rnd.Intn(3); k > 0; k-- {
		p := &gpb.Path{}
		for e := rnd.Intn(3); e > 0; e-- {
			el := &gpb.PathElem{Name: string(rune('a' + rnd.Intn(3)))}
			if rnd.Intn(3) == 0 {
				el.Key = map[string]string{"k": string(rune('x' + rnd.Intn(2)))}
			}
			p.Elem = append(p.Elem, el)
		}
		l.Subscription = append(l.Subscription, &gpb.Subscription{Path: p, SampleInterval: uint64(rnd.Intn(2))})
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func genTarget(rnd *rand.Rand) *pb.Target {
	t := &pb.Target{Request: reqs[rnd.Intn(len(reqs))]}
	for k := 1 + rnd.Intn(2); k > 0; k-- {
		t.Addresses = append(t.Addresses, fmt.Sprint("addr", rnd.Intn(3)))
	}
	if rnd.Intn(3) == 0 {
		t.Credentials = &pb.Credentials{Username: fmt.Sprint("u", rnd.Intn(2)), Password: fmt.Sprint("p", rnd.Intn(2))}
	}
	if rnd.Intn(3) == 0 {
		t.Meta = map[string]string{fmt.Sprint("k", rnd.Intn(2)): fmt.Sprint("v", rnd.Intn(2))}
	}
	if rnd.Intn(4) == 0 {
		t.Dialer = fmt.Sprint("d", rnd.Intn(2))
	}
	return t
}

func genConfig(rnd *rand.Rand) *pb.Configuration {
	c := &pb.Configuration{Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*pb.Target{}}
	for _, k := range reqs {
		if rnd.Intn(4) > 0 {
			c.Request[k] = genRequest(rnd)
		}
	}
	for _, n := range names {
		if rnd.Intn(2) == 0 {
			c.Target[n] = genTarget(rnd)
		}
	}
	if rnd.Intn(60) == 0 {
		for k := range 10 + rnd.Intn(60) {
			c.Target[fmt.Sprint("more", k)] = genTarget(rnd)
		}
	}
	if rnd.Intn(2) == 0 {
		c.InstanceId = fmt.Sprint("i", rnd.Intn(2))
	}
	return c
}

// fix makes a configuration valid.
func fix(rnd *rand.Rand, c *pb.Configuration) {
	for _, n := range vk.SortedKeys(c.Target) {
		t := c.Target[n]
		if t == nil || n == "" {
			delete(c.Target, n)
			continue
		}
		if len(t.Addresses) == 0 {
			t.Addresses = []string{"addr"}
		}
		if _, ok := c.Request[t.Request]; !ok || t.Request == "" {
			if len(c.Request) == 0 {
				c.Request["r1"] = genRequest(rnd)
			}
			ks := vk.SortedKeys(c.Request)
			t.Request = ks[rnd.Intn(len(ks))]
			if t.Request == "" {
				delete(c.Target, n)
			}
		}
	}
}

// change changes any field of a message, or of one in it.
func change(rnd *rand.Rand, m proto.Message) {
	if m.ProtoReflect().IsValid() {
		hostile.New(rnd).Change(m)
	}
}

// edit changes a few things of a configuration.
func edit(rnd *rand.Rand, c *pb.Configuration) {
	for k := rnd.Intn(5); k > 0; k-- {
		ts, rs := vk.SortedKeys(c.Target), vk.SortedKeys(c.Request)
		switch rnd.Intn(14) {
		case 0:
			c.Target[names[rnd.Intn(len(names))]] = genTarget(rnd)
		case 1:
			if len(ts) > 0 {
				delete(c.Target, ts[rnd.Intn(len(ts))])
			}
		case 2:
			if len(ts) > 0 { // re-point
				c.Target[ts[rnd.Intn(len(ts))]].Request = reqs[rnd.Intn(len(reqs))]
			}
		case 3:
			c.Request[reqs[rnd.Intn(len(reqs))]] = genRequest(rnd)
		case 4:
			if len(rs) > 0 {
				delete(c.Request, rs[rnd.Intn(len(rs))])
			}
		case 5: // rename a request along with its users
			if len(rs) > 0 {
				o, n := rs[rnd.Intn(len(rs))], reqs[rnd.Intn(len(reqs))]
				if o != n {
					c.Request[n] = c.Request[o]
					delete(c.Request, o)
					for _, t := range c.Target {
						if t.Request == o {
							t.Request = n
						}
					}
				}
			}
		case 6: // swap two requests
			if len(rs) > 1 {
				a, b := rs[rnd.Intn(len(rs))], rs[rnd.Intn(len(rs))]
				c.Request[a], c.Request[b] = c.Request[b], c.Request[a]
			}
		case 7: // swap or rename targets
			if len(ts) > 0 {
				a, b := ts[rnd.Intn(len(ts))], names[rnd.Intn(len(names))]
				x, y := c.Target[a], c.Target[b]
				c.Target[b] = x
				if y != nil {
					c.Target[a] = y
				} else if a != b {
					delete(c.Target, a)
				}
			}
		case 8:
			if len(ts) > 0 {
				t := c.Target[ts[rnd.Intn(len(ts))]]
				switch rnd.Intn(5) {
				case 0:
					t.Addresses = append(t.Addresses, "addr9")
				case 1:
					t.Addresses = []string{t.Addresses[len(t.Addresses)-1]}
				case 2:
					t.Meta = map[string]string{"k0": fmt.Sprint(rnd.Intn(9))}
				case 3:
					t.Dialer += "x"
				case 4:
					t.Credentials = &pb.Credentials{Username: fmt.Sprint(rnd.Intn(9))}
				}
			}
		case 9:
			if len(rs) > 0 { // a small edit of a request
				if l := c.Request[rs[rnd.Intn(len(rs))]].GetSubscribe(); l != nil {
					switch rnd.Intn(4) {
					case 0:
						l.UpdatesOnly = !l.UpdatesOnly
					case 1:
						if len(l.Subscription) > 0 {
							l.Subscription = l.Subscription[1:]
						}
					case 2:
						if len(l.Subscription) > 1 {
							l.Subscription[0], l.Subscription[1] = l.Subscription[1], l.Subscription[0]
						}
					case 3:
						l.AllowAggregation = !l.AllowAggregation
					}
				}
			}
		case 10:
			c.InstanceId = fmt.Sprint("i", rnd.Intn(3))
		case 11:
			if len(ts) > 0 && len(rs) > 0 { // edit a request and re-point a target to it
				n := rs[rnd.Intn(len(rs))]
				c.Request[n] = genRequest(rnd)
				c.Target[ts[rnd.Intn(len(ts))]].Request = n
			}
		case 12: // any field of a request
			if len(rs) > 0 {
				change(rnd, c.Request[rs[rnd.Intn(len(rs))]])
			}
		case 13: // any field of a target
			if len(ts) > 0 {
				change(rnd, c.Target[ts[rnd.Intn(len(ts))]])
			}
		}
		fix(rnd, c)
	}
}

// spoil makes a configuration invalid.
func spoil(rnd *rand.Rand, c *pb.Configuration) *pb.Configuration {
	ts := vk.SortedKeys(c.Target)
	if len(ts) == 0 {
		c.Target["t9"] = &pb.Target{}
		return c
	}
	t := ts[rnd.Intn(len(ts))]
	switch rnd.Intn(7) {
	case 0:
		c.Target[""] = c.Target[t]
	case 1:
		c.Target[t] = nil
	case 2:
		c.Target[t].Addresses = nil
	case 3:
		c.Target[t].Request = ""
	case 4:
		c.Target[t].Request = "none"
	case 5:
		delete(c.Request, c.Target[t].Request)
	case 6:
		return nil
	}
	return c
}

func text(c *pb.Configuration) string {
	return strings.Join(strings.Fields(prototext.MarshalOptions{}.Format(c)), " ")
}

func sequential(r *vk.Run, i int) {
	rnd := r.Rand("sequential", i)
	p := &replayer{set: map[string]known{}}
	var cur *pb.Configuration
	var c *target.Config
	var log []string
	fail := func(kind, f string, a ...any) {
		r.Violation(kind, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(log, "\n"))
	}
	partial := rnd.Intn(20) == 0
	if partial {
		// Without some of the handlers only the configuration is followed.
		h := p.handler()
		if rnd.Intn(2) == 0 {
			h.Add = nil
		}
		if rnd.Intn(2) == 0 {
			h.Update = nil
		}
		h.Delete = nil
		c = target.NewConfig(h)
		log = append(log, "NewConfig with missing handlers")
	} else if rnd.Intn(3) > 0 {
		c = target.NewConfig(p.handler())
		log = append(log, "NewConfig")
	} else {
		var base *pb.Configuration
		if rnd.Intn(4) > 0 {
			base = genConfig(rnd)
			if rnd.Intn(4) > 0 {
				fix(rnd, base)
			}
			base.Revision = int64(rnd.Intn(5) - 2)
		}
		log = append(log, "NewConfigWithBase "+text(base))
		var err error
		c, err = target.NewConfigWithBase(p.handler(), base)
		ok := base == nil || valid(base)
		if ok != (err == nil) {
			fail("base", "NewConfigWithBase returns %v, valid: %v", err, ok)
			return
		}
		if !ok {
			r.Count("invalid_bases", 1)
			return
		}
		if base != nil {
			cur = proto.Clone(base).(*pb.Configuration)
			p.set = content(cur)
		}
		if len(p.calls) > 0 {
			fail("base", "NewConfigWithBase calls %v", p.calls)
		}
	}
	steps := 3 + rnd.Intn(25)
	for s := 0; s < steps; s++ {
		var n *pb.Configuration
		if cur == nil || rnd.Intn(8) == 0 {
			n = genConfig(rnd)
			fix(rnd, n)
		} else {
			n = proto.Clone(cur).(*pb.Configuration)
			if n.Target == nil {
				n.Target = map[string]*pb.Target{}
			}
			if n.Request == nil {
				n.Request = map[string]*gpb.SubscribeRequest{}
			}
			edit(rnd, n)
		}
		rev := cur.GetRevision()
		switch rnd.Intn(12) {
		case 0:
			n.Revision = rev
		case 1:
			n.Revision = rev - 1
		case 2:
			n.Revision = int64(rnd.Intn(10))
		case 3:
			n.Revision = []int64{0, -1, math.MinInt64, 1 << 40, 1<<32 + rev, -rev}[rnd.Intn(6)]
		case 4:
			if rev < math.MaxInt64-1<<33 {
				n.Revision = rev + 1<<32
			}
		default:
			n.Revision = rev + 1 + int64(rnd.Intn(3))
		}
		if rnd.Intn(200) == 0 {
			n.Revision = math.MaxInt64
		}
		if rnd.Intn(6) == 0 {
			n = spoil(rnd, n)
		}
		var keep *pb.Configuration
		ok := valid(n) && (cur == nil || n.Revision > cur.Revision)
		if n != nil && valid(n) {
			keep = proto.Clone(n).(*pb.Configuration)
		}
		log = append(log, fmt.Sprintf("Load %s (expected to be applied: %v)", text(n), ok))
		p.calls, p.bad = nil, nil
		err := c.Load(n)
		log = append(log, fmt.Sprintf("  = %v, calls %v", err, p.calls))
		if (err == nil) != ok {
			fail("gate", "the load returns %v, expected to be applied: %v", err, ok)
			return
		}
		if !ok && len(p.calls) > 0 {
			fail("gate", "a refused load calls handlers: %v", p.calls)
		}
		old := content(cur)
		if ok {
			cur = keep
			r.Count("loads_applied", 1)
		} else {
			r.Count("loads_refused", 1)
		}
		r.Count("handler_calls", len(p.calls))
		if len(p.bad) > 0 && !partial {
			fail("calls", "%s", strings.Join(p.bad, "; "))
		}
		want := content(cur)
		if d := diff(p.set, want); d != "" && !partial {
			fail("replay", "replaying the handler calls differs from the configuration: %s", d)
		}
		for _, k := range p.calls {
			if o, was := old[k.name]; was {
				if w, is := want[k.name]; is && o.equal(w) {
					fail("unchanged", "%s is called for target %q, which is unchanged", k.op, k.name)
				}
			}
		}
		got := c.Current()
		if got == nil != (cur == nil) && cur != nil || cur != nil && !proto.Equal(got, cur) {
			fail("current", "Current() = %s, expected %s", text(got), text(cur))
		}
		if ok && !proto.Equal(n, keep) {
			fail("modified", "the loaded configuration was modified to %s", text(n))
		}
		// What a caller does with the copy has no effect.
		if got != nil && rnd.Intn(2) == 0 {
			for _, t := range got.Target {
				t.Addresses = append(t.Addresses, "mine")
				t.Request = "mine"
			}
			for _, q := range got.Request {
				q.Request = nil
			}
			got.Revision += 100
			got.Target = nil
			if again := c.Current(); cur != nil && !proto.Equal(again, cur) {
				fail("current", "changing the copy changes Current() to %s", text(again))
			}
		}
		r.Eval(1)
	}
	r.Distinct(strings.Join(log, "\n"))
	if i < 3 {
		r.Sample("%s", strings.Join(log, "\n"))
	}
}

// concurrent loads configurations from several goroutines.
func concurrent(r *vk.Run, i int) {
	rnd := r.Rand("concurrent", i)
	how := sched.Pick(rnd, 100_000)
	defer sched.Off()
	r.Journal("concurrent %d: %s", i, how)
	p := &replayer{set: map[string]known{}}
	h := p.handler()
	c := target.NewConfig(h)
	var wg sync.WaitGroup
	var mu sync.Mutex
	type load struct {
		c  *pb.Configuration
		ok bool
	}
	var loads []load
	workers := 2 + rnd.Intn(4)
	for w := 0; w < workers; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			base := int64(0)
			for k := 0; k < 15; k++ {
				n := genConfig(wr)
				fix(wr, n)
				base += int64(wr.Intn(4))
				n.Revision = base*8 + int64(w)
				keep := proto.Clone(n).(*pb.Configuration)
				err := c.Load(n)
				mu.Lock()
				loads = append(loads, load{keep, err == nil})
				mu.Unlock()
				if wr.Intn(3) == 0 {
					cur := c.Current()
					if err == nil && cur.GetRevision() < n.Revision {
						r.Violation("monotonic", "after revision %d was loaded the current one is %d (%s)", n.Revision, cur.GetRevision(), how)
					}
				}
			}
		}()
	}
	wg.Wait()
	cur := c.Current()
	var best *pb.Configuration
	accepted := 0
	for _, l := range loads {
		if l.ok {
			accepted++
			if best == nil || l.c.Revision > best.Revision {
				best = l.c
			}
		} else if l.c.Revision > cur.GetRevision() {
			r.Violation("gate", "revision %d was refused, the current one is %d (%s)", l.c.Revision, cur.GetRevision(), how)
		}
	}
	if !proto.Equal(best, cur) {
		r.Violation("current", "the current configuration is not the last accepted one (%s):\n%s\n%s", how, text(cur), text(best))
	}
	if len(p.bad) > 0 {
		r.Violation("calls", "%s (%s)", strings.Join(p.bad, "; "), how)
	}
	if d := diff(p.set, content(cur)); d != "" {
		r.Violation("replay", "replaying the handler calls differs from the configuration: %s (%s)", d, how)
	}
	r.Count("concurrent_loads", len(loads))
	r.Count("concurrent_loads_applied", accepted)
	r.Eval(1)
	r.Distinct("concurrent", i, accepted)
}
