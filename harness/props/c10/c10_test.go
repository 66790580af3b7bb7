// Package c10 checks property C10: the path tree is safe and per-path atomic
// under concurrent use.
package c10

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/openconfig/gnmi/ctree"

	"verifharness/hist"
	"verifharness/sched"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C10", func(t *testing.T, r *vk.Run) {
		defer func() {
			if n := strange.Load(); n > 0 {
				r.Violation("unstored", "deletes passed %d values that were never stored to their callbacks", n)
			}
		}()
		defer sched.Report(r)
		race := os.Getenv("VERIF_BUILD") == "race"
		n := func(q, t int) int {
			if race {
				return r.N(q/4, t/4)
			}
			return r.N(q, t)
		}
		r.Until(1, 4)
		for i, m := 0, n(24000, 600000); i < m && !r.TooMany(); i++ {
			if r.Mine(i) {
				small(r, i, race)
			}
		}
		r.Until(2, 4)
		for i, m := 0, n(8000, 200000); i < m && !r.TooMany(); i++ {
			if r.Mine(i) {
				adders(r, i, race)
			}
		}
		r.Until(3, 4)
		for i, m := 0, n(6000, 160000); i < m && !r.TooMany(); i++ {
			if r.Mine(i) {
				paths(r, i, race)
			}
		}
		r.Until(4, 4)
		for i, m := 0, n(320, 8000); i < m && !r.TooMany(); i++ {
			if r.Mine(i) {
				stress(r, i, race)
			}
		}
	})
}

// run starts the workers together and waits for them. It reports false if they
// do not end.
func run(r *vk.Run, desc string, workers []func()) bool {
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	for _, f := range workers {
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			r.Guard("tree", desc, f)
		}()
	}
	ready.Wait()
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(60 * time.Second):
		r.Violation("deadlock", "%s: the operations do not end\n%s", desc, vk.Stacks())
		return false
	}
}

// kinds of operations.
const (
	add    = iota
	lookup // GetLeafValue
	read   // what a query or walk reports of a path
	leaf   // GetLeaf
	update // Leaf.Update
	value  // Leaf.Value
	del
	exists // Get
)

var kindNames = []string{"add", "lookup", "read", "leaf", "update", "value", "delete", "exists"}

// in is the input of an operation.
type in struct {
	kind int
	path string // Key; the pattern of a delete in whole-tree histories
	val  int
	ptr  int  // handle
	odd  int  // deletes: -1 for all, else values modulo 2
	q    int  // reads: the query
	vals bool // deletes: the removed values are known
}

// out is the output of an operation. Values are positive; 0 is none.
type out struct {
	ok      bool
	val     int
	ptr     int
	removed string // whole-tree deletes: paths
}

// rec records operations.
type rec struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []porcupine.Operation
	ptrs  map[*ctree.Leaf]int
}

func (h *rec) now() int64 { return h.clock.Add(1) }

func (h *rec) add(g int, i in, call int64, o out) {
	ret := h.now()
	h.addAt(g, i, call, o, ret)
}

func (h *rec) addAt(g int, i in, call int64, o out, ret int64) {
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: g, Input: i, Call: call, Output: o, Return: ret})
	h.mu.Unlock()
}

// id names a handle.
func (h *rec) id(l *ctree.Leaf) int {
	if l == nil {
		return 0
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.ptrs == nil {
		h.ptrs = map[*ctree.Leaf]int{}
	}
	if h.ptrs[l] == 0 {
		h.ptrs[l] = len(h.ptrs) + 1
	}
	return h.ptrs[l]
}

func describe(ops []porcupine.Operation) string {
	ops = append([]porcupine.Operation(nil), ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var s []string
	for _, o := range ops {
		i, x := o.Input.(in), o.Output.(out)
		s = append(s, fmt.Sprintf("[%d,%d] goroutine %d: %s %s val %d handle %d odd %d query %d -> ok %v val %d handle %d removed %q", o.Call, o.Return, o.ClientId, kindNames[i.kind], hist.Show(i.path), i.val, i.ptr, i.odd, i.q, x.ok, x.val, x.ptr, x.removed))
	}
	return strings.Join(s, "\n  ")
}

func split(k string) []string {
	if k == "" {
		return nil
	}
	return hist.Unkey(k)
}

// strange counts values that were passed on and never stored.
var strange atomic.Int64

func stored(v any) int {
	n, ok := v.(int)
	if !ok {
		strange.Add(1)
		return -1000
	}
	return n
}

// cond makes the condition of a delete.
func cond(odd int) func(any) bool {
	return func(v any) bool { return odd < 0 || stored(v)%2 == odd }
}

// query runs a query (or walk) and returns what it reports.
func query(t *ctree.Tree, rnd *rand.Rand, pattern []string, fail func(kind, f string, args ...any)) (map[string]int, map[string]*ctree.Leaf) {
	vals, ls := map[string]int{}, map[string]*ctree.Leaf{}
	var last []string
	how := "Query"
	visit := func(p []string, l *ctree.Leaf, v any) error {
		k := hist.Key(p)
		if _, ok := vals[k]; ok {
			fail("reported-twice", "%s(%q) reports %q twice", how, pattern, p)
		}
		if !hist.QueryMatches(pattern, p) {
			fail("reported-wrong", "%s(%q) reports %q", how, pattern, p)
		}
		n, ok := v.(int)
		if !ok {
			fail("reported-wrong", "%s(%q) reports value %v at %q", how, pattern, v, p)
			return nil
		}
		if how == "WalkSorted" {
			if last != nil && !less(last, p) {
				fail("order", "WalkSorted reports %q after %q", p, last)
			}
			last = append([]string(nil), p...)
		}
		vals[k], ls[k] = n, l
		return nil
	}
	var err error
	switch {
	case len(pattern) == 0 && rnd.Intn(3) == 0:
		how = "Walk"
		err = t.Walk(visit)
	case len(pattern) == 0 && rnd.Intn(2) == 0:
		how = "WalkSorted"
		err = t.WalkSorted(visit)
	default:
		err = t.Query(pattern, visit)
	}
	if err != nil {
		fail("query-error", "%s(%q) returns %v", how, pattern, err)
	}
	return vals, ls
}

func less(a, b []string) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// remove runs a delete in one of its forms and returns the removed paths and,
// if known, their values.
func remove(t *ctree.Tree, rnd *rand.Rand, pattern []string, odd int) (paths [][]string, vals []int, how string) {
	switch k := rnd.Intn(3); {
	case k == 0:
		t.WalkDeleted(pattern, cond(odd), func(v any) { vals = append(vals, stored(v)) })
		return nil, vals, "WalkDeleted"
	case k == 1 && odd < 0:
		return t.Delete(pattern), nil, "Delete"
	default:
		return t.DeleteConditional(pattern, cond(odd)), nil, "DeleteConditional"
	}
}

// ---- Whole-tree histories.

// forest is the state of a whole-tree model. Content is "path=value;" sorted.
type forest struct {
	content string
	dels    int
	seen    string // per query: the deletes it has seen
}

func parse(s string) map[string]int {
	m := map[string]int{}
	for _, e := range strings.Split(s, "\x00") {
		if e == "" {
			continue
		}
		i := strings.LastIndexByte(e, '=')
		v := 0
		fmt.Sscan(e[i+1:], &v)
		m[e[:i]] = v
	}
	return m
}

func format(m map[string]int) string {
	var sb strings.Builder
	for _, k := range vk.SortedKeys(m) {
		fmt.Fprintf(&sb, "%s=%d\x00", k, m[k])
	}
	return sb.String()
}

var whole = porcupine.Model{
	Init: func() any { return forest{} },
	Step: func(state, input, output any) (bool, any) {
		s, i, o := state.(forest), input.(in), output.(out)
		m := parse(s.content)
		switch i.kind {
		case add:
			ok := i.path != ""
			for k := range m {
				if k != i.path && (hist.IsPrefix(split(k), split(i.path)) || hist.IsPrefix(split(i.path), split(k))) {
					ok = false
				}
			}
			if ok != o.ok {
				return false, nil
			}
			if ok {
				m[i.path] = i.val
				s.content = format(m)
			}
			return true, s
		case lookup:
			return m[i.path] == o.val, s
		case exists:
			ok := i.path == ""
			for k := range m {
				ok = ok || hist.IsPrefix(split(i.path), split(k))
			}
			return ok == o.ok, s
		case read:
			if m[i.path] != o.val {
				return false, nil
			}
			// The query sees all or nothing of each delete.
			q := parse(s.seen)
			id := fmt.Sprint(i.q)
			if d, ok := q[id]; ok {
				return d == s.dels, s
			}
			q[id] = s.dels
			s.seen = format(q)
			return true, s
		case del:
			var rm []string
			for k, v := range m {
				if hist.QueryMatches(split(i.path), split(k)) && (i.odd < 0 || v%2 == i.odd) {
					delete(m, k)
					if i.vals {
						k = fmt.Sprint(v)
					}
					rm = append(rm, k)
				}
			}
			sort.Strings(rm)
			if strings.Join(rm, "\x00") != o.removed {
				return false, nil
			}
			if len(rm) > 0 {
				s.content = format(m)
				s.dels++
			}
			return true, s
		}
		panic("?")
	},
	Equal: func(a, b any) bool { return a == b },
}

var universes = [][]string{
	{"a", "a/b", "a/c", "b/c/d", "b/c/e", "b/f"},
	{"a/b/c", "a/b/d", "a/b", "a/e"},
	{"a", "b", "c/a", "c/b"},
	{"a/a/a/a", "a/a/a/b", "a/a/b/a", "a/b/a/a", "a/a"},
}

var patterns = [][]string{{}, {"*"}, {"a"}, {"a", "*"}, {"a", "b"}, {"b", "c"}, {"b", "*", "d"}, {"c"}, {"*", "b"}, {"*", "*"}, {"a", "a", "*", "a"}, {"a", "b", "c"}}

func keys(u []string) []string {
	var r []string
	for _, p := range u {
		r = append(r, strings.ReplaceAll(p, "/", "\x1f"))
	}
	return r
}

func small(r *vk.Run, i int, race bool) {
	rnd := r.Rand("small", i, race)
	how := sched.Pick(rnd, time.Duration(5+rnd.Intn(60))*time.Microsecond)
	defer sched.Off()
	desc := fmt.Sprintf("small history %d (race build: %v): %s", i, race, how)
	r.Journal("%s", desc)
	fail := func(kind, f string, args ...any) {
		r.Violation(kind, "%s\n%s", fmt.Sprintf(f, args...), desc)
	}
	us := keys(universes[rnd.Intn(len(universes))])
	t := &ctree.Tree{}
	h := &rec{}
	var next atomic.Int64
	for n := rnd.Intn(4); n > 0; n-- {
		p, v, c := us[rnd.Intn(len(us))], int(next.Add(1)), h.now()
		h.add(0, in{kind: add, path: p, val: v}, c, out{ok: t.Add(split(p), v) == nil})
	}
	queries := atomic.Int64{}
	mix := rnd.Intn(3)
	var workers []func()
	g := 2 + rnd.Intn(3)
	ops := 1 + rnd.Intn(5)
	if g == 4 {
		ops = 1 + rnd.Intn(3)
	}
	for w := 1; w <= g; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		workers = append(workers, func() {
			for k := 0; k < ops; k++ {
				p := us[wr.Intn(len(us))]
				pat := patterns[wr.Intn(len(patterns))]
				if wr.Intn(2) == 0 {
					pat = split(p)
				}
				c := wr.Intn(20)
				if mix == 1 && c >= 9 {
					c = wr.Intn(9)
				}
				call := h.now()
				switch {
				case c < 8:
					v := int(next.Add(1))
					h.add(w, in{kind: add, path: p, val: v}, call, out{ok: t.Add(split(p), v) == nil})
				case c < 12:
					odd := wr.Intn(3) - 1
					ps, vs, form := remove(t, wr, pat, odd)
					ret := h.now()
					var rm []string
					for _, p := range ps {
						rm = append(rm, hist.Key(p))
					}
					for _, v := range vs {
						rm = append(rm, fmt.Sprint(v))
					}
					sort.Strings(rm)
					h.addAt(w, in{kind: del, path: hist.Key(pat), odd: odd, vals: form == "WalkDeleted"}, call, out{removed: strings.Join(rm, "\x00")}, ret)
				case c < 15:
					v, _ := t.GetLeafValue(split(p)).(int)
					h.add(w, in{kind: lookup, path: p}, call, out{val: v})
				case c < 16:
					if wr.Intn(2) == 0 {
						p = strings.SplitN(p, "\x1f", 2)[0]
					}
					h.add(w, in{kind: exists, path: p}, call, out{ok: t.Get(split(p)) != nil})
				default:
					vals, _ := query(t, wr, pat, fail)
					ret := h.now()
					q := int(queries.Add(1))
					for _, u := range us {
						if hist.QueryMatches(pat, split(u)) {
							h.addAt(w, in{kind: read, path: u, q: q}, call, out{val: vals[u]}, ret)
							delete(vals, u)
						}
					}
					if len(vals) > 0 {
						fail("reported-wrong", "Query(%q) reports %v", pat, vals)
					}
				}
			}
		})
	}
	if !run(r, desc, workers) {
		return
	}
	sched.Off()
	// The final content.
	call := h.now()
	vals, _ := query(t, rnd, nil, fail)
	ret := h.now()
	q := int(queries.Add(1))
	for _, u := range us {
		h.addAt(0, in{kind: read, path: u, q: q}, call, out{val: vals[u]}, ret)
	}
	verdict(r, whole, h.ops, desc, "not-linearizable")
	r.Count("queries", q)
	r.Count("small_operations", len(h.ops))
	r.Eval(1)
	r.DistinctHash(shape(h.ops))
	if r.WantSample() && i > 50 {
		r.Sample("%s\n%s", desc, describe(h.ops))
	}
}

// shape is the identity of a recorded history.
func shape(ops []porcupine.Operation) uint64 {
	type ev struct {
		at  int64
		s   string
		ret bool
	}
	var es []ev
	for n, o := range ops {
		es = append(es, ev{o.Call, fmt.Sprint("c", n, o.ClientId, o.Input), false}, ev{o.Return, fmt.Sprint("r", n, o.Output), true})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var sb strings.Builder
	for _, e := range es {
		sb.WriteString(e.s)
	}
	return vk.Hash(sb.String())
}

func verdict(r *vk.Run, m porcupine.Model, ops []porcupine.Operation, desc, kind string) {
	switch porcupine.CheckOperationsTimeout(m, ops, 10*time.Second) {
	case porcupine.Ok:
		r.Count("histories_linearizable", 1)
	case porcupine.Illegal:
		if m.Partition != nil {
			for _, part := range m.Partition(ops) {
				if porcupine.CheckOperations(one, part) == false {
					ops = part
					break
				}
			}
		}
		r.Violation(kind, "no sequential order of these operations explains their results\n%s\n  %s", desc, describe(ops))
	default:
		r.Count("histories_undecided", 1)
	}
}

// ---- Per-path histories with handles.

// cell is the state of one path.
type cell struct {
	val int    // 0: absent
	ptr int    // the handle of the leaf, 0: not known yet
	det string // values of leaves that were deleted, by handle
}

var one = porcupine.Model{
	Init: func() any { return cell{} },
	Step: func(state, input, output any) (bool, any) {
		s, i, o := state.(cell), input.(in), output.(out)
		// seen notes that the leaf has handle p.
		seen := func(p int) bool {
			if s.ptr == 0 {
				if _, old := parse(s.det)[fmt.Sprint(p)]; old {
					return false
				}
				s.ptr = p
			}
			return s.ptr == p
		}
		switch i.kind {
		case add:
			s.val = i.val
			return o.ok, s
		case lookup:
			return s.val == o.val, s
		case read:
			if s.val != o.val {
				return false, nil
			}
			return o.val == 0 || seen(o.ptr), s
		case leaf:
			if (s.val == 0) != (o.ptr == 0) {
				return false, nil
			}
			return o.ptr == 0 || seen(o.ptr), s
		case update:
			if s.val != 0 && s.ptr == i.ptr {
				s.val = i.val
				return true, s
			}
			d := parse(s.det)
			if _, ok := d[fmt.Sprint(i.ptr)]; !ok {
				return false, nil
			}
			d[fmt.Sprint(i.ptr)] = i.val
			s.det = format(d)
			return true, s
		case value:
			if s.val != 0 && s.ptr == i.ptr {
				return s.val == o.val, s
			}
			return parse(s.det)[fmt.Sprint(i.ptr)] == o.val, s
		case del:
			gone := s.val != 0 && (i.odd < 0 || s.val%2 == i.odd)
			if i.vals {
				// All that is known is whether this value was removed.
				gone = gone && true
			}
			if gone != o.ok || gone && i.vals && o.val != s.val {
				return false, nil
			}
			if gone {
				if s.ptr != 0 {
					d := parse(s.det)
					d[fmt.Sprint(s.ptr)] = s.val
					s.det = format(d)
				}
				s.val, s.ptr = 0, 0
			}
			return true, s
		}
		panic("?")
	},
	Equal: func(a, b any) bool { return a == b },
}

var perPath = func() porcupine.Model {
	m := one
	m.Partition = func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			p := o.Input.(in).path
			by[p] = append(by[p], o)
		}
		var r [][]porcupine.Operation
		for _, k := range vk.SortedKeys(by) {
			r = append(r, by[k])
		}
		return r
	}
	return m
}()

// paths runs 2 to 16 goroutines on leaves of the same depth.
func paths(r *vk.Run, i int, race bool) {
	rnd := r.Rand("paths", i, race)
	how := sched.Pick(rnd, time.Duration(5+rnd.Intn(60))*time.Microsecond)
	defer sched.Off()
	desc := fmt.Sprintf("path history %d (race build: %v): %s", i, race, how)
	r.Journal("%s", desc)
	fail := func(kind, f string, args ...any) {
		r.Violation(kind, "%s\n%s", fmt.Sprintf(f, args...), desc)
	}
	depth := 1 + rnd.Intn(3)
	names := hist.Alphabet(rnd, 1+rnd.Intn(3), "a", "b", "c")
	us := []string{""}
	for d := 0; d < depth; d++ {
		var n []string
		for _, u := range us {
			for _, e := range names {
				n = append(n, hist.Key(append(split(u), e)))
			}
		}
		us = n
	}
	rnd.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
	us = us[:min(len(us), 8)]
	t := &ctree.Tree{}
	h := &rec{}
	var next, queries atomic.Int64
	g := 2 + rnd.Intn(4)
	if rnd.Intn(4) == 0 {
		g = 2 + rnd.Intn(15)
	}
	total := 30 + rnd.Intn(60)
	handles := rnd.Intn(2) == 0
	dels := rnd.Intn(4)
	var workers []func()
	for w := 1; w <= g; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		type held struct {
			l *ctree.Leaf
			p string
		}
		var mine []held
		workers = append(workers, func() {
			for k := 0; k <= total/g; k++ {
				p := us[wr.Intn(len(us))]
				pat := append([]string(nil), split(p)...)
				for n := range pat {
					if wr.Intn(4) == 0 {
						pat[n] = "*"
					}
				}
				pat = pat[:wr.Intn(len(pat)+1)]
				if wr.Intn(3) == 0 {
					pat = split(p)
				}
				c := wr.Intn(20)
				if !handles && c >= 15 {
					c = wr.Intn(15)
				}
				call := h.now()
				switch {
				case c < 6:
					v := int(next.Add(1))
					err := t.Add(split(p), v)
					h.add(w, in{kind: add, path: p, val: v}, call, out{ok: err == nil})
				case c < 6+dels:
					odd := wr.Intn(3) - 1
					ps, vs, form := remove(t, wr, pat, odd)
					ret := h.now()
					got := map[string]bool{}
					for _, p := range ps {
						k := hist.Key(p)
						if got[k] || !hist.QueryMatches(pat, p) {
							fail("deleted-wrong", "%s(%q) reports %q", form, pat, ps)
						}
						got[k] = true
					}
					if form == "WalkDeleted" {
						// Which values were where is known from the operations that set them.
						h.mu.Lock()
						byVal := map[int]string{}
						h.mu.Unlock()
						_ = byVal
						if len(pat) == depth && !hasGlob(pat) {
							o := out{}
							if len(vs) > 0 {
								o = out{ok: true, val: vs[0]}
							}
							if len(vs) > 1 {
								fail("deleted-wrong", "WalkDeleted(%q) reports %v", pat, vs)
							}
							h.addAt(w, in{kind: del, path: hist.Key(pat), odd: odd, vals: true}, call, o, ret)
							break
						}
						for _, u := range us {
							if hist.QueryMatches(pat, split(u)) {
								h.addAt(w, in{kind: del, path: u, odd: odd, ptr: -1}, call, out{removed: fmt.Sprint(vs)}, ret)
							}
						}
						break
					}
					for _, u := range us {
						if hist.QueryMatches(pat, split(u)) {
							h.addAt(w, in{kind: del, path: u, odd: odd}, call, out{ok: got[u]}, ret)
							delete(got, u)
						}
					}
					if len(got) > 0 {
						fail("deleted-wrong", "%s(%q) reports %q", form, pat, ps)
					}
				case c < 11:
					v, _ := t.GetLeafValue(split(p)).(int)
					h.add(w, in{kind: lookup, path: p}, call, out{val: v})
				case c < 15:
					vals, ls := query(t, wr, pat, fail)
					ret := h.now()
					queries.Add(1)
					for _, u := range us {
						if !hist.QueryMatches(pat, split(u)) {
							continue
						}
						h.addAt(w, in{kind: read, path: u}, call, out{val: vals[u], ptr: h.id(ls[u])}, ret)
						if ls[u] != nil {
							mine = append(mine, held{ls[u], u})
						}
						delete(vals, u)
					}
					if len(vals) > 0 {
						fail("reported-wrong", "Query(%q) reports %v", pat, vals)
					}
				case c < 17:
					l := t.GetLeaf(split(p))
					ret := h.now()
					h.addAt(w, in{kind: leaf, path: p}, call, out{ptr: h.id(l)}, ret)
					if l != nil {
						mine = append(mine, held{l, p})
					}
				case len(mine) > 0:
					x := mine[wr.Intn(len(mine))]
					if wr.Intn(2) == 0 {
						x = mine[len(mine)-1]
					}
					if c < 19 {
						v := int(next.Add(1))
						x.l.Update(v)
						ret := h.now()
						h.addAt(w, in{kind: update, path: x.p, ptr: h.id(x.l), val: v}, call, out{}, ret)
						r.Count("handle_updates", 1)
					} else {
						v, _ := x.l.Value().(int)
						ret := h.now()
						h.addAt(w, in{kind: value, path: x.p, ptr: h.id(x.l)}, call, out{val: v}, ret)
					}
				}
			}
		})
	}
	if !run(r, desc, workers) {
		return
	}
	sched.Off()
	call := h.now()
	vals, ls := query(t, rnd, nil, fail)
	ret := h.now()
	for _, u := range us {
		h.addAt(0, in{kind: read, path: u}, call, out{val: vals[u], ptr: h.id(ls[u])}, ret)
		delete(vals, u)
	}
	if len(vals) > 0 {
		fail("reported-wrong", "the tree finally has %v", vals)
	}
	// A value is set once and at one path: what WalkDeleted reported is
	// attributed to paths.
	where := map[int]string{}
	for _, o := range h.ops {
		if x := o.Input.(in); x.kind == add || x.kind == update {
			where[x.val] = x.path
		}
	}
	for n, o := range h.ops {
		x := o.Input.(in)
		if x.kind != del || x.ptr != -1 {
			continue
		}
		var res out
		for _, f := range strings.Fields(strings.Trim(o.Output.(out).removed, "[]")) {
			v := 0
			fmt.Sscan(f, &v)
			if where[v] == x.path {
				if res.ok {
					fail("deleted-wrong", "WalkDeleted reports two values of %s", hist.Show(x.path))
				}
				res = out{ok: true, val: v}
			}
		}
		x.ptr, x.vals = 0, true
		h.ops[n].Input, h.ops[n].Output = x, res
	}
	verdict(r, perPath, h.ops, desc, "not-linearizable")
	r.Count("queries", int(queries.Load()))
	r.Count("path_operations", len(h.ops))
	r.Eval(1)
	r.DistinctHash(shape(h.ops))
}

func hasGlob(p []string) bool {
	for _, e := range p {
		if e == "*" {
			return true
		}
	}
	return false
}

// adders add beneath branches that do not exist, at once.
func adders(r *vk.Run, i int, race bool) {
	rnd := r.Rand("adders", i, race)
	how := sched.Pick(rnd, time.Duration(5+rnd.Intn(60))*time.Microsecond)
	defer sched.Off()
	desc := fmt.Sprintf("adders %d (race build: %v): %s", i, race, how)
	r.Journal("%s", desc)
	t := &ctree.Tree{}
	if rnd.Intn(2) == 0 {
		t.Add([]string{"z", "z"}, 0)
	}
	g := 2 + rnd.Intn(15)
	if rnd.Intn(2) == 0 {
		g = 2 + rnd.Intn(3)
	}
	per := 1 + rnd.Intn(4)
	depth := 1 + rnd.Intn(4)
	var mu sync.Mutex
	var bad []string
	var workers []func()
	for w := 0; w < g; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		workers = append(workers, func() {
			for k := 0; k < per; k++ {
				p := make([]string, 0, depth+1)
				for d := 0; d < depth; d++ {
					p = append(p, string(rune('a'+(k>>d)%2)))
				}
				p = append(p, fmt.Sprint("g", w, "k", k))
				v := w*1000 + k + 1
				err := t.Add(p, v)
				// What was added is there at once.
				got := t.GetLeafValue(p)
				if err != nil || got != v {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("Add(%q, %d) = %v, then the leaf has %v", p, v, err, got))
					mu.Unlock()
				}
				switch wr.Intn(6) {
				case 0:
					t.Delete([]string{"z"})
				case 1:
					n := 0
					t.Query(nil, func([]string, *ctree.Leaf, any) error { n++; return nil })
					if n < k+1 {
						mu.Lock()
						bad = append(bad, fmt.Sprintf("a query reports %d leaves after %d were added", n, k+1))
						mu.Unlock()
					}
				case 2:
					t.Add([]string{"z", fmt.Sprint(w), "z"}, 0)
				}
			}
		})
	}
	if !run(r, desc, workers) {
		return
	}
	n := 0
	t.Walk(func(p []string, _ *ctree.Leaf, v any) error {
		if p[0] != "z" {
			n++
		}
		return nil
	})
	if n != g*per {
		bad = append(bad, fmt.Sprintf("%d leaves were added, %d are there", g*per, n))
	}
	if len(bad) > 0 {
		r.Violation("lost-add", "%s\n%s\n%v", desc, strings.Join(bad[:min(5, len(bad))], "\n"), t)
	}
	r.Count("adds_survived", n)
	r.Eval(1)
	r.Distinct("a", i, race)
}

// stress runs many operations of all sorts on overlapping paths.
func stress(r *vk.Run, i int, race bool) {
	rnd := r.Rand("stress", i, race)
	how := sched.Pick(rnd, time.Duration(5+rnd.Intn(30))*time.Microsecond)
	defer sched.Off()
	desc := fmt.Sprintf("stress %d (race build: %v): %s", i, race, how)
	r.Journal("%s", desc)
	fail := func(kind, f string, args ...any) {
		r.Violation(kind, "%s\n%s", fmt.Sprintf(f, args...), desc)
	}
	t := &ctree.Tree{}
	var clock, next atomic.Int64
	type ev struct {
		call, ret int64
		kind      int
		p         []string // path or pattern
		val       int
		rep       map[string]int
	}
	var mu sync.Mutex
	var evs []ev
	g := 2 + rnd.Intn(15)
	ops := 1600 / g
	conflicts := rnd.Intn(2) == 0
	path := func(wr *rand.Rand) []string {
		p := []string{string(rune('a' + wr.Intn(3))), string(rune('a' + wr.Intn(2))), string(rune('a' + wr.Intn(3)))}
		if conflicts && wr.Intn(8) == 0 {
			p = p[:1+wr.Intn(3)]
		}
		return p
	}
	var workers []func()
	for w := 0; w < g; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		workers = append(workers, func() {
			var mine []ev
			var l *ctree.Leaf
			for k := 0; k < ops; k++ {
				p := path(wr)
				pat := append([]string(nil), p...)
				for n := range pat {
					if wr.Intn(4) == 0 {
						pat[n] = "*"
					}
				}
				pat = pat[:wr.Intn(len(pat)+1)]
				e := ev{call: clock.Add(1), kind: -1}
				switch wr.Intn(12) {
				case 0, 1, 2, 3:
					v := int(next.Add(1))
					if err := t.Add(p, v); err == nil {
						e.kind, e.p, e.val = add, p, v
					} else if !conflicts {
						fail("add-error", "Add(%q) = %v", p, err)
					}
				case 4:
					if len(pat) == 0 && wr.Intn(4) > 0 {
						pat = p
					}
					odd := wr.Intn(3) - 1
					remove(t, wr, pat, odd)
					e.kind, e.p = del, pat
				case 5, 6:
					e.rep, _ = query(t, wr, pat, fail)
					e.kind, e.p = read, pat
				case 7:
					v, _ := t.GetLeafValue(p).(int)
					e.rep = map[string]int{}
					if v > 0 {
						e.rep[hist.Key(p)] = v
					}
					e.kind, e.p = lookup, p
				case 8:
					if x := t.GetLeaf(p); x != nil && !(*ctree.Tree)(x).IsBranch() {
						l = x
					}
				case 9:
					if l != nil {
						l.Value()
					}
				case 10:
					for _, c := range t.Get(p[:1]).Children() {
						c.IsBranch()
						c.Value()
					}
				case 11:
					_ = t.String()
				}
				if e.kind >= 0 {
					e.ret = clock.Add(1)
					mine = append(mine, e)
				}
			}
			mu.Lock()
			evs = append(evs, mine...)
			mu.Unlock()
		})
	}
	if !run(r, desc, workers) {
		return
	}
	sched.Off()
	last := ev{call: clock.Add(1), kind: read}
	last.rep, _ = query(t, rnd, nil, fail)
	last.ret = clock.Add(1)
	evs = append(evs, last)
	for a := range last.rep {
		for b := range last.rep {
			if a != b && hist.IsPrefix(split(a), split(b)) {
				fail("content", "the tree finally has the leaves %s and %s", hist.Show(a), hist.Show(b))
			}
		}
	}
	// Judge what was reported by the times of adds and deletes.
	adds := map[string][]ev{}
	byVal := map[int]ev{}
	var dels []ev
	for _, e := range evs {
		switch e.kind {
		case add:
			adds[hist.Key(e.p)] = append(adds[hist.Key(e.p)], e)
			byVal[e.val] = e
		case del:
			dels = append(dels, e)
		}
	}
	required := 0
	for _, e := range evs {
		if e.rep == nil {
			continue
		}
		for k, v := range e.rep {
			a, ok := byVal[v]
			switch {
			case !ok || hist.Key(a.p) != k:
				fail("reported-wrong", "[%d,%d] %s %q reports value %d at %s, which was never added there", e.call, e.ret, kindNames[e.kind], e.p, v, hist.Show(k))
			case a.call > e.ret:
				fail("reported-wrong", "[%d,%d] %s %q reports value %d at %s before it is added at [%d,%d]", e.call, e.ret, kindNames[e.kind], e.p, v, hist.Show(k), a.call, a.ret)
			}
			for _, b := range adds[k] {
				if b.call > a.ret && b.ret < e.call {
					fail("stale", "[%d,%d] %s %q reports value %d at %s although value %d was added at [%d,%d]", e.call, e.ret, kindNames[e.kind], e.p, v, hist.Show(k), b.val, b.call, b.ret)
				}
			}
		}
		for k, as := range adds {
			if _, ok := e.rep[k]; ok || !hist.QueryMatches(e.p, split(k)) || e.kind == lookup && hist.Key(e.p) != k {
				continue
			}
			for _, a := range as {
				if a.ret > e.call {
					continue
				}
				gone := false
				for _, d := range dels {
					if d.ret > a.call && d.call < e.ret && hist.QueryMatches(d.p, split(k)) {
						gone = true
						break
					}
				}
				if !gone {
					fail("missing", "[%d,%d] %s %q does not report %s, added at [%d,%d] and not deleted since", e.call, e.ret, kindNames[e.kind], e.p, hist.Show(k), a.call, a.ret)
					break
				}
			}
		}
		required += len(e.rep)
	}
	r.Count("stress_operations", g*ops)
	r.Count("stress_reports", required)
	r.Eval(1)
	r.Distinct("s", i, race)
}
