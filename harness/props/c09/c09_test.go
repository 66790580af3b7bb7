// Package c09 checks property C09: used from one goroutine the path tree is a
// prefix-free map with consistent wildcard query and delete.
package c09

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/ctree"

	"verifharness/vk"
)

// model is the reference: a map from paths to values.
type model map[string]entry

type entry struct {
	path []string
	val  int
}

func key(p []string) string { return fmt.Sprintf("%q", p) }

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// matches is the meaning of a query: elements agree, and a final wildcard also
// stands for the leaf above it.
func matches(q, p []string) bool {
	for i := range q {
		if i >= len(p) {
			return i == len(p) && i == len(q)-1 && q[i] == "*"
		}
		if q[i] != "*" && q[i] != p[i] {
			return false
		}
	}
	return true
}

func (m model) canAdd(p []string) bool {
	for _, e := range m {
		if len(e.path) != len(p) && (isPrefix(e.path, p) || isPrefix(p, e.path)) {
			return false
		}
	}
	return true
}

func (m model) query(q []string) map[string]int {
	r := map[string]int{}
	for k, e := range m {
		if matches(q, e.path) {
			r[k] = e.val
		}
	}
	return r
}

func (m model) all() map[string]int {
	r := map[string]int{}
	for k, e := range m {
		r[k] = e.val
	}
	return r
}

func less(a, b []string) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

type tester struct {
	r   *vk.Run
	m   model
	t   *ctree.Tree
	log []string
}

func newTester(r *vk.Run) *tester {
	return &tester{r: r, m: model{}, t: &ctree.Tree{}}
}

func (x *tester) fail(kind, f string, a ...any) {
	x.r.Violation(kind, "%s\nhistory:\n  %s\nexpected content: %v", fmt.Sprintf(f, a...), strings.Join(x.log, "\n  "), x.m.all())
}

func (x *tester) logf(f string, a ...any) { x.log = append(x.log, fmt.Sprintf(f, a...)) }

var errStop = errors.New("stop")

// visit collects what a query or walk reports.
func (x *tester) visit(what string, run func(ctree.VisitFunc) error) (map[string]int, [][]string) {
	got := map[string]int{}
	var order, kept [][]string
	var leaves []*ctree.Leaf
	err := run(func(p []string, l *ctree.Leaf, v interface{}) error {
		k := key(p)
		if _, dup := got[k]; dup {
			x.fail("reported-twice", "%s reports %s twice", what, k)
		}
		n, ok := v.(int)
		if !ok {
			x.fail("bad-value", "%s reports value %#v at %s", what, v, k)
		}
		if l == nil {
			x.fail("nil-leaf", "%s reports a nil leaf at %s", what, k)
		}
		got[k] = n
		order = append(order, append([]string{}, p...))
		kept = append(kept, p)
		leaves = append(leaves, l)
		return nil
	})
	for i, k := range order {
		// client.CacheClient.Leaves keeps the paths of a walk.
		if strings.HasPrefix(what, "Walk") && key(kept[i]) != key(k) {
			x.fail("path-overwritten", "%s reports %q; the path is %q when it is done", what, k, kept[i])
		}
		if leaves[i] != nil && leaves[i].Value() != any(got[key(k)]) {
			x.fail("leaf-handle", "%s reports %q with %v and a leaf of value %v", what, k, got[key(k)], leaves[i].Value())
		}
	}
	if err != nil {
		x.fail("unexpected-error", "%s returns %v", what, err)
	}
	return got, order
}

func (x *tester) checkQuery(q []string) {
	want := x.m.query(q)
	got, _ := x.visit(fmt.Sprintf("Query(%q)", q), func(f ctree.VisitFunc) error { return x.t.Query(q, f) })
	if !reflect.DeepEqual(got, want) {
		x.fail("query", "Query(%q) = %v, want %v", q, got, want)
	}
}

func (x *tester) checkEarlyStop(q []string, after int) {
	n := len(x.m.query(q))
	calls := 0
	err := x.t.Query(q, func([]string, *ctree.Leaf, interface{}) error {
		calls++
		if calls > after {
			return errStop
		}
		return nil
	})
	if n > after && (err != errStop || calls != after+1) || n <= after && (err != nil || calls != n) {
		x.fail("early-stop", "Query(%q) with an error at call %d made %d calls and returned %v; %d leaves match", q, after+1, calls, err, n)
	}
	for name, walk := range map[string]func(ctree.VisitFunc) error{"Walk": x.t.Walk, "WalkSorted": x.t.WalkSorted} {
		calls = 0
		err = walk(func([]string, *ctree.Leaf, interface{}) error {
			calls++
			if calls > after {
				return errStop
			}
			return nil
		})
		n := len(x.m)
		if n > after && (err != errStop || calls != after+1) || n <= after && (err != nil || calls != n) {
			x.fail("early-stop", "%s with an error at call %d made %d calls and returned %v; %d leaves exist", name, after+1, calls, err, n)
		}
	}
}

func (x *tester) checkContent() {
	want := x.m.all()
	got, _ := x.visit("Walk", x.t.Walk)
	if !reflect.DeepEqual(got, want) {
		x.fail("walk", "Walk = %v, want %v", got, want)
	}
	got, order := x.visit("WalkSorted", x.t.WalkSorted)
	if !reflect.DeepEqual(got, want) {
		x.fail("walk-sorted", "WalkSorted = %v, want %v", got, want)
	}
	if !sort.SliceIsSorted(order, func(i, j int) bool { return less(order[i], order[j]) }) {
		x.fail("walk-order", "WalkSorted order %q", order)
	}
}

func (x *tester) checkLookup(p []string) {
	e, ok := x.m[key(p)]
	v := x.t.GetLeafValue(p)
	if ok && v != any(e.val) || !ok && v != nil {
		x.fail("lookup", "GetLeafValue(%q) = %v, want %v (stored: %v)", p, v, e.val, ok)
	}
	below := false
	for _, e := range x.m {
		if len(e.path) > len(p) && isPrefix(p, e.path) {
			below = true
		}
	}
	n := x.t.Get(p)
	if len(p) > 0 && (n != nil) != (ok || below) {
		x.fail("get", "Get(%q) = %v, stored: %v, leaves below: %v", p, n != nil, ok, below)
	}
	if n != nil && n.IsBranch() != below {
		x.fail("is-branch", "Get(%q).IsBranch() = %v, want %v", p, n.IsBranch(), below)
	}
	if below {
		want := map[string]bool{}
		for _, e := range x.m {
			if len(e.path) > len(p) && isPrefix(p, e.path) {
				want[e.path[len(p)]] = true
			}
		}
		got := map[string]bool{}
		for k := range n.Children() {
			got[k] = true
		}
		if !reflect.DeepEqual(got, want) {
			x.fail("children", "Get(%q).Children() = %v, want %v", p, got, want)
		}
	} else if n != nil && n.Children() != nil {
		x.fail("children", "Get(%q).Children() = %v, want nil", p, n.Children())
	}
	l := x.t.GetLeaf(p)
	if ok {
		if l == nil || l.Value() != any(e.val) {
			x.fail("get-leaf", "GetLeaf(%q) does not hold %v", p, e.val)
		}
	}
}

func (x *tester) add(p []string, v int) {
	x.logf("Add(%q, %d)", p, v)
	err := x.t.Add(append([]string{}, p...), v)
	can := x.m.canAdd(p)
	if can != (err == nil) {
		x.fail("add-result", "Add(%q) = %v, want success: %v", p, err, can)
	}
	if can {
		x.m[key(p)] = entry{append([]string{}, p...), v}
	}
}

// del deletes q from tree and model in one of the three ways.
func (x *tester) del(q []string, how int, cond func(int) bool) {
	want := map[string]int{}
	for k, v := range x.m.query(q) {
		if cond == nil || cond(v) {
			want[k] = v
		}
	}
	c := func(v interface{}) bool {
		n, ok := v.(int)
		if !ok {
			x.fail("delete-condition", "condition of delete %q is called with %#v", q, v)
			return false
		}
		found := false
		for _, e := range x.m {
			if e.val == n && matches(q, e.path) {
				found = true
			}
		}
		if !found {
			x.fail("delete-condition", "condition of delete %q is called with %v, which is no matching value", q, v)
		}
		return cond == nil || cond(n)
	}
	got := map[string]int{}
	switch how {
	case 0, 1:
		var res [][]string
		if how == 0 && cond == nil {
			x.logf("Delete(%q)", q)
			res = x.t.Delete(q)
		} else {
			x.logf("DeleteConditional(%q), removing %v", q, want)
			res = x.t.DeleteConditional(q, c)
		}
		for _, p := range res {
			if _, dup := got[key(p)]; dup {
				x.fail("delete-twice", "delete %q returns %q twice", q, p)
			}
			got[key(p)] = x.m[key(p)].val
		}
		if !reflect.DeepEqual(got, want) {
			x.fail("delete-result", "delete %q returns %v, want %v", q, got, want)
		}
	case 2:
		x.logf("WalkDeleted(%q), removing %v", q, want)
		var vals, wants []int
		x.t.WalkDeleted(q, c, func(v interface{}) {
			n, ok := v.(int)
			if !ok {
				x.fail("walk-deleted", "WalkDeleted(%q) reports %#v", q, v)
			}
			vals = append(vals, n)
		})
		for _, v := range want {
			wants = append(wants, v)
		}
		sort.Ints(vals)
		sort.Ints(wants)
		if fmt.Sprint(vals) != fmt.Sprint(wants) {
			x.fail("walk-deleted", "WalkDeleted(%q) reports %v, want %v", q, vals, wants)
		}
	}
	for k := range want {
		delete(x.m, k)
	}
}

// words returns all words over alphabet of at most n letters.
func words(alphabet []string, n int) [][]string {
	res := [][]string{{}}
	prev := res
	for i := 0; i < n; i++ {
		var next [][]string
		for _, w := range prev {
			for _, a := range alphabet {
				next = append(next, append(append([]string{}, w...), a))
			}
		}
		res = append(res, next...)
		prev = next
	}
	return res
}

// antichains returns all prefix-free sets of words over {a,b} of at most depth
// more letters below prefix.
func antichains(prefix []string, depth int) [][][]string {
	res := [][][]string{{}, {append([]string{}, prefix...)}}
	if depth == 0 {
		return res
	}
	l := antichains(append(append([]string{}, prefix...), "a"), depth-1)
	r := antichains(append(append([]string{}, prefix...), "b"), depth-1)
	for i, a := range l {
		for j, b := range r {
			if i == 0 && j == 0 {
				continue
			}
			res = append(res, append(append([][]string{}, a...), b...))
		}
	}
	return res
}

func build(r *vk.Run, set [][]string, rnd *rand.Rand) *tester {
	x := newTester(r)
	for _, i := range rnd.Perm(len(set)) {
		x.add(set[i], i+1)
	}
	return x
}

func TestCheck(t *testing.T) {
	vk.Main(t, "C09", func(t *testing.T, r *vk.Run) {
		exhaustive(r)
		random(r)
	})
}

func exhaustive(r *vk.Run) {
	depth := 3
	states := antichains(nil, depth)
	lookups := words([]string{"a", "b"}, depth+1)
	queries := words([]string{"a", "b", "*"}, depth+1)
	conds := []func(int) bool{nil, func(v int) bool { return v%2 == 0 }, func(v int) bool { return v%2 == 1 }, func(int) bool { return false }}
	r.Count("exhaustive_states", len(states))
	vk.Parallel(len(states), func(i int) {
		if r.TooMany() {
			return
		}
		set := states[i]
		rnd := r.Rand("exhaustive", i)
		r.Guard("exhaustive", fmt.Sprintf("state %q", set), func() {
			x := build(r, set, rnd)
			x.checkContent()
			for _, p := range lookups {
				x.checkLookup(p)
			}
			for _, q := range queries {
				x.checkQuery(q)
				x.checkEarlyStop(q, rnd.Intn(3))
			}
			r.Eval(1)
			r.Distinct("state", fmt.Sprint(set))
		})
		for _, p := range lookups {
			p := p
			r.Guard("exhaustive", fmt.Sprintf("state %q, Add(%q)", set, p), func() {
				x := build(r, set, rnd)
				x.add(p, 100)
				x.checkContent()
				x.checkLookup(p)
				r.Eval(1)
				r.Distinct("add", fmt.Sprint(set), fmt.Sprint(p))
			})
		}
		for _, q := range queries {
			q := q
			for ci, cond := range conds {
				if !r.Thorough() && ci > 0 && len(q) > depth {
					continue
				}
				how := (ci + len(q) + i) % 3
				r.Guard("exhaustive", fmt.Sprintf("state %q, delete %q, condition %d, variant %d", set, q, ci, how), func() {
					x := build(r, set, rnd)
					before := len(x.m)
					x.del(q, how, cond)
					x.checkContent()
					// Emptied branches are gone: adds succeed wherever no leaf is in the way.
					for k := 0; k < 3; k++ {
						x.add(lookups[rnd.Intn(len(lookups))], 200+k)
					}
					x.checkContent()
					x.checkQuery(queries[rnd.Intn(len(queries))])
					x.checkLookup(lookups[rnd.Intn(len(lookups))])
					r.Eval(1)
					if before > 0 {
						r.Distinct("del", fmt.Sprint(set), fmt.Sprint(q), ci)
					}
				})
			}
		}
	})
}

func random(r *vk.Run) {
	n := r.N(20000, 200000)
	vk.Parallel(n, func(i int) {
		if r.TooMany() {
			return
		}
		rnd := r.Rand("random", i)
		letters := []string{"a", "b", "c", "*", "", "interfaces", "a/b"}[:2+rnd.Intn(6)]
		maxLen := 1 + rnd.Intn(6)
		// Some trees are wide, others are deep.
		deep, wide := 0, 0
		switch rnd.Intn(200) {
		case 0:
			deep = 5 + rnd.Intn(60)
		case 1:
			wide = 20 + rnd.Intn(100)
			maxLen = 1 + rnd.Intn(3)
			for k := range wide {
				letters = append(letters, fmt.Sprint("n", k))
			}
		}
		rp := func(glob bool) []string {
			l := rnd.Intn(maxLen + 1)
			if l == 0 && rnd.Intn(4) > 0 {
				l = 1
			}
			n := deep
			if deep > 0 && rnd.Intn(20) == 0 {
				n = rnd.Intn(deep)
			}
			p := make([]string, n+l)
			for k := range p {
				switch {
				case glob && rnd.Intn(3+n) == 0:
					p[k] = "*"
				case k < n:
					p[k] = letters[0]
				default:
					p[k] = letters[rnd.Intn(len(letters))]
				}
			}
			return p
		}
		x := newTester(r)
		handles := map[*ctree.Leaf]int{} // detached leaves and their values
		r.Guard("random", fmt.Sprintf("random sequence %d", i), func() {
			steps := 5 + rnd.Intn(60)
			if wide > 0 {
				steps += 3 * wide
			}
			if deep > 0 || wide > 0 {
				r.Count("deep_or_wide_trees", 1)
			}
			for s := 0; s < steps; s++ {
				v := i*1000 + s
				switch k := rnd.Intn(12); {
				case wide > 0 && s < 2*wide:
					x.add(rp(false), v)
				case k < 6:
					x.add(rp(false), v)
				case k < 9:
					var cond func(int) bool
					if rnd.Intn(3) == 0 {
						mod := 1 + rnd.Intn(3)
						cond = func(v int) bool { return v%3 >= mod }
					}
					q := rp(true)
					// Handles of deleted leaves are detached from the tree; the root remains.
					for k, e := range x.m {
						if len(e.path) > 0 && matches(q, e.path) && (cond == nil || cond(e.val)) && rnd.Intn(2) == 0 {
							if l := x.t.GetLeaf(e.path); l != nil {
								handles[l] = x.m[k].val
							}
						}
					}
					x.del(q, rnd.Intn(3), cond)
				case k < 10:
					for k, e := range x.m {
						x.logf("GetLeaf(%q).Update(%d)", e.path, v)
						x.t.GetLeaf(e.path).Update(v)
						x.m[k] = entry{e.path, v}
						break
					}
				default:
					for l, want := range handles {
						if got := l.Value(); got != any(want) {
							x.fail("detached", "a detached leaf holds %v, want %v", got, want)
						}
						l.Update(-v)
						handles[l] = -v
					}
				}
				x.checkContent()
				x.checkQuery(rp(true))
				x.checkLookup(rp(false))
				r.Count("random_steps", 1)
			}
			x.checkEarlyStop(rp(true), rnd.Intn(4))
		})
		r.Eval(1)
		r.Distinct("random", strings.Join(x.log, ";"))
		if i < 2 {
			r.Sample("%s", strings.Join(x.log, "; "))
		}
	})
}
