package c01

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

const defaultOrigin = "openconfig"

// seg is a path element.
type seg struct {
	name string
	keys [][2]string // sorted by name
}

func (s seg) index() []string {
	r := []string{s.name}
	for _, k := range s.keys {
		r = append(r, k[1])
	}
	return r
}

func (s seg) elem() *gpb.PathElem {
	e := &gpb.PathElem{Name: s.name}
	for _, k := range s.keys {
		if e.Key == nil {
			e.Key = map[string]string{}
		}
		e.Key[k[0]] = k[1]
	}
	return e
}

func flat(segs []seg) []string {
	var r []string
	for _, s := range segs {
		r = append(r, s.index()...)
	}
	return r
}

// leaf is a leaf a device may have, or the container of an atomic group.
type leaf struct {
	origin string
	segs   []seg
	group  []leaf // of an atomic container: its leaves, relative
}

func (l leaf) index() []string { return append([]string{l.origin}, flat(l.segs)...) }

const sep = "\x00"

func join(p []string) string              { return strings.Join(p, sep) }
func split(s string) []string             { return strings.Split(s, sep) }
func pick[T any](r *rand.Rand, vs ...T) T { return vs[r.Intn(len(vs))] }

// under reports whether p continues pre.
func under(p, pre string) bool { return p == pre || strings.HasPrefix(p, pre+sep) }

// covers reports whether the pattern selects the path, as a query or delete.
func covers(pat, p []string) bool { return len(pat) <= len(p) && compat(pat, p) }

// compat reports whether they agree on the elements both have.
func compat(a, b []string) bool {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] && a[i] != "*" && b[i] != "*" {
			return false
		}
	}
	return true
}

// val is the value of a leaf.
type val struct {
	tv  *gpb.TypedValue
	old *gpb.Value // the deprecated form
	// container is the atomic container the leaf is in.
	container string
	sentinel  bool
}

// model is what a device has streamed.
type model struct {
	leaves map[string]val
	// shrunk has leaves that were in an atomic group and are not in its
	// replacement.
	shrunk map[string]val
	// gone has all leaves that were deleted, with their last value.
	gone map[string]val
	// had has all values of the leaves of atomic groups.
	had map[string][]val
	ts  int64
}

func newModel() *model {
	return &model{leaves: map[string]val{}, shrunk: map[string]val{}, gone: map[string]val{}, had: map[string][]val{}}
}

func (m *model) reset() {
	for k, v := range m.leaves {
		m.gone[k] = v
	}
	m.leaves, m.shrunk = map[string]val{}, map[string]val{}
}

func (m *model) set(p string, v val) {
	m.leaves[p] = v
	if v.container != "" {
		m.had[p] = append(m.had[p], v)
	}
	delete(m.shrunk, p)
}

func (m *model) remove(pat []string, except map[string]bool) int {
	n := 0
	for k, v := range m.leaves {
		at := split(k)
		if v.container != "" {
			at = split(v.container)
		}
		if covers(pat, at) && !except[k] {
			m.gone[k] = v
			delete(m.leaves, k)
			n++
		}
	}
	for k, v := range m.shrunk {
		if covers(pat, split(v.container)) {
			delete(m.shrunk, k)
		}
	}
	return n
}

// gen makes the notifications of a device.
type gen struct {
	*rand.Rand
	name    string
	pool    []leaf
	origins []string
	m       *model
	anyVals bool
	plain   bool // key values without special characters
	n       int
	large   int // values larger than gRPC takes by default still to come
	stats   func(string, int)
}

func (g *gen) keyValue() string {
	if g.plain {
		return pick(g.Rand, "eth0", "eth1", "Ethernet1/1/1", "Ethernet1/2", "10.0.0.0/24", "default", "1", "ge-0|0", "vlan;7", "a→b")
	}
	return pick(g.Rand, "eth0", "eth1", "Ethernet1/1/1", "10.0.0.0/24", "a b", "é/ü", "a=b", "x]y", "[z", `back\slash`, "q\"q", "::1", "meta", "a:b")
}

func (g *gen) seg() seg {
	s := seg{name: pick(g.Rand, "interfaces", "interface", "state", "config", "counters", "oper-status", "in_octets", "a", "b", "größe")}
	if g.Intn(3) == 0 {
		ks := []string{"name", "index", "af", "id"}
		g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		ks = ks[:1+g.Intn(3)]
		sort.Strings(ks)
		for _, k := range ks {
			s.keys = append(s.keys, [2]string{k, g.keyValue()})
		}
	}
	return s
}

func (g *gen) segs(n int) []seg {
	var r []seg
	for range n {
		r = append(r, g.seg())
	}
	return r
}

// makePool chooses the leaves; none is below another.
func (g *gen) makePool(n int) {
	free := func(l leaf, in []leaf) bool {
		a := join(l.index())
		for _, o := range in {
			b := join(o.index())
			if under(a, b) || under(b, a) {
				return false
			}
		}
		return true
	}
	var branches [][]seg
	for range 2 + g.Intn(3) {
		branches = append(branches, g.segs(1+g.Intn(2)))
	}
	for tries := 0; len(g.pool) < n && tries < 20*n; tries++ {
		l := leaf{origin: pick(g.Rand, g.origins...)}
		if g.Intn(4) > 0 {
			l.segs = append(l.segs, pick(g.Rand, branches...)...)
		}
		l.segs = append(l.segs, g.segs(1+g.Intn(3))...)
		if g.Intn(6) == 0 {
			// A single element.
			l = leaf{origin: l.origin, segs: g.segs(1)}
			if g.Intn(2) == 0 {
				l.segs = []seg{{name: fmt.Sprint("solo", g.Intn(3))}}
			}
		}
		if l.segs[0].name == "sentinel" || !free(l, g.pool) {
			continue
		}
		if g.Intn(8) == 0 {
			for range 2 + g.Intn(4) {
				s := leaf{segs: g.segs(1 + g.Intn(2))}
				s.origin = ""
				if free(s, l.group) {
					l.group = append(l.group, s)
				}
			}
		}
		g.pool = append(g.pool, l)
	}
}

func (g *gen) scalar(depth int) *gpb.TypedValue {
	switch g.Intn(11) {
	case 0, 1:
		return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: pick(g.Rand, 0, 1, -1, int64(g.Intn(100)), g.Int63(), -1<<63)}}
	case 2:
		return &gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: pick(g.Rand, 0, 1, uint64(g.Intn(100)), g.Uint64(), 1<<64-1)}}
	case 3:
		return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: g.Intn(2) == 0}}
	case 4:
		return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: pick(g.Rand, 0.0, 0.5, -2.25, g.NormFloat64()*1e9, 1e300)}}
	case 5:
		return &gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: pick[float32](g.Rand, 0.0, 0.5, -2.25, float32(g.NormFloat64()))}}
	case 6:
		return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: int64(g.Intn(100000)) - 50000, Precision: uint32(g.Intn(5))}}}
	case 7:
		b := make([]byte, g.Intn(5))
		g.Read(b)
		return &gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: b}}
	case 8:
		if depth > 0 {
			break
		}
		l := &gpb.ScalarArray{}
		for range g.Intn(4) {
			l.Element = append(l.Element, g.scalar(depth+1))
		}
		return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: l}}
	}
	return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: pick(g.Rand, "", "up", "down", "a, b", "{x}", "\"quoted\"", "ünï/code", "tab\tbed", fmt.Sprint(g.Intn(1000)))}}
}

func (g *gen) value() val {
	if g.large > 0 && g.Intn(10) == 0 {
		g.large--
		g.stats("large_values", 1)
		return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: strings.Repeat("large", 900_000+g.Intn(1000))}}}
	}
	if g.anyVals {
		switch g.Intn(6) {
		case 0:
			return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_AsciiVal{AsciiVal: fmt.Sprint("ascii ", g.Intn(5))}}}
		case 1:
			return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_ProtoBytes{ProtoBytes: []byte{1, byte(g.Intn(5))}}}}
		case 2:
			return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "x/y", Value: []byte{byte(g.Intn(5))}}}}}
		}
	}
	switch g.Intn(16) {
	case 0:
		return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte(fmt.Sprintf(`{"a":[%d,"x"]}`, g.Intn(5)))}}}
	case 1:
		return val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(fmt.Sprintf(`"%d"`, g.Intn(5)))}}}
	case 2:
		if g.Intn(2) == 0 {
			return val{old: &gpb.Value{Value: []byte(fmt.Sprintf(`"json %d"`, g.Intn(5))), Type: pick(g.Rand, gpb.Encoding_JSON, gpb.Encoding_JSON_IETF)}}
		}
		return val{old: &gpb.Value{Value: []byte{byte(g.Intn(5)), 7}, Type: gpb.Encoding_BYTES}}
	}
	return val{tv: g.scalar(0)}
}

// path encodes elements.
func (g *gen) path(segs []seg) *gpb.Path {
	p := &gpb.Path{}
	if g.Intn(5) == 0 {
		p.Element = flat(segs)
		return p
	}
	for _, s := range segs {
		p.Elem = append(p.Elem, s.elem())
	}
	return p
}

func (g *gen) prefixTarget() string { return pick(g.Rand, "", "", g.name, "wrong") }

// tick advances the time of the device.
func (g *gen) tick() int64 {
	g.m.ts += 1 + int64(g.Intn(1000))
	return g.m.ts
}

// place fills in the prefix and the paths for leaves of the given origins and
// segments; common is the number of segments they share.
func (g *gen) place(n *gpb.Notification, ls []leaf, common int, add func(i int, p *gpb.Path)) {
	same := true
	for _, l := range ls {
		same = same && l.origin == ls[0].origin
	}
	k := 0
	if same && common > 0 {
		k = g.Intn(common + 1)
	}
	n.Prefix = nil
	if k > 0 {
		n.Prefix = g.path(ls[0].segs[:k])
	} else if g.Intn(2) == 0 {
		n.Prefix = &gpb.Path{}
	}
	// Where the origin goes.
	inPrefix := k > 0 || g.Intn(2) == 0
	if same {
		o := ls[0].origin
		omit := o == defaultOrigin && g.Intn(2) == 0
		for i, l := range ls {
			p := g.path(l.segs[k:])
			if !omit && !inPrefix {
				p.Origin = o
			}
			add(i, p)
		}
		if !omit && inPrefix {
			if n.Prefix == nil {
				n.Prefix = &gpb.Path{}
			}
			n.Prefix.Origin = o
		}
	} else {
		for i, l := range ls {
			p := g.path(l.segs)
			if l.origin != defaultOrigin || g.Intn(2) == 0 {
				p.Origin = l.origin
			}
			add(i, p)
		}
	}
	if t := g.prefixTarget(); t != "" {
		if n.Prefix == nil {
			n.Prefix = &gpb.Path{}
		}
		n.Prefix.Target = t
	}
}

// common is the number of leading segments all have.
func common(ls []leaf) int {
	n := len(ls[0].segs)
	for _, l := range ls[1:] {
		k := 0
		for k < n && k < len(l.segs) && join(l.segs[k].index()) == join(ls[0].segs[k].index()) && len(l.segs[k].keys) == len(ls[0].segs[k].keys) {
			k++
		}
		n = k
	}
	return n
}

func update(p *gpb.Path, v val) *gpb.Update { return &gpb.Update{Path: p, Val: v.tv, Value: v.old} }

func (g *gen) count(what string) {
	if g.stats != nil {
		g.stats(what, 1)
	}
}

// atomic replaces the group of a container.
func (g *gen) atomic(l leaf) *gpb.Notification {
	c := join(l.index())
	n := &gpb.Notification{Timestamp: g.tick(), Atomic: true}
	n.Prefix = g.path(l.segs)
	if l.origin != defaultOrigin || g.Intn(2) == 0 {
		n.Prefix.Origin = l.origin
	}
	n.Prefix.Target = g.prefixTarget()
	now := map[string]val{}
	for i, s := range l.group {
		if g.Intn(3) == 0 && !(i == len(l.group)-1 && len(now) == 0) {
			continue
		}
		v := g.value()
		v.container = c
		n.Update = append(n.Update, update(g.path(s.segs), v))
		now[c+sep+join(flat(s.segs))] = v
	}
	for k, v := range g.m.leaves {
		if v.container == c {
			if _, ok := now[k]; !ok {
				g.m.gone[k] = v
				delete(g.m.leaves, k)
				g.m.shrunk[k] = v
				g.count("atomic_shrunk")
			}
		}
	}
	for k, v := range now {
		g.m.set(k, v)
	}
	g.count("atomic_notifications")
	return n
}

// deletePattern is a path to delete, or false.
func (g *gen) deletePattern() (leaf, bool) {
	l := pick(g.Rand, g.pool...)
	d := leaf{origin: l.origin, segs: append([]seg(nil), l.segs...)}
	switch g.Intn(4) {
	case 0, 1: // the leaf itself
	case 2:
		d.segs = d.segs[:1+g.Intn(len(d.segs))]
	case 3:
		d.segs = d.segs[:1+g.Intn(len(d.segs))]
		i := g.Intn(len(d.segs))
		s := seg{name: d.segs[i].name, keys: append([][2]string(nil), d.segs[i].keys...)}
		if len(s.keys) > 0 {
			s.keys[g.Intn(len(s.keys))][1] = "*"
		} else {
			s.name = "*"
		}
		d.segs[i] = s
	}
	if g.Intn(60) == 0 {
		d.segs = nil
	}
	pat := d.index()
	for _, o := range g.pool {
		at := o.index()
		if o.group != nil && compat(pat, at) && len(pat) > len(at) {
			return d, false // a part of an atomic group
		}
		if len(pat) > len(at) && compat(pat, at) {
			return d, false // whether a/* means a is left open
		}
	}
	return d, true
}

// next makes the next notification.
func (g *gen) next() *gpb.Notification {
	g.n++
	l := pick(g.Rand, g.pool...)
	switch g.Intn(10) {
	case 0, 1, 2: // delete
		for range 10 {
			d, ok := g.deletePattern()
			if !ok {
				continue
			}
			n := &gpb.Notification{Timestamp: g.tick()}
			ds := []leaf{d}
			if g.Intn(3) == 0 {
				if e, ok := g.deletePattern(); ok {
					ds = append(ds, e)
				}
			}
			g.place(n, ds, min(common(ds), 1), func(_ int, p *gpb.Path) { n.Delete = append(n.Delete, p) })
			k := 0
			for _, d := range ds {
				k += g.m.remove(d.index(), nil)
			}
			g.count("delete_notifications")
			if g.stats != nil {
				g.stats("leaves_deleted", k)
			}
			return n
		}
	case 3, 4, 5: // several at once
		var ls []leaf
		seen := map[string]bool{}
		for range 2 + g.Intn(5) {
			o := pick(g.Rand, g.pool...)
			if k := join(o.index()); o.group == nil && !seen[k] {
				seen[k] = true
				ls = append(ls, o)
			}
		}
		if len(ls) == 0 {
			break
		}
		var d leaf
		withDelete := false
		if g.Intn(3) == 0 {
			d, withDelete = g.deletePattern()
		}
		n := &gpb.Notification{Timestamp: g.tick()}
		all := ls
		if withDelete {
			all = append(append([]leaf(nil), ls...), d)
		}
		vs := make([]val, len(ls))
		for i := range vs {
			vs[i] = g.value()
		}
		c := common(all)
		if withDelete {
			c = min(c, len(d.segs))
		}
		g.place(n, all, c, func(i int, p *gpb.Path) {
			if i < len(ls) {
				n.Update = append(n.Update, update(p, vs[i]))
			} else {
				n.Delete = append(n.Delete, p)
			}
		})
		for i, l := range ls {
			g.m.set(join(l.index()), vs[i])
		}
		if withDelete {
			g.m.remove(d.index(), seen)
		}
		g.count("multi_notifications")
		return n
	}
	if l.group != nil {
		return g.atomic(l)
	}
	n := &gpb.Notification{Timestamp: g.tick()}
	v := g.value()
	if old, ok := g.m.leaves[join(l.index())]; ok && g.Intn(4) == 0 {
		v = old // the same again
		g.count("unchanged_values")
	}
	ls := []leaf{l}
	g.place(n, ls, len(l.segs), func(_ int, p *gpb.Path) { n.Update = append(n.Update, update(p, v)) })
	g.m.set(join(l.index()), v)
	g.count("single_updates")
	return n
}

// sentinel marks the end of what came before, in every origin.
func (g *gen) sentinel(round int) *gpb.Notification {
	n := &gpb.Notification{Timestamp: g.tick()}
	for _, o := range g.origins {
		v := val{tv: &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: sentinelValue(g.name, round, o)}}, sentinel: true}
		p := &gpb.Path{Origin: o, Elem: []*gpb.PathElem{{Name: "sentinel"}, {Name: fmt.Sprint("r", round)}}}
		n.Update = append(n.Update, update(p, v))
		g.m.set(join([]string{o, "sentinel", fmt.Sprint("r", round)}), v)
	}
	return n
}

func sentinelValue(dev string, round int, origin string) string {
	return fmt.Sprintf("SENTINEL:%s:%d:%s:", dev, round, origin)
}

// sub is a subscription.
type sub struct {
	target string // a device, or *
	paths  []leaf // with wildcards; origin "*" for all
}

func (s sub) String() string {
	var r []string
	for _, p := range s.paths {
		r = append(r, strings.Join(p.index(), "/"))
	}
	return s.target + ": " + strings.Join(r, " , ")
}

// genSub makes a subscription over the pools; the sentinel is in it.
func genSub(r *rand.Rand, gens []*gen) sub {
	g := pick(r, gens...)
	s := sub{target: g.name}
	if r.Intn(4) == 0 {
		s.target = "*"
	}
	if r.Intn(3) == 0 {
		s.paths = []leaf{{origin: "*"}}
		return s
	}
	origin := pick(r, g.origins...)
	if s.target == "*" {
		origin = defaultOrigin
	}
	if r.Intn(4) == 0 {
		s.paths = []leaf{{origin: origin}}
		return s
	}
	for range 1 + r.Intn(3) {
		l := pick(r, g.pool...)
		p := leaf{origin: l.origin, segs: append([]seg(nil), l.segs[:1+r.Intn(len(l.segs))]...)}
		if r.Intn(3) == 0 {
			i := r.Intn(len(p.segs))
			q := seg{name: p.segs[i].name, keys: append([][2]string(nil), p.segs[i].keys...)}
			if len(q.keys) > 0 && r.Intn(4) > 0 {
				q.keys[r.Intn(len(q.keys))][1] = "*"
			} else {
				q = seg{name: "*"}
			}
			p.segs[i] = q
		}
		s.paths = append(s.paths, p)
	}
	s.paths = append(s.paths, leaf{origin: origin, segs: []seg{{name: "sentinel"}}})
	return s
}

// narrow drops the sentinel, and perhaps all paths but those that begin the same.
func (s sub) narrow(r *rand.Rand) sub {
	if len(s.paths) < 2 || r.Intn(2) == 0 {
		return s
	}
	s.paths = s.paths[:len(s.paths)-1]
	if r.Intn(2) == 0 {
		var ps []leaf
		for _, p := range s.paths {
			if p.origin == s.paths[0].origin && join(p.segs[0].index()) == join(s.paths[0].segs[0].index()) {
				ps = append(ps, p)
			}
		}
		s.paths = ps
	}
	return s
}

// sentinels lists the sentinel values the subscription must show.
func (s sub) sentinels(gens []*gen, round int) []string {
	var r []string
	last := s.paths[len(s.paths)-1]
	for _, g := range gens {
		if s.target != "*" && s.target != g.name {
			continue
		}
		for _, o := range g.origins {
			if last.origin == "*" || last.origin == o {
				r = append(r, sentinelValue(g.name, round, o))
			}
		}
	}
	return r
}

// want is what a subscriber should see: leaves that must be there, and those
// that may.
type want struct {
	must, may, gone map[string]val
	// shrunk has the values that leaves dropped from an atomic group had.
	shrunk map[string][]val
}

func (s sub) want(gens []*gen) want {
	w := want{map[string]val{}, map[string]val{}, map[string]val{}, map[string][]val{}}
	for _, g := range gens {
		if s.target != "*" && s.target != g.name {
			continue
		}
		for k, v := range g.m.leaves {
			at := split(k)
			if v.container != "" {
				at = split(v.container)
			}
			for _, p := range s.paths {
				pat := p.index()
				full := g.name + sep + k
				if covers(pat, at) && !v.sentinel {
					w.must[full] = v
				}
				if compat(pat, at) {
					w.may[full] = v
				}
			}
		}
		for k := range g.m.shrunk {
			w.shrunk[g.name+sep+k] = g.m.had[k]
		}
		for k, v := range g.m.gone {
			if _, ok := g.m.leaves[k]; !ok {
				w.gone[g.name+sep+k] = v
			}
		}
	}
	return w
}

// protoReq renders the subscription as a request, in one of several ways.
func (s sub) protoReq(r *rand.Rand, mode gpb.SubscriptionList_Mode) *gpb.SubscribeRequest {
	l := &gpb.SubscriptionList{Mode: mode, Prefix: &gpb.Path{Target: s.target}}
	same := true
	for _, p := range s.paths {
		same = same && p.origin == s.paths[0].origin
	}
	how := r.Intn(3)
	if !same && how == 0 {
		how = 1
	}
	if how == 0 && s.paths[0].origin != "*" {
		l.Prefix.Origin = s.paths[0].origin
	}
	enc := func(segs []seg) *gpb.Path {
		p := &gpb.Path{}
		if r.Intn(4) == 0 {
			p.Element = flat(segs)
			return p
		}
		for _, s := range segs {
			p.Elem = append(p.Elem, s.elem())
		}
		return p
	}
	skip := 0
	first := s.paths[0].origin
	if same && first != "*" && r.Intn(2) == 0 {
		// What the paths have in common can be in the prefix.
		for max := len(s.paths[0].segs); skip < max && r.Intn(3) > 0; skip++ {
			for _, p := range s.paths {
				if len(p.segs) <= skip || join(p.segs[skip].index()) != join(s.paths[0].segs[skip].index()) {
					max = skip
				}
			}
			if max == skip {
				break
			}
		}
		at := s.paths[0].segs[:skip]
		if how == 2 {
			at = append([]seg{{name: first}}, at...)
			how = 3
		} else {
			how, l.Prefix.Origin = 0, first
		}
		c := enc(at)
		l.Prefix.Elem, l.Prefix.Element = c.Elem, c.Element
	}
	for _, p := range s.paths {
		var x *gpb.Path
		p.segs = p.segs[skip:]
		switch {
		case p.origin == "*" && len(p.segs) == 0:
			x = &gpb.Path{}
			if r.Intn(2) == 0 {
				x = enc([]seg{{name: "*"}})
			}
		case (how == 0 || how == 3) && p.origin != "*":
			x = enc(p.segs)
		case how == 1 && p.origin != "*":
			x = enc(p.segs)
			x.Origin = p.origin
		default:
			x = enc(append([]seg{{name: p.origin}}, p.segs...))
		}
		l.Subscription = append(l.Subscription, &gpb.Subscription{Path: x})
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
}

// flagQuery renders the paths for -query, or false where it cannot express them.
func (s sub) flagQuery(delim string) (string, bool) {
	var qs []string
	for _, p := range s.paths {
		es := []string{p.origin}
		for _, x := range p.segs {
			e := x.name
			for _, k := range x.keys {
				if strings.ContainsAny(k[1], "[]\\,\"= ") {
					return "", false
				}
				e += "[" + k[0] + "=" + k[1] + "]"
			}
			if strings.Contains(x.name, delim) {
				return "", false
			}
			es = append(es, e)
		}
		qs = append(qs, strings.Join(es, delim))
	}
	return strings.Join(qs, ","), true
}

// queries renders the paths for client.Query.
func (s sub) queries(r *rand.Rand) ([][]string, bool) {
	var qs [][]string
	for _, p := range s.paths {
		q := []string{p.origin}
		for _, x := range p.segs {
			// Key values as elements of their own are equivalent.
			for _, e := range x.index() {
				if strings.ContainsAny(e, "[]\\\"= ") || e == "" {
					return nil, false
				}
				q = append(q, e)
			}
		}
		qs = append(qs, q)
	}
	return qs, true
}

func cloneVal(v val) val {
	if v.tv != nil {
		v.tv = proto.Clone(v.tv).(*gpb.TypedValue)
	}
	return v
}
