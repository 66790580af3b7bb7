package hist

import (
	"math"
	"math/rand"
	"slices"
	"strings"

	"google.golang.org/protobuf/types/known/anypb"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Gen generates notifications over a small universe, so that paths, values
// and timestamps collide often.
type Gen struct {
	R *rand.Rand
	// Names are element names; Depth bounds the length of paths.
	Names []string
	Depth int
	// Origins to pick from; "" is one of them.
	Origins []string
	// Base and Span give the range of timestamps.
	Base, Span int64
	// Far makes some timestamps this far ahead.
	Far int64
	// Values is the number of distinct values, roughly.
	Values int
	// Globs allows wildcards in deletes.
	Globs bool
	// Keys, Deprecated and PathOrigin allow those encodings.
	Keys, Deprecated, PathOrigin bool
	// Atomic is the probability of an atomic notification in percent.
	Atomic int
	// Share is the probability in percent that a prefix object is reused.
	Share int
	// Cap makes slices with spare capacity.
	Cap bool
	// NoMulti restricts notifications to a single update or delete.
	NoMulti bool
	// AnyValues allows any and json values besides scalars.
	AnyValues bool

	// Fixed makes all leaves equally deep, so that no path is a prefix of another.
	Fixed bool

	prefixes []*pb.Path
	recent   []*pb.Notification
}

// Alphabet returns n>0 element names, of names or, at times, such that different
// paths read the same once their elements are joined.
func Alphabet(r *rand.Rand, n int, names ...string) []string {
	if r.Intn(4) == 0 {
		sep := []string{"/", "/", "/", "/", ",", ".", "", "|", ":", "\x00", " ", "][", "="}[r.Intn(13)]
		a, b := names[0], names[min(1, len(names)-1)]
		odd := []string{a, a + sep + b, b, b + sep + a, a + sep + a, sep + a, a + sep}
		if sep != "" {
			odd = append(odd, a+sep+b+sep+a)
		} else {
			odd = odd[:5]
		}
		if n = min(n, len(odd)); n > 2 {
			r.Shuffle(len(odd)-3, func(i, j int) { odd[i+3], odd[j+3] = odd[j+3], odd[i+3] })
		}
		return odd[:n]
	}
	return names[:min(n, len(names))]
}

// Confuse returns other elements that read the same as es once joined by some
// separator, or nil.
func Confuse(r *rand.Rand, es []string) []string {
	sep := []string{"/", "/", "/", ",", ".", "|", ":", "\x00", " "}[r.Intn(9)]
	var c []string
	for i, s := range strings.Split(strings.Join(es, sep), sep) {
		if i > 0 && r.Intn(2) == 0 {
			c[len(c)-1] += sep + s
		} else {
			c = append(c, s)
		}
	}
	for _, e := range c {
		if e == "" {
			return nil
		}
	}
	if slices.Equal(c, es) {
		return nil
	}
	return c
}

// NewGen returns a generator with random features.
func NewGen(r *rand.Rand) *Gen {
	names := []string{"a", "b", "c", "d", "interfaces", "state"}
	g := &Gen{
		R: r, Names: Alphabet(r, 2+r.Intn(len(names)-1), names...), Depth: 1 + r.Intn(4), Origins: []string{""},
		Base: 1_000_000_000, Span: int64(1 + r.Intn(8)), Values: 1 + r.Intn(4), Globs: r.Intn(4) > 0,
		Keys: r.Intn(3) == 0, Deprecated: r.Intn(3) == 0, PathOrigin: r.Intn(3) == 0,
		Fixed: r.Intn(2) == 0,
		Share: []int{0, 30, 90}[r.Intn(3)], Cap: r.Intn(2) == 0, AnyValues: r.Intn(2) == 0,
	}
	if r.Intn(15) == 0 {
		// Around the epoch, where timestamps change their sign.
		g.Base = int64(-r.Intn(5))
	}
	if r.Intn(3) > 0 {
		g.Atomic = 5 + r.Intn(30)
	}
	switch r.Intn(3) {
	case 0:
		g.Origins = []string{"", "oc"}
	case 1:
		g.Origins = []string{"", "", "oc", "a"}
	}
	return g
}

func (g *Gen) name() string { return g.Names[g.R.Intn(len(g.Names))] }

// elems makes n path elements.
func (g *Gen) elems(n int, glob bool) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = g.name()
		if glob && g.R.Intn(4) == 0 {
			r[i] = "*"
		}
	}
	return r
}

// encode makes a path of element names.
func (g *Gen) encode(es []string, deprecated bool) *pb.Path {
	p := &pb.Path{}
	if deprecated {
		if len(es) > 0 {
			p.Element = append(make([]string, 0, len(es)+3*g.spare()), es...)
		}
		return p
	}
	if len(es) > 0 {
		p.Elem = make([]*pb.PathElem, 0, len(es)+3*g.spare())
	}
	for i := 0; i < len(es); i++ {
		e := &pb.PathElem{Name: es[i]}
		// The elements that follow can be key values.
		if g.Keys && i > 0 && i+1 < len(es) && g.R.Intn(3) == 0 {
			e.Key = map[string]string{"k": es[i+1]}
			if i+2 < len(es) && g.R.Intn(2) == 0 {
				e.Key["l"] = es[i+2]
				i++
			}
			i++
		}
		p.Elem = append(p.Elem, e)
	}
	return p
}

func (g *Gen) spare() int {
	if g.Cap {
		return 1
	}
	return 0
}

// Value makes a value.
func (g *Gen) Value() *pb.TypedValue {
	n := int64(g.R.Intn(g.Values))
	k := 4
	if g.R.Intn(3) == 0 {
		k = 9
		if g.AnyValues {
			k = 14
		}
	}
	switch g.R.Intn(k) {
	case 0, 1, 2:
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: n}}
	case 3:
		return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: string(rune('a' + n))}}
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: uint64(n)}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: n%2 == 0}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: float64(n) + 0.5}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte{byte(n)}}}
	case 8:
		var es []*pb.TypedValue
		for i := int64(0); i < 1+n%3; i++ {
			es = append(es, &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: string(rune('a' + (n+i)%3))}})
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: es}}}
	case 9:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte{'"', byte('a' + n), '"'}}}
	case 10:
		return &pb.TypedValue{Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "t", Value: []byte{byte(n)}}}}
	case 11:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 10 * n, Precision: uint32(n % 3)}}}
	case 12:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: float32(n) + 0.25}}
	default:
		return &pb.TypedValue{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte{byte(n)}}}
	}
}

// TS makes a timestamp.
func (g *Gen) TS() int64 {
	t := g.Base + g.R.Int63n(g.Span)
	if g.Far > 0 && g.Base <= 0 {
		g.Base += 1_000_000_000
		t += 1_000_000_000
	}
	if g.Far > 0 {
		switch g.R.Intn(8) {
		case 0:
			t += g.Far
		case 1:
			t += g.R.Int63n(2*g.Far + 1)
		}
	}
	if g.R.Intn(200) == 0 {
		t = []int64{1, 2, math.MaxInt64 / 4, 0, -1, math.MinInt64 / 4}[g.R.Intn(6)]
		if g.Far > 0 {
			t = g.Base
		}
	}
	// Time goes on slowly.
	if g.R.Intn(6) == 0 {
		g.Base++
	}
	return t
}

// prefix makes a prefix for target with the elements es.
func (g *Gen) prefix(target string, es []string, deprecated bool) *pb.Path {
	p := g.encode(es, deprecated)
	p.Target = target
	p.Origin = g.Origins[g.R.Intn(len(g.Origins))]
	g.prefixes = append(g.prefixes, p)
	if len(g.prefixes) > 12 {
		g.prefixes = g.prefixes[1:]
	}
	return p
}

// Notification makes a notification for target.
func (g *Gen) Notification(target string) *pb.Notification {
	var n *pb.Notification
	if g.R.Intn(4) == 0 {
		n = g.again(target)
	}
	if n == nil {
		n = g.fresh(target)
	}
	if len(n.Update) > 0 {
		g.recent = append(g.recent, n)
		if len(g.recent) > 10 {
			g.recent = g.recent[1:]
		}
	}
	return n
}

// again makes a notification for the leaves of a recent one, using the same
// path objects.
func (g *Gen) again(target string) *pb.Notification {
	for _, i := range g.R.Perm(len(g.recent)) {
		o := g.recent[i]
		if o.GetPrefix().GetTarget() != target {
			continue
		}
		n := &pb.Notification{Timestamp: g.TS(), Prefix: o.Prefix, Atomic: o.Atomic}
		if g.R.Intn(4) == 0 {
			n.Timestamp = o.Timestamp
		}
		if !o.Atomic && g.R.Intn(4) == 0 {
			for _, u := range o.Update {
				n.Delete = append(n.Delete, u.Path)
			}
			return n
		}
		for _, u := range o.Update {
			v := u.Val
			if g.R.Intn(3) == 0 {
				v = g.Value()
			}
			n.Update = append(n.Update, &pb.Update{Path: u.Path, Val: v})
		}
		if o.Atomic && g.R.Intn(4) == 0 && len(n.Update) > 1 {
			n.Update = n.Update[1:]
		}
		if g.NoMulti && !n.Atomic {
			n.Update = n.Update[:1]
		}
		return n
	}
	return nil
}

// fresh makes a new notification for target.
func (g *Gen) fresh(target string) *pb.Notification {
	deprecated := g.Deprecated && g.R.Intn(3) == 0
	n := &pb.Notification{Timestamp: g.TS()}
	if g.R.Intn(100) < g.Share {
		for _, p := range g.prefixes {
			if p.Target == target && g.R.Intn(2) == 0 {
				n.Prefix = p
				break
			}
		}
	}
	atomic := g.R.Intn(100) < g.Atomic
	if n.Prefix == nil {
		l := 0
		if g.Depth > 1 {
			l = g.R.Intn(g.Depth)
		}
		if atomic && l == 0 {
			l = 1
		}
		if atomic && g.Fixed {
			l = g.Depth
		}
		n.Prefix = g.prefix(target, g.elems(l, false), deprecated)
	}
	pl := len(Index(n.Prefix, nil))
	path := func(glob bool) *pb.Path {
		max := g.Depth + 1 - pl
		l := 0
		if max > 0 {
			l = g.R.Intn(max + 1)
			if g.Fixed && (!glob || g.R.Intn(2) == 0) {
				l = max
			}
		}
		if l == 0 && (pl == 0 || g.R.Intn(3) > 0) {
			l = 1
		}
		p := g.encode(g.elems(l, glob && g.Globs), deprecated && (len(n.Prefix.Element) > 0 || len(n.Prefix.Elem) == 0) || g.Deprecated && g.R.Intn(8) == 0)
		if g.PathOrigin && g.R.Intn(3) == 0 {
			p.Origin = "oc"
		}
		return p
	}
	update := func() *pb.Update { return &pb.Update{Path: path(false), Val: g.Value()} }
	if atomic && pl > 0 && (!g.Fixed || pl == g.Depth) {
		n.Atomic = true
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			n.Update = append(n.Update, update())
		}
		return n
	}
	switch k := g.R.Intn(20); {
	case k == 0:
		// Empty.
	case k < 11 || g.NoMulti && k < 15:
		n.Update = []*pb.Update{update()}
	case k < 15 || g.NoMulti:
		n.Delete = []*pb.Path{path(true)}
	default:
		for i := g.R.Intn(4); i > 0; i-- {
			n.Update = append(n.Update, update())
		}
		for i := g.R.Intn(3); i > 0; i-- {
			n.Delete = append(n.Delete, path(true))
		}
		if len(n.Update) > 1 && g.R.Intn(3) == 0 {
			// The same leaf twice in one notification.
			n.Update[len(n.Update)-1].Path = n.Update[0].Path
		}
	}
	return n
}
