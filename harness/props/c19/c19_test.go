// Package c19 checks property C19: path indexing and value conversion.
package c19

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/client"
	gnmi "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/path"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/value"

	"verifharness/fakestream"
	"verifharness/hist"
	"verifharness/vk"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestCheck(t *testing.T) {
	vk.Main(t, "C19", func(t *testing.T, r *vk.Run) {
		n := r.N(60000, 3000000)
		for i := 0; i < n && !r.TooMany(); i++ {
			if !r.Mine(i) {
				continue
			}
			if i%256 == r.Shard {
				r.Journal("case %d", i)
			}
			rnd := r.Rand(i)
			r.Guard("paths", fmt.Sprintf("case %d", i), func() { paths(r, rnd) })
			r.Guard("scalars", fmt.Sprintf("case %d", i), func() { scalars(r, rnd) })
			r.Guard("values", fmt.Sprintf("case %d", i), func() { values(r, rnd) })
			r.Guard("queries", fmt.Sprintf("case %d", i), func() { queries(r, rnd, i%7 == 0) })
			r.Eval(4)
		}
		if r.Shard == 0 {
			r.Guard("oneofs", "all pairs of sample values", func() { allPairs(r) })
		}
	})
}

var words = []string{"", "a", "b", "c", "aa", "ab", "b/c", "/", "a/", "*", "...", "x y", "名前", "é", "e\u0301", "\x00", "[k=v]", "a[b", "]", "=", "\\", "\\/", "10", "9", "A", "Z", "_", "~", "\U0001F600", "meta", "target", "origin"}

func word(rnd *rand.Rand) string {
	if rnd.Intn(8) == 0 {
		b := make([]rune, 1+rnd.Intn(6))
		for i := range b {
			b[i] = rune(32 + rnd.Intn(500))
		}
		return string(b)
	}
	return words[rnd.Intn(len(words))]
}

func genPath(rnd *rand.Rand) *pb.Path {
	if rnd.Intn(15) == 0 {
		return nil
	}
	p := &pb.Path{}
	if rnd.Intn(3) == 0 {
		p.Target = word(rnd)
	}
	if rnd.Intn(3) == 0 {
		p.Origin = word(rnd)
	}
	form := rnd.Intn(6)
	if form < 2 {
		n := rnd.Intn(6)
		p.Element = make([]string, 0, n+rnd.Intn(4)) // spare capacity
		for k := 0; k < n; k++ {
			p.Element = append(p.Element, word(rnd))
		}
	}
	if form > 0 {
		n := rnd.Intn(6)
		if rnd.Intn(30) == 0 {
			n = 15 + rnd.Intn(30)
		}
		for k := 0; k < n; k++ {
			e := &pb.PathElem{Name: word(rnd)}
			keys := 0
			switch rnd.Intn(4) {
			case 0:
				keys = 1
			case 1:
				keys = rnd.Intn(9)
			}
			if keys > 0 || rnd.Intn(8) == 0 {
				e.Key = map[string]string{}
			}
			for ; keys > 0; keys-- {
				e.Key[word(rnd)] = word(rnd)
			}
			if rnd.Intn(60) == 0 {
				e = nil
			}
			p.Elem = append(p.Elem, e)
		}
	}
	return p
}

// rebuild makes an equal path with freshly filled maps.
func rebuild(rnd *rand.Rand, p *pb.Path) *pb.Path {
	if p == nil {
		return nil
	}
	q := &pb.Path{Target: p.Target, Origin: p.Origin, Element: append([]string(nil), p.Element...)}
	for _, e := range p.Elem {
		if e == nil {
			q.Elem = append(q.Elem, &pb.PathElem{})
			continue
		}
		f := &pb.PathElem{Name: e.Name, Key: map[string]string{}}
		ks := vk.SortedKeys(e.Key)
		rnd.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for i := 0; i < rnd.Intn(3); i++ {
			f.Key[fmt.Sprint("gone", i)] = "x"
		}
		for _, k := range ks {
			f.Key[k] = e.Key[k]
		}
		for k := range f.Key {
			if _, ok := e.Key[k]; !ok {
				delete(f.Key, k)
			}
		}
		q.Elem = append(q.Elem, f)
	}
	return q
}

func wantStrings(p *pb.Path, prefix bool) []string {
	var r []string
	if prefix {
		if p.GetTarget() != "" {
			r = append(r, p.GetTarget())
		}
		if p.GetOrigin() != "" {
			r = append(r, p.GetOrigin())
		}
	}
	return append(r, hist.Elems(p)...)
}

func same(a, b []string) bool {
	return len(a) == len(b) && hist.IsPrefix(a, b)
}

func clone(p *pb.Path) *pb.Path {
	if p == nil {
		return nil
	}
	q := proto.Clone(p).(*pb.Path)
	for i, e := range p.Elem {
		if e == nil {
			q.Elem[i] = nil
		}
	}
	return q
}

// unchanged compares all of a path, beyond the length of its slices too.
func spare(p *pb.Path) []string {
	if p == nil {
		return nil
	}
	return append([]string(nil), p.Element[:cap(p.Element)]...)
}

func paths(r *vk.Run, rnd *rand.Rand) {
	p, q := genPath(rnd), genPath(rnd)
	if rnd.Intn(3) == 0 && p != nil && q != nil {
		q.Origin, q.Target = "", ""
	}
	if rnd.Intn(6) == 0 && p != nil {
		p.Elem, p.Element = nil, nil
	}
	for _, x := range []*pb.Path{p, q} {
		for _, prefix := range []bool{false, true} {
			want := wantStrings(x, prefix)
			for k := 0; k < 4; k++ {
				y := x
				if k > 0 {
					y = rebuild(rnd, x)
				}
				got := path.ToStrings(y, prefix)
				if !same(got, want) {
					r.Violation("index", "ToStrings(%v, %v) = %q, expected %q", y, prefix, got, want)
				}
			}
			// What callers append to the result must not reach the path.
			if x != nil {
				before, keep := spare(x), clone(x)
				g1 := path.ToStrings(x, prefix)
				_ = append(g1, "appended", "by", "caller")
				if !same(before, spare(x)) || !proto.Equal(x, keep) || !same(path.ToStrings(x, prefix), want) {
					r.Violation("alias", "appending to the result of ToStrings(%v) changes the path", keep)
				}
				g2 := path.ToStrings(x, prefix)
				_ = append(path.ToStrings(x, prefix), "other")
				_ = append(g2, "x")
				if !same(g1, want) || !same(g2, want) {
					r.Violation("alias", "results of ToStrings(%v) share memory", keep)
				}
			}
			r.Count("paths_indexed", 1)
		}
	}
	// Combination.
	var before [2][]string
	before[0], before[1] = spare(p), spare(q)
	for k := 0; k < 3; k++ {
		a, b := p, q
		if k > 0 {
			a, b = rebuild(rnd, p), rebuild(rnd, q)
		}
		got, err := path.CompletePath(a, b)
		pre, sub := hist.Elems(p), hist.Elems(q)
		po, qo := p.GetOrigin(), q.GetOrigin()
		var want []string
		switch {
		case po != "" && qo != "":
			if err == nil && po != qo {
				r.Violation("combine", "CompletePath(%v, %v) = %q despite conflicting origins", a, b, got)
			}
			r.Count("combinations_rejected", 1)
			if err != nil || po != qo {
				continue
			}
			want = append(append([]string{po}, pre...), sub...)
		case qo != "" && len(pre) > 0:
			// mixed-schema.md does not allow a path origin below prefix elements.
			if err == nil {
				r.Violation("combine", "CompletePath(%v, %v) = %q although the path below prefix elements has an origin", a, b, got)
			}
			r.Count("combinations_rejected", 1)
			continue
		case po != "":
			want = append(append([]string{po}, pre...), sub...)
		case qo != "":
			want = append([]string{qo}, sub...)
		default:
			want = append(append([]string{}, pre...), sub...)
		}
		if err != nil || !same(got, want) {
			r.Violation("combine", "CompletePath(%v, %v) = %q, %v; expected %q", a, b, got, err, want)
		}
		_ = append(got, "appended")
		r.Count("combinations", 1)
	}
	if !same(before[0], spare(p)) || !same(before[1], spare(q)) {
		r.Violation("alias", "CompletePath changes its arguments: %v %v", p, q)
	}
	r.Distinct("path", p.String(), q.String())
}

// Scalars.

type canon struct {
	kind string
	val  any
}

// canonical is what a scalar means: kind and value up to integer width and
// float precision.
func canonical(x any) any {
	switch v := x.(type) {
	case int, int8, int16, int32, int64:
		return canon{"int", reflect.ValueOf(v).Int()}
	case uint, uint8, uint16, uint32, uint64:
		return canon{"uint", reflect.ValueOf(v).Uint()}
	case float32:
		return canon{"float", math.Float64bits(float64(v))}
	case float64:
		return canon{"float", math.Float64bits(v)}
	case string:
		return canon{"string", v}
	case bool:
		return canon{"bool", v}
	case []byte:
		return canon{"bytes", string(v)}
	case []string:
		var r []any
		for _, s := range v {
			r = append(r, canonical(s))
		}
		return r
	case []any:
		var r []any
		for _, s := range v {
			r = append(r, canonical(s))
		}
		return r
	}
	return canon{"other", fmt.Sprintf("%T", x)}
}

func genScalar(rnd *rand.Rand, depth int) any {
	bits := rnd.Uint64() >> uint(rnd.Intn(64))
	if rnd.Intn(4) == 0 {
		bits = [...]uint64{0, 1, math.MaxUint64, math.MaxInt64, 1 << 63, 127, 128, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<53 + 1}[rnd.Intn(15)]
	}
	switch rnd.Intn(17 + depth) {
	case 0:
		return int(bits)
	case 1:
		return int8(bits)
	case 2:
		return int16(bits)
	case 3:
		return int32(bits)
	case 4:
		return int64(bits)
	case 5:
		return uint(bits)
	case 6:
		return uint8(bits)
	case 7:
		return uint16(bits)
	case 8:
		return uint32(bits)
	case 9:
		return uint64(bits)
	case 10:
		return math.Float32frombits(uint32(bits))
	case 11:
		f := math.Float64frombits(bits)
		if rnd.Intn(2) == 0 {
			f = [...]float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e10}[rnd.Intn(9)]
		}
		return f
	case 12:
		return word(rnd)
	case 13:
		return rnd.Intn(2) == 0
	case 14:
		b := make([]byte, rnd.Intn(8))
		rnd.Read(b)
		if rnd.Intn(5) == 0 {
			b = nil
		}
		return b
	case 15:
		var s []string
		for k := rnd.Intn(5); k > 0; k-- {
			s = append(s, word(rnd))
		}
		return s
	default:
		s := []any{}
		for k := rnd.Intn(5); k > 0; k-- {
			s = append(s, genScalar(rnd, max(depth-1, 0)))
		}
		return s
	}
}

func hasNaN(x any) bool {
	switch v := x.(type) {
	case float32:
		return v != v
	case float64:
		return v != v
	case []any:
		for _, e := range v {
			if hasNaN(e) {
				return true
			}
		}
	}
	return false
}

func scalars(r *vk.Run, rnd *rand.Rand) {
	x := genScalar(rnd, 2)
	tv, err := value.FromScalar(x)
	if err != nil || tv == nil {
		r.Violation("scalar", "FromScalar(%T %#v) = %v, %v", x, x, tv, err)
		return
	}
	// Through the wire, as to a client.
	b, err := proto.Marshal(tv)
	if err != nil {
		r.Violation("scalar", "FromScalar(%T %#v) can not be sent: %v", x, x, err)
		return
	}
	far := &pb.TypedValue{}
	if err := proto.Unmarshal(b, far); err != nil {
		panic(err)
	}
	for _, v := range []*pb.TypedValue{tv, far} {
		y, err := value.ToScalar(v)
		if err != nil {
			r.Violation("scalar", "ToScalar(FromScalar(%T %#v)) fails: %v", x, x, err)
			return
		}
		if !hasNaN(x) && !reflect.DeepEqual(canonical(x), canonical(y)) || hasNaN(x) != hasNaN(y) {
			r.Violation("scalar", "%T %#v comes back as %T %#v", x, x, y, y)
		}
	}
	r.Count("scalars_round_trip", 1)
	r.Distinct("scalar", fmt.Sprintf("%T%v", x, x))
	// What is no scalar is refused.
	bad := []any{nil, struct{}{}, map[string]int{}, &x, make(chan int), complex(1, 2), []int{1}, [2]string{}, uintptr(1), func() {}, error(nil), []any{nil}, []any{"a", struct{}{}}, "\xff\xfe", "a\xc3", []any{"\xff"}}
	k := rnd.Intn(len(bad))
	if got, err := value.FromScalar(bad[k]); err == nil {
		r.Violation("scalar", "FromScalar(%T %v) = %v, expected an error", bad[k], bad[k], got)
	}
	r.Count("non_scalars_refused", 1)
}

// Values.

func genValue(rnd *rand.Rand, depth int) *pb.TypedValue {
	bits := rnd.Uint64() >> uint(rnd.Intn(64))
	small := rnd.Intn(3)
	if rnd.Intn(2) == 0 {
		bits = uint64(small)
	}
	s := []string{"", "a", "b", "1", "0", "\xff", "true", "null", "[]", "{}", `{"a":1}`, "{bad"}[rnd.Intn(12)]
	switch rnd.Intn(18 + 2*depth) {
	case 0:
		return nil
	case 1:
		return &pb.TypedValue{}
	case 2:
		if !utf8.ValidString(s) {
			s = "x"
		}
		return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}}
	case 3:
		return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(bits)}}
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: bits}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: bits&1 == 1}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte(s)}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: float32(math.Float64frombits(bits))}}
	case 8:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: math.Float64frombits(bits)}}
	case 9:
		f := []float64{0, 1, 0.5, math.NaN(), math.Inf(1), float64(small)}[rnd.Intn(6)]
		if rnd.Intn(2) == 0 {
			return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: float32(f)}}
		}
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: f}}
	case 10, 11:
		d := &pb.Decimal64{Digits: int64(bits), Precision: uint32(rnd.Intn(4))}
		switch rnd.Intn(8) {
		case 0:
			d = nil
		case 1:
			d.Precision = rnd.Uint32()
		case 2:
			d.Precision = uint32(rnd.Intn(20))
		}
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: d}}
	case 12:
		return &pb.TypedValue{Value: &pb.TypedValue_AsciiVal{AsciiVal: "ascii"}}
	case 13:
		return &pb.TypedValue{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte(s)}}
	case 14:
		a, _ := anypb.New(&pb.Path{Target: "t"})
		if rnd.Intn(2) == 0 {
			a = nil
		}
		return &pb.TypedValue{Value: &pb.TypedValue_AnyVal{AnyVal: a}}
	case 15:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(s)}}
	case 16:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(s)}}
	case 17:
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{}}
	default:
		sa := &pb.ScalarArray{}
		for k := rnd.Intn(4); k > 0; k-- {
			sa.Element = append(sa.Element, genValue(rnd, max(depth-1, 0)))
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: sa}}
	}
}

// identity is the content of a value; values with different identities differ.
func identity(tv *pb.TypedValue) string {
	switch v := tv.GetValue().(type) {
	case nil:
		return "none"
	case *pb.TypedValue_StringVal:
		return "s" + v.StringVal
	case *pb.TypedValue_IntVal:
		return fmt.Sprint("i", v.IntVal)
	case *pb.TypedValue_UintVal:
		return fmt.Sprint("u", v.UintVal)
	case *pb.TypedValue_BoolVal:
		return fmt.Sprint("b", v.BoolVal)
	case *pb.TypedValue_BytesVal:
		return "y" + string(v.BytesVal)
	case *pb.TypedValue_FloatVal:
		if v.FloatVal == 0 {
			return "f0"
		}
		return fmt.Sprint("f", math.Float32bits(v.FloatVal))
	case *pb.TypedValue_DoubleVal:
		if v.DoubleVal == 0 {
			return "d0"
		}
		return fmt.Sprint("d", math.Float64bits(v.DoubleVal))
	case *pb.TypedValue_DecimalVal:
		return fmt.Sprint("m", v.DecimalVal.GetDigits(), " ", v.DecimalVal.GetPrecision())
	case *pb.TypedValue_LeaflistVal:
		var sb strings.Builder
		sb.WriteString("l")
		for _, e := range v.LeaflistVal.GetElement() {
			fmt.Fprintf(&sb, "%q,", identity(e))
		}
		return sb.String()
	case *pb.TypedValue_AsciiVal:
		return "a" + v.AsciiVal
	case *pb.TypedValue_ProtoBytes:
		return "p" + string(v.ProtoBytes)
	case *pb.TypedValue_JsonVal:
		return "j" + string(v.JsonVal)
	case *pb.TypedValue_JsonIetfVal:
		return "k" + string(v.JsonIetfVal)
	case *pb.TypedValue_AnyVal:
		return "A" + v.AnyVal.GetTypeUrl() + "|" + string(v.AnyVal.GetValue())
	}
	return "?"
}

// sameNumber tells decimals of the same number apart from really different
// ones: 1.0 and 1.00 may be reported equal.
func decimals(a, b *pb.TypedValue) bool {
	x, y := a.GetDecimalVal(), b.GetDecimalVal()
	if x == nil || y == nil || x.Precision > 30 || y.Precision > 30 {
		return false
	}
	return float64(x.Digits)/math.Pow(10, float64(x.Precision)) == float64(y.Digits)/math.Pow(10, float64(y.Precision))
}

func checkEqual(r *vk.Run, a, b *pb.TypedValue) {
	e1, e2, e3 := value.Equal(a, b), value.Equal(b, a), value.Equal(a, b)
	if e1 != e2 || e1 != e3 {
		r.Violation("equal", "Equal(%v, %v) = %v, %v, the other way %v", a, b, e1, e3, e2)
	}
	if e1 && identity(a) != identity(b) && !decimals(a, b) {
		r.Violation("equal", "Equal reports different values as equal:\n%v\n%v", a, b)
	}
	r.Count("value_pairs", 1)
	if e1 {
		r.Count("value_pairs_equal", 1)
	}
}

func mutate(rnd *rand.Rand, v *pb.TypedValue) *pb.TypedValue {
	if v == nil {
		return nil
	}
	c := proto.Clone(v).(*pb.TypedValue)
	if ll := c.GetLeaflistVal(); ll != nil {
		switch k := rnd.Intn(5); {
		case k == 0 && len(ll.Element) > 0:
			ll.Element = ll.Element[:len(ll.Element)-1]
		case k == 1:
			ll.Element = append(ll.Element, genValue(rnd, 0))
		case k < 4 && len(ll.Element) > 0:
			i := rnd.Intn(len(ll.Element))
			ll.Element[i] = mutate(rnd, ll.Element[i])
			if k == 3 {
				ll.Element[i] = genValue(rnd, 0)
			}
		case len(ll.Element) > 1:
			ll.Element[0], ll.Element[1] = ll.Element[1], ll.Element[0]
		}
		return c
	}
	switch x := c.GetValue().(type) {
	case *pb.TypedValue_IntVal:
		x.IntVal ^= 1 << uint(rnd.Intn(64))
	case *pb.TypedValue_UintVal:
		x.UintVal ^= 1 << uint(rnd.Intn(64))
	case *pb.TypedValue_DoubleVal:
		x.DoubleVal = math.Float64frombits(math.Float64bits(x.DoubleVal) ^ 1<<uint(rnd.Intn(64)))
	case *pb.TypedValue_FloatVal:
		x.FloatVal = math.Float32frombits(math.Float32bits(x.FloatVal) ^ 1<<uint(rnd.Intn(32)))
	case *pb.TypedValue_DecimalVal:
		if x.DecimalVal == nil {
			x.DecimalVal = &pb.Decimal64{}
		}
		if rnd.Intn(2) == 0 {
			x.DecimalVal.Digits ^= 1 << uint(rnd.Intn(64))
		} else {
			x.DecimalVal.Precision ^= 1 << uint(rnd.Intn(32))
		}
	case *pb.TypedValue_StringVal:
		x.StringVal = []string{x.StringVal + "x", "", strings.ToUpper(x.StringVal), " " + x.StringVal}[rnd.Intn(4)]
	case *pb.TypedValue_BytesVal:
		x.BytesVal = append(x.BytesVal, 0)
	case *pb.TypedValue_BoolVal:
		x.BoolVal = !x.BoolVal
	}
	return c
}

func values(r *vk.Run, rnd *rand.Rand) {
	a := genValue(rnd, 2)
	b := genValue(rnd, 2)
	switch rnd.Intn(3) {
	case 0:
		b = mutate(rnd, a)
	case 1:
		if a != nil {
			b = proto.Clone(a).(*pb.TypedValue)
		}
	}
	ka, kb := identity(a), identity(b)
	checkEqual(r, a, b)
	x, err := value.ToScalar(a)
	if identity(a) != ka || identity(b) != kb {
		r.Violation("value-modified", "%v or %v was modified", a, b)
	}
	if err == nil && a.GetValue() == nil {
		r.Violation("to-scalar", "ToScalar of a missing value = %v", x)
	}
	if d := a.GetDecimalVal(); d != nil && d.Precision < 30 {
		want := float64(d.Digits) / math.Pow(10, float64(d.Precision))
		var got float64
		switch y := x.(type) {
		case float32:
			got = float64(y)
		case float64:
			got = y
		default:
			got = math.NaN()
		}
		if err != nil || !(math.Abs(got-want) <= 1e-6*math.Abs(want)+1e-37) {
			r.Violation("to-scalar", "ToScalar(%v) = %v, %v", a, x, err)
		}
		r.Count("decimals", 1)
	}
	r.Count("values_converted", 1)
	r.Distinct("value", ka, kb)
}

func allPairs(r *vk.Run) {
	rnd := rand.New(rand.NewSource(7))
	seen := map[string]*pb.TypedValue{}
	for k := 0; k < 3000; k++ {
		v := genValue(rnd, 2)
		seen[identity(v)+fmt.Sprint(v == nil)] = v
		if len(seen) >= 600 {
			break
		}
	}
	r.Journal("pairs of %d values", len(seen))
	ks := vk.SortedKeys(seen)
	for _, a := range ks {
		for _, b := range ks {
			checkEqual(r, seen[a], seen[b])
		}
	}
}

// Queries.

var plain = []string{"a", "b", "c", "interfaces", "Ethernet1/2/3", "/", "//", "a/", "/a", "a//b", "*", "x.y", "a:b", "a=b", "k-1", "名前", "é", "1", "0", "a,b", "(x)", "{x}", "@", "#", "a/b", "...", "a;b", "%2F", "a'b", "\"q\""}

func queries(r *vk.Run, rnd *rand.Rand, server bool) {
	q := client.Query{Addrs: []string{"x"}, Target: []string{"dev", "dev1/2", "*"}[rnd.Intn(3)], Type: []client.Type{client.Once, client.Poll, client.Stream}[rnd.Intn(3)], UpdatesOnly: rnd.Intn(4) == 0}
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		p := client.Path{}
		for e := rnd.Intn(6); e >= 0; e-- {
			w := plain[rnd.Intn(len(plain))]
			if rnd.Intn(4) == 0 {
				w += plain[rnd.Intn(len(plain))]
			}
			p = append(p, w)
		}
		q.Queries = append(q.Queries, p)
	}
	var keep []client.Path
	for _, p := range q.Queries {
		keep = append(keep, append(client.Path(nil), p...))
	}
	sr, err := gnmi.ToSubscribeRequest(q)
	if err != nil {
		r.Violation("query", "a request for the queries %q fails: %v", q.Queries, err)
		return
	}
	b, err := proto.Marshal(sr)
	if err != nil {
		r.Violation("query", "the request for the queries %q can not be sent: %v", q.Queries, err)
		return
	}
	far := &pb.SubscribeRequest{}
	if err := proto.Unmarshal(b, far); err != nil {
		panic(err)
	}
	sub := far.GetSubscribe()
	if len(sub.GetSubscription()) != len(q.Queries) {
		r.Violation("query", "%d queries lead to %d subscriptions", len(q.Queries), len(sub.GetSubscription()))
		return
	}
	if sub.GetPrefix().GetTarget() != q.Target {
		r.Violation("query", "a query of target %q reaches the server with prefix %v", q.Target, sub.GetPrefix())
	}
	for k, p := range q.Queries {
		got, err := path.CompletePath(sub.GetPrefix(), sub.Subscription[k].GetPath())
		if err != nil || !same(got, p) {
			r.Violation("query", "the query %q is indexed by the server as %q, %v", p, got, err)
		}
		if !same(p, keep[k]) {
			r.Violation("query", "the query %q is modified to %q", keep[k], p)
		}
		r.Count("queries_round_trip", 1)
	}
	if back, err := client.NewQuery(far); err != nil {
		r.Violation("query", "NewQuery(%v) fails: %v", far, err)
	} else {
		for k := range q.Queries {
			if !same(back.Queries[k], q.Queries[k]) || back.Target != q.Target || back.Type != q.Type || back.UpdatesOnly != q.UpdatesOnly {
				r.Violation("query", "NewQuery of the request for %+v yields %+v", q, back)
			}
		}
	}
	r.Distinct("query", fmt.Sprintf("%q", q.Queries), q.Target)
	if server {
		once(r, rnd, q)
	}
}

// once asks a real server for leaves at exactly the queried elements, among
// others that lie nearby.
func once(r *vk.Run, rnd *rand.Rand, q client.Query) {
	target := "dev"
	q.Target, q.Type, q.UpdatesOnly = target, client.Once, false
	q.Queries = q.Queries[:1]
	p := q.Queries[0]
	leaf := append([]string(nil), p...)
	for i := range leaf {
		if leaf[i] == "*" {
			leaf[i] = "w"
		}
		q.Queries[0][i] = leaf[i]
	}
	paths := [][]string{leaf}
	for k := 0; k < 6; k++ {
		d := append([]string(nil), leaf...)
		i := rnd.Intn(len(d))
		switch rnd.Intn(4) {
		case 0:
			d[i] += "/"
		case 1:
			d[i] = strings.Replace(d[i], "/", "", 1)
		case 2:
			if j := strings.Index(d[i], "/"); j > 0 && j < len(d[i])-1 {
				d = append(append(append([]string(nil), d[:i]...), d[i][:j], d[i][j+1:]), d[i+1:]...)
			}
		case 3:
			d[i] = plain[rnd.Intn(len(plain))]
		}
		if d[i] == "" || d[i] == "*" {
			d[i] = "other"
		}
		paths = append(paths, d)
	}
	c := cache.New([]string{target})
	stored := map[string]bool{}
	for k, p := range paths {
		if p[0] == "meta" {
			return
		}
		n := &pb.Notification{Timestamp: 1, Prefix: &pb.Path{Target: target}, Update: []*pb.Update{{Path: fakestream.Path(p...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(k)}}}}}
		if c.GnmiUpdate(n) == nil {
			stored[hist.Key(p)] = true
		}
	}
	srv, err := subscribe.NewServer(c)
	if err != nil {
		panic(err)
	}
	sr, err := gnmi.ToSubscribeRequest(q)
	if err != nil {
		r.Violation("query", "a request for the queries %q fails: %v", q.Queries, err)
		return
	}
	s := fakestream.New(context.Background(), "client")
	s.Request(sr)
	s.CloseSend()
	s.Serve(srv.Subscribe)
	got := map[string]bool{}
	for _, m := range s.Responses(0) {
		if u := m.GetUpdate(); u != nil {
			got[hist.Key(hist.LeafIndex(u))] = true
		}
	}
	for k := range stored {
		want := hist.IsPrefix(leaf, hist.Unkey(k))
		if got[k] != want {
			r.Violation("query-server", "the query %q: leaf %q delivered: %v, expected %v", p, hist.Unkey(k), got[k], want)
		}
	}
	r.Count("queries_answered_by_server", 1)
}
