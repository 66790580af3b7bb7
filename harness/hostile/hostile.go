// Package hostile generates unusual messages: any protobuf-valid message of a
// type is a possible result, messages close to sensible ones are likely.
package hostile

import (
	"math"
	"math/rand"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Names are path elements that mean something to the code under test, or
// collide with each other.
var Names = []string{
	"a", "b", "c", "a", "b", "", "meta", "meta", "*", "...", "sync", "connected", "connectedAddress", "connectError", "latestTimestamp", "targetSize", "targetLeaves",
	"targetLeavesUpdated", "targetLeavesStale", "targetLeavesSuppressed", "targetLeavesEmpty", "latency", "window", "10s", "avg", "stats", "a/b", "[k=v]", "\\", "\\/", "é", "openconfig", "x\x00y", "k=v", "]", "%s%d%v",
	"timestamp", "value",
}

// Targets are the names of targets. Only t1 and t2 are known.
var Targets = []string{"t1", "t1", "t1", "t2", "t2", "*", "", "x", "t1/", "meta"}

var origins = []string{"", "", "", "oc", "openconfig", "a", "meta", "*"}

var docs = []string{"", "{}", "[]", "null", "1", `"s"`, `{"a":{"b":[1,"x",null,{"c":1e400}]}}`, `{"a":1,"a":2}`, `[[[[]]]]`, `{`, "\xff", `{"a":12345678901234567890}`, "1e999", `{"":{}}`, "true"}

// Gen generates messages.
type Gen struct {
	R *rand.Rand
	// Base is the timestamp the others are close to.
	Base int64
	// Wild is the probability in percent of a random instead of a sensible choice.
	Wild int
}

// New returns a generator.
func New(r *rand.Rand) *Gen {
	return &Gen{R: r, Base: 1000, Wild: []int{0, 3, 10, 30, 100}[r.Intn(5)]}
}

func (g *Gen) wild() bool { return g.R.Intn(100) < g.Wild }

func (g *Gen) oneOf(s []string) string { return s[g.R.Intn(len(s))] }

func (g *Gen) timestamp() int64 {
	switch g.R.Intn(12) {
	case 0:
		return []int64{0, -1, 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 62, -5000}[g.R.Intn(8)]
	case 1:
		return g.Base + 1_000_000_000*int64(g.R.Intn(100))
	}
	return g.Base + int64(g.R.Intn(6))
}

// Advance moves the timestamps on.
func (g *Gen) Advance() { g.Base += int64(g.R.Intn(3)) }

func (g *Gen) name() string {
	if g.wild() || g.R.Intn(3) == 0 {
		return g.oneOf(Names)
	}
	return g.oneOf(Names[:3])
}

// Path makes a path.
func (g *Gen) Path() *pb.Path {
	if g.R.Intn(20) == 0 {
		return nil
	}
	p := &pb.Path{}
	if g.R.Intn(6) == 0 {
		p.Origin = g.oneOf(origins)
	}
	if g.R.Intn(10) == 0 {
		p.Target = g.oneOf(Targets)
	}
	n := g.R.Intn(4)
	if g.R.Intn(100) == 0 {
		n = 50
	}
	meta := g.R.Intn(10) == 0
	kind := g.R.Intn(8)
	for i := 0; i < n; i++ {
		name := g.name()
		if meta {
			switch i {
			case 0:
				name = "meta"
			case 1:
				name = g.oneOf(Names[10:25])
			}
		}
		if kind == 0 || kind == 1 && g.R.Intn(2) == 0 {
			p.Element = append(p.Element, name)
			continue
		}
		e := &pb.PathElem{Name: name}
		if g.R.Intn(6) == 0 {
			e.Key = map[string]string{}
			for k := g.R.Intn(3); k >= 0; k-- {
				e.Key[g.oneOf([]string{"k", "", "l", "*", "name"})] = g.name()
			}
		}
		p.Elem = append(p.Elem, e)
	}
	return p
}

// Value makes a value, or none.
func (g *Gen) Value(depth int) *pb.TypedValue {
	v := &pb.TypedValue{}
	switch g.R.Intn(16) {
	case 0:
		return nil
	case 1:
		// No value in it.
	case 2, 3:
		v.Value = &pb.TypedValue_StringVal{StringVal: g.name()}
	case 4, 5:
		v.Value = &pb.TypedValue_IntVal{IntVal: []int64{0, 1, -1, math.MaxInt64, math.MinInt64}[g.R.Intn(5)]}
	case 6:
		v.Value = &pb.TypedValue_UintVal{UintVal: []uint64{0, 1, math.MaxUint64}[g.R.Intn(3)]}
	case 7, 8:
		v.Value = &pb.TypedValue_BoolVal{BoolVal: g.R.Intn(2) == 0}
	case 9:
		v.Value = &pb.TypedValue_DoubleVal{DoubleVal: g.double()}
	case 10:
		v.Value = &pb.TypedValue_FloatVal{FloatVal: float32(g.double())}
	case 11:
		v.Value = &pb.TypedValue_BytesVal{BytesVal: []byte(g.oneOf(docs))}
	case 12:
		d := &pb.ScalarArray{}
		if depth > 0 {
			for i := g.R.Intn(4); i > 0; i-- {
				e := g.Value(depth - 1)
				if e == nil {
					e = &pb.TypedValue{}
				}
				d.Element = append(d.Element, e)
			}
		}
		v.Value = &pb.TypedValue_LeaflistVal{LeaflistVal: d}
	case 13:
		v.Value = &pb.TypedValue_JsonVal{JsonVal: []byte(g.oneOf(docs))}
	case 14:
		v.Value = &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(g.oneOf(docs))}
	default:
		// Any of them.
		g.Fill(v.ProtoReflect(), 3)
	}
	return v
}

func (g *Gen) double() float64 {
	return []float64{0, 1.5, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1)}[g.R.Intn(9)]
}

// Update makes an update.
func (g *Gen) Update() *pb.Update {
	u := &pb.Update{Path: g.Path(), Val: g.Value(2)}
	if g.R.Intn(8) == 0 {
		u.Val = nil
		u.Value = &pb.Value{Value: []byte(g.oneOf(docs)), Type: pb.Encoding(g.R.Intn(7))}
		if g.R.Intn(4) == 0 {
			u.Value = nil
		}
	}
	if g.R.Intn(8) == 0 {
		u.Duplicates = g.R.Uint32() >> g.R.Intn(32)
	}
	return u
}

// Notification makes a notification.
func (g *Gen) Notification() *pb.Notification {
	n := &pb.Notification{Timestamp: g.timestamp()}
	if g.R.Intn(25) > 0 {
		n.Prefix = g.Path()
		if n.Prefix == nil {
			n.Prefix = &pb.Path{}
		}
		n.Prefix.Target = g.oneOf(Targets[:5])
		if g.wild() {
			n.Prefix.Target = g.oneOf(Targets)
		}
		if g.R.Intn(2) == 0 {
			n.Prefix.Elem, n.Prefix.Element = nil, nil
		}
	}
	ups, dels := 0, 0
	switch g.R.Intn(6) {
	case 0, 1, 2:
		ups = 1
	case 3:
		dels = 1
	default:
		ups, dels = g.R.Intn(4), g.R.Intn(3)
	}
	for i := 0; i < ups; i++ {
		n.Update = append(n.Update, g.Update())
	}
	for i := 0; i < dels; i++ {
		p := g.Path()
		if p == nil {
			p = &pb.Path{}
		}
		n.Delete = append(n.Delete, p)
	}
	n.Atomic = g.R.Intn(8) == 0
	g.spoil(n)
	return n
}

// Response makes a response of a target.
func (g *Gen) Response() *pb.SubscribeResponse {
	r := &pb.SubscribeResponse{}
	switch g.R.Intn(12) {
	case 0, 1:
		r.Response = &pb.SubscribeResponse_SyncResponse{SyncResponse: g.R.Intn(8) > 0}
	case 2:
		g.Fill(r.ProtoReflect(), 4)
	default:
		r.Response = &pb.SubscribeResponse_Update{Update: g.Notification()}
	}
	g.spoil(r)
	return r
}

// Request makes a request of a subscriber.
func (g *Gen) Request() *pb.SubscribeRequest {
	r := &pb.SubscribeRequest{}
	switch g.R.Intn(14) {
	case 0:
		r.Request = &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}
	case 1:
		g.Fill(r.ProtoReflect(), 4)
	default:
		l := &pb.SubscriptionList{Mode: pb.SubscriptionList_Mode(g.R.Intn(3)), UpdatesOnly: g.R.Intn(6) == 0, Encoding: pb.Encoding(g.R.Intn(6))}
		if g.R.Intn(15) > 0 {
			l.Prefix = g.Path()
			if l.Prefix == nil {
				l.Prefix = &pb.Path{}
			}
			l.Prefix.Target = g.oneOf(Targets[:6])
			if g.R.Intn(2) == 0 {
				l.Prefix.Elem, l.Prefix.Element = nil, nil
			}
		}
		for i := g.R.Intn(4); i > 0; i-- {
			s := &pb.Subscription{Path: g.Path(), Mode: pb.SubscriptionMode(g.R.Intn(4)), SuppressRedundant: g.R.Intn(2) == 0}
			if g.R.Intn(10) == 0 {
				g.Fill(s.ProtoReflect(), 3)
			}
			l.Subscription = append(l.Subscription, s)
		}
		r.Request = &pb.SubscribeRequest_Subscribe{Subscribe: l}
	}
	g.spoil(r)
	return r
}

// spoil changes parts of a message at random.
func (g *Gen) spoil(m proto.Message) {
	for g.wild() && g.R.Intn(5) > 0 {
		g.Change(m)
	}
}

// Change sets or clears a random field of a message, or of one in it.
func (g *Gen) Change(m proto.Message) {
	var all []protoreflect.Message
	collect(m.ProtoReflect(), &all)
	x := all[g.R.Intn(len(all))]
	fs := x.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	fd := fs.Get(g.R.Intn(fs.Len()))
	if g.R.Intn(3) == 0 {
		x.Clear(fd)
	} else {
		g.field(x, fd, 3)
	}
}

func collect(m protoreflect.Message, all *[]protoreflect.Message) {
	*all = append(*all, m)
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil {
			return true
		}
		switch {
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				collect(v.List().Get(i).Message(), all)
			}
		case fd.IsMap():
		default:
			collect(v.Message(), all)
		}
		return true
	})
}

// Fill sets random fields of m.
func (g *Gen) Fill(m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		p := 2
		if o := fs.Get(i).ContainingOneof(); o != nil {
			p = 1 + o.Fields().Len()
		}
		if g.R.Intn(p) == 0 {
			g.field(m, fs.Get(i), depth)
		}
	}
}

func (g *Gen) field(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) {
	if fd.Message() != nil && depth == 0 && !fd.IsMap() {
		return
	}
	switch {
	case fd.IsMap():
		mm := m.Mutable(fd).Map()
		for i := g.R.Intn(3); i > 0; i-- {
			k := protoreflect.MapKey(g.scalar(fd.MapKey()).MapKey())
			if fd.MapValue().Message() != nil {
				v := mm.NewValue()
				mm.Set(k, v)
			} else {
				mm.Set(k, g.scalar(fd.MapValue()))
			}
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		for i := g.R.Intn(4); i > 0; i-- {
			if fd.Message() != nil {
				e := l.NewElement()
				g.Fill(e.Message(), depth-1)
				l.Append(e)
			} else {
				l.Append(g.scalar(fd))
			}
		}
	case fd.Message() != nil:
		g.Fill(m.Mutable(fd).Message(), depth-1)
	default:
		m.Set(fd, g.scalar(fd))
	}
}

func (g *Gen) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	ints := []int64{0, 1, -1, 2, 7, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
	n := ints[g.R.Intn(len(ints))]
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.R.Intn(2) == 0)
	case protoreflect.EnumKind:
		if g.R.Intn(6) > 0 {
			n = int64(g.R.Intn(6))
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		if fd.Name() == "timestamp" {
			n = g.timestamp()
		}
		return protoreflect.ValueOfInt64(n)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(n))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(g.double()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(g.double())
	case protoreflect.StringKind:
		switch fd.Name() {
		case "target":
			return protoreflect.ValueOfString(g.oneOf(Targets))
		case "origin":
			return protoreflect.ValueOfString(g.oneOf(origins))
		case "type_url":
			return protoreflect.ValueOfString(g.oneOf([]string{"", "x", "type.googleapis.com/gnmi.Path", "type.googleapis.com/gnmi.Nope", "/"}))
		}
		return protoreflect.ValueOfString(g.oneOf(Names))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(g.oneOf(docs)))
	}
	panic("kind " + fd.Kind().String())
}

// Wire passes m over the wire, with bytes changed sometimes, into out. It
// reports whether a valid message came out.
func (g *Gen) Wire(m, out proto.Message) bool {
	b, err := proto.Marshal(m)
	if err != nil {
		return false
	}
	if g.Wild >= 10 && g.R.Intn(4) == 0 && len(b) > 0 {
		for i := g.R.Intn(4); i >= 0; i-- {
			j := g.R.Intn(len(b))
			switch g.R.Intn(5) {
			case 0:
				b[j] ^= 1 << g.R.Intn(8)
			case 1:
				b = append(b[:j:j], b[j+1:]...)
			case 2:
				k := j + g.R.Intn(len(b)-j)
				b = append(b[:k:k], b[j:]...)
			case 3:
				b = append(b[:j:j], append([]byte{byte(g.R.Intn(256))}, b[j:]...)...)
			default:
				b = b[:j]
			}
			if len(b) == 0 {
				break
			}
		}
	}
	return proto.Unmarshal(b, out) == nil
}
