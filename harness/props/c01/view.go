package c01

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/value"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// entry is a leaf as a client shows it.
type entry struct {
	text   string // CLI text of the value
	scalar any    // client library
	tv     *gpb.TypedValue
	old    *gpb.Value
	kind   byte // 't'ext, 's'calar, 'p'roto
}

func (e entry) String() string {
	switch e.kind {
	case 't':
		return e.text
	case 's':
		return fmt.Sprintf("%T %v", e.scalar, e.scalar)
	}
	return fmt.Sprint(e.tv, e.old)
}

type view map[string]entry

// remove applies a delete.
func (v view) remove(p []string) {
	for k := range v {
		if covers(p, split(k)) {
			delete(v, k)
		}
	}
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-5*math.Max(math.Abs(a), math.Abs(b))
}

func num(x any) (float64, bool) {
	switch n := x.(type) {
	case float32:
		return float64(n), true
	case float64:
		return n, true
	}
	return 0, false
}

func decimal(d *gpb.Decimal64) float64 {
	return float64(d.GetDigits()) / math.Pow10(int(d.GetPrecision()))
}

// scalarIs reports whether the client library's value is the one streamed.
func scalarIs(x any, w val) bool {
	if w.tv == nil {
		if w.old.GetType() == gpb.Encoding_BYTES {
			b, ok := x.([]byte)
			return ok && bytes.Equal(b, w.old.Value)
		}
		var j any
		json.Unmarshal(w.old.Value, &j)
		return reflect.DeepEqual(x, j)
	}
	switch v := w.tv.Value.(type) {
	case *gpb.TypedValue_IntVal:
		return x == any(v.IntVal)
	case *gpb.TypedValue_UintVal:
		return x == any(v.UintVal)
	case *gpb.TypedValue_BoolVal:
		return x == any(v.BoolVal)
	case *gpb.TypedValue_StringVal:
		return x == any(v.StringVal)
	case *gpb.TypedValue_BytesVal:
		b, ok := x.([]byte)
		return ok && bytes.Equal(b, v.BytesVal)
	case *gpb.TypedValue_FloatVal:
		n, ok := num(x)
		return ok && near(n, float64(v.FloatVal))
	case *gpb.TypedValue_DoubleVal:
		n, ok := num(x)
		return ok && n == v.DoubleVal
	case *gpb.TypedValue_DecimalVal:
		n, ok := num(x)
		return ok && near(n, decimal(v.DecimalVal))
	case *gpb.TypedValue_LeaflistVal:
		l, ok := x.([]any)
		if !ok || len(l) != len(v.LeaflistVal.Element) {
			return false
		}
		for i, e := range v.LeaflistVal.Element {
			if !scalarIs(l[i], val{tv: e}) {
				return false
			}
		}
		return true
	case *gpb.TypedValue_JsonVal:
		return jsonIs(x, v.JsonVal)
	case *gpb.TypedValue_JsonIetfVal:
		return jsonIs(x, v.JsonIetfVal)
	}
	return false
}

func jsonIs(x any, b []byte) bool {
	var j any
	json.Unmarshal(b, &j)
	if d, ok := x.(value.DeprecatedScalar); ok {
		x = d.Value
	}
	return reflect.DeepEqual(x, j)
}

// textIs reports whether the text is that of the value. Strings are quoted in
// groups.
func textIs(s string, w val, quoted bool) bool {
	str := func(x string) bool {
		if quoted {
			return s == strconv.Quote(x)
		}
		return s == x
	}
	if w.tv == nil {
		if w.old.GetType() == gpb.Encoding_BYTES {
			return s == fmt.Sprint(w.old.Value)
		}
		var j string
		json.Unmarshal(w.old.Value, &j)
		return str(j)
	}
	flt := func(x float64) bool {
		n, err := strconv.ParseFloat(s, 64)
		return err == nil && near(n, x)
	}
	switch v := w.tv.Value.(type) {
	case *gpb.TypedValue_IntVal:
		return s == fmt.Sprint(v.IntVal)
	case *gpb.TypedValue_UintVal:
		return s == fmt.Sprint(v.UintVal)
	case *gpb.TypedValue_BoolVal:
		return s == fmt.Sprint(v.BoolVal)
	case *gpb.TypedValue_StringVal:
		return str(v.StringVal)
	case *gpb.TypedValue_BytesVal:
		return s == fmt.Sprint(v.BytesVal)
	case *gpb.TypedValue_FloatVal:
		return flt(float64(v.FloatVal))
	case *gpb.TypedValue_DoubleVal:
		return flt(v.DoubleVal)
	case *gpb.TypedValue_DecimalVal:
		return flt(decimal(v.DecimalVal))
	case *gpb.TypedValue_LeaflistVal:
		if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
			return false
		}
		// Separated by commas in groups, by spaces otherwise.
		rest := s[1 : len(s)-1]
		for i, e := range v.LeaflistVal.Element {
			if i > 0 {
				if quoted {
					rest = strings.TrimPrefix(rest, ",")
				}
				rest = strings.TrimPrefix(rest, " ")
			}
			n := -1
			// The longest prefix that is the element.
			for j := len(rest); j >= 0; j-- {
				if textIs(rest[:j], val{tv: e}, quoted) {
					n = j
					break
				}
			}
			if n < 0 {
				return false
			}
			rest = rest[n:]
		}
		return rest == ""
	case *gpb.TypedValue_JsonVal, *gpb.TypedValue_JsonIetfVal:
		return s != "" // the format is left open
	}
	return false
}

func (e entry) is(w val, quoted bool) bool {
	switch e.kind {
	case 't':
		return textIs(e.text, w, quoted)
	case 's':
		return scalarIs(e.scalar, w)
	}
	return proto.Equal(e.tv, w.tv) && proto.Equal(e.old, w.old)
}

// isMeta reports leaves the collector itself adds.
func isMeta(k string) bool {
	p := split(k)
	return len(p) > 1 && p[1] == "meta"
}

func name(k string) string { return strings.ReplaceAll(k, sep, "/") }

// compare lists the differences; known counts those of known findings.
// before is what a polling client showed before.
func compare(v view, w want, quoted, stream, atomicAware bool, before view) (diffs []string, known []string) {
	for k, x := range w.must {
		e, ok := v[k]
		if !ok {
			diffs = append(diffs, fmt.Sprintf("missing: %s (%v%v)", name(k), x.tv, x.old))
		} else if !e.is(x, quoted) {
			diffs = append(diffs, fmt.Sprintf("stale or wrong: %s is shown as %v, the target has %v%v", name(k), e, x.tv, x.old))
		}
	}
	for k, e := range v {
		if isMeta(k) {
			continue
		}
		if _, ok := w.must[k]; ok {
			continue
		}
		if x, ok := w.may[k]; ok {
			if !e.is(x, quoted) {
				diffs = append(diffs, fmt.Sprintf("stale or wrong: %s is shown as %v, the target has %v%v", name(k), e, x.tv, x.old))
			}
			continue
		}
		if xs, ok := w.shrunk[k]; ok && stream && !atomicAware && slices.ContainsFunc(xs, func(x val) bool { return e.is(x, quoted) }) {
			known = append(known, "C01-atomic-shrink")
			continue
		}
		if b, ok := before[k]; ok && w.gone[k] != (val{}) && reflect.DeepEqual(b, e) {
			known = append(known, "C01-poll-cache-keeps-deleted")
			continue
		}
		diffs = append(diffs, fmt.Sprintf("extra: %s shown as %v", name(k), e))
	}
	sort.Strings(diffs)
	return diffs, known
}

// index is the place of a path of a notification.
func index(prefix, p *gpb.Path) []string {
	r := []string{prefix.GetTarget()}
	o := prefix.GetOrigin()
	if o == "" && len(prefix.GetElem()) == 0 && len(prefix.GetElement()) == 0 {
		o = p.GetOrigin()
	}
	if o != "" {
		r = append(r, o)
	}
	for _, q := range []*gpb.Path{prefix, p} {
		if len(q.GetElem()) == 0 {
			r = append(r, q.GetElement()...)
			continue
		}
		for _, e := range q.GetElem() {
			r = append(r, e.Name)
			var ks []string
			for k := range e.Key {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				r = append(r, e.Key[k])
			}
		}
	}
	return r
}

// apply applies a response to the view.
func (v view) apply(s *gpb.SubscribeResponse) {
	n := s.GetUpdate()
	if n == nil {
		return
	}
	if n.Atomic && len(n.Update) > 0 {
		v.remove(index(n.Prefix, nil))
	}
	for _, u := range n.Update {
		v[join(index(n.Prefix, u.Path))] = entry{tv: u.Val, old: u.Value, kind: 'p'}
	}
	for _, d := range n.Delete {
		v.remove(index(n.Prefix, d))
	}
}

// parseProto replays the messages of a proto display.
func parseProto(out string, short bool) (view, int, error) {
	v := view{}
	var msgs []string
	if short {
		msgs = strings.Split(strings.TrimSpace(out), "\n")
	} else {
		// A message starts at a line that is not indented.
		var cur []string
		for _, l := range strings.Split(out, "\n") {
			if l != "" && l[0] != ' ' && l[0] != '}' && l[0] != '\t' && len(cur) > 0 {
				msgs = append(msgs, strings.Join(cur, "\n"))
				cur = nil
			}
			if strings.TrimSpace(l) != "" {
				cur = append(cur, l)
			}
		}
		if len(cur) > 0 {
			msgs = append(msgs, strings.Join(cur, "\n"))
		}
	}
	n := 0
	for _, m := range msgs {
		if strings.TrimSpace(m) == "" {
			continue
		}
		s := &gpb.SubscribeResponse{}
		if err := prototext.Unmarshal([]byte(m), s); err != nil {
			return v, n, fmt.Errorf("message %d: %v: %q", n, err, m)
		}
		v.apply(s)
		n++
	}
	return v, n, nil
}

// parseSingle replays the lines of a single display. Paths stay joined.
func parseSingle(out, delim string, ts bool) (view, error) {
	v := view{}
	for _, l := range strings.Split(out, "\n") {
		if l == "" {
			continue
		}
		i := strings.Index(l, ", ")
		if i < 0 {
			return v, fmt.Errorf("line %q", l)
		}
		k, x := l[:i], l[i+2:]
		if ts {
			j := strings.LastIndex(x, ", ")
			if j < 0 {
				return v, fmt.Errorf("line %q", l)
			}
			x = x[:j]
		}
		if x == "<nil>" {
			for o := range v {
				if o == k || strings.HasPrefix(o, k+delim) || covers(strings.Split(k, delim), strings.Split(o, delim)) {
					delete(v, o)
				}
			}
			continue
		}
		v[k] = entry{text: x, kind: 't'}
	}
	return v, nil
}

var keyRE = regexp.MustCompile(`^\s*("(?:[^"\\]|\\.)*"): (.*)$`)

// parseGroups parses the blocks of a group display; an incomplete one at the
// end is left out.
func parseGroups(out, prefix string) ([]map[string]string, error) {
	var blocks []map[string]string
	var cur map[string]string
	var path []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimPrefix(l, prefix)
		t := strings.TrimSpace(l)
		switch {
		case cur == nil && t == "{":
			cur = map[string]string{}
		case cur == nil && t == "":
		case cur == nil:
			return blocks, fmt.Errorf("line %q outside of a group", l)
		case t == "":
		case t == "}" || t == "},":
			if len(path) == 0 {
				blocks = append(blocks, cur)
				cur = nil
			} else {
				path = path[:len(path)-1]
			}
		default:
			m := keyRE.FindStringSubmatch(l)
			if m == nil {
				return blocks, fmt.Errorf("line %q", l)
			}
			k, err := strconv.Unquote(m[1])
			if err != nil {
				return blocks, fmt.Errorf("line %q: %v", l, err)
			}
			if m[2] == "{" {
				path = append(path, k)
				continue
			}
			p := join(append(append([]string(nil), path...), k))
			if _, ok := cur[p]; ok {
				return blocks, fmt.Errorf("%q twice in a group", name(p))
			}
			cur[p] = strings.TrimSuffix(m[2], ",")
		}
	}
	return blocks, nil
}

// stripTS drops the timestamps of a group.
func stripTS(b map[string]string) map[string]string {
	r := map[string]string{}
	for k, x := range b {
		if p := split(k); p[len(p)-1] == "value" {
			r[join(p[:len(p)-1])] = x
		} else if p[len(p)-1] != "timestamp" {
			r[k] = x
		}
	}
	return r
}

func groupView(b map[string]string) view {
	v := view{}
	for k, x := range b {
		v[k] = entry{text: x, kind: 't'}
	}
	return v
}

// replayGroups applies the blocks of a streaming group display.
func replayGroups(bs []map[string]string) view {
	v := view{}
	for i, b := range bs {
		if i == 0 {
			v = groupView(b)
			continue
		}
		for k, x := range b {
			if x == "<nil>" {
				v.remove(split(k))
			} else {
				// A leaf takes the place of what was below or above it.
				v[k] = entry{text: x, kind: 't'}
			}
		}
	}
	return v
}

// joined renames the leaves of a want as a single display shows them.
func joined(w want, delim string) (want, bool) {
	ok := true
	f := func(m map[string]val) map[string]val { return rename(m, delim, &ok) }
	return want{f(w.must), f(w.may), f(w.gone), rename(w.shrunk, delim, &ok)}, ok
}

func rename[T any](m map[string]T, delim string, ok *bool) map[string]T {
	r := map[string]T{}
	for k, x := range m {
		n := strings.ReplaceAll(k, sep, delim)
		if _, dup := r[n]; dup || strings.Contains(n, ", ") {
			*ok = false
		}
		r[n] = x
	}
	return r
}
