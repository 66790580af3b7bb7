// Package hist generates histories of target notifications and lifecycle
// events, holds the reference model they are judged by, and replays change
// feeds.
package hist

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Elems is the index of a path without target and origin: names followed by
// the key values in the order of the key names.
func Elems(p *pb.Path) []string {
	if p == nil {
		return nil
	}
	if len(p.Elem) == 0 {
		return append([]string(nil), p.Element...)
	}
	var r []string
	for _, e := range p.Elem {
		r = append(r, e.GetName())
		var ks []string
		for k := range e.GetKey() {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r = append(r, e.Key[k])
		}
	}
	return r
}

// Index is the index of a path below a prefix: origin, prefix, path.
func Index(prefix, path *pb.Path) []string {
	var r []string
	pe := Elems(prefix)
	switch {
	case prefix.GetOrigin() != "":
		r = append(r, prefix.GetOrigin())
	case len(pe) == 0 && path.GetOrigin() != "":
		r = append(r, path.GetOrigin())
	}
	r = append(r, pe...)
	return append(r, Elems(path)...)
}

// LeafIndex is where the cache stores a notification with an update.
func LeafIndex(n *pb.Notification) []string {
	if n.GetAtomic() {
		return Index(n.GetPrefix(), nil)
	}
	return Index(n.GetPrefix(), n.GetUpdate()[0].GetPath())
}

// Key is the identity of an index path.
func Key(p []string) string { return strings.Join(p, "\x1f") }

// Unkey is the inverse of Key for non-empty paths.
func Unkey(k string) []string { return strings.Split(k, "\x1f") }

// Show prints an index path.
func Show(k string) string { return "/" + strings.ReplaceAll(k, "\x1f", "/") }

// IsMeta reports whether an index path is a metadata path.
func IsMeta(p []string) bool { return len(p) > 0 && p[0] == "meta" }

// QueryMatches is the meaning of a query or delete path: elements agree, what
// is below matches too, and a final wildcard stands also for the leaf above.
func QueryMatches(q, p []string) bool {
	for i := range q {
		if i >= len(p) {
			return i == len(p) && i == len(q)-1 && q[i] == "*"
		}
		if q[i] != "*" && q[i] != p[i] {
			return false
		}
	}
	return true
}

// Compatible reports whether two paths agree on the elements both have.
func Compatible(q, p []string) bool {
	for i := range q {
		if i >= len(p) {
			return true
		}
		if q[i] != "*" && p[i] != "*" && q[i] != p[i] {
			return false
		}
	}
	return true
}

// IsPrefix reports whether a is a proper or improper prefix of b.
func IsPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var det = proto.MarshalOptions{Deterministic: true}

// Bytes is a canonical encoding of a message.
func Bytes(m proto.Message) string {
	b, err := det.Marshal(m)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

// ValueOf is the canonical content of the leaf held by a notification: its
// value, or all paths and values of an atomic group.
func ValueOf(n *pb.Notification) string {
	if !n.GetAtomic() {
		v := n.GetUpdate()[0].GetVal()
		if v == nil {
			return "nil"
		}
		return "v" + Bytes(v)
	}
	var sb strings.Builder
	sb.WriteString("atomic")
	for _, u := range n.GetUpdate() {
		fmt.Fprintf(&sb, "|%q=%q", Elems(u.GetPath()), Bytes(u.GetVal()))
	}
	return sb.String()
}

// View is what a reader of the change feed knows: per target and leaf path,
// the canonical content.
type View map[string]map[string]string

// Apply applies a notification of the feed to the view.
func (v View) Apply(n *pb.Notification) error {
	t := n.GetPrefix().GetTarget()
	if t == "" {
		return fmt.Errorf("notification without target")
	}
	if v[t] == nil {
		v[t] = map[string]string{}
	}
	m := v[t]
	if n.GetAtomic() && len(n.GetUpdate()) > 0 {
		p := Index(n.GetPrefix(), nil)
		for k := range m {
			if IsPrefix(p, Unkey(k)) {
				delete(m, k)
			}
		}
		m[Key(p)] = ValueOf(n)
	} else {
		for _, u := range n.GetUpdate() {
			one := &pb.Notification{Prefix: n.GetPrefix(), Update: []*pb.Update{u}}
			m[Key(LeafIndex(one))] = ValueOf(one)
		}
	}
	for _, d := range n.GetDelete() {
		q := Index(n.GetPrefix(), d)
		for k := range m {
			if QueryMatches(q, Unkey(k)) {
				delete(m, k)
			}
		}
	}
	return nil
}

// Diff describes how two leaf maps differ; it is empty if they are equal.
func Diff(got, want map[string]string) string {
	var ds []string
	for k, w := range want {
		if g, ok := got[k]; !ok {
			ds = append(ds, fmt.Sprintf("missing %s", Show(k)))
		} else if g != w {
			ds = append(ds, fmt.Sprintf("at %s: %q, want %q", Show(k), g, w))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			ds = append(ds, fmt.Sprintf("extra %s = %q", Show(k), g))
		}
	}
	sort.Strings(ds)
	if len(ds) > 12 {
		ds = append(ds[:12], fmt.Sprintf("and %d more", len(ds)-12))
	}
	return strings.Join(ds, "; ")
}
