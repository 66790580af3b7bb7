package hist

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/errlist"
	"github.com/openconfig/gnmi/metadata"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Clock is what cache.Now reads, in nanoseconds.
var Clock atomic.Int64

func init() {
	Clock.Store(1_000_000_000)
	cache.Now = func() time.Time { return time.Unix(0, Clock.Load()) }
}

// Leaf is a leaf of the model: a clone of the stored notification.
type Leaf struct {
	Path []string
	N    *pb.Notification
}

// Target is the model of a target.
type Target struct {
	Leaves map[string]Leaf // non-metadata leaves
	Latest int64           // greatest accepted timestamp, 0 if none
	HasTS  bool
	// Counters since the last reset.
	Added, Deleted int64
}

// Config of a world.
type Config struct {
	Targets     []string
	EventDriven bool
	Threshold   time.Duration
	Options     []cache.Option
}

// Event is a feed event as seen by the callback, cloned.
type Event struct {
	N    *pb.Notification
	orig *pb.Notification
}

// World drives a real cache and its model.
type World struct {
	Cfg  Config
	C    *cache.Cache
	M    map[string]*Target
	View View
	// Feed holds the events of the current operation.
	Feed []Event
	// Log is the history so far.
	Log []string
	// Fail receives violations.
	Fail func(kind, format string, args ...any)
	// OnEvent, if set, sees every event.
	OnEvent func(l *ctree.Leaf)

	kept []Event // delete events, to verify that they stay as they were
	subm []Event // submitted notifications
	// Obs counts observations.
	Obs map[string]int
}

// NewWorld makes the cache and its model.
func NewWorld(cfg Config, fail func(kind, format string, args ...any)) *World {
	opts := append([]cache.Option(nil), cfg.Options...)
	if !cfg.EventDriven {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if cfg.Threshold > 0 {
		opts = append(opts, cache.WithFutureThreshold(cfg.Threshold))
	}
	w := &World{Cfg: cfg, C: cache.New(cfg.Targets, opts...), M: map[string]*Target{}, View: View{}, Obs: map[string]int{}}
	for _, t := range cfg.Targets {
		w.M[t] = &Target{Leaves: map[string]Leaf{}}
	}
	w.Fail = func(kind, format string, args ...any) {
		fail(kind, "%s\nevent driven: %v, future threshold: %v, history:\n  %s", fmt.Sprintf(format, args...), cfg.EventDriven, cfg.Threshold, strings.Join(w.Log, "\n  "))
	}
	w.C.SetClient(func(l *ctree.Leaf) {
		if w.OnEvent != nil {
			w.OnEvent(l)
		}
		n, ok := l.Value().(*pb.Notification)
		if !ok {
			w.Fail("feed-type", "the feed delivers a %T", l.Value())
			return
		}
		ev := Event{N: proto.Clone(n).(*pb.Notification), orig: n}
		w.Feed = append(w.Feed, ev)
		if len(n.GetDelete()) > 0 {
			w.kept = append(w.kept, ev)
		}
		if len(n.GetUpdate())+len(n.GetDelete()) == 0 {
			w.Fail("feed-empty", "the feed delivers an empty notification %v", n)
		}
		if err := w.View.Apply(n); err != nil {
			w.Fail("feed-bad", "the feed delivers %v: %v", n, err)
		}
	})
	return w
}

// Text prints a notification on one line.
func Text(n *pb.Notification) string {
	return strings.Join(strings.Fields(prototext.MarshalOptions{}.Format(n)), " ")
}

// Outcome is the expected outcome of one update.
type Outcome int

// Outcomes.
const (
	Accepted Outcome = iota // stored; announced or suppressed
	Stale
	Future
	Rejected // an error of another sort
)

func (o Outcome) String() string {
	return []string{"accepted", "stale", "future", "rejected"}[o]
}

// Update applies an update (single or atomic) to the model. n is cloned.
func (w *World) Update(n *pb.Notification) (o Outcome, unchanged bool) {
	m := w.M[n.GetPrefix().GetTarget()]
	p := LeafIndex(n)
	if m == nil || len(p) == 0 || IsMeta(p) {
		return Rejected, false
	}
	k := Key(p)
	ts := n.GetTimestamp()
	if old, ok := m.Leaves[k]; ok {
		switch {
		case ts < old.N.GetTimestamp():
			return Stale, false
		case ts == old.N.GetTimestamp() && proto.Equal(old.N, n):
			return Stale, false
		case ts > old.N.GetTimestamp() && w.Cfg.Threshold > 0 && m.HasTS && ts-Clock.Load() > int64(w.Cfg.Threshold) && ts-m.Latest > int64(w.Cfg.Threshold):
			return Future, false
		}
		unchanged = !old.N.GetAtomic() && !n.GetAtomic() && ValueOf(old.N) == ValueOf(n)
	} else {
		for _, l := range m.Leaves {
			if IsPrefix(l.Path, p) || IsPrefix(p, l.Path) {
				return Rejected, false
			}
		}
		m.Added++
	}
	m.Leaves[k] = Leaf{p, proto.Clone(n).(*pb.Notification)}
	if !m.HasTS || ts > m.Latest {
		m.Latest, m.HasTS = ts, true
	}
	return Accepted, unchanged
}

// Delete applies a delete to the model and returns the number of leaves removed.
func (w *World) Delete(target string, q []string, ts int64) int {
	m := w.M[target]
	n := 0
	for k, l := range m.Leaves {
		if QueryMatches(q, l.Path) && l.N.GetTimestamp() < ts {
			delete(m.Leaves, k)
			n++
		}
	}
	m.Deleted += int64(n)
	return n
}

// Snapshot returns what Query reports for a target: all leaves and those that
// are no metadata. Leaves must be reported once, at their own index.
func (w *World) Snapshot(target string) (all map[string]string, data map[string]*pb.Notification) {
	all, data = map[string]string{}, map[string]*pb.Notification{}
	err := w.C.Query(target, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
		n, ok := v.(*pb.Notification)
		if !ok || len(n.GetUpdate()) == 0 {
			w.Fail("stored-value", "target %q stores %v at %q", target, v, p)
			return nil
		}
		k := Key(p)
		if _, dup := all[k]; dup {
			w.Fail("reported-twice", "target %q: %s is reported twice", target, Show(k))
		}
		if own := Key(LeafIndex(n)); own != k {
			w.Fail("stored-path", "target %q stores at %s the notification for %s", target, Show(k), Show(own))
		}
		if n.GetPrefix().GetTarget() != target {
			w.Fail("isolation", "target %q stores a notification of target %q", target, n.GetPrefix().GetTarget())
		}
		if !n.GetAtomic() && len(n.GetUpdate()) != 1 {
			w.Fail("stored-value", "target %q stores at %s a non-atomic notification with %d updates", target, Show(k), len(n.GetUpdate()))
		}
		all[k] = ValueOf(n)
		if !IsMeta(p) {
			data[k] = n
		}
		return nil
	})
	if err != nil {
		w.Fail("query-error", "Query(%q, *) = %v", target, err)
	}
	return all, data
}

// CheckStored compares what is stored for a target with the model.
func (w *World) CheckStored(target string) {
	_, data := w.Snapshot(target)
	m := w.M[target]
	for k, l := range m.Leaves {
		n, ok := data[k]
		if !ok {
			w.Fail("lost-leaf", "target %q: leaf %s is not stored, expected %s", target, Show(k), Text(l.N))
			continue
		}
		if !proto.Equal(n, l.N) {
			w.Fail("wrong-leaf", "target %q: leaf %s holds\n  %s\nexpected\n  %s", target, Show(k), Text(n), Text(l.N))
		}
	}
	for k, n := range data {
		if _, ok := m.Leaves[k]; !ok {
			w.Fail("extra-leaf", "target %q: leaf %s is stored, expected none: %s", target, Show(k), Text(n))
		}
	}
}

// CheckView compares the replay of the feed with the cache.
func (w *World) CheckView(target string) {
	all, _ := w.Snapshot(target)
	view := w.View[target]
	if view == nil {
		view = map[string]string{}
	}
	if d := Diff(view, all); d != "" {
		w.Fail("replay", "target %q: the replayed feed differs from the cache: %s", target, d)
	}
}

// CheckIntact verifies that submitted notifications and delivered deletes are
// as they were.
func (w *World) CheckIntact() {
	for _, e := range w.subm {
		if !proto.Equal(e.N, e.orig) {
			w.Fail("modified-input", "a submitted notification was modified: it is\n  %s\nand was\n  %s", Text(e.orig), Text(e.N))
		}
	}
	for _, e := range w.kept {
		if !proto.Equal(e.N, e.orig) {
			w.Fail("modified-event", "a delivered delete was modified: it is\n  %s\nand was\n  %s", Text(e.orig), Text(e.N))
		}
	}
}

// Counters is the content of the metadata of a target.
type Counters struct {
	Int  map[string]int64
	Bool map[string]bool
	Str  map[string]string
}

// Counters reads the metadata of a target.
func (w *World) Counters(target string) Counters { return ReadCounters(w.C, target) }

// ReadCounters reads the metadata of a target of c.
func ReadCounters(c *cache.Cache, target string) Counters {
	r := Counters{map[string]int64{}, map[string]bool{}, map[string]string{}}
	md := c.Metadata()[target]
	if md == nil {
		return r
	}
	for k := range metadata.TargetIntValues {
		if v, err := md.GetInt(k); err == nil {
			r.Int[k] = v
		}
	}
	for k := range metadata.TargetBoolValues {
		if v, err := md.GetBool(k); err == nil {
			r.Bool[k] = v
		}
	}
	for k := range metadata.TargetStrValues {
		if v, err := md.GetStr(k); err == nil {
			r.Str[k] = v
		}
	}
	return r
}

func (c Counters) String() string {
	var s []string
	for k, v := range c.Int {
		if k != metadata.Size {
			s = append(s, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range c.Bool {
		s = append(s, fmt.Sprintf("%s=%v", k, v))
	}
	for k, v := range c.Str {
		s = append(s, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// Result tells what a notification should have done and did.
type Result struct {
	Updates  []Outcome // expected, in order (one for an atomic group)
	Width    int64     // updates per outcome
	Deletes  int
	Removed  int
	Before   Counters
	After    Counters
	Events   []Event
	Err      error
	Withheld int // accepted updates that were not announced
}

// Submit sends a notification to the real cache and the model, and checks the
// returned error, the stored content, and the events.
func (w *World) Submit(n *pb.Notification, via func(*pb.Notification) error) *Result {
	w.Log = append(w.Log, fmt.Sprintf("[now %d] %s", Clock.Load(), Text(n)))
	target := n.GetPrefix().GetTarget()
	res := &Result{Width: 1, Before: w.Counters(target)}
	keep := proto.Clone(n).(*pb.Notification)
	w.subm = append(w.subm, Event{keep, n})
	if len(w.subm) > 40 {
		w.subm = w.subm[1:]
	}
	w.Feed = nil
	res.Err = via(n)
	res.Events = w.Feed
	res.After = w.Counters(target)
	if !proto.Equal(n, keep) {
		w.Fail("modified-input", "the submitted notification was modified to %s", Text(n))
	}
	if w.M[target] == nil {
		if res.Err == nil {
			w.Fail("unknown-target", "a notification for unknown target %q is accepted", target)
		}
		return res
	}
	// The model.
	type exp struct {
		n         *pb.Notification
		unchanged bool
	}
	var announced []exp // accepted, in order
	switch {
	case keep.Atomic && len(keep.Delete) > 0:
		res.Updates = nil
		if res.Err == nil {
			w.Fail("error", "an atomic delete is accepted")
		}
		return res
	case keep.Atomic && len(keep.Update) == 0:
	case keep.Atomic:
		o, _ := w.Update(keep)
		res.Updates, res.Width = []Outcome{o}, int64(len(keep.Update))
		if o == Accepted {
			announced = append(announced, exp{keep, false})
		}
	default:
		for _, u := range keep.Update {
			one := proto.Clone(keep).(*pb.Notification)
			one.Update, one.Delete = []*pb.Update{u}, nil
			o, same := w.Update(one)
			res.Updates = append(res.Updates, o)
			if o == Accepted {
				announced = append(announced, exp{one, same})
			}
		}
	}
	// Errors.
	var want []Outcome
	for _, o := range res.Updates {
		if o != Accepted {
			want = append(want, o)
		}
		w.Obs["update_"+o.String()]++
	}
	got := flatten(res.Err)
	if len(got) != len(want) {
		w.Fail("error", "submitting returns %v, expected outcomes of its updates: %v", res.Err, res.Updates)
	} else {
		for i, o := range want {
			if errors.Is(got[i], cache.ErrStale) != (o == Stale) || errors.Is(got[i], cache.ErrFuture) != (o == Future) {
				w.Fail("error", "submitting returns %v, expected outcomes of its updates: %v", res.Err, res.Updates)
				break
			}
		}
	}
	// Announcements of updates: a subsequence of the accepted ones, in order,
	// leaving out only unchanged ones, and before those of deletes.
	i := 0
	for _, e := range announced {
		if i < len(res.Events) && len(res.Events[i].N.GetUpdate()) > 0 && proto.Equal(res.Events[i].N, e.n) {
			i++
			w.Obs["announced"]++
			continue
		}
		res.Withheld++
		w.Obs["withheld"]++
		if !w.Cfg.EventDriven {
			w.Fail("withheld", "the accepted update %s is not announced although event-driven emulation is off", Text(e.n))
		} else if !e.unchanged {
			w.Fail("withheld", "the accepted update %s is not announced although it changed the leaf", Text(e.n))
		}
	}
	removed := map[string]int{}
	for ; i < len(res.Events); i++ {
		e := res.Events[i].N
		if e.GetPrefix().GetTarget() != target {
			w.Fail("isolation", "an update of target %q is announced for target %q", target, e.GetPrefix().GetTarget())
		}
		if len(e.GetUpdate()) > 0 {
			w.Fail("feed-extra", "the feed has %s, which no accepted update calls for", Text(e))
			continue
		}
		for _, d := range e.GetDelete() {
			removed[Key(Index(e.GetPrefix(), d))]++
		}
	}
	if keep.Atomic {
		return res
	}
	for _, d := range keep.Delete {
		res.Deletes++
		res.Removed += w.Delete(target, Index(keep.Prefix, d), keep.Timestamp)
	}
	w.Obs["leaves_removed"] += res.Removed
	w.Obs["deletes"] += res.Deletes
	return res
}

func flatten(err error) []error {
	if err == nil {
		return nil
	}
	var l errlist.Error
	if e, ok := err.(interface{ Errors() []error }); ok {
		return e.Errors()
	}
	if errors.As(err, &l) {
		return l.Errors()
	}
	return []error{err}
}
