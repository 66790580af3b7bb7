From f06cf6c248e88f84d3a0f2f12ce424054ad43713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 01/27] fix: ctree: delete nothing from an empty tree or
 through a leaf

A delete on an empty Tree passed the nil root value to the condition and the
callback and reported a deletion, and a path with a glob followed by further
elements (e.g. a/*/x) deleted the leaf a although no query for that path
reports it.
---
 ctree/tree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..51da2a3 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -351,6 +351,9 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return // An empty Tree has no leaves to delete.
+	}
 	if delBr, _ := t.internalDelete(path, condition, f, false); delBr {
 		t.leafBranch = nil
 	}
@@ -387,6 +390,10 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
 		default:
+			if len(subpath) != 0 {
+				// The subpath continues beyond a leaf, so it does not match it.
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
@@ -436,6 +443,9 @@ func (t *Tree) DeleteConditional(subpath []string, condition func(interface{}) b
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return nil // An empty Tree has no leaves to delete.
+	}
 	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
 	if delBr {
 		t.leafBranch = nil
-- 
2.43.0


From 452c8d7bc82d1dc2ba463b421beaf471236917df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 02/27] fix: ctree: lock each node while a delete inspects it

A delete only held the lock of the top level Tree, so reading the value of a
leaf raced with Update and Value of a Leaf handle obtained earlier.
---
 ctree/tree.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 51da2a3..1336cc4 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -359,12 +359,21 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	}
 }
 
+// lockedDelete is internalDelete with the lock of t held. The lock on the top
+// level Tree keeps out everything but Leaf handles that were obtained earlier,
+// which are only synchronized by the lock of their own node.
+func (t *Tree) lockedDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	return t.internalDelete(subpath, condition, f, retDeletedPaths)
+}
+
 // internalDelete removes nodes recursively that match subpath and satisfy
 // function condition. It also calls function f on every removed leaf. It
 // returns true if the current node is to be removed from the parent and
 // a slice of subpaths ([]string) for all leaves deleted thus far if
 // retDeletedPaths is true. If retDeletedPaths is false, the returned slice
-// of subpaths is nil.
+// of subpaths is nil. The caller should hold the write lock of t.
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
@@ -377,7 +386,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
-				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				del, leaves := v.lockedDelete(subpath, condition, f, retDeletedPaths)
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -409,7 +418,7 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
-			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			delBr, allLeaves := br.lockedDelete(subpath[1:], condition, f, retDeletedPaths)
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
-- 
2.43.0


From eed1104d830cc89b67b804b5e71af4ba8a851cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 03/27] fix: value: do not panic on missing values

Equal dereferenced a nil second value when the first one is a double, and
Equal and ToScalar dereferenced nil values, decimals and leaf-lists.
---
 value/value.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From 19ddd7eaf7197a45128933dbce4ecd7ca4021ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 04/27] fix: cache: announce a delete with the full path of the
 deleted leaf

The path was built by appending to the elements of the stored prefix, which
overwrites the path of another delete when notifications share the prefix, and
it lost elements when only one of the prefix and the path uses the deprecated
encoding, announcing the delete of a whole subtree.
---
 cache/cache.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..c88bb1f 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -614,13 +614,30 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(toElems(prefix), toElems(path)...)}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		var element []string
+		element = append(element, prefix.GetElement()...)
+		element = append(element, path.GetElement()...)
+		d.Delete = []*pb.Path{{Element: element}}
 	}
 	return d
 }
 
+// toElems returns a newly allocated slice of the elements of p, including those
+// that use the deprecated encoding. The slices held by p can be shared with
+// other notifications and must not be appended to.
+func toElems(p *pb.Path) []*pb.PathElem {
+	if len(p.GetElem()) > 0 {
+		return append([]*pb.PathElem(nil), p.GetElem()...)
+	}
+	var elems []*pb.PathElem
+	for _, e := range p.GetElement() {
+		elems = append(elems, &pb.PathElem{Name: e})
+	}
+	return elems
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if path[0] == metadata.Root {
-- 
2.43.0


From de55447d68630bc60867f1403724b3b5a8bbd566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 05/27] fix: cache: do not suppress an update that replaces an
 atomic group

Event driven emulation compared the update only with the first value of the
atomic group stored at the same path, so the replacement of the group was
withheld from the change feed when those two are equal.
---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index c88bb1f..d74c520 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -569,7 +569,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 		oldval.Update(n)
 		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		if !n.Atomic && !old.GetAtomic() && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From 0f2313d54ce45cb1c955dcfd63a65a98dfd7a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 06/27] fix: cache: do not panic on unusual updates and deletes
 from a target

An update or delete of the root path or of the metadata root, a metadata update
without a value, and a metadata leaf of another type than expected by the
periodic metadata update all made the process panic.
---
 cache/cache.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index d74c520..e851233 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -504,26 +504,32 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		suffix = nil
 	}
 	path := joinPrefixAndPath(n.Prefix, suffix)
+	if len(path) == 0 {
+		return nil, errors.New("update at the root path is not supported")
+	}
 	if path[0] == metadata.Root {
+		if len(path) == 1 {
+			return nil, fmt.Errorf("update at the metadata root path %q is not supported", path)
+		}
 		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -640,7 +646,7 @@ func toElems(p *pb.Path) []*pb.PathElem {
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -707,9 +713,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
-			noti := metaNotiBool(t.name, value, v)
+		noti := metaNotiBool(t.name, value, v)
+		if metaChanged(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -727,9 +732,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
-			noti := metaNotiInt(t.name, value, v)
+		noti := metaNotiInt(t.name, value, v)
+		if metaChanged(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -747,9 +751,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
-			noti := metaNotiStr(t.name, value, v)
+		noti := metaNotiStr(t.name, value, v)
+		if metaChanged(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -759,6 +762,14 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	}
 }
 
+// metaChanged reports whether the value in noti differs from the one in prev,
+// the notification stored for a metadata path. A target can have stored any
+// type of value there.
+func metaChanged(prev interface{}, noti *pb.Notification) bool {
+	n, ok := prev.(*pb.Notification)
+	return !ok || !value.Equal(n.GetUpdate()[0].GetVal(), noti.GetUpdate()[0].GetVal())
+}
+
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
-- 
2.43.0


From f2844e452af57ec047e0f5bc67add89873b8e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 07/27] fix: cache: exclude metadata leaves from the deleted
 leaf counts

The leaf count is only increased for leaves sent by the target, but deleting a
metadata leaf (e.g. the connect error upon a connect, or a delete of all paths)
decreased it.
---
 cache/cache.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index e851233..f714f09 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -498,12 +498,7 @@ func (t *Target) resetTimestamp() {
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	realData := true
-	suffix := n.Update[0].Path
-	// If the notification is an atomic group of updates, store them under the prefix only.
-	if n.Atomic {
-		suffix = nil
-	}
-	path := joinPrefixAndPath(n.Prefix, suffix)
+	path := leafPath(n)
 	if len(path) == 0 {
 		return nil, errors.New("update at the root path is not supported")
 	}
@@ -650,15 +645,18 @@ func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64 // Number of deleted leaves, excluding all 'meta' paths.
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		if leafPath(d)[0] != metadata.Root {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
-	if len(leaves) == 0 {
-		return nil
+	if deleted == 0 {
+		return leaves
 	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
@@ -787,6 +785,16 @@ func (t *Target) Reset() {
 	}
 }
 
+// leafPath returns the path at which the update in n is stored.
+func leafPath(n *pb.Notification) []string {
+	suffix := n.GetUpdate()[0].GetPath()
+	// If the notification is an atomic group of updates, store them under the prefix only.
+	if n.GetAtomic() {
+		suffix = nil
+	}
+	return joinPrefixAndPath(n.GetPrefix(), suffix)
+}
+
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	// <target> and <origin> are only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
-- 
2.43.0


From 48babb2156d87c620636100b7f7d6ae5bd176a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 08/27] fix: cache: record the latest timestamp of every
 accepted update

The latest timestamp was only recorded for notifications whose first update has
a path with elements that do not address the metadata, so updates that use the
deprecated encoding or whose path is all in the prefix were ignored, and only
after all updates of a notification were processed, so the future threshold
judged them differently from the same updates sent one at a time. It was also
read without holding its lock.
---
 cache/cache.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index f714f09..56e79c7 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -479,6 +465,8 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 	return nil
 }
 
+// checkTimestamp records ts, the timestamp of an accepted update excluding all
+// 'meta' paths, if it is the latest one from the device.
 func (t *Target) checkTimestamp(ts time.Time) {
 	// Locking ensures that d.ts is always increasing regardless of the order in
 	// which updates are processed in parallel by multiple goroutines.
@@ -490,6 +478,13 @@ func (t *Target) checkTimestamp(ts time.Time) {
 	}
 }
 
+// latestTimestamp returns the latest timestamp from the device.
+func (t *Target) latestTimestamp() time.Time {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.ts
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -555,13 +550,14 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
+			latest := t.latestTimestamp()
+			if latest.UnixNano() <= 0 {
 				// This is the first accepted update as t.ts is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -569,6 +565,9 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && !old.GetAtomic() && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -586,6 +585,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
@@ -692,10 +692,7 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
-	t.tsmu.Lock()
-	latest := t.ts
-	t.tsmu.Unlock()
-	t.meta.SetInt(metadata.LatestTimestamp, latest.UnixNano())
+	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
 	t.generateMetaUpdates(clients)
-- 
2.43.0


From d9bf327ceeae8ad69fb5a6a5d0f9ca95c57aff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 09/27] fix: cache: count every update of a rejected atomic
 notification

An accepted atomic notification counts each of its updates, a stale or future
one was counted as a single update.
---
 cache/cache.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 56e79c7..d6da825 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -537,7 +537,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		switch nts := T(n.GetTimestamp()); {
 		case n.GetTimestamp() < old.GetTimestamp():
 			// Update rejected. Timestamp < previous recorded timestamp.
-			t.meta.AddInt(metadata.StaleCount, 1)
+			t.meta.AddInt(metadata.StaleCount, int64(len(n.GetUpdate())))
 			return nil, ErrStale
 		case n.GetTimestamp() == old.GetTimestamp():
 			if !proto.Equal(old, n) {
@@ -546,7 +546,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				}
 				// Allow to continue to update the cache taking the last supplied value for this timestamp.
 			} else {
-				t.meta.AddInt(metadata.StaleCount, 1)
+				t.meta.AddInt(metadata.StaleCount, int64(len(n.GetUpdate())))
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
@@ -560,7 +560,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
-				t.meta.AddInt(metadata.FutureCount, 1)
+				t.meta.AddInt(metadata.FutureCount, int64(len(n.GetUpdate())))
 				return nil, ErrFuture
 			}
 		}
-- 
2.43.0


From cecb7aaf6360302fb0f3fc54822a3d8fa9936a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 10/27] fix: cache: do not write the state of a target from the
 metadata update

The periodic metadata update stored its copy of the sync, connected and string
values by applying them to the target again, which raced with the update stream
of the target and could revert a sync or connect that happened meanwhile. The
sync state was also accessed without synchronization.
---
 cache/cache.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index d6da825..7260e18 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -60,7 +60,6 @@ type Target struct {
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
-	sync            bool               // denotes whether this cache is in sync with target
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
@@ -510,8 +509,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -526,6 +524,18 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.meta.SetStr(path[1], tv.StringVal)
 		}
 	}
+	return t.store(path, n, realData)
+}
+
+// inSync reports whether this cache is in sync with the target.
+func (t *Target) inSync() bool {
+	sync, err := t.meta.GetBool(metadata.Sync)
+	return err == nil && sync
+}
+
+// store stores the update in n at path. realData tells whether n was sent by
+// the target, as opposed to 'meta' paths.
+func (t *Target) store(path []string, n *pb.Notification, realData bool) (*ctree.Leaf, error) {
 	// Update an existing leaf.
 	if oldval := t.t.GetLeaf(path); oldval != nil {
 		// An update with corrupt data is possible to visit a node that does not
@@ -574,7 +584,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.inSync() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -589,7 +599,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.inSync() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -710,7 +720,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		path := metadata.Path(value)
 		noti := metaNotiBool(t.name, value, v)
 		if metaChanged(t.t.GetLeafValue(path), noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti, false); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -729,7 +739,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		path := metadata.Path(value)
 		noti := metaNotiInt(t.name, value, v)
 		if metaChanged(t.t.GetLeafValue(path), noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti, false); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -748,7 +758,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		path := metadata.Path(value)
 		noti := metaNotiStr(t.name, value, v)
 		if metaChanged(t.t.GetLeafValue(path), noti) {
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti, false); n != nil {
 				if clients != nil {
 					clients(n)
 				}
-- 
2.43.0


From d914e4a0edd87e37662c750d71eeb95f7ea7a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 11/27] fix: latency: export statistics of zero and negative
 latencies

The maximum of latencies that are all negative was zero, the minimum skipped a
zero latency, and a statistic that is zero was not exported, leaving the value
of an earlier window in place.
---
 latency/latency.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/latency/latency.go b/latency/latency.go
index f7e372a..73d1e21 100644
--- a/latency/latency.go
+++ b/latency/latency.go
@@ -163,21 +163,20 @@ func (w *window) setAvg(name string, m Metadata) {
 		return
 	}
 	avg := w.total / time.Duration(w.count)
-	if n := avg.Nanoseconds(); n != 0 {
-		m.SetInt(name, n*w.sf)
-	}
+	m.SetInt(name, avg.Nanoseconds()*w.sf)
 }
 
 func (w *window) setMax(name string, m Metadata) {
-	var max time.Duration
-	for _, slot := range w.slots {
+	if len(w.slots) == 0 {
+		return
+	}
+	max := w.slots[0].max
+	for _, slot := range w.slots[1:] {
 		if slot.max > max {
 			max = slot.max
 		}
 	}
-	if n := max.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, max.Nanoseconds())
 }
 
 func (w *window) setMin(name string, m Metadata) {
@@ -190,9 +189,7 @@ func (w *window) setMin(name string, m Metadata) {
 			min = slot.min
 		}
 	}
-	if n := min.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, min.Nanoseconds())
 }
 
 func (w *window) slide(ts time.Time) {
@@ -292,10 +289,10 @@ func (l *Latency) Compute(ts time.Time) {
 	lat := l.compute(ts, nowTime)
 	l.totalDiff += lat / l.scaleFactor
 	l.count++
-	if lat > l.max {
+	if l.count == 1 || lat > l.max {
 		l.max = lat
 	}
-	if lat < l.min || l.min == 0 {
+	if l.count == 1 || lat < l.min {
 		l.min = lat
 	}
 	if l.start.IsZero() {
-- 
2.43.0


From 5b9fc031a1b5e32f255b28ec2aa693953775cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 12/27] fix: subscribe: do not share the query slices of a
 subscription

The queries of all paths of a subscription were appended to the same prefix
slice, so that removing them later removed the last query several times and
left the others registered after the end of the subscription.
---
 subscribe/subscribe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..e4f7a88 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -228,9 +228,10 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 		if p == nil {
 			continue
 		}
-		query := prefix
+		// Copy the prefix, which is shared by all queries.
+		query := append([]string(nil), prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-			query = append(prefix, origin)
+			query = append(query, origin)
 		}
 		query = append(query, path.ToStrings(p, false)...)
 		removes = append(removes, m.AddQuery(query, c))
-- 
2.43.0


From effdba851a8353f53191037e2b5fef6cdd394f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 13/27] fix: subscribe: offer a notification once to
 overlapping subscriptions

Clients were only tracked for notifications with several updates or deletes, so
a subscription with overlapping paths was offered other notifications once per
matching path, reporting updates as duplicates that never were.
---
 subscribe/subscribe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index e4f7a88..dceee3d 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,9 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client can match more than once, because of several paths in n or because
+	// of overlapping paths in its subscription.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From 867dc8267f51b21038c0569d513a16e01ff68372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 14/27] fix: subscribe: apply the send timeout to the sync
 response

A subscription whose sync response stayed blocked was never terminated.
---
 subscribe/subscribe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index dceee3d..b8d17e2 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -515,7 +515,11 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			// The timeout applies to this send as well.
+			t.Reset(s.o.timeout)
+			err = c.stream.Send(subscribeSync)
+			t.Stop()
+			if err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From ebc59aaa755304e3d189df3c22831d850c6e8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 15/27] fix: subscribe: stream updates for a subscription
 without a path

The initial snapshot treats a missing path as the root path, but no update was
streamed afterwards.
---
 subscribe/subscribe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index b8d17e2..5538851 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -223,10 +223,8 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	var removes []func()
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
+		// A missing path is the root path, as in the initial snapshot.
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		// Copy the prefix, which is shared by all queries.
 		query := append([]string(nil), prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-- 
2.43.0


From 298e9acb96fdf22c94732d2b7ba39ec24cf1d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 16/27] fix: honor an origin set in the path of an update

The origin of an update can be set in its path when the prefix has neither an
origin nor elements. Updates stored in the cache ignored it while the delete
announced for them used it, so subscribers kept deleted leaves, subscriptions
with the origin did not match and equal paths of different origins replaced
each other. The collector hid it by setting the default origin in the prefix.
---
 cache/cache.go                       | 15 +++++----
 client/gnmi/client.go                | 13 ++++++--
 cmd/gnmi_collector/BUILD.bazel       |  1 +
 cmd/gnmi_collector/gnmi_collector.go | 46 +++++++++++++++++++++++-----
 path/path.go                         | 11 +++++++
 subscribe/subscribe.go               | 11 +++++--
 6 files changed, 79 insertions(+), 18 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 7260e18..5087730 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -616,20 +616,20 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 		},
 	}
 	prefix := n.GetPrefix()
-	path := n.Update[0].GetPath()
+	suffix := n.Update[0].GetPath()
 	// Set origin if the origin is in the update
-	if origin := path.GetOrigin(); n.GetPrefix().GetOrigin() == "" && origin != "" {
+	if origin := path.UpdateOrigin(prefix, suffix); !n.GetAtomic() && origin != "" {
 		d.Prefix.Origin = origin
 	}
 	switch {
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
-	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(toElems(prefix), toElems(path)...)}}
+	case len(prefix.GetElem()) > 0 || len(suffix.GetElem()) > 0:
+		d.Delete = []*pb.Path{{Elem: append(toElems(prefix), toElems(suffix)...)}}
 	default:
 		var element []string
 		element = append(element, prefix.GetElement()...)
-		element = append(element, path.GetElement()...)
+		element = append(element, suffix.GetElement()...)
 		d.Delete = []*pb.Path{{Element: element}}
 	}
 	return d
@@ -803,9 +803,12 @@ func leafPath(n *pb.Notification) []string {
 }
 
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
-	// <target> and <origin> are only valid as prefix gnmi.Path
+	// <target> is only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
 	p := path.ToStrings(pr, true)
+	if o := path.UpdateOrigin(pr, ph); o != "" {
+		p = append(p, o)
+	}
 	p = append(p, path.ToStrings(ph, false)...)
 	// remove the prepended target name
 	p = p[1:]
diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..f72c29a 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -204,20 +204,27 @@ func (c *Client) defaultRecv(msg proto.Message) error {
 		}
 	case *gpb.SubscribeResponse_Update:
 		n := v.Update
-		p := path.ToStrings(n.Prefix, true)
+		prefix := path.ToStrings(n.Prefix, true)
+		// The origin can be set in a path instead of the prefix.
+		withOrigin := func(pp *gpb.Path) []string {
+			if o := path.UpdateOrigin(n.Prefix, pp); o != "" {
+				return append(prefix[:len(prefix):len(prefix)], o)
+			}
+			return prefix
+		}
 		ts := time.Unix(0, n.Timestamp)
 		for _, u := range n.Update {
 			if u.Path == nil {
 				return fmt.Errorf("invalid nil path in update: %v", u)
 			}
-			u, err := noti(p, u.Path, ts, u)
+			u, err := noti(withOrigin(u.Path), u.Path, ts, u)
 			if err != nil {
 				return err
 			}
 			c.handler(u)
 		}
 		for _, d := range n.Delete {
-			u, err := noti(p, d, ts, nil)
+			u, err := noti(withOrigin(d), d, ts, nil)
 			if err != nil {
 				return err
 			}
diff --git a/cmd/gnmi_collector/BUILD.bazel b/cmd/gnmi_collector/BUILD.bazel
index d6b6d28..ec289fa 100644
--- a/cmd/gnmi_collector/BUILD.bazel
+++ b/cmd/gnmi_collector/BUILD.bazel
@@ -10,6 +10,7 @@ go_library(
         "//collector",
         "//connection",
         "//manager",
+        "//path",
         "//proto/collector",
         "//proto/gnmi",
         "//proto/target",
diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..2254543 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -39,6 +39,7 @@ import (
 	coll "github.com/openconfig/gnmi/collector"
 	"github.com/openconfig/gnmi/connection"
 	"github.com/openconfig/gnmi/manager"
+	"github.com/openconfig/gnmi/path"
 	"github.com/openconfig/gnmi/subscribe"
 	"github.com/openconfig/gnmi/target"
 
@@ -187,14 +188,11 @@ func runCollector(ctx context.Context) error {
 			// the target itself doesn't report or incorrectly reports the target
 			// field. Also promote an empty origin field to 'openconfig', the default
 			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
-				}
-				prefix.Target = target
+			if v.GetPrefix() == nil {
+				v.Prefix = &gnmipb.Path{}
 			}
+			v.Prefix.Target = target
+			setDefaultOrigin(v)
 			if err := c.cache.GnmiUpdate(v); err != nil {
 				if log.V(2) {
 					log.Infof("dropped cache.Update(%#v): %v", v, err)
@@ -233,6 +231,40 @@ func runCollector(ctx context.Context) error {
 	return ctx.Err()
 }
 
+const defaultOrigin = "openconfig"
+
+// setDefaultOrigin sets the default origin in n where it has none. The origin
+// is set in the prefix unless some of the paths in n have one of their own.
+func setDefaultOrigin(n *gnmipb.Notification) {
+	if n.Prefix.Origin != "" {
+		return
+	}
+	pathOrigin := false
+	for _, u := range n.Update {
+		pathOrigin = pathOrigin || path.UpdateOrigin(n.Prefix, u.GetPath()) != ""
+	}
+	for _, d := range n.Delete {
+		pathOrigin = pathOrigin || path.UpdateOrigin(n.Prefix, d) != ""
+	}
+	if !pathOrigin || n.Atomic {
+		n.Prefix.Origin = defaultOrigin
+		return
+	}
+	for _, u := range n.Update {
+		if u.GetPath() == nil {
+			u.Path = &gnmipb.Path{}
+		}
+		if u.Path.Origin == "" {
+			u.Path.Origin = defaultOrigin
+		}
+	}
+	for _, d := range n.Delete {
+		if d.Origin == "" {
+			d.Origin = defaultOrigin
+		}
+	}
+}
+
 // Struct for managing the dynamic creation of tunnel targets.
 type tunnTarget struct {
 	conf *tpb.Target
diff --git a/path/path.go b/path/path.go
index 04c659d..ec4bc1f 100644
--- a/path/path.go
+++ b/path/path.go
@@ -91,6 +91,17 @@ func sortedVals(m map[string]string) []string {
 	return vs
 }
 
+// UpdateOrigin returns the origin set in path, the path of an update or a
+// delete of a notification with the given prefix. It is empty if the origin in
+// path can not be used because prefix sets an origin or path elements, see
+// https://github.com/openconfig/reference/blob/master/rpc/gnmi/mixed-schema.md
+func UpdateOrigin(prefix, path *gpb.Path) string {
+	if prefix.GetOrigin() != "" || len(prefix.GetElem()) > 0 || len(prefix.GetElement()) > 0 {
+		return ""
+	}
+	return path.GetOrigin()
+}
+
 // CompletePath joins provided prefix and subscription paths. Also, verifies
 // whether origin is set properly according to:
 // https://github.com/openconfig/reference/blob/master/rpc/gnmi/mixed-schema.md
diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 5538851..bdbe2bd 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -170,11 +170,18 @@ func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefi
 	// A client can match more than once, because of several paths in n or because
 	// of overlapping paths in its subscription.
 	updated := make(map[match.Client]struct{})
+	fullPath := func(p *pb.Path) []string {
+		full := append([]string(nil), prefix...)
+		if o := path.UpdateOrigin(n.Prefix, p); o != "" {
+			full = append(full, o)
+		}
+		return append(full, path.ToStrings(p, false)...)
+	}
 	for _, u := range n.Update {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
+		m.UpdateOnce(v, fullPath(u.Path), updated)
 	}
 	for _, d := range n.Delete {
-		m.UpdateOnce(v, append(prefix, path.ToStrings(d, false)...), updated)
+		m.UpdateOnce(v, fullPath(d), updated)
 	}
 }
 
-- 
2.43.0


From 4f94888c9d318cad72692ec0256f9a2253daa9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 17/27] fix: gnmi_collector: add targets to the cache

The targets were never added to the cache, so that all their updates were
dropped. The callback that forwards updates to subscribers has to be set before
targets are started.
---
 cmd/gnmi_collector/gnmi_collector.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 2254543..e1bba60 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -209,16 +209,17 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
 	subscribeSrv, _ := subscribe.NewServer(c.cache)
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
-	// Forward streaming updates to clients.
+	// Forward streaming updates to clients. This must precede any update.
 	c.cache.SetClient(subscribeSrv.Update)
+
+	// Initialize collectors.
+	c.start(context.Background())
+
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
@@ -296,7 +297,10 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache only accepts updates for targets known to it.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From c098fd648277097ba046985b2afb68b7f97dd28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 18/27] fix: gnmi_cli: use the request read from -proto_file

The Subscribe request was always parsed from the -proto flag.
---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From a4462df4a91c0163e57b379a9b74ba6e25cd1226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 19/27] fix: cli: do not panic when displaying a value at the
 root path

---
 cli/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..320b068 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,6 +404,10 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// The value of the root path, which has no name.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
-- 
2.43.0


From 19d7ff000ea23d2b4dd29bcd765bdcb9d8c37b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 20/27] fix: cli: do not display leaves that a poll no longer
 returns

---
 cli/cli.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 320b068..d25d439 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -291,6 +291,8 @@ func displayPollingResults(ctx context.Context, query client.Query, cfg *Config)
 	defer c.Close()
 	header := false
 	for !countComplete(cfg) {
+		// Each poll returns the complete result, do not keep what is gone.
+		c.Delete(nil)
 		if err := c.Poll(); err != nil {
 			return fmt.Errorf("client.Poll(): %v", err)
 		}
-- 
2.43.0


From bf7a3a6b56eeaebf4a071257ddfc37def63b66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 21/27] fix: client/gnmi: keep a final query element that ends
 with a slash

The final element of such a query was dropped, so the query matched the whole
parent.
---
 client/gnmi/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index f72c29a..70bd63e 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -331,5 +331,11 @@ func pathToString(q client.Path) string {
 	for i, e := range qq {
 		qq[i] = strings.Replace(e, "/", "\\/", -1)
 	}
-	return strings.Join(qq, "/")
+	s := strings.Join(qq, "/")
+	if strings.HasSuffix(s, "/") && len(q[len(q)-1]) > 0 {
+		// ygot.StringToPath drops what precedes a final slash even if it is escaped,
+		// unless another one follows.
+		s += "/"
+	}
+	return s
 }
-- 
2.43.0


From e0874aac8d4db33f6aa9a63d95c3173462b7d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 22/27] fix: announce the changes of a target in the order in
 which they are stored

A writer could store an update below a concurrent delete or reset and announce
it before the delete, or update a leaf that another one had just removed, so
that subscribers ended up with other leaves than the cache.
---
 cache/cache.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 5087730..6a4adef 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -58,6 +58,7 @@ var (
 // A Target hosts an indexed cache of state for a single target.
 type Target struct {
 	name            string             // name of the target
+	mu              sync.Mutex         // held while a change is stored and passed to client, so that client sees changes in the order in which they are stored
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
 	meta            *metadata.Metadata // metadata associated with target
@@ -383,6 +384,8 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
+	defer t.mu.Unlock()
+	t.mu.Lock()
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -702,6 +705,13 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
+	defer t.mu.Unlock()
+	t.mu.Lock()
+	t.updateMetaLocked(clients)
+}
+
+// updateMetaLocked is updateMeta for callers that hold t.mu.
+func (t *Target) updateMetaLocked(clients func(*ctree.Leaf)) {
 	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
@@ -778,11 +788,13 @@ func metaChanged(prev interface{}, noti *pb.Notification) bool {
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
+	defer t.mu.Unlock()
+	t.mu.Lock()
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
 	t.meta.Clear()
-	t.updateMeta(t.client)
+	t.updateMetaLocked(t.client)
 	for root := range t.t.Children() {
 		if root == metadata.Root {
 			continue
-- 
2.43.0


From 3af641f17b43ba583a8911f320aaf5fa3ef0248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 23/27] fix: announce nothing of a target after its removal

An update in progress while its target was removed was passed to subscribers
after the delete of the target, and stayed in their view.
---
 cache/cache.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 6a4adef..49b78ec 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -59,6 +59,7 @@ var (
 type Target struct {
 	name            string             // name of the target
 	mu              sync.Mutex         // held while a change is stored and passed to client, so that client sees changes in the order in which they are stored
+	removed         bool               // whether the target was removed from the cache, protected by mu
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
 	meta            *metadata.Metadata // metadata associated with target
@@ -318,6 +319,13 @@ func (c *Cache) Reset(target string) {
 
 // Remove removes the space in c corresponding to the specified target.
 func (c *Cache) Remove(target string) {
+	// Wait for updates in progress and refuse later ones, so that none is passed
+	// to clients after the removal.
+	if t := c.GetTarget(target); t != nil {
+		t.mu.Lock()
+		t.removed = true
+		t.mu.Unlock()
+	}
 	defer c.mu.Unlock()
 	c.mu.Lock()
 	delete(c.targets, target)
@@ -386,6 +394,9 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.removed {
+		return fmt.Errorf("target %q not found in cache", t.name)
+	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -790,6 +801,9 @@ func metaChanged(prev interface{}, noti *pb.Notification) bool {
 func (t *Target) Reset() {
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.removed {
+		return
+	}
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
-- 
2.43.0


From 2a1e968d5f8586546cd3e98960563ccc03444870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 24/27] fix: end a STREAM subscription to a target that is
 removed while it starts

The delete of the target was announced before the subscription was registered,
so that the stream stayed open.
---
 subscribe/subscribe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index bdbe2bd..1f56a25 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -316,6 +316,10 @@ func (s *Server) Subscribe(stream pb.GNMI_SubscribeServer) error {
 		remove := addSubscription(s.m, c.sr.GetSubscribe(),
 			&matchClient{acl: c.acl, q: c.queue})
 		defer remove()
+		// A removal of the target is only seen from here on.
+		if !s.c.HasTarget(c.target) {
+			return status.Errorf(codes.NotFound, "no such target: %q", c.target)
+		}
 		if !c.sr.GetSubscribe().GetUpdatesOnly() {
 			go s.processSubscription(&c)
 		}
-- 
2.43.0


From 054044050f35b564e7db36475a8d2bde58dd0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 25/27] fix: ctree: read a leaf value while the leaf is part of
 the tree

---
 ctree/tree.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 1336cc4..9d196c6 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -214,7 +214,21 @@ func (t *Tree) Get(path []string) *Tree {
 // GetLeafValue returns the leaf value if path points to a leaf in t, nil otherwise. All
 // nodes in path must be fully specified with no globbing (*).
 func (t *Tree) GetLeafValue(path []string) interface{} {
-	return t.Get(path).Value()
+	// The locks on all ancestors are held until the value is read, so that the
+	// leaf can not have been deleted meanwhile.
+	defer t.mu.RUnlock()
+	t.mu.RLock()
+	b, ok := t.leafBranch.(branch)
+	if len(path) == 0 {
+		if ok {
+			return nil
+		}
+		return t.leafBranch
+	}
+	if br := b[path[0]]; br != nil {
+		return br.GetLeafValue(path[1:])
+	}
+	return nil
 }
 
 // GetLeaf returns the leaf node if path points to a leaf in t, nil otherwise. All
-- 
2.43.0


From 002efd08049622846d203d0968634999c1ed74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 26/27] fix: client: do not run a subscription that was
 cancelled while it was set up

---
 client/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/client.go b/client/client.go
index 007bc68..adf231a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -138,6 +138,13 @@ func (c *BaseClient) Subscribe(ctx context.Context, q Query, clientType ...strin
 	}
 
 	c.mu.Lock()
+	// A client that is closed while it subscribes cancels ctx before it closes
+	// clientImpl, which does not yet include impl.
+	if err := ctx.Err(); err != nil {
+		c.mu.Unlock()
+		impl.Close()
+		return err
+	}
 	c.query = q
 	if c.clientImpl != nil {
 		c.clientImpl.Close()
-- 
2.43.0


From 6dd6d16440c95ee63ab08549870709cfa2cbbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 27/27] fix: client: start reconnecting with RetryBaseDelay

---
 client/reconnect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/reconnect.go b/client/reconnect.go
index 69aea20..bc04f03 100644
--- a/client/reconnect.go
+++ b/client/reconnect.go
@@ -73,6 +73,7 @@ func Reconnect(c Client, disconnect, reset func()) *ReconnectClient {
 	e.InitialInterval = RetryBaseDelay
 	e.MaxInterval = RetryMaxDelay
 	e.RandomizationFactor = RetryRandomization
+	e.Reset() // Start with RetryBaseDelay rather than with the default.
 	return &ReconnectClient{Client: c, backoff: e, disconnect: disconnect, reset: reset}
 }
 
-- 
2.43.0

