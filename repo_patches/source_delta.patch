From 6c7e3859c838623557b6cfbc41bd676c65a6c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 01/24] fix: ctree delete no longer removes a leaf when the
 pattern extends past it

A glob that reached a leaf with path elements left over ("a/*/b" on leaf
"a") deleted the leaf, although Query does not report it for that path.
---
 ctree/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..0f3ed6a 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -387,6 +387,11 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
 		default:
+			// The remaining subpath extends past this leaf: it does not match, as in
+			// Query.
+			if len(subpath) != 0 {
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
-- 
2.43.0


From f301df61ade59ebd0396dfd9cae539053360ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 02/24] fix: ctree delete on an empty tree removes nothing

The root of an empty Tree was treated as a leaf with a nil value: the
condition was called with nil (a panic for conditions that assert the
stored type, e.g. a wildcard delete for a target without data) and an
empty path was returned as deleted.
---
 ctree/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 0f3ed6a..33cb919 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -351,6 +351,9 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return // Empty Tree, nothing to delete.
+	}
 	if delBr, _ := t.internalDelete(path, condition, f, false); delBr {
 		t.leafBranch = nil
 	}
@@ -441,6 +444,9 @@ func (t *Tree) DeleteConditional(subpath []string, condition func(interface{}) b
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		return nil // Empty Tree, nothing to delete.
+	}
 	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
 	if delBr {
 		t.leafBranch = nil
-- 
2.43.0


From 20c6790105b25ddca0e0781b7535f90ef1e6ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 03/24] fix: ctree delete locks the nodes it inspects, so it
 does not race with updates through a retained Leaf

---
 ctree/tree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index 33cb919..2f12456 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -347,8 +347,8 @@ func (t *Tree) WalkSorted(f VisitFunc) error {
 // condition function and calls function f on every removed node.
 func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f func(interface{})) {
 	// It is possible that a single delete operation will remove the whole Tree,
-	// so only the top level write lock is obtained to prevent concurrent accesses
-	// to the entire Tree.
+	// so the top level write lock is obtained to prevent concurrent accesses to
+	// the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
 	if t.leafBranch == nil {
@@ -365,6 +365,10 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 // a slice of subpaths ([]string) for all leaves deleted thus far if
 // retDeletedPaths is true. If retDeletedPaths is false, the returned slice
 // of subpaths is nil.
+//
+// The caller holds the write lock of t. The lock of the root already excludes
+// all operations that start at the root; the nodes below are locked as well
+// because a retained Leaf (or sub-Tree) is used without the root lock.
 func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), retDeletedPaths bool) (bool, [][]string) {
 	if len(subpath) == 0 || subpath[0] == "*" {
 		if len(subpath) != 0 {
@@ -377,7 +381,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
+				v.mu.Lock()
 				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				v.mu.Unlock()
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -410,7 +416,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
+			br.mu.Lock()
 			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			br.mu.Unlock()
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
@@ -440,8 +448,8 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 // DeleteConditional prevents all other concurrent access.
 func (t *Tree) DeleteConditional(subpath []string, condition func(interface{}) bool) [][]string {
 	// It is possible that a single delete operation will remove the whole Tree,
-	// so only the top level write lock is obtained to prevent concurrent accesses
-	// to the entire Tree.
+	// so the top level write lock is obtained to prevent concurrent accesses to
+	// the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
 	if t.leafBranch == nil {
-- 
2.43.0


From 19b50b596419c1278fea3e9bb31f77da56adf0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 04/24] fix: offer a notification to a subscriber once even if
 several of its queries match one path

---
 subscribe/subscribe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..504de8d 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,9 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client is updated once per notification, also if several of its queries
+	// match a single path.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From 02339601ab5ef78719b031422ed2d6fd2bb6a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 05/24] fix: subscriptions of one request do not share the
 array of their query, so each is removed again

---
 subscribe/subscribe.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 504de8d..e3d8aa9 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -227,9 +227,11 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 		if p == nil {
 			continue
 		}
-		query := prefix
+		// The query is retained by the remove function, so it must not share its
+		// underlying array with the queries of other subscriptions.
+		query := append([]string{}, prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-			query = append(prefix, origin)
+			query = append(query, origin)
 		}
 		query = append(query, path.ToStrings(p, false)...)
 		removes = append(removes, m.AddQuery(query, c))
-- 
2.43.0


From e8374a8b580970d64fd68fd8591449f77bc7804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 06/24] fix: value conversion and comparison tolerate missing
 values

---
 value/value.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From 9639a9393baa0a2ad323f494c2c4488655c548ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 07/24] fix: client query paths keep a last element that ends
 in a slash

---
 client/gnmi/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..36e58d9 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -324,5 +324,11 @@ func pathToString(q client.Path) string {
 	for i, e := range qq {
 		qq[i] = strings.Replace(e, "/", "\\/", -1)
 	}
-	return strings.Join(qq, "/")
+	s := strings.Join(qq, "/")
+	if n := len(q); n > 0 && strings.HasSuffix(q[n-1], "/") {
+		// ygot.StringToPath drops the element ahead of a final slash even if the
+		// slash is escaped. Terminate the path so that it drops an empty element.
+		s += "/"
+	}
+	return s
 }
-- 
2.43.0


From 86a606a5b19b0ad929272bfb8f66b852cb5baaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 08/24] fix: record the latest timestamp of every accepted
 update, whatever its path encoding

---
 cache/cache.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..2bbc045 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -568,6 +554,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			// Record latest timestamp from the device, excluding all 'meta' paths.
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -585,6 +575,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-- 
2.43.0


From 3f0c35ed254a0ef66b110e05680499948cebfc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 09/24] fix: delete notifications of removed leaves keep all
 path elements and do not write into a shared prefix

---
 cache/cache.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 2bbc045..462e765 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -605,13 +605,27 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(toElem(prefix), toElem(path)...)}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		// The prefix may be shared with other notifications, do not append to it.
+		d.Delete = []*pb.Path{{Element: append(append([]string{}, prefix.GetElement()...), path.GetElement()...)}}
 	}
 	return d
 }
 
+// toElem returns the elements of p in a new slice, converted to gnmi.PathElem
+// if p uses the deprecated gnmi.Path.Element.
+func toElem(p *pb.Path) []*pb.PathElem {
+	if len(p.GetElem()) > 0 {
+		return append([]*pb.PathElem{}, p.GetElem()...)
+	}
+	es := make([]*pb.PathElem, 0, len(p.GetElement()))
+	for _, e := range p.GetElement() {
+		es = append(es, &pb.PathElem{Name: e})
+	}
+	return es
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if path[0] == metadata.Root {
-- 
2.43.0


From b686eaacc6b4cd786b819f1dedd7a34acbbe22ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 10/24] fix: an update that replaces an atomic group is not
 suppressed as unchanged

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 462e765..97bfa0f 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -559,7 +559,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.checkTimestamp(T(n.GetTimestamp()))
 		}
 		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From 5aeb7a87d38bff26b48992e09dd0f512a7188bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 11/24] fix: deleting metadata leaves does not change the leaf
 counters

---
 cache/cache.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 97bfa0f..1109afc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -484,12 +484,7 @@ func (t *Target) resetTimestamp() {
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	realData := true
-	suffix := n.Update[0].Path
-	// If the notification is an atomic group of updates, store them under the prefix only.
-	if n.Atomic {
-		suffix = nil
-	}
-	path := joinPrefixAndPath(n.Prefix, suffix)
+	path := leafPath(n)
 	if path[0] == metadata.Root {
 		realData = false
 		u := n.Update[0]
@@ -632,15 +627,19 @@ func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		// Leaves of the metadata subtree are not counted when they are added.
+		if leafPath(d)[0] != metadata.Root {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
 	if len(leaves) == 0 {
 		return nil
 	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
@@ -764,6 +763,16 @@ func (t *Target) Reset() {
 	}
 }
 
+// leafPath returns the path under which n is stored.
+func leafPath(n *pb.Notification) []string {
+	suffix := n.Update[0].Path
+	// If the notification is an atomic group of updates, store them under the prefix only.
+	if n.Atomic {
+		suffix = nil
+	}
+	return joinPrefixAndPath(n.Prefix, suffix)
+}
+
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	// <target> and <origin> are only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
-- 
2.43.0


From 2ef6d70d24d11859112c4705bb95ccc5be40b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 12/24] fix: metadata refresh does not write back the target's
 sync and connection state

---
 cache/cache.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 1109afc..b38dfce 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -483,10 +483,8 @@ func (t *Target) resetTimestamp() {
 }
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
-	realData := true
 	path := leafPath(n)
 	if path[0] == metadata.Root {
-		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
@@ -511,6 +509,12 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			t.meta.SetStr(path[1], tv.StringVal)
 		}
 	}
+	return t.store(path, n)
+}
+
+// store stores n in the tree at path.
+func (t *Target) store(path []string, n *pb.Notification) (*ctree.Leaf, error) {
+	realData := path[0] != metadata.Root
 	// Update an existing leaf.
 	if oldval := t.t.GetLeaf(path); oldval != nil {
 		// An update with corrupt data is possible to visit a node that does not
@@ -559,7 +563,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.sync {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -684,6 +688,8 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// generateMetaUpdates writes the metadata to the tree. It may run concurrently
+// with the updates of the target and so leaves the state of the target alone.
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -697,7 +703,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
 			noti := metaNotiBool(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -717,7 +723,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
 			noti := metaNotiInt(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -737,7 +743,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		prev := t.t.GetLeafValue(path)
 		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
 			noti := metaNotiStr(t.name, value, v)
-			if n, _ := t.gnmiUpdate(noti); n != nil {
+			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
 					clients(n)
 				}
@@ -752,6 +758,7 @@ func (t *Target) Reset() {
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
+	t.sync = false
 	t.meta.Clear()
 	t.updateMeta(t.client)
 	for root := range t.t.Children() {
-- 
2.43.0


From 1a4336b74ae107510aba36f82c9dcbb7f8f8aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 13/24] fix: latency statistics of zero and negative latencies
 are exported truthfully

---
 latency/latency.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/latency/latency.go b/latency/latency.go
index f7e372a..b3901ab 100644
--- a/latency/latency.go
+++ b/latency/latency.go
@@ -163,21 +163,20 @@ func (w *window) setAvg(name string, m Metadata) {
 		return
 	}
 	avg := w.total / time.Duration(w.count)
-	if n := avg.Nanoseconds(); n != 0 {
-		m.SetInt(name, n*w.sf)
-	}
+	m.SetInt(name, avg.Nanoseconds()*w.sf)
 }
 
 func (w *window) setMax(name string, m Metadata) {
-	var max time.Duration
-	for _, slot := range w.slots {
+	if len(w.slots) == 0 {
+		return
+	}
+	max := w.slots[0].max
+	for _, slot := range w.slots[1:] {
 		if slot.max > max {
 			max = slot.max
 		}
 	}
-	if n := max.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, max.Nanoseconds())
 }
 
 func (w *window) setMin(name string, m Metadata) {
@@ -190,9 +189,7 @@ func (w *window) setMin(name string, m Metadata) {
 			min = slot.min
 		}
 	}
-	if n := min.Nanoseconds(); n != 0 {
-		m.SetInt(name, n)
-	}
+	m.SetInt(name, min.Nanoseconds())
 }
 
 func (w *window) slide(ts time.Time) {
@@ -291,13 +288,13 @@ func (l *Latency) Compute(ts time.Time) {
 	nowTime := Now()
 	lat := l.compute(ts, nowTime)
 	l.totalDiff += lat / l.scaleFactor
-	l.count++
-	if lat > l.max {
+	if lat > l.max || l.count == 0 {
 		l.max = lat
 	}
-	if lat < l.min || l.min == 0 {
+	if lat < l.min || l.count == 0 {
 		l.min = lat
 	}
+	l.count++
 	if l.start.IsZero() {
 		l.start = nowTime
 	}
-- 
2.43.0


From b0940c5b97a9633cc79fb9f64afbb034f1754459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 14/24] fix: updates and deletes with an empty path or the
 metadata root as path do not panic

---
 cache/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index b38dfce..02013f2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -484,6 +484,10 @@ func (t *Target) resetTimestamp() {
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	path := leafPath(n)
+	// A leaf needs a path, and the root of the metadata subtree is not a leaf.
+	if len(path) == 0 || len(path) == 1 && path[0] == metadata.Root {
+		return nil, fmt.Errorf("update with an invalid path %q", path)
+	}
 	if path[0] == metadata.Root {
 		u := n.Update[0]
 		switch path[1] {
@@ -627,7 +631,7 @@ func toElem(p *pb.Path) []*pb.PathElem {
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
-- 
2.43.0


From 2b9e2cab4aba059f74e6544f2e0c00cd3f7ddea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 15/24] fix: metadata leaves of a target with a missing or
 mistyped value do not panic

---
 cache/cache.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 02013f2..2343d8f 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -493,20 +493,20 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -705,7 +705,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
+		if tv, ok := metaValue(prev).(*pb.TypedValue_BoolVal); !ok || tv.BoolVal != v {
 			noti := metaNotiBool(t.name, value, v)
 			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
@@ -725,7 +725,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
+		if tv, ok := metaValue(prev).(*pb.TypedValue_IntVal); !ok || tv.IntVal != v {
 			noti := metaNotiInt(t.name, value, v)
 			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
@@ -745,7 +745,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		}
 		path := metadata.Path(value)
 		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
+		if tv, ok := metaValue(prev).(*pb.TypedValue_StringVal); !ok || tv.StringVal != v {
 			noti := metaNotiStr(t.name, value, v)
 			if n, _ := t.store(path, noti); n != nil {
 				if clients != nil {
@@ -756,6 +756,16 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	}
 }
 
+// metaValue returns the value of a stored metadata notification, nil if there
+// is none.  A target may have stored a value of any type.
+func metaValue(n interface{}) interface{} {
+	noti, ok := n.(*pb.Notification)
+	if !ok || len(noti.GetUpdate()) == 0 {
+		return nil
+	}
+	return noti.GetUpdate()[0].GetVal().GetValue()
+}
+
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
-- 
2.43.0


From 0bfb06277930e55181a1094305aee6c8eeffef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 16/24] fix: the CLI displays a leaf with an empty path instead
 of panicking

---
 cli/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..2c3ce91 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,6 +404,10 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// The value of the root has no name.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
-- 
2.43.0


From 6c347669bf05fa7b81545bbc59b01241253da03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 17/24] fix: streaming subscriptions without a path receive
 updates

---
 subscribe/subscribe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index e3d8aa9..11649d6 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -223,10 +223,8 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	var removes []func()
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
+		// An absent path is the path of the prefix, as for the initial walk.
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		// The query is retained by the remove function, so it must not share its
 		// underlying array with the queries of other subscriptions.
 		query := append([]string{}, prefix...)
-- 
2.43.0


From 4bcea71aa39389b711558af565335a18dae3bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 18/24] fix: clients see the changes of a target in the order
 they are made

---
 cache/cache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 2343d8f..f50cab0 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -68,6 +68,7 @@ type Target struct {
 	excludedMeta    stringset.Set      // set of metadata not to generate update for
 	futureThreshold time.Duration      // how far in the future an update can be accepted
 	eventDriven     bool               // whether to emulate event driven
+	feedMu          sync.Mutex         // clients see changes in the order they are made
 }
 
 // Name returns the name of the target.
@@ -213,7 +214,11 @@ func (c *Cache) Metadata() map[string]*metadata.Metadata {
 // UpdateMetadata copies the current metadata for each target cache to the
 // metadata path within each target cache.
 func (c *Cache) UpdateMetadata() {
-	c.updateCache((*Target).updateMeta)
+	c.updateCache(func(t *Target, clients func(*ctree.Leaf)) {
+		t.feedMu.Lock()
+		defer t.feedMu.Unlock()
+		t.updateMeta(clients)
+	})
 }
 
 // ConnectError updates the target's metadata with the provided error.
@@ -384,6 +389,8 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
+	t.feedMu.Lock()
+	defer t.feedMu.Unlock()
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -769,6 +776,8 @@ func metaValue(n interface{}) interface{} {
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
+	t.feedMu.Lock()
+	defer t.feedMu.Unlock()
 	// Clear latest timestamp received from device.
 	t.resetTimestamp()
 	// Reset metadata to zero values (e.g. connected = false) and notify clients.
-- 
2.43.0


From 699c0c165efbe396f905d9680cfffe8c45e33d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 19/24] fix: the send timeout covers the sync marker

---
 subscribe/subscribe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 11649d6..66e798d 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -514,10 +514,13 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
+			// The timeout covers this send like any other.
+			t.Reset(s.o.timeout)
 			if err = c.stream.Send(subscribeSync); err != nil {
 				c.errC <- err
 				return
 			}
+			t.Stop()
 			continue
 		}
 
-- 
2.43.0


From 58eb218b9bb706a1ee35b7786b05b4996b8b0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 20/24] fix: the collector registers its targets with the cache
 and forwards updates before they stream

---
 cmd/gnmi_collector/gnmi_collector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..8015cb6 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -211,9 +211,6 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
@@ -221,6 +218,9 @@ func runCollector(ctx context.Context) error {
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
 	// Forward streaming updates to clients.
 	c.cache.SetClient(subscribeSrv.Update)
+	// Initialize collectors. The targets stream only once their updates are
+	// forwarded.
+	c.start(context.Background())
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
@@ -264,7 +264,10 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache only accepts updates and subscriptions for the targets it knows.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From 07b245cbcba45e38980c0c14d483ecc952f0d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 21/24] fix: the collector relays updates and deletes under the
 origin of their paths

---
 cmd/gnmi_collector/gnmi_collector.go | 77 +++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 8015cb6..f8846ac 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -35,6 +35,7 @@ import (
 	"github.com/openconfig/grpctunnel/dialer"
 	"github.com/openconfig/grpctunnel/tunnel"
 	"google.golang.org/protobuf/encoding/prototext"
+	"google.golang.org/protobuf/proto"
 	"github.com/openconfig/gnmi/cache"
 	coll "github.com/openconfig/gnmi/collector"
 	"github.com/openconfig/gnmi/connection"
@@ -113,6 +114,52 @@ func (cd *unimplementedCredentials) Lookup(_ context.Context, key string) (strin
 	return "", fmt.Errorf("credentials lookup not implemented for key: %q", key)
 }
 
+// splitOrigins returns v as one notification for each origin of its paths, with
+// that origin in the prefix, where the cache takes it from. The origin of a path
+// is only meaningful if the prefix has none.
+func splitOrigins(v *gnmipb.Notification) []*gnmipb.Notification {
+	var origins bool
+	for _, u := range v.GetUpdate() {
+		origins = origins || u.GetPath().GetOrigin() != ""
+	}
+	for _, d := range v.GetDelete() {
+		origins = origins || d.GetOrigin() != ""
+	}
+	if !origins || v.GetPrefix().GetOrigin() != "" {
+		return []*gnmipb.Notification{v}
+	}
+	var split []*gnmipb.Notification
+	byOrigin := map[string]*gnmipb.Notification{}
+	// take moves the origin of path p to the notification returned.
+	take := func(p *gnmipb.Path) *gnmipb.Notification {
+		o := p.GetOrigin()
+		if p != nil {
+			p.Origin = ""
+		}
+		n, ok := byOrigin[o]
+		if !ok {
+			prefix := &gnmipb.Path{}
+			if v.GetPrefix() != nil {
+				prefix = proto.Clone(v.GetPrefix()).(*gnmipb.Path)
+			}
+			prefix.Origin = o
+			n = &gnmipb.Notification{Timestamp: v.GetTimestamp(), Prefix: prefix, Atomic: v.GetAtomic()}
+			byOrigin[o] = n
+			split = append(split, n)
+		}
+		return n
+	}
+	for _, d := range v.GetDelete() {
+		n := take(d)
+		n.Delete = append(n.Delete, d)
+	}
+	for _, u := range v.GetUpdate() {
+		n := take(u.GetPath())
+		n.Update = append(n.Update, u)
+	}
+	return split
+}
+
 // Under normal conditions, this function will not terminate.  Cancelling
 // the context will stop the collector.
 func runCollector(ctx context.Context) error {
@@ -183,21 +230,23 @@ func runCollector(ctx context.Context) error {
 		ConnectionManager: c.cm,
 		Timeout:           *dialTimeout,
 		Update: func(target string, v *gnmipb.Notification) {
-			// Explicitly set all updates as having come from this target even if
-			// the target itself doesn't report or incorrectly reports the target
-			// field. Also promote an empty origin field to 'openconfig', the default
-			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
+			for _, n := range splitOrigins(v) {
+				// Explicitly set all updates as having come from this target even if
+				// the target itself doesn't report or incorrectly reports the target
+				// field. Also promote an empty origin field to 'openconfig', the default
+				// origin for gNMI.
+				if prefix := n.GetPrefix(); prefix == nil {
+					n.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
+				} else {
+					if prefix.Origin == "" {
+						prefix.Origin = "openconfig"
+					}
+					prefix.Target = target
 				}
-				prefix.Target = target
-			}
-			if err := c.cache.GnmiUpdate(v); err != nil {
-				if log.V(2) {
-					log.Infof("dropped cache.Update(%#v): %v", v, err)
+				if err := c.cache.GnmiUpdate(n); err != nil {
+					if log.V(2) {
+						log.Infof("dropped cache.Update(%#v): %v", n, err)
+					}
 				}
 			}
 		},
-- 
2.43.0


From 1b3903bbcd376e195fdc6dbe078b90fd0c54e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 22/24] fix: gnmi_cli subscribes with the request of
 -proto_file

---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From 390c4894242de445a5529e7219797baaf6f596a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 23/24] fix: a poll of the caching client drops the leaves that
 are gone

---
 client/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/cache.go b/client/cache.go
index cd2efbd..67f191d 100644
--- a/client/cache.go
+++ b/client/cache.go
@@ -90,6 +90,8 @@ func (c *CacheClient) Poll() error {
 		close(c.synced)
 	case <-c.synced:
 	}
+	// The response is the whole state: leaves that are not part of it are gone.
+	c.Delete(nil)
 	return c.BaseClient.Poll()
 }
 
-- 
2.43.0


From e423504d5c41a8b876e8c9841dd4591a1a8aa1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 24/24] fix: an atomic notification replaces what the client
 has below its prefix

---
 client/gnmi/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 36e58d9..1c87da5 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -206,6 +206,10 @@ func (c *Client) defaultRecv(msg proto.Message) error {
 		n := v.Update
 		p := path.ToStrings(n.Prefix, true)
 		ts := time.Unix(0, n.Timestamp)
+		if n.Atomic {
+			// The updates replace everything below the prefix.
+			c.handler(client.Delete{Path: append(client.Path{}, p...), TS: ts})
+		}
 		for _, u := range n.Update {
 			if u.Path == nil {
 				return fmt.Errorf("invalid nil path in update: %v", u)
-- 
2.43.0

