From 6bca56748d6baa894391977b1f13201699c21531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 01/18] fix: GenMap.LoadOrStore returns the value it stored

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0


From 4c9d810c57b03fe434920d18f7b63ae352170b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 02/18] fix: Set.IsSupperSet is true exactly when s includes
 set

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From 60345834838e93ea9238df9ca0f5660cd54b8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 03/18] fix: Vec.Cut returns the removed elements instead of a
 view that the removal overwrites

---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From bcbc7ad305e8b26f8cdf3eeb923696d117f72d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:00 +0000
Subject: [PATCH 04/18] fix: Vec's default comparators follow pointer elements
 instead of panicking

---
 vec/vec.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..acbb21d 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -34,6 +34,11 @@ func New[T any](conf ...VecConf[T]) *Vec[T] {
 	return v
 }
 
+// valueOf returns the value to compare, following one pointer: pointer elements are compared by what they point to.
+func valueOf(v any) reflect.Value {
+	return reflect.Indirect(reflect.ValueOf(v))
+}
+
 func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	if v.cmpLess != nil {
 		return v
@@ -45,19 +50,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return valueOf(a).Int() < valueOf(b).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return valueOf(a).Uint() < valueOf(b).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return valueOf(a).Float() < valueOf(b).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(valueOf(a).String(), valueOf(b).String())
 		}
 
 	default:
@@ -77,19 +82,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return valueOf(a).Int() == valueOf(b).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return valueOf(a).Uint() == valueOf(b).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return valueOf(a).Float() == valueOf(b).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return valueOf(a).String() == valueOf(b).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From 3cbf6e35214498c5c96729f4989ca83f54b81fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 05/18] fix: Vec's default float order puts NaNs first, as Sort
 documents

---
 vec/vec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index acbb21d..e17a0f5 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -58,7 +58,8 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return valueOf(a).Float() < valueOf(b).Float()
+			x, y := valueOf(a).Float(), valueOf(b).Float()
+			return x < y || (x != x && y == y) // NaNs first
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-- 
2.43.0


From 91c1bb774958d90b4c329eb69415501cc7714693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:53 +0000
Subject: [PATCH 06/18] fix: Dllist.Clear detaches the elements, so stale
 handles cannot corrupt the list

---
 dllist/dllist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..503b070 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,12 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	// detach the elements, so that a handle kept by the caller no longer acts on l
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From b3e9a85fc52c1293c7ad26ba7788c3f1b5786b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:53 +0000
Subject: [PATCH 07/18] fix: Dllist.PushBackListTo and PushFrontListTo insert
 every value when a list is pushed into itself

---
 dllist/dllist.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 503b070..90a2234 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -187,8 +187,9 @@ func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Front(); i > 0; i, e = i-1, e.Next() {
-		l.insertValue(e.Value, mark)
+	// copy first: other may be l itself
+	for _, v := range other.Slice() {
+		l.insertValue(v, mark)
 	}
 }
 
@@ -203,8 +204,10 @@ func (l *Dllist[T]) PushFrontListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Back(); i > 0; i, e = i-1, e.Prev() {
-		l.insertValue(e.Value, mark)
+	// copy first: other may be l itself
+	s := other.Slice()
+	for i := len(s) - 1; i >= 0; i-- {
+		l.insertValue(s[i], mark)
 	}
 }
 
-- 
2.43.0


From 51e235cc118aeccd6f7fb8512aaa6a42dbf595fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:10 +0000
Subject: [PATCH 08/18] fix: Node.IsDescendantRelation is true only for nodes
 below n

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..3261eca 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From c88974ec8c807950cb64d4f81c83375a7c1e5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:10 +0000
Subject: [PATCH 09/18] fix: Node.TraversalDFS of an empty tree is empty
 instead of a panic

---
 tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 3261eca..943cc8a 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -217,6 +217,9 @@ func (n *Node[T]) MaxDepth() int {
 }
 
 func (n *Node[T]) TraversalDFS() (res []*Node[T]) {
+	if n == nil {
+		return nil
+	}
 	queue := []*Node[T]{n}
 	if n.IsLeaf() {
 		return queue
-- 
2.43.0


From da181aa1371c9bc7aaea6069637ba2dbb6498368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:54 +0000
Subject: [PATCH 10/18] fix: HashRing.GetNode returns the member at the key's
 hash, never the key itself

---
 hashring/hashring.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..9f1c85a 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -66,20 +66,16 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	if i, ok := hr.nodes.BinarySearch(node[Node]{
+	i, _ := hr.nodes.BinarySearch(node[Node]{
 		hash: hash,
 		Node: key,
-	}); ok {
-		return key
-	} else {
-		if i == hr.nodes.Len() {
-			n, _ := hr.nodes.First()
-			return n.Node
-		} else {
-			n, _ := hr.nodes.Get(i)
-			return n.Node
-		}
+	})
+	if i == hr.nodes.Len() {
+		n, _ := hr.nodes.First()
+		return n.Node
 	}
+	node, _ := hr.nodes.Get(i)
+	return node.Node
 }
 
 func (hr *HashRing[Node]) hashKey(key Node, index int) uint32 {
-- 
2.43.0


From 0095605159ce0ec87554308efa7b8102974e3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:16 +0000
Subject: [PATCH 11/18] fix: HashRing orders replicas with equal hashes by
 node, so that owners depend on the members alone

---
 hashring/hashring.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 9f1c85a..1e3d2df 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -50,7 +50,13 @@ func (hr *HashRing[Node]) AddNodes(nodes ...Node) *HashRing[Node] {
 		return true
 	})
 	hr.rawNodes.Push(s.Slice()...)
-	hr.nodes.Sort()
+	// replicas with the same hash are ordered by node, so that the owner of a
+	// key depends on the members alone
+	hr.nodes.SortFunc(func(t1, t2 node[Node]) bool {
+		return t1.hash < t2.hash || (t1.hash == t2.hash && t1.Node < t2.Node)
+	}, func(t1, t2 node[Node]) bool {
+		return t1.hash == t2.hash && t1.Node == t2.Node
+	})
 	return hr
 }
 
-- 
2.43.0


From 9591ea795a29729cc4e9f050ce7cee5525d27b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:18 +0000
Subject: [PATCH 12/18] fix: RefreshData is not fresh before a first refresh,
 however large the maximum age or error age

---
 refreshcache/refreshcache.go   | 13 +++++++------
 refreshcache0/refreshcache0.go | 13 +++++++------
 refreshcache1/refreshcache1.go | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..ccce1b7 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..5494f07 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..cbc7fe3 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From a6b6974f7276aa750d1d7916a15df5c1bb6e40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 13/18] fix: a refresh function that panics no longer leaves
 the zero value cached as fresh

---
 refreshcache/refreshcache.go   | 16 ++++++++++++++--
 refreshcache0/refreshcache0.go | 16 ++++++++++++++--
 refreshcache1/refreshcache1.go | 16 ++++++++++++++--
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index ccce1b7..cb02404 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 5494f07..f78d9be 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index cbc7fe3..0bba5b5 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked: there is no result to keep
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From e1ca7984de0e98274ecbd94d1e3b4e42cb3a4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:49 +0000
Subject: [PATCH 14/18] fix: keep RWMap.Len right when Clear runs beside other
 operations

Clear reset the counter with a plain store and left dropped entries usable, so
an operation that had found an entry before the reset could still count it in
or out afterwards and leave Len wrong for good.
---
 rwmap/rwmap.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..5847976 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -521,10 +521,25 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Operations that found an entry before it was dropped here may still be
+	// using it: expunge it so that they cannot bring it back, and uncount it if
+	// it held a value.
+	for _, e := range read.m {
+		m.dropLocked(e)
+	}
+	for _, e := range m.dirty {
+		m.dropLocked(e)
+	}
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+}
+
+func (m *RWMap[K, V]) dropLocked(e *entry[V]) {
+	p := e.p.Swap((*V)(expunged))
+	if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
+		atomic.AddInt64(&m.len, -1)
+	}
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From 339e701a6ab7776f41e41e0aea70c52ee270b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:11 +0000
Subject: [PATCH 15/18] fix: SyncCache.LoadOrStore never loads an expired entry
 when another goroutine removes it first

---
 synccache/synccache.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..8ef940d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,7 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From de9249eed41180c092e091a79c582117e6747141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 16/18] fix: Vec.Clone and SplitOff give the result its own
 comparison functions

---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index e17a0f5..da2fc81 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -275,7 +275,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -325,7 +325,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From 1a7c38ec82caca1fcd464fcfdfead054be46ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 17/18] fix: refreshcache: Raw returned the error of an older
 refresh after a later one had succeeded

---
 refreshcache/refreshcache.go   | 6 +++++-
 refreshcache0/refreshcache0.go | 6 +++++-
 refreshcache1/refreshcache1.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index cb02404..48a7901 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -194,7 +194,11 @@ func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if lastErr <= 0 {
+		return *r.data.Load(), nil // the last refresh did not fail: r.err is of an older one
+	}
+	if time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index f78d9be..25fc249 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -194,7 +194,11 @@ func (r *RefreshData[T]) Raw() (data T, err error) {
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if lastErr <= 0 {
+		return *r.data.Load(), nil // the last refresh did not fail: r.err is of an older one
+	}
+	if time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 0bba5b5..14c5867 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -194,7 +194,11 @@ func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if lastErr <= 0 {
+		return *r.data.Load(), nil // the last refresh did not fail: r.err is of an older one
+	}
+	if time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From 75502ce7e268527fdb6fa169d1bcc79c5926ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:26 +0000
Subject: [PATCH 18/18] fix: Tree.DrawTree drew more than one level on a line,
 or broke a level over two

---
 tree/tree.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 943cc8a..e686aa2 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -42,22 +42,15 @@ func BuildTree[T any](val []T) (root *Node[T]) {
 
 func (n *Node[T]) DrawTree() string {
 	builder := strings.Builder{}
-	layer := 0
-	count := 0
-	for _, node := range n.TraversalBFS() {
+	for layer, nodes := range n.traversalBFS(nil, 0) {
 		if layer == 0 {
-			builder.WriteString(fmt.Sprintf("%v\n", node.Val))
-			layer++
+			builder.WriteString(fmt.Sprintf("%v\n", n.Val))
 			continue
 		}
-		builder.WriteString(fmt.Sprintf("%v\t", node.Val))
-		count++
-		if layer*2 == count {
-			builder.WriteRune('\n')
-			layer++
-			count = 0
-			continue
+		for _, node := range nodes {
+			builder.WriteString(fmt.Sprintf("%v\t", node.Val))
 		}
+		builder.WriteRune('\n')
 	}
 	return builder.String()
 }
-- 
2.43.0

