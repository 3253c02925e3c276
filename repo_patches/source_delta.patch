From 1775f7a4c4012e2bfe8ca1f2ef9870faba12c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 01/13] fix: set: IsSupperSet reported the negation of the
 superset relation

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From 92ddf4ecf12d54585999ea4198bdee0df92c9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 02/13] fix: genmap: LoadOrStore returned the zero value
 instead of the value it stored

---
 genmap/genmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..e0a4137 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,6 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
+	actual = v
 	return
 }
 
-- 
2.43.0


From a8ba95173e37df9121158ca18eec46a787af9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 03/13] fix: vec: Cut returned a slice its own shift had
 already overwritten

---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From 1318abe40197c07f75a379ce385e5f9c85e8f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 04/13] fix: tree: IsDescendantRelation was true for unrelated
 nodes

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..1dc6669 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return n != node && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From 1db837dc6465192c8a06bbc3d661ff1a33c3579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 05/13] fix: hashring: GetNode returned the key itself on a
 hash hit, member or not

---
 hashring/hashring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..98b600b 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -70,7 +70,8 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		hash: hash,
 		Node: key,
 	}); ok {
-		return key
+		n, _ := hr.nodes.Get(i)
+		return n.Node
 	} else {
 		if i == hr.nodes.Len() {
 			n, _ := hr.nodes.First()
-- 
2.43.0


From a4bb7e31b2c67115cf9745a91a756637b4cd88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 06/13] fix: hashring: nodes with equal hashes were ordered by
 map iteration and sort luck

---
 hashring/hashring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 98b600b..dac0de7 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -26,7 +26,7 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
-				return t1.hash < t2.hash
+				return t1.hash < t2.hash || (t1.hash == t2.hash && t1.Node < t2.Node)
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
 				return t1.hash == t2.hash
-- 
2.43.0


From b9731d49447562ec22beeabaf43be8c585b4c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 07/13] fix: dllist: Clear left the old elements attached, so
 stale handles corrupted the list

---
 dllist/dllist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..31efc96 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,13 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next = nil
+		e.prev = nil
+		e.list = nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 84d02d44e20a925ea29d8cffcd352960fddbe24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:54 +0000
Subject: [PATCH 08/13] fix: refreshcache: a panicking refresh function stored
 the zero value as fresh data

---
 refreshcache/refreshcache.go   | 46 ++++++++++++++++------------------
 refreshcache0/refreshcache0.go | 46 ++++++++++++++++------------------
 refreshcache1/refreshcache1.go | 46 ++++++++++++++++------------------
 3 files changed, 66 insertions(+), 72 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..448cf75 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..17975b5 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..b424548 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -111,35 +111,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From 924829288f5f07754fd243817b8c77703eada514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:54 +0000
Subject: [PATCH 09/13] fix: refreshcache: Get read last and lastErr plainly
 while Clear writes last atomically

---
 refreshcache/refreshcache.go   | 4 ++--
 refreshcache0/refreshcache0.go | 4 ++--
 refreshcache1/refreshcache1.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 448cf75..cc00bb7 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -105,10 +105,10 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 17975b5..5f61b02 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -105,10 +105,10 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index b424548..48d6428 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -105,10 +105,10 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
-- 
2.43.0


From 4a97740868e8b4d0a0ec3e658e05fe5a0656cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:55 +0000
Subject: [PATCH 10/13] fix: refreshcache: a very large maxAge or errAge served
 a value or error never produced

---
 refreshcache/refreshcache.go   | 12 ++++++------
 refreshcache0/refreshcache0.go | 12 ++++++------
 refreshcache1/refreshcache1.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index cc00bb7..5dfb82e 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -176,10 +176,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 5f61b02..2c1efc5 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -176,10 +176,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 48d6428..b9ef604 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,18 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if last = atomic.LoadInt64(&r.last); (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last = atomic.LoadInt64(&r.last); last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -176,10 +176,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From b4f486b414d8a1ab33ded210d719dfe7abcb5d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:55 +0000
Subject: [PATCH 11/13] fix: synccache: LoadOrStore returned an expired entry
 after losing the delete race

---
 synccache/synccache.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..8ef940d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,7 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 9c18ed8418ff70ff7b59e0a906403015bf1afb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 12/13] fix: rwmap: Clear reset the length under concurrent
 stores and deletes, leaving Len wrong for good

---
 rwmap/rwmap.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..5f857e9 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -517,6 +517,19 @@ func (m *RWMap[K, V]) Clear() {
 	defer m.mu.Unlock()
 
 	read = m.loadReadOnly()
+	// Expunge every entry, so that an operation still holding one of them takes
+	// the slow path, and count only the values this call removes.
+	var removed int64
+	for _, e := range read.m {
+		if e.clearLocked() {
+			removed++
+		}
+	}
+	for _, e := range m.dirty {
+		if e.clearLocked() {
+			removed++
+		}
+	}
 	if len(read.m) > 0 || read.amended {
 		m.read.Store(&readOnly[K, V]{})
 	}
@@ -524,7 +537,13 @@ func (m *RWMap[K, V]) Clear() {
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+	atomic.AddInt64(&m.len, -removed)
+}
+
+// clearLocked expunges the entry for good and reports whether it held a value.
+func (e *entry[V]) clearLocked() bool {
+	p := e.p.Swap((*V)(expunged))
+	return p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From 242231d443e53c4ff65127be9b13ef04f3ebce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 13/13] fix: vec: the default comparators panicked for pointer
 elements they claim to support

---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..e0416d4 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0

