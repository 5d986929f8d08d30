From e663e92949ab23aaa312d90524625eac8ef01e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 01/21] fix: items whose reversed hash equals a bucket boundary
 are lost

The dummy of a new bucket was linked after an item with the same reversed
hash, the forward search skipped the bucket whose boundary equals the
searched hash, an item with reversed hash ^0 was linked behind the last
dummy, and a bucket too narrow to be split again was split anyway.
---
 map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index ce5b69c..85e9d91 100644
--- a/map.go
+++ b/map.go
@@ -806,6 +806,11 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 		newReverse = halfUint64(cBucket.reverse, nextBucket.reverse)
 	}
 
+	if newReverse <= cBucket.reverse || newReverse >= nextBucket.reverse {
+		// cannot split any more.
+		return ErrBucketAlreadyExit
+	}
+
 	b, onOk := h.bucketFromPool(newReverse, useOnOk(true))
 	if onOk == nil {
 		Log(LogWarn, "no okFn")
@@ -940,6 +945,10 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		// dummy of bucket must be placed before item of same reverse, and item before the last dummy.
+		if e.PtrMapHead().IsDummy() || ehead.PtrMapHead().reverse == ^uint64(0) {
+			return e.PtrMapHead().reverse <= ehead.PtrMapHead().reverse
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
@@ -1426,7 +1435,7 @@ func (h *Map) searchBucket4update(k uint64) (b *bucket, r uint64) {
 func (h *Map) searchBucket4Key4(k uint64, ignoreBucketEnry bool) (b *bucket, reverse uint64, ignore bool) {
 	b, reverse = h.searchBucket4update(k)
 	if h.modeForBucket != CombineSearch {
-		if p := b.prevAsB(); nearUint64(p.reverse, b.reverse, reverse) != b.reverse {
+		if p := b.prevAsB(); p.reverse > reverse && nearUint64(p.reverse, b.reverse, reverse) != b.reverse {
 			b = p
 		}
 	}
@@ -1475,7 +1484,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	if lbNext.reverse <= reverseNoMask {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From fa4f597f8838f88d0b4e27995ed452c9b280ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/21] fix: a key whose hash collides with another key could
 not be retrieved

---
 map.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/map.go b/map.go
index 85e9d91..eadc248 100644
--- a/map.go
+++ b/map.go
@@ -457,6 +457,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		}
 		return nil, false
 	}
+	e = h.sameHashEntry(e, conflict)
 	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
 		return nil, false
 	}
@@ -494,6 +495,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 		}
 		return nil, bucket, false
 	}
+	e = h.sameHashEntry(e, conflict)
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
@@ -505,6 +507,25 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 }
 
+// sameHashEntry ... find the entry having conflict in the entries which have the same hash as e.
+func (h *Map) sameHashEntry(e HMapEntry, conflict uint64) HMapEntry {
+	mhead := e.PtrMapHead()
+	if mhead.conflict == conflict {
+		return e
+	}
+	for cur := mhead.PrevtWithNil(); cur != nil && cur.reverse == mhead.reverse; cur = cur.PrevtWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	for cur := mhead.NextWithNil(); cur != nil && cur.reverse == mhead.reverse; cur = cur.NextWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	return e
+}
+
 func (h *Map) notHaveBuckets() bool {
 	return h.tailBucket.Next().Prev().Empty()
 }
-- 
2.43.0


From 6b25479407b6949910e5d2d266254e7056c212a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 03/21] fix: Len counts deleted keys

---
 map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index eadc248..8853814 100644
--- a/map.go
+++ b/map.go
@@ -212,7 +212,7 @@ func (h *Map) cactchSigBua() {
 }
 
 func (h *Map) Len() int {
-	return int(h.len)
+	return int(atomic.LoadInt64(&h.len))
 }
 
 func (h *Map) AddLen(inc int64) int64 {
@@ -1584,6 +1584,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
-- 
2.43.0


From 0ae6958088e2fef4c6f21174af86a0577e660960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/21] fix: heap allocated items are collected by GC while
 they are in the map

the list links are relative offsets, so that nothing else referred to an
item given by StoreItem, or allocated by Set without pool.
---
 map.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/map.go b/map.go
index 8853814..e6b8cea 100644
--- a/map.go
+++ b/map.go
@@ -59,6 +59,9 @@ type Map struct {
 
 	pooler *Pool
 
+	// items which are not in pool. the links of list are invisible for GC.
+	retained []MapItem
+
 	isEmbededItemInBucket bool
 }
 
@@ -704,6 +707,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.retain(s)
 	}
 
 	s.K = key.(string)
@@ -734,9 +738,17 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
+// retain ... keep reference of item until map is released
+func (h *Map) retain(item MapItem) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.retained = append(h.retained, item)
+}
+
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-- 
2.43.0


From 64a655a2b1bc2ad66e372e1cd2c668f7c0b7a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 05/21] fix: in embedded pool, keys are lost after other keys
 are deleted

deleted items keep their place in the pool of the bucket, but the search of
the insert/split position skipped these, so that the pool lost its order.
---
 map_embedded.go | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..1390207 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -30,16 +30,18 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	items := pool.ptrItems()
 	l := items.Len()
 
+	// deleted items keep their place in order. search must not skip these.
 	idx := sort.Search(l, func(i int) bool {
-		item := items._at(i, true, true)
+		item := items._at(i, true, false)
 		if item == nil {
 			return true
 		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
-		//return items.reverseAt(i) >= reverseNoMask
 	})
-	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+	for ; idx < l && items.reverseAt(idx) == reverseNoMask; idx++ {
+		if item := items._at(idx, true, false); item != nil && !item.IsDeleted() {
+			return item
+		}
 	}
 
 	a := bucket.toBase().prevAsB()
@@ -259,8 +261,8 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 	}
 
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	last := items._at(tail, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -272,11 +274,12 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	// tail is included. otherwise a free item before the tail of same reverse breaks order.
+	idx := sort.Search(tail+1, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
-	if idx <= 1 || idx > tail {
+	if idx <= 1 {
 		return -1, false
 	}
 	mItem := items._at(idx-1, true, false)
@@ -347,10 +350,8 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		// same order as linked-list. new item is placed after item of same reverse.
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
@@ -445,24 +446,11 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 //go:norace
 func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapItem, nPool *samepleItemPool, fn unlocker) {
 
-	lastActiveIdx := -1
-
 	items := *sp.ptrItems()
 	olen := items.Len()
 	ocap := items.Cap()
-
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
-	}
+	// deleted item is also placed in order.
+	lastActiveIdx := olen - 1
 
 	defer func() {
 		if new == nil {
@@ -629,9 +617,6 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
-- 
2.43.0


From ea00e1417039367c204f1ce53e3fac095bcd2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 06/21] fix: split of embedded pool leaves a bucket without
 items

a bucket was allocated and visible before it was known whether there is a
place to split, lookups of the bucket ended by stack overflow.
---
 map_embedded.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 1390207..2973036 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -71,6 +71,16 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	if newReverse <= bucket.reverse || newReverse >= nextReverse {
+		// cannot split any more.
+		return ErrBucketAlreadyExit
+	}
+	// must be decided before allocation. bucket without items is not usable.
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil || idx == 0 {
+		return err
+	}
+
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -85,11 +95,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
-- 
2.43.0


From 706ed86c59181d98693134c38f2b57739fea348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 07/21] fix: Purge with embedded pool breaks the pool and the
 linked-list

---
 map.go          | 25 ++++++-------------------
 map_embedded.go |  9 +++++----
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/map.go b/map.go
index e6b8cea..d86df33 100644
--- a/map.go
+++ b/map.go
@@ -1626,32 +1626,19 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// remove item
 	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
+	// 2. purge from linked-list if item is last of pool
 
 	pool := bucket.itemPool()
 	if pool == nil {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
+	// deleted item in the last is returned to pool.
+	// otherwise item must be linked in place until it is reused, as the pool require
+	// same order as the linked-list.
+	pool.shrinkLen()
 	return true
 }
 
diff --git a/map_embedded.go b/map_embedded.go
index 2973036..8438401 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -708,12 +708,13 @@ func (sp *samepleItemPool) shrinkLen() {
 		if item == nil || !item.IsDeleted() {
 			break
 		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, i-1) {
+		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, i+1, i) {
 			break
 		}
-		if !item.Empty() {
-			item.MarkForDelete()
-		}
+		pOpts := elist_head.SharedTrav(list_head.WaitNoM())
+		item.MarkForDelete()
+		elist_head.SharedTrav(pOpts...)
+		*item = SampleItem{}
 	}
 }
 
-- 
2.43.0


From f25b972f30f1210c7163d1d333be2d3fcab189ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 08/21] fix: a search changes the option of searches which are
 running on other maps

---
 map.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/map.go b/map.go
index d86df33..95b99ac 100644
--- a/map.go
+++ b/map.go
@@ -772,14 +772,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1389,6 +1382,15 @@ func sharedSearchOpt(setter *searchOpt) *searchOpt {
 	return _sharedSearchOpt.Load().(*searchOpt)
 }
 
+// newSearchOpt ... option of one search. shared option must not be changed by a search,
+// because other searches are running concurrently.
+func newSearchOpt(opts ...searchArg) *searchOpt {
+	o := &searchOpt{}
+	o._ignoreBucketEntry.Store(sharedSearchOpt(nil).ignoreBucketEntry())
+	o.Options(opts...)
+	return o
+}
+
 func (o *searchOpt) ignoreBucketEntry() bool {
 	return o._ignoreBucketEntry.Load().(bool)
 }
@@ -1415,14 +1417,7 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From ffccd49b0e9fa2b138ac1f499e37f31857da196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/21] fix: StoreItem stores broken item in embedded pool or
 without ItemFn option

---
 map.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/map.go b/map.go
index 95b99ac..4625be5 100644
--- a/map.go
+++ b/map.go
@@ -731,8 +731,18 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	if h.isEmbededItemInBucket {
+		// item must be placed in pool of bucket
+		return h.Set(item.Key(), item.Value())
+	}
 	k, conflict := item.KeyHash()
 
+	// type of stored items is required to get item from list
+	_, isEntryFn := h.ItemFn().(*entryHMap)
+	if _, isEntry := item.(*entryHMap); isEntryFn && !isEntry {
+		ItemFn(func() MapItem { return item })(h)
+	}
+
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
 	if found {
 		return h._update(oitem, item.Value())
-- 
2.43.0


From b30dd0433a4b51b58061f394052da7f3c7dd54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 10/21] fix: Set panics if type of new value is not the same as
 type of old value

---
 sample_hmap_entry.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..412c7d0 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"reflect"
 	"sync/atomic"
 	"unsafe"
 
@@ -52,15 +53,29 @@ func (s *SampleItem) Key() interface{} {
 	return s.K
 }
 
+// sampleValue ... atomic.Value require same type in each store. but values of a key can have any type.
+type sampleValue struct {
+	v interface{}
+}
+
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v := s.V.Load()
+	if sv, ok := v.(sampleValue); ok {
+		return sv.v
+	}
+	return v
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	s.V.Store(v)
+	if old := s.V.Load(); old != nil && reflect.TypeOf(old) == reflect.TypeOf(v) {
+		// V is set directly
+		s.V.Store(v)
+		return true
+	}
+	s.V.Store(sampleValue{v: v})
 	return true
 }
 
-- 
2.43.0


From b3d8d6ff7f8bb97f2343fa1aace67cee08c7e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 11/21] fix: concurrent updates of map lose keys, duplicate
 keys, panic and hang

updating a map is not safe with other updates and reads in any mode. lock
the map exclusively in updating, and shared in reading.
---
 map.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/map.go b/map.go
index 4625be5..6680c9a 100644
--- a/map.go
+++ b/map.go
@@ -53,6 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
+	opMu          sync.RWMutex // exclusive in updating, shared in reading
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -557,6 +558,8 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -565,6 +568,8 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -574,11 +579,15 @@ func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
 func (h *Map) LoadItem(key interface{}) (item MapItem, success bool) {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	item, _, success = h._loadItem(0, 0, key)
 	return
 }
 
 func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success bool) {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 
 	item, success = h._get(k, conflict)
 	return
@@ -613,6 +622,12 @@ var madeBucket int32 = 0
 
 // Set ... set the value for a key
 func (h *Map) Set(key, value interface{}) bool {
+	h.opMu.Lock()
+	defer h.opMu.Unlock()
+	return h.set(key, value)
+}
+
+func (h *Map) set(key, value interface{}) bool {
 	atomic.StoreInt32(&madeBucket, 0)
 
 	var item MapItem
@@ -731,9 +746,12 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	h.opMu.Lock()
+	defer h.opMu.Unlock()
+
 	if h.isEmbededItemInBucket {
 		// item must be placed in pool of bucket
-		return h.Set(item.Key(), item.Value())
+		return h.set(item.Key(), item.Value())
 	}
 	k, conflict := item.KeyHash()
 
@@ -1595,8 +1613,14 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
+	h.opMu.Lock()
+	defer h.opMu.Unlock()
+	return h.delete(key)
+}
+
+func (h *Map) delete(key interface{}) bool {
 
-	item, ok := h.LoadItem(key)
+	item, _, ok := h._loadItem(0, 0, key)
 	if !ok {
 		return false
 	}
@@ -1608,10 +1632,12 @@ func (h *Map) Delete(key interface{}) bool {
 
 //Purge ... key/value entry from map.
 func (h *Map) Purge(key interface{}) bool {
+	h.opMu.Lock()
+	defer h.opMu.Unlock()
 	if h.isEmbededItemInBucket {
 		return h.purgeInEmbedded(key)
 	}
-	return h.Delete(key)
+	return h.delete(key)
 }
 
 func (h *Map) purgeInEmbedded(key interface{}) bool {
@@ -1650,6 +1676,23 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 // RangeItem ... calls f sequentially for each key and value present in the map.
 // called ordre is reverse key order
 func (h *Map) RangeItem(f func(MapItem) bool) {
+	var items []MapItem
+
+	h.opMu.RLock()
+	h.rangeItem(func(item MapItem) {
+		items = append(items, item)
+	})
+	h.opMu.RUnlock()
+
+	// f is able to call methods of map
+	for _, item := range items {
+		if !f(item) {
+			break
+		}
+	}
+}
+
+func (h *Map) rangeItem(f func(MapItem)) {
 
 	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	defer list_head.DefaultModeTraverse.Option(oldConfs...)
@@ -1659,28 +1702,38 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 		if mhead.IsIgnored() {
 			continue
 		}
-		e := h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem)
-		if !f(e) {
-			break
-		}
+		f(h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem))
 	}
 }
 
 // Range ... calls f sequentially for each key and value present in the map.
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
+	var kvs [][2]interface{}
 
-	h.RangeItem(func(item MapItem) bool {
-		return f(item.Key(), item.Value())
+	h.opMu.RLock()
+	h.rangeItem(func(item MapItem) {
+		kvs = append(kvs, [2]interface{}{item.Key(), item.Value()})
 	})
+	h.opMu.RUnlock()
+
+	for _, kv := range kvs {
+		if !f(kv[0], kv[1]) {
+			break
+		}
+	}
 }
 
 func (h *Map) First() HMapEntry {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	cur := h.head.DirectPrev().DirectNext()
 	return h.ItemFn().HmapEntryFromListHead(cur)
 }
 
 func (h *Map) Last() HMapEntry {
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	cur := h.tail.DirectNext().DirectPrev()
 	return h.ItemFn().HmapEntryFromListHead(cur)
 }
-- 
2.43.0


From cb388fc9810b6a1369b8bb6a9c87ac50712fc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 12/21] fix: rmap loses updates, returns internal holder,
 panics on missing key and is unsafe for concurrent use

values moved to the read map were returned as internal holder, an update of
a moved key is not visible, Get/Delete of a missing key panics, Len does not
follow deletes, and concurrent Set/Get/Delete race on the maps.
---
 rmap/rmap.go | 132 +++++++++++++++++++++++++--------------------------
 1 file changed, 65 insertions(+), 67 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..91da49f 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -19,12 +19,13 @@ type baseMap struct {
 type RMap struct {
 	baseMap
 	limit int
+	len   int64
 	dirty *smap.Map
 }
 
 type readMap struct {
-	m       map[uint64]atomic.Value
-	amended bool // include dirty map
+	m       map[uint64]*atomic.Value // *SampleItem. nil is deleted item
+	amended bool                     // include dirty map
 }
 
 func New() (rmap *RMap) {
@@ -32,6 +33,7 @@ func New() (rmap *RMap) {
 	rmap = &RMap{
 		limit: 1000,
 	}
+	rmap.read.Store(&readMap{})
 	rmap.initDirty()
 
 	return rmap
@@ -65,15 +67,17 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 
 	e := m.getDirtyEntry(k, conflict)
+	if e == nil {
+		return nil, false
+	}
 	return e.Value(), true
 }
 
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
-	read, succ := m.read.Load().(*readMap)
-	if !succ {
-		m.read.Store(&readMap{})
-		read, succ = m.read.Load().(*readMap)
-	}
+	m.Lock()
+	defer m.Unlock()
+
+	read := m.read.Load().(*readMap)
 
 	ensure := func(item smap.MapItem) {
 		for _, fn := range m.onNewStores {
@@ -85,25 +89,22 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.m[k]
-	if !ok {
-		e := m.getDirtyEntry(k, conflict)
-		if e != nil {
-			ok = true
-			e.SetValue(v)
-		}
-	}
-	if !ok && !read.amended {
-		m.storeReadFromDirty(true)
+	ok := false
+	if e := m.getDirtyEntry(k, conflict); e != nil {
+		ok = true
+		e.SetValue(v)
 	}
 
 	if !ok {
 		e := smap.NewSampleItem(kstr, v)
 		e.Init()
 		m.dirty.StoreItem(e)
+		atomic.AddInt64(&m.len, 1)
 
 		if len(read.m) == 0 {
 			m.storeReadFromDirty(true)
+		} else if !read.amended {
+			m.read.Store(&readMap{m: read.m, amended: true})
 		}
 		defer ensure(e)
 	}
@@ -153,23 +154,18 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
-	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.V
-		}
+	if e := read.load(k, conflict); e != nil {
+		return e.Value(), true
 	}
 
-	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
+	if read.amended {
+		m.Lock()
+		defer m.Unlock()
 		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
-		if !ok && read.amended {
+		if e := read.load(k, conflict); e != nil {
+			return e.Value(), true
+		}
+		if read.amended {
 			v, ok = m.getDirty(k, conflict)
 			m.missLocked()
 		}
@@ -180,54 +176,46 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
-	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
-		read, _ := m.read.Load().(*readMap)
-		if !ok && read.amended {
-			// av, ok = m.dirty[k]
-			// delete(m.dirty, k)
-			e := m.getDirtyEntry(k, conflict)
-			if e != nil {
-				m.dirty.AddLen(-1)
-				e.Delete()
-			}
+	m.Lock()
+	defer m.Unlock()
 
-			m.missLocked()
-		}
+	read := m.read.Load().(*readMap)
+	if e := read.load(k, conflict); e != nil {
+		read.m[k].Store((*smap.SampleItem)(nil))
+		atomic.AddInt64(&m.len, -1)
+		return true
 	}
 
-	if ok {
-		ohead := av.Load().(*smap.SampleItem)
-		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
-
+	if read.amended {
+		e := m.getDirtyEntry(k, conflict)
+		if e != nil {
+			m.dirty.AddLen(-1)
+			e.Delete()
+			atomic.AddInt64(&m.len, -1)
+		}
+		m.missLocked()
+		return e != nil
 	}
 	return false
 }
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	return int(atomic.LoadInt64(&m.len))
 }
 
+// storeReadFromDirty ... move items of dirty to read. require lock
 func (m *RMap) storeReadFromDirty(amended bool) {
 
-	m.Lock()
-	defer m.Unlock()
-
 	for {
 		oread, _ := m.read.Load().(*readMap)
 
 		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
+			m:       map[uint64]*atomic.Value{},
 			amended: amended,
 		}
 
 		//MENTION: not require copy oread ?
 		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
+			if a.Load().(*smap.SampleItem) == nil {
 				continue
 			}
 			nread.m[k] = a
@@ -235,7 +223,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		m.dirty.RangeItem(func(item smap.MapItem) bool {
 			e, ok := item.(*smap.SampleItem)
 			if ok {
-				a := atomic.Value{}
+				a := &atomic.Value{}
 				a.Store(e)
 				nread.m[e.KeyInHmap()] = a
 
@@ -251,9 +239,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			nread.amended = true
 		}
 		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
 			m.initDirty()
-			m.Lock()
 			break
 		}
 		_ = "???"
@@ -270,17 +256,29 @@ func (m *RMap) initDirty() {
 		}))
 }
 
-func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
+// load ... return nil if not found
+func (r *readMap) load(k, conflict uint64) *smap.SampleItem {
+	av, ok := r.m[k]
 	if !ok {
-		return nil, ok
+		return nil
+	}
+	e := av.Load().(*smap.SampleItem)
+	if e == nil || e.ConflictInHamp() != conflict {
+		return nil
+	}
+	return e
+}
+
+func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
+	ohead := r.load(k, conflict)
+	if ohead == nil {
+		return nil, false
 	}
-	ohead := ov.Load().(*smap.SampleItem)
 	item := smap.NewSampleItem(kstr, v)
 	item.PtrListHead().Init()
 	item.Setup()
 
-	ok = ov.CompareAndSwap(ohead, item)
+	ok := r.m[k].CompareAndSwap(ohead, item)
 	return item, ok
 
 }
-- 
2.43.0


From 98d66cb4c73d4f8fb5c60e81eeaeaf33a9a7ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 13/21] fix: item is lost if Setup is called before StoreItem

---
 sample_hmap_entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 412c7d0..f49efc5 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"reflect"
 	"sync/atomic"
 	"unsafe"
@@ -80,8 +81,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
-
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 }
 
 func (s *SampleItem) Next() HMapEntry {
-- 
2.43.0


From 86f051f36fbe576159da46da231e5c7caf2c33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 14/21] fix: in embedded pool, items of largest hash are placed
 in reverse order

---
 map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 6680c9a..213ff90 100644
--- a/map.go
+++ b/map.go
@@ -1000,7 +1000,8 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
 		// dummy of bucket must be placed before item of same reverse, and item before the last dummy.
-		if e.PtrMapHead().IsDummy() || ehead.PtrMapHead().reverse == ^uint64(0) {
+		// items of same reverse are in order of insertion, as in embedded pool.
+		if e.PtrMapHead().IsDummy() || ehead.PtrMapHead().IsDummy() && ehead.PtrMapHead().reverse == ^uint64(0) {
 			return e.PtrMapHead().reverse <= ehead.PtrMapHead().reverse
 		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
-- 
2.43.0


From b93296a66b7315d7d1c9ee2fbee1f7a33bb31e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 15/21] fix: keys in buckets of the deepest level are lost

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 213ff90..d8aa5c0 100644
--- a/map.go
+++ b/map.go
@@ -1782,7 +1782,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		Log(LogWarn, "not found with inited-dummpy")
 	}()
 
-	for l := 1; l < 16; l++ {
+	for l := 1; l <= 16; l++ {
 		if l == 1 {
 			idx := (reverse >> (4 * 15))
 			// MENTION: if result pool is require, enable
-- 
2.43.0


From 22c09aeec0befc5589de2e97d3829b7b0085acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 16/21] fix: list terminators are converted to pointers outside
 of allocated objects, and GC crashes

---
 map.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/map.go b/map.go
index d8aa5c0..f24ab2c 100644
--- a/map.go
+++ b/map.go
@@ -168,13 +168,16 @@ func NewHMap(opts ...OptHMap) *Map {
 		maxPerBucket: 32,
 	}
 
-	topBucket := newBucket()
-	topBucket.InitAsEmpty()
+	// terminators of list are converted to pointer of element too.
+	// the pointer must be in allocated object, otherwise GC may find pointer to free object.
+	topBucket, endBucket := newBucket(), newBucket()
+	list_head.InitAsEmpty(&topBucket.ListHead, &endBucket.ListHead)
 	hmap.tailBucket = topBucket.Next()
 	hmap.headBucket = topBucket.Prev()
 
-	hmap.head = &elist_head.ListHead{}
-	hmap.tail = &elist_head.ListHead{}
+	terminators := &[2]entryHMap{}
+	hmap.head = &terminators[0].ListHead
+	hmap.tail = &terminators[1].ListHead
 	elist_head.InitAsEmpty(hmap.head, hmap.tail)
 
 	hmap.modeForBucket = NestedSearchForBucket
@@ -1310,9 +1313,9 @@ func (h *Map) initLevels() {
 	defer h.mu.Unlock()
 
 	for i := range h.levels {
-		b := newBucket()
+		b, end := newBucket(), newBucket()
 		b.setLevel(int32(i) + 1)
-		b.LevelHead.InitAsEmpty()
+		list_head.InitAsEmpty(&b.LevelHead, &end.LevelHead)
 		h.levels[i].Store(b)
 	}
 }
-- 
2.43.0


From d678fb44a489b9295cb98de9326cbb2fdaf2f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 17/21] fix: in embedded pool, links of new items break if
 stack is moved or GC runs while they are made

---
 map_embedded.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 8438401..a146827 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -608,15 +608,16 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 
 func nextListHeadOfSampleItem() elist_head.ListHead {
 
-	list := elist_head.NewEmptyList()
+	// links are relative and invisible for GC. terminators must be in the same object,
+	// otherwise they may be moved or freed while the items are linked.
+	items := make([]SampleItem, 5)
+	elist_head.InitAsEmpty(items[0].PtrListHead(), items[4].PtrListHead())
 
-	items := make([]SampleItem, 3)
-
-	list.Tail().InsertBefore(items[2].PtrListHead())
+	items[4].InsertBefore(items[3].PtrListHead())
+	items[3].InsertBefore(items[2].PtrListHead())
 	items[2].InsertBefore(items[1].PtrListHead())
-	items[1].InsertBefore(items[0].PtrListHead())
 
-	return items[1].ListHead
+	return items[2].ListHead
 }
 
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
-- 
2.43.0


From dd9cad09f39542c2b982c639ec751c54e7b199ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 18/21] fix: items of NewEntryMap lost their key in the hands
 of readers when the entry was deleted, and their value was read while it was
 written

---
 item.go | 16 ++++++++--------
 map.go  | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/item.go b/item.go
index 5892576..dd29957 100644
--- a/item.go
+++ b/item.go
@@ -6,6 +6,7 @@ package skiplistmap
 
 import (
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -13,16 +14,15 @@ import (
 
 type entryHMap struct {
 	key   interface{}
-	value interface{}
+	value atomic.Value // sampleValue. item is readable while it is updated
 
 	MapHead
 }
 
 func NewEntryMap(key, value interface{}) *entryHMap {
-	return &entryHMap{
-		key:   key,
-		value: value,
-	}
+	e := &entryHMap{key: key}
+	e.SetValue(value)
+	return e
 }
 
 var (
@@ -52,11 +52,12 @@ func (s *entryHMap) Key() interface{} {
 }
 
 func (s *entryHMap) Value() interface{} {
-	return s.value
+	sv, _ := s.value.Load().(sampleValue)
+	return sv.v
 }
 
 func (s *entryHMap) SetValue(v interface{}) bool {
-	s.value = v
+	s.value.Store(sampleValue{v: v})
 	return true
 }
 
@@ -78,7 +79,6 @@ func (s *entryHMap) Offset() uintptr {
 }
 
 func (s *entryHMap) Delete() {
-	s.key = nil
 	s.MapHead.state |= mapIsDeleted
 }
 
diff --git a/map.go b/map.go
index f24ab2c..32bad21 100644
--- a/map.go
+++ b/map.go
@@ -237,7 +237,7 @@ func (h *Map) initBeforeSet() {
 	btable.LevelHead.Init()
 
 	empty := &btable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = btable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 
@@ -278,7 +278,7 @@ func (h *Map) initBeforeSet() {
 		}
 
 		empty = &btable.dummy
-		empty.key, empty.value = nil, nil
+		empty.key = nil
 		empty.reverse, empty.conflict = btable.reverse, 0
 		empty.PtrMapHead().state |= mapIsDummy
 
@@ -783,7 +783,7 @@ func (h *Map) retain(item MapItem) {
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		if e.key == nil {
+		if e.key == nil || e.IsDeleted() {
 			continue
 		}
 		fn(e)
@@ -795,7 +795,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		fn(e.key, e.value)
+		fn(e.key, e.Value())
 	}
 	return
 }
@@ -1224,7 +1224,7 @@ func reverse2Index(level int, r uint64) (idx int) {
 func (h *Map) _InsertBefore(tBtable *list_head.ListHead, nBtable *bucket) {
 
 	empty := &nBtable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = nBtable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 	empty.Init()
-- 
2.43.0


From ec805112f0c62caeb763fd28d1190ed9235a83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 19/21] fix: StoreItem of an item which is already in a list
 broke the lists

---
 map.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/map.go b/map.go
index 32bad21..19a563a 100644
--- a/map.go
+++ b/map.go
@@ -769,10 +769,28 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if !item.PtrListHead().IsSingle() || item.PtrMapHead().IsIgnored() {
+		// item is in this map as deleted item, or in other map.
+		if item = copyItem(item); item == nil {
+			return false
+		}
+	}
+
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
+// copyItem ... return new item which is not in any map. if type of item is unknown, return nil
+func copyItem(item MapItem) MapItem {
+	switch v := item.(type) {
+	case *SampleItem:
+		return NewSampleItem(v.K, v.Value())
+	case *entryHMap:
+		return NewEntryMap(v.key, v.Value())
+	}
+	return nil
+}
+
 // retain ... keep reference of item until map is released
 func (h *Map) retain(item MapItem) {
 	h.mu.Lock()
-- 
2.43.0


From dc4af8927a3982d60cb4ff5da839a096ce6be288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:07 +0000
Subject: [PATCH 20/21] fix: DumpEntry of a map with items of NewEntryMap reads
 the key as another type and crashes

---
 map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map.go b/map.go
index 19a563a..f4b1bf1 100644
--- a/map.go
+++ b/map.go
@@ -1194,6 +1194,9 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		e := fromMapHead(mhead)
+		if !mhead.IsDummy() {
+			e = h.ItemFn().HmapEntryFromListHead(cur).(MapItem)
+		}
 
 		var ekey interface{}
 		ekey = e.Key()
-- 
2.43.0


From db47bc80e9f4f41cc85a535eb7006fe3cef9a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 21/21] fix: SearchKey and Dump methods read the map while
 other goroutines update it

---
 map.go          | 46 +++++++++++++++++++++++++++++++++++++---------
 map_embedded.go |  2 +-
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/map.go b/map.go
index f4b1bf1..462676f 100644
--- a/map.go
+++ b/map.go
@@ -210,8 +210,8 @@ func (h *Map) cactchSigBua() {
 		fmt.Printf("panic?\n")
 
 		var b strings.Builder
-		h.DumpBucket(&b)
-		h.DumpEntry(&b)
+		h.dumpBucket(&b)
+		h.dumpEntry(&b)
 		fmt.Println(b.String())
 		fmt.Printf("panic?\n")
 
@@ -304,8 +304,8 @@ func (h *Map) initBeforeSet() {
 	if EnableStats {
 		old := logio
 		logio = os.Stderr
-		h.DumpBucket(logio)
-		h.DumpEntry(logio)
+		h.dumpBucket(logio)
+		h.dumpEntry(logio)
 		logio = old
 	}
 }
@@ -717,8 +717,8 @@ func (h *Map) set(key, value interface{}) bool {
 		if useDump {
 			var b strings.Builder
 			fmt.Fprintf(&b, "dump: bucket and entry\n")
-			h.DumpBucket(&b)
-			h.DumpEntry(&b)
+			h.dumpBucket(&b)
+			h.dumpEntry(&b)
 			fmt.Fprintf(&b, "end: bucket and entry\n")
 			fmt.Println(b.String())
 			useDump = false
@@ -985,7 +985,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 		if w == io.Discard {
 			w = os.Stderr
 		}
-		h.DumpBucket(w)
+		h.dumpBucket(w)
 	}
 
 	return
@@ -1046,7 +1046,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			return
 		}
 
-		if h.SearchKey(bits.Reverse64(e.PtrMapHead().reverse), ignoreBucketEntry(false)) == nil {
+		if h.searchKey(bits.Reverse64(e.PtrMapHead().reverse), false) == nil {
 			o := sharedSearchOpt(nil)
 			o.Lock()
 			o.e = ErrItemInvalidAdd
@@ -1142,7 +1142,25 @@ func (h *Map) toBackBucket(bucket *bucket) (result *bucket) {
 	return
 }
 
+// dumpWithLock ... dump while no other goroutine updates the map. w is written without lock
+func (h *Map) dumpWithLock(w io.Writer, dump func(io.Writer)) {
+	var b strings.Builder
+
+	h.opMu.RLock()
+	dump(&b)
+	h.opMu.RUnlock()
+
+	if w == nil {
+		w = os.Stdout
+	}
+	io.WriteString(w, b.String())
+}
+
 func (h *Map) DumpBucket(w io.Writer) {
+	h.dumpWithLock(w, h.dumpBucket)
+}
+
+func (h *Map) dumpBucket(w io.Writer) {
 	var b strings.Builder
 
 	for cur := h.headBucket.Prev().Next(); !cur.Empty(); cur = cur.Next() {
@@ -1159,6 +1177,10 @@ func (h *Map) DumpBucket(w io.Writer) {
 }
 
 func (h *Map) DumpBucketPerLevel(w io.Writer) {
+	h.dumpWithLock(w, h.dumpBucketPerLevel)
+}
+
+func (h *Map) dumpBucketPerLevel(w io.Writer) {
 	var b strings.Builder
 
 	for i := range h.levels {
@@ -1187,6 +1209,10 @@ func (h *Map) DumpBucketPerLevel(w io.Writer) {
 }
 
 func (h *Map) DumpEntry(w io.Writer) {
+	h.dumpWithLock(w, h.dumpEntry)
+}
+
+func (h *Map) dumpEntry(w io.Writer) {
 	var b strings.Builder
 
 	for cur := h.head.Prev().Next(); !cur.Empty(); cur = cur.Next() {
@@ -1470,6 +1496,8 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
+	h.opMu.RLock()
+	defer h.opMu.RUnlock()
 	conf := newSearchOpt(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
@@ -2042,7 +2070,7 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 		b = &b.downLevels[idx]
 	}
 	if b.ListHead.DirectPrev() != nil || b.ListHead.DirectNext() != nil {
-		h.DumpBucket(logio)
+		h.dumpBucket(logio)
 		Log(LogWarn, "already inited")
 	}
 	// obucketNotInits := bucketNotInits
diff --git a/map_embedded.go b/map_embedded.go
index a146827..e6b685a 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -219,7 +219,7 @@ func (h *Map) bucketFromPoolEmbedded(reverse uint64) (b *bucket) {
 		b = downs.at(idx)
 	}
 	if b.ListHead.DirectPrev() != nil || b.ListHead.DirectNext() != nil {
-		h.DumpBucket(logio)
+		h.dumpBucket(logio)
 		Log(LogWarn, "already inited")
 	}
 	return
-- 
2.43.0

