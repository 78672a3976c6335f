From c2c45f083692927cfa0e3a5f2f6a03b44e49d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 01/27] fix: Deduplicate keeps the highest score when update
 times are equal

---
 elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..e14d9f7 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
-- 
2.43.0


From d562148a03717274218bbdbd9131d6194d2d9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 02/27] fix: RetryOpt.PermanentErr no longer modifies the
 defaults of other stores

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0


From 8203c273fd2cf9a815dd6d3d46075a935cb1c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 03/27] fix: restoring a list that fails no longer panics on a
 nil map

---
 backup/restore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..9366d17 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -96,6 +96,9 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
-- 
2.43.0


From 3984f74587f607cfa26b6df7f2eb7223f3aa8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 04/27] fix: MaxSizeStore.Delete reports when the blob could
 not be read

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 550df6687e65f22621495872d4545b7657d284ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 05/27] fix: SortedIDsBefore returns the lists closest to the
 given ID

---
 lists.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lists.go b/lists.go
index 7be2d7d..da77abf 100644
--- a/lists.go
+++ b/lists.go
@@ -442,10 +442,10 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					}
 					return true
 				}
-				s = append(s, string(id))
-				if id < firstElement {
+				if len(s) == 0 || id < firstElement {
 					firstElement = id
 				}
+				s = append(s, string(id))
 			} else {
 				page.After++
 			}
@@ -455,8 +455,8 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From 8fdd3efc8ed102c1bfceab158a8a9dabe028beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 06/27] fix: GetPercentile of an empty list or past the last
 element no longer panics

---
 list.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 08a3ee9..a027027 100644
--- a/list.go
+++ b/list.go
@@ -1731,7 +1731,8 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 	if percentile > 1 {
 		percentile = 1
 	}
-	if percentile < 0 {
+	if !(percentile >= 0) {
+		// Negative or not a number.
 		percentile = 0
 	}
 	// Ensure segments are loaded.
@@ -1746,10 +1747,16 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		return nil, ErrNotFound
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
-- 
2.43.0


From 38f1192f0a143ba735f57e84be70c726fc79e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 07/27] fix: neighbours above an element get their own rank in
 responses

---
 api/morph/elements.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..903b6df 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: nearestLast(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -72,6 +72,15 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 	}
 }
 
+// nearestLast returns the elements above an element, provided nearest first, with the nearest last.
+func nearestLast(above []rankdb.Element) rankdb.Elements {
+	res := make(rankdb.Elements, len(above))
+	for i, e := range above {
+		res[len(above)-1-i] = e
+	}
+	return res
+}
+
 func (r RankedElement) FullExt(id rankdb.ListID, below, above rankdb.RankedElements) *app.RankdbElementFull {
 	in := r.In
 	if in == nil {
@@ -110,7 +119,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: nearestLast(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
-- 
2.43.0


From 8deb9017c69b2d061f724819065807233e8885fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 08/27] fix: LazySaver keeps keys containing separators apart

---
 blobstore/lazysaver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..142f511 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"math/bits"
+	"strconv"
 	"sync"
 	"time"
 
@@ -635,8 +636,9 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 	return fn(ctx, set, key)
 }
 
+// lazyKey returns a key that is unique for the set and key.
 func lazyKey(set, key string) string {
-	return set + "/" + key
+	return strconv.Itoa(len(set)) + "/" + set + "/" + key
 }
 
 var (
-- 
2.43.0


From 868c784eb15fbeec78bddb1ebc69468655a84544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 09/27] fix: MaxSizeStore tracks the parts of keys containing
 separators apart

---
 blobstore/maxsize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index e12dc4d..15cd504 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -45,8 +45,9 @@ func NewMaxSizeStore(store Store, maxSize int) (*MaxSizeStore, error) {
 	return &r, nil
 }
 
+// mapKey returns a key that is unique for the set and key.
 func mapKey(set, key string) string {
-	return set + `/\` + key
+	return strconv.Itoa(len(set)) + "/" + set + "/" + key
 }
 
 func extKey(key string, n int) string {
-- 
2.43.0


From eee2c16a466212ee66055a3684a0263eff65e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 10/27] fix: LazySaver executes writes to one key in order

---
 blobstore/lazysaver.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 142f511..98b0a99 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -74,6 +74,11 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+
+	// done is closed when the request has been executed.
+	done chan struct{}
+	// after is the done channel of an earlier request for the same key that is being saved.
+	after <-chan struct{}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -240,9 +245,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		b = append(getDataBufferChunk(len(b)), b...)
 		l.mu.Lock()
 		e, ok := l.cacheIdx[lazyKey(set, key)]
+		var after <-chan struct{}
 		if ok {
 			// First update cache, since we have it.
 			v := e.Value.(updateItemRequest)
+			after = v.done
 			if !v.saving {
 				if l.verbose {
 					log.Logger(ctx).Info("Overwriting existing")
@@ -255,7 +262,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				return nil
 			}
 		}
-		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now()}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), after: after}
 		if l.verbose {
 			log.Logger(ctx).Info("Adding new Save")
 		}
@@ -275,6 +282,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				log.Logger(ctx).Info("Found existing in buffer")
 			}
 			v := e.Value.(updateItemRequest)
+			r.after = v.done
 			if !v.saving {
 				// Old buffer can go into the pool. We have lock.
 				putDataBufferChunk(v.b)
@@ -310,6 +318,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 
 // caller must hold l.mu.Lock. This lock is released.
 func (l *LazySaver) add(r updateItemRequest) {
+	r.done = make(chan struct{})
 	e := l.cache.PushBack(r)
 	l.cacheIdx[lazyKey(r.set, r.key)] = e
 	l.mu.Unlock()
@@ -466,6 +475,10 @@ func (l *LazySaver) startSaver(n int) {
 	for e := range input {
 		v := e.Value.(updateItemRequest)
 		var dataDone []byte
+		if v.after != nil {
+			// Writes to a key must be executed in order.
+			<-v.after
+		}
 		ok := func() bool {
 			ctx, cancel := context.WithTimeout(log.WithValues(ctxb, "set", v.set, "key", v.key), timeout)
 			defer cancel()
@@ -503,6 +516,7 @@ func (l *LazySaver) startSaver(n int) {
 			return true
 		}()
 		_ = ok
+		close(v.done)
 		// Now remove from cache
 		tokens <- v.token
 		l.mu.Lock()
-- 
2.43.0


From 2022ece0c44eeab926a85afd3ebc4bacf61ea688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:48 +0000
Subject: [PATCH 11/27] fix: storage errors no longer leave segments or lists
 locked

---
 list.go     | 5 ++++-
 segments.go | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index a027027..ef77ff5 100644
--- a/list.go
+++ b/list.go
@@ -950,7 +950,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
@@ -1883,6 +1883,7 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
 	if err != nil {
+		scores.SegmentsLock.RUnlock()
 		return err
 	}
 
@@ -2170,6 +2171,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save changed segments
 			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
+				newSeg.unlock()
 				return err
 			}
 			err = scores.replaceSegment(ctx, store, newSeg)
@@ -2269,6 +2271,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
diff --git a/segments.go b/segments.go
index 71ddfd1..3f091a6 100644
--- a/segments.go
+++ b/segments.go
@@ -279,6 +279,7 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	s.SegmentsLock.Lock()
 	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		defer s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
 	s.Segments[ls.index] = *ls.seg
-- 
2.43.0


From 12dd096ef9b07bbaeaf2aec299b5221d7f83fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:48 +0000
Subject: [PATCH 12/27] fix: failing to save a new index no longer unlocks the
 segments twice

---
 list.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/list.go b/list.go
index ef77ff5..ce5e285 100644
--- a/list.go
+++ b/list.go
@@ -361,6 +361,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			if updateLock {
 				l.updateLock.Unlock()
 			}
+			s.removeUnlock(ctx)
 		}
 		s.readOnly = false
 	}
@@ -771,13 +772,7 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 
 	// Replace
 	segs.index = newIdx
-	err = l.saveSegments(ctx, bs, segs)
-	if err != nil {
-		segs.unlock()
-		return err
-	}
-
-	return nil
+	return l.saveSegments(ctx, bs, segs)
 }
 
 // VerifyUnlocked validates that all elements of the list can be locked.
-- 
2.43.0


From b0ebd0170d3f66474ef076283a1546ef01c415a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 13/27] fix: operations on a list whose population failed
 return an error instead of panicking

---
 list.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index ce5e285..9e9058d 100644
--- a/list.go
+++ b/list.go
@@ -391,6 +391,11 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			}
 		}
 	}
+	if s.scores == nil || s.index == nil {
+		// The list has no content, since populating it never succeeded.
+		s.unlock()
+		return nil, blobstore.ErrBlobNotFound
+	}
 	l.updateSegments(ctx, &s)
 	// Return read only if that was what was requested.
 	if readOnly {
@@ -864,7 +869,7 @@ func testLock(log log.Adapter, fail chan struct{}, locker sync.Locker, wg *sync.
 func (l *List) Populate(ctx context.Context, bs blobstore.Store, e Elements) error {
 	ctx = log.WithFn(ctx)
 	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
-	if err != nil {
+	if err != nil && err != blobstore.ErrBlobNotFound {
 		// Log error, but proceed.
 		log.Error(ctx, "Populate: error loading existing segments", "error", err.Error())
 	}
@@ -1790,8 +1795,6 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
 	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
-
 	l.RLock()
 	ctx = log.WithValues(ctx, "list_id", l.ID)
 	l.RUnlock()
@@ -1814,11 +1817,13 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 		}
 	}()
 
+	nElements := segs.scores.Elements()
+
 	// Now that no-one else is updating, make sure that no-one else reads from the list while we rebuild.
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
+	allElements := make(Elements, 0, nElements)
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
-- 
2.43.0


From 7c8efdbab7c647853bbd8244a38ecbef5dc5b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 14/27] fix: inserting into a list with a split size below 4 no
 longer loops forever

---
 list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/list.go b/list.go
index 9e9058d..fb1b73b 100644
--- a/list.go
+++ b/list.go
@@ -1577,6 +1577,9 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
+	if wantLimit < 1 {
+		wantLimit = 1
+	}
 	for len(e) > wantLimit {
 		// Calling ourselves, wantLimit should be the same.
 		err := l.insert(ctx, bs, e[:wantLimit], segs)
-- 
2.43.0


From ae0a55a98ca3970ee28aac9c8be55d0a5786169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 15/27] fix: Verify accepts inverted segments and overlap at
 zero

---
 segments.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/segments.go b/segments.go
index 3f091a6..4df1969 100644
--- a/segments.go
+++ b/segments.go
@@ -684,6 +684,10 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 			}
 			foundSegs[v.ID] = i
 
+			if v.Min > v.Max || (v.Min == v.Max && v.MinTie > v.MaxTie) {
+				return fmt.Errorf(prefix+"Minimum (%d, %d) above maximum (%d, %d)", v.Min, v.MinTie, v.Max, v.MaxTie)
+			}
+
 			// Check relation to previous.
 			if i == 0 {
 				// First segment should start at max.
@@ -694,6 +698,9 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 				s.SegmentsLock.RLock()
 				prev := &s.Segments[i-1]
 				s.SegmentsLock.RUnlock()
+				if prev.Min == 0 && prev.MinTie == 0 {
+					return fmt.Errorf(prefix + "Previous segment already covers down to 0")
+				}
 				// Maximum of this should be just after minimum of previous
 				wantScore, wantTie := Element{Score: prev.Min, TieBreaker: prev.MinTie}.PrevMax()
 				if v.Max != wantScore || v.MaxTie != wantTie {
-- 
2.43.0


From 32bdafb2d799982562e48b1674e0895c115229d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 16/27] fix: MemBlobStore keeps keys of sets containing
 separators apart

---
 blobstore/memstore/memstore.go | 37 +++++++++++++++-------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..425a70e 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"fmt"
 	"sort"
-	"strings"
 	"sync"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -18,32 +17,29 @@ import (
 // NewMemStore returns a new MemBlobStore
 func NewMemStore() *MemBlobStore {
 	return &MemBlobStore{
-		blobs:   make(map[string][]byte),
-		reads:   make(map[string]int),
-		writes:  make(map[string]int),
-		deletes: make(map[string]int),
+		blobs:   make(map[blobKey][]byte),
+		reads:   make(map[blobKey]int),
+		writes:  make(map[blobKey]int),
+		deletes: make(map[blobKey]int),
 	}
 }
 
 type MemBlobStore struct {
 	blobsMu sync.Mutex
-	blobs   map[string][]byte
-	reads   map[string]int
-	writes  map[string]int
-	deletes map[string]int
+	blobs   map[blobKey][]byte
+	reads   map[blobKey]int
+	writes  map[blobKey]int
+	deletes map[blobKey]int
 	debug   bool
 }
 
-func toKey(set, key string) string {
-	return set + "/" + key
+// blobKey identifies a blob, also when set or key contain separators.
+type blobKey struct {
+	set, key string
 }
 
-func splitKey(k string) (set, key string) {
-	s := strings.Split(k, "/")
-	if len(s) != 2 {
-		panic(fmt.Errorf("len != 2, was %d", len(s)))
-	}
-	return s[0], s[1]
+func toKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error) {
@@ -93,7 +89,7 @@ func (m *MemBlobStore) Delete(ctx context.Context, set, key string) error {
 func (m *MemBlobStore) Usage(set string) (blobs, size int) {
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		if strings.HasPrefix(k, toKey(set, "")) {
+		if k.set == set {
 			size += len(v)
 			blobs++
 		}
@@ -106,9 +102,8 @@ func (m *MemBlobStore) Dir(set string) []string {
 	var res []string
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		s, key := splitKey(k)
-		if set == s {
-			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
+		if k.set == set {
+			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", k.key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
 		}
 	}
 	m.blobsMu.Unlock()
-- 
2.43.0


From 7b3855750c4a71d4b6c8dd7efd6a32aa2b1f7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 17/27] fix: a failed MaxSizeStore.Delete can be repeated

---
 blobstore/maxsize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 15cd504..2af259b 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -177,7 +177,8 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 		}
 		n++
 	}
-	for i := 0; i < int(n); i++ {
+	// Delete the first part last. It tells how many there are, should deletion fail and be repeated.
+	for i := int(n) - 1; i >= 0; i-- {
 		kkey := key
 		if i > 0 {
 			kkey = extKey(key, i-1)
-- 
2.43.0


From d59a9bcbfefc075136ddd1e475d9792f1190bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 18/27] fix: MaxSizeStore removes the parts of a failed write
 later

---
 blobstore/maxsize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 2af259b..4c8af0f 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -141,6 +141,12 @@ func (r *MaxSizeStore) Set(ctx context.Context, set, key string, b []byte) error
 		b = b2[:l]
 		err := r.store.Set(ctx, set, kkey, b)
 		if err != nil {
+			if i > 0 && total > prev {
+				// Remember the parts written, so they are removed later.
+				r.mu.Lock()
+				r.parts[mapKey(set, key)] = total
+				r.mu.Unlock()
+			}
 			return err
 		}
 		b2 = b2[l:]
-- 
2.43.0


From 08be9442fd20c8d8bc0abd04131e5a69d4a6bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 19/27] fix: MatchAll requires requested metadata keys to be
 present

---
 lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lists.go b/lists.go
index da77abf..5e218c7 100644
--- a/lists.go
+++ b/lists.go
@@ -303,7 +303,7 @@ func (l *Lists) MatchAll(q map[string]string, sets []string) []ListID {
 			return true
 		}
 		for k, v := range q {
-			if list.Metadata[k] != v {
+			if have, ok := list.Metadata[k]; !ok || have != v {
 				return true
 			}
 		}
-- 
2.43.0


From cbccc958d73cd4fe0d42c2fd7f7497384ba25ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 20/27] fix: updates report the previous placement within the
 whole list

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index fb1b73b..93ce49a 100644
--- a/list.go
+++ b/list.go
@@ -1264,6 +1264,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 
 	store := blobstore.StoreWithSet(bs, set)
 	scores.reindex()
+	// Number of elements above each score segment prior to update and in total.
+	offsets, total := scores.topOffsets()
 
 	// This will give us the index segments in which the existing
 	// elements are placed or should be placed.
@@ -1376,11 +1378,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, offsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(total)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From 4593c1a1d8ef726218c0df2569dbda11e7eb8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 21/27] fix: looked up elements are sorted by rank as
 documented

---
 list.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 93ce49a..f46f60b 100644
--- a/list.go
+++ b/list.go
@@ -1236,7 +1236,13 @@ func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 		return nil, err
 	}
 	// Find elements in each segment.
-	return scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	found, err := scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	if err != nil {
+		return nil, err
+	}
+	res := RankedElements(found)
+	res.Sort()
+	return res, nil
 }
 
 // UpdateElements will update or add elements to the list.
-- 
2.43.0


From b2638e6c34c72e6bd07c7231f3d025f59a22b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 22/27] fix: a storage error while splitting or merging no
 longer loses elements

---
 list.go     | 21 +++++++++++++++++----
 segments.go | 17 +++++++++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index f46f60b..12c97ec 100644
--- a/list.go
+++ b/list.go
@@ -2148,9 +2148,12 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return err
 				}
 
+				before := scores.copySegments()
 				ch := scores.mergeWithNext(ctx, lsp, ls)
 				err = scores.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					// The stored elements are unchanged.
+					scores.restoreSegments(before)
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2175,19 +2178,23 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			if err != nil {
 				return err
 			}
+			before := scores.copySegments()
 			ch, newSeg := scores.splitIdx(ctx, ls)
 			if ch == nil && newSeg == nil {
 				ls.unlock()
 				return nil
 			}
-			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
+			// Save changed segments.
+			// The new segment goes first, so no elements are lost if either fails.
+			err = scores.replaceSegment(ctx, store, newSeg)
 			if err != nil {
-				newSeg.unlock()
+				scores.restoreSegments(before)
+				ls.unlock()
 				return err
 			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
+				scores.restoreSegments(before)
 				return err
 			}
 			updIdx = append(updIdx, ch...)
@@ -2245,9 +2252,12 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return err
 				}
 
+				before := index.copySegments()
 				_ = index.mergeWithNext(ctx, lsp, ls)
 				err = index.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					// The stored elements are unchanged.
+					index.restoreSegments(before)
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2274,6 +2284,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Split segment
+			before := index.copySegments()
 			_, newSeg := index.splitIdx(ctx, ls)
 			if newSeg == nil {
 				ls.unlock()
@@ -2283,11 +2294,13 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				index.restoreSegments(before)
 				ls.unlock()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
 			if err != nil {
+				index.restoreSegments(before)
 				return err
 			}
 			return nil
diff --git a/segments.go b/segments.go
index 4df1969..a185724 100644
--- a/segments.go
+++ b/segments.go
@@ -1412,6 +1412,23 @@ func (s *Segments) splitIdx(ctx context.Context, s1 *lockedSegment) (changed []i
 	return changed, s2
 }
 
+// copySegments returns a copy of the current segments for restoreSegments.
+// It must be taken before the elements of a segment are changed.
+func (s *Segments) copySegments() []Segment {
+	s.SegmentsLock.RLock()
+	defer s.SegmentsLock.RUnlock()
+	return append(make([]Segment, 0, len(s.Segments)), s.Segments...)
+}
+
+// restoreSegments goes back to the copied segments
+// after the elements of a split or merged segment could not be saved.
+func (s *Segments) restoreSegments(before []Segment) {
+	s.SegmentsLock.Lock()
+	s.Segments = before
+	s.idx = nil
+	s.SegmentsLock.Unlock()
+}
+
 // mergeWithNext will merge two segments into one at offset of curr.
 // The changed indexes are returned as well as new segment.
 // The caller must save the current segment and updated indexes.
-- 
2.43.0


From eaa9c2b939bf7a9960af5c9ea604caa870b7cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 23/27] fix: multilist operations include the lists of
 all_in_sets without metadata

---
 api/multilist.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..2444794 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,9 +238,7 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
 		lists = db.Lists.All()
@@ -308,9 +302,7 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
 		lists = db.Lists.All()
@@ -343,9 +335,7 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
 	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
 		lists = db.Lists.All()
-- 
2.43.0


From 54a8712dd41190461fd344708df6e77aef281673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 24/27] fix: report a backup record with a wrong segment or
 element count as failed

---
 list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 12c97ec..b895a73 100644
--- a/list.go
+++ b/list.go
@@ -1980,6 +1980,9 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 	if err != nil {
 		return nil, err
 	}
+	if segs != len(s.Segments) {
+		return nil, fmt.Errorf("RestoreList: segment count mismatch, got %d, want %d", segs, len(s.Segments))
+	}
 	s.Segments = make([]Segment, segs)
 	for i := range s.Segments {
 		var seg Segment
@@ -1992,7 +1995,6 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		// decode elements
 		ls := lockedSegment{
 			seg:      &seg,
-			elements: make(Elements, 0, seg.N),
 			index:    i,
 			readOnly: false,
 			unlock:   func() {},
-- 
2.43.0


From cbf8f697e3701c93884e1781df557c06202ae653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 25/27] fix: verifying, reindexing or backing up the lists of
 all_in_sets leaves out other lists

---
 api/multilist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index 2444794..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -240,7 +240,7 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
 	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -304,7 +304,7 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
 	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -337,7 +337,7 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
 	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From bd9645df4271a0b952af461c753096a1c8e14b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 26/27] fix: populating panics when elements are split into
 pieces of size 0

---
 elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elements.go b/elements.go
index e14d9f7..70092da 100644
--- a/elements.go
+++ b/elements.go
@@ -386,6 +386,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
-- 
2.43.0


From cd2862bdce919f67ac34af01b05c6b76132c5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 27/27] fix: mark segments read-only again after their read
 lock was restored

loadSegments takes the write lock to load the segments and goes back to the
read lock when that was requested, but left readOnly false. saveSegments then
wrote the list's segment fields while holding only the read lock.
---
 list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/list.go b/list.go
index b895a73..623ebda 100644
--- a/list.go
+++ b/list.go
@@ -401,6 +401,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 	if readOnly {
 		l.segmentsLock.Unlock()
 		l.segmentsLock.RLock()
+		s.readOnly = true
 		s.unlock = func() {
 			l.segmentsLock.RUnlock()
 			if updateLock {
-- 
2.43.0

