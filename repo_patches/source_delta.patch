From 12eee114aac9a3f022d760f1460c9b8fdce692ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 01/41] fix: SortedCache.Push counts a replaced item's bytes
 only once

---
 util/ds/sorted_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index e8fc497..f3e3e98 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -22,8 +22,10 @@ func NewSortedCache(maxSizeBytes uint64) *SortedCache {
 }
 
 func (s *SortedCache) Push(addValue []byte) {
+	if replaced, ok := s.tree.ReplaceOrInsert(addValue); ok {
+		s.byteSize -= uint64(len(replaced))
+	}
 	s.byteSize += uint64(len(addValue))
-	s.tree.ReplaceOrInsert(addValue)
 }
 
 func (s *SortedCache) Pop() (min []byte, ok bool) {
-- 
2.43.0


From 6afebdf4411a8a4f462e8632bb6fc57ce3506ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 02/41] fix: SearchUnique treats its upper bound as exclusive

---
 util/sliceu/sliceu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sliceu/sliceu.go b/util/sliceu/sliceu.go
index 6916104..19dcd6c 100644
--- a/util/sliceu/sliceu.go
+++ b/util/sliceu/sliceu.go
@@ -104,7 +104,7 @@ func SearchUnique[S ~[]E, E, T any](x S, target T, cmp func(E, T) int) (int, boo
 		if cmpValue < 0 {
 			low = i + 1
 		} else {
-			high = i - 1
+			high = i
 		}
 	}
 
-- 
2.43.0


From 6319214a4b62365fcbad638272c92096988efc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 03/41] fix: ReorderFetcher takes a batch and reserves its
 place atomically

---
 batching/reorder_fetcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fc35a81..8862f7c 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -2,6 +2,7 @@ package batching
 
 import (
 	"context"
+	"sync"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -15,6 +16,10 @@ type ReorderFetcher[T, R any] struct {
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
 	buffer     *ReorderBuffer[[]R]
+
+	// Guards taking a batch and reserving its place in the buffer so that
+	// concurrent flushes reserve places in the order they took batches.
+	flushMu sync.Mutex
 }
 
 type NewReorderFetcherParams[T, R any] struct {
@@ -69,6 +74,9 @@ func (d *ReorderFetcher[T, R]) Flush(ctx context.Context) {
 
 // flush the current batch and then asynchronously run the `FetchBatch` callback.
 func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
+	d.flushMu.Lock()
+	defer d.flushMu.Unlock()
+
 	events := d.batcher.Flush(token)
 	if d.batcher == nil {
 		panic("batcher became nil")
-- 
2.43.0


From 5a4adf1509cc53f4824ff58c9e01d49109e18777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 04/41] fix: ReorderFetcher time-out flushes only the batch
 that timed out

---
 batching/reorder_fetcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 8862f7c..9452fcb 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -48,8 +48,8 @@ func NewReorderFetcher[T, R any](ctx context.Context, params NewReorderFetcherPa
 	go func() {
 		for {
 			select {
-			case <-rf.batcher.BatchTimedOut:
-				rf.flush(ctx, CurrentBatch)
+			case token := <-rf.batcher.BatchTimedOut:
+				rf.flush(ctx, token)
 			case <-ctx.Done():
 				return
 			}
-- 
2.43.0


From 4b11c590c9a394cc2e29c9eced7be9ca1b2fa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 05/41] fix: memtable List.Get searches the newest table first

---
 dkv/memtable/list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index 4651c6d..67ade11 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -3,6 +3,7 @@ package memtable
 import (
 	"fmt"
 	"iter"
+	"slices"
 	"strings"
 	"sync"
 
@@ -72,7 +73,8 @@ func (l *List) Put(key []byte, value []byte, seqNum uint64) (full bool) {
 }
 
 func (l *List) Get(key []byte) (kv.Entry, error) {
-	for _, t := range l.tablesSnap() {
+	// The newest table is last, it has the latest version of the key
+	for _, t := range slices.Backward(l.tablesSnap()) {
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From 0c904163a5d8eff3a2555a087c2d431c4e544362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 06/41] fix: DKV scans let tombstones in memtables mask older
 versions

---
 dkv/db.go                | 13 ++++++++++++-
 dkv/memtable/memtable.go |  7 ++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index aa86028..783f791 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -202,7 +202,18 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	sstables := db.currentSSTables()
 	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
-	return kv.MergeEntries(iters)
+
+	// Only drop deleted entries after they've masked older versions of the key.
+	return func(yield func(kv.Entry) bool) {
+		for entry := range kv.MergeEntries(iters) {
+			if entry.IsDelete() {
+				continue
+			}
+			if !yield(entry) {
+				return
+			}
+		}
+	}
 }
 
 // Checkpoint initiates a DB checkpoint associated with the caller's provided
diff --git a/dkv/memtable/memtable.go b/dkv/memtable/memtable.go
index 4f015d7..9e935dd 100644
--- a/dkv/memtable/memtable.go
+++ b/dkv/memtable/memtable.go
@@ -55,14 +55,11 @@ func (t *MemTable) Delete(key []byte, seqNum uint64) (full bool) {
 	return t.size > uint64(t.memSize)
 }
 
-// ScanPrefix returns all entries matching the prefix in ascending order. This
-// method transparently omits deleted entries.
+// ScanPrefix returns all entries matching the prefix in ascending order,
+// including deleted entries so that they can mask older versions of the key.
 func (t *MemTable) ScanPrefix(prefix []byte) iter.Seq[kv.Entry] {
 	return func(yield func(kv.Entry) bool) {
 		for node := range t.zt.AscendPrefix(prefix) {
-			if isDeleteOp(node) {
-				continue
-			}
 			if !yield(newEntryFromNode(node)) {
 				return
 			}
-- 
2.43.0


From 2da145e6bd09638e8ae3a88a16a3e31e2dd8e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 07/41] fix: DKV reads look at the memtables before taking the
 current SSTables

---
 dkv/db.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 783f791..b15ca16 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -183,25 +183,27 @@ func (db *DB) Delete(key []byte) {
 }
 
 func (db *DB) Get(key []byte) (kv.Entry, error) {
-	sstables := db.currentSSTables()
-
 	// First try to get from the memtables
 	v, err := db.mtables.Get(key)
 	if err == nil {
 		return v, nil
 	}
 
-	// Then try the SSTables
+	// Then try the SSTables. The current SSTables must be read after the
+	// memtables so that entries of a memtable flushed in between aren't missed.
 	if err == kv.ErrNotFound {
-		return sstables.Get(key)
+		return db.currentSSTables().Get(key)
 	}
 
 	return nil, err
 }
 
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-	sstables := db.currentSSTables()
-	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
+	// Take the memtables first so that entries of a memtable which is flushed in
+	// between are found in the current SSTables.
+	memEntries := db.mtables.ScanPrefix(prefix, errOut)
+	sstEntries := db.currentSSTables().ScanPrefix(prefix, errOut)
+	iters := []iter.Seq[kv.Entry]{memEntries, sstEntries}
 
 	// Only drop deleted entries after they've masked older versions of the key.
 	return func(yield func(kv.Entry) bool) {
-- 
2.43.0


From 4eaaa5e2d6553d80d2a1135920086de678442305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 08/41] fix: LevelList.Get returns the newest version of a key
 found in any table

---
 dkv/sst/level_list.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 9d5eb7c..b95d4c1 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -81,6 +81,9 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 }
 
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
+	// L0 tables overlap and aren't searched in order of their age so keep the
+	// entry with the highest sequence number of all tables that have the key.
+	var newest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
 		v, err := t.Get(key)
 		if err != nil {
@@ -89,9 +92,14 @@ func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 			}
 			return nil, fmt.Errorf("table %#v, %w", t, err)
 		}
-		return v, nil
+		if newest == nil || v.SeqNum() > newest.SeqNum() {
+			newest = v
+		}
+	}
+	if newest == nil {
+		return nil, kv.ErrNotFound
 	}
-	return nil, kv.ErrNotFound
+	return newest, nil
 }
 
 func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-- 
2.43.0


From 9186a9c11a82f07438b852382f1908750f52c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 09/41] fix: SST tables record the lowest and highest sequence
 number of their entries

---
 dkv/sst/table_writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 0176881..aeaa1c2 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -66,7 +66,10 @@ func writeEntry(t *Table, entry kv.Entry) {
 	}
 	// Set ending entry values
 	t.endKey = entry.Key()
-	t.endSeqNum = entry.SeqNum()
+
+	// Entries are ordered by key so the sequence numbers come in any order
+	t.startSeqNum = min(t.startSeqNum, entry.SeqNum())
+	t.endSeqNum = max(t.endSeqNum, entry.SeqNum())
 
 	// Add to metadata
 	t.searchIndex.IndexOffset(t.size)
-- 
2.43.0


From 2b14b1898a9a1517a76d7b4a7624b4b96a9c02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 10/41] fix: SearchIndex.Search handles keys ordered before the
 first entry

---
 dkv/sst/search_index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dkv/sst/search_index.go b/dkv/sst/search_index.go
index 09bb3a3..dafa905 100644
--- a/dkv/sst/search_index.go
+++ b/dkv/sst/search_index.go
@@ -54,6 +54,11 @@ func (si *SearchIndex) Search(targetKey []byte, readKey func(offset int64) ([]by
 		foundIndex--
 	}
 
+	// The key is ordered before the first entry so there's nothing to scan.
+	if foundIndex < 0 {
+		return 0, 0, nil
+	}
+
 	// Use a scan from this point to look for the key
 	startOffset := int64(si.offsets[foundIndex])
 
-- 
2.43.0


From 93da5232c955f4da9d51dba9ea9fc3dc2208435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 11/41] fix: WriteRun doesn't write empty tables

---
 dkv/sst/table_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index aeaa1c2..d0ad022 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -102,6 +102,10 @@ func (c *TableWriter) WriteRun(entries iter.Seq[kv.Entry], targetSize uint64) ([
 		for buffer.size < int(targetSize) {
 			entry, ok := next()
 			if !ok {
+				// Don't write an empty table when all entries are written
+				if len(buffer.entries) == 0 {
+					return tables, nil
+				}
 				t, err := c.Write(buffer.all())
 				if err != nil {
 					return nil, err
-- 
2.43.0


From d476b3b063b8ea0c63dd0de3e87e919b4028db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 12/41] fix: a bounded cursor with an empty range reads nothing

---
 dkv/storage/cursor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/storage/cursor.go b/dkv/storage/cursor.go
index 5ca5799..523906c 100644
--- a/dkv/storage/cursor.go
+++ b/dkv/storage/cursor.go
@@ -10,16 +10,17 @@ type Cursor struct {
 	File       io.ReaderAt
 	offset     int64
 	debug      bool
+	bounded    bool // A bounded cursor may have an empty range
 	startBound uint64
 	endBound   uint64
 }
 
 func NewBoundedCursor(reader io.ReaderAt, start, end uint64) *Cursor {
-	return &Cursor{File: reader, startBound: start, endBound: end}
+	return &Cursor{File: reader, bounded: true, startBound: start, endBound: end}
 }
 
 func (c *Cursor) Move(offset int64) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if offset < int64(c.startBound) {
 			panic(fmt.Sprintf("cursor move to %d before start bound %d", offset, c.startBound))
 		}
@@ -34,7 +35,7 @@ func (c *Cursor) Move(offset int64) {
 
 // Read implements io.Reader.
 func (c *Cursor) Read(p []byte) (n int, err error) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if c.offset >= int64(c.endBound) {
 			return 0, io.EOF
 		}
-- 
2.43.0


From cf8129764e175e0ece142ca385cf2ff1d6981d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 13/41] fix: a rotated WAL keeps the sequence numbers of the
 segments it carries over

---
 dkv/wal/writer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 8656180..892182f 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -90,11 +90,12 @@ func (w *Writer) Rotate(fs storage.FileSystem) *Writer {
 	nextLog.maxSize = w.maxSize
 	nextLog.latestSeqNum = w.latestSeqNum
 
-	// Include all data from previous buffers
+	// Include all data from previous buffers and keep track of their latest
+	// sequence numbers so that they aren't truncated before they're flushed.
 	for i, b := range w.sealedBuffers {
-		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf}
+		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf, latestSeqNum: b.latestSeqNum}
 	}
-	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf}
+	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf, latestSeqNum: w.latestSeqNum}
 
 	// And initialize a new active buffer
 	nextLog.activeBuffer = &bufferSegment{}
-- 
2.43.0


From 6de28a8eae1f645892725456b48f0a4e0ee5706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 14/41] fix: WAL reader includes the sequence number of deletes

---
 dkv/wal/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dkv/wal/reader.go b/dkv/wal/reader.go
index 21e146b..900524d 100644
--- a/dkv/wal/reader.go
+++ b/dkv/wal/reader.go
@@ -94,7 +94,7 @@ func (r *Reader) All() iter.Seq2[Entry, error] {
 				return
 			}
 			if wasDeleted {
-				if !yield(Entry{K: key, Deleted: true}, nil) {
+				if !yield(Entry{K: key, seqNum: seqNum, Deleted: true}, nil) {
 					return
 				}
 				continue
-- 
2.43.0


From d62f54e0c1d58d6ae71180a3bc76c587f98ee98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 15/41] fix: table documents encode binary keys without loss

---
 dkv/sst/table.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index baa830a..0aa5cd8 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -66,8 +66,8 @@ func NewTable(file storage.File) *Table {
 }
 
 type TableDocument struct {
-	StartKey    string
-	EndKey      string
+	StartKey    []byte // Keys are arbitrary bytes which a JSON string can't represent
+	EndKey      []byte
 	Size        uint64
 	EntriesSize uint64
 	URI         string
@@ -85,8 +85,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		file:        fs.Open(doc.URI),
 		size:        int64(doc.Size),
 		entriesSize: int64(doc.EntriesSize),
-		startKey:    []byte(doc.StartKey),
-		endKey:      []byte(doc.EndKey),
+		startKey:    doc.StartKey,
+		endKey:      doc.EndKey,
 		startSeqNum: doc.StartSeqNum,
 		endSeqNum:   doc.EndSeqNum,
 	}
@@ -101,8 +101,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 	params := CleanupParams{
 		deleteFunc:    t.file.CreateDeleteFunc(),
 		dataOwnership: dataOwnership,
-		startKey:      []byte(doc.StartKey),
-		endKey:        []byte(doc.EndKey),
+		startKey:      doc.StartKey,
+		endKey:        doc.EndKey,
 		uri:           doc.URI,
 	}
 
@@ -351,8 +351,8 @@ func (t *Table) ensureMetadataLoaded() {
 
 func (t *Table) Document() TableDocument {
 	return TableDocument{
-		StartKey:    string(t.startKey),
-		EndKey:      string(t.endKey),
+		StartKey:    t.startKey,
+		EndKey:      t.endKey,
 		Size:        uint64(t.size),
 		EntriesSize: uint64(t.entriesSize),
 		URI:         t.file.URI(),
-- 
2.43.0


From c1a492c0a6fb6cca50802bf91388dd9038e133ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 16/41] fix: a restored DKV doesn't reuse the file names of
 loaded tables

---
 dkv/db.go               |  1 +
 dkv/sst/table_writer.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/dkv/db.go b/dkv/db.go
index b15ca16..c664f90 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -135,6 +135,7 @@ func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
 	latestCP := db.checkpoints.Latest()
 	db.sstables = latestCP.Levels
 	db.seqNum = latestCP.Levels.LatestSeqNum
+	db.tableWriter.SkipLoaded(latestCP.Levels)
 
 	// Start a new writer that doesn't write to a file yet.
 	db.wal = wal.NewWriter(db.fs, latestCP.NextWALID(), db.maxWALSize)
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index d0ad022..df78659 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -5,6 +5,8 @@ import (
 	"iter"
 	"math"
 	"slices"
+	"strconv"
+	"strings"
 	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/fields"
@@ -29,6 +31,20 @@ func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	return &TableWriter{fs: fs, id: atomicNum}
 }
 
+// SkipLoaded advances the next table ID past the IDs of the tables in a loaded
+// LevelList so that new tables never overwrite their files.
+func (c *TableWriter) SkipLoaded(ll *LevelList) {
+	for level := range ll.DescendLevels() {
+		for t := range level.AllTables() {
+			id, err := strconv.ParseInt(strings.TrimSuffix(t.Name(), ".sst"), 10, 64)
+			if err != nil {
+				continue // Not a name created by a TableWriter
+			}
+			c.id.Store(max(c.id.Load(), id+1))
+		}
+	}
+}
+
 func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
-- 
2.43.0


From e632bab9ce7131a5f62cd4be9cdb2bead8c3c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 17/41] fix: a checkpoint restored from several instances can
 be saved in the next checkpoints file

---
 dkv/recovery/checkpoint.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 75981c5..ffaa7df 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -62,16 +62,13 @@ func (cp *Checkpoint) Destroy() error {
 }
 
 func (cp *Checkpoint) Document() checkpointDocument {
-	if len(cp.WALs) > 1 {
-		panic("should not serialize a checkpoint with multiple WALs")
-	}
 	doc := checkpointDocument{
 		ID:         cp.ID,
 		Levels:     cp.Levels.Document(),
 		LastSeqNum: cp.LastSeqNum,
 	}
-	if len(cp.WALs) == 1 {
-		doc.WALs = []wal.HandleDocument{cp.WALs[0].Document()}
+	for _, w := range cp.WALs {
+		doc.WALs = append(doc.WALs, w.Document())
 	}
 
 	return doc
-- 
2.43.0


From f07c84788ed8243c7bf452ad0eca77118e346cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 18/41] fix: tables of checkpoints merged from several
 instances go to L0, each once

---
 dkv/recovery/checkpoint_list.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index eba92ae..26a1daf 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -160,14 +160,24 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 
 	// Merge the checkpoint documents into the first
 	compositeCheckpointDoc, rest := checkpointDocs[0], checkpointDocs[1:]
+	if len(rest) > 0 {
+		// Tables of different instances may overlap and be shared so the only valid
+		// place for them is L0, each table once.
+		levels := make([][]sst.TableDocument, len(compositeCheckpointDoc.Levels))
+		tableURIs := ds.NewSet[string](0)
+		for _, doc := range checkpointDocs {
+			for _, table := range slices.Concat(doc.Levels...) {
+				if !tableURIs.Has(table.URI) {
+					tableURIs.Add(table.URI)
+					levels[0] = append(levels[0], table)
+				}
+			}
+		}
+		compositeCheckpointDoc.Levels = levels
+	}
 	for _, doc := range rest {
-		// Merge WAL handles
 		compositeCheckpointDoc.WALs = append(compositeCheckpointDoc.WALs, doc.WALs...)
-
-		// Merge level list
-		for levelIndex, level := range doc.Levels {
-			compositeCheckpointDoc.Levels[levelIndex] = append(compositeCheckpointDoc.Levels[levelIndex], level...)
-		}
+		compositeCheckpointDoc.LastSeqNum = max(compositeCheckpointDoc.LastSeqNum, doc.LastSeqNum)
 	}
 
 	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
-- 
2.43.0


From 57ef0aa6aefff91f65b81c9fc46e46a3689c2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 19/41] fix: CheckpointList is safe for concurrent use and
 saves in order

---
 dkv/recovery/checkpoint_list.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 26a1daf..74b90d5 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"sync"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -19,6 +20,9 @@ const checkpointsFileName = "checkpoints"
 type CheckpointList struct {
 	checkpoints               []*Checkpoint
 	checkpointsPendingRemoval []*Checkpoint // Track removed checkpoints so they can be destroyed on Save
+
+	mu     sync.Mutex // Protects the lists of checkpoints
+	saveMu sync.Mutex // Serializes Save so that an older list never overwrites a newer one
 }
 
 func NewCheckpointList() *CheckpointList {
@@ -40,15 +44,23 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
 		LastSeqNum: lastSeqNum,
 	}
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
 
 func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
+	cl.saveMu.Lock()
+	defer cl.saveMu.Unlock()
+
 	// Collect a list of checkpoint docs for serialization
+	cl.mu.Lock()
 	checkpointDocs := make([]checkpointDocument, len(cl.checkpoints))
 	for i, ckpt := range cl.checkpoints {
 		checkpointDocs[i] = ckpt.Document()
 	}
+	pendingRemoval := slices.Clone(cl.checkpointsPendingRemoval)
+	cl.mu.Unlock()
 	doc := checkpointListDocument{
 		Checkpoints: checkpointDocs,
 	}
@@ -69,14 +81,16 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	}
 
 	// Call cp.Destroy() to delete WAL files
-	for _, cp := range cl.checkpointsPendingRemoval {
+	for _, cp := range pendingRemoval {
 		if err := cp.Destroy(); err != nil {
 			return "", err
 		}
 	}
 
-	// Clear the list of pending checkpoints
-	cl.checkpointsPendingRemoval = nil
+	// Clear the destroyed checkpoints from the list of pending checkpoints
+	cl.mu.Lock()
+	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
+	cl.mu.Unlock()
 
 	return file.URI(), nil
 }
@@ -92,6 +106,8 @@ func (cl *CheckpointList) Latest() *Checkpoint {
 // RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
 // aren't really removed until the next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	idsSet := ds.SetOf(ids...)
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
@@ -109,6 +125,8 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	for _, cp := range cl.checkpoints {
 		if cp.IncludesTable(uri) {
 			return true
-- 
2.43.0


From 869050b7ddfc1613572ef74fbee0610722811917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 20/41] fix: a retention update doesn't drop checkpoints newer
 than those it lists

---
 dkv/recovery/checkpoint_list.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 74b90d5..7c2130e 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -103,15 +103,21 @@ func (cl *CheckpointList) Latest() *Checkpoint {
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
-// RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
-// aren't really removed until the next successful Save.
+// RetainOnly keeps the checkpoints with the specified IDs in the list and the
+// checkpoints newer than those, which may have been started or completed since
+// the IDs were determined. Other checkpoints aren't really removed until the
+// next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
 	cl.mu.Lock()
 	defer cl.mu.Unlock()
 	idsSet := ds.SetOf(ids...)
+	var latestID uint64
+	for _, id := range ids {
+		latestID = max(latestID, id)
+	}
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
-		if idsSet.Has(cp.ID) {
+		if idsSet.Has(cp.ID) || cp.ID > latestID {
 			nextCheckpoints = append(nextCheckpoints, cp)
 		} else {
 			cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, cp)
-- 
2.43.0


From 8a091883cd3a7cae8a88224df3d6ec53365e81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 21/41] fix: deleting the WALs of a dropped checkpoint
 tolerates missing and unsaved files

---
 dkv/wal/handle.go | 19 ++++++++++++++++---
 dkv/wal/writer.go | 30 ++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/dkv/wal/handle.go b/dkv/wal/handle.go
index 5e605b6..0230ada 100644
--- a/dkv/wal/handle.go
+++ b/dkv/wal/handle.go
@@ -1,7 +1,9 @@
 package wal
 
 import (
+	"errors"
 	"fmt"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -13,16 +15,27 @@ import (
 // when it's no longer needed. Handle's are only created within the context of a
 // checkpoint.
 type Handle struct {
-	ID   int
-	file storage.File
+	ID     int
+	file   storage.File
+	writer *Writer // The writer that will save the file, if it was created by this process
 
 	// The sequence number to begin reading WAL entries. This is a recovery
 	// startup optimization.
 	After uint64
 }
 
+// Delete removes the WAL file. It's fine if the file was already removed because
+// DKV instances restored from the same checkpoint share WAL files, or if it
+// hasn't been saved yet.
 func (h Handle) Delete() error {
-	return h.file.Delete()
+	if h.writer != nil && !h.writer.discard() {
+		return nil
+	}
+	err := h.file.Delete()
+	if errors.Is(err, storage.ErrNotFound) || errors.Is(err, os.ErrNotExist) {
+		return nil
+	}
+	return err
 }
 
 func (h Handle) Name() string {
diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 892182f..fc5afd3 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -19,6 +19,9 @@ type Writer struct {
 	maxSize       uint64           // Maximum size of the log file
 	sealed        atomic.Bool      // Whether the writer is immutable
 	mu            sync.Mutex       // Protects sealedBuffers for concurrent operations on unsealed writers
+	saveMu        sync.Mutex       // Protects saved and discarded
+	saved         bool             // Whether the file exists
+	discarded     bool             // Whether the file isn't needed anymore
 }
 
 // NewWriter creates a new WAL writer.
@@ -120,9 +123,10 @@ func (w *Writer) Cut() {
 
 func (w *Writer) Handle(after uint64) Handle {
 	return Handle{
-		ID:    w.id,
-		file:  w.file,
-		After: after,
+		ID:     w.id,
+		file:   w.file,
+		writer: w,
+		After:  after,
 	}
 }
 
@@ -161,6 +165,12 @@ func (w *Writer) Save() error {
 		panic("writer must be sealed with Rotate() before saving")
 	}
 
+	w.saveMu.Lock()
+	defer w.saveMu.Unlock()
+	if w.discarded {
+		return fmt.Errorf("WAL %s was deleted before it was saved", w.file.Name())
+	}
+
 	// Write all sealed buffers to the file
 	for _, buf := range w.sealedBuffers {
 		if _, err := io.Copy(w.file, buf); err != nil {
@@ -171,7 +181,19 @@ func (w *Writer) Save() error {
 	if _, err := io.Copy(w.file, w.activeBuffer); err != nil {
 		return err
 	}
-	return w.file.Save()
+	if err := w.file.Save(); err != nil {
+		return err
+	}
+	w.saved = true
+	return nil
+}
+
+// discard prevents the log from being saved and returns whether it already was.
+func (w *Writer) discard() (saved bool) {
+	w.saveMu.Lock()
+	defer w.saveMu.Unlock()
+	w.discarded = true
+	return w.saved
 }
 
 func FileName(id int) string {
-- 
2.43.0


From a067dc347cd54066ad425d2d489084801a8ef3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 22/41] fix: table files of retained checkpoints survive the
 garbage collection of their DKV

---
 dkv/recovery/checkpoint_list.go |  9 +++++
 dkv/sst/level_list.go           | 18 +++++++++
 dkv/sst/table.go                | 67 +++++++++++++++++++++++++--------
 3 files changed, 78 insertions(+), 16 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 7c2130e..31aa01f 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -44,6 +44,9 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
 		LastSeqNum: lastSeqNum,
 	}
+	// The table files must survive this DKV instance
+	cp.Levels.Pin()
+
 	cl.mu.Lock()
 	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
@@ -87,6 +90,11 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 		}
 	}
 
+	// The tables only used by destroyed checkpoints can be deleted
+	for _, cp := range pendingRemoval {
+		cp.Levels.Unpin()
+	}
+
 	// Clear the destroyed checkpoints from the list of pending checkpoints
 	cl.mu.Lock()
 	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
@@ -205,6 +213,7 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 	}
 
 	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
+	compositeCheckpoint.Levels.Pin()
 
 	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
 }
diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index b95d4c1..a8ba5d1 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -123,6 +123,24 @@ func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry]
 	}
 }
 
+// Pin prevents the deletion of all the table files until Unpin is called.
+func (ll *LevelList) Pin() {
+	for _, level := range ll.levels {
+		for t := range level.AllTables() {
+			t.Pin()
+		}
+	}
+}
+
+// Unpin releases the tables pinned by a previous call to Pin on this LevelList.
+func (ll *LevelList) Unpin() {
+	for _, level := range ll.levels {
+		for t := range level.AllTables() {
+			t.Unpin()
+		}
+	}
+}
+
 // A worst case estimate of the amount of extra space used. Zero means
 // "perfect", 1 means 2x space used, 2 means 3x space used. The calculation is
 // (size(R1) + size(R2) + ... size(Rn-1)) / size(Rn)
diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 0aa5cd8..757e3e2 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -45,6 +45,12 @@ type Table struct {
 	endSeqNum      uint64
 	metadataLoaded bool
 	metadataMu     sync.Mutex // Protects metadataLoaded field and loadFooter calls
+
+	// The file is deleted when the table is garbage collected unless it's pinned.
+	addCleanup func(t *Table) runtime.Cleanup
+	cleanup    runtime.Cleanup
+	pinCount   int
+	pinMu      sync.Mutex // Protects cleanup and pinCount
 }
 
 // NewTable initializes a new, empty table
@@ -56,11 +62,15 @@ func NewTable(file storage.File) *Table {
 		size:        0,
 	}
 
-	runtime.AddCleanup(t, func(f func() error) {
-		if err := f(); err != nil {
-			slog.Error("table cleanup", "err", err)
-		}
-	}, file.CreateDeleteFunc())
+	deleteFunc := file.CreateDeleteFunc()
+	t.addCleanup = func(t *Table) runtime.Cleanup {
+		return runtime.AddCleanup(t, func(f func() error) {
+			if err := f(); err != nil {
+				slog.Error("table cleanup", "err", err)
+			}
+		}, deleteFunc)
+	}
+	t.cleanup = t.addCleanup(t)
 
 	return t
 }
@@ -106,23 +116,48 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		uri:           doc.URI,
 	}
 
-	runtime.AddCleanup(t, func(p CleanupParams) {
-		canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
-		if err != nil {
-			slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
-		}
-
-		if canDelete {
-			err := p.deleteFunc()
+	t.addCleanup = func(t *Table) runtime.Cleanup {
+		return runtime.AddCleanup(t, func(p CleanupParams) {
+			canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
 			if err != nil {
-				slog.Error("failed deleting table", "uri", p.uri, "err", err)
+				slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
+				return
 			}
-		}
-	}, params)
+
+			if canDelete {
+				err := p.deleteFunc()
+				if err != nil {
+					slog.Error("failed deleting table", "uri", p.uri, "err", err)
+				}
+			}
+		}, params)
+	}
+	t.cleanup = t.addCleanup(t)
 
 	return t
 }
 
+// Pin keeps the table's file when the table is garbage collected until a
+// matching call to Unpin. Files of retained checkpoints are pinned because they
+// need to outlive the DKV instance: another instance may be restored from them.
+func (t *Table) Pin() {
+	t.pinMu.Lock()
+	defer t.pinMu.Unlock()
+	t.pinCount++
+	if t.pinCount == 1 {
+		t.cleanup.Stop()
+	}
+}
+
+func (t *Table) Unpin() {
+	t.pinMu.Lock()
+	defer t.pinMu.Unlock()
+	t.pinCount--
+	if t.pinCount == 0 {
+		t.cleanup = t.addCleanup(t)
+	}
+}
+
 func (t *Table) Get(key []byte) (kv.Entry, error) {
 	t.ensureMetadataLoaded()
 	if !t.filter.MightHave(key) {
-- 
2.43.0


From c79c333bc196ffbdeaeb60c4f02b510a6f5e5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 23/41] fix: NeedsTable knows the tables of checkpoints taken
 since the DKV was opened

---
 dkv/recovery/checkpoint.go      | 24 ++++++++++++++----------
 dkv/recovery/checkpoint_list.go |  9 +++++----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index ffaa7df..39a0e5e 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -30,25 +30,29 @@ func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwner
 		walHandles[i] = wal.NewHandle(fs, doc)
 	}
 
+	return &Checkpoint{
+		ID:          uint64(doc.ID),
+		WALs:        walHandles,
+		Levels:      sst.NewLevelListFromDocument(fs, dataOwnership, doc.Levels),
+		tableURIset: newTableURISet(doc.Levels),
+		LastSeqNum:  doc.LastSeqNum,
+	}
+}
+
+// newTableURISet indexes the table files of a checkpoint's levels.
+func newTableURISet(levels [][]sst.TableDocument) map[string]struct{} {
 	tableCount := 0
-	for _, level := range doc.Levels {
+	for _, level := range levels {
 		tableCount += len(level)
 	}
 
 	tableURISet := make(map[string]struct{}, tableCount)
-	for _, level := range doc.Levels {
+	for _, level := range levels {
 		for _, tableDoc := range level {
 			tableURISet[tableDoc.URI] = struct{}{}
 		}
 	}
-
-	return &Checkpoint{
-		ID:          uint64(doc.ID),
-		WALs:        walHandles,
-		Levels:      sst.NewLevelListFromDocument(fs, dataOwnership, doc.Levels),
-		tableURIset: tableURISet,
-		LastSeqNum:  doc.LastSeqNum,
-	}
+	return tableURISet
 }
 
 func (cp *Checkpoint) Destroy() error {
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 31aa01f..80d295d 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -39,10 +39,11 @@ type CheckpointHandle struct {
 // Checkpoint is responsible for the LevelList and WAL cleanup when destroyed.
 func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) {
 	cp := &Checkpoint{
-		ID:         ckptID,
-		Levels:     ll,
-		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
-		LastSeqNum: lastSeqNum,
+		ID:          ckptID,
+		Levels:      ll,
+		WALs:        []wal.Handle{w.Handle(ll.LatestSeqNum)},
+		tableURIset: newTableURISet(ll.Document()),
+		LastSeqNum:  lastSeqNum,
 	}
 	// The table files must survive this DKV instance
 	cp.Levels.Pin()
-- 
2.43.0


From 570aea7c6ada6a25f51a26ab3d1a94a119b8e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 24/41] fix: tables are only deleted when no operator of the
 current deployment needs them

---
 workers/operator/operator.go           | 12 +++++++-
 workers/operator/operator_partition.go | 39 +++++++++++++-------------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 835de06..24f0a35 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -49,6 +49,7 @@ type Operator struct {
 	sink           connectors.SinkWriter
 	registerPoller *clocks.Ticker
 	keyGroupRange  partitioning.KeyGroupRange
+	partition      *OperatorPartition
 	db             *dkv.DB
 	stateStore     *KeyedStateStore
 	timerRegistry  *TimerRegistry
@@ -207,11 +208,17 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
 
+	// The DKV of a previous deployment doesn't know the operators of this one.
+	if o.partition != nil {
+		o.partition.supersede()
+	}
+	o.partition = newOperatorPartition(o.keyGroupRange, neighborPartitions)
+
 	// Start the DKV database.
 	o.db = dkv.Open(dkv.DBOptions{
 		FileSystem:    fs,
 		Logger:        o.Logger,
-		DataOwnership: newOperatorPartition(o.keyGroupRange, neighborPartitions),
+		DataOwnership: o.partition,
 	}, ckptHandles)
 	o.stateStore = NewKeyedStateStore(o.db, o.keySpace)
 	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, size.GB), req.SourceRunnerIds)
@@ -232,6 +239,9 @@ func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.Up
 }
 
 func (o *Operator) HandleNeedsTable(fileURI string) bool {
+	if o.db == nil {
+		return true // The checkpoint being loaded may include the table
+	}
 	return o.db.NeedsTable(fileURI)
 }
 
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index 91a04f5..06156c5 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -3,6 +3,7 @@ package operator
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/partitioning"
@@ -12,6 +13,7 @@ import (
 type OperatorPartition struct {
 	keyGroupRange partitioning.KeyGroupRange
 	neighbors     []neighborPartition
+	superseded    atomic.Bool // Set when the operator is deployed again
 }
 
 func newOperatorPartition(keyGroupRange partitioning.KeyGroupRange, neighbors []neighborPartition) *OperatorPartition {
@@ -27,13 +29,15 @@ func (o *OperatorPartition) OwnsKey(key []byte) bool {
 }
 
 func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
-	// If this partition owns the entire key range then there's no need to check
-	// other operators.
-	otherRange := partitioning.KeyGroupRangeFromBytes(startKey[:2], endKey[:2])
-	if o.keyGroupRange.Contains(otherRange) {
-		return true, nil
+	// Operators of the next deployment which aren't known here may need the table.
+	if o.superseded.Load() {
+		return false, nil
 	}
 
+	// Every neighbor has to be asked, even if this partition owns the entire key
+	// range of the table. Operators restore from whole checkpoints of the previous
+	// operators so they may use tables outside of their key group range.
+
 	// Setup context to race the NeedsTable calls.
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -46,7 +50,7 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 	results := make(chan result, len(o.neighbors))
 	for _, neighbor := range o.neighbors {
 		go func() {
-			needsTable, err := neighbor.NeedsTable(ctx, uri, startKey, endKey)
+			needsTable, err := neighbor.NeedsTable(ctx, uri)
 			results <- result{needsTable, err}
 			if needsTable {
 				cancel() // Can cancel the other NeedsTable calls
@@ -69,7 +73,14 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 		}
 	}
 
-	return !neighborNeedsTable, err
+	// A neighbor which didn't answer may need the table.
+	return !neighborNeedsTable && err == nil, err
+}
+
+// supersede prevents the deletion of tables which might be used by operators of
+// the next deployment.
+func (o *OperatorPartition) supersede() {
+	o.superseded.Store(true)
 }
 
 var _ kv.DataOwnership = &OperatorPartition{}
@@ -79,18 +90,6 @@ type neighborPartition struct {
 	operator      proto.Operator
 }
 
-func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string, startKey []byte, endKey []byte) (bool, error) {
-	// Derive the key group range from the start and end keys of a table.
-	tableKeyGroupRange := partitioning.KeyGroupRange{
-		Start: int(partitioning.KeyGroupFromBytes(startKey[:2])),
-		End:   int(partitioning.KeyGroupFromBytes(endKey[:2])) + 1,
-	}
-
-	// If the neighboring operator's key group range doesn't intersect with the
-	// table's key range then we don't need to ask if it needs the table.
-	if !o.keyGroupRange.Overlaps(tableKeyGroupRange) {
-		return false, nil
-	}
-
+func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string) (bool, error) {
 	return o.operator.NeedsTable(ctx, filePath)
 }
-- 
2.43.0


From c66b168b0af563b2ab235ca49dca807234d376d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 25/41] fix: a redeployed operator doesn't write its DKV files
 over those of its previous deployment

---
 workers/operator/operator.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 24f0a35..a1e19f0 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -50,6 +50,7 @@ type Operator struct {
 	registerPoller *clocks.Ticker
 	keyGroupRange  partitioning.KeyGroupRange
 	partition      *OperatorPartition
+	deployCount    int
 	db             *dkv.DB
 	stateStore     *KeyedStateStore
 	timerRegistry  *TimerRegistry
@@ -202,8 +203,15 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.status.LoadingStarted()
 	dkvOpenStart := time.Now()
 
-	// Initialize the DKV filesystem using the ID for a prefix
-	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id))
+	// Initialize the DKV filesystem using the ID for a prefix. The DKV of a
+	// previous deployment may still be writing its files, and retained checkpoints
+	// reference them, so every deployment has its own directory.
+	dkvDir := o.id
+	if o.deployCount > 0 {
+		dkvDir = fmt.Sprintf("%s-%d", o.id, o.deployCount)
+	}
+	o.deployCount++
+	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, dkvDir))
 	if err != nil {
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
-- 
2.43.0


From f39ebd62c0f3eef5915ac11fc4d5476eea7b8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 26/41] fix: a partial major compaction doesn't merge newer
 levels beneath tables it left

---
 dkv/sst/compaction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/compaction.go b/dkv/sst/compaction.go
index 5bfeef4..cd3b75a 100644
--- a/dkv/sst/compaction.go
+++ b/dkv/sst/compaction.go
@@ -53,16 +53,18 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 	// Go through all non-base levels from oldest to newest and pick tables to
 	// merge into base level.
 	var tablesToMerge []*Table
+pickTables:
 	for level := range levels.AscendLevels(1) {
 		tableIter := slices.SortedFunc(level.AllTables(), OrderOldToNew)
 
 		// Keep adding tables and recalculating SAR until we've met the Space
-		// Amplification goal.
+		// Amplification goal. Then leave the newer levels alone because merging
+		// their tables would put them beneath the tables that weren't picked.
 		for _, candidate := range tableIter {
 			sar = sar.WithCompactedBytes(int64(candidate.Size()))
 			tablesToMerge = append(tablesToMerge, candidate)
 			if sar.Percentage() < c.MaxSizeAmplificationPercent {
-				break
+				break pickTables
 			}
 		}
 	}
-- 
2.43.0


From 092a6d2eff903cc03b9e8047eca47ead39cb4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 27/41] verif hook: tune DKV options and timer cache size at
 simulation scale (build tag verif)

---
 dkv/db.go                        | 2 ++
 dkv/tuning.go                    | 6 ++++++
 dkv/tuning_verif.go              | 8 ++++++++
 workers/operator/operator.go     | 2 +-
 workers/operator/tuning.go       | 6 ++++++
 workers/operator/tuning_verif.go | 8 ++++++++
 6 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 dkv/tuning.go
 create mode 100644 dkv/tuning_verif.go
 create mode 100644 workers/operator/tuning.go
 create mode 100644 workers/operator/tuning_verif.go

diff --git a/dkv/db.go b/dkv/db.go
index c664f90..597260a 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -59,6 +59,8 @@ func Open(options DBOptions, initCheckpoints []recovery.CheckpointHandle) *DB {
 }
 
 func New(options DBOptions) *DB {
+	tuneOptions(&options)
+
 	// Default size to 64 MB
 	if options.MemTableSize == 0 {
 		options.MemTableSize = 64 * size.MB
diff --git a/dkv/tuning.go b/dkv/tuning.go
new file mode 100644
index 0000000..942798c
--- /dev/null
+++ b/dkv/tuning.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package dkv
+
+// tuneOptions is a hook to run databases at simulation scale.
+func tuneOptions(*DBOptions) {}
diff --git a/dkv/tuning_verif.go b/dkv/tuning_verif.go
new file mode 100644
index 0000000..a674668
--- /dev/null
+++ b/dkv/tuning_verif.go
@@ -0,0 +1,8 @@
+//go:build verif
+
+package dkv
+
+// TuneOptions adjusts the options of every database created afterwards.
+var TuneOptions = func(*DBOptions) {}
+
+func tuneOptions(options *DBOptions) { TuneOptions(options) }
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index a1e19f0..402b6b2 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -229,7 +229,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		DataOwnership: o.partition,
 	}, ckptHandles)
 	o.stateStore = NewKeyedStateStore(o.db, o.keySpace)
-	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, size.GB), req.SourceRunnerIds)
+	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, tuneTimerCache(size.GB)), req.SourceRunnerIds)
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
diff --git a/workers/operator/tuning.go b/workers/operator/tuning.go
new file mode 100644
index 0000000..2f00b3f
--- /dev/null
+++ b/workers/operator/tuning.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package operator
+
+// tuneTimerCache is a hook to run timer caches at simulation scale.
+func tuneTimerCache(cacheSize uint64) uint64 { return cacheSize }
diff --git a/workers/operator/tuning_verif.go b/workers/operator/tuning_verif.go
new file mode 100644
index 0000000..6671f11
--- /dev/null
+++ b/workers/operator/tuning_verif.go
@@ -0,0 +1,8 @@
+//go:build verif
+
+package operator
+
+// TuneTimerCache replaces the size of the timer caches created afterwards.
+var TuneTimerCache = func(cacheSize uint64) uint64 { return cacheSize }
+
+func tuneTimerCache(cacheSize uint64) uint64 { return TuneTimerCache(cacheSize) }
-- 
2.43.0


From 84d4235838bfbc3493c197f0c212369feff36bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 28/41] fix: the timer queue lost or mis-ordered timers that
 exceed its cache

Loading the cache marked it complete even when it had stopped at the size
limit, so the remaining timers were never loaded again. A new timer sorting
after the cached ones of an incomplete cache was cached although earlier
timers were only in the db.
---
 util/ds/sorted_cache.go         |  4 ++++
 workers/operator/timer_store.go | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index f3e3e98..75c830b 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -48,6 +48,10 @@ func (s *SortedCache) Peek() (min []byte, ok bool) {
 	return s.tree.Min()
 }
 
+func (s *SortedCache) PeekLast() (max []byte, ok bool) {
+	return s.tree.Max()
+}
+
 func (s *SortedCache) Delete(key []byte) {
 	deleted, ok := s.tree.Delete(key)
 	if ok {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 3f2ab50..fe12e81 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -145,6 +145,13 @@ func (pq *KeyGroupPriorityQueue) Pop() ([]byte, bool) {
 
 func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 	pq.loadFromDB()
+
+	// The cache holds the first items of the db, so an item sorting after the
+	// cached ones may have uncached items before it and stays only in the db.
+	if last, ok := pq.cache.PeekLast(); !pq.allDataInCache && ok && bytes.Compare(data, last) > 0 {
+		pq.db.Put(data, nil)
+		return
+	}
 	pq.cache.Push(data)
 
 	// If pushing the item exceeded the cache capacity, evict items until we're back under the limit
@@ -176,7 +183,7 @@ func (pq *KeyGroupPriorityQueue) Delete(data []byte) {
 	pq.db.Delete(data)
 }
 
-// Load all of the given KeyGroup's data into the cache.
+// Load the given KeyGroup's data, as far as it fits, into the empty cache.
 func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	if !pq.cache.IsEmpty() || pq.allDataInCache {
 		return
@@ -187,16 +194,18 @@ func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	prefix[2] = 0x01 // Schema byte
 
 	var err error
+	allDataInCache := true
 	for entry := range pq.db.ScanPrefix(prefix, &err) {
 		pq.cache.Push(entry.Key())
 		if pq.cache.IsFull() {
+			allDataInCache = false // the db may have more
 			break
 		}
 	}
 	if err != nil {
 		panic(err)
 	}
-	pq.allDataInCache = true
+	pq.allDataInCache = allDataInCache
 }
 
 var _ ds.QueuePartition[[]byte] = &KeyGroupPriorityQueue{}
-- 
2.43.0


From d02977ce97bced58297d4aa2aa96f8f2e89817d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 29/41] fix: the handler was told a watermark of year 1 before
 any upstream reported

An upstream that hasn't reported counts as the epoch, for the watermark
given to the handler and for timers set as well.
---
 workers/operator/timer_registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 3f42798..1ef8d1d 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -33,6 +33,7 @@ func NewTimerRegistry(store *TimerStore, srIDs []string) *TimerRegistry {
 	return &TimerRegistry{
 		upstreams: upstreams,
 		store:     store,
+		watermark: time.Unix(0, 0), // the minimum of the upstreams before any reports
 	}
 }
 
-- 
2.43.0


From 52a8c9631a3c8c5a7cd452c47434129911d68434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 30/41] fix: operator checkpoints recorded out of key group
 order are all assigned on redeploy

---
 partitioning/key_space.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/partitioning/key_space.go b/partitioning/key_space.go
index 93c79c5..ca948eb 100644
--- a/partitioning/key_space.go
+++ b/partitioning/key_space.go
@@ -92,21 +92,14 @@ func keyGroupRanges(keyGroupCount, rangeCount int) []KeyGroupRange {
 
 // Return a slice where each slice index corresponds to an item in `to` where
 // the value is a list of KegGroup indices assigned from the `from`
-// KeyGroupRanges.
+// KeyGroupRanges. The `from` ranges may be in any order.
 func AssignRanges(to []KeyGroupRange, from []KeyGroupRange) [][]int {
 	assignments := make([][]int, len(to))
-	fromIdx := 0
 	for toIdx, toRange := range to {
-		// Advance fromIdx to the first possible overlap
-		for fromIdx < len(from) && from[fromIdx].End <= toRange.Start {
-			fromIdx++
-		}
-		j := fromIdx
-		for j < len(from) && from[j].Start < toRange.End {
-			if toRange.Overlaps(from[j]) {
-				assignments[toIdx] = append(assignments[toIdx], j)
+		for fromIdx, fromRange := range from {
+			if toRange.Overlaps(fromRange) {
+				assignments[toIdx] = append(assignments[toIdx], fromIdx)
 			}
-			j++
 		}
 	}
 	return assignments
-- 
2.43.0


From f7f039e0eae0c7280f3a1db39effbbb2185bd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 31/41] fix: no operator checkpoint is taken when handling the
 events before its barriers failed

---
 workers/operator/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 402b6b2..0a132ef 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -361,7 +361,10 @@ func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string,
 	}
 
 	if o.checkpoint.hasAllBarriers() {
-		o.processEventBatch(ctx, batching.CurrentBatch) // Must flush any pending events before checkpointing
+		// Must flush any pending events before checkpointing
+		if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
+			return fmt.Errorf("flushing events before checkpoint: %w", err)
+		}
 		cp, err := o.db.Checkpoint(o.checkpoint.checkpointID)()
 		if err != nil {
 			return err
-- 
2.43.0


From 8bc9cbb19eafba075904fdd5bf97912eb5a00ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 32/41] fix: state of namespaces longer than 255 bytes isn't
 mixed up

---
 workers/operator/keyed_state_store.go | 33 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/workers/operator/keyed_state_store.go b/workers/operator/keyed_state_store.go
index b2c6c54..d808fbc 100644
--- a/workers/operator/keyed_state_store.go
+++ b/workers/operator/keyed_state_store.go
@@ -11,6 +11,10 @@ import (
 	"reduction.dev/reduction/partitioning"
 )
 
+// Namespaces of at least this length are encoded as this byte followed by a
+// uint32 length.
+const longNamespace = 255
+
 // KeyedStateStore uses a DKV database to store and retrieve user-provided state
 // entries from the handler function. It is an adapter responsible for encoding
 // and decoding composite keys for DKV.
@@ -76,8 +80,13 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 // Schema is 0x00, subject-key and namespace are length encoded and data is the
 // data bytes as-is.
 func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data []byte) []byte {
-	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte + namespace + data
-	buf := make([]byte, 2+1+4+len(subjectKey)+1+len(namespace)+len(data))
+	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte
+	// (+ 4 length bytes of a long namespace) + namespace + data
+	size := 2 + 1 + 4 + len(subjectKey) + 1 + len(namespace) + len(data)
+	if len(namespace) >= longNamespace {
+		size += 4
+	}
+	buf := make([]byte, size)
 	offset := 0
 
 	// Key group prefix
@@ -97,8 +106,14 @@ func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data
 	offset += copy(buf[offset:], subjectKey)
 
 	// Namespace length
-	buf[offset] = uint8(len(namespace))
-	offset += 1
+	if len(namespace) < longNamespace {
+		buf[offset] = uint8(len(namespace))
+		offset += 1
+	} else {
+		buf[offset] = longNamespace
+		binary.BigEndian.PutUint32(buf[offset+1:], uint32(len(namespace)))
+		offset += 5
+	}
 
 	// Namespace content
 	offset += copy(buf[offset:], namespace)
@@ -143,7 +158,15 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
 		panic(err)
 	}
-	namespace = make([]byte, namespaceLen)
+	if namespaceLen < longNamespace {
+		namespace = make([]byte, namespaceLen)
+	} else {
+		var longNamespaceLen uint32
+		if err := binary.Read(r, binary.BigEndian, &longNamespaceLen); err != nil {
+			panic(err)
+		}
+		namespace = make([]byte, longNamespaceLen)
+	}
 	if err := binary.Read(r, binary.BigEndian, &namespace); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 225c99b2e609d937ab0aa77ce540482be830b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 33/41] fix: restarting the job in one process replaces the
 source splitter of its checkpoints

Registering the new splitter next to the old one made completing the next
checkpoint panic.
---
 storage/snapshots/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 8759f1c..87bcd01 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -161,10 +161,12 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	return nil
 }
 
+// RegisterSourceSplitter sets the splitter whose state is part of the following
+// checkpoints. It replaces the splitter registered when the job last started.
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-	s.sourceSplitters = append(s.sourceSplitters, splitter)
+	s.sourceSplitters = []connectors.SourceSplitter{splitter}
 }
 
 func (s *Store) finishSnapshot(snap *jobSnapshot) {
-- 
2.43.0


From a6c1aef184d00e8f9418c7f1a0e32cf86001bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 34/41] fix: a repeated source runner acknowledgement doesn't
 add its splits to the checkpoint again

---
 storage/snapshots/snapshot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index eedb3fb..b1a4c0f 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -78,6 +78,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	}
 	if wasCompleted {
 		slog.Warn("received another source runner checkpoint from same id", "id", ckpt.SourceRunnerId)
+		return nil
 	}
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
-- 
2.43.0


From 7227aa63caad0154ac6b5f5197ce693bc72a88f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 35/41] fix: a crash while writing to a local directory doesn't
 leave a partial file

---
 storage/locations/local_directory.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 83f95ad..d358641 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -32,27 +32,40 @@ func (d *LocalDirectory) Write(fname string, reader io.Reader) (string, error) {
 		return "", fmt.Errorf("Directory.Write error creating directory %s: %w", d.Path, err)
 	}
 
-	targetFile, err := os.Create(fullPath)
+	// Write to a temporary file first so that the target only ever has complete
+	// contents, even when the process dies while writing.
+	tmpPath := fullPath + ".tmp"
+	tmpFile, err := os.Create(tmpPath)
 	if err != nil {
-		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
+		return "", fmt.Errorf("Directory.Write creating file %s: %w", tmpPath, err)
 	}
+	defer os.Remove(tmpPath) // Has no effect once the file is renamed
+	defer tmpFile.Close()
 
-	_, err = io.Copy(targetFile, reader)
+	_, err = io.Copy(tmpFile, reader)
 	if err != nil {
 		return "", err
 	}
-	err = targetFile.Close()
+	err = tmpFile.Sync()
 	if err != nil {
 		return "", err
 	}
+	err = tmpFile.Close()
+	if err != nil {
+		return "", err
+	}
+	err = os.Rename(tmpPath, fullPath)
+	if err != nil {
+		return "", fmt.Errorf("Directory.Write renaming %s: %w", tmpPath, err)
+	}
 
 	for _, s := range d.subscriptions {
 		s <- FileEvent{
-			Path: targetFile.Name(),
+			Path: fullPath,
 			Op:   OpCreate,
 		}
 	}
-	return targetFile.Name(), nil
+	return fullPath, nil
 }
 
 // Read accepts both relative and absolute paths or URIs.
-- 
2.43.0


From c5716042f0bb608fbf4ff1b0f9a9784b7cad0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 36/41] fix: overlapping publications of consecutive
 checkpoints can't end in the older one

Snapshots are published in the order they were finished, and retention
notifications name the newest completed checkpoint in order. An older
snapshot that was written later used to replace the newer one, delete its
file and be announced as the only checkpoint to retain.
---
 storage/snapshots/store.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 87bcd01..daf328d 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -30,6 +30,8 @@ type Store struct {
 	state                      storeState
 	stateMu                    sync.Mutex
 	sourceSplitters            []connectors.SourceSplitter
+	published                  chan struct{} // closed when the latest finished snapshot's publication ended
+	retainedMu                 sync.Mutex    // keeps retained checkpoints notifications in order
 }
 
 type storeState struct {
@@ -176,8 +178,17 @@ func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	}
 	snap.splitterState = s.sourceSplitters[0].Checkpoint()
 
+	// Publish snapshots in the order they were finished
+	previous := s.published
+	published := make(chan struct{})
+	s.published = published
+
 	go func() {
+		if previous != nil {
+			<-previous
+		}
 		uri, err := s.finishSnapshotAsync(snap)
+		close(published)
 		if err != nil {
 			s.errChan <- err
 			return
@@ -224,9 +235,7 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 
 		// Notify subscribers of new list of checkpoints to retain (just the completed one)
 		if s.retainedCheckpointsUpdated != nil {
-			go func() {
-				s.retainedCheckpointsUpdated <- []uint64{snap.id}
-			}()
+			go s.notifyRetainedCheckpoints()
 		}
 	}
 
@@ -246,6 +255,22 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 	return uri, nil
 }
 
+// notifyRetainedCheckpoints sends the IDs of the completed checkpoints at the
+// time of sending.
+func (s *Store) notifyRetainedCheckpoints() {
+	s.retainedMu.Lock()
+	defer s.retainedMu.Unlock()
+
+	s.stateMu.Lock()
+	ids := make([]uint64, len(s.state.completedSnapshots))
+	for i, snap := range s.state.completedSnapshots {
+		ids[i] = snap.id
+	}
+	s.stateMu.Unlock()
+
+	s.retainedCheckpointsUpdated <- ids
+}
+
 // CurrentCheckpoint returns the latest checkpoint from memory.
 func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	s.stateMu.Lock()
-- 
2.43.0


From f6d96986648e775d32fc439e6a2b712c30534c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 37/41] fix: a savepoint in S3 can be restored

---
 storage/snapshots/savepoint_artifact.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index c8fc41c..7b983a5 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -56,7 +56,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 
 // Copy files from a savepoint into place to be read as checkpoints.
 func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepointURI string, jobCheckpoint *snapshotpb.JobCheckpoint) error {
-	spDir := filepath.Dir(savepointURI)
+	spDir, _ := path.Split(savepointURI) // Unlike filepath.Dir this keeps a URI's protocol
 
 	for _, opCkpt := range jobCheckpoint.GetOperatorCheckpoints() {
 		opID, baseFileName, err := parseDKVURI(opCkpt.DkvFileUri)
@@ -65,7 +65,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Read the checkpoints data
-		checkpointsPath := filepath.Join(spDir, "dkv", opID, baseFileName)
+		checkpointsPath := spDir + path.Join("dkv", opID, baseFileName)
 		cpData, err := fs.Read(checkpointsPath)
 		if err != nil {
 			return fmt.Errorf("reading checkpoints file (%s): %v", checkpointsPath, err)
@@ -85,7 +85,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 			}
 
 			// Source is a file referenced by a DKV checkpoint that's been copied to the savepoint directory
-			src := filepath.Join(spDir, "dkv", opPrefix, baseFileName)
+			src := spDir + path.Join("dkv", opPrefix, baseFileName)
 			if err := fs.Copy(src, file); err != nil {
 				return err
 			}
-- 
2.43.0


From 45b48d7ca8f3fbc59d1a9b8e57eb63df74861713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 38/41] fix: a savepoint has the files of its own checkpoint

Operators may add later checkpoints to their checkpoints file before the
savepoint is written. The savepoint then had the files of the latest one.
---
 dkv/recovery/list_files.go              | 40 ++++++++++++++++++++-----
 storage/snapshots/savepoint_artifact.go |  4 +--
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/dkv/recovery/list_files.go b/dkv/recovery/list_files.go
index e07b3f9..432cb08 100644
--- a/dkv/recovery/list_files.go
+++ b/dkv/recovery/list_files.go
@@ -2,24 +2,50 @@ package recovery
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
+	"slices"
 )
 
+// ListFiles lists the files of the latest checkpoint.
 func ListFiles(reader io.Reader) ([]string, error) {
-	// Decode reader data into checkpoint list JSON document
-	data, err := io.ReadAll(reader)
+	listDoc, err := readCheckpointListDocument(reader)
 	if err != nil {
 		return nil, err
 	}
+	return listDoc.Checkpoints[len(listDoc.Checkpoints)-1].files(), nil
+}
 
-	listDoc := checkpointListDocument{}
-	if err := json.Unmarshal(data, &listDoc); err != nil {
+// ListCheckpointFiles lists the files of the checkpoint with the given ID.
+func ListCheckpointFiles(reader io.Reader, ckptID uint64) ([]string, error) {
+	listDoc, err := readCheckpointListDocument(reader)
+	if err != nil {
 		return nil, err
 	}
+	i := slices.IndexFunc(listDoc.Checkpoints, func(doc checkpointDocument) bool {
+		return doc.ID == ckptID
+	})
+	if i == -1 {
+		return nil, fmt.Errorf("checkpoint %d is not in the checkpoints list", ckptID)
+	}
+	return listDoc.Checkpoints[i].files(), nil
+}
 
-	// Always use the latest checkpoint
-	ckpt := listDoc.Checkpoints[len(listDoc.Checkpoints)-1]
+// Decode reader data into checkpoint list JSON document
+func readCheckpointListDocument(reader io.Reader) (*checkpointListDocument, error) {
+	data, err := io.ReadAll(reader)
+	if err != nil {
+		return nil, err
+	}
+
+	listDoc := &checkpointListDocument{}
+	if err := json.Unmarshal(data, listDoc); err != nil {
+		return nil, err
+	}
+	return listDoc, nil
+}
 
+func (ckpt checkpointDocument) files() []string {
 	fileNames := []string{}
 
 	// Add WAL file names to output
@@ -34,5 +60,5 @@ func ListFiles(reader io.Reader) ([]string, error) {
 		}
 	}
 
-	return fileNames, nil
+	return fileNames
 }
diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index 7b983a5..a21acb6 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -25,7 +25,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 		}
 
 		// Get a list of URIs that the checkpoint references.
-		files, err := recovery.ListFiles(bytes.NewBuffer(checkpointsData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(checkpointsData), opCkpt.CheckpointId)
 		if err != nil {
 			return "", err
 		}
@@ -72,7 +72,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Get a list of referenced files to copy into place
-		files, err := recovery.ListFiles(bytes.NewBuffer(cpData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(cpData), opCkpt.CheckpointId)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bc910082bc18b12f18e46c09e051160c0bd45d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 39/41] fix: the job restarts from the snapshot with the
 highest ID

The base64 alphabet isn't in ASCII order, so the first listed file wasn't
always the latest snapshot when a crash left several of them.
---
 storage/snapshots/savepoint_artifact.go | 23 ++++++++++++++--
 storage/snapshots/store.go              | 36 +++++++++++++++----------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index a21acb6..3f299bb 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"reduction.dev/reduction/dkv/recovery"
 	"reduction.dev/reduction/proto/snapshotpb"
@@ -104,8 +105,26 @@ func parseDKVURI(uri string) (opID, base string, err error) {
 	return opPrefix, baseFileName, nil
 }
 
-// Create a URL safe encoding to create a path segment. Lexicographic order will
-// be descending such that later checkpoints will appear first in a file list.
+// snapshotFileName is the base name of a job snapshot's file.
+func snapshotFileName(id uint64) string {
+	return "job-" + pathSegment(id) + ".snapshot"
+}
+
+// snapshotFileID gets the ID from a path or URI ending with a snapshotFileName.
+func snapshotFileID(uri string) (id uint64, ok bool) {
+	name, isSnapshot := strings.CutSuffix(path.Base(uri), ".snapshot")
+	segment, isJob := strings.CutPrefix(name, "job-")
+	if !isSnapshot || !isJob {
+		return 0, false
+	}
+	buf, err := base64.RawURLEncoding.DecodeString(segment)
+	if err != nil || len(buf) != 8 {
+		return 0, false
+	}
+	return math.MaxUint64 - binary.BigEndian.Uint64(buf), true
+}
+
+// Create a URL safe encoding to create a path segment.
 func pathSegment(id uint64) string {
 	reversed := math.MaxUint64 - id
 	buf := make([]byte, 8)
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index daf328d..5d1955d 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -206,7 +206,7 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 	}
 
 	uri, err = s.fileStore.Write(
-		filepath.Join(s.checkpointsPath, "job-"+pathSegment(snap.id)+".snapshot"),
+		filepath.Join(s.checkpointsPath, snapshotFileName(snap.id)),
 		bytes.NewBuffer(data))
 	if err != nil {
 		return "", fmt.Errorf("failed creating job snapshot: %v", err)
@@ -226,7 +226,7 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 		go func() {
 			paths := make([]string, 0, len(obsoleteIDs))
 			for _, id := range obsoleteIDs {
-				paths = append(paths, filepath.Join(s.checkpointsPath, "job-"+pathSegment(id)+".snapshot"))
+				paths = append(paths, filepath.Join(s.checkpointsPath, snapshotFileName(id)))
 			}
 			if err := s.fileStore.Remove(paths...); err != nil {
 				s.log.Error("failed to remove obsolete checkpoint files", "paths", paths, "err", err)
@@ -282,6 +282,22 @@ func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	return nil
 }
 
+// latestSnapshotFile finds the job snapshot with the highest ID in the file
+// store. The URI is empty when there is none. Earlier snapshots may still be
+// present and the file names aren't listed in the order of their IDs.
+func (s *Store) latestSnapshotFile() (uri string, id uint64, err error) {
+	for fileURI, err := range s.fileStore.List() {
+		if err != nil {
+			return "", 0, err
+		}
+		fileID, ok := snapshotFileID(fileURI)
+		if ok && (uri == "" || fileID > id) {
+			uri, id = fileURI, fileID
+		}
+	}
+	return uri, id, nil
+}
+
 // LoadCheckpoint loads the latest checkpoint from disk and stores it in
 // memory.
 func (s *Store) LoadCheckpoint() error {
@@ -305,18 +321,10 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for first (latest) snapshot file.
-		// Checkpoint IDs are encoded so that files will be in reverse chronological
-		// order.
-		var latestCheckpointFile string
-		for filePath, err := range s.fileStore.List() {
-			if err != nil {
-				return err
-			}
-			if filepath.Ext(filePath) == ".snapshot" {
-				latestCheckpointFile = filePath
-				break
-			}
+		// For a new job, check the file store for the latest snapshot file.
+		latestCheckpointFile, _, err := s.latestSnapshotFile()
+		if err != nil {
+			return err
 		}
 
 		if latestCheckpointFile == "" {
-- 
2.43.0


From 3b6a6a9c5c957409ee7e5cd881a8ed84914cf0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 40/41] fix: checkpoint IDs aren't used again when starting
 from an earlier savepoint

---
 storage/snapshots/store.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 5d1955d..837fa38 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -303,6 +303,11 @@ func (s *Store) latestSnapshotFile() (uri string, id uint64, err error) {
 func (s *Store) LoadCheckpoint() error {
 	var loadedCheckpoint *snapshotpb.JobCheckpoint
 
+	latestCheckpointFile, latestID, err := s.latestSnapshotFile()
+	if err != nil {
+		return err
+	}
+
 	// For now let savepoint always override using local checkpoints. Later will
 	// want to be able to start the job with an out-of-date savepoint to make
 	// configuring a starting savepoint possible. This means that the checkpoints
@@ -321,12 +326,7 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for the latest snapshot file.
-		latestCheckpointFile, _, err := s.latestSnapshotFile()
-		if err != nil {
-			return err
-		}
-
+		// For a new job, use the latest snapshot in the file store.
 		if latestCheckpointFile == "" {
 			return nil // No checkpoint to load
 		}
@@ -338,8 +338,9 @@ func (s *Store) LoadCheckpoint() error {
 		loadedCheckpoint = snap
 	}
 
-	// Set the initial checkpoint ID counter
-	s.state.checkpointID = loadedCheckpoint.Id
+	// Set the initial checkpoint ID counter, also past the checkpoints which a
+	// savepoint overrides
+	s.state.checkpointID = max(loadedCheckpoint.Id, latestID)
 
 	// Create a job snapshot from the loaded checkpoint
 	if len(loadedCheckpoint.SourceCheckpoints) != 1 {
-- 
2.43.0


From 7e25ca6cea674892b3eab6a8c0b9d3c6dce6a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 41/41] fix: checkpointing resumes after the assembly changed
 during a checkpoint

The checkpoint in progress was never dropped, so no further checkpoint
could be created. A checkpoint still being published could also become
the latest after its predecessor was deployed.
---
 jobs/job.go                |  3 +++
 storage/snapshots/store.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/jobs/job.go b/jobs/job.go
index d779939..8c6bb87 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -293,6 +293,9 @@ func (j *Job) evaluateClusterStatus() {
 func (j *Job) start() error {
 	j.log.Info("starting")
 
+	// A previous assembly won't complete the checkpoint it was working on
+	j.snapshotStore.AbandonCheckpoint()
+
 	// Get the job's current checkpoint which may be nil
 	ckpt := j.snapshotStore.CurrentCheckpoint()
 
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 837fa38..a770eeb 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -163,6 +163,21 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	return nil
 }
 
+// AbandonCheckpoint drops the checkpoint in progress, which the members it was
+// created for won't complete anymore. It waits for snapshots being published
+// so that a following CurrentCheckpoint is final until a new checkpoint is
+// created.
+func (s *Store) AbandonCheckpoint() {
+	s.stateMu.Lock()
+	s.state.pendingSnapshot = nil
+	published := s.published
+	s.stateMu.Unlock()
+
+	if published != nil {
+		<-published
+	}
+}
+
 // RegisterSourceSplitter sets the splitter whose state is part of the following
 // checkpoints. It replaces the splitter registered when the job last started.
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
-- 
2.43.0

