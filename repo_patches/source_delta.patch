From 6052829d973cf9a7b161f3f5a953b6a91801e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 01/36] fix: nodeindex: do not extend a range that was never
 started

lastId+2 wraps to 1 while notAssigned, so a block starting at node 1 put a
gap entry in front and shifted every later location.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 64b04b2bedb616a1e1dc01072a3a13da9dc29bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 02/36] fix: nodeindex: sub indexes cover every element

The remainder of locations/passes was left out of the last pass, a start
beyond the last element began at 0 again, and an empty index panicked.
---
 internal/nodeindex/nodeindex.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..e205650 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -71,9 +71,13 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 	sliceSize := uint64(len(idx.locations)) / countPass
 	startTarget := sliceSize * curPass
 	endTarget := startTarget + sliceSize
+	if curPass+1 == countPass {
+		// The last pass also takes the remainder of the division
+		endTarget = uint64(len(idx.locations))
+	}
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -91,11 +95,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From 5ac1a98669ab7c114683f5ee17fe075a38219c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 03/36] fix: wayindex: sub indexes cover every way, an empty
 index is usable

The remainder of the location bytes was left out of the last pass, a start
beyond the last way began at 0 again, and an empty index panicked.  Now that
an index without ways can be read, the placeholder header of an unfinished
one must not look like it.
---
 cmd/wayindex/wayindexer/wayindexer_writer.go |  3 ++-
 internal/wayindex/wayindex.go                | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 10127cd..03ae75c 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -19,7 +19,8 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
 
 		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines
-		iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})
+		// An index of 0 ways is valid, so use a count that no reader accepts.
+		iio.FWriteSliceI64(outputFileIdx, []int64{-1, -1})
 
 		var outputData []uint64
 		locationLength := int64(0)
diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..c5e35a7 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -68,8 +68,12 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	// These targets are likely to be mid way, but that's fine
 	startTarget := int64((len(idx.Loc) / countPass) * curPass)
 	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
+	if curPass+1 == countPass {
+		// The last pass also takes the remainder of the division
+		endTarget = int64(len(idx.Loc))
+	}
 
-	startIndex := 0
+	startIndex := len(subIds)
 
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
@@ -86,11 +90,16 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From d17e10ecfeca17d0c23c70de237b5bb49e165284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 04/36] fix: t: ways with up to 2000 references fit their
 length prefix

A morton encoded reference takes up to 10 bytes, so long ways overflowed the
two byte length and panicked.
---
 internal/t/primitive_group.go | 2 +-
 internal/t/way.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index dda9ac0..f73cecc 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -73,7 +73,7 @@ func (pg *PrimitiveGroup) Write(buf []byte) []byte {
 
 	if pg.Ways != nil {
 		for _, w := range pg.Ways {
-			buf = pb.Embed16384(primitiveGroupWays, w.Write, buf)
+			buf = pb.Embed2097152(primitiveGroupWays, w.Write, buf)
 		}
 	} else {
 		for _, w := range pg.RawWays {
diff --git a/internal/t/way.go b/internal/t/way.go
index 20ba3c6..a6b494e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -47,6 +47,6 @@ func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
 	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
 	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
-	buf = pb.Embed16384(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
+	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From ce0ceec99e7eab1e945f2c79512e70745f8be072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 05/36] fix: t: keep the empty string at index 0 of the string
 table

Adding an empty string wrapped its frequency, which moved it to the end of the
table and gave index 0, the separator of dense tags, to another string.
---
 internal/t/string_table_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..d7216dd 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,6 +27,9 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
+	if s == "" {
+		return // always present, and its frequency must not wrap
+	}
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-- 
2.43.0


From c613d896ad013dbd84afed9036e10fee83cafa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 06/36] fix: tagfilter: close the output file, and notice when
 that fails

---
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index cb69108..7cefbbd 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -44,5 +44,7 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 			tf.writer.SetCurrentState(state.WriterReading)
 		}
+
+		iio.FClose(outputFile)
 	}
 }
-- 
2.43.0


From d5aa27bba5de81aaf3a28b32a565557d3f541750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 07/36] fix: t: write raw blobs with an empty payload

Decompressing an empty block produced a blob without any data field, which no
reader accepts.
---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From 174a582e8d20b5dceb32f86b4b0a0f279d5242f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 08/36] fix: t: verify the checksum and the length of zlib data

Reading stopped at the raw size, so the checksum of the stream was never
looked at and damaged blocks were accepted.
---
 internal/t/blob.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index 6f2483e..482d9e1 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/pool"
@@ -79,17 +80,24 @@ func (b *Blob) decodeZLib() pool.BorrowedBuffer {
 	remaining := int(*b.RawSize)
 	start := 0
 	for remaining > 0 {
-		remainingBuffer := outBuf[start:cap(outBuf)]
+		remainingBuffer := outBuf[start:]
 		read, err := zlibReader.Read(remainingBuffer)
 		remaining -= read
 		start += read
 		if remaining == 0 {
-			return borrowedBuffer
+			break
 		}
 		if err != nil {
 			panic(err)
 		}
 	}
 
+	// The checksum is only verified when the end of the stream is reached
+	if n, err := io.ReadFull(zlibReader, make([]byte, 1)); n != 0 {
+		panic("zlib data is longer than its raw size")
+	} else if err != io.EOF {
+		panic(err)
+	}
+
 	return borrowedBuffer
 }
-- 
2.43.0


From 33b0fb127ddcb7aec59d315caf8c1a8e916da596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 09/36] fix: relindex: an input without relations gives an
 empty index

Mapping the empty intermediate file panicked.
---
 cmd/relindex/relindex.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..fc89bf7 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -3,9 +3,12 @@ package main
 import (
 	"context"
 	"fmt"
+	"io"
 	"os"
 	"time"
 
+	"github.com/edsrzf/mmap-go"
+
 	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
 	wi "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
 	"github.com/squizzling/osmindex/internal/iio"
@@ -33,7 +36,10 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
-	m := iio.MMapMap(fIn)
+	var m mmap.MMap
+	if iio.FSeek(fIn, 0, io.SeekEnd) > 0 { // an empty file can't be mapped
+		m = iio.MMapMap(fIn)
+	}
 	u := iunsafe.ByteSliceAsInt64Slice(m)
 
 	outputData := make([]int64, 0, 1048576)
@@ -87,7 +93,9 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 		iio.FWriteSliceI64(fOut, outputData)
 	}
 
-	iio.MMapUnmap(m)
+	if m != nil {
+		iio.MMapUnmap(m)
+	}
 	iio.FClose(fOut)
 	iio.FClose(fIn)
 }
-- 
2.43.0


From bbcd854d9b14bb97755bb9f855041c41cd3e52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/36] fix: nodeindex, wayindex: do not finalise a cancelled
 index

The header was written over truncated data, so later programs used it and
silently lost nodes and ways.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 6 ++++++
 cmd/wayindex/wayindexer/wayindexer_writer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..3a5fb5e 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -64,6 +64,12 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// The index is incomplete, leave the header invalid so nothing will use it.
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 03ae75c..c940756 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -72,6 +72,12 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// The index is incomplete, leave the header invalid so nothing will use it.
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-- 
2.43.0


From b27fd6b3a018e48278c0ffcbcb22b87520692d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 11/36] fix: nodeindex, wayindex: refuse values just beyond
 what the fields hold

The first value that does not fit passed the range checks and wrapped to 0 or
into the neighbouring field.
---
 internal/nodeindex/count_offset.go | 2 +-
 internal/wayindex/indexdata.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..81efca5 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID >= (1 << 31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset >= (1 << 33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From 784818d877095254090b4fdf4d07943b33c06f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 12/36] fix: nodeindex, wayindex: timing buckets for any factor

A factor close to 1 ran past the last bucket and panicked, one of 1 or less
never stopped.
---
 internal/nodeindex/nodesubindex.go | 2 +-
 internal/wayindex/subindex.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..a80f970 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -89,7 +89,7 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			// TODO: something something log?
 			i++
 			delta /= si.parent.divFactor
diff --git a/internal/wayindex/subindex.go b/internal/wayindex/subindex.go
index fb7a983..aa2a443 100644
--- a/internal/wayindex/subindex.go
+++ b/internal/wayindex/subindex.go
@@ -77,7 +77,7 @@ func (si *SubWayIndex) FindLocations(id int64, hint int) ([]int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			i++
 			delta /= si.parent.divFactor
 		}
-- 
2.43.0


From ffb6766e1210cbea2bc75ed4bf15921e630c0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 13/36] fix: rewritenodes: stop and clean up when a pass is
 cancelled

The following passes ran on a truncated or empty intermediate file, and died
mapping it.
---
 cmd/rewritenodes/rewritenodes.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..e8219eb 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
 	wcmd "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -46,7 +47,8 @@ func main() {
 	mainUI := ui.NewUI(opts.Refresh, cancel)
 	var passTimes []time.Duration
 
-	for i := uint64(0); i < passes; i++ {
+	cancelled := false
+	for i := uint64(0); i < passes && !cancelled; i++ {
 		passStartTime := time.Now()
 
 		if i > 1 {
@@ -76,10 +78,16 @@ func main() {
 			wui.NewWidgetCmd(nr, wcmd.NewWidgetStateWorker, wcmd.NewWidgetStateWriter),
 		)
 		pfs.Wait()
+		cancelled = icontext.IsCancelled(ctx)
 		passTimes = append(passTimes, time.Since(passStartTime))
 	}
 
-	if passes > 1 {
+	if cancelled {
+		// The next pass would run on incomplete data
+		for i := uint64(1); i < passes; i++ {
+			iio.OsRemoveTry(makePassFilename(opts.OutputFile, i, passes))
+		}
+	} else if passes > 1 {
 		iio.OsRemove(makePassFilename(opts.OutputFile, passes-1, passes))
 	}
 
-- 
2.43.0


From 74b40b56b5d835aedcc45818a4562dbe625964b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 14/36] fix: wayindex: refuse negative way ids

They were stored as a different, positive id.
---
 internal/wayindex/indexdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index 81efca5..06f3851 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,8 +16,8 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID >= (1 << 31) {
-		panic("wayID too large")
+	if wayID < 0 || wayID >= (1<<31) {
+		panic("wayID out of range")
 	}
 	if offset >= (1 << 33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
-- 
2.43.0


From 918896b4da90054d74480c9f897b20a40ddcb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 15/36] fix: tagfilter: blocks with more than 2 MiB of node ids
 or coordinates

---
 internal/t/dense_nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 38c6b20..66f3512 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -45,9 +45,9 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 }
 
 func (dn *DenseNodes) Write(buf []byte) []byte {
-	buf = pb.Embed2097152(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
-	buf = pb.Embed2097152(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
-	buf = pb.Embed2097152(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
+	buf = pb.Embed268435456(denseNodesId, pb.EncodeS64PackedDeltaFunc(dn.Id), buf)
+	buf = pb.Embed268435456(denseNodesLat, pb.EncodeS64PackedDeltaFunc(dn.Lat), buf)
+	buf = pb.Embed268435456(denseNodesLon, pb.EncodeS64PackedDeltaFunc(dn.Lon), buf)
 	if len(dn.KeyVals) > 0 {
 		buf = pb.Embed268435456(denseNodesKeyVals, pb.EncodeI32PackedFunc(dn.KeyVals), buf)
 	}
-- 
2.43.0


From 9e446820c7dc472a214f6880037f3939d30f37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 16/36] fix: nodeindex: refuse an index whose locations are cut
 short

---
 internal/nodeindex/nodeindex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index e205650..6776697 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -40,6 +40,12 @@ func NewNodeIndex(fn string, timing *float64) *NodeIndex {
 	d = d[2:]
 	indexData := d[:startOfLocations*2]
 	locationData := d[startOfLocations*2:]
+	if startOfLocations > 0 {
+		last := CountOffset(indexData[len(indexData)-1])
+		if last.Offset()+last.Count() > uint64(len(locationData)) {
+			panic("index is incomplete")
+		}
+	}
 	idx := &NodeIndex{
 		f:         f,
 		mem:       m,
-- 
2.43.0


From b4b880f5a2ad4de1605f27670b12ad05cda09b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 17/36] fix: wayindex: refuse an index whose locations are cut
 short

---
 internal/wayindex/wayindex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c5e35a7..f2c830c 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/iunsafe"
+	"github.com/squizzling/osmindex/internal/pb"
 )
 
 type WayIndex struct {
@@ -42,6 +43,10 @@ func NewWayIndex(fn string, timing *float64) *WayIndex {
 	var indexData []WayIndexData
 	iunsafe.ByteSliceAsArbSlice(m[16:16+startOfLocationsInElements], &indexData)
 	locationData := m[16+startOfLocationsInElements:]
+	if len(indexData) > 0 {
+		// Panics if the index is incomplete
+		pb.DecodeS64PackedDeltaZero(locationData[indexData[len(indexData)-1].Offset()<<alignmentShift:])
+	}
 	idx := &WayIndex{
 		f:              f,
 		mem:            m,
-- 
2.43.0


From c4acca4605175a62300b848521f644d84d0e0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 18/36] fix: relindex: refuse a pass count below 1

With --passes 0 the relation file is never rewritten: the program exits with
success, no output file, and the first pass file left behind.
---
 cmd/relindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..e6f1832 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From 9434390e7ed022e75fa862224ff9d6db315384fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 19/36] fix: refuse a worker count below 1

With --workers 0 nothing reads the blocks, and the programs wait for ever.
---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 4 ++++
 cmd/rewritenodes/args.go | 4 ++++
 cmd/tagfilter/args.go    | 4 ++++
 cmd/wayindex/args.go     | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..fc53511 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..0e4d92f 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..babf1cc 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..1a4216b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..81d1518 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index e6f1832..c21d10a 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -56,6 +56,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "passes must be at least 1")
 	}
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..337b37d 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -49,6 +49,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..27386ff 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -46,6 +46,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..469fc2f 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From edb9ff78c4a9ddefc62b1849e3ab6d0051cd497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 20/36] fix: refuse a negative refresh interval

time.NewTicker panics on one after the screen has been set up, which leaves
the terminal in raw mode.
---
 cmd/rewritenodes/args.go | 1 +
 cmd/tagfilter/args.go    | 1 +
 internal/ui/args.go      | 6 +++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 337b37d..210b53c 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,6 +47,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if opts.Workers < 1 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index 27386ff..090809c 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,6 +44,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if opts.Workers < 1 {
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..7d38e05 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,9 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
-	return nil
+	var errors []string
+	if opts.Refresh < 0 {
+		errors = append(errors, "refresh must not be negative")
+	}
+	return errors
 }
-- 
2.43.0


From f6dfca143e739e4d1fdd481b288fe1892c296bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 21/36] fix: refuse an output file that is also an input

Creating the output empties it, so the input, way index or node index was lost.
---
 cmd/decompress/args.go   |  5 +++++
 cmd/nodeindex/args.go    |  5 +++++
 cmd/relindex/args.go     |  9 +++++++++
 cmd/rewritenodes/args.go |  9 +++++++++
 cmd/tagfilter/args.go    |  5 +++++
 cmd/wayindex/args.go     |  5 +++++
 internal/iio/wrappers.go | 10 ++++++++++
 7 files changed, 48 insertions(+)

diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index 0e4d92f..130aeb1 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -53,6 +54,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 81d1518..c2ade69 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -52,6 +53,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index c21d10a..65f24b7 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -60,6 +61,14 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
+	if iio.SameFile(opts.OutputFile, opts.WayIndex) {
+		errors = append(errors, "output-file must not be the way-index")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 210b53c..379b960 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/jessevdk/go-flags"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -54,6 +55,14 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
+	if iio.SameFile(opts.OutputFile, opts.IndexFile) {
+		errors = append(errors, "output-file must not be the index-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index 090809c..5b0d8e2 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/jessevdk/go-flags"
 
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -51,6 +52,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 469fc2f..b34b043 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jessevdk/go-flags"
 
 	"github.com/squizzling/osmindex/internal/args"
+	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
 )
@@ -53,6 +54,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if iio.SameFile(opts.OutputFile, opts.InputFile) {
+		errors = append(errors, "output-file must not be the input-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..94614d0 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -137,3 +137,13 @@ func OsRename(from, to string) {
 		panic(err)
 	}
 }
+
+// SameFile reports whether both names lead to the same existing file
+func SameFile(a, b string) bool {
+	fiA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	fiB, err := os.Stat(b)
+	return err == nil && os.SameFile(fiA, fiB)
+}
-- 
2.43.0


From 3436a755f17e37275cc52c8cdfdb363a1b7b26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 22/36] fix: dumpwayindex: refuse a negative sub-index-index

No such part exists; it was accepted and printed something else.
---
 cmd/dumpwayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..55ff4ac 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -57,6 +57,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From edfe495905e8160af6e0a81719dbe69fffa7cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 23/36] fix: refuse repeated fields that come in several pieces

The format allows a packed field, a dense group or a string table to be
split into several pieces. Only the last piece was kept, so nodes, tags or
members were lost silently.
---
 internal/t/dense_nodes.go     | 4 ++++
 internal/t/primitive_block.go | 4 ++++
 internal/t/primitive_group.go | 4 ++++
 internal/t/reader.go          | 8 ++++++++
 internal/t/relation.go        | 5 +++++
 internal/t/way.go             | 3 +++
 6 files changed, 28 insertions(+)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 66f3512..1c851a3 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -29,14 +29,18 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 		id := pb.DecodeVarInt(buf, &next)
 		switch id {
 		case pb.MakeIdType(denseNodesId, pb.PbFixedBytes):
+			onePiece("DenseNodes: id", len(dn.Id))
 			dn.Id = pb.DecodeS64PackedDelta(buf, &next)
 		case pb.MakeIdType(denseNodesDenseInfo, pb.PbFixedBytes):
 			pb.SkipBytes(buf, &next)
 		case pb.MakeIdType(denseNodesLat, pb.PbFixedBytes):
+			onePiece("DenseNodes: lat", len(dn.Lat))
 			dn.Lat = pb.DecodeS64PackedDelta(buf, &next)
 		case pb.MakeIdType(denseNodesLon, pb.PbFixedBytes):
+			onePiece("DenseNodes: lon", len(dn.Lon))
 			dn.Lon = pb.DecodeS64PackedDelta(buf, &next)
 		case pb.MakeIdType(denseNodesKeyVals, pb.PbFixedBytes):
+			onePiece("DenseNodes: keys_vals", len(dn.KeyVals))
 			dn.KeyVals = pb.DecodeI32Packed(buf, &next)
 		default:
 			panic(fmt.Sprintf("ReadDenseNodes: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
diff --git a/internal/t/primitive_block.go b/internal/t/primitive_block.go
index 1021692..948ab38 100644
--- a/internal/t/primitive_block.go
+++ b/internal/t/primitive_block.go
@@ -34,8 +34,12 @@ func (pbr *PBReader) ReadPrimitiveBlock(buf []byte, pblk *PrimitiveBlock) {
 		switch id {
 		case pb.MakeIdType(primitiveBlockStringTable, pb.PbFixedBytes):
 			if pbr.SkipStringTable {
+				onePiece("PrimitiveBlock: stringtable", len(pblk.StringTableRaw))
 				pblk.StringTableRaw = pb.DecodeBytes(buf, &next)
 			} else {
+				if pblk.StringTable != nil {
+					onePiece("PrimitiveBlock: stringtable", len(pblk.StringTable.S))
+				}
 				pblk.StringTable = &StringTable{}
 				ReadStringTable(pb.DecodeBytes(buf, &next), pblk.StringTable)
 			}
diff --git a/internal/t/primitive_group.go b/internal/t/primitive_group.go
index f73cecc..19aec5e 100644
--- a/internal/t/primitive_group.go
+++ b/internal/t/primitive_group.go
@@ -35,8 +35,12 @@ func (pbr *PBReader) ReadPrimitiveGroup(buf []byte, pg *PrimitiveGroup) {
 			panic("non-dense nodes not supported")
 		case pb.MakeIdType(primitiveGroupDenseNodes, pb.PbFixedBytes):
 			if pbr.SkipDenseNodes {
+				onePiece("PrimitiveGroup: dense", len(pg.RawDense))
 				pg.RawDense = pb.DecodeBytes(buf, &next)
 			} else {
+				if pg.Dense != nil {
+					onePiece("PrimitiveGroup: dense", len(pg.Dense.Id))
+				}
 				pg.Dense = &DenseNodes{}
 				ReadDenseNodes(pb.DecodeBytes(buf, &next), pg.Dense)
 			}
diff --git a/internal/t/reader.go b/internal/t/reader.go
index ac4d520..ca1d186 100644
--- a/internal/t/reader.go
+++ b/internal/t/reader.go
@@ -1,5 +1,13 @@
 package t
 
+// onePiece panics if some of a field has been read already. The format allows a
+// repeated field to come in several pieces, but only the last one would be kept.
+func onePiece(name string, length int) {
+	if length > 0 {
+		panic(name + ": several pieces are not supported")
+	}
+}
+
 type PBReader struct {
 	SkipStringTable bool
 	SkipDenseNodes  bool
diff --git a/internal/t/relation.go b/internal/t/relation.go
index 87726ec..880bf66 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -38,16 +38,21 @@ func ReadRelation(buf []byte, r *Relation) {
 		case pb.MakeIdType(relationId, pb.PbVarInt):
 			r.ID = RelId(pb.DecodeI64(buf, &next))
 		case pb.MakeIdType(relationKeys, pb.PbFixedBytes):
+			onePiece("Relation: keys", len(r.Keys))
 			r.Keys = pb.DecodeU32Packed(buf, &next)
 		case pb.MakeIdType(relationVals, pb.PbFixedBytes):
+			onePiece("Relation: vals", len(r.Vals))
 			r.Vals = pb.DecodeU32Packed(buf, &next)
 		case pb.MakeIdType(relationInfo, pb.PbFixedBytes):
 			pb.SkipBytes(buf, &next)
 		case pb.MakeIdType(relationRolesSID, pb.PbFixedBytes):
+			onePiece("Relation: roles_sid", len(r.RolesSID))
 			r.RolesSID = pb.DecodeI32Packed(buf, &next)
 		case pb.MakeIdType(relationMemIDs, pb.PbFixedBytes):
+			onePiece("Relation: memids", len(r.MemIDs))
 			r.MemIDs = pb.DecodeS64PackedDelta(buf, &next)
 		case pb.MakeIdType(relationMemberType, pb.PbFixedBytes):
+			onePiece("Relation: types", len(r.MemberType))
 			r.MemberType = pb.DecodeU64Packed(buf, &next)
 		default:
 			panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
diff --git a/internal/t/way.go b/internal/t/way.go
index a6b494e..8774b0b 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -30,12 +30,15 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 		case pb.MakeIdType(wayId, pb.PbVarInt):
 			w.ID = WayId(pb.DecodeI64(buf, &next))
 		case pb.MakeIdType(wayKeys, pb.PbFixedBytes):
+			onePiece("Way: keys", len(w.Keys))
 			w.Keys = pb.DecodeU32Packed(buf, &next)
 		case pb.MakeIdType(wayVals, pb.PbFixedBytes):
+			onePiece("Way: vals", len(w.Vals))
 			w.Vals = pb.DecodeU32Packed(buf, &next)
 		case pb.MakeIdType(wayInfo, pb.PbFixedBytes):
 			pb.SkipBytes(buf, &next)
 		case pb.MakeIdType(wayRefs, pb.PbFixedBytes):
+			onePiece("Way: refs", len(w.Refs))
 			w.Refs = pb.DecodeS64PackedDelta(buf, &next)
 		default:
 			panic(fmt.Sprintf("Way: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
-- 
2.43.0


From d2e54f3b613d46b207ab0131f3af6413915ad700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 24/36] fix: make room for the tags of ways and relations with
 thousands of tags

Keys or values that need more than 16 KiB made the writer panic.
---
 internal/t/relation.go | 4 ++--
 internal/t/way.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/t/relation.go b/internal/t/relation.go
index 880bf66..437c59f 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -62,8 +62,8 @@ func ReadRelation(buf []byte, r *Relation) {
 
 func (r *Relation) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, relationId, uint64(r.ID))
-	buf = pb.Embed16384(relationKeys, pb.EncodeU32PackedFunc(r.Keys), buf)
-	buf = pb.Embed16384(relationVals, pb.EncodeU32PackedFunc(r.Vals), buf)
+	buf = pb.Embed2097152(relationKeys, pb.EncodeU32PackedFunc(r.Keys), buf)
+	buf = pb.Embed2097152(relationVals, pb.EncodeU32PackedFunc(r.Vals), buf)
 	buf = pb.Embed2097152(relationRolesSID, pb.EncodeI32PackedFunc(r.RolesSID), buf)
 	buf = pb.Embed2097152(relationMemIDs, pb.EncodeS64PackedDeltaFunc(r.MemIDs), buf)
 	buf = pb.Embed2097152(relationMemberType, pb.EncodeU64Packed(r.MemberType), buf)
diff --git a/internal/t/way.go b/internal/t/way.go
index 8774b0b..c77205e 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -48,8 +48,8 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 
 func (w *Way) Write(buf []byte) []byte {
 	buf = pb.EncodeIdVarInt(buf, wayId, uint64(w.ID))
-	buf = pb.Embed16384(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
-	buf = pb.Embed16384(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
+	buf = pb.Embed2097152(wayKeys, pb.EncodeU32PackedFunc(w.Keys), buf)
+	buf = pb.Embed2097152(wayVals, pb.EncodeU32PackedFunc(w.Vals), buf)
 	buf = pb.Embed2097152(wayRefs, pb.EncodeS64PackedDeltaFunc(w.Refs), buf)
 	return buf
 }
-- 
2.43.0


From 6244a6b63b22823ec692cde7d497aa499133ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 25/36] fix: refuse node and way ids that are out of order or
 negative

Lookups search the indexes, so ids that were unsorted or given twice could
not be found, or were found with the location of another one. The node id
-1 is what the worker uses for no id at all.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go  | 3 +++
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 7 +++++++
 cmd/wayindex/wayindexer/wayindexer_writer.go | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 43b5447..932a33f 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -56,6 +56,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 				continue
 			}
 			for idx, id := range pg.Dense.Id {
+				if id < 0 {
+					panic("negative node id")
+				}
 				uid := uint64(id)
 				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 3a5fb5e..875350d 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -22,6 +22,7 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		var outputData []uint64
 		lastLocationIndex := uint64(0)
 		indexElementCount := uint64(0)
+		lastID := uint64(0)
 
 		ni.writer.SetCurrentState(state.WriterReading)
 		for data := range chIn {
@@ -32,6 +33,12 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 			element := data.Data.(elementBatch)
 			ni.writer.SetStateWritingIndex(uint64(len(element.ranges)))
 			for _, indexBlock := range element.ranges {
+				if indexElementCount > 0 && indexBlock.first <= lastID {
+					// Lookups search the index, so it must be sorted
+					panic("node ids are not in ascending order")
+				}
+				lastID = indexBlock.last
+
 				itemCount := (indexBlock.last - indexBlock.first) + 1
 				outputData = append(
 					outputData,
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index c940756..2730682 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -26,6 +26,7 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		locationLength := int64(0)
 
 		indexBlockCount := int64(0)
+		lastWayID := int64(-1)
 
 		ni.writer.SetCurrentState(state.WriterReading)
 		for data := range chIn {
@@ -37,6 +38,12 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 			ni.writer.SetStateWritingIndex(uint64(len(element.blocks)))
 
 			for _, b := range element.blocks {
+				if b.WayID() <= lastWayID {
+					// Lookups search the index, so it must be sorted
+					panic("way ids are not in ascending order")
+				}
+				lastWayID = b.WayID()
+
 				// On input, Offset will be chunks from the start of element.locations
 				// On output, Offset needs to be chunks from the start of the file
 				globalData := wayindex.MakeIndexData(
-- 
2.43.0


From d1c594cdc51a80893e971b93aeba2dcbfc3edc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 26/36] fix: nodeindex, wayindex: sync before the header is
 written

After a power failure the header could be on the disk without all of what it
stands for, and the index was accepted with zeros in it.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 1 +
 cmd/wayindex/wayindexer/wayindexer_writer.go | 2 ++
 internal/iio/wrappers.go                     | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 875350d..bf503e9 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -79,6 +79,7 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
+		iio.FSync(outputFileIdx) // the header must not reach the disk before the rest
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
 		iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
 		iio.FClose(outputFileIdx)
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 2730682..224bc5e 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -21,6 +21,7 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines
 		// An index of 0 ways is valid, so use a count that no reader accepts.
 		iio.FWriteSliceI64(outputFileIdx, []int64{-1, -1})
+		iio.FSync(outputFileIdx) // what never reached the disk reads as 0
 
 		var outputData []uint64
 		locationLength := int64(0)
@@ -87,6 +88,7 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
+		iio.FSync(outputFileIdx) // the header must not reach the disk before the rest
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
 		// TODO: Version
 		iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})
diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 94614d0..8dd49f9 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -35,6 +35,12 @@ func FSeek(f *os.File, o int64, w int) int64 {
 	}
 }
 
+func FSync(f *os.File) {
+	if err := f.Sync(); err != nil {
+		panic(err)
+	}
+}
+
 func FClose(f *os.File) {
 	if err := f.Close(); err != nil {
 		panic(err)
-- 
2.43.0


From b88e2eda6f21ac02218808ce6d94cae2817bc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 27/36] fix: refuse inputs that are named like an intermediate
 file

---
 cmd/nodeindex/args.go            | 4 ++++
 cmd/relindex/args.go             | 7 +++++++
 cmd/rewritenodes/rewritenodes.go | 7 +++++++
 cmd/wayindex/args.go             | 4 ++++
 4 files changed, 22 insertions(+)

diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index c2ade69..dd1338b 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -57,6 +57,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "output-file must not be the input-file")
 	}
 
+	if iio.SameFile(opts.OutputFile+".loc.tmp", opts.InputFile) {
+		errors = append(errors, "input-file must not be named like the intermediate file of output-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 65f24b7..0e91275 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -69,6 +69,13 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "output-file must not be the way-index")
 	}
 
+	for i := 0; i < opts.Passes; i++ {
+		passFile := makePassFilename(opts.OutputFile, i, opts.Passes)
+		if iio.SameFile(passFile, opts.InputFile) || iio.SameFile(passFile, opts.WayIndex) {
+			errors = append(errors, "input-file and way-index must not be named like an intermediate file of output-file")
+		}
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index e8219eb..16bc0cf 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -42,6 +42,13 @@ func main() {
 		passes = (memRequired / memTarget) + 1
 	}
 
+	for i := uint64(1); i < passes; i++ {
+		passFile := makePassFilename(opts.OutputFile, i, passes)
+		if iio.SameFile(passFile, opts.InputFile) || iio.SameFile(passFile, opts.IndexFile) {
+			panic("input-file and index-file must not be named like an intermediate file of output-file")
+		}
+	}
+
 	nr := &rewriter.NodeRewriter{}
 
 	mainUI := ui.NewUI(opts.Refresh, cancel)
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index b34b043..2e4f6af 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -58,6 +58,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "output-file must not be the input-file")
 	}
 
+	if iio.SameFile(opts.OutputFile+".loc.tmp", opts.InputFile) {
+		errors = append(errors, "input-file must not be named like the intermediate file of output-file")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From b307003875c83cebc926b781a4ba6cf08519b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 28/36] fix: refuse profiles that would overwrite the input,
 index or output

---
 cmd/blockcount/args.go    |  2 +-
 cmd/decompress/args.go    |  2 +-
 cmd/dumpnodeindex/args.go |  2 +-
 cmd/dumpwayindex/args.go  |  2 +-
 cmd/entitycount/args.go   |  2 +-
 cmd/entityfind/args.go    |  2 +-
 cmd/nodeindex/args.go     |  2 +-
 cmd/relindex/args.go      |  2 +-
 cmd/rewritenodes/args.go  |  2 +-
 cmd/tagfilter/args.go     |  2 +-
 cmd/wayindex/args.go      |  2 +-
 internal/system/args.go   | 16 +++++++++++++++-
 12 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index fc53511..121ae3a 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -42,7 +42,7 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile)...)
 
 	// Validation results
 	if opts.Workers < 1 {
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index 130aeb1..c7b8342 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -47,7 +47,7 @@ func parseArgs(commandLine []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.OutputFile)...)
 
 	// Validation results
 	if opts.Workers < 1 {
diff --git a/cmd/dumpnodeindex/args.go b/cmd/dumpnodeindex/args.go
index df1fa33..fb34637 100644
--- a/cmd/dumpnodeindex/args.go
+++ b/cmd/dumpnodeindex/args.go
@@ -49,7 +49,7 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "no positional arguments allowed")
 	}
 
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile)...)
 
 	if (opts.SubIndexCount != nil) != (opts.SubIndexIndex != nil) {
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 55ff4ac..d22ff1a 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -47,7 +47,7 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "no positional arguments allowed")
 	}
 
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile)...)
 
 	if (opts.SubIndexCount != nil) != (opts.SubIndexIndex != nil) {
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index babf1cc..322e7cf 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -42,7 +42,7 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index 1a4216b..b7ba86b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -43,7 +43,7 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index dd1338b..433157f 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -47,7 +47,7 @@ func parseArgs(commandLine []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.OutputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 0e91275..76491d8 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -51,7 +51,7 @@ func parseArgs(commandLine []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.WayIndex, opts.OutputFile)...)
 
 	if opts.Passes < 1 {
 		errors = append(errors, "passes must be at least 1")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 379b960..5ea9b55 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -49,7 +49,7 @@ func parseArgs(args []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.IndexFile, opts.OutputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index 5b0d8e2..f53739e 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -46,7 +46,7 @@ func parseArgs(args []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.OutputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 2e4f6af..852e933 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -48,7 +48,7 @@ func parseArgs(commandLine []string) *Opts {
 	}
 
 	errors = append(errors, opts.UIOpts.Validate()...)
-	errors = append(errors, opts.SystemOpts.Validate()...)
+	errors = append(errors, opts.SystemOpts.Validate(opts.InputFile, opts.OutputFile)...)
 
 	if opts.Workers < 1 {
 		errors = append(errors, "workers must be at least 1")
diff --git a/internal/system/args.go b/internal/system/args.go
index 1f0c976..ae4660d 100644
--- a/internal/system/args.go
+++ b/internal/system/args.go
@@ -1,5 +1,11 @@
 package system
 
+import (
+	"path/filepath"
+
+	"github.com/squizzling/osmindex/internal/iio"
+)
+
 type SystemOpts struct {
 	MaxThreads     *int    `long:"max-threads"      description:"Set the maximum number of OS threads"`
 	CpuProfile     *string `long:"cpu-profile"      hidden:"true"`
@@ -7,8 +13,16 @@ type SystemOpts struct {
 	MemProfileRate *int    `long:"mem-profile-rate" hidden:"true"`
 }
 
-func (opts *SystemOpts) Validate() []string {
+// Validate checks opts. The files are those the program works on, which must not be overwritten by a profile.
+func (opts *SystemOpts) Validate(files ...string) []string {
 	var errors []string
+	for _, profile := range []*string{opts.CpuProfile, opts.MemProfile} {
+		for _, file := range files {
+			if profile != nil && (filepath.Clean(*profile) == filepath.Clean(file) || iio.SameFile(*profile, file)) {
+				errors = append(errors, "a profile must not be a file the program works on")
+			}
+		}
+	}
 	if opts.MemProfileRate != nil && opts.MemProfile == nil {
 		errors = append(errors, "mem-profile-rate requires mem-profile")
 	}
-- 
2.43.0


From 741325043f5dfbb1c3191616f7a259d1e1df930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 29/36] fix: the interface reads a file's size while it is
 being set

---
 internal/pbf/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pbf/process.go b/internal/pbf/process.go
index ec5da67..2849f0b 100644
--- a/internal/pbf/process.go
+++ b/internal/pbf/process.go
@@ -47,7 +47,7 @@ func (pfs *ProcessFileState) At() uint64 {
 }
 
 func (pfs *ProcessFileState) Max() uint64 {
-	return pfs.max
+	return atomic.LoadUint64(&pfs.max)
 }
 
 func (pfs *ProcessFileState) Wait() {
@@ -98,7 +98,7 @@ func (pfs *ProcessFileState) processFileWork(
 	}
 
 	atomic.StoreUint64(&pfs.at, 0)
-	pfs.max = uint64(len(inputBuffer))
+	atomic.StoreUint64(&pfs.max, uint64(len(inputBuffer)))
 
 	blobIndex := uint64(0)
 
-- 
2.43.0


From a7ceae3efea69223e2ba8c8635fe6dbf5d17ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 30/36] fix: refuse lengths that reach beyond the message they
 are in

---
 internal/pb/buffer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..565fafe 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -5,12 +5,22 @@ func DecodeBytes(buf []byte, next *int) []byte {
 }
 
 func ReadBytes(buf []byte, next *int) []byte {
-	byteLength := int(DecodeVarInt(buf, next))
+	byteLength := decodeLength(buf, next)
 	outputBuffer := buf[*next : *next+byteLength]
 	*next += byteLength
 	return outputBuffer
 }
 
+// decodeLength reads the length of what follows, which must not be more than
+// what is left of the message, even if there is something behind it.
+func decodeLength(buf []byte, next *int) int {
+	length := DecodeVarInt(buf, next)
+	if length > uint64(len(buf)-*next) {
+		panic("length is beyond the end of the message")
+	}
+	return int(length)
+}
+
 func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 	if len(bufOutput)+len(bufInput) > cap(bufOutput) {
 		//panic(fmt.Sprintf("len=%d+%d, cap=%d", len(bufInput), len(bufOutput), cap(bufOutput)))
@@ -22,7 +32,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
+	byteLength := decodeLength(buf, next)
 	*next += byteLength
 }
 
-- 
2.43.0


From 1a3baf14d3842dfc555361bed68741f259f712e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 31/36] fix: refuse parallel lists of different lengths

---
 internal/t/dense_nodes.go | 6 ++++++
 internal/t/reader.go      | 7 +++++++
 internal/t/relation.go    | 3 +++
 internal/t/way.go         | 1 +
 4 files changed, 17 insertions(+)

diff --git a/internal/t/dense_nodes.go b/internal/t/dense_nodes.go
index 1c851a3..b11d2eb 100644
--- a/internal/t/dense_nodes.go
+++ b/internal/t/dense_nodes.go
@@ -46,6 +46,8 @@ func ReadDenseNodes(buf []byte, dn *DenseNodes) {
 			panic(fmt.Sprintf("ReadDenseNodes: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	sameLength("DenseNodes: id and lat", len(dn.Id), len(dn.Lat))
+	sameLength("DenseNodes: id and lon", len(dn.Id), len(dn.Lon))
 }
 
 func (dn *DenseNodes) Write(buf []byte) []byte {
@@ -78,6 +80,10 @@ func (dn *DenseNodes) GetKeyVals(idx int) ([]uint32, []uint32) {
 				startOfKeyVals++
 			}
 		}
+		if len(curKeys) > 0 {
+			panic("DenseNodes: keys_vals is not terminated")
+		}
+		sameLength("DenseNodes: id and keys_vals", len(dn.Id), len(dn.cacheKeys))
 	}
 
 	return dn.cacheKeys[idx], dn.cacheVals[idx]
diff --git a/internal/t/reader.go b/internal/t/reader.go
index ca1d186..7ceaf07 100644
--- a/internal/t/reader.go
+++ b/internal/t/reader.go
@@ -8,6 +8,13 @@ func onePiece(name string, length int) {
 	}
 }
 
+// sameLength panics if two fields which are parallel lists are not equally long.
+func sameLength(names string, a, b int) {
+	if a != b {
+		panic(names + ": different number of elements")
+	}
+}
+
 type PBReader struct {
 	SkipStringTable bool
 	SkipDenseNodes  bool
diff --git a/internal/t/relation.go b/internal/t/relation.go
index 437c59f..2960c57 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -58,6 +58,9 @@ func ReadRelation(buf []byte, r *Relation) {
 			panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	sameLength("Relation: keys and vals", len(r.Keys), len(r.Vals))
+	sameLength("Relation: memids and roles_sid", len(r.MemIDs), len(r.RolesSID))
+	sameLength("Relation: memids and types", len(r.MemIDs), len(r.MemberType))
 }
 
 func (r *Relation) Write(buf []byte) []byte {
diff --git a/internal/t/way.go b/internal/t/way.go
index c77205e..4e72bfa 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -44,6 +44,7 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 			panic(fmt.Sprintf("Way: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	sameLength("Way: keys and vals", len(w.Keys), len(w.Vals))
 }
 
 func (w *Way) Write(buf []byte) []byte {
-- 
2.43.0


From feb21776ccd6e50083477160e2b735ba5e799165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 32/36] fix: refuse ways and relations without an id

---
 internal/t/relation.go | 5 +++++
 internal/t/way.go      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/t/relation.go b/internal/t/relation.go
index 2960c57..8a32396 100644
--- a/internal/t/relation.go
+++ b/internal/t/relation.go
@@ -32,11 +32,13 @@ type Relation struct {
 }
 
 func ReadRelation(buf []byte, r *Relation) {
+	hasID := false
 	for next := 0; next < len(buf); {
 		id := pb.DecodeVarInt(buf, &next)
 		switch id {
 		case pb.MakeIdType(relationId, pb.PbVarInt):
 			r.ID = RelId(pb.DecodeI64(buf, &next))
+			hasID = true
 		case pb.MakeIdType(relationKeys, pb.PbFixedBytes):
 			onePiece("Relation: keys", len(r.Keys))
 			r.Keys = pb.DecodeU32Packed(buf, &next)
@@ -58,6 +60,9 @@ func ReadRelation(buf []byte, r *Relation) {
 			panic(fmt.Sprintf("ReadRelation: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	if !hasID {
+		panic("Relation: no id")
+	}
 	sameLength("Relation: keys and vals", len(r.Keys), len(r.Vals))
 	sameLength("Relation: memids and roles_sid", len(r.MemIDs), len(r.RolesSID))
 	sameLength("Relation: memids and types", len(r.MemIDs), len(r.MemberType))
diff --git a/internal/t/way.go b/internal/t/way.go
index 4e72bfa..bd58e81 100644
--- a/internal/t/way.go
+++ b/internal/t/way.go
@@ -24,11 +24,13 @@ type Way struct {
 }
 
 func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
+	hasID := false
 	for next := 0; next < len(buf); {
 		id := pb.DecodeVarInt(buf, &next)
 		switch id {
 		case pb.MakeIdType(wayId, pb.PbVarInt):
 			w.ID = WayId(pb.DecodeI64(buf, &next))
+			hasID = true
 		case pb.MakeIdType(wayKeys, pb.PbFixedBytes):
 			onePiece("Way: keys", len(w.Keys))
 			w.Keys = pb.DecodeU32Packed(buf, &next)
@@ -44,6 +46,9 @@ func (pbr *PBReader) ReadWay(buf []byte, w *Way) {
 			panic(fmt.Sprintf("Way: Unknown: %d (id=%d / t=%d)", id, id>>3, id&7))
 		}
 	}
+	if !hasID {
+		panic("Way: no id")
+	}
 	sameLength("Way: keys and vals", len(w.Keys), len(w.Vals))
 }
 
-- 
2.43.0


From 4135f2cacaf417bb33ff77a5465feeb45982f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:16 +0000
Subject: [PATCH 33/36] fix: show percent signs and multi-byte names as they
 are in progress lines

---
 internal/ui/format.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..9b992dc 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -5,27 +5,21 @@ import (
 )
 
 func MarkupAsProgress(s string, w int, pct float64) string {
-	if w == 0 {
-		return s
-	}
-
-	if pct < 0 {
+	if !(pct > 0) { // or not a number
 		pct = 0
 	} else if pct > 1 {
 		pct = 1
 	}
 
-	pad := w - len(s)
-	if pad > 0 {
-		s = s + strings.Repeat(" ", pad)
+	text := []rune(s)
+	for len(text) < w {
+		text = append(text, ' ')
 	}
 	pre := int(float64(w) * pct)
-	if pre < 0 {
-		return s
-	} else if pre >= len(s) {
-		return s
+	if pre > len(text) {
+		pre = len(text)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(text[:pre])) + "%N" + EscapePercent(string(text[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From 4f12d8ef4284b22b41b957fe0a72691cd04e4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:16 +0000
Subject: [PATCH 34/36] fix: show the block the writer is at

---
 cmd/nodeindex/indexer/nodeindexer_writer.go     | 2 +-
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 3 ++-
 cmd/wayindex/wayindexer/wayindexer_writer.go    | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index bf503e9..fa551a2 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -31,7 +31,7 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 			}
 			outputData = outputData[:0]
 			element := data.Data.(elementBatch)
-			ni.writer.SetStateWritingIndex(uint64(len(element.ranges)))
+			ni.writer.SetStateWritingIndex(data.Index)
 			for _, indexBlock := range element.ranges {
 				if indexElementCount > 0 && indexBlock.first <= lastID {
 					// Lookups search the index, so it must be sorted
diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index 7cefbbd..8c5f2e0 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -18,11 +18,12 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 		blobHeaderBuf := make([]byte, 0, 64)
 		for data := range chIn {
+			tf.writer.SetStateWriting(data.Index)
 			if data.BlobType == "Filler" {
 				tf.writer.AddFiller()
+				tf.writer.SetCurrentState(state.WriterReading)
 				continue
 			}
-			tf.writer.SetStateWriting(data.Index)
 
 			blobBuf, ok := data.Data.([]byte)
 			if !ok {
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 224bc5e..3d93651 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -36,7 +36,7 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 			}
 			outputData = outputData[:0]
 			element := data.Data.(indexElement)
-			ni.writer.SetStateWritingIndex(uint64(len(element.blocks)))
+			ni.writer.SetStateWritingIndex(data.Index)
 
 			for _, b := range element.blocks {
 				if b.WayID() <= lastWayID {
-- 
2.43.0


From 3a35975565e887537fb7e92e32b0d1accf53c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:16 +0000
Subject: [PATCH 35/36] fix: show a block's number, way and way count together

---
 cmd/rewritenodes/rewriter/widget/widget_state_worker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/rewritenodes/rewriter/widget/widget_state_worker.go b/cmd/rewritenodes/rewriter/widget/widget_state_worker.go
index 73fcc1d..f7c27f7 100644
--- a/cmd/rewritenodes/rewriter/widget/widget_state_worker.go
+++ b/cmd/rewritenodes/rewriter/widget/widget_state_worker.go
@@ -25,6 +25,7 @@ func NewWidgetStateWorker(worker interface{}) views.Widget {
 }
 
 func (wsw *widgetStateWorker) update() {
+	block := wsw.worker.CurrentBlock()
 	switch wsw.worker.CurrentState() {
 	case state.WorkerReading:
 		wsw.SetText("Worker: waiting for block")
@@ -33,8 +34,12 @@ func (wsw *widgetStateWorker) update() {
 	case state.WorkerWorking:
 		at := wsw.worker.CurrentWay()
 		max := wsw.worker.WayCount()
+		if wsw.worker.CurrentState() != state.WorkerWorking || wsw.worker.CurrentBlock() != block {
+			// It went on to another block, the counts may not belong together
+			break
+		}
 		msg := fmt.Sprintf("Worker: working on block %d, way %d/%d",
-			wsw.worker.CurrentBlock(),
+			block,
 			at,
 			max,
 		)
-- 
2.43.0


From ff758e44edce891116756409f3361bc2a12921bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:54 +0000
Subject: [PATCH 36/36] fix: widgets of an earlier pass could replace those of
 a later one

---
 internal/ui/ui.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ui/ui.go b/internal/ui/ui.go
index 754fbb5..9dc2470 100644
--- a/internal/ui/ui.go
+++ b/internal/ui/ui.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"runtime/pprof"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/gdamore/tcell"
@@ -22,6 +23,9 @@ type normalUI struct {
 
 	shutdown chan struct{}
 	wg       sync.WaitGroup
+
+	replaced uint32 // atomic, number of calls to ReplaceWidgets
+	shown    uint32 // the last one which took effect, only used by the event loop
 }
 
 func NewUI(updateInterval time.Duration, cancel context.CancelFunc) UI {
@@ -101,7 +105,12 @@ func (u *normalUI) HandleEvent(e tcell.Event) bool {
 }
 
 func (u *normalUI) ReplaceWidgets(widgets ...views.Widget) {
+	version := atomic.AddUint32(&u.replaced, 1)
 	u.app.PostFunc(func() {
+		if version < u.shown {
+			return // PostFunc does not keep the order
+		}
+		u.shown = version
 		for _, w := range u.Widgets() {
 			u.RemoveWidget(w)
 		}
-- 
2.43.0

