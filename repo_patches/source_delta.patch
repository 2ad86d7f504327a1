From da45f79c9e117dc96d336a4dd241660bc7063b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 01/53] fix: tag with zero ID is confused with absent tag

---
 tagset.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/tagset.go b/tagset.go
index 115386f..176bc01 100644
--- a/tagset.go
+++ b/tagset.go
@@ -243,9 +243,7 @@ func (ts TagsetRaw) Num() (n int) {
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	return tsi.tid == tid
+	return tsi.find(tid)
 }
 
 // GetTag returns TagRaw with given identifier.
@@ -253,13 +251,8 @@ func (ts TagsetRaw) Has(tid TID) bool {
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	if !tsi.find(tid) {
+		return nil, false // ErrNoTag or io.ErrUnexpectedEOF
 	}
 	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
 }
@@ -288,9 +281,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if tsi.find(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -307,9 +298,7 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts.Put(tid, tag), true
 	}
 
@@ -334,9 +323,7 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
@@ -624,6 +611,16 @@ func (tsi *TagsetIterator) Next() (ok bool) {
 	return
 }
 
+// find carries to the tag with given ID. Zero ID is valid as any other.
+func (tsi *TagsetIterator) find(tid TID) bool {
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return true
+		}
+	}
+	return false
+}
+
 // Put is the stub to disable any changes to data content of iterator.
 func (tsi *TagsetIterator) Put(tid TID, tag TagRaw) TagsetRaw {
 	panic(ErrTsiConst)
-- 
2.43.0


From 8b98b81c1eae331af52bf6b28805cb73e05ac33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 02/53] fix: replacing a tag by a longer one damages following
 tags

---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 176bc01..a0939ca 100644
--- a/tagset.go
+++ b/tagset.go
@@ -306,8 +306,8 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	if tl == uint16(tsi.pos-tsi.tag) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
+		var suff = append(TagsetRaw{}, ts[tsi.pos:]...)
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From 4c7d1d346659b2b0e43b9f058a291ca8e6089dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 03/53] fix: access, change and birth times are read in other
 encoding than they are stored

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index a0939ca..3058f18 100644
--- a/tagset.go
+++ b/tagset.go
@@ -494,22 +494,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From 34e12a6ef924be474203fb378d28d042215af949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 04/53] fix: short reads of stream are taken for complete

---
 util/uintio.go | 10 +++++-----
 wpk.go         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..89dbb54 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From 89c57dad62c71483bf5915dd1b5e33f65e24d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 05/53] fix: broken tags table causes panic on parse

---
 wpk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wpk.go b/wpk.go
index 89dbb54..e9d5dc7 100644
--- a/wpk.go
+++ b/wpk.go
@@ -360,9 +360,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +386,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +397,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From 292ae981e79eb1053848c1c2c5716cbb1935b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 06/53] fix: open trusts to sizes in broken header

---
 wpk.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/wpk.go b/wpk.go
index e9d5dc7..b62a360 100644
--- a/wpk.go
+++ b/wpk.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -172,6 +173,21 @@ func (hdr *Header) IsReady() error {
 	return nil
 }
 
+// checkBounds checks up that tags table is inside of the stream with given size,
+// entries count can fit in this table, and data block has representable end.
+func (hdr *Header) checkBounds(end uint64) error {
+	if hdr.fttsize > 0 && (hdr.fttoffset > end || hdr.fttsize > end-hdr.fttoffset) {
+		return ErrSignFTT
+	}
+	if hdr.fttcount > hdr.fttsize/PTStssize {
+		return ErrSignFTT
+	}
+	if hdr.datoffset > math.MaxInt64 || hdr.datsize > math.MaxInt64-hdr.datoffset {
+		return ErrSignFTT
+	}
+	return nil
+}
+
 // Parse fills header from given byte slice.
 // It's high performance method without extra allocations calls.
 func (hdr *Header) Parse(buf []byte) (n int64, err error) {
@@ -541,6 +557,14 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that header refers to content inside of the stream
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if err = hdr.checkBounds(uint64(end)); err != nil {
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttcount == 0 || hdr.fttsize == 0 {
-- 
2.43.0


From dc159f44ac82880ee652c834c091aaad9911d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 07/53] fix: bounds of file are checked not for the values used
 at reading

Sum of offset and size could overflow, and tags repeated at tagset were
taken by last entry on check, but by first entry on access to the file.
---
 tagset.go | 13 ++-----------
 wpk.go    | 22 +++++++++-------------
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/tagset.go b/tagset.go
index 3058f18..e22a082 100644
--- a/tagset.go
+++ b/tagset.go
@@ -416,17 +416,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index b62a360..446320c 100644
--- a/wpk.go
+++ b/wpk.go
@@ -321,26 +321,22 @@ func (ftt *FTT) SetInfo(ts TagsetRaw) {
 // CheckTagset tests path & offset & size tags existence
 // and checks that size & offset is are in the bounds.
 func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
-	var offset, size uint
-	var ispath, isoffset, issize bool
-
-	// find expected tags
+	// check up tagset structure
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags
+	var ispath, isoffset, issize bool
+	var offset, size uint
+	offset, isoffset = ts.TagUint(TIDoffset)
+	size, issize = ts.TagUint(TIDsize)
+	fkey, ispath = ts.TagStr(TIDpath)
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
@@ -364,7 +360,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
-- 
2.43.0


From 652dfa9e80bcd81cb4436ff32955893891bd3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 08/53] fix: same file can be repeated with other slashes at
 tags table

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 446320c..a02daf1 100644
--- a/wpk.go
+++ b/wpk.go
@@ -342,7 +342,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
-- 
2.43.0


From b367be83d6f73f1dbe8321d318af594a40d87676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:21 +0000
Subject: [PATCH 09/53] fix: package info is lost for package without files

Opening skipped whole tags table if there is no entries in it, and quick info
query took header bytes for the table if there is no table at all.
---
 wpk.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index a02daf1..a150dff 100644
--- a/wpk.go
+++ b/wpk.go
@@ -563,8 +563,8 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
-		return
+	if hdr.fttsize == 0 {
+		return // there is no tags table yet
 	}
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
@@ -793,6 +793,17 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that header refers to content inside of the stream
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if err = hdr.checkBounds(uint64(end)); err != nil {
+		return
+	}
+	if hdr.fttsize == 0 {
+		return // there is no tags table yet
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From b9f989e7e0d1793882ed35b8cc4a9273f370aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 10/53] fix: access to file out of actual data size crashes

Package data can be shorter than it declared at header, it causes a panic or
memory fault. And memory mapping of empty files at some offsets is failed.
---
 bulk/bulk.go |  4 ++++
 fsys/fsys.go | 12 +++++++++++-
 mmap/mmap.go | 22 +++++++++++++++++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..1801e20 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,10 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	if offset > uint(len(bulk)) || size > uint(len(bulk))-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..543aae6 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -23,11 +23,21 @@ type ChunkFile struct {
 
 // NewChunkFile creates ChunkFile file structure based on given tags slice.
 func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
-	var wpkf wpk.RFile
+	var wpkf *os.File
 	if wpkf, err = os.Open(fpath); err != nil {
 		return
 	}
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
 	var offset, size = ts.Pos()
+	if offset > uint(fi.Size()) || size > uint(fi.Size())-offset {
+		wpkf.Close()
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..8652b17 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -25,8 +25,25 @@ type MappedFile struct {
 
 // NewMappedFile maps nested to package file based on given tags slice.
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
-	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	// access to mapped memory beyond the end of file is fatal
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if offset > uint(fi.Size()) || size > uint(fi.Size())-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
+	// nothing to map for empty file
+	if size == 0 {
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
+	// calculate paged size/offset
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +68,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil {
+		return nil // empty file is not mapped
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From f4310d8621d55015936ea9e0574e46063c72b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 11/53] fix: ReadFile fails on empty files and does not check
 up short reads

---
 union.go | 2 +-
 wpk.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..c5de5ad 100644
--- a/union.go
+++ b/union.go
@@ -144,7 +144,7 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
+			_, err = io.ReadFull(f, buf)
 			return buf, err
 		}
 	}
diff --git a/wpk.go b/wpk.go
index a150dff..63e5135 100644
--- a/wpk.go
+++ b/wpk.go
@@ -758,7 +758,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
+		_, err = io.ReadFull(f, buf)
 		return buf, err
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
-- 
2.43.0


From 74aeea50a4fa039237eb3ed3f14a2164712bb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 12/53] fix: type of directory entry has permission bits

---
 tagset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index e22a082..3082f10 100644
--- a/tagset.go
+++ b/tagset.go
@@ -470,10 +470,7 @@ func (ts TagsetRaw) Sys() interface{} {
 
 // Type is for fs.DirEntry interface compatibility.
 func (ts TagsetRaw) Type() fs.FileMode {
-	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
-	}
-	return fs.ModeDir
+	return ts.Mode().Type()
 }
 
 // Info returns the FileInfo for the file or subdirectory described by the entry.
-- 
2.43.0


From e8436043f41e53a73ac516048f8bec7a5190cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 13/53] fix: name with leading slash gives file of subdirectory
 with other name

Full path should be inverse to trimmed path, so one file can not be
accessible by two different names.
---
 wpk.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 63e5135..f1da557 100644
--- a/wpk.go
+++ b/wpk.go
@@ -621,7 +621,13 @@ func NewPackage() *Package {
 
 // FullPath returns concatenation of workspace and relative path.
 func (pkg *Package) FullPath(fkey string) string {
-	return util.JoinPath(pkg.Workspace, fkey)
+	if pkg.Workspace == "." || pkg.Workspace == "" {
+		return fkey
+	}
+	if fkey == "." || fkey == "" {
+		return pkg.Workspace
+	}
+	return pkg.Workspace + "/" + fkey
 }
 
 // TrimPath returns trimmed path without workspace prefix.
-- 
2.43.0


From 2a2aca4e23f4fd9024d61b76d1ce703c3d44c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 14/53] fix: directories does not comply with io/fs contracts

Listing was not sorted, absent directories were listed as empty, paging by
ReadDir of opened directory always returned the same first entries, there was
no info on directories by Stat, and root of empty package was absent.
---
 dir.go | 141 +++++++++++++++++++++++++++++++++++++++------------------
 wpk.go |  10 ++--
 2 files changed, 103 insertions(+), 48 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..7871c51 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -25,11 +26,41 @@ func MakeDataPath(fpath string) string {
 	return fpath[:len(fpath)-len(ext)] + ".wpf"
 }
 
+// dirCursor keeps directory entries and position for sequential reading.
+type dirCursor struct {
+	list []fs.DirEntry
+	pos  int
+	read bool
+}
+
+// next returns up to n entries that was not returned yet, or all the rest on n <= 0.
+// Directory content is fixed by the first call.
+func (dc *dirCursor) next(n int, readall func() ([]fs.DirEntry, error)) (list []fs.DirEntry, err error) {
+	if !dc.read {
+		if dc.list, err = readall(); err != nil {
+			return
+		}
+		dc.read = true
+	}
+	list = dc.list[dc.pos:]
+	if n > 0 {
+		if len(list) == 0 {
+			return nil, io.EOF
+		}
+		if n < len(list) {
+			list = list[:n]
+		}
+	}
+	dc.pos += len(list)
+	return list, nil
+}
+
 // PackDirFile is a directory file whose entries can be read with the ReadDir method.
 // fs.ReadDirFile interface implementation.
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	dirCursor
 }
 
 // fs.ReadDirFile interface implementation.
@@ -49,7 +80,9 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	return f.next(n, func() ([]fs.DirEntry, error) {
+		return f.ftt.ReadDirN(f.Path(), -1)
+	})
 }
 
 // DirExists check up directory existence.
@@ -81,75 +114,93 @@ func TempPath(fname string) string {
 	return util.JoinPath(util.ToSlash(os.TempDir()), fname)
 }
 
-// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
-// It's core function for ReadDirFile and ReadDirFS structures.
-func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
-	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
-	var prefix string
-	if fulldir != "." && fulldir != "" {
-		prefix = fulldir + "/" // set terminated slash
+// dirPrefix returns prefix of keys of all files in given directory.
+func dirPrefix(fulldir string) string {
+	if fulldir == "." || fulldir == "" {
+		return ""
 	}
+	return fulldir + "/" // set terminated slash
+}
 
+// addDirEntries puts to the map entries nested into given directory by their names.
+// Entries that already present at the map are not replaced.
+func (ftt *FTT) addDirEntries(found map[string]fs.DirEntry, fulldir string) {
+	var prefix = dirPrefix(fulldir)
+	var own = map[string]fs.DirEntry{}
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
 			var suffix = fkey[len(prefix):]
 			var sp = strings.IndexByte(suffix, '/')
 			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
+				own[suffix] = ts
 			} else { // dir detected
-				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
-					var dts = TagsetRaw{}.
-						Put(TIDpath, StrTag(subdir))
-					var f = &PackDirFile{
-						TagsetRaw: dts,
-						ftt:       ftt,
-					}
-					found[subdir] = f
-					n--
+				var subdir = suffix[:sp]
+				if _, ok := own[subdir]; !ok {
+					own[subdir] = ftt.newDirFile(prefix + subdir)
 				}
 			}
 		}
-		return n != 0
+		return true
 	})
+	for name, de := range own {
+		if _, ok := found[name]; !ok {
+			found[name] = de
+		}
+	}
+}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
+// newDirFile creates directory file for given full path.
+func (ftt *FTT) newDirFile(fulldir string) *PackDirFile {
+	return &PackDirFile{
+		TagsetRaw: TagsetRaw{}.Put(TIDpath, StrTag(fulldir)),
+		ftt:       ftt,
 	}
-	if n > 0 {
+}
+
+// dirPage returns up to n entries of given set sorted by name, or all of them on n <= 0.
+// Returns io.EOF error if it has less entries than requested.
+func dirPage(found map[string]fs.DirEntry, n int) (list []fs.DirEntry, err error) {
+	var names = make([]string, 0, len(found))
+	for name := range found {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	if n > len(names) {
 		err = io.EOF
+	} else if n > 0 {
+		names = names[:n]
+	}
+	list = make([]fs.DirEntry, len(names))
+	for i, name := range names {
+		list[i] = found[name]
 	}
 	return
 }
 
+// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
+// It's core function for ReadDirFile and ReadDirFS structures.
+func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
+	fulldir = util.ToSlash(fulldir)
+	var found = map[string]fs.DirEntry{}
+	ftt.addDirEntries(found, fulldir)
+	if len(found) == 0 && dirPrefix(fulldir) != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: fulldir, Err: fs.ErrNotExist}
+	}
+	return dirPage(found, n)
+}
+
 // OpenDir returns PackDirFile structure associated with group of files in package
 // pooled with common directory prefix. Usable to implement fs.FileSystem interface.
 func (ftt *FTT) OpenDir(fulldir string) (fs.ReadDirFile, error) {
 	fulldir = util.ToSlash(fulldir)
-	var prefix string
-	if fulldir != "." && fulldir != "" {
-		prefix = fulldir + "/" // set terminated slash
-	}
-	var f *PackDirFile
+	var prefix = dirPrefix(fulldir)
+	var found = prefix == "" // root directory is always present
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-		if strings.HasPrefix(fkey, prefix) {
-			var dts = TagsetRaw{}.
-				Put(TIDpath, StrTag(fulldir))
-			f = &PackDirFile{
-				TagsetRaw: dts,
-				ftt:       ftt,
-			}
-			return false
-		}
-		return true
+		found = found || strings.HasPrefix(fkey, prefix)
+		return !found
 	})
-	if f != nil {
-		return f, nil
+	if found {
+		return ftt.newDirFile(fulldir), nil
 	}
 	// on case if not found
 	return nil, &fs.PathError{Op: "open", Path: fulldir, Err: fs.ErrNotExist}
diff --git a/wpk.go b/wpk.go
index f1da557..d130847 100644
--- a/wpk.go
+++ b/wpk.go
@@ -696,10 +696,11 @@ func (pkg *Package) Enum(f func(string, TagsetRaw) bool) {
 // Sub clones object and gives access to pointed subdirectory.
 // fs.SubFS implementation.
 func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
-	var prefix string
-	if dir != "." && dir != "" {
-		prefix = util.ToSlash(dir) + "/" // make prefix slash-terminated
+	if dir == "." || dir == "" { // root directory is always present
+		var clone = *pkg
+		return &clone, nil
 	}
+	var prefix = util.ToSlash(dir) + "/" // make prefix slash-terminated
 	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
 			sub = &Package{
@@ -723,6 +724,9 @@ func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(fkey)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 2d202e85fff5af3986b376cf65c61653984c8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 15/53] fix: directories of union are listed incorrectly

File of last package was shown instead of the first one, page size was counted
by all packages with repetitions, listing was not sorted, and directory absent
at first package could not be read if packages have different workspaces.
---
 union.go | 95 +++++++++++++++-----------------------------------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/union.go b/union.go
index c5de5ad..c2bda8d 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,8 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dir string // path relative to workspaces of packages
+	dirCursor
 }
 
 // fs.ReadDirFile interface implementation.
@@ -37,13 +39,9 @@ func (f *UnionDir) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	var dir = f.Path()
-	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
-			return nil, ErrOtherSubdir
-		}
-	}
-	return f.ReadDirN(dir, n)
+	return f.next(n, func() ([]fs.DirEntry, error) {
+		return f.ReadDirN(f.dir, -1)
+	})
 }
 
 // Union glues list of packages into single filesystem.
@@ -105,6 +103,9 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	if f, err := u.openDir(util.ToSlash(fpath)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
@@ -156,53 +157,13 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
 	var found = map[string]fs.DirEntry{}
-	var ni = n
 	for _, pkg := range u.List {
-		var fulldir = pkg.FullPath(dir)
-		var prefix string
-		if fulldir != "." {
-			prefix = fulldir + "/" // set terminated slash
-		}
-
-		pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var suffix = fkey[len(prefix):]
-				var sp = strings.IndexByte(suffix, '/')
-				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
-				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
-						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
-							TagsetRaw: dts,
-							ftt:       pkg.FTT,
-						}
-						found[subdir] = f
-						ni--
-					}
-				}
-			}
-			return ni != 0
-		})
-
-		if ni == 0 {
-			break
-		}
+		pkg.addDirEntries(found, pkg.FullPath(dir))
 	}
-
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
+	if len(found) == 0 && (dirPrefix(dir) != "" || len(u.List) == 0) {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
 	}
-	if ni > 0 {
-		err = io.EOF
-	}
-	return
+	return dirPage(found, n)
 }
 
 // ReadDir reads the named directory
@@ -242,26 +203,20 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	// try to get the folder
-	var prefix string
-	if dir != "." && dir != "" {
-		prefix = dir + "/" // set terminated slash
-	}
+	return u.openDir(dir)
+}
+
+// openDir returns directory that is present at least at one of packages.
+// Root directory is present in any package.
+func (u *Union) openDir(dir string) (fs.File, error) {
 	for _, pkg := range u.List {
-		var f *UnionDir
-		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var dts = TagsetRaw{}.
-					Put(TIDpath, StrTag(pkg.FullPath(dir)))
-				f = &UnionDir{
-					TagsetRaw: dts,
-					Union:     u,
-				}
-				return false
-			}
-			return true
-		})
-		if f != nil {
-			return f, nil
+		var fulldir = pkg.FullPath(dir)
+		if _, err := pkg.OpenDir(fulldir); err == nil || dirPrefix(dir) == "" {
+			return &UnionDir{
+				TagsetRaw: TagsetRaw{}.Put(TIDpath, StrTag(fulldir)),
+				Union:     u,
+				dir:       dir,
+			}, nil
 		}
 	}
 	// on case if not found
-- 
2.43.0


From c054b9eea4efee308399a39071ca906e916475fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 16/53] fix: union panics on subdirectory with name of package
 reference

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index c2bda8d..ab9d49d 100644
--- a/union.go
+++ b/union.go
@@ -183,7 +183,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	if len(u.List) > 0 {
-		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
+		if fulldir := u.List[0].FullPath(dir); fulldir == dir && strings.HasPrefix(fulldir, PackName+"/") {
 			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
-- 
2.43.0


From 81c4e566f2a416ef4f3dd998153469d6b112b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 17/53] fix: same file can be packed twice by concurrent calls

Entry should appear at tags table before the unlock: other call could pass the
check on existence, and flush could store data without its entry.
---
 writer.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/writer.go b/writer.go
index 25a043f..2963d73 100644
--- a/writer.go
+++ b/writer.go
@@ -140,28 +140,24 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
+	// get offset and put provided data
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From 5fe309a6deab1c7ab4b8b90364507a28691c8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 18/53] fix: Pop modifies the map under the read lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 30a9b0852908ab831ae98016068a7c1990965c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 19/53] fix: splitted package can be damaged by interruption of
 flush

Flush wrote new tags table over the stored one, and then the header by parts.
Now table is placed aside of the stored one, and header is rewritten at once.
Table that can not be stored leaves the package files as they were.
---
 wpk.go    | 42 +++++++++++++++---------------------------
 writer.go | 44 +++++++++++++++++++++++---------------------
 2 files changed, 38 insertions(+), 48 deletions(-)

diff --git a/wpk.go b/wpk.go
index d130847..309494f 100644
--- a/wpk.go
+++ b/wpk.go
@@ -240,32 +240,17 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 // WriteTo writes header to stream as binary data of constant length.
-func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
-	return
+// It makes the only write call, so header never can be stored partially updated.
+func (hdr *Header) WriteTo(w io.Writer) (int64, error) {
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
+	util.SetU64(buf[SignSize:], hdr.fttcount)
+	util.SetU64(buf[SignSize+8:], hdr.fttoffset)
+	util.SetU64(buf[SignSize+16:], hdr.fttsize)
+	util.SetU64(buf[SignSize+24:], hdr.datoffset)
+	util.SetU64(buf[SignSize+32:], hdr.datsize)
+	var n, err = w.Write(buf[:])
+	return int64(n), err
 }
 
 // Special name for `Open` calls to get package content reference.
@@ -276,6 +261,8 @@ type FTT struct {
 	info TagsetRaw                      // special tagset with package tags
 	tsm  util.SeqMap[string, TagsetRaw] // keys - package filenames (case sensitive), values - tagset slices.
 
+	fttoffset uint64 // offset of last stored file tags table
+	fttsize   uint64 // size of last stored file tags table
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
 
@@ -286,7 +273,8 @@ type FTT struct {
 func (ftt *FTT) Init(hdr *Header) {
 	ftt.info = nil
 	ftt.tsm.Init(int(hdr.fttcount))
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 }
 
diff --git a/writer.go b/writer.go
index 2963d73..324f194 100644
--- a/writer.go
+++ b/writer.go
@@ -1,6 +1,7 @@
 package wpk
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -42,7 +43,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
@@ -78,7 +80,14 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	ftt.mux.Lock()
 	defer ftt.mux.Unlock()
 
-	var fftpos, fftend, datpos, datend int64
+	var fftpos, datpos, datend int64
+
+	// make file tags table, nothing should be written if it can not be stored
+	var buf bytes.Buffer
+	if _, err = ftt.WriteTo(&buf); err != nil {
+		return
+	}
+	var fttsize = uint64(buf.Len())
 
 	if wpf != nil && wpf != wpt { // splitted package files
 		// get tags table offset as actual end of file
@@ -86,17 +95,13 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
 			return
 		}
+		// stored tags table remains in force until the header will be rewritten,
+		// so new one should be placed aside
 		fftpos = HeaderSize
-
-		// write file tags table
-		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
-			return
-		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
+		if ftt.fttsize > 0 && ftt.fttoffset < HeaderSize+fttsize {
+			fftpos = int64(ftt.fttoffset + ftt.fttsize)
 		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
+		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
 			return
 		}
 	} else { // single package file
@@ -106,15 +111,11 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 			return
 		}
 		fftpos = datend
+	}
 
-		// write file tags table
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
+	// write file tags table
+	if _, err = wpt.Write(buf.Bytes()); err != nil {
+		return
 	}
 
 	// rewrite true header
@@ -122,7 +123,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		signature: [SignSize]byte(util.S2B(SignReady)),
 		fttcount:  uint64(ftt.tsm.Len()),
 		fttoffset: uint64(fftpos),
-		fttsize:   uint64(fftend - fftpos),
+		fttsize:   fttsize,
 		datoffset: uint64(datpos),
 		datsize:   uint64(datend - datpos),
 	}
@@ -132,7 +133,8 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
-- 
2.43.0


From 8816d534a6a4b583da1c0a1d30721bc0874a1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 20/53] fix: tags table can not overlap the header

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 309494f..8936fab 100644
--- a/wpk.go
+++ b/wpk.go
@@ -176,7 +176,7 @@ func (hdr *Header) IsReady() error {
 // checkBounds checks up that tags table is inside of the stream with given size,
 // entries count can fit in this table, and data block has representable end.
 func (hdr *Header) checkBounds(end uint64) error {
-	if hdr.fttsize > 0 && (hdr.fttoffset > end || hdr.fttsize > end-hdr.fttoffset) {
+	if hdr.fttsize > 0 && (hdr.fttoffset < HeaderSize || hdr.fttoffset > end || hdr.fttsize > end-hdr.fttoffset) {
 		return ErrSignFTT
 	}
 	if hdr.fttcount > hdr.fttsize/PTStssize {
-- 
2.43.0


From 11e04d50f86df3fdeda47b5acd104750178483b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 21/53] fix: new package takes entries of previously opened one

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 324f194..cd5c1c2 100644
--- a/writer.go
+++ b/writer.go
@@ -43,6 +43,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package has no entries yet
+	ftt.tsm.Init(0)
 	// update table and data offset/pos
 	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-- 
2.43.0


From 4a137a278d923c02f9010392cb2adffcda03085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 22/53] fix: environment expansion loses or adds characters in
 some cases

Name of one letter at the end was not expanded, undefined name at the end was
replaced by zero bytes, given map was not used there, and pattern that is not
closed at the end broke or crashed the second passage.
---
 util/strutil.go | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..f86286c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -200,13 +200,21 @@ func Envfmt(fpath string, envmap map[string]string) string {
 		el   = len(fpath) // len of expanded path
 	)
 
+	// looks at 'envmap' first, and then calls OS
+	var lookup = func(v string) (env string, ok bool) {
+		if env, ok = envmap[v]; !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		return
+	}
+
 	// 1st passage, string length calculation
 	var b = S2B(fpath)
 	i = 0
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -249,15 +257,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 			}
 			if p1 > 0 && p2 > 0 { // pattern ready
 				var v = B2S(b[p1:p2])
-				var env string
-				var ok bool
-				if envmap != nil {
-					env, ok = envmap[v]
-				}
-				if !ok {
-					env, ok = os.LookupEnv(v)
-				}
-				if ok {
+				if env, ok := lookup(v); ok {
 					el += len(env) - len(v)
 					switch mode {
 					case 1:
@@ -276,12 +276,12 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
 		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		if env, ok := lookup(B2S(v)); ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
-		mode = 0
 	}
+	mode = 0 // pattern can be not closed at the end of fpath
 
 	if n == 0 { // there is no changes
 		return fpath
@@ -293,7 +293,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -342,15 +342,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 			}
 			if p1 > 0 && p2 > 0 { // pattern ready
 				var v = B2S(b[p1:p2])
-				var env string
-				var ok bool
-				if envmap != nil {
-					env, ok = envmap[v]
-				}
-				if !ok {
-					env, ok = os.LookupEnv(v)
-				}
-				if ok {
+				if env, ok := lookup(v); ok {
 					copy(e[j:], env)
 					j += len(env)
 					pc = i
@@ -362,12 +354,11 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
 		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
-			copy(e[j:], env)
+		if env, ok := lookup(B2S(v)); ok {
+			j += copy(e[j:], env)
+			pc = fl
 		}
-		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From 02d706c451218e44b6b169fa5b2524d7be004726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 23/53] fix: directories with back slashes are not renamed

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index cd5c1c2..25a5792 100644
--- a/writer.go
+++ b/writer.go
@@ -212,6 +212,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From 0572fab25035c1d3ee909b667405d41b4f22ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 24/53] fix: packing of file from any fs.FS except OS panics

---
 writer.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/writer.go b/writer.go
index 25a5792..2682755 100644
--- a/writer.go
+++ b/writer.go
@@ -169,6 +169,18 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	return
 }
 
+// fileTimes returns all times of the file, or nil if they are unknown.
+// Any fs.File can be packed, not only file of the OS,
+// and times.Get panics on foreign content of fs.FileInfo.
+func fileTimes(fi fs.FileInfo) (tsp times.Timespec) {
+	defer func() {
+		if recover() != nil {
+			tsp = nil
+		}
+	}()
+	return times.Get(fi)
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
@@ -179,15 +191,15 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 		return
 	}
 
-	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = times.Get(fi)
-	ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
-	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
-	if tsp.HasChangeTime() {
-		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-	}
-	if tsp.HasBirthTime() {
-		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
+	if tsp := fileTimes(fi); tsp != nil {
+		ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
+		if tsp.HasChangeTime() {
+			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+		}
+		if tsp.HasBirthTime() {
+			ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+		}
 	}
 	pkg.SetTagset(fkey, ts)
 	return
-- 
2.43.0


From 55c0127db12507d973d7751cbd74bbb8f645357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 25/53] fix: too large tag is silently truncated on replace

If length modulo 64K was the same as the length of replaced tag,
only the head of new value was stored without any error.
---
 tagset.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tagset.go b/tagset.go
index 3082f10..87f3da9 100644
--- a/tagset.go
+++ b/tagset.go
@@ -302,12 +302,11 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		return ts.Put(tid, tag), true
 	}
 
-	var tl = uint16(len(tag))
-	if tl == uint16(tsi.pos-tsi.tag) {
+	if len(tag) == tsi.pos-tsi.tag {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		var suff = append(TagsetRaw{}, ts[tsi.pos:]...)
-		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
+		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], uint16(len(tag))) // set tag length
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From a7e1e4ffba02c198670cb8b6b086fd6e46a39873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 26/53] fix: tagset with back slashes at path becomes
 inaccessible on setup

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 8936fab..7efd636 100644
--- a/wpk.go
+++ b/wpk.go
@@ -662,7 +662,7 @@ func (pkg *Package) SetTagset(fkey string, ts TagsetRaw) {
 
 // SetupTagset puts tagset with filename key stored at tagset.
 func (pkg *Package) SetupTagset(ts TagsetRaw) {
-	pkg.tsm.Poke(ts.Path(), ts)
+	pkg.tsm.Poke(util.ToSlash(ts.Path()), ts)
 }
 
 // GetDelTagset deletes the tagset for a key, returning the previous tagset if any.
-- 
2.43.0


From 3a600353155b1f106e6b29b89967b48c4ae518a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 27/53] fix: tags with unacceptable values are silently dropped
 by Lua API

Error of value conversion was not checked for tables with tags. Values at table
of deltags does not matter, so they should not be converted there.
---
 luawpk/luawpk.go  | 13 ++++++++++++-
 luawpk/nametid.go |  3 +--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..aa40513 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1153,7 +1153,18 @@ func wpkdeltags(ls *lua.LState) int {
 	var lt = ls.CheckTable(3)
 
 	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var errs []error
+	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+		var tid, err = ValueToTID(k)
+		if err != nil {
+			errs = append(errs, err)
+		} else if tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath {
+			errs = append(errs, &ErrProtected{tid})
+		} else {
+			opts = opts.Put(tid, nil)
+		}
+	})
+	if err = errors.Join(errs...); err != nil {
 		return 0
 	}
 
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..0d485c0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
-- 
2.43.0


From 48f64e4d038bd27aa6a7846d94d14152d46ffd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 28/53] fix: numbers out of range are stored as other values by
 Lua API

Tag identifiers over 65535 referred to other tags, negative and fractional
values of unsigned tags were stored as some other numbers.
---
 luawpk/nametid.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 0d485c0..d59122f 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -136,7 +136,10 @@ var (
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
-		tid = wpk.TID(n)
+		if tid = wpk.TID(n); lua.LNumber(tid) != n {
+			err = ErrBadTagKey
+			return
+		}
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
 			tid = n
@@ -151,6 +154,15 @@ func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	return
 }
 
+// numberToUint converts number to unsigned integer.
+// Returns error if number has a sign, fraction, or it's too big.
+func numberToUint(n lua.LNumber) (uint, error) {
+	if n < 0 || n >= 1<<64 || n != lua.LNumber(uint(n)) {
+		return 0, ErrBadTagVal
+	}
+	return uint(n), nil
+}
+
 // ValueToTag converts LValue to TagRaw. Strings converts explicitly to byte sequence,
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
@@ -158,7 +170,11 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numberToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
 		} else {
@@ -188,13 +204,17 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTuint:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numberToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
-			var i int
-			if i, err = strconv.Atoi(string(val)); err != nil {
+			var n uint64
+			if n, err = strconv.ParseUint(string(val), 10, 64); err != nil {
 				return
 			}
-			tag = wpk.UintTag(uint(i))
+			tag = wpk.UintTag(uint(n))
 		} else if val, ok := v.(lua.LBool); ok {
 			if val {
 				tag = wpk.UintTag(1)
-- 
2.43.0


From e35e7cb9db90ce2ff4c8521469baf79d9730ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 29/53] fix: name of tag at gettags result differs from run to
 run

---
 luawpk/nametid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index d59122f..6f78832 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -102,7 +102,10 @@ var NameTid = map[string]wpk.TID{
 var TidName = func() map[wpk.TID]string {
 	var tn = map[wpk.TID]string{}
 	for name, tid := range NameTid {
-		tn[tid] = name
+		// tag with several names always should have the same one
+		if old, ok := tn[tid]; !ok || len(name) < len(old) {
+			tn[tid] = name
+		}
 	}
 	return tn
 }()
-- 
2.43.0


From 82ec5169afa5189c2b94240d375e49c0a73c1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 30/53] fix: Lua package is unusable after file opening failure

Interface with nil file handle inside was taken for the opened stream.
---
 luawpk/luawpk.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index aa40513..39cee7d 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -500,16 +500,18 @@ func wpkbegin(ls *lua.LState) int {
 	}
 
 	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	var wpt, wpf *os.File
+	if wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
 		return 0
 	}
 	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+			wpt.Close()
 			return 0
 		}
+		pkg.wpf = wpf
 	}
+	pkg.wpt = wpt
 	// setup file representation
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
@@ -535,16 +537,18 @@ func wpkappend(ls *lua.LState) int {
 	}
 
 	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	var wpt, wpf *os.File
+	if wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
 		return 0
 	}
 	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
+			wpt.Close()
 			return 0
 		}
+		pkg.wpf = wpf
 	}
+	pkg.wpt = wpt
 	// starts to append files
 	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
 		return 0
-- 
2.43.0


From 2203619a6b6839d6fe627572462f3d9606086786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 31/53] fix: append damages package loaded with wrong data path

Files of splitted package were written over the tags table if data path was not
given on load, and tags table was written over the data on opposite case.
---
 luawpk/luawpk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 39cee7d..c73db42 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -536,6 +536,12 @@ func wpkappend(ls *lua.LState) int {
 		return 0
 	}
 
+	// data placement should be the same as at loaded package
+	if pkg.IsSplitted() != (pkg.datpath != "") {
+		err = ErrDataClosed
+		return 0
+	}
+
 	// open package file
 	var wpt, wpf *os.File
 	if wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
-- 
2.43.0


From ae894039b785441a91126f5626d36b868a502d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 32/53] fix: file put by Lua script with an error remains
 listed without its tags

---
 luawpk/luawpk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index c73db42..faa38df 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -722,10 +722,12 @@ func wpkputdata(ls *lua.LState) int {
 	}
 
 	if ts, err = pkg.adjusttagset(r, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
 	if ts, err = TableToTagset(tags, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
@@ -767,10 +769,12 @@ func wpkputfile(ls *lua.LState) int {
 	}
 
 	if ts, err = pkg.adjusttagset(file, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
 	if ts, err = TableToTagset(tags, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
-- 
2.43.0


From 44d134153ed324f0e46ebfcf22c50b26daa0f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 33/53] fix: automatic file ID repeats those already used in
 package

Counter started from the beginning for loaded package,
and did not take into account explicitly given IDs.
---
 luawpk/luawpk.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index faa38df..c3567f1 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -224,6 +224,13 @@ var methodsPack = map[string]lua.LGFunction{
 	"setupinfo": wpksetupinfo,
 }
 
+// usedfid prevents from issuing of the file ID that already has given tagset.
+func (pkg *LuaPackage) usedfid(ts wpk.TagsetRaw) {
+	if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+		pkg.fidcount = fid
+	}
+}
+
 // properties section
 
 func getlabel(ls *lua.LState) int {
@@ -479,6 +486,10 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		pkg.usedfid(ts)
+		return true
+	})
 
 	return 0
 }
@@ -732,6 +743,7 @@ func wpkputdata(ls *lua.LState) int {
 	}
 
 	pkg.SetupTagset(ts)
+	pkg.usedfid(ts)
 
 	return 0
 }
@@ -779,6 +791,7 @@ func wpkputfile(ls *lua.LState) int {
 	}
 
 	pkg.SetupTagset(ts)
+	pkg.usedfid(ts)
 
 	return 0
 }
@@ -965,6 +978,7 @@ func wpksettag(ls *lua.LState) int {
 	ts = wpk.CopyTagset(ts)
 	ts, ok = ts.SetOk(tid, tag)
 	pkg.SetupTagset(ts)
+	pkg.usedfid(ts)
 
 	ls.Push(lua.LBool(ok))
 	return 1
@@ -1005,6 +1019,7 @@ func wpkaddtag(ls *lua.LState) int {
 	ts = wpk.CopyTagset(ts)
 	if ts, ok = ts.AddOk(tid, tag); ok {
 		pkg.SetupTagset(ts)
+		pkg.usedfid(ts)
 	}
 
 	ls.Push(lua.LBool(ok))
@@ -1040,6 +1055,7 @@ func wpkdeltag(ls *lua.LState) int {
 	ts = wpk.CopyTagset(ts)
 	if ts, ok = ts.DelOk(tid); ok {
 		pkg.SetupTagset(ts)
+		pkg.usedfid(ts)
 	}
 
 	ls.Push(lua.LBool(ok))
@@ -1109,6 +1125,7 @@ func wpksettags(ls *lua.LState) int {
 		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 	pkg.SetupTagset(ts)
+	pkg.usedfid(ts)
 
 	return 0
 }
@@ -1147,6 +1164,7 @@ func wpkaddtags(ls *lua.LState) int {
 	}
 	if n > 0 {
 		pkg.SetupTagset(ts)
+		pkg.usedfid(ts)
 	}
 
 	ls.Push(lua.LNumber(n))
@@ -1198,6 +1216,7 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 	if n > 0 {
 		pkg.SetupTagset(ts)
+		pkg.usedfid(ts)
 	}
 
 	ls.Push(lua.LNumber(n))
-- 
2.43.0


From 6d2d54707cc809a10221186c96a216361c827f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 34/53] fix: path.match takes arguments in order opposite to
 documented

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From 41df27ec48d0ca77aa42ec449101f90e74ad90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 35/53] fix: path.enum fails on empty directory if number of
 files is limited

---
 luawpk/luapath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 5c6aa49..cd043db 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -1,6 +1,7 @@
 package luawpk
 
 import (
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -146,7 +147,7 @@ func pathenum(ls *lua.LState) int {
 	defer dir.Close()
 
 	var names []string
-	if names, err = dir.Readdirnames(n); err != nil {
+	if names, err = dir.Readdirnames(n); err != nil && err != io.EOF {
 		ls.RaiseError(err.Error())
 		return 0
 	}
-- 
2.43.0


From bf870df5a752f4124fb8e5f282ffdd2c9bea3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 36/53] fix: extract writes outside of destination path

---
 cmd/extract/extract.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..aba0122 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -30,7 +32,8 @@ var (
 var pkg = wpk.NewPackage()
 
 var (
-	ErrNoWay = errors.New("no way to here")
+	ErrNoWay   = errors.New("no way to here")
+	ErrOutside = errors.New("name of packed file leads outside of destination path")
 )
 
 func parseargs() {
@@ -134,7 +137,14 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
-				var fullpath = util.JoinPath(DstPath, fkey)
+				// package can be received from untrusted source
+				var local = strings.TrimLeft(util.ToSlash(fkey), "/")
+				if !filepath.IsLocal(filepath.FromSlash(local)) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: ErrOutside}
+					return
+				}
+
+				var fullpath = util.JoinPath(DstPath, local)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
 				}
-- 
2.43.0


From 6ec364afe6a3250e3fe46f364c01abeacfe11cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 37/53] fix: pack finishes package without files that can not
 be packed

---
 cmd/pack/pack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..c3e8238 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -165,6 +165,9 @@ func writepackage() (err error) {
 			pkg.SetTagset(fkey, ts)
 			return nil
 		})
+		if err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From 26ec769f936e0debe5c278f69110b6cfecbf8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 38/53] fix: pack detects MIME type on zeros instead of file
 content

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index c3e8238..5bcceee 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From cd491d242f0f22e66aeb535031688c906ad168a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 39/53] fix: pack writes package into itself if it is placed at
 source folder

---
 cmd/pack/pack.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 5bcceee..5a1e004 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -95,6 +95,16 @@ func writepackage() (err error) {
 		log.Printf("destination file: %s\n", pkgfile)
 	}
 
+	// package itself can be placed inside of source folder
+	var dstinf []fs.FileInfo
+	for _, fpath := range []string{pkgfile, datfile} {
+		var fi fs.FileInfo
+		if fi, err = os.Stat(fpath); err != nil {
+			return
+		}
+		dstinf = append(dstinf, fi)
+	}
+
 	// starts new package
 	if err = pkg.Begin(fwpk, fwpf); err != nil {
 		return
@@ -126,6 +136,16 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			var fi fs.FileInfo
+			if fi, err = file.Stat(); err != nil {
+				return err
+			}
+			for _, di := range dstinf {
+				if os.SameFile(fi, di) {
+					return nil // file is the package that is written now
+				}
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From bc0d3fbbb1a464545996deb7964387dc4d0c2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 40/53] fix: backslashes are kept in path tags of parsed and
 set up tagsets

---
 wpk.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wpk.go b/wpk.go
index 7efd636..fb6be4a 100644
--- a/wpk.go
+++ b/wpk.go
@@ -356,6 +356,16 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	return
 }
 
+// pokeTagset puts tagset with given path stored at it.
+// Names are kept with true slashes only, at the key and at the tagset as well.
+func (ftt *FTT) pokeTagset(fpath string, ts TagsetRaw) {
+	var fkey = util.ToSlash(fpath)
+	if fkey != fpath {
+		ts = CopyTagset(ts).Set(TIDpath, StrTag(fkey))
+	}
+	ftt.tsm.Poke(fkey, ts)
+}
+
 // Parse makes table from given byte slice.
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
@@ -409,7 +419,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			return
 		}
 
-		ftt.tsm.Poke(util.ToSlash(fkey), ts)
+		ftt.pokeTagset(fkey, ts)
 	}
 	return
 }
@@ -463,7 +473,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 
-		ftt.tsm.Poke(util.ToSlash(fkey), ts)
+		ftt.pokeTagset(fkey, ts)
 	}
 	return
 }
@@ -662,7 +672,7 @@ func (pkg *Package) SetTagset(fkey string, ts TagsetRaw) {
 
 // SetupTagset puts tagset with filename key stored at tagset.
 func (pkg *Package) SetupTagset(ts TagsetRaw) {
-	pkg.tsm.Poke(util.ToSlash(ts.Path()), ts)
+	pkg.pokeTagset(ts.Path(), ts)
 }
 
 // GetDelTagset deletes the tagset for a key, returning the previous tagset if any.
-- 
2.43.0


From 9673296bc1663deb48d6348b2fe73d4d95140e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 41/53] fix: too long tag values are stored by Lua API with
 other length

---
 luawpk/luawpk.go  | 7 ++++++-
 luawpk/nametid.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index c3567f1..258cd1b 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -248,8 +248,13 @@ func setlabel(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var label = ls.CheckString(2)
 
+	var tag, err = ValueToTag(wpk.TIDlabel, lua.LString(label))
+	if err != nil {
+		ls.RaiseError(err.Error())
+		return 0
+	}
 	pkg.SetInfo(wpk.CopyTagset(pkg.GetInfo()).
-		Set(wpk.TIDlabel, wpk.StrTag(label)))
+		Set(wpk.TIDlabel, tag))
 	return 0
 }
 
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 6f78832..469c6a0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -132,6 +133,7 @@ func (e *ErrProtected) Error() string {
 var (
 	ErrBadTagKey = errors.New("tag key type is not number or string")
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
+	ErrTagLength = errors.New("tag value is too long")
 )
 
 // ValueToTID converts LValue to uint16 tag identifier.
@@ -170,6 +172,11 @@ func numberToUint(n lua.LNumber) (uint, error) {
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
 func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
+	defer func() {
+		if err == nil && len(tag) > math.MaxUint16 {
+			tag, err = nil, ErrTagLength
+		}
+	}()
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-- 
2.43.0


From f24eabac6c0581701ba803fbfd353cb7ea2f933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 42/53] fix: reading of closed mapped file returns an error
 instead of a fault

---
 mmap/mmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index 8652b17..908031f 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -66,11 +66,20 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 	return f.tags, nil
 }
 
+// closedReader is placed instead of content of closed file,
+// access to unmapped memory is fatal.
+type closedReader struct{}
+
+func (closedReader) Read([]byte) (int, error)          { return 0, fs.ErrClosed }
+func (closedReader) ReadAt([]byte, int64) (int, error) { return 0, fs.ErrClosed }
+func (closedReader) Seek(int64, int) (int64, error)    { return 0, fs.ErrClosed }
+
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
 	if f.MMap == nil {
 		return nil // empty file is not mapped
 	}
+	f.PkgReader, f.region = closedReader{}, nil
 	return f.Unmap()
 }
 
-- 
2.43.0


From 87400e196e3fddf1a1cfe881e367ecc96625b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 43/53] fix: append after failed load damages package loaded
 before

---
 luawpk/luawpk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 258cd1b..5b7372c 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -488,6 +488,8 @@ func wpkload(ls *lua.LState) int {
 
 	// open package file
 	if err = pkg.OpenFile(pkgpath); err != nil {
+		// table can be of other package now, and previous one should not be appended by it
+		pkg.pkgpath, pkg.datpath = "", ""
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
-- 
2.43.0


From 66a05bcee0864a599687dcf8fe885a238c489964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 44/53] fix: extract ignores failure on restoring of file times

---
 cmd/extract/extract.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index aba0122..410cc76 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -163,7 +163,11 @@ func readpackage() (err error) {
 					var atime, aok = ts.TagTime(wpk.TIDatime)
 					var mtime, mok = ts.TagTime(wpk.TIDmtime)
 					if aok && mok {
-						defer os.Chtimes(fullpath, atime, mtime)
+						defer func() {
+							if terr := os.Chtimes(fullpath, atime, mtime); err == nil {
+								err = terr
+							}
+						}()
 					}
 				}
 				defer dst.Close()
-- 
2.43.0


From 0e7e6b76882dd858f770c0761c0b794d78460b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 45/53] fix: extract destroys source package if it has a file
 with the same place

---
 cmd/extract/extract.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 410cc76..eb68191 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -34,6 +34,7 @@ var pkg = wpk.NewPackage()
 var (
 	ErrNoWay   = errors.New("no way to here")
 	ErrOutside = errors.New("name of packed file leads outside of destination path")
+	ErrSource  = errors.New("packed file should be written over the source package")
 )
 
 func parseargs() {
@@ -120,9 +121,28 @@ func openpackage(pkgpath string) (err error) {
 	return
 }
 
+// sourcefiles returns all files from which packages are read.
+func sourcefiles() (list []fs.FileInfo) {
+	for _, pkgpath := range SrcList {
+		var parts = []string{pkgpath}
+		var src = wpk.NewPackage()
+		if err := src.OpenFile(pkgpath); err == nil && src.IsSplitted() {
+			parts = append(parts, wpk.MakeDataPath(pkgpath))
+		}
+		for _, fpath := range parts {
+			if fi, err := os.Stat(fpath); err == nil {
+				list = append(list, fi)
+			}
+		}
+	}
+	return
+}
+
 func readpackage() (err error) {
 	log.Printf("destination path: %s", DstPath)
 
+	var srcinf = sourcefiles()
+
 	for _, pkgpath := range SrcList {
 		log.Printf("source package: %s", pkgpath)
 		func() {
@@ -149,6 +169,16 @@ func readpackage() (err error) {
 					return
 				}
 
+				// packages can be placed inside of destination folder
+				if fi, serr := os.Stat(fullpath); serr == nil {
+					for _, si := range srcinf {
+						if os.SameFile(fi, si) {
+							err = &fs.PathError{Op: "extract", Path: fkey, Err: ErrSource}
+							return
+						}
+					}
+				}
+
 				var src wpk.RFile
 				if src, err = pkg.OpenTagset(ts); err != nil {
 					return
-- 
2.43.0


From 8a131b4864d170b69e44810b04d77c0588fde626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 46/53] fix: package put into itself by Lua script grows
 endlessly

---
 luawpk/luawpk.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 5b7372c..3a8b3be 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -18,6 +18,7 @@ var (
 	ErrPackOpened = errors.New("package write stream already opened")
 	ErrPackClosed = errors.New("package write stream does not opened")
 	ErrDataClosed = errors.New("package data file is not opened")
+	ErrPackSelf   = errors.New("package can not be put into itself")
 )
 
 // PackMT is "wpk" name of Lua metatable.
@@ -778,6 +779,19 @@ func wpkputfile(ls *lua.LState) int {
 	}
 	defer file.Close()
 
+	// content of package that is written now never ends
+	var fi, pi fs.FileInfo
+	if fi, err = file.Stat(); err != nil {
+		return 0
+	}
+	for _, ppath := range []string{pkg.pkgpath, pkg.datpath} {
+		var perr error
+		if pi, perr = os.Stat(ppath); perr == nil && os.SameFile(fi, pi) {
+			err = &fs.PathError{Op: "putfile", Path: fpath, Err: ErrPackSelf}
+			return 0
+		}
+	}
+
 	var w = pkg.wpt
 	if pkg.wpf != nil {
 		w = pkg.wpf
-- 
2.43.0


From b7429d360b71613fdedefe97178c6bdb745d385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 47/53] fix: order of tags from Lua table is random

---
 luawpk/nametid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 469c6a0..7611771 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -332,7 +332,8 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	var errs []error
-	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+	// order of ForEach is random, so it can not be used for tags
+	for k, v := lt.Next(lua.LNil); k != lua.LNil; k, v = lt.Next(k) {
 		var (
 			errk error
 			errv error
@@ -353,7 +354,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 		if errk == nil && errv == nil {
 			ts = ts.Set(tid, tag)
 		}
-	})
+	}
 	return ts, errors.Join(errs...)
 }
 
-- 
2.43.0


From 5450b42588f14b83dbc484d163d68e5c4999d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 48/53] fix: rename and alias meanwhile packing or flush lose
 files

---
 writer.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index 2682755..8053543 100644
--- a/writer.go
+++ b/writer.go
@@ -146,7 +146,11 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
+	return pkg.packData(w, r, fkey)
+}
 
+// packData is PackData under locked writer mutex.
+func (pkg *Package) packData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
@@ -187,7 +191,11 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
-	if ts, err = pkg.PackData(w, file, fkey); err != nil {
+
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
+	if ts, err = pkg.packData(w, file, fkey); err != nil {
 		return
 	}
 
@@ -208,6 +216,9 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 // Rename tagset with file name 'fkey1' to 'fkey2'.
 // Keeps link to original file name.
 func (pkg *Package) Rename(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -217,13 +228,16 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 	}
 
 	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
+	pkg.SetTagset(fkey2, ts) // file should be always present under any of its names
 	pkg.DelTagset(fkey1)
-	pkg.SetTagset(fkey2, ts)
 	return nil
 }
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
@@ -239,8 +253,8 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 				return skipexist
 			}
 			ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(newkey))))
-			pkg.DelTagset(fkey)
 			pkg.SetTagset(newkey, ts)
+			pkg.DelTagset(fkey)
 			count++
 		}
 		return true
@@ -254,6 +268,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 // PutAlias makes clone tagset with file name 'fkey1' and replace name tag
 // in it to 'fkey2'. Keeps link to original file name.
 func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
-- 
2.43.0


From 44ebdc9f3561cbd89afc9cbe28e263616036676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 49/53] fix: count of entries at header differs from stored
 table on concurrent edits

---
 wpk.go    | 8 ++++++++
 writer.go | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index fb6be4a..291e549 100644
--- a/wpk.go
+++ b/wpk.go
@@ -480,6 +480,13 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 
 // WriteTo writes file tags table whole content to the given stream.
 func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
+	n, _, err = ftt.writeTable(w)
+	return
+}
+
+// writeTable is WriteTo that also returns count of written entries.
+// Table can be edited meanwhile, so its length can not be used for this.
+func (ftt *FTT) writeTable(w io.Writer) (n int64, count uint64, err error) {
 	// write tagset with package info at first, can be empty
 	{
 		var tsl = len(ftt.info)
@@ -520,6 +527,7 @@ func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
 			return false
 		}
 		n += int64(tsl)
+		count++
 		return true
 	})
 	if err != nil {
diff --git a/writer.go b/writer.go
index 8053543..f350ce5 100644
--- a/writer.go
+++ b/writer.go
@@ -86,7 +86,8 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 
 	// make file tags table, nothing should be written if it can not be stored
 	var buf bytes.Buffer
-	if _, err = ftt.WriteTo(&buf); err != nil {
+	var count uint64
+	if _, count, err = ftt.writeTable(&buf); err != nil {
 		return
 	}
 	var fttsize = uint64(buf.Len())
@@ -123,7 +124,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	// rewrite true header
 	var hdr = Header{
 		signature: [SignSize]byte(util.S2B(SignReady)),
-		fttcount:  uint64(ftt.tsm.Len()),
+		fttcount:  count,
 		fttoffset: uint64(fftpos),
 		fttsize:   fttsize,
 		datoffset: uint64(datpos),
-- 
2.43.0


From dd974e6a2ec4716b67fab0f113d3a34eb0105d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 50/53] fix: path errors of subdirectory view name the file by
 full path

---
 wpk.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index 291e549..1113c89 100644
--- a/wpk.go
+++ b/wpk.go
@@ -758,7 +758,8 @@ func (pkg *Package) Glob(pattern string) (res []string, err error) {
 // fs.ReadDirFS interface implementation.
 func (pkg *Package) ReadDir(dir string) ([]fs.DirEntry, error) {
 	var fulldir = pkg.FullPath(dir)
-	return pkg.FTT.ReadDirN(fulldir, -1)
+	var list, err = pkg.FTT.ReadDirN(fulldir, -1)
+	return list, relError(err, dir)
 }
 
 // ReadFile returns slice with nested into package file content.
@@ -792,7 +793,19 @@ func (pkg *Package) Open(dir string) (fs.File, error) {
 	if ts, is := pkg.GetTagset(dir); is {
 		return pkg.Tagger.OpenTagset(ts)
 	}
-	return pkg.OpenDir(fullname)
+	var f, err = pkg.OpenDir(fullname)
+	if err != nil {
+		return nil, relError(err, dir)
+	}
+	return f, nil
+}
+
+// relError replaces full path at the path error by the name relative to workspace that was requested.
+func relError(err error, name string) error {
+	if pe, ok := err.(*fs.PathError); ok {
+		return &fs.PathError{Op: pe.Op, Path: name, Err: pe.Err}
+	}
+	return err
 }
 
 // GetPackageInfo returns header and tagset with package information.
-- 
2.43.0


From f8289b639862a00086b1109bb1c941773cb339f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 51/53] fix: pattern with backslashes does not match names at
 Lua glob

---
 luawpk/luawpk.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 3a8b3be..c0289f9 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io/fs"
 	"os"
-	"path"
 	"strings"
 
 	lua "github.com/yuin/gopher-lua"
@@ -665,19 +664,14 @@ func wpkglob(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var pattern = ls.CheckString(2)
 
-	var n int
-	var matched bool
-	if _, err = path.Match(pattern, ""); err != nil {
+	var list []string
+	if list, err = pkg.Glob(pattern); err != nil {
 		return 0
 	}
-	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
-		if matched, _ = path.Match(pattern, fkey); matched {
-			ls.Push(lua.LString(fkey))
-			n++
-		}
-		return true
-	})
-	return n
+	for _, fkey := range list {
+		ls.Push(lua.LString(fkey))
+	}
+	return len(list)
 }
 
 func wpkhasfile(ls *lua.LState) int {
-- 
2.43.0


From 09ad0b69081e9f676092bac2a2f86a075382ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 52/53] fix: script can not get names of thousands of files at
 once

---
 luawpk/runlvm.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/luawpk/runlvm.go b/luawpk/runlvm.go
index 12ab265..a9e1a5c 100644
--- a/luawpk/runlvm.go
+++ b/luawpk/runlvm.go
@@ -127,9 +127,19 @@ func InitLuaVM(ls *lua.LState) {
 	ls.SetGlobal("time2milli", ls.NewFunction(luatime2milli))
 }
 
+// Limits of Lua values that can be placed at registry at once.
+const (
+	registrymax  = 16 * 1024 * 1024
+	registrystep = 16 * 1024
+)
+
 // RunLuaVM runs specified Lua-script with Lua WPK API.
 func RunLuaVM(fpath string) (err error) {
-	var ls = lua.NewState()
+	// functions can return any number of values, such as names of all files in package
+	var ls = lua.NewState(lua.Options{
+		RegistryMaxSize:  registrymax,
+		RegistryGrowStep: registrystep,
+	})
 	defer ls.Close()
 	InitLuaVM(ls)
 
-- 
2.43.0


From e45e294ede99789261a27d4bde4506034d8e6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 53/53] fix: directory of one package hides file of other at
 union listing

---
 dir.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dir.go b/dir.go
index 7871c51..fb80819 100644
--- a/dir.go
+++ b/dir.go
@@ -123,7 +123,8 @@ func dirPrefix(fulldir string) string {
 }
 
 // addDirEntries puts to the map entries nested into given directory by their names.
-// Entries that already present at the map are not replaced.
+// Entries that already present at the map are not replaced, except of directories
+// that has the same name as a file: file with this name is opened in this case.
 func (ftt *FTT) addDirEntries(found map[string]fs.DirEntry, fulldir string) {
 	var prefix = dirPrefix(fulldir)
 	var own = map[string]fs.DirEntry{}
@@ -143,7 +144,7 @@ func (ftt *FTT) addDirEntries(found map[string]fs.DirEntry, fulldir string) {
 		return true
 	})
 	for name, de := range own {
-		if _, ok := found[name]; !ok {
+		if prev, ok := found[name]; !ok || prev.IsDir() && !de.IsDir() {
 			found[name] = de
 		}
 	}
-- 
2.43.0

