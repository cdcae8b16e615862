From 95eb5a4c100be4912f06c8ba445d6ef25a79a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 01/75] fix: read up to the end of a concatenation whose last
 part is empty

---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From 19b453d1ec407ca29da715171e2df1f4a246d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 02/75] fix: honor the declared size when opening ram objects

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..0596831 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -74,7 +74,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 
 	return &object{
 		url: pathToUrl(path),
-		br:  bytes.NewReader(it.File),
+		br:  bytes.NewReader(data),
 	}, nil
 }
 
-- 
2.43.0


From 00f764c14c9d28218176f7c652d405da3438d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 03/75] fix: report ram URLs that can be opened again

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 0596831..dfb32f5 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -293,7 +293,7 @@ func urlToPath(url string) (string, error) {
 func pathToUrl(path string) string {
 	var u stdurl.URL
 	u.Scheme = "ram"
-	u.Path = path
+	u.Path = "/" + path
 	return u.String()
 }
 
-- 
2.43.0


From eb054452e6dbc9512b565dd1b6c09f3bd0c51b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:50 +0000
Subject: [PATCH 04/75] fix: do not read past the declared size of a file
 object

---
 pkg/storage/file/file.go   |  5 +++++
 pkg/storage/file/object.go | 14 +++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/file/file.go b/pkg/storage/file/file.go
index 78795ba..0866cb5 100644
--- a/pkg/storage/file/file.go
+++ b/pkg/storage/file/file.go
@@ -45,16 +45,21 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 		return nil, err
 	}
 
+	var r reader = f
 	if size < 0 {
 		finfo, err := f.Stat()
 		if err != nil {
 			return nil, err
 		}
 		size = finfo.Size()
+	} else {
+		// never read past the declared size
+		r = io.NewSectionReader(f, 0, size)
 	}
 	return &object{
 		url:  url,
 		f:    f,
+		r:    r,
 		size: size,
 	}, nil
 }
diff --git a/pkg/storage/file/object.go b/pkg/storage/file/object.go
index d4f4cc1..4a3e0a8 100644
--- a/pkg/storage/file/object.go
+++ b/pkg/storage/file/object.go
@@ -15,14 +15,22 @@
 package filedriver
 
 import (
+	"io"
 	"os"
 
 	"golang.org/x/sys/unix"
 )
 
+type reader interface {
+	io.Reader
+	io.ReaderAt
+	io.Seeker
+}
+
 type object struct {
 	url  string
 	f    *os.File
+	r    reader
 	size int64
 }
 
@@ -31,17 +39,17 @@ func (o *object) Close() error {
 }
 
 func (o *object) Read(p []byte) (n int, err error) {
-	n, err = o.f.Read(p)
+	n, err = o.r.Read(p)
 	return
 }
 
 func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
-	n, err = o.f.ReadAt(p, off)
+	n, err = o.r.ReadAt(p, off)
 	return
 }
 
 func (o *object) Seek(offset int64, whence int) (n int64, err error) {
-	n, err = o.f.Seek(offset, whence)
+	n, err = o.r.Seek(offset, whence)
 	return
 }
 
-- 
2.43.0


From ec82fa930d467ef29607a2a56f4be5eafb7f4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:50 +0000
Subject: [PATCH 05/75] fix: seek relative to the end of an http object of
 undeclared size

---
 pkg/storage/http/object.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..07152f5 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -174,6 +174,11 @@ func (o *object) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		o.pos = offset
 	case io.SeekEnd:
+		// make sure we've computed the object size
+		o.Size()
+		if o.sizeErr != nil {
+			return 0, o.sizeErr
+		}
 		if o.size < 0 {
 			return 0, fmt.Errorf("unknown length")
 		}
-- 
2.43.0


From 34145339618c825fb24dc3cde4c49ef187393cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:48 +0000
Subject: [PATCH 06/75] fix: do not crash on absurd Content-Range headers or
 negative offsets

---
 pkg/storage/http/object.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 07152f5..6f60829 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -86,6 +86,11 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off < 0 {
+		err = fmt.Errorf("http get %q: negative offset %d", o.url, off)
+		return
+	}
+
 	// make sure we've computed the object size
 	o.Size()
 
@@ -144,13 +149,13 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
-		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
+	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
+		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
 		return
 	}
 
-	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
-		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
+	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
+		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
 		return
 	}
 
-- 
2.43.0


From 3c65e5244faa492026a2e95d2acb85ec84b8b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:48 +0000
Subject: [PATCH 07/75] fix: report not-found when the size is determined by
 download

---
 pkg/storage/http/finfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/storage/http/finfo.go b/pkg/storage/http/finfo.go
index 18a8813..90c2a76 100644
--- a/pkg/storage/http/finfo.go
+++ b/pkg/storage/http/finfo.go
@@ -43,6 +43,9 @@ func Stat(c *http.Client, url string) (int64, error) {
 			return -1, err
 		}
 		defer resp.Body.Close()
+		if resp.StatusCode == 404 {
+			return -1, os.ErrNotExist
+		}
 		if resp.StatusCode != 200 {
 			return -1, fmt.Errorf("http get %q: HTTP %d", url, resp.StatusCode)
 		}
-- 
2.43.0


From 9ac846539aedb33aec14e816f72aadbe42671c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:46 +0000
Subject: [PATCH 08/75] fix: commit data objects to a URL that can be opened

---
 pkg/storage/data/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index e87efcc..1e1b1ef 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -35,7 +35,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, driver.CommitOnAbortedObjectWriter
 	}
 
-	durl := dataurl.New(ow.buf.Bytes(), "binary/octet-stream")
+	durl := dataurl.New(ow.buf.Bytes(), "application/octet-stream")
 
 	return driver.NewCommitInfo(durl.String()), nil
 }
-- 
2.43.0


From dd562b9de6147ce43f10a4ce016ed2277fe09697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:42 +0000
Subject: [PATCH 09/75] fix: do not let earlier lookups of a walker change
 later ones

---
 pkg/iso9660/walk.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..583ba4d 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -141,8 +141,10 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 	}
 
 	err = iterDir(w.iso, fi.Extent(), fi.Size(), func(fi *FileInfo) bool {
-		cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
-		w.lstatCache.Add(cacheKey, fi)
+		if !isDots(fi.Name()) {
+			cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
+			w.lstatCache.Add(cacheKey, fi)
+		}
 		entries = append(entries, fi)
 		return true
 	})
@@ -181,7 +183,8 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	all := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(all)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -192,20 +195,24 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
 		return cached, nil
 	}
 
-	var path []string
+	// the components that lead to the directory at start
+	path := append([]string(nil), all[:len(all)-len(parts)]...)
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
 
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
-			if fi.IsDir() {
+			if fi.IsDir() && (len(path) == 0 || !isDots(fi.Name())) {
 				w.lstatCacheAdd(append(path, fi.Name()), fi)
 			}
 
@@ -238,6 +245,12 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	panic("never")
 }
 
+// isDots tells whether name is a self or parent entry, whose FileInfo is
+// not the one that a lookup of that directory by its own name yields.
+func isDots(name string) bool {
+	return name == "." || name == ".."
+}
+
 func (w *Walker) lstatCacheAdd(parts []string, fi *FileInfo) {
 	key := filepath.Clean("/" + strings.Join(parts, "/"))
 	w.lstatCache.Add(key, fi)
-- 
2.43.0


From 27047a872023a9f31550a835e5840984648a7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:24 +0000
Subject: [PATCH 10/75] fix: list an opened directory including its
 continuation areas

---
 pkg/iso9660/file.go | 4 +++-
 pkg/iso9660/walk.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/file.go b/pkg/iso9660/file.go
index 5408633..2877784 100644
--- a/pkg/iso9660/file.go
+++ b/pkg/iso9660/file.go
@@ -23,6 +23,7 @@ import (
 
 type File struct {
 	name string
+	iso  io.ReaderAt
 	fi   *FileInfo
 	r    *io.SectionReader
 	pos  int64
@@ -62,7 +63,8 @@ func (f *File) ReadDir() ([]*FileInfo, error) {
 	}
 
 	var entries []*FileInfo
-	err := iterDir(f.r, 0, f.r.Size(), func(fi *FileInfo) bool {
+	// not f.r, the continuation areas lie outside of the directory
+	err := iterDir(f.iso, f.fi.Extent(), f.fi.Size(), func(fi *FileInfo) bool {
 		entries = append(entries, fi)
 		return true
 	})
diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 583ba4d..62ab337 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -121,6 +121,7 @@ func (w *Walker) Open(name string) (*File, error) {
 
 	return &File{
 		name: name,
+		iso:  w.iso,
 		fi:   fi,
 		r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),
 	}, nil
-- 
2.43.0


From ed382cf412b3a9d91bbae4a2275629f9437c7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:25 +0000
Subject: [PATCH 11/75] fix: walk with the right paths and report the error of
 the walk function

---
 pkg/iso9660/walk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 62ab337..14b1a76 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -73,20 +73,24 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 	for q.Len() > 0 {
 		item := q.Dequeue().(*walkItem)
+		var walkErr error
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
-			if err = walkFn(path, fi, nil); err != nil {
+			if walkErr = walkFn(path, fi, nil); walkErr != nil {
 				return false
 			}
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(item.parts[:len(item.parts):len(item.parts)], fi.Name()),
 					fi:    fi,
 				})
 			}
 			return true
 		})
+		if walkErr != nil {
+			return walkErr
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From a670ed13729ccc9852d5d8e88d3a1bc118aa882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:26 +0000
Subject: [PATCH 12/75] fix: stop iterating a directory when reading it fails

---
 pkg/iso9660/walk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 14b1a76..ac3d02b 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -531,6 +531,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From 34bd6d46d479328919f1be5d9db05504687f9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:27 +0000
Subject: [PATCH 13/75] fix: read directories that lie beyond the first 4 GiB
 of an image

---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index ac3d02b..945c013 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -311,9 +311,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
+			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
 				return nil, err
@@ -487,7 +487,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From 663c13997ca5f50205c12b8b23f6da60c0e6779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:28 +0000
Subject: [PATCH 14/75] fix: decode symbolic links that end in a dot, dot-dot
 or root component

---
 pkg/iso9660/rrip/sl.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..259ded1 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -228,23 +228,16 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
 				return strings.Join(parts, string(os.PathSeparator)), true
-- 
2.43.0


From e1c019bf9e4a9d7f39d075302525add81c6ed723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:29 +0000
Subject: [PATCH 15/75] fix: resolve symbolic links to absolute targets and in
 the middle of paths

---
 pkg/iso9660/walk.go | 60 +++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 945c013..73302e4 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -57,7 +57,7 @@ func NewWalker(iso io.ReaderAt) *Walker {
 // inefficient. Walk does not follow symbolic links.
 func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 	rootParts := w.pathParts(root)
-	rootFi, rootErr := w.lstat(rootParts)
+	rootFi, rootErr := w.resolve(rootParts, false)
 	if err = walkFn(root, rootFi, rootErr); err != nil {
 		return
 	}
@@ -110,7 +110,7 @@ func (w *Walker) Stat(path string) (*FileInfo, error) {
 // link. Lstat makes no attempt to follow the link.
 func (w *Walker) Lstat(path string) (*FileInfo, error) {
 	parts := w.pathParts(path)
-	return w.lstat(parts)
+	return w.resolve(parts, false)
 }
 
 // Open opens the named file for reading. If successful, methods on
@@ -163,25 +163,53 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 const SymlinkRecursionLimit = 40
 
 func (w *Walker) stat(parts []string) (*FileInfo, error) {
-	for i := 0; i < SymlinkRecursionLimit; i++ {
-		fi, err := w.lstat(parts)
-		if err != nil {
-			return nil, err
+	return w.resolve(parts, true)
+}
+
+// resolve looks up parts one by one, following the symbolic links in the
+// middle of the path and, if followLast is set, at its end.
+func (w *Walker) resolve(parts []string, followLast bool) (*FileInfo, error) {
+	var done []string // resolved so far, free of symbolic links
+	links := 0
+	fi, err := w.lstat(done)
+	for len(parts) > 0 && err == nil {
+		part := parts[0]
+		parts = parts[1:]
+		if !fi.IsDir() {
+			return nil, syscall.ENOTDIR
 		}
 
-		if fi.Mode()&os.ModeSymlink != 0 {
-			path := "/" + strings.Join(parts, "/")
-			if !fi.IsDir() {
-				// If the symlink is a file, only join the directory part of the path
-				path = filepath.Dir(path)
+		switch part {
+		case "", ".":
+			continue
+		case "..":
+			if len(done) > 0 {
+				done = done[:len(done)-1]
 			}
-			joined := filepath.Clean(filepath.Join(path, fi.Target()))
-			parts = w.pathParts(joined)
-		} else {
-			return fi, nil
+			fi, err = w.lstat(done)
+			continue
 		}
+
+		next := append(done[:len(done):len(done)], part)
+		fi, err = w.lstat(next)
+		if err == nil && fi.Mode()&os.ModeSymlink != 0 && (followLast || len(parts) > 0) {
+			if links++; links >= SymlinkRecursionLimit {
+				return nil, syscall.ELOOP
+			}
+			target := fi.Target()
+			if filepath.IsAbs(target) {
+				done = nil
+			}
+			parts = append(strings.Split(target, "/"), parts...)
+			fi, err = w.lstat(done)
+			continue
+		}
+		done = next
+	}
+	if err != nil {
+		return nil, err
 	}
-	return nil, syscall.ELOOP
+	return fi, nil
 }
 
 func (w *Walker) lstat(parts []string) (*FileInfo, error) {
-- 
2.43.0


From 6b82bd83f52a66aabacc0644e9f069c8dfa99f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:28 +0000
Subject: [PATCH 16/75] fix: record the right URL when several files have the
 same object

---
 pkg/vdisc/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..d5f0b0f 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -253,7 +253,9 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		// files of one object share the leaf of its URL
+		lba, _ := trie.Get(obj.URL())
+		leaf := leaves[lba]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		entry.SetUriSuffix(leaf.Content)
 		entry.SetBlocks(blocks)
-- 
2.43.0


From 44392866f42d856d350c14e0c1d6cba2afb18e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:29 +0000
Subject: [PATCH 17/75] fix: keep absolute object URLs of discs loaded from a
 relative path

---
 pkg/vdisc/extent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..61784c7 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -71,7 +71,7 @@ func (e *extent) URL() string {
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
+	if !u.IsAbs() && !strings.HasPrefix(u.Path, "/") && !strings.HasPrefix(e.baseURL.Path, "/") {
 		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
 	}
 
-- 
2.43.0


From 8b2195c4905e117ecbbbfdc7ff7612741b3d630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:30 +0000
Subject: [PATCH 18/75] fix: report a damaged gzip header instead of crashing

---
 pkg/vdisc/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index e20bd09..41ed488 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -184,7 +184,10 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 
 	var src io.Reader
 	if bytes.Equal(hdr, []byte{0x1f, 0x8b, 0x08, 0x00}) {
-		src, _ = gzip.NewReader(br)
+		src, err = gzip.NewReader(br)
+		if err != nil {
+			return nil, nil, err
+		}
 	} else {
 		src = br
 	}
-- 
2.43.0


From 61c7c1e356291e8906e5cb53b4deb6851343a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:31 +0000
Subject: [PATCH 19/75] fix: report errors of file visitors

---
 pkg/iso9660/directoryinode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..493a07d 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,15 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
 				})
+				if err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From a361ac23b4ac32910dcd1f54ed63c7117f284b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:32 +0000
Subject: [PATCH 20/75] fix: give every part of a large file its own system use
 entries

---
 pkg/iso9660/directoryinode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 493a07d..664c111 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -310,7 +310,7 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 				// pop off the last system use entry and move it to the continuation area
 				lastIdx := len(record.SystemUse) - 1
 				last := record.SystemUse[lastIdx]
-				record.SystemUse = record.SystemUse[:lastIdx]
+				record.SystemUse = record.SystemUse[:lastIdx:lastIdx]
 				overflow = append([]susp.SystemUseEntry{last}, overflow...)
 				baseLen -= last.Len()
 				extraLen = susp.ContinuationAreaEntryLength
-- 
2.43.0


From f2673bff7a64ce0bdb44da9a0d5414deb4fd46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:33 +0000
Subject: [PATCH 21/75] fix: number the directories of the path table from one

---
 pkg/iso9660/directoryinode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 664c111..c70076b 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -361,8 +361,9 @@ func (d *DirectoryInode) ToPathTable() PathTable {
 	var table PathTable
 
 	d.VisitDirectories(func(rel Relationship) error {
-		indices[rel.Child] = idx
+		// directory numbers start at one
 		idx++
+		indices[rel.Child] = idx
 
 		parentIdx, ok := indices[rel.Parent]
 		if !ok {
-- 
2.43.0


From 31ffcbb9c28a49e3a73ff7806f60452dee1ef06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:34 +0000
Subject: [PATCH 22/75] fix: write the sector of empty files into whole images

---
 pkg/iso9660/volume.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2184966..6d4bee8 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -394,10 +394,18 @@ func (v *Volume) WriteTo(w io.Writer) (int64, error) {
 			return nil
 		}
 		assertLBA(finode.Start())
-		if _, err := finode.WriteTo(cw); err != nil {
+		n, err := finode.WriteTo(cw)
+		if err != nil {
 			return err
 		}
 
+		if n == 0 {
+			// even an empty file occupies a sector
+			if err := pad(cw, LogicalBlockSize); err != nil {
+				return err
+			}
+		}
+
 		if err := padOutSector(); err != nil {
 			return err
 		}
-- 
2.43.0


From 77ca7d031f2e7094ff98a5f59fe03ecf1d0309e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:35 +0000
Subject: [PATCH 23/75] fix: leave no directories behind when a path is
 rejected

---
 pkg/iso9660/directoryinode.go | 11 ++++++++++-
 pkg/iso9660/volume.go         |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index c70076b..277f208 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -106,7 +106,8 @@ func (d *DirectoryInode) SetModified(modified time.Time) {
 
 //AddChild adds a child Inode to the DirectoryInode.
 //It validates the name and checks for collisions before adding the child
-func (d *DirectoryInode) AddChild(name string, child Inode) error {
+// checkName tells why name cannot be the name of a child.
+func (d *DirectoryInode) checkName(name string) error {
 	if len(name) < 1 {
 		return errors.New("Inode names may not be empty")
 	}
@@ -119,6 +120,14 @@ func (d *DirectoryInode) AddChild(name string, child Inode) error {
 		return errors.New("Inode names '.' and '..' are reserved")
 	}
 
+	return nil
+}
+
+func (d *DirectoryInode) AddChild(name string, child Inode) error {
+	if err := d.checkName(name); err != nil {
+		return err
+	}
+
 	if _, ok := d.names[name]; ok {
 		return errors.New("Directory entry collision")
 	}
diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 6d4bee8..2e33f6d 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -121,6 +121,13 @@ func (v *Volume) addLeaf(pth string, leaf Inode) (err error) {
 	}
 	parts := strings.Split(cleaned, "/")
 
+	// Check all names first, so that no directories are left behind
+	for _, part := range parts {
+		if err = v.root.checkName(part); err != nil {
+			return
+		}
+	}
+
 	parent := v.root
 	for i, part := range parts {
 		if i == len(parts)-1 {
-- 
2.43.0


From 2e97ea9fbdd60a2d9f04a9d937879b6cac987952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:36 +0000
Subject: [PATCH 24/75] fix: refuse files and volumes that do not fit the
 sector numbers

---
 pkg/iso9660/fileinode.go       |  8 ++++++++
 pkg/iso9660/sectorallocator.go | 10 ++++++++++
 pkg/iso9660/volume.go          |  8 +++++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/fileinode.go b/pkg/iso9660/fileinode.go
index a23744f..2d83c14 100644
--- a/pkg/iso9660/fileinode.go
+++ b/pkg/iso9660/fileinode.go
@@ -15,6 +15,7 @@
 package iso9660
 
 import (
+	"errors"
 	"io"
 	"os"
 	"time"
@@ -35,6 +36,13 @@ type FileInode struct {
 }
 
 func NewFileInode(ia InodeAllocator, o storage.Object) (*FileInode, error) {
+	if o.Size() < 0 {
+		return nil, errors.New("object of unknown size")
+	}
+	if o.Size() > MaxVolumeSize {
+		return nil, ErrVolumeTooBig
+	}
+
 	ino, err := ia.Next()
 	if err != nil {
 		return nil, err
diff --git a/pkg/iso9660/sectorallocator.go b/pkg/iso9660/sectorallocator.go
index 2e1cd3d..6ad7991 100644
--- a/pkg/iso9660/sectorallocator.go
+++ b/pkg/iso9660/sectorallocator.go
@@ -14,8 +14,18 @@
 
 package iso9660
 
+import (
+	"errors"
+	"math"
+)
+
 const (
 	LogicalBlockSize = 2048
+	MaxVolumeSize    = math.MaxUint32 * LogicalBlockSize
+)
+
+var (
+	ErrVolumeTooBig = errors.New("volume larger than 2^32-1 sectors")
 )
 
 type LogicalBlockAddress uint32
diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2e33f6d..43ad216 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -252,7 +252,7 @@ func (v *Volume) assignLogicalBlockAddresses() error {
 	// Allocate sectors for each FileInode. Only allocate sectors once
 	// per FileInode.
 	inodesVisited := make(map[InodeNumber]struct{})
-	v.root.VisitFiles(func(rel Relationship) error {
+	err = v.root.VisitFiles(func(rel Relationship) error {
 		finode := rel.Child.(*FileInode)
 		if _, ok := inodesVisited[finode.InodeNumber()]; !ok {
 			inodesVisited[finode.InodeNumber()] = struct{}{}
@@ -261,9 +261,15 @@ func (v *Volume) assignLogicalBlockAddresses() error {
 			for i := 1; i < len(parts); i++ {
 				sectors.Alloc(parts[i].Size())
 			}
+			if LogicalBlockAddress(sectors.Allocated()) <= finode.Start() {
+				return ErrVolumeTooBig
+			}
 		}
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
 	v.pvd.VolumeSpaceSize = sectors.Allocated()
 	return nil
-- 
2.43.0


From 2d518017bea5902edbd5f5612812fa8abde6b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 25/75] fix: do not crash when a disc is closed during
 read-ahead

---
 pkg/vdisc/extent.go | 23 +++++++++++++++++------
 pkg/vdisc/loader.go | 40 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 61784c7..db46ef8 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -30,9 +30,12 @@ import (
 type extent struct {
 	blockSize uint16
 	baseURL   *stdurl.URL
+	mapped    *mmapCloser // holds uris and extents
 	uris      vdisc_types_v1.ITrie_List
 	extents   vdisc_types_v1.Extent_List
 	idx       int
+	blocks    uint32
+	padding   uint16
 	pos       int64
 	closed    bool
 }
@@ -43,6 +46,11 @@ func (e *extent) Close() error {
 }
 
 func (e *extent) URL() string {
+	if !e.mapped.acquire() {
+		return ""
+	}
+	defer e.mapped.release()
+
 	extent := e.extents.At(e.idx)
 	uri, err := extent.UriSuffix()
 	if err != nil {
@@ -79,14 +87,11 @@ func (e *extent) URL() string {
 }
 
 func (e *extent) Size() int64 {
-	ext := e.extents.At(e.idx)
-	blocks := ext.Blocks()
-	padding := ext.Padding()
-	if blocks == 0 {
+	if e.blocks == 0 {
 		return 0
 	}
 
-	return int64(blocks)*int64(e.blockSize) - int64(padding)
+	return int64(e.blocks)*int64(e.blockSize) - int64(e.padding)
 }
 
 func (e *extent) Read(p []byte) (n int, err error) {
@@ -101,8 +106,14 @@ func (e *extent) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	url := e.URL()
+	if url == "" {
+		err = os.ErrClosed
+		return
+	}
+
 	var obj storage.Object
-	obj, err = storage.OpenContextSize(context.Background(), e.URL(), e.Size())
+	obj, err = storage.OpenContextSize(context.Background(), url, e.Size())
 	if err != nil {
 		return
 	}
diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 41ed488..f62939e 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -25,6 +25,7 @@ import (
 	stdurl "net/url"
 	"os"
 	"runtime"
+	"sync"
 	"syscall"
 
 	capnp "zombiezen.com/go/capnproto2"
@@ -113,9 +114,12 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 		obj = &extent{
 			blockSize: blockSize,
 			baseURL:   baseURL,
+			mapped:    mmapHandle,
 			uris:      uris,
 			extents:   extents,
 			idx:       i,
+			blocks:    blocks,
+			padding:   padding,
 		}
 
 		obj = cache.WithCaching(obj)
@@ -147,12 +151,30 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 }
 
 type mmapCloser struct {
+	mu   sync.RWMutex
 	data []byte
 }
 
+// acquire keeps the data mapped until release. It returns false if the
+// data is not mapped any more.
+func (mc *mmapCloser) acquire() bool {
+	mc.mu.RLock()
+	if mc.data == nil {
+		mc.mu.RUnlock()
+		return false
+	}
+	return true
+}
+
+func (mc *mmapCloser) release() {
+	mc.mu.RUnlock()
+}
+
 // Close all the underlying closers, in sequence.
 // Return the first error.
 func (mc *mmapCloser) Close() error {
+	mc.mu.Lock()
+	defer mc.mu.Unlock()
 	if mc.data == nil {
 		return nil
 	}
@@ -164,7 +186,7 @@ func (mc *mmapCloser) Close() error {
 	return syscall.Munmap(data)
 }
 
-func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
+func downloadMemoryMapped(url string) ([]byte, *mmapCloser, error) {
 	res, err := storage.Open(url)
 	if err != nil {
 		return nil, nil, err
@@ -209,7 +231,7 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 		return nil, nil, err
 	}
 
-	return data, &mmapCloser{data}, nil
+	return data, &mmapCloser{data: data}, nil
 }
 
 type vdisc struct {
@@ -221,7 +243,7 @@ type vdisc struct {
 	uris          vdisc_types_v1.ITrie_List
 	extents       vdisc_types_v1.Extent_List
 	extentIndices map[iso9660.LogicalBlockAddress]int
-	mmapHandle    io.Closer
+	mmapHandle    *mmapCloser
 }
 
 func (v *vdisc) Close() error {
@@ -249,13 +271,24 @@ func (v *vdisc) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, err
 		return nil, fmt.Errorf("unable to open file: invalid extent - %d", lba)
 	}
 
+	if !v.mmapHandle.acquire() {
+		return nil, os.ErrClosed
+	}
+	ext := v.extents.At(idx)
+	blocks := ext.Blocks()
+	padding := ext.Padding()
+	v.mmapHandle.release()
+
 	var obj storage.Object
 	obj = &extent{
 		blockSize: v.blockSize,
 		baseURL:   v.baseURL,
+		mapped:    v.mmapHandle,
 		uris:      v.uris,
 		extents:   v.extents,
 		idx:       idx,
+		blocks:    blocks,
+		padding:   padding,
 	}
 
 	return v.cache.WithCaching(obj), nil
@@ -270,6 +303,7 @@ func (v *vdisc) ExtentURL(lba iso9660.LogicalBlockAddress) (string, error) {
 	ext := &extent{
 		blockSize: v.blockSize,
 		baseURL:   v.baseURL,
+		mapped:    v.mmapHandle,
 		uris:      v.uris,
 		extents:   v.extents,
 		idx:       idx,
-- 
2.43.0


From fe8cfa4a26daa70899b754b18b04cdb4b6982c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:03 +0000
Subject: [PATCH 26/75] fix: do not keep a block that failed to be read ahead

---
 pkg/caching/mem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..bace1d2 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,13 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+
+	if err != nil {
+		// Reset the buffer on error. The next caller will attempt to
+		// fill the buffer.
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From f4274a2b5e7677452c7d492eb585dc416c7dcdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:39 +0000
Subject: [PATCH 27/75] fix: commit files to a URL that can be opened

---
 pkg/storage/file/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/file/writer.go b/pkg/storage/file/writer.go
index 7b57030..4ece322 100644
--- a/pkg/storage/file/writer.go
+++ b/pkg/storage/file/writer.go
@@ -15,6 +15,7 @@
 package filedriver
 
 import (
+	stdurl "net/url"
 	"os"
 
 	"golang.org/x/sys/unix"
@@ -42,7 +43,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, err
 	}
 
-	return driver.NewCommitInfo(ow.path), nil
+	return driver.NewCommitInfo((&stdurl.URL{Path: ow.path}).String()), nil
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
-- 
2.43.0


From 088376fdaf381d200c158cc1e82f62e9ea165da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:40 +0000
Subject: [PATCH 28/75] fix: close files when they are committed

---
 pkg/storage/file/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/file/writer.go b/pkg/storage/file/writer.go
index 4ece322..5970802 100644
--- a/pkg/storage/file/writer.go
+++ b/pkg/storage/file/writer.go
@@ -39,6 +39,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, err
 	}
 
+	if err := ow.f.Close(); err != nil {
+		return nil, err
+	}
+
 	if err := os.Rename(ow.f.Name(), ow.path); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 506037b6d328de5788d45c66ea8670b6408d2269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:15 +0000
Subject: [PATCH 29/75] fix: find objects in parent directories of discs loaded
 from a relative path

---
 pkg/vdisc/extent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index db46ef8..14a8ff8 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	stdurl "net/url"
 	"os"
+	"path"
 	"strings"
 
 	"github.com/NVIDIA/vdisc/pkg/safecast"
@@ -81,6 +82,10 @@ func (e *extent) URL() string {
 	resolved := e.baseURL.ResolveReference(u)
 	if !u.IsAbs() && !strings.HasPrefix(u.Path, "/") && !strings.HasPrefix(e.baseURL.Path, "/") {
 		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
+		if !e.baseURL.IsAbs() && e.baseURL.Host == "" && u.Path != "" {
+			// Resolving drops leading parents
+			resolved.Path = path.Join(path.Dir(e.baseURL.Path), u.Path)
+		}
 	}
 
 	return resolved.String()
-- 
2.43.0


From 321e05a3a433c79a6127096779537b43f9ac8284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:40 +0000
Subject: [PATCH 30/75] fix: report objects that are shorter than when they
 were burned

---
 pkg/vdisc/extent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 14a8ff8..7f0a9c0 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -123,7 +123,12 @@ func (e *extent) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 	defer obj.Close()
-	return obj.ReadAt(p, off)
+	n, err = obj.ReadAt(p, off)
+	if err == io.EOF && off+int64(n) < e.Size() {
+		// The object is shorter than when it was burned.
+		err = io.ErrUnexpectedEOF
+	}
+	return
 }
 
 func (e *extent) Seek(offset int64, whence int) (int64, error) {
-- 
2.43.0


From cee61d40810d5202eb11169e8eac7573237305dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:12 +0000
Subject: [PATCH 31/75] fix: refuse discs of another version and report damaged
 extents

---
 pkg/vdisc/extent.go | 31 ++++++++++++++++++++++---------
 pkg/vdisc/loader.go | 21 ++++++++++++++++++++-
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 7f0a9c0..e48d2bf 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -28,6 +28,8 @@ import (
 	"github.com/NVIDIA/vdisc/pkg/vdisc/types/v1"
 )
 
+var errDamagedURI = errors.New("vdisc: damaged object URI")
+
 type extent struct {
 	blockSize uint16
 	baseURL   *stdurl.URL
@@ -47,23 +49,35 @@ func (e *extent) Close() error {
 }
 
 func (e *extent) URL() string {
-	if !e.mapped.acquire() {
+	url, err := e.resolveURL()
+	if err != nil {
 		return ""
 	}
+	return url
+}
+
+func (e *extent) resolveURL() (string, error) {
+	if !e.mapped.acquire() {
+		return "", os.ErrClosed
+	}
 	defer e.mapped.release()
 
 	extent := e.extents.At(e.idx)
 	uri, err := extent.UriSuffix()
 	if err != nil {
-		panic(err)
+		return "", err
 	}
 
 	parent := extent.UriPrefix()
-	for {
+	for depth := 0; ; depth++ {
+		if int64(parent) >= int64(e.uris.Len()) || depth >= e.uris.Len() {
+			return "", errDamagedURI
+		}
+
 		node := e.uris.At(safecast.Uint32ToInt(parent))
 		prefix, err := node.Content()
 		if err != nil {
-			panic(err)
+			return "", err
 		}
 
 		uri = prefix + uri
@@ -76,7 +90,7 @@ func (e *extent) URL() string {
 	// Possibly evaluate relative to baseURL
 	u, err := stdurl.Parse(uri)
 	if err != nil {
-		panic(err)
+		return "", err
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
@@ -88,7 +102,7 @@ func (e *extent) URL() string {
 		}
 	}
 
-	return resolved.String()
+	return resolved.String(), nil
 }
 
 func (e *extent) Size() int64 {
@@ -111,9 +125,8 @@ func (e *extent) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	url := e.URL()
-	if url == "" {
-		err = os.ErrClosed
+	url, err := e.resolveURL()
+	if err != nil {
 		return
 	}
 
diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index f62939e..885b56a 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"compress/gzip"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -64,12 +65,25 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 	}
 	msg.TraverseLimit = math.MaxUint64
 
+	if seg, err := msg.Segment(0); err != nil {
+		mmapHandle.Close()
+		return nil, err
+	} else if len(seg.Data()) < 8 {
+		mmapHandle.Close()
+		return nil, errors.New("vdisc: message without root")
+	}
+
 	root, err := vdisc_types.ReadRootVDisc(msg)
 	if err != nil {
 		mmapHandle.Close()
 		return nil, err
 	}
 
+	if !root.HasV1() {
+		mmapHandle.Close()
+		return nil, errors.New("vdisc: unknown version")
+	}
+
 	v1, err := root.V1()
 	if err != nil {
 		mmapHandle.Close()
@@ -110,6 +124,11 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 			continue
 		}
 
+		if int64(padding) > int64(blocks)*int64(blockSize) {
+			mmapHandle.Close()
+			return nil, fmt.Errorf("vdisc: extent %d has more padding than blocks", i)
+		}
+
 		var obj storage.Object
 		obj = &extent{
 			blockSize: blockSize,
@@ -308,5 +327,5 @@ func (v *vdisc) ExtentURL(lba iso9660.LogicalBlockAddress) (string, error) {
 		extents:   v.extents,
 		idx:       idx,
 	}
-	return ext.URL(), nil
+	return ext.resolveURL()
 }
-- 
2.43.0


From 346b8f6a2e2ca12b5416905931325e6fee4e1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:13 +0000
Subject: [PATCH 32/75] fix: do not crash on entries without a modification
 time

---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 73302e4..4211e84 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -484,7 +484,7 @@ func (it *ReadDirIterator) Next() bool {
 
 	modTime := time.Unix(0, 0).UTC()
 
-	if ts, ok := rrip.DecodeTimestamps(systemUse); ok {
+	if ts, ok := rrip.DecodeTimestamps(systemUse); ok && ts.Modified != nil {
 		modTime = ts.Modified.UTC()
 	}
 
-- 
2.43.0


From 3cdacf36e940bcdc55465ccccb6e77dd2201c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:43 +0000
Subject: [PATCH 33/75] fix: do not follow circular continuation areas for ever

---
 pkg/iso9660/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 4211e84..93e74f3 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -333,6 +333,7 @@ type aggregateRec struct {
 func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUseEntry, error) {
 	unconsumed := rec.SystemUse
 	var systemUse []susp.SystemUseEntry
+	visited := make(map[int64]bool)
 	for len(unconsumed) > 0 {
 		entry := unconsumed[0]
 		unconsumed = unconsumed[1:]
@@ -341,6 +342,10 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 
 			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
+			if visited[ceStart] {
+				return nil, fmt.Errorf("continuation area at %d continues itself", ceStart)
+			}
+			visited[ceStart] = true
 			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
-- 
2.43.0


From d526f305182441977e40eef9aafab5a7c883f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:39 +0000
Subject: [PATCH 34/75] fix: refuse cached reads at negative offsets

---
 pkg/caching/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/caching/cache.go b/pkg/caching/cache.go
index 62547eb..7d00a30 100644
--- a/pkg/caching/cache.go
+++ b/pkg/caching/cache.go
@@ -100,6 +100,11 @@ func (w *withCaching) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off < 0 {
+		err = errors.New("negative offset")
+		return
+	}
+
 	full := interval.Interval{0, w.obj.Size()}
 	read := interval.Interval{off, off + int64(len(p))}
 	overlap, ok := interval.Intersection(full, read)
-- 
2.43.0


From 858fc845faa29916a18a2b91b5225d352187f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:57 +0000
Subject: [PATCH 35/75] fix: go on collecting garbage when an entry has
 vanished

---
 pkg/caching/disk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..aa3de38 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -115,6 +115,10 @@ func (ds *DiskSlicer) Gc(threshold GcThreshold) {
 
 		// Unlink the victim and then fsync the parent dir
 		if err := storage.Remove(victim); err != nil {
+			if os.IsNotExist(err) {
+				// Someone else removed it already
+				continue
+			}
 			cacheLogger().Error("failed to evict victim", zap.String("victim", victim), zap.Error(err))
 			return
 		}
-- 
2.43.0


From bc6c79403c78df985ad780cea168ced04b2d5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:58 +0000
Subject: [PATCH 36/75] fix: check the integrity of big caches and of malformed
 checksums

---
 pkg/caching/disk.go | 53 ++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index aa3de38..923f5b3 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -135,36 +135,45 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 			return nil
 		}
 
-		cobj, err := storage.Open(fname)
-		if err != nil {
-			if os.IsNotExist(err) {
-				continue
-			}
+		if err := checkEntry(fname); err != nil {
 			return err
 		}
-		defer cobj.Close()
-
-		var expected uint64
-		switch xobj := cobj.(type) {
-		case driver.XattrObject:
-			csumEnc, err := xobj.GetXattr(XattrChecksum)
-			if err != nil {
-				return err
-			}
+	}
+}
 
-			expected = binary.LittleEndian.Uint64(csumEnc)
-		default:
-			return fmt.Errorf("object missing checksum xattr: %q", fname)
+func checkEntry(fname string) error {
+	cobj, err := storage.Open(fname)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
 		}
+		return err
+	}
+	defer cobj.Close()
 
-		csum := xxhash.New64()
-		if _, err := io.Copy(csum, cobj); err != nil {
+	var expected uint64
+	switch xobj := cobj.(type) {
+	case driver.XattrObject:
+		csumEnc, err := xobj.GetXattr(XattrChecksum)
+		if err != nil {
 			return err
 		}
-
-		if csum.Sum64() != expected {
-			return fmt.Errorf("Bad checksum: %q", fname)
+		if len(csumEnc) != 8 {
+			return fmt.Errorf("Bad checksum xattr: %q", fname)
 		}
+
+		expected = binary.LittleEndian.Uint64(csumEnc)
+	default:
+		return fmt.Errorf("object missing checksum xattr: %q", fname)
+	}
+
+	csum := xxhash.New64()
+	if _, err := io.Copy(csum, cobj); err != nil {
+		return err
+	}
+
+	if csum.Sum64() != expected {
+		return fmt.Errorf("Bad checksum: %q", fname)
 	}
 	return nil
 }
-- 
2.43.0


From 6a486f7c438fbecbf901a033248fa4212d7ccfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:03 +0000
Subject: [PATCH 37/75] fix: do not visit wrong directories in depth-first
 visits

---
 pkg/storage/driver/visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..affc4b9 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -116,7 +116,8 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		if depthFirst {
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
-			paths = nextPaths[amt:]
+			// The results of this iteration must not overwrite its input.
+			paths = append([]string(nil), nextPaths[amt:]...)
 			nextPaths = nextPaths[:amt]
 		} else {
 			paths = nextPaths
-- 
2.43.0


From 94f88ab31cc8f2c2ef0f290ed093541eacf337ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:04 +0000
Subject: [PATCH 38/75] fix: do not lose errors of tree visits nor leave them
 running

---
 pkg/storage/driver/visitor.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index affc4b9..d5b2b7f 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -139,8 +139,13 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 
 		// Feed workers.
 		go func() {
+		feed:
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+					break feed
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
@@ -150,6 +155,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		}()
 
 		// Accumulate results.
+		var err error
 	accumulate:
 		for {
 			select {
@@ -158,11 +164,30 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 					break accumulate
 				}
 				nextPaths = append(nextPaths, p)
-			case err := <-errors:
-				return err
+			case err = <-errors:
+				break accumulate
 			case <-ctx.Done():
-				return ctx.Err()
+				err = ctx.Err()
+				break accumulate
+			}
+		}
+
+		if err != nil {
+			// Leave nothing running behind.
+			cancelFn()
+			for range resultPaths {
 			}
+			return err
+		}
+
+		// The workers may have ended because of an error.
+		select {
+		case err := <-errors:
+			return err
+		default:
+		}
+		if err := ctx.Err(); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From b62cbe5f7eda70dc9b136168a842c1e90133ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:06 +0000
Subject: [PATCH 39/75] fix: visit directories whose names are special in URLs

---
 pkg/storage/driver/visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index d5b2b7f..1892535 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -16,6 +16,7 @@ package driver
 
 import (
 	"context"
+	stdurl "net/url"
 	"os"
 	"sync"
 )
@@ -76,7 +77,7 @@ func visitWorker(ctx context.Context, workerId int, drvr Readdirer, paths chan s
 						continue
 					}
 					if dirPath != "" {
-						fileName = dirPath + "/" + fileName
+						fileName = dirPath + "/" + stdurl.PathEscape(fileName)
 					}
 					select {
 					case nextPaths <- fileName:
-- 
2.43.0


From 3aa030c610a2201865048daebda4d05dfafd17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:07 +0000
Subject: [PATCH 40/75] fix: refuse to remove the root and non-empty
 directories of the ram scheme

---
 pkg/storage/ram/ram.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index dfb32f5..3db67df 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -166,6 +166,14 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 		return err
 	}
 
+	if f.Ino == rootIno {
+		return os.NewSyscallError("remove", syscall.EBUSY)
+	}
+	// all directories have entries for themselves and their parent
+	if it := d.inodes[f.Ino]; it.Mode.IsDir() && len(it.Dir.Entries()) > 2 {
+		return os.NewSyscallError("remove", syscall.ENOTEMPTY)
+	}
+
 	f.Parent.Dir.Delete(f.Name)
 	delete(d.inodes, f.Ino)
 	return nil
-- 
2.43.0


From 268f23df1b73685e92c5ebeb04af0cce9bf4ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:08 +0000
Subject: [PATCH 41/75] fix: do not crash on writes to aborted data writers

---
 pkg/storage/data/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index 1e1b1ef..b0f9f53 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -16,6 +16,7 @@ package datadriver
 
 import (
 	"bytes"
+	"os"
 
 	"github.com/vincent-petithory/dataurl"
 
@@ -41,6 +42,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
+	if ow.buf == nil {
+		err = os.ErrClosed
+		return
+	}
 	n, err = ow.buf.Write(p)
 	return
 }
-- 
2.43.0


From 46c31200862e99c36fd69c1ae30e7159f4a097ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:22 +0000
Subject: [PATCH 42/75] fix: do not report success when a failed commit of the
 ram scheme is repeated

---
 pkg/storage/ram/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/ram/writer.go b/pkg/storage/ram/writer.go
index 151b44a..7225f03 100644
--- a/pkg/storage/ram/writer.go
+++ b/pkg/storage/ram/writer.go
@@ -45,6 +45,7 @@ func (w *writer) Write(b []byte) (int, error) {
 func (w *writer) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&w.state, stateCreating, stateClosed) {
 		if err := w.commit(w.path, w.buf.Bytes()); err != nil {
+			atomic.StoreInt32(&w.state, stateAborted)
 			return nil, err
 		}
 		return driver.NewCommitInfo(w.url), nil
-- 
2.43.0


From 31e6cf1ffda5d15cdb3402559259eb4793e469c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:47 +0000
Subject: [PATCH 43/75] fix: keep the options attached to a context apart

---
 pkg/storage/http/context.go  |  9 ++++++---
 pkg/storage/s3/context.go    |  9 ++++++---
 pkg/storage/swift/context.go | 13 ++++++++-----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..f6b47c0 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -19,9 +19,12 @@ import (
 	"time"
 )
 
-var (
-	ctxAuthzKey   int
-	ctxTimeoutKey int
+// keys must be distinct, also from those of other packages
+type ctxKey int
+
+const (
+	ctxAuthzKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..8afe279 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -21,9 +21,12 @@ import (
 	"github.com/aws/aws-sdk-go/aws/credentials"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxTimeoutKey     int
+// keys must be distinct, also from those of other packages
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..60f35be 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -19,10 +19,13 @@ import (
 	"time"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxRegionKey      int
-	ctxTimeoutKey     int
+// keys must be distinct, also from those of other packages
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxRegionKey
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
@@ -44,7 +47,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 5633b26b54de543f6b7ea39098a4923760ae8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:49 +0000
Subject: [PATCH 44/75] fix: do not crash when a host is forgotten

---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..679f16b 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -166,6 +166,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From 50d18d49408920b7518e947b011d7ccdfdbd506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:51 +0000
Subject: [PATCH 45/75] fix: connect to IPv6 addresses

---
 pkg/httputil/rr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 679f16b..c0f7508 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -22,7 +22,6 @@ import (
 	"math/rand"
 	"net"
 	"net/http"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -289,6 +288,9 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 }
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
-	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	_, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, port))
 }
-- 
2.43.0


From b16164799117ec8dc583c957fd89357155fb9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:52 +0000
Subject: [PATCH 46/75] fix: stop retrying requests that are cancelled or timed
 out

---
 pkg/httputil/retry.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..02adcec 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -15,6 +15,7 @@
 package httputil
 
 import (
+	"context"
 	"net/http"
 	"time"
 
@@ -38,7 +39,7 @@ func WithRetries(base http.RoundTripper, options ...RetryOptions) http.RoundTrip
 
 type retryFunc func() (retry bool)
 
-func retry(doFn retryFunc, options ...RetryOptions) {
+func retry(ctx context.Context, doFn retryFunc, options ...RetryOptions) {
 	b := backoff.NewExponentialBackOff()
 	if len(options) > 0 {
 		if options[0].MaxElapsedTime != 0 {
@@ -57,7 +58,13 @@ func retry(doFn retryFunc, options ...RetryOptions) {
 		if !retry || delay == backoff.Stop {
 			return
 		}
-		time.Sleep(delay)
+		timer := time.NewTimer(delay)
+		select {
+		case <-timer.C:
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		}
 	}
 }
 
@@ -67,8 +74,11 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
-	retry(func() (retry bool) {
+	retry(req.Context(), func() (retry bool) {
 		resp, err = r.rt.RoundTrip(req)
+		if req.Context().Err() != nil {
+			return false
+		}
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
 			if err != nil {
-- 
2.43.0


From 09f51c329736444f7d0eab007cc4ef7c4b88eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:54 +0000
Subject: [PATCH 47/75] fix: release abandoned attempts and resend request
 bodies when retrying

---
 pkg/httputil/retry.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 02adcec..3cfd07c 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -16,6 +16,8 @@ package httputil
 
 import (
 	"context"
+	"io"
+	"io/ioutil"
 	"net/http"
 	"time"
 
@@ -74,12 +76,34 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	attempt := 0
 	retry(req.Context(), func() (retry bool) {
+		if attempt++; attempt > 1 {
+			if resp != nil {
+				// let go of the connection of the abandoned attempt
+				io.CopyN(ioutil.Discard, resp.Body, 64<<10)
+				resp.Body.Close()
+			}
+			if req.Body != nil && req.Body != http.NoBody {
+				// send the body again from its beginning
+				body, berr := req.GetBody()
+				if berr != nil {
+					resp, err = nil, berr
+					return false
+				}
+				req = req.Clone(req.Context())
+				req.Body = body
+			}
+		}
 		resp, err = r.rt.RoundTrip(req)
 		if req.Context().Err() != nil {
 			return false
 		}
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
+		if req.Body != nil && req.Body != http.NoBody && req.GetBody == nil {
+			// the body cannot be sent again
+			retry = false
+		}
 		if retry {
 			if err != nil {
 				warnf("retrying %s: %s\n", req.URL.String(), err)
-- 
2.43.0


From 33c3a41e22563ef0efb847568ee17f261fdbd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:16 +0000
Subject: [PATCH 48/75] fix: do not report an empty s3 object stored before it
 is

---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..b7d929b 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -112,7 +112,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -123,7 +123,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From 7799d9ec0d1c0a1de7a2e276aaf36a0e0f093698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:18 +0000
Subject: [PATCH 49/75] fix: do not commit an s3 upload that failed in ReadFrom

---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index b7d929b..c7fa29e 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -91,6 +91,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From 8359e98ea55906fe276c69ea52c29941fcd52d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:20 +0000
Subject: [PATCH 50/75] fix: do not commit an s3 upload that was aborted

---
 pkg/storage/s3/writer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index c7fa29e..45b4ef9 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -34,8 +34,11 @@ const (
 	writerStateOpened int32 = iota
 	writerStatePiped
 	writerStateDirect
+	writerStateAborted
 )
 
+var errAborted = errors.New("abort file creation")
+
 func NewObjectWriter(svc s3iface.S3API, bucket, key, canonicalURL string) driver.ObjectWriter {
 	return &objectWriter{
 		uploader:     s3util.NewS3Uploader(svc),
@@ -56,6 +59,8 @@ type objectWriter struct {
 	canonicalURL string
 	state        int32
 	err          error
+	aborted      bool
+	committed    bool
 	version      string
 }
 
@@ -98,6 +103,8 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			ow.storeVersion(*resp.VersionID)
 		}
 		return nil
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return errAborted
 	} else if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		return fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -114,6 +121,8 @@ func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
 		ow.startPiped()
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return 0, errAborted
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -134,13 +143,21 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if ow.err != nil {
 		return nil, ow.err
 	}
+	if ow.aborted {
+		return nil, errAborted
+	}
+	ow.committed = true
 	return driver.NewCommitInfo(ow.canonicalURL), nil
 }
 
 func (ow *objectWriter) Abort() {
+	if !ow.committed {
+		ow.aborted = true
+	}
+	atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStateAborted)
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		// TODO: log error
-		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
+		ow.pipeWriter.CloseWithError(errAborted)
 		ow.wg.Wait()
 	}
 }
-- 
2.43.0


From b7bb57042614b047dcaa1aa206148e76aacc34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:21 +0000
Subject: [PATCH 51/75] fix: cancel the multi-part upload when its context is
 cancelled

---
 pkg/s3util/uploader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 70657da..a205f63 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -439,7 +439,8 @@ func (u *multiuploader) fail() {
 		Key:      u.in.Key,
 		UploadId: &u.uploadID,
 	}
-	u.cfg.S3.AbortMultipartUploadWithContext(u.ctx, params)
+	// also when the context of the upload has been cancelled
+	u.cfg.S3.AbortMultipartUploadWithContext(aws.BackgroundContext(), params)
 }
 
 // complete successfully completes a multipart upload and returns the response.
-- 
2.43.0


From 764017bf037e0abc23287d25ab6f966c41cffb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:23 +0000
Subject: [PATCH 52/75] fix: do not crash when the answer has no upload id

---
 pkg/s3util/uploader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index a205f63..a7b2c4b 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -288,7 +288,9 @@ func (u *multiuploader) upload(firstBuf readerAtSeeker, firstPart []byte) (*S3Up
 	if err != nil {
 		return nil, err
 	}
-	u.uploadID = *resp.UploadId
+	if u.uploadID = aws.StringValue(resp.UploadId); u.uploadID == "" {
+		return nil, awserr.New("MissingUploadId", "no upload id in the answer", nil)
+	}
 
 	// Create the workers
 	ch := make(chan chunk, u.cfg.Concurrency)
-- 
2.43.0


From a62986587eab9936b82b8a3fb9209004c8f6a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:24 +0000
Subject: [PATCH 53/75] fix: upload from the current position of the reader

---
 pkg/s3util/uploader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index a7b2c4b..7397036 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -98,6 +98,7 @@ type uploader struct {
 
 	in *S3UploadInput
 
+	start     int64 // position of the reader at the beginning
 	readerPos int64 // current reader position
 	totalSize int64 // set to -1 if the size is not known
 
@@ -157,7 +158,11 @@ func (u *uploader) initSize() {
 		if err != nil {
 			return
 		}
-		u.totalSize = n
+		start, err := r.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return
+		}
+		u.start, u.totalSize = start, n
 
 		// Try to adjust partSize if it is too small and account for
 		// integer division truncation.
@@ -191,7 +196,7 @@ func (u *uploader) nextReader() (readerAtSeeker, int, []byte, error) {
 				n = bytesLeft
 			}
 		}
-		reader := io.NewSectionReader(r, u.readerPos, n)
+		reader := io.NewSectionReader(r, u.start+u.readerPos, n)
 		u.readerPos += n
 
 		return reader, int(n), nil, err
-- 
2.43.0


From 7b50000caa83128f813d648348ad48bfd4f6f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:58 +0000
Subject: [PATCH 54/75] fix: list the swift container the url names

The container was taken for a part of the prefix and the request went to
the root of the service.
---
 pkg/s3util/listbucket.go   | 31 ++++++++++++++++++++++++++-----
 pkg/storage/swift/swift.go |  2 +-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index 5b8809e..f397178 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -62,9 +62,6 @@ type ListBucketPage struct {
 type ListBucketCallback func(page *ListBucketPage) error
 
 func ListBucket(client *http.Client, url string, callback ListBucketCallback) error {
-	v := stdurl.Values{}
-	v.Set("delimiter", "/")
-
 	u, err := stdurl.Parse(url)
 	if err != nil {
 		return err
@@ -74,16 +71,40 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 	if strings.HasPrefix(dirpath, "/") {
 		dirpath = dirpath[1:]
 	}
+	u.Path = "/"
+	return listBucket(client, u, dirpath, callback)
+}
+
+// ListContainer lists like ListBucket, but the first element of the
+// url's path is the bucket.
+func ListContainer(client *http.Client, url string, callback ListBucketCallback) error {
+	u, err := stdurl.Parse(url)
+	if err != nil {
+		return err
+	}
+
+	parts := strings.SplitN(strings.TrimPrefix(u.Path, "/"), "/", 2)
+	dirpath := ""
+	if len(parts) > 1 {
+		dirpath = parts[1]
+	}
+	u.Path = "/" + parts[0]
+	return listBucket(client, u, dirpath, callback)
+}
+
+func listBucket(client *http.Client, u *stdurl.URL, dirpath string, callback ListBucketCallback) error {
+	v := stdurl.Values{}
+	v.Set("delimiter", "/")
+
 	if !strings.HasSuffix(dirpath, "/") {
 		dirpath += "/"
 	}
-	u.Path = "/"
 	if dirpath != "/" {
 		v.Set("prefix", dirpath)
 	}
 
 	u.RawQuery = "versions&" + v.Encode()
-	url = u.String()
+	url := u.String()
 
 	var nextVersionId *string
 	var nextKey *string
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c8b3980..1d0d8a3 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -124,7 +124,7 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 	c := d.newClient(ctx, parsed.Account)
 
 	var results []os.FileInfo
-	err = s3util.ListBucket(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
+	err = s3util.ListContainer(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
 		for _, entry := range page.Version {
 			if !entry.IsLatest {
 				continue
-- 
2.43.0


From 2a6d455c9f20cbdbca94592967f7eaaa3a72da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:59 +0000
Subject: [PATCH 55/75] fix: fail a truncated listing that does not say where
 it goes on

The first page was asked for again and again.
---
 pkg/s3util/listbucket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index f397178..c2b2420 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -160,6 +160,9 @@ func listBucket(client *http.Client, u *stdurl.URL, dirpath string, callback Lis
 		if !page.IsTruncated {
 			break
 		}
+		if nextKey == nil && nextVersionId == nil {
+			return fmt.Errorf("s3 readdir: truncated bucket listing without a marker")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 44dd947b05628afd95307b8725646b3e48c80921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:01 +0000
Subject: [PATCH 56/75] fix: do not crash on a listed prefix without a slash

---
 pkg/storage/s3/s3.go       | 3 +++
 pkg/storage/swift/swift.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 40ff199..67c83a6 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -150,6 +150,9 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 
 		for _, entry := range page.CommonPrefixes {
 			parts := strings.Split(entry.Prefix, "/")
+			if len(parts) < 2 {
+				return fmt.Errorf("s3driver: bad prefix in bucket listing: %q", entry.Prefix)
+			}
 			results = append(results, &finfo{
 				name:    parts[len(parts)-2],
 				size:    4096,
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 1d0d8a3..80c6e49 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -151,6 +151,9 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 
 		for _, entry := range page.CommonPrefixes {
 			parts := strings.Split(entry.Prefix, "/")
+			if len(parts) < 2 {
+				return fmt.Errorf("swiftdriver: bad prefix in bucket listing: %q", entry.Prefix)
+			}
 			results = append(results, &finfo{
 				name:    parts[len(parts)-2],
 				size:    4096,
-- 
2.43.0


From 900aa83a70784eaf59519b0ce5d073d3a074fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:03 +0000
Subject: [PATCH 57/75] fix: address buckets in every s3 region

The location of buckets in us-east-1 is empty, and that of old ones in
eu-west-1 is EU. China has its own domain and newer regions only have
endpoints of the form s3.REGION.
---
 pkg/storage/s3/region.go | 9 ++++++++-
 pkg/storage/s3/s3.go     | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/region.go b/pkg/storage/s3/region.go
index cf52c12..d55458b 100644
--- a/pkg/storage/s3/region.go
+++ b/pkg/storage/s3/region.go
@@ -97,7 +97,14 @@ func getBucketRegion(c *http.Client, bucketName string) regionPromise {
 			return "", err
 		}
 
-		return res.Location, nil
+		switch res.Location {
+		case "":
+			return "us-east-1", nil
+		case "EU":
+			return "eu-west-1", nil
+		default:
+			return res.Location, nil
+		}
 	})
 }
 
diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 67c83a6..a004988 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -191,7 +191,11 @@ func (d *Driver) parseURL(url string) (*parsedURL, error) {
 	}
 
 	u.Scheme = "https"
-	u.Host = fmt.Sprintf("%s.s3-%s.amazonaws.com", bucket, bucketRegion)
+	domain := "com"
+	if strings.HasPrefix(bucketRegion, "cn-") {
+		domain = "com.cn"
+	}
+	u.Host = fmt.Sprintf("%s.s3.%s.amazonaws.%s", bucket, bucketRegion, domain)
 
 	return &parsedURL{
 		URL:          u,
-- 
2.43.0


From 8c9194b657aa72a01c37b8ab7c324dc0c6180327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:04 +0000
Subject: [PATCH 58/75] fix: look up the region of a bucket as the caller and
 do not remember failures

The lookup used the ambient credentials and had no timeout, whatever the
caller's context said, and a failed lookup was the answer for ever.
---
 pkg/storage/s3/s3.go | 57 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index a004988..7e506b4 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -50,7 +50,7 @@ func (d *Driver) Name() string {
 }
 
 func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
-	parsed, err := d.parseURL(url)
+	parsed, err := d.parseURL(ctx, url)
 	if err != nil {
 		return nil, err
 	}
@@ -60,7 +60,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 }
 
 func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
-	parsed, err := d.parseURL(url)
+	parsed, err := d.parseURL(ctx, url)
 	if err != nil {
 		return nil, err
 	}
@@ -80,7 +80,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 }
 
 func (d *Driver) Remove(ctx context.Context, url string) error {
-	parsed, err := d.parseURL(url)
+	parsed, err := d.parseURL(ctx, url)
 	if err != nil {
 		return err
 	}
@@ -91,7 +91,7 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 }
 
 func (d *Driver) Stat(ctx context.Context, url string) (os.FileInfo, error) {
-	parsed, err := d.parseURL(url)
+	parsed, err := d.parseURL(ctx, url)
 	if err != nil {
 		return nil, err
 	}
@@ -115,7 +115,7 @@ func (d *Driver) Stat(ctx context.Context, url string) (os.FileInfo, error) {
 }
 
 func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
-	parsed, err := d.parseURL(url)
+	parsed, err := d.parseURL(ctx, url)
 	if err != nil {
 		return nil, err
 	}
@@ -170,7 +170,7 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 	return results, nil
 }
 
-func (d *Driver) parseURL(url string) (*parsedURL, error) {
+func (d *Driver) parseURL(ctx context.Context, url string) (*parsedURL, error) {
 	u, err := stdurl.Parse(url)
 	if err != nil {
 		return nil, err
@@ -185,7 +185,7 @@ func (d *Driver) parseURL(url string) (*parsedURL, error) {
 	}
 
 	bucket := u.Hostname()
-	bucketRegion, err := d.getBucketRegion(bucket)
+	bucketRegion, err := d.getBucketRegion(ctx, bucket)
 	if err != nil {
 		return nil, err
 	}
@@ -204,26 +204,33 @@ func (d *Driver) parseURL(url string) (*parsedURL, error) {
 	}, nil
 }
 
-func (d *Driver) getBucketRegion(bucketName string) (string, error) {
-	var rp regionPromise
-	var ok bool
-	d.mu.Lock()
-	rp, ok = d.bucketRegionCache[bucketName]
-	if !ok {
-		c := &http.Client{}
+func (d *Driver) getBucketRegion(ctx context.Context, bucketName string) (string, error) {
+	for {
+		var rp regionPromise
+		var ok bool
+		d.mu.Lock()
+		rp, ok = d.bucketRegionCache[bucketName]
+		if !ok {
+			rp = getBucketRegion(d.newClient(ctx, getRegion()), bucketName)
+			d.bucketRegionCache[bucketName] = rp
+		}
+		d.mu.Unlock()
 
-		lreg := getRegion()
-		cfg := aws.NewConfig().
-			WithEndpointResolver(endpoints.DefaultResolver()).
-			WithRegion(lreg)
-		creds := defaults.CredChain(cfg, defaults.Handlers())
-		c.Transport = s3util.NewSigningRoundTripper(httputil.WithRetries(d.defaultTransport), creds, lreg)
-		rp = getBucketRegion(c, bucketName)
-		d.bucketRegionCache[bucketName] = rp
-	}
-	d.mu.Unlock()
+		region, err := rp.Apply()
+		if err == nil {
+			return region, nil
+		}
 
-	return rp.Apply()
+		d.mu.Lock()
+		if d.bucketRegionCache[bucketName] == rp {
+			delete(d.bucketRegionCache, bucketName)
+		}
+		d.mu.Unlock()
+		if !ok {
+			return "", err
+		}
+		// Somebody else's attempt failed. Try with our own options.
+	}
 }
 
 func (d *Driver) newClient(ctx context.Context, bucketRegion string) *http.Client {
-- 
2.43.0


From eb130c2db07125a34fd72d1d3ddee3f6e2112394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:36 +0000
Subject: [PATCH 59/75] fix: create s3 and swift objects under the key the url
 names

Keys like a//b and a/../b were cleaned.
---
 pkg/storage/s3/s3.go       | 4 +++-
 pkg/storage/swift/swift.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 7e506b4..10d7cf3 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -70,13 +70,15 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithMaxRetries(100).
 		WithS3DisableContentMD5Validation(true)
 
+	config.DisableRestProtocolURICleaning = aws.Bool(true)
+
 	if creds, ok := CredentialsFromCtx(ctx); ok {
 		config = config.WithCredentials(creds)
 	}
 
 	svc := s3.New(d.sess, config)
 
-	return NewObjectWriter(svc, parsed.Bucket, parsed.URL.Path, url), nil
+	return NewObjectWriter(svc, parsed.Bucket, strings.TrimPrefix(parsed.URL.Path, "/"), url), nil
 }
 
 func (d *Driver) Remove(ctx context.Context, url string) error {
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 80c6e49..4aac725 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -75,10 +75,11 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithS3ForcePathStyle(true).
 		WithCredentials(creds).
 		WithMaxRetries(100)
+	config.DisableRestProtocolURICleaning = aws.Bool(true)
 
 	svc := s3.New(d.sess, config)
 
-	return s3driver.NewObjectWriter(svc, parsed.Container, parsed.Key, url), nil
+	return s3driver.NewObjectWriter(svc, parsed.Container, strings.TrimPrefix(parsed.Key, "/"), url), nil
 }
 
 func (d *Driver) Remove(ctx context.Context, url string) error {
-- 
2.43.0


From c3168d1920778d1041053c89b60f71b8c7013467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:38 +0000
Subject: [PATCH 60/75] fix: create swift objects with the caller's credentials

---
 pkg/storage/swift/swift.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 4aac725..c234e5a 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -62,7 +62,12 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		return nil, err
 	}
 
-	creds := credentials.NewCredentials(NewSwiftEnvProvider(parsed.Account))
+	var prov credentials.Provider
+	if creds, ok := CredentialsFromCtx(ctx); ok {
+		prov = NewSwiftCtxProvider(parsed.Account, creds)
+	} else {
+		prov = NewSwiftEnvProvider(parsed.Account)
+	}
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -73,7 +78,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithRegion(region).
 		WithEndpoint(fmt.Sprintf("https://%s", parsed.URL.Host)).
 		WithS3ForcePathStyle(true).
-		WithCredentials(creds).
+		WithCredentials(credentials.NewCredentials(prov)).
 		WithMaxRetries(100)
 	config.DisableRestProtocolURICleaning = aws.Bool(true)
 
-- 
2.43.0


From 91a7f83f3c999b7abc10e9ec074b6663f9ef2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:39 +0000
Subject: [PATCH 61/75] fix: do not send a request whose body could not be
 signed

The error was assigned to a shadowing variable.
---
 pkg/s3util/signer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/s3util/signer.go b/pkg/s3util/signer.go
index d119aae..86541cf 100644
--- a/pkg/s3util/signer.go
+++ b/pkg/s3util/signer.go
@@ -122,9 +122,9 @@ func (s *signer) RoundTrip(req *http.Request) (*http.Response, error) {
 		debugln("Signing request with no body...")
 		_, err = s.v4.Sign(req, nil, "s3", s.region, t)
 	default:
-		d, err := ioutil.ReadAll(req.Body)
-		if err != nil {
-			return nil, err
+		d, readErr := ioutil.ReadAll(req.Body)
+		if readErr != nil {
+			return nil, readErr
 		}
 		req.Body = ioutil.NopCloser(bytes.NewReader(d))
 		debugln("Signing request with body...")
-- 
2.43.0


From 3efe74893281555e0588f7cf8c18da53de2cd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:29 +0000
Subject: [PATCH 62/75] fix: refuse block device reads after the end of the
 disc

The byte offset and length of a read were computed without looking for
overflow, so reads of very high addresses returned blocks of the start of
the disc, and very long ones succeeded without returning anything.
---
 pkg/blockdev/cmd_handler.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index 9f299ba..2d23cdb 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -47,9 +47,25 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 	case scsi.ModeSelect, scsi.ModeSelect10:
 		return tcmu.EmulateModeSelect(cmd, false)
 	case scsi.Read6, scsi.Read10, scsi.Read12, scsi.Read16:
-		return tcmu.EmulateRead(cmd, h.R)
+		return h.read(cmd)
 	default:
 		zap.L().Sugar().Warnf("Ignore unknown SCSI command 0x%x", cmd.Command())
 	}
 	return cmd.NotHandled(), nil
 }
+
+// ascLBAOutOfRange is the additional sense code of addresses after the end of the device.
+const ascLBAOutOfRange = 0x2100
+
+// read is tcmu.EmulateRead for blocks that are all on the device. The byte
+// offset and length of others do not always fit into integers.
+func (h readerAtCmdHandler) read(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
+	lba, blocks := cmd.LBA(), uint64(cmd.XferLen())
+
+	sizes := cmd.Device().Sizes()
+	total := uint64(sizes.VolumeSize / sizes.BlockSize)
+	if lba > total || blocks > total-lba {
+		return cmd.CheckCondition(scsi.SenseIllegalRequest, ascLBAOutOfRange), nil
+	}
+	return tcmu.EmulateRead(cmd, h.R)
+}
-- 
2.43.0


From e14c2589d71ab872fd04a44b9629a3a0de7a3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:31 +0000
Subject: [PATCH 63/75] fix: read the addressed blocks for READ(6)

Only the lowest byte of the address was used, address 0 was taken for 256,
and a length of 0, meaning 256 blocks, returned nothing.
---
 pkg/blockdev/cmd_handler.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index 2d23cdb..c200fcc 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -57,15 +57,31 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 // ascLBAOutOfRange is the additional sense code of addresses after the end of the device.
 const ascLBAOutOfRange = 0x2100
 
-// read is tcmu.EmulateRead for blocks that are all on the device. The byte
-// offset and length of others do not always fit into integers.
+// read fills the command's buffer with the blocks it asks for, which must all
+// be on the device. The byte offset and length of others do not always fit
+// into integers.
 func (h readerAtCmdHandler) read(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
 	lba, blocks := cmd.LBA(), uint64(cmd.XferLen())
+	if cmd.Command() == scsi.Read6 {
+		// The address has 21 bits, and a length of 0 means 256.
+		lba = uint64(cmd.GetCDB(1)&0x1f)<<16 | uint64(cmd.GetCDB(2))<<8 | uint64(cmd.GetCDB(3))
+		if blocks == 0 {
+			blocks = 256
+		}
+	}
 
 	sizes := cmd.Device().Sizes()
 	total := uint64(sizes.VolumeSize / sizes.BlockSize)
 	if lba > total || blocks > total-lba {
 		return cmd.CheckCondition(scsi.SenseIllegalRequest, ascLBAOutOfRange), nil
 	}
-	return tcmu.EmulateRead(cmd, h.R)
+	length := int64(blocks) * sizes.BlockSize
+	sr := io.NewSectionReader(h.R, int64(lba)*sizes.BlockSize, length)
+
+	n, err := io.CopyBuffer(cmd, sr, cmd.Buf)
+	if err != nil || n < length {
+		zap.L().Error("read failed", zap.Error(err), zap.Int64("wanted", length), zap.Int64("read", n))
+		return cmd.MediumError(), nil
+	}
+	return cmd.Ok(), nil
 }
-- 
2.43.0


From fca0fb8ba3fbeac9f947595e8f11dff60b5aa67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:32 +0000
Subject: [PATCH 64/75] fix: do not fail block device reads of the last block

A source may return io.EOF together with its last bytes. Reads up to the end
of such discs failed with a medium error.
---
 pkg/blockdev/cmd_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index c200fcc..44d37ef 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -78,7 +78,9 @@ func (h readerAtCmdHandler) read(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
 	length := int64(blocks) * sizes.BlockSize
 	sr := io.NewSectionReader(h.R, int64(lba)*sizes.BlockSize, length)
 
-	n, err := io.CopyBuffer(cmd, sr, cmd.Buf)
+	// Not by way of cmd.ReadFrom, which fails when the last bytes of the disc
+	// come together with io.EOF.
+	n, err := io.CopyBuffer(struct{ io.Writer }{cmd}, sr, cmd.Buf)
 	if err != nil || n < length {
 		zap.L().Error("read failed", zap.Error(err), zap.Int64("wanted", length), zap.Int64("read", n))
 		return cmd.MediumError(), nil
-- 
2.43.0


From 46b2b1b94ff5f7016965300399429bd2ecab5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:34 +0000
Subject: [PATCH 65/75] fix: do not panic on short INQUIRY and MODE SELECT
 commands

An INQUIRY with an allocation length of less than 36 bytes and any MODE SELECT
with less than 512 bytes of parameters made the handler fail, which ends the
whole process. Cut the inquiry data, and refuse the parameters.
---
 pkg/blockdev/cmd_handler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index 44d37ef..cb0ce93 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -37,7 +37,12 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 				ProductRev: "0001",
 			}
 		}
-		return tcmu.EmulateInquiry(cmd, h.Inq)
+		rsp, err := tcmu.EmulateInquiry(cmd, h.Inq)
+		if err != nil {
+			// The buffer is shorter than the inquiry data.
+			return cmd.Ok(), nil
+		}
+		return rsp, nil
 	case scsi.TestUnitReady:
 		return tcmu.EmulateTestUnitReady(cmd)
 	case scsi.ServiceActionIn16:
@@ -45,7 +50,11 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 	case scsi.ModeSense, scsi.ModeSense10:
 		return tcmu.EmulateModeSense(cmd, false)
 	case scsi.ModeSelect, scsi.ModeSelect10:
-		return tcmu.EmulateModeSelect(cmd, false)
+		rsp, err := tcmu.EmulateModeSelect(cmd, false)
+		if err != nil {
+			return cmd.CheckCondition(scsi.SenseIllegalRequest, scsi.AscParameterListLengthError), nil
+		}
+		return rsp, nil
 	case scsi.Read6, scsi.Read10, scsi.Read12, scsi.Read16:
 		return h.read(cmd)
 	default:
-- 
2.43.0


From d073c78108ec50a58238881953f38af35925452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:17 +0000
Subject: [PATCH 66/75] fix: do not crash on the release of an unknown file
 handle

The handle that was not found was closed all the same, a nil dereference.
---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..48a1cf3 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return fuse.EINVAL
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From 886681e1350d38cef412010bc67a6bd23ba873e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:50 +0000
Subject: [PATCH 67/75] fix: refuse lookups in unknown inodes also when the
 entry is cached

A lookup in a directory that was forgotten gave its entry, if the entry was
still in the cache, and an error otherwise.
---
 pkg/isofuse/dir.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/isofuse/dir.go b/pkg/isofuse/dir.go
index d4e8bfc..dd2303f 100644
--- a/pkg/isofuse/dir.go
+++ b/pkg/isofuse/dir.go
@@ -86,12 +86,6 @@ func (fs *isoFS) LookUpInode(ctx context.Context, op *fuseops.LookUpInodeOp) err
 		}
 	}
 
-	cachedFi, ok := fs.finfoCache.Get(op.Parent, op.Name)
-	if ok {
-		set(cachedFi)
-		return nil
-	}
-
 	fs.finfosMU.RLock()
 	entry, ok := fs.finfos[op.Parent]
 	if !ok {
@@ -101,6 +95,12 @@ func (fs *isoFS) LookUpInode(ctx context.Context, op *fuseops.LookUpInodeOp) err
 	}
 	fs.finfosMU.RUnlock()
 
+	cachedFi, ok := fs.finfoCache.Get(op.Parent, op.Name)
+	if ok {
+		set(cachedFi)
+		return nil
+	}
+
 	// Sequentially scan the directory looking for Name
 	it := iso9660.NewReadDirIterator(fs.volume.Image(), entry.Info.Extent(), entry.Info.Size(), 0)
 	for it.Next() {
-- 
2.43.0


From b5f6a9c4a9e7b36299ce3bcfa6677137cccab8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:29 +0000
Subject: [PATCH 68/75] fix: fail recursive listings that are incomplete

The error of a directory that could not be read was dropped, and ls -r
printed what it had and exited with success.
---
 pkg/vdisc/cli/ls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/cli/ls.go b/pkg/vdisc/cli/ls.go
index efe8954..fca5a2f 100644
--- a/pkg/vdisc/cli/ls.go
+++ b/pkg/vdisc/cli/ls.go
@@ -44,7 +44,7 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 	w := iso9660.NewWalker(v.Image())
 	if cmd.Recursive {
 		prevPath := cmd.Path
-		w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
+		err := w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				zap.L().Fatal("recursive listing", zap.String("path", path), zap.Error(err))
 			}
@@ -56,6 +56,9 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 			cmd.listFile(info)
 			return nil
 		})
+		if err != nil {
+			zap.L().Fatal("recursive listing", zap.String("path", cmd.Path), zap.Error(err))
+		}
 	} else {
 		fi, err := w.Lstat(cmd.Path)
 		if err != nil {
-- 
2.43.0


From 5e179dcf78a8b7578b71c2b3a9370db57974a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:39 +0000
Subject: [PATCH 69/75] fix: record times with the offset of UTC

Times are converted to UTC, but their offset said UTC+12:30, so that other
readers showed times that are half a day off.
---
 pkg/iso9660/datetime/datetime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/datetime/datetime.go b/pkg/iso9660/datetime/datetime.go
index fa4ebd2..9ee1870 100644
--- a/pkg/iso9660/datetime/datetime.go
+++ b/pkg/iso9660/datetime/datetime.go
@@ -33,7 +33,7 @@ func NewDecDateTime(t time.Time) DecDateTime {
 	copy(result[10:12], fmt.Sprintf("%02d", t.Minute()))
 	copy(result[12:14], fmt.Sprintf("%02d", t.Second()))
 	copy(result[14:16], fmt.Sprintf("%02d", t.Nanosecond()/10000000)) // Hundredths of a second
-	result[16] = 50
+	result[16] = 0
 
 	return result
 }
@@ -60,7 +60,7 @@ func NewEntryDateTime(t time.Time) EntryDateTime {
 	result[3] = byte(t.Hour())
 	result[4] = byte(t.Minute())
 	result[5] = byte(t.Second())
-	result[6] = 50
+	result[6] = 0
 	return result
 }
 
-- 
2.43.0


From 0f3148d97a27c49604768de2d02987f0bee7ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:39 +0000
Subject: [PATCH 70/75] fix: decode the hundredths of a second of long time
 stamps

---
 pkg/iso9660/datetime/datetime.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/datetime/datetime.go b/pkg/iso9660/datetime/datetime.go
index 9ee1870..c14861e 100644
--- a/pkg/iso9660/datetime/datetime.go
+++ b/pkg/iso9660/datetime/datetime.go
@@ -45,7 +45,11 @@ func (ddt DecDateTime) Timestamp() time.Time {
 		return time.Unix(0, 0).UTC()
 	}
 
-	// TODO: parse nanoseconds and TZ
+	if a, b := ddt[14]-'0', ddt[15]-'0'; a <= 9 && b <= 9 {
+		t = t.Add(time.Duration(a*10+b) * 10 * time.Millisecond)
+	}
+
+	// TODO: parse TZ
 	return t.UTC()
 }
 
-- 
2.43.0


From ba258db688fcc0621b261408f7ccd08bd0f73513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:40 +0000
Subject: [PATCH 71/75] fix: refuse extension references that are too long for
 an entry

---
 pkg/iso9660/susp/er.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/susp/er.go b/pkg/iso9660/susp/er.go
index 9bd6457..2c0afdc 100644
--- a/pkg/iso9660/susp/er.go
+++ b/pkg/iso9660/susp/er.go
@@ -40,7 +40,11 @@ func NewExtensionsReferenceEntry(version byte, identifier string, descriptor str
 	if len(source) > math.MaxUint8 {
 		return nil, errors.New("source too long")
 	}
-	return &ExtensionsReferenceEntry{version, identifier, descriptor, source}, nil
+	er := &ExtensionsReferenceEntry{version, identifier, descriptor, source}
+	if er.Len() > math.MaxUint8 {
+		return nil, errors.New("extensions reference too long")
+	}
+	return er, nil
 }
 
 func (er *ExtensionsReferenceEntry) Len() int {
-- 
2.43.0


From 0677d4ca42cc4b372d8b40ad2a4fc06aaea766fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:41 +0000
Subject: [PATCH 72/75] fix: refuse path table identifiers that are too long
 for a record

---
 pkg/iso9660/pathtable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/iso9660/pathtable.go b/pkg/iso9660/pathtable.go
index ca841c3..4b4534f 100644
--- a/pkg/iso9660/pathtable.go
+++ b/pkg/iso9660/pathtable.go
@@ -16,8 +16,10 @@ package iso9660
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 type PathTableRecord struct {
@@ -51,6 +53,10 @@ func NewPathTableEncoder(byteOrder binary.ByteOrder, w io.Writer) *PathTableEnco
 
 func (e *PathTableEncoder) Encode(pt *PathTable) (int64, error) {
 	for _, rec := range pt.Records {
+		if len(rec.Identifier) > math.MaxUint8 {
+			return e.w.Written(), errors.New("path table identifier too long")
+		}
+
 		if err := writeByte(e.w, byte(len(rec.Identifier))); err != nil {
 			return e.w.Written(), err
 		}
-- 
2.43.0


From 57060978549176e7283e184b47710316c25ba0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:12 +0000
Subject: [PATCH 73/75] fix: do not keep every source open while a disc is
 built

---
 pkg/vdisc/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index d5f0b0f..cdbd4e5 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -86,6 +86,8 @@ func (b *builder) AddFile(path string, url string, size int64) error {
 	if err != nil {
 		return err
 	}
+	// Only the size and URL are needed to build the disc
+	defer r.Close()
 
 	err = b.volume.AddFile(path, r)
 	if err != nil {
-- 
2.43.0


From f8f2bdebe6493e5d7d4a8848163d2b9d146b8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:13 +0000
Subject: [PATCH 74/75] fix: close the disc object when it is loaded

---
 pkg/vdisc/loader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 885b56a..b5241f0 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -210,6 +210,7 @@ func downloadMemoryMapped(url string) ([]byte, *mmapCloser, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Close()
 
 	r := io.NewSectionReader(res, 0, res.Size())
 
-- 
2.43.0


From 15a97a2a25939d4399f4e80024f4956f7b6a25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:14 +0000
Subject: [PATCH 75/75] fix: close cached blocks that another reader filled

---
 pkg/caching/disk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 923f5b3..b5e3f2a 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -275,6 +275,7 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	// Double check that we didn't lose the race trying to write to the cache
 	cobj, serr := storage.Open(fname)
 	if serr == nil {
+		defer cobj.Close()
 		switch xobj := cobj.(type) {
 		case driver.XattrObject:
 			ckey, xerr := xobj.GetXattr(XattrKey)
-- 
2.43.0

