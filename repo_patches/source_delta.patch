From 8c358797fd59780aaedd83edf5df37051df124da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 01/66] fix: arfs: reject member headers with either terminator
 byte wrong

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 0b9a5ae07006c2756f8ec6458ac4c17b0a33a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 02/66] fix: arfs: reject negative member sizes, which made
 Open loop forever

---
 arfs/arfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..d884bc9 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,11 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	// A negative size would move the read position backwards (possibly forever).
+	if e.FileSize < 0 {
+		return nil, errors.New("negative file size")
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 8bf26f48d9ee3d6bff238d0d4b02cb4456c6e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 03/66] fix: arfs: detect truncated archives and accept readers
 that return EOF with the last bytes

---
 arfs/arfs.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index d884bc9..f731ab8 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,8 +69,13 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
+		if err != nil && n < len(line) {
 			if errors.Is(err, io.EOF) {
+				// Only a lone newline (eg. padding) may follow the last entry.
+				if n > 1 || (n == 1 && line[0] != '\n') {
+					return nil, io.ErrUnexpectedEOF
+				}
+
 				break
 			}
 
@@ -94,6 +99,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// Make sure that the file data isn't truncated.
+		if e.FileSize > 0 {
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n == 0 {
+				if errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+
+				return nil, fmt.Errorf("failed to read file data: %w", err)
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
@@ -209,7 +226,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); err != nil && n < len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From 7291c8aa3b04c4c90c80477d8cf72c40cdb4b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 04/66] fix: arfs: keep the leading dot of file names, don't
 list unnamed members

---
 arfs/arfs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index f731ab8..b0cb840 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -116,6 +116,11 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 		offset += int64(n) + e.FileSize + (e.FileSize % 2)
 
+		// Skip unnamed members (eg. the GNU symbol table).
+		if e.Filename == "" {
+			continue
+		}
+
 		entries[e.Filename] = e
 	}
 
@@ -236,7 +241,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(strings.TrimSpace(name)))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 65d1942f50b0aca990da40534edc6df81661e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 05/66] fix: tarfs: keep leading dots and surrounding spaces of
 names, clamp '..' at the root

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..3f14577 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -281,7 +281,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From b65a87be1e95c82842eb867c90010903c19f580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 06/66] fix: tarfs: don't overwrite recorded directories with
 defaults

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 3f14577..fe15c25 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -82,6 +82,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
 			dirents[dir] = &dirent{
-- 
2.43.0


From f5057af64d5a25b00ee9033b3556c720b21a5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 07/66] fix: tarfs: resolve hardlinks to hardlinks
 independently of map order

---
 tarfs/tarfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index fe15c25..032144e 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -112,6 +112,15 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		if d.Typeflag == tar.TypeLink {
 			name := sanitizePath(d.Linkname)
 			target, ok := dirents[name]
+			// The target might be a hardlink too.
+			for hops := 0; ok && target.Typeflag == tar.TypeLink; hops++ {
+				if hops > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: too many links", path)
+				}
+
+				name = sanitizePath(target.Linkname)
+				target, ok = dirents[name]
+			}
 			if !ok {
 				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
 			}
-- 
2.43.0


From d53072ff853c1115a75f139e7b7327c8ddc1aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 08/66] fix: tarfs: follow symlinks relative to their
 directory, keep targets verbatim, detect loops

---
 tarfs/tarfs.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 032144e..8d2da15 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -72,14 +72,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
@@ -255,15 +247,34 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 	return d.Info()
 }
 
-func resolve(root *dirent, name string) (*dirent, error) {
-	d := root
+// maxSymlinks is the maximum number of symlinks followed by a single lookup.
+const maxSymlinks = 255
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+func resolve(root *dirent, name string) (*dirent, error) {
+	var links int
+	return resolveFrom(root, root, sanitizePath(name), &links)
+}
 
+// resolveFrom resolves a path starting from the directory d.
+func resolveFrom(root, d *dirent, name string, links *int) (*dirent, error) {
 	for _, component := range strings.Split(name, "/") {
+		if component == "" {
+			continue
+		}
+
+		if component == "." || component == ".." {
+			if !d.IsDir() {
+				return nil, fs.ErrNotExist
+			}
+
+			// The parent of the root is the root.
+			if component == ".." && d.parent != nil {
+				d = d.parent
+			}
+
+			continue
+		}
+
 		var found bool
 		d, found = d.findChild(component)
 		if !found {
@@ -274,15 +285,19 @@ func resolve(root *dirent, name string) (*dirent, error) {
 			// Resolve the symlink.
 			target := d.Linkname
 
+			if *links++; *links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
+			}
+
 			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
+			if !strings.HasPrefix(target, "/") && d.parent != nil {
+				d, err = resolveFrom(root, d.parent, target, links)
 				if err != nil {
 					return nil, err
 				}
 			} else {
 				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
+				d, err = resolveFrom(root, root, target, links)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 9309427bcaad903712db2d53bb26f5d2e3843c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 09/66] fix: tarfs: return an error when listing a
 non-directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 8d2da15..d3028fb 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -172,6 +172,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, fmt.Errorf("not a directory: %s", name)
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From ee8ab346fb71e071251e72b09d1d55e5ee13ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 10/66] fix: tarfs: report sparse files as regular files in
 directory entries

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index d3028fb..08061a6 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -373,7 +373,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From 946c7b3e86577d07062d8b6f6c12fa45c934a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 11/66] fix: tarfs: report errors that occur while finishing
 the archive

---
 tarfs/create.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..437e8bb 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -19,9 +19,14 @@ import (
 )
 
 // Create creates a tar archive from the given filesystem.
-func Create(dst io.Writer, src fs.FS) error {
+func Create(dst io.Writer, src fs.FS) (err error) {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
+	defer func() {
+		// Closing writes the final padding and the end of archive marker.
+		if closeErr := tw.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
-- 
2.43.0


From 5272ae68b4dfa69476381d9431603d6235ca73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 12/66] fix: tarfs: don't panic when opening a directory,
 return a listable handle

---
 internal/dirfile/dirfile.go | 72 +++++++++++++++++++++++++++++++++++++
 tarfs/tarfs.go              |  7 ++++
 2 files changed, 79 insertions(+)
 create mode 100644 internal/dirfile/dirfile.go

diff --git a/internal/dirfile/dirfile.go b/internal/dirfile/dirfile.go
new file mode 100644
index 0000000..e091028
--- /dev/null
+++ b/internal/dirfile/dirfile.go
@@ -0,0 +1,72 @@
+// SPDX-License-Identifier: MPL-2.0
+/*
+ * Copyright (C) 2024 Damian Peckett <damian@pecke.tt>.
+ *
+ * This Source Code Form is subject to the terms of the Mozilla Public
+ * License, v. 2.0. If a copy of the MPL was not distributed with this
+ * file, You can obtain one at http://mozilla.org/MPL/2.0/.
+ */
+
+// Package dirfile implements the handle of an open, read-only, directory.
+package dirfile
+
+import (
+	"io"
+	"io/fs"
+)
+
+var _ fs.ReadDirFile = (*File)(nil)
+
+// File is an open directory.
+type File struct {
+	info    fs.FileInfo
+	list    func() ([]fs.DirEntry, error)
+	entries []fs.DirEntry
+	listed  bool
+}
+
+// New returns a handle for the directory described by info, list is called
+// to obtain the directory entries the first time that they are needed.
+func New(info fs.FileInfo, list func() ([]fs.DirEntry, error)) *File {
+	return &File{info: info, list: list}
+}
+
+// Stat returns a FileInfo describing the directory.
+func (f *File) Stat() (fs.FileInfo, error) {
+	return f.info, nil
+}
+
+// Read reads nothing, a directory has no content.
+func (f *File) Read([]byte) (int, error) {
+	return 0, io.EOF
+}
+
+// Close closes the directory.
+func (f *File) Close() error {
+	return nil
+}
+
+// ReadDir implements fs.ReadDirFile.
+func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
+	if !f.listed {
+		entries, err := f.list()
+		if err != nil {
+			return nil, err
+		}
+
+		f.entries, f.listed = entries, true
+	}
+
+	if n > 0 && len(f.entries) == 0 {
+		return nil, io.EOF
+	}
+
+	if n <= 0 || n > len(f.entries) {
+		n = len(f.entries)
+	}
+
+	page := append([]fs.DirEntry{}, f.entries[:n]...)
+	f.entries = f.entries[n:]
+
+	return page, nil
+}
diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 08061a6..39b7131 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -20,6 +20,7 @@ import (
 	"strings"
 
 	"github.com/dpeckett/archivefs"
+	"github.com/dpeckett/archivefs/internal/dirfile"
 )
 
 var (
@@ -158,6 +159,12 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	if d.IsDir() {
+		return dirfile.New(d.FileInfo(), func() ([]fs.DirEntry, error) {
+			return fsys.ReadDir(name)
+		}), nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From b327bf114cf1d951a69dfc3175c4bb81bd556084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 13/66] fix: arfs: the root directory can be opened

---
 arfs/arfs.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index b0cb840..a368bff 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -42,6 +42,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+
+	"github.com/dpeckett/archivefs/internal/dirfile"
 )
 
 var (
@@ -131,6 +133,17 @@ func Open(ra io.ReaderAt) (*FS, error) {
 func (fsys *FS) Open(name string) (fs.File, error) {
 	name = sanitizePath(name)
 
+	if name == "" {
+		fi, err := fsys.Stat(".")
+		if err != nil {
+			return nil, err
+		}
+
+		return dirfile.New(fi, func() ([]fs.DirEntry, error) {
+			return fsys.ReadDir(".")
+		}), nil
+	}
+
 	e, ok := fsys.entries[name]
 	if !ok {
 		return nil, fs.ErrNotExist
-- 
2.43.0


From 8171025ed017e9d7676c69a590c8841bec0f92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 14/66] fix: arfs: refuse to archive anything that isn't a
 regular file

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..783536b 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -44,6 +44,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		if !fi.Mode().IsRegular() {
+			return fmt.Errorf("unsupported file type: %s: %s", d.Name(), fi.Mode())
+		}
+
 		hdr, err := tar.FileInfoHeader(fi, "")
 		if err != nil {
 			return err
-- 
2.43.0


From 13d86fdf9f2f420bc5cd264fccef6a2acf3699f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 15/66] fix: arfs: refuse names and values that do not fit in a
 member header

---
 arfs/create.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 783536b..6654551 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -74,6 +74,9 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
+	if name == "" || name != hdr.Name {
+		return fmt.Errorf("unsupported file name: %q", hdr.Name)
+	}
 
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
@@ -86,6 +89,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		fmt.Sprintf("%-10d", hdr.Size),
 	)
 
+	// A value that is wider than its field would shift all of the fields after it.
+	if len(arHeader) != 60 {
+		return fmt.Errorf("header field too wide: %s", name)
+	}
+
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
 		return err
-- 
2.43.0


From 18be84862cf4e48a8ee6f3c75219ccb249c9dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 16/66] fix: arfs: report files that are longer or shorter than
 their size

---
 arfs/create.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 6654551..28f6169 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -115,6 +115,9 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 	if err != nil {
 		return err
 	}
+	if n != size {
+		return fmt.Errorf("unexpected size of %s: %d, expected: %d", path, n, size)
+	}
 
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
-- 
2.43.0


From 2506079b713bd7c18afbf3cdeb52d52519740673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 17/66] fix: arfs: preserve owners when the source is an ar
 archive

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 28f6169..a1ae595 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -53,6 +53,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// The tar package doesn't know about the owner of our own entries.
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
-- 
2.43.0


From de4256139c104183c4da27d529227f0983e3dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 18/66] fix: arfs: pad names that are not ASCII to the right
 number of bytes

---
 arfs/create.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index a1ae595..3c5581e 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -85,8 +86,8 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
+		"%s%-12s%-6s%-6s%-8s%-10s`\n",
+		name+strings.Repeat(" ", 16-len(name)), // Sprintf would count runes, not bytes.
 		strconv.Itoa(int(hdr.ModTime.Unix())),
 		strconv.Itoa(hdr.Uid),
 		strconv.Itoa(hdr.Gid),
-- 
2.43.0


From 21a138576e3582ab9c3b39732e9f60a98f52a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 19/66] fix: memfs: release the directory lock when MkdirAll
 fails

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From 92b920b05fb954a937f9d218b4fcb66f2473a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 20/66] fix: memfs: publish files complete, and copy their
 contents

---
 memfs/memfs.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..32dc217 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -220,8 +220,8 @@ func (rootFS *FS) create(path string) (*File, error) {
 
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,13 +241,9 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
-	return nil
+	// The file must be complete before it becomes visible to others.
+	_, err := rootFS.create(path, data, perm)
+	return err
 }
 
 // Open opens the named file.
-- 
2.43.0


From 2c1cabdbb39a4e502473c4259399a17498760d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 21/66] fix: memfs: keep the permissions of a file that is
 overwritten, as documented

---
 memfs/memfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 32dc217..429e376 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -212,10 +212,12 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		// Permissions of existing files don't change.
+		perm = existingFile.perm
 	}
 
 	newFile := &File{
-- 
2.43.0


From a92b2939a09c1ea4f170fbf1013b10c84dd8852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 22/66] fix: memfs: reading from a handle must not change the
 size it reports

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 429e376..50fee77 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -224,6 +224,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 		name:    filePart,
 		perm:    perm,
 		content: bytes.NewBuffer(bytes.Clone(data)),
+		size:    int64(len(data)),
 	}
 	dir.children[filePart] = newFile
 
@@ -274,6 +275,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 			name:    cc.name,
 			perm:    cc.perm,
 			content: bytes.NewBuffer(cc.content.Bytes()),
+			size:    cc.size,
 		}
 		return handle, nil
 	case *dir:
@@ -373,6 +375,7 @@ type File struct {
 	name    string
 	perm    os.FileMode
 	content *bytes.Buffer
+	size    int64
 	modTime time.Time
 	closed  bool
 }
@@ -383,7 +386,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From ffc1590e87cf2372a0b806eb8d2258e79cd1db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 23/66] fix: memfs: DirEntry.Type returns only the type bits

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 50fee77..4c593bc 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -461,7 +461,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From 53603626c65050e7dc1d68dc65872b4db461be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 24/66] fix: memfs: Sub accepts the root directory

---
 memfs/memfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 4c593bc..fefaf10 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -290,6 +290,11 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 789f6133e679a5ea8d4802638234d3bddc68118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 25/66] fix: memfs: list directories in order, in pages that
 neither repeat entries nor never end

---
 memfs/memfs.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index fefaf10..74b98d0 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -311,8 +313,9 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir   *dir
+	names []string // snapshot of the names in the directory
+	idx   int
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -337,18 +340,26 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	d.dir.mu.Lock()
 	defer d.dir.mu.Unlock()
 
-	names := make([]string, 0, len(d.dir.children))
-	for name := range d.dir.children {
-		names = append(names, name)
+	if d.names == nil {
+		d.names = make([]string, 0, len(d.dir.children))
+		for name := range d.dir.children {
+			d.names = append(d.names, name)
+		}
+		sort.Strings(d.names)
+	}
+	names := d.names[d.idx:]
+
+	if n > 0 && len(names) == 0 {
+		return nil, io.EOF
 	}
 
-	if n <= 0 {
+	if n <= 0 || n > len(names) {
 		n = len(names)
 	}
 
 	out := make([]fs.DirEntry, 0, n)
 
-	for i := d.idx; i < n && i < len(names); i++ {
+	for i := 0; i < n; i++ {
 		name := names[i]
 		child := d.dir.children[name]
 
@@ -371,7 +382,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			})
 		}
 
-		d.idx = i
+		d.idx++
 	}
 	return out, nil
 }
-- 
2.43.0


From 61f790b1a6f430457aab1a270b134cdde949aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 26/66] fix: erofs: don't mark empty files as inlined, the
 reader rejects them

---
 erofs/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..193b488 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,8 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		// Only non-empty data can be inlined, a file without data has no tail.
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From 1e62a80aeabb5ee3a23cfab8323d87cd25ed30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 27/66] fix: erofs: order all directory entries by name, point
 '.' and '..' at the right inodes

---
 erofs/writer.go | 80 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 193b488..cd60928 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -18,7 +18,8 @@ import (
 	"io/fs"
 	"math"
 	"os"
-	"path/filepath"
+	slashpath "path"
+	"sort"
 	"time"
 )
 
@@ -335,37 +336,49 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
+		type namedDirent struct {
+			name string
+			Dirent
+		}
 
-		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+		self, err := w.nidForPath(path)
+		if err != nil {
+			return nil, 0, err
 		}
 
-		for _, de := range entries {
-			path := filepath.Clean(filepath.Join(path, de.Name()))
+		// The root directory is its own parent.
+		parent, err := w.nidForPath(slashpath.Dir(path))
+		if err != nil {
+			return nil, 0, err
+		}
 
-			ino, ok := w.inodes[path]
-			if !ok {
-				return nil, 0, fmt.Errorf("failed to find inode for path %q", path)
-			}
+		children := []namedDirent{
+			{".", Dirent{Nid: self, FileType: FT_DIR}},
+			{"..", Dirent{Nid: parent, FileType: FT_DIR}},
+		}
 
-			var nid uint32
-			switch ino := ino.(type) {
-			case InodeCompact:
-				nid = ino.Ino
-			case InodeExtended:
-				nid = ino.Ino
-			default:
-				return nil, 0, fmt.Errorf("unsupported inode type %T", ino)
+		for _, de := range entries {
+			nid, err := w.nidForPath(slashpath.Join(path, de.Name()))
+			if err != nil {
+				return nil, 0, err
 			}
 
-			dirents = append(dirents, Dirent{
-				Nid:      uint64(nid),
-				FileType: uint8(fileTypeFromFileMode(de.Type())),
-			})
-			names = append(names, de.Name())
+			children = append(children, namedDirent{de.Name(), Dirent{
+				Nid:      nid,
+				FileType: fileTypeFromFileMode(de.Type()),
+			}})
+		}
+
+		// Directory entries (including "." and "..") are strictly ordered by name.
+		sort.Slice(children, func(i, j int) bool {
+			return children[i].name < children[j].name
+		})
+
+		var dirents []Dirent
+		var names []string
+		for _, child := range children {
+			dirents = append(dirents, child.Dirent)
+			names = append(names, child.name)
 		}
 
 		buf, err := encodeDirents(dirents, names)
@@ -395,6 +408,23 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+// nidForPath returns the inode number that was allocated to a path.
+func (w *writer) nidForPath(path string) (uint64, error) {
+	ino, ok := w.inodes[path]
+	if !ok {
+		return 0, fmt.Errorf("failed to find inode for path %q", path)
+	}
+
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return uint64(ino.Ino), nil
+	case InodeExtended:
+		return uint64(ino.Ino), nil
+	default:
+		return 0, fmt.Errorf("unsupported inode type %T", ino)
+	}
+}
+
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-- 
2.43.0


From 987969b92dcadd0c1ec4e07539c6feeb68c0b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 28/66] fix: erofs: refuse names and symlink targets that are
 too long to be read back

---
 erofs/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index cd60928..02eb8e8 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -358,6 +358,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		}
 
 		for _, de := range entries {
+			if len(de.Name()) > MaxNameLen {
+				return nil, 0, fmt.Errorf("file name %q is too long", de.Name())
+			}
+
 			nid, err := w.nidForPath(slashpath.Join(path, de.Name()))
 			if err != nil {
 				return nil, 0, err
@@ -399,6 +403,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
 
+		// Targets are held in a single block, together with a terminator.
+		if len(target) >= BlockSize {
+			return nil, 0, fmt.Errorf("target of symlink %q is too long", path)
+		}
+
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
 	// TODO: device files, named pipes, sockets, etc.
-- 
2.43.0


From f2cd1c5479fbb28fd85181de4a2f6cab5e8f2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 29/66] fix: erofs: accept directory blocks with more than 255
 bytes of padding

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..d147f34 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -690,6 +690,10 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 	var nameLen uint32
 	if lastDirent {
 		nameLen = block.size - uint32(d.NameOff)
+		if uint32(d.NameOff) < block.size && nameLen > MaxNameLen {
+			// The rest of the block is padding.
+			nameLen = MaxNameLen
+		}
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
-- 
2.43.0


From 8975366c7d9d23473402c6509a533b5019bb6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 30/66] fix: erofs: reject directory entries whose name
 contains a slash

---
 erofs/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index d147f34..980cdd6 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -719,6 +719,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			name = name[:n]
 		}
 	}
+	if bytes.IndexByte(name, '/') != -1 {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From 4dcc08b5295e1f75c610e0c8a4542de68e18cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 31/66] fix: erofs: return errors when an inode can't be read,
 instead of panicking

---
 erofs/constants.go | 21 +++++++++++++++++++++
 erofs/erofs.go     | 24 ++++++++++++++----------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..05570b7 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -43,6 +43,27 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 	}
 }
 
+func fileModeFromFileType(typ uint8) fs.FileMode {
+	switch typ {
+	case FT_REG_FILE:
+		return 0
+	case FT_DIR:
+		return fs.ModeDir
+	case FT_SYMLINK:
+		return fs.ModeSymlink
+	case FT_BLKDEV:
+		return fs.ModeDevice
+	case FT_CHRDEV:
+		return fs.ModeDevice | fs.ModeCharDevice
+	case FT_FIFO:
+		return fs.ModeNamedPipe
+	case FT_SOCK:
+		return fs.ModeSocket
+	default:
+		return fs.ModeIrregular
+	}
+}
+
 // Values for mode_t.
 const (
 	S_IFMT   = 0170000
diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..f44ad03 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -236,12 +236,12 @@ func (f *file) Stat() (fs.FileInfo, error) {
 }
 
 type dirEntry struct {
-	image         *Image
-	name          string
-	typ           uint8
-	nid           uint64
-	readInodeOnce sync.Once
-	inode         *Inode
+	image   *Image
+	name    string
+	typ     uint8
+	nid     uint64
+	inodeMu sync.Mutex
+	inode   *Inode
 }
 
 func (de *dirEntry) Name() string {
@@ -255,7 +255,8 @@ func (de *dirEntry) IsDir() bool {
 func (de *dirEntry) Type() fs.FileMode {
 	ino, err := de.getInode()
 	if err != nil {
-		return 0
+		// The directory entry still knows what type of file it is.
+		return fileModeFromFileType(de.typ)
 	}
 
 	return ino.Mode()
@@ -294,13 +295,16 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 }
 
 func (de *dirEntry) getInode() (Inode, error) {
-	de.readInodeOnce.Do(func() {
+	de.inodeMu.Lock()
+	defer de.inodeMu.Unlock()
+
+	if de.inode == nil {
 		ino, err := de.image.Inode(de.nid)
 		if err != nil {
-			panic(err)
+			return Inode{}, err
 		}
 		de.inode = &ino
-	})
+	}
 
 	return *de.inode, nil
 }
-- 
2.43.0


From b4ccf587b5ced5b7690669f308a745967082b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 32/66] fix: erofs: reject impossible block sizes, verify the
 checksum for all possible ones

---
 erofs/reader.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 980cdd6..732d772 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -49,6 +49,10 @@ const (
 	// Inode slot size in bit shift.
 	InodeSlotBits = 5
 
+	// Supported block sizes in bit shift.
+	minBlockSizeBits = 9
+	maxBlockSizeBits = 16
+
 	// Max file name length.
 	MaxNameLen = 255
 )
@@ -228,6 +232,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if i.sb.BlockSizeBits < minBlockSizeBits || i.sb.BlockSizeBits > maxBlockSizeBits {
+		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -257,8 +265,10 @@ func (i *Image) verifyChecksum() error {
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
 	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
-		return errors.New("image size is too small")
+	// The checksum covers the rest of the block that holds the superblock.
+	end := roundUp(SuperBlockOffset+1, int64(i.BlockSize()))
+	if buf, err := i.bytesAt(off, end-off); err != nil {
+		return fmt.Errorf("image size is too small: %w", err)
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
 	}
-- 
2.43.0


From 8bf5931a07700012e046630230834d1543992c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 33/66] fix: erofs: reject inodes whose size overflows

---
 erofs/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 732d772..616b872 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -428,6 +429,10 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 		return Inode{}, fmt.Errorf("unsupported layout at inode %d", nid)
 	}
 
+	if inode.size > math.MaxInt64/2 {
+		return Inode{}, fmt.Errorf("invalid size at inode %d: %d", nid, inode.size)
+	}
+
 	blockSize := int64(i.BlockSize())
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
-- 
2.43.0


From 45a85f12adf921d0eabd3bf7c53eda8f48a6d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 34/66] fix: erofs: tell a truncated image from the end of a
 file, accept readers that return EOF with the last bytes

---
 erofs/reader.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 616b872..5049bdb 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -461,8 +461,8 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
-		return nil, err
+	if read, err := i.src.ReadAt(buf, off); read < len(buf) {
+		return nil, noEOF(err)
 	}
 	return buf, nil
 }
@@ -470,12 +470,21 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 func (i *Image) unmarshalFrom(off int64, data any) error {
 	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
 		binary.LittleEndian, data); err != nil {
-		return err
+		return noEOF(err)
 	}
 
 	return nil
 }
 
+// noEOF is used when the image ends before the data that it should contain,
+// callers would take a plain io.EOF for the regular end of a file.
+func noEOF(err error) error {
+	if err == nil || err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // checkInodeAlignment checks whether off matches inode's alignment requirement.
 func checkInodeAlignment(off int64) bool {
 	// Each valid inode should be aligned with an inode slot, which is
-- 
2.43.0


From 225a7b02ec8105631735e075e03acace4ffb46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 35/66] fix: erofs: report setuid, setgid and sticky bits, and
 character devices

---
 erofs/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 5049bdb..9fec4af 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -603,11 +603,20 @@ func (ino *Inode) MtimeNsec() uint32 {
 func (ino *Inode) Mode() fs.FileMode {
 	mode := fs.FileMode(ino.mode) & fs.ModePerm
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
 	if ino.IsDir() {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From d5322b73227d07bcf827d596b63ee7381baf344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 36/66] fix: erofs: don't record character devices and
 irregular files as regular files

---
 erofs/constants.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 05570b7..2d6edbe 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -89,13 +89,13 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
-- 
2.43.0


From 71c7ee6a1293aa247556317e72ef028dd26b418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 37/66] fix: erofs: report the nanoseconds of modification
 times

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index f44ad03..8e35365 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -328,7 +328,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From f947ee395b6adee484a914301eb5b94370d61dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 38/66] fix: erofs: report an error when the image ends before
 the data of a file

---
 erofs/reader.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 9fec4af..70146d2 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -648,7 +648,10 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return &dataReader{
+			r:         io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)),
+			remaining: int64(ino.size),
+		}, nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
@@ -657,13 +660,29 @@ func (ino *Inode) Data() (io.Reader, error) {
 			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
 		}
 		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
-		return io.MultiReader(readers...), nil
+		return &dataReader{r: io.MultiReader(readers...), remaining: int64(ino.size)}, nil
 
 	default:
 		return nil, errors.New("unsupported data layout")
 	}
 }
 
+// dataReader reads the data of an inode, it is an error if the image ends
+// before all of the data has been read.
+type dataReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func (d *dataReader) Read(p []byte) (int, error) {
+	n, err := d.r.Read(p)
+	d.remaining -= int64(n)
+	if err == io.EOF && d.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // blockData represents the information of the data in a block.
 type blockData struct {
 	// base indicates the data offset within the image.
-- 
2.43.0


From d784834a38f4281af7946c326a84ae580479ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 39/66] fix: erofs: directories can be opened and listed
 through their handle

---
 erofs/erofs.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 8e35365..d6cc305 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -33,6 +33,8 @@ import (
 	"strings"
 	"sync"
 	"time"
+
+	"github.com/dpeckett/archivefs/internal/dirfile"
 )
 
 var (
@@ -69,6 +71,17 @@ func (fsys *Filesystem) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	fi, err := de.Info()
+	if err != nil {
+		return nil, err
+	}
+
+	if fi.IsDir() {
+		return dirfile.New(fi, func() ([]fs.DirEntry, error) {
+			return de.readDir()
+		}), nil
+	}
+
 	return &file{
 		image: fsys.image,
 		de:    de,
@@ -85,6 +98,11 @@ func (fsys *Filesystem) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, errors.New("not a directory")
 	}
 
+	return de.readDir()
+}
+
+// readDir returns the entries of a directory.
+func (de *dirEntry) readDir() ([]fs.DirEntry, error) {
 	ino, err := de.getInode()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 200f373f1b135dbd3b9f448d8a03f34a3c93537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 40/66] fix: erofs: follow symlinks relative to their
 directory, detect loops

---
 erofs/erofs.go | 60 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index d6cc305..cbecfbb 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -27,6 +27,7 @@ package erofs
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -59,6 +60,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
@@ -184,11 +186,47 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 	}, nil
 }
 
+// maxSymlinks is the maximum number of symlinks followed by a single lookup.
+const maxSymlinks = 255
+
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
-	de := fsys.root
+	var links int
+	trail, err := fsys.walk([]*dirEntry{fsys.root}, name, noResolveLastSymlink, &links)
+	if err != nil {
+		return nil, err
+	}
+
+	return trail[len(trail)-1], nil
+}
+
+// walk follows a path, starting at the end of the trail (the directories that
+// lead from the root to the current directory), and returns the new trail.
+func (fsys *Filesystem) walk(trail []*dirEntry, name string, noResolveLastSymlink bool, links *int) ([]*dirEntry, error) {
+	// Never modify the trail of the caller.
+	trail = trail[:len(trail):len(trail)]
 
 	components := splitPath(name)
 	for i, comp := range components {
+		de := trail[len(trail)-1]
+
+		if comp == "." || comp == ".." {
+			ino, err := de.getInode()
+			if err != nil {
+				return nil, err
+			}
+
+			if !ino.IsDir() {
+				return nil, fs.ErrNotExist
+			}
+
+			// The parent of the root is the root.
+			if comp == ".." && len(trail) > 1 {
+				trail = trail[: len(trail)-1 : len(trail)-1]
+			}
+
+			continue
+		}
+
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
@@ -200,27 +238,33 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 		}
 
 		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+			if *links++; *links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
-			link = filepath.Clean(link)
 
+			// Targets are relative to the directory that holds the symlink.
+			from := trail
 			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+				from = trail[:1]
 			}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
+			trail, err = fsys.walk(from, link, false, links)
 			if err != nil {
 				return nil, err
 			}
+
+			continue
 		}
 
-		de = child
+		trail = append(trail, child)
 	}
-	return de, nil
+
+	return trail, nil
 }
 
 type file struct {
-- 
2.43.0


From 20adc3ce3d0ed496098d5ee338fdaaa2756b5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 41/66] fix: erofs: preserve owners when the source is an EROFS
 image

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..d9b3d66 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -31,6 +31,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..3d1fd19 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -24,6 +24,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
-- 
2.43.0


From 411930e46b55126fb157ab05010e270b935220d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 42/66] fix: erofs: refuse owners that don't fit in an inode

---
 erofs/writer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 02eb8e8..8cd6b4e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -288,7 +288,12 @@ func (w *writer) populateInodes() error {
 			nlink = len(entries) + 2
 		}
 
-		w.inodes[path] = toInode(fi, nlink)
+		ino, err := toInode(fi, nlink)
+		if err != nil {
+			return fmt.Errorf("failed to create inode for %q: %w", path, err)
+		}
+
+		w.inodes[path] = ino
 		w.inodeOrder = append(w.inodeOrder, path)
 
 		return nil
@@ -434,8 +439,11 @@ func (w *writer) nidForPath(path string) (uint64, error) {
 	}
 }
 
-func toInode(fi fs.FileInfo, nlink int) any {
+func toInode(fi fs.FileInfo, nlink int) (any, error) {
 	uid, gid := getOwner(fi)
+	if int64(uid) < 0 || int64(uid) > math.MaxUint32 || int64(gid) < 0 || int64(gid) > math.MaxUint32 {
+		return nil, fmt.Errorf("owner %d:%d out of range", uid, gid)
+	}
 
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
@@ -449,7 +457,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 			Nlink:  uint16(nlink),
 			UID:    uint16(uid),
 			GID:    uint16(gid),
-		}
+		}, nil
 	}
 
 	return InodeExtended{
@@ -460,7 +468,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 		GID:       uint32(gid),
 		Mtime:     uint64(fi.ModTime().Unix()),
 		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
-	}
+	}, nil
 }
 
 func encodeDirents(dirents []Dirent, names []string) ([]byte, error) {
-- 
2.43.0


From eabe03b1bd0b175c1a7ad0a3b3e49c827097435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 43/66] fix: erofs: report files that are longer or shorter
 than their size

---
 erofs/writer.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 8cd6b4e..80353c1 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -220,7 +220,7 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			err = copyData(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data, ino)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
@@ -255,7 +255,7 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		err = copyData(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data, ino)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
@@ -422,6 +422,41 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+// copyData writes the data of an inode, which must be exactly as long as the
+// space that was laid out for it.
+func copyData(dst io.Writer, data io.Reader, ino any) error {
+	var size int64
+	switch ino := ino.(type) {
+	case InodeCompact:
+		size = int64(ino.Size)
+	case InodeExtended:
+		size = int64(ino.Size)
+	default:
+		return fmt.Errorf("unsupported inode type %T", ino)
+	}
+
+	n, err := io.Copy(dst, io.LimitReader(data, size))
+	if err != nil {
+		return err
+	}
+
+	if n < size {
+		return fmt.Errorf("expected %d bytes, got %d: %w", size, n, io.ErrUnexpectedEOF)
+	}
+
+	// Is there more data than expected?
+	extra, err := io.Copy(io.Discard, io.LimitReader(data, 1))
+	if err != nil {
+		return err
+	}
+
+	if extra > 0 {
+		return fmt.Errorf("expected %d bytes, got more", size)
+	}
+
+	return nil
+}
+
 // nidForPath returns the inode number that was allocated to a path.
 func (w *writer) nidForPath(path string) (uint64, error) {
 	ino, ok := w.inodes[path]
-- 
2.43.0


From 25471668254511a52fab8b43825e4f2717e89bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 44/66] fix: erofs: the image must be valid when the
 destination isn't empty

---
 erofs/writer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 80353c1..3e67d8b 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -82,7 +82,17 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate superblock checksum: %w", err)
 	}
 
-	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
+	// Write all of the first block, the destination might not be empty and the
+	// checksum assumes that the remainder of the block is zeroes.
+	var marshalledSb bytes.Buffer
+	if err := binary.Write(&marshalledSb, binary.LittleEndian, &sb); err != nil {
+		return fmt.Errorf("failed to marshal superblock: %w", err)
+	}
+
+	firstBlock := make([]byte, BlockSize)
+	copy(firstBlock[SuperBlockOffset:], marshalledSb.Bytes())
+
+	if _, err := w.dst.WriteAt(firstBlock, 0); err != nil {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
-- 
2.43.0


From 47415ace2305f53cf6092c0f74a8148cb13d574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 45/66] fix: erofs: refuse files with a negative size

---
 erofs/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 3e67d8b..fb87a07 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -116,6 +116,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
+		if size < 0 {
+			return metaSize, dataSize, fmt.Errorf("invalid size of %q: %d", path, size)
+		}
+
 		// Only non-empty data can be inlined, a file without data has no tail.
 		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
-- 
2.43.0


From 00ba5a75737abbed17dacb3bd103464b7f79937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 46/66] fix: tarfs: StatLink knows about the root directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 39b7131..b114e75 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -245,6 +245,10 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
+	if sanitizePath(name) == "" {
+		return fsys.Stat(name)
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 885283c6305b47468ba84672ef8a90fd3706510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 47/66] fix: tarfs: don't expand the holes of sparse files when
 opening an archive

---
 tarfs/tarfs.go | 77 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b114e75..5230799 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -39,10 +40,13 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	tr := tar.NewReader(r)
 
 	dirents := map[string]*dirent{}
-	for {
-		// round to next 512 byte boundary.
-		begin := (r.offset + 511) &^ 511
 
+	var (
+		begin int64 // where to begin reading to get to the next entry.
+		skip  int   // how many entries are to be skipped from there.
+	)
+
+	for {
 		h, err := tr.Next()
 		if err != nil {
 			if errors.Is(err, io.EOF) {
@@ -54,6 +58,11 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 		switch h.Typeflag {
 		case tar.TypeReg, tar.TypeGNUSparse:
+			// The contents of a sparse file can be much larger than the archive.
+			if isSparse(h) {
+				break
+			}
+
 			// Discard the file contents (so that the reader is consumed).
 			if _, err := io.Copy(io.Discard, tr); err != nil {
 				return nil, fmt.Errorf("failed to read file %s: %w", h.Name, err)
@@ -61,11 +70,29 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink:
 			// NOP
 		case tar.TypeXGlobalHeader:
-			continue // Ignore metadata-only entries.
+			// Ignore metadata-only entries.
 		default:
 			return nil, fmt.Errorf("unsupported file type: %s, %c", h.Name, h.Typeflag)
 		}
 
+		data := func(begin int64, skip int) func() (io.Reader, error) {
+			return func() (io.Reader, error) {
+				return openEntry(ra, begin, skip)
+			}
+		}(begin, skip)
+
+		if isSparse(h) {
+			// Where the entry ends isn't known, as it hasn't been consumed.
+			skip++
+		} else {
+			// round to next 512 byte boundary.
+			begin, skip = (r.offset+511)&^511, 0
+		}
+
+		if h.Typeflag == tar.TypeXGlobalHeader {
+			continue
+		}
+
 		h.Name = sanitizePath(h.Name)
 
 		// there might be a junk root entry.
@@ -90,13 +117,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			}
 		}
 
-		size := r.offset - begin
-
 		dirents[h.Name] = &dirent{
 			Header: *h,
-			data: func() io.Reader {
-				return io.NewSectionReader(ra, begin, size)
-			},
+			data:   data,
 		}
 	}
 
@@ -165,12 +188,40 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		}), nil
 	}
 
-	tr := tar.NewReader(d.data())
-	if _, err := tr.Next(); err != nil {
+	r, err := d.data()
+	if err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
 	}
 
-	return &file{dirent: d, r: tr}, nil
+	return &file{dirent: d, r: r}, nil
+}
+
+// openEntry returns a reader for the contents of an entry, which is found by
+// skipping a number of entries from an offset in the archive.
+func openEntry(ra io.ReaderAt, begin int64, skip int) (io.Reader, error) {
+	tr := tar.NewReader(io.NewSectionReader(ra, begin, math.MaxInt64-begin))
+	for i := 0; i <= skip; i++ {
+		if _, err := tr.Next(); err != nil {
+			return nil, err
+		}
+	}
+
+	return tr, nil
+}
+
+// isSparse returns true if the contents of an entry are recorded with holes.
+func isSparse(h *tar.Header) bool {
+	if h.Typeflag == tar.TypeGNUSparse {
+		return true
+	}
+
+	for key := range h.PAXRecords {
+		if strings.HasPrefix(key, "GNU.sparse.") {
+			return true
+		}
+	}
+
+	return false
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -350,7 +401,7 @@ type dirent struct {
 	tar.Header
 	parent   *dirent
 	children map[string]*dirent
-	data     func() io.Reader
+	data     func() (io.Reader, error)
 }
 
 func (d *dirent) findChild(name string) (*dirent, bool) {
-- 
2.43.0


From 57530a710811c86efb72a8204586beae2863b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 48/66] fix: erofs: link counts above 65535 need an extended
 inode

---
 erofs/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index fb87a07..ce1b6f2 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -497,6 +497,7 @@ func toInode(fi fs.FileInfo, nlink int) (any, error) {
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
+		nlink <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
 	if compact {
-- 
2.43.0


From ce9545e898e135f66512a1f3ced3e6bf0ea59e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 49/66] fix: erofs: extended inodes of files without a
 modification time

---
 erofs/writer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ce1b6f2..7ea678b 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -498,7 +498,7 @@ func toInode(fi fs.FileInfo, nlink int) (any, error) {
 	compact := fi.Size() <= math.MaxUint32 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
 		nlink <= math.MaxUint16 &&
-		fi.ModTime() == time.Time{}
+		fi.ModTime().IsZero()
 
 	if compact {
 		return InodeCompact{
@@ -510,14 +510,20 @@ func toInode(fi fs.FileInfo, nlink int) (any, error) {
 		}, nil
 	}
 
+	// Without a time it's the epoch, just like for compact inodes.
+	modTime := fi.ModTime()
+	if modTime.IsZero() {
+		modTime = time.Unix(0, 0)
+	}
+
 	return InodeExtended{
 		Format:    setBits(0, InodeLayoutExtended, InodeLayoutBit, InodeLayoutBits),
 		Mode:      statModeFromFileMode(fi.Mode()),
 		Nlink:     uint32(nlink),
 		UID:       uint32(uid),
 		GID:       uint32(gid),
-		Mtime:     uint64(fi.ModTime().Unix()),
-		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
+		Mtime:     uint64(modTime.Unix()),
+		MtimeNsec: uint32(modTime.Nanosecond()),
 	}, nil
 }
 
-- 
2.43.0


From eeadc0bf09da2ddf17081519abce07147e77dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 50/66] fix: arfs: listing an absent directory reports that it
 doesn't exist

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index a368bff..f329f48 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -156,6 +156,10 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 	name = sanitizePath(name)
 	if name != "" {
+		if _, ok := fsys.entries[name]; !ok {
+			return nil, fs.ErrNotExist
+		}
+
 		return nil, errors.New("ar does not support directories")
 	}
 
-- 
2.43.0


From b24aae81b754dcb768fb21b44510646978254cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 51/66] fix: arfs: look names up as given, without trimming
 blanks

---
 arfs/arfs.go   | 4 ++--
 arfs/create.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index f329f48..8231cf3 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -214,7 +214,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: sanitizePath(strings.TrimSpace(string(line[0:16]))),
 		FileMode: fileMode,
 	}
 
@@ -258,7 +258,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(strings.TrimSpace(name)))), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 type file struct {
diff --git a/arfs/create.go b/arfs/create.go
index 3c5581e..d3c375b 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -80,7 +80,7 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
-	if name == "" || name != hdr.Name {
+	if name == "" || name != hdr.Name || name != strings.TrimSpace(name) {
 		return fmt.Errorf("unsupported file name: %q", hdr.Name)
 	}
 
-- 
2.43.0


From ec868903ea30aa119c3a964de8b2de42eb0a2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 52/66] fix: tarfs: ReadLink and StatLink of a path with
 trailing slashes

---
 tarfs/tarfs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 5230799..54da092 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -275,6 +275,8 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
+	name = sanitizePath(name)
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return "", err
@@ -296,7 +298,9 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
-	if sanitizePath(name) == "" {
+	name = sanitizePath(name)
+
+	if name == "" {
 		return fsys.Stat(name)
 	}
 
-- 
2.43.0


From 5526da902f69a45a94a66fa2c6d44ebe24ffa442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 53/66] fix: erofs: refuse images whose directory blocks are
 larger than their blocks

---
 erofs/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 70146d2..7aaf6e1 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -119,7 +119,8 @@ type SuperBlock struct {
 	Union1          uint16    // Union for additional features
 	ExtraDevices    uint16    // Number of extra devices
 	DevTableSlotOff uint16    // Device table slot offset
-	Reserved        [38]uint8 // Reserved for future use
+	DirBlockBits    uint8     // Directory block size in bit shift, relative to the block size
+	Reserved        [37]uint8 // Reserved for future use
 }
 
 // BlockSize returns the block size.
@@ -237,6 +238,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
 	}
 
+	if i.sb.DirBlockBits != 0 {
+		return fmt.Errorf("unsupported directory block size bits: %d", i.sb.DirBlockBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
-- 
2.43.0


From b767406b76133772dcd9764905b3c0026e283627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 54/66] fix: erofs: read symlink targets that span several
 blocks

---
 erofs/reader.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 7aaf6e1..448d733 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -919,29 +919,26 @@ func (ino *Inode) IterDirents(cb func(name string, typ uint8, nid uint64) error)
 	return nil
 }
 
+// maxTargetLen is the maximum length of the target of a symbolic link.
+const maxTargetLen = 1<<16 - 1
+
 // Readlink reads the link target.
 func (ino *Inode) Readlink() (string, error) {
 	if !ino.IsSymlink() {
 		return "", fs.ErrInvalid
 	}
-	off := int64(ino.dataOff)
-	size := int64(ino.size)
-	if ino.idataOff != 0 {
-		// Inline symlink data shouldn't cross block boundary.
-		if ino.blocks > 1 {
-			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
-		}
-		off = int64(ino.idataOff)
-	} else {
-		// This matches Linux's behaviour in fs/namei.c:page_get_link() and
-		// include/linux/namei.h:nd_terminate_link().
-		if size > int64(ino.image.BlockSize())-1 {
-			size = int64(ino.image.BlockSize()) - 1
-		}
+	// Don't trust a size that no target can have.
+	if ino.size > maxTargetLen {
+		return "", fmt.Errorf("symlink target too long at inode %d", ino.Nid())
 	}
-	target, err := ino.image.bytesAt(off, size)
+	// A target may span several blocks if these are small.
+	r, err := ino.Data()
 	if err != nil {
 		return "", err
 	}
+	target := make([]byte, ino.size)
+	if _, err := io.ReadFull(r, target); err != nil {
+		return "", noEOF(err)
+	}
 	return string(target), nil
 }
-- 
2.43.0


From 31ef53a78fe5e104045ec838f0bb59a2053d8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 55/66] fix: tarfs: open archives with very deep paths in
 reasonable time

---
 tarfs/tarfs.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 54da092..0448c4c 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -101,7 +101,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		// Create a default directory entry for each parent directory.
-		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
+		for dir := parentPath(h.Name); dir != "."; dir = parentPath(dir) {
 			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
 				continue
 			}
@@ -162,15 +162,20 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		},
 	}
 
+	placed := map[string]*dirent{".": &root}
+
 	for _, path := range paths {
-		d := dirents[path]
+		// The parent has been placed already, as it sorts before its children.
+		dir := placed[parentPath(path)]
 
-		dir, err := resolve(&root, filepath.Dir(path))
-		if err != nil {
-			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
+		if dir.Typeflag == tar.TypeSymlink {
+			var err error
+			if dir, err = resolve(&root, parentPath(path)); err != nil {
+				return nil, fmt.Errorf("failed to resolve directory %q: %w", parentPath(path), err)
+			}
 		}
 
-		dir.addChild(d)
+		placed[path] = dir.addChild(dirents[path])
 	}
 
 	return &FS{root: root}, nil
@@ -382,6 +387,16 @@ func sanitizePath(name string) string {
 	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
+// parentPath returns the directory of a sanitized path, which doesn't take
+// time in proportion to the length of the path.
+func parentPath(name string) string {
+	if i := strings.LastIndexByte(name, '/'); i >= 0 {
+		return name[:i]
+	}
+
+	return "."
+}
+
 type file struct {
 	*dirent
 	r io.Reader
@@ -413,7 +428,7 @@ func (d *dirent) findChild(name string) (*dirent, bool) {
 	return c, ok
 }
 
-func (d *dirent) addChild(child *dirent) {
+func (d *dirent) addChild(child *dirent) *dirent {
 	if d.children == nil {
 		d.children = make(map[string]*dirent)
 	}
@@ -424,9 +439,14 @@ func (d *dirent) addChild(child *dirent) {
 	// do we already have a child with the same name?
 	if existing, ok := d.children[c.Name()]; ok {
 		c.children = existing.children
+		*existing = c
+
+		return existing
 	}
 
 	d.children[c.Name()] = &c
+
+	return &c
 }
 
 func (d *dirent) Name() string {
-- 
2.43.0


From fe6be93adb6d8e0a0b46ca2b0b23a359f208c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 56/66] fix: erofs: walking a path doesn't copy the directories
 that lead to it

---
 erofs/erofs.go | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index cbecfbb..865e40a 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -191,24 +191,13 @@ const maxSymlinks = 255
 
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
 	var links int
-	trail, err := fsys.walk([]*dirEntry{fsys.root}, name, noResolveLastSymlink, &links)
-	if err != nil {
-		return nil, err
-	}
-
-	return trail[len(trail)-1], nil
+	return fsys.walk(fsys.root, name, noResolveLastSymlink, &links)
 }
 
-// walk follows a path, starting at the end of the trail (the directories that
-// lead from the root to the current directory), and returns the new trail.
-func (fsys *Filesystem) walk(trail []*dirEntry, name string, noResolveLastSymlink bool, links *int) ([]*dirEntry, error) {
-	// Never modify the trail of the caller.
-	trail = trail[:len(trail):len(trail)]
-
+// walk follows a path, starting from the directory de.
+func (fsys *Filesystem) walk(de *dirEntry, name string, noResolveLastSymlink bool, links *int) (*dirEntry, error) {
 	components := splitPath(name)
 	for i, comp := range components {
-		de := trail[len(trail)-1]
-
 		if comp == "." || comp == ".." {
 			ino, err := de.getInode()
 			if err != nil {
@@ -220,8 +209,8 @@ func (fsys *Filesystem) walk(trail []*dirEntry, name string, noResolveLastSymlin
 			}
 
 			// The parent of the root is the root.
-			if comp == ".." && len(trail) > 1 {
-				trail = trail[: len(trail)-1 : len(trail)-1]
+			if comp == ".." && de.parent != nil {
+				de = de.parent
 			}
 
 			continue
@@ -248,12 +237,12 @@ func (fsys *Filesystem) walk(trail []*dirEntry, name string, noResolveLastSymlin
 			}
 
 			// Targets are relative to the directory that holds the symlink.
-			from := trail
+			from := de
 			if strings.HasPrefix(link, "/") {
-				from = trail[:1]
+				from = fsys.root
 			}
 
-			trail, err = fsys.walk(from, link, false, links)
+			de, err = fsys.walk(from, link, false, links)
 			if err != nil {
 				return nil, err
 			}
@@ -261,10 +250,10 @@ func (fsys *Filesystem) walk(trail []*dirEntry, name string, noResolveLastSymlin
 			continue
 		}
 
-		trail = append(trail, child)
+		de = child
 	}
 
-	return trail, nil
+	return de, nil
 }
 
 type file struct {
@@ -299,6 +288,7 @@ func (f *file) Stat() (fs.FileInfo, error) {
 
 type dirEntry struct {
 	image   *Image
+	parent  *dirEntry // the directory it was looked up in, nil for the root.
 	name    string
 	typ     uint8
 	nid     uint64
@@ -349,10 +339,11 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 	}
 
 	return &dirEntry{
-		image: de.image,
-		name:  name,
-		nid:   d.Nid,
-		typ:   d.FileType,
+		image:  de.image,
+		parent: de,
+		name:   name,
+		nid:    d.Nid,
+		typ:    d.FileType,
 	}, nil
 }
 
-- 
2.43.0


From 835d1c221e3134d4093af62a6bcb6e25573a4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 57/66] fix: tarfs: a link target with a trailing slash must be
 a directory

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0448c4c..64c51e2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -377,6 +377,11 @@ func resolveFrom(root, d *dirent, name string, links *int) (*dirent, error) {
 					return nil, err
 				}
 			}
+
+			// A target with a trailing slash must be a directory.
+			if strings.HasSuffix(target, "/") && !d.IsDir() {
+				return nil, fs.ErrNotExist
+			}
 		}
 	}
 
-- 
2.43.0


From 6f89abdd71b1618f5f8ec393feb274f43e5b818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 58/66] fix: erofs: a link target with a trailing slash must be
 a directory

---
 erofs/erofs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 865e40a..6a29f94 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -247,6 +247,18 @@ func (fsys *Filesystem) walk(de *dirEntry, name string, noResolveLastSymlink boo
 				return nil, err
 			}
 
+			// A target with a trailing slash must be a directory.
+			if strings.HasSuffix(link, "/") {
+				ino, err := de.getInode()
+				if err != nil {
+					return nil, err
+				}
+
+				if !ino.IsDir() {
+					return nil, fs.ErrNotExist
+				}
+			}
+
 			continue
 		}
 
-- 
2.43.0


From 7c9a1113d8c24b55e5042512b9dfdd8d9a4a0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 59/66] fix: tarfs: a file opened through a symlink has the
 name it was opened by

---
 tarfs/tarfs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 64c51e2..4ab7f2d 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -187,6 +187,13 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	if sanitizePath(name) != "" {
+		// Use the original name (as we may be resolving a symlink).
+		renamed := *d
+		renamed.Header.Name = name
+		d = &renamed
+	}
+
 	if d.IsDir() {
 		return dirfile.New(d.FileInfo(), func() ([]fs.DirEntry, error) {
 			return fsys.ReadDir(name)
-- 
2.43.0


From a6f68073cf79eb3eb30fdbd735e93a171541f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 60/66] fix: memfs: the root directory has a name

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 74b98d0..7bce258 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -64,6 +64,7 @@ type FS struct {
 func New() *FS {
 	return &FS{
 		dir: &dir{
+			name:     ".",
 			children: make(map[string]childI),
 		},
 	}
-- 
2.43.0


From c7d5c3b7f7298573c2fd4a6ead3ea4bed790227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 61/66] fix: arfs: a read error that wraps io.EOF is not the
 end of the archive

---
 arfs/arfs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 8231cf3..c9b7282 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -72,7 +72,8 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 		n, err := ra.ReadAt(line, offset)
 		if err != nil && n < len(line) {
-			if errors.Is(err, io.EOF) {
+			// An error that merely wraps io.EOF is a failure of the reader.
+			if err == io.EOF {
 				// Only a lone newline (eg. padding) may follow the last entry.
 				if n > 1 || (n == 1 && line[0] != '\n') {
 					return nil, io.ErrUnexpectedEOF
@@ -105,7 +106,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		// Make sure that the file data isn't truncated.
 		if e.FileSize > 0 {
 			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n == 0 {
-				if errors.Is(err, io.EOF) {
+				if err == io.EOF {
 					err = io.ErrUnexpectedEOF
 				}
 
-- 
2.43.0


From 63f072bf0b021aa7525d835a53c402f100593d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 62/66] fix: tarfs: a read error that wraps io.EOF is not the
 end of the archive

---
 tarfs/tarfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 4ab7f2d..0f004c2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -11,7 +11,6 @@ package tarfs
 
 import (
 	"archive/tar"
-	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -49,7 +48,8 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	for {
 		h, err := tr.Next()
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// An error that merely wraps io.EOF is a failure of the reader.
+			if err == io.EOF {
 				break
 			}
 
-- 
2.43.0


From f28ccc32a64c0419455793910f2fda4da464ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 63/66] fix: arfs: report an error when the archive ends before
 the data of a member

---
 arfs/arfs.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index c9b7282..568afcd 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -150,7 +150,7 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, fs.ErrNotExist
 	}
 
-	return &file{Entry: e, Reader: e.data()}, nil
+	return &file{Entry: e, Reader: &dataReader{r: e.data(), remaining: e.FileSize}}, nil
 }
 
 // ReadDir reads the contents of the archive.
@@ -275,6 +275,23 @@ func (f *file) Close() error {
 	return nil
 }
 
+// dataReader reads the data of a member, it is an error if the archive ends
+// before all of the data has been read.
+type dataReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func (d *dataReader) Read(p []byte) (int, error) {
+	n, err := d.r.Read(p)
+	d.remaining -= int64(n)
+	if err == io.EOF && d.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return n, err
+}
+
 type Entry struct {
 	Filename  string
 	Timestamp int64
-- 
2.43.0


From 91da7f9b23be0466331f5dc960527a952af8faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 64/66] fix: tarfs: give callers a copy of the header

FileInfo.Sys gave a pointer to the header that the filesystem itself uses, so a
caller that changed it, as one does to write an entry to another archive, also
changed the names, types and targets in the filesystem.
---
 tarfs/tarfs.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0f004c2..f38aeb2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"maps"
 	"math"
 	"path/filepath"
 	"slices"
@@ -195,7 +196,7 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 	}
 
 	if d.IsDir() {
-		return dirfile.New(d.FileInfo(), func() ([]fs.DirEntry, error) {
+		return dirfile.New(d.fileInfo(), func() ([]fs.DirEntry, error) {
 			return fsys.ReadDir(name)
 		}), nil
 	}
@@ -489,7 +490,17 @@ func (d *dirent) Type() fs.FileMode {
 }
 
 func (d *dirent) Info() (fs.FileInfo, error) {
-	return d.FileInfo(), nil
+	return d.fileInfo(), nil
+}
+
+// fileInfo returns a FileInfo for a copy of the header, as Sys gives callers
+// the header and what they do to it must not change the filesystem.
+func (d *dirent) fileInfo() fs.FileInfo {
+	h := d.Header
+	h.Xattrs = maps.Clone(h.Xattrs)
+	h.PAXRecords = maps.Clone(h.PAXRecords)
+
+	return h.FileInfo()
 }
 
 // readerWithOffset is a wrapper around io.ReaderAt that keeps track of the current offset.
-- 
2.43.0


From 20a4bd4a0457e63c099c3ce8c63539154c38dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 65/66] fix: arfs: give callers a copy of the entry

Entry.Sys gave the entry that the filesystem itself uses, so a caller that
changed it also changed the filesystem.
---
 arfs/arfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 568afcd..a50b871 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -322,8 +322,10 @@ func (e *Entry) IsDir() bool {
 	return e.FileMode&fs.ModeDir != 0
 }
 
+// Sys returns a copy of the entry, changing it doesn't change the filesystem.
 func (e *Entry) Sys() any {
-	return e
+	c := *e
+	return &c
 }
 
 func (e *Entry) Type() fs.FileMode {
-- 
2.43.0


From 624dc03b9f31e6c32290c407d912f6e33927f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 66/66] fix: erofs: get types that a directory doesn't record
 from the inodes

The type of an entry in a directory may be unknown, Linux uses the inode. Such
directories were neither listed nor walked.
---
 erofs/constants.go |  1 +
 erofs/erofs.go     | 29 +++++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 2d6edbe..9d61ea8 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -15,6 +15,7 @@ import (
 
 // Linux values for fs on-disk file types.
 const (
+	FT_UNKNOWN  = 0
 	FT_REG_FILE = 1
 	FT_DIR      = 2
 	FT_CHRDEV   = 3
diff --git a/erofs/erofs.go b/erofs/erofs.go
index 6a29f94..9668101 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -117,12 +117,17 @@ func (de *dirEntry) readDir() ([]fs.DirEntry, error) {
 			return nil
 		}
 
-		dirents = append(dirents, &dirEntry{
+		child := &dirEntry{
 			image: de.image,
 			name:  name,
 			nid:   nid,
 			typ:   typ,
-		})
+		}
+		if err := child.setType(); err != nil {
+			return err
+		}
+
+		dirents = append(dirents, child)
 
 		return nil
 	})
@@ -226,6 +231,10 @@ func (fsys *Filesystem) walk(de *dirEntry, name string, noResolveLastSymlink boo
 			return nil, err
 		}
 
+		if err := child.setType(); err != nil {
+			return nil, err
+		}
+
 		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
 			if *links++; *links > maxSymlinks {
 				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
@@ -359,6 +368,22 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 	}, nil
 }
 
+// setType gets the type of an entry from its inode if the directory doesn't
+// record it.
+func (de *dirEntry) setType() error {
+	if de.typ != FT_UNKNOWN {
+		return nil
+	}
+
+	ino, err := de.getInode()
+	if err != nil {
+		return err
+	}
+	de.typ = fileTypeFromFileMode(ino.Mode())
+
+	return nil
+}
+
 func (de *dirEntry) getInode() (Inode, error) {
 	de.inodeMu.Lock()
 	defer de.inodeMu.Unlock()
-- 
2.43.0

