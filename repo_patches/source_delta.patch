From 6b2e2e262e122f30615130e0e54e5e8d876b6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 01/45] fix: first concurrent use of a file system map raced on
 its lazy initialisation

The *sync.Once guarding the map was itself created without synchronisation,
so two goroutines using a new map for the first time could each create a map
and lose the other's entries.
---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..325c0df 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
-- 
2.43.0


From 47cef200a4f8c4d359a5a49b49dfe96b38258eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 02/45] fix: reading an empty in-memory file failed instead of
 returning io.EOF

---
 pkging/mem/file.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..edb09c5 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,7 +31,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -41,6 +41,10 @@ func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
 	return 0, nil
 }
 
+func (f *File) isDir() bool {
+	return f.info != nil && f.info.IsDir()
+}
+
 // Close closes the File, rendering it unusable for I/O.
 func (f *File) Close() error {
 	defer func() {
@@ -70,7 +74,7 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
-- 
2.43.0


From c76e565f38228f36102ad7184ca39b9fe638c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 03/45] fix: in-memory Walk matched and skipped paths by bare
 string prefix

Walking or listing /pub also visited /public, SkipDir on /a also skipped
/a-b, and the contents of /a were visited after those of /a-b.
---
 pkging/mem/mem.go | 50 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..49c6da8 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -206,22 +207,28 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
-	keys := f.files.Keys()
-
 	pt, err := f.Parse(p)
 	if err != nil {
 		return err
 	}
 
-	skip := "!"
-	for _, k := range keys {
-		if k.Pkg != pt.Pkg {
-			continue
-		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
-			continue
+	var keys []here.Path
+	for _, k := range f.files.Keys() {
+		if within(k, pt) {
+			keys = append(keys, k)
 		}
-		if strings.HasPrefix(k.Name, skip) {
+	}
+	sort.Slice(keys, func(a, b int) bool {
+		// "/" sorts before everything else, so that the contents
+		// of a directory directly follow the directory
+		x := strings.ReplaceAll(keys[a].Name, "/", "\x00")
+		y := strings.ReplaceAll(keys[b].Name, "/", "\x00")
+		return x < y
+	})
+
+	var skip string
+	for _, k := range keys {
+		if len(skip) > 0 && strings.HasPrefix(k.Name, skip) {
 			continue
 		}
 
@@ -239,8 +246,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
-			skip = k.Name
+			dir := k.Name
+			if !fi.IsDir() {
+				if k == pt {
+					return nil
+				}
+				dir = path.Dir(dir)
+			}
+			skip = beneath(dir)
 			continue
 		}
 
@@ -250,3 +263,16 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 	return nil
 }
+
+// beneath returns the prefix of all the names beneath the directory
+func beneath(dir string) string {
+	return strings.TrimSuffix(dir, "/") + "/"
+}
+
+// within returns true if the path is the root, or is beneath it
+func within(pt here.Path, root here.Path) bool {
+	if pt.Pkg != root.Pkg {
+		return false
+	}
+	return pt.Name == root.Name || strings.HasPrefix(pt.Name, beneath(root.Name))
+}
-- 
2.43.0


From faab6fcdcf82ab3291fc14bc5ff3cd5656799956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 04/45] fix: in-memory RemoveAll removed siblings and other
 packages' files

RemoveAll("/pub") also removed /public, and the same path of every package.
---
 pkging/mem/mem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 49c6da8..67d41b9 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -76,7 +76,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if within(key, pt) {
 			fx.files.Delete(key)
 		}
 		return true
-- 
2.43.0


From 83e762447b17a05f6a1070a50712bbb69be69476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:37 +0000
Subject: [PATCH 05/45] fix: in-memory Remove removed directories that were not
 empty, missing paths were not os.IsNotExist

Remove and Stat now return errors that os.IsNotExist recognises, as the disk
implementation and Open do.
---
 pkging/mem/mem.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 67d41b9..fe34135 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -61,7 +61,13 @@ func (fx *Pkger) Remove(name string) error {
 	}
 
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
+	}
+
+	for _, k := range fx.files.Keys() {
+		if k != pt && within(k, pt) {
+			return &os.PathError{Op: "remove", Path: pt.String(), Err: fmt.Errorf("directory not empty")}
+		}
 	}
 
 	fx.files.Delete(pt)
@@ -202,7 +208,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{Op: "stat", Path: pt.String(), Err: os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From 868c6e078e221f0577d135787f873d691a75df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 06/45] fix: in-memory MkdirAll replaced existing files and
 directories

MkdirAll on an existing directory replaced its metadata, on an existing file
it destroyed the file, parents were made in the current package whatever
package was named, and directories did not have the directory mode bit.
---
 pkging/mem/mem.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index fe34135..c6f54dc 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -135,37 +136,48 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	dir, name := path.Split(pt.Name)
 
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if fl, ok := fx.files.Load(pt); ok {
+		info, err := fl.Stat()
+		if err != nil {
 			return err
 		}
+		if !info.IsDir() {
+			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: syscall.ENOTDIR}
+		}
+		return nil
 	}
 
-	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+	her, ok := fx.infos.Load(pt.Pkg)
+	if !ok {
+		her = fx.Here
+	}
+
+	name := path.Base(pt.Name)
+	if pt.Name == "/" {
+		name = filepath.Base(her.Dir)
+	} else {
+		dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+		if err := fx.MkdirAll(dir.String(), perm); err != nil {
+			return err
+		}
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    perm | os.ModeDir,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
 	}
-	if err := f.Close(); err != nil {
-		return err
-	}
 	fx.files.Store(pt, f)
 	return nil
-
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From e02b7cb05b7badeafe37beb1d0654157cbd07e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:02 +0000
Subject: [PATCH 07/45] fix: in-memory Create ignored the package of the path
 and overwrote directories

The parent was looked up in the current package, a file could be created
beneath another file, and creating a file over a directory replaced it.
---
 pkging/mem/mem.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index c6f54dc..396d286 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -94,7 +94,6 @@ func (fx *Pkger) RemoveAll(name string) error {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -105,19 +104,31 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
-	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+	if dir.Name == "/" {
+		if err := fx.MkdirAll(dir.String(), 0755); err != nil {
 			return nil, err
 		}
 	}
 
+	info, err := fx.Stat(dir.String())
+	if err != nil {
+		return nil, err
+	}
+	if !info.IsDir() {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.ENOTDIR}
+	}
+
+	if info, err := fx.Stat(pt.String()); err == nil && info.IsDir() {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
+	}
+
 	f := &File{
 		Here: her,
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From 39be5fd371e409a29328641a66c2d608bc42b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 08/45] fix: closing a created in-memory file raced with other
 users of the file

The handle returned by Create was the stored file itself, so Close wrote its
data and metadata while other goroutines opened, read or walked it. Stored
files are now never modified but replaced, and updates, which check and then
change several entries, exclude each other.
---
 pkging/mem/embed.go |  2 ++
 pkging/mem/file.go  | 15 ++++++++++-
 pkging/mem/mem.go   | 65 ++++++++++++++++++++++++++++++++++++---------
 3 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..64fd457 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -13,6 +13,7 @@ import (
 func (p *Pkger) MarshalJSON() ([]byte, error) {
 	files := map[string]embed.File{}
 
+	p.mu.Lock()
 	p.files.Range(func(key here.Path, file pkging.File) bool {
 		f, ok := file.(*File)
 		if !ok {
@@ -28,6 +29,7 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		files[key.String()] = ef
 		return true
 	})
+	p.mu.Unlock()
 
 	infos := map[string]here.Info{}
 	p.infos.Range(func(key string, info here.Info) bool {
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index edb09c5..6c87d74 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -27,6 +27,7 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+	entry  *File // the stored file that Close replaces
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -65,10 +66,22 @@ func (f *File) Close() error {
 
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
+
+	if fx, ok := f.pkging.(*Pkger); ok && f.entry != nil {
+		nf := &File{
+			Here:   f.Here,
+			info:   pkging.NewFileInfo(fi),
+			path:   f.path,
+			data:   f.data,
+			pkging: fx,
+		}
+		fx.replace(f.entry, nf)
+		f.entry = nf
+	}
 	return nil
 }
 
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 396d286..46e50d6 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 	"syscall"
 	"time"
 
@@ -32,6 +33,7 @@ type Pkger struct {
 	Here  here.Info
 	infos *maps.Infos
 	files *maps.Files
+	mu    sync.Mutex // held while files are updated
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
@@ -61,6 +63,9 @@ func (fx *Pkger) Remove(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	if _, ok := fx.files.Load(pt); !ok {
 		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
 	}
@@ -82,6 +87,9 @@ func (fx *Pkger) RemoveAll(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
 		if within(key, pt) {
 			fx.files.Delete(key)
@@ -104,9 +112,12 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
 	if dir.Name == "/" {
-		if err := fx.MkdirAll(dir.String(), 0755); err != nil {
+		if err := fx.mkdirAll(dir, 0755); err != nil {
 			return nil, err
 		}
 	}
@@ -123,7 +134,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
 	}
 
-	f := &File{
+	entry := &File{
 		Here: her,
 		path: pt,
 		info: &pkging.FileInfo{
@@ -136,11 +147,32 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		pkging: fx,
 	}
 
-	fx.files.Store(pt, f)
+	fx.files.Store(pt, entry)
+
+	// stored files are shared with other goroutines and never
+	// modified, they are replaced when the created file is closed
+	f := &File{
+		Here:   her,
+		path:   pt,
+		info:   pkging.NewFileInfo(entry.info),
+		pkging: fx,
+		entry:  entry,
+	}
 
 	return f, nil
 }
 
+// replace the old file with the new one, unless it
+// has been removed, or created again, since.
+func (fx *Pkger) replace(old *File, f *File) {
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
+	if cur, ok := fx.files.Load(old.path); ok && cur == pkging.File(old) {
+		fx.files.Store(old.path, f)
+	}
+}
+
 // MkdirAll creates a directory named path, along with any necessary parents, and returns nil, or else returns an error. The permission bits perm (before umask) are used for all directories that MkdirAll creates. If path is already a directory, MkdirAll does nothing and returns nil.
 func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	pt, err := fx.Parse(p)
@@ -148,6 +180,13 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
+	return fx.mkdirAll(pt, perm)
+}
+
+func (fx *Pkger) mkdirAll(pt here.Path, perm os.FileMode) error {
 	if fl, ok := fx.files.Load(pt); ok {
 		info, err := fl.Stat()
 		if err != nil {
@@ -169,7 +208,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 		name = filepath.Base(her.Dir)
 	} else {
 		dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
-		if err := fx.MkdirAll(dir.String(), perm); err != nil {
+		if err := fx.mkdirAll(dir, perm); err != nil {
 			return err
 		}
 	}
@@ -242,11 +281,18 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 
 	var keys []here.Path
-	for _, k := range f.files.Keys() {
+	files := map[here.Path]pkging.File{}
+
+	f.mu.Lock()
+	f.files.Range(func(k here.Path, fl pkging.File) bool {
 		if within(k, pt) {
 			keys = append(keys, k)
+			files[k] = fl
 		}
-	}
+		return true
+	})
+	f.mu.Unlock()
+
 	sort.Slice(keys, func(a, b int) bool {
 		// "/" sorts before everything else, so that the contents
 		// of a directory directly follow the directory
@@ -261,12 +307,7 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 			continue
 		}
 
-		fl, ok := f.files.Load(k)
-		if !ok {
-			return os.ErrNotExist
-		}
-
-		fi, err := fl.Stat()
+		fi, err := files[k].Stat()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5010de5f3cb7547793a9528323c9dba2129b30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 09/45] fix: in-memory Readdir never advanced and listed more
 than the children

Readdir(n) returned the first n entries for ever and never io.EOF, it answered
for files, and it listed deeper entries whose directory is not stored.
---
 pkging/mem/file.go | 75 ++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 6c87d74..2b011f9 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -27,7 +28,9 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
-	entry  *File // the stored file that Close replaces
+	entry  *File         // the stored file that Close replaces
+	infos  []os.FileInfo // what Readdir has still to return
+	listed bool
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -140,47 +143,55 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
-		if err != nil {
-			return err
-		}
+	if !f.isDir() {
+		return nil, &os.PathError{Op: "readdir", Path: f.Name(), Err: syscall.ENOTDIR}
+	}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
-		}
+	if !f.listed {
+		root := f.Path().String()
+		err := f.pkging.Walk(root, func(name string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 
-		if root == path {
-			return nil
-		}
+			if root == name {
+				return nil
+			}
 
-		pt, err := f.pkging.Parse(path)
-		if err != nil {
-			return err
-		}
-		if pt.Name == f.parent.Name {
-			return nil
-		}
+			pt, err := f.pkging.Parse(name)
+			if err != nil {
+				return err
+			}
+			if path.Dir(pt.Name) != f.path.Name {
+				return nil
+			}
 
-		infos = append(infos, info)
-		if info.IsDir() && path != root {
-			return filepath.SkipDir
-		}
+			f.infos = append(f.infos, info)
+			if info.IsDir() {
+				return filepath.SkipDir
+			}
 
-		return nil
-	})
+			return nil
+		})
+		if err != nil {
+			return nil, err
+		}
+		f.listed = true
+	}
 
-	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
+	n := len(f.infos)
+	if count > 0 {
+		if n == 0 {
+			return nil, io.EOF
 		}
-		if err != io.EOF {
-			return nil, err
+		if n > count {
+			n = count
 		}
 	}
-	return infos, nil
 
+	infos := f.infos[:n:n]
+	f.infos = f.infos[n:]
+	return infos, nil
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From 8dfadb47b731614389f39ec4d0f6ff1e6e577910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:44 +0000
Subject: [PATCH 10/45] fix: opening a name relative to a directory left the
 directory and its package

'..' elements led out of the directory on disk, the package of the directory
was dropped on disk, and in memory a name equal to the directory's own path
returned the directory's own handle, shared by all the requests of a server.
---
 pkging/mem/file.go   | 12 ++----------
 pkging/stdos/file.go |  6 ++++--
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2b011f9..4e81ed8 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -196,16 +196,8 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
-	}
-
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
+	pt := f.path
+	pt.Name = path.Join(pt.Name, path.Clean("/"+name))
 
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..9d7fb07 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -45,8 +45,10 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	pt := f.path
+	pt.Name = path.Join(pt.Name, path.Clean("/"+name))
+
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1fd24a5decd6824570fb3b986edc53047e26c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 11/45] fix: every folder without Go files had the description
 of the first one

---
 here/here.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index f87a061..70e4773 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"sync"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -9,6 +11,31 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+var folders sync.Map
+
+// Dir attempts to gather info for the requested directory.
+func Dir(p string) (Info, error) {
+	if i, ok := folders.Load(p); ok {
+		return i.(Info), nil
+	}
+
+	i, err := Here.Dir(p)
+	if err != nil {
+		return i, err
+	}
+
+	if len(i.ImportPath) == 0 {
+		// folders that are not Go packages all share
+		// an import path, but nothing else
+		i, err = here.Dir(p)
+		if err != nil {
+			return i, err
+		}
+	}
+
+	folders.Store(p, i)
+	return i, nil
+}
-- 
2.43.0


From 69d8babfd0e334a6f110d6fb00e885acc8ef7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 12/45] fix: paths were cleaned across the package prefix, and
 after the package directory was cut from any part of a name

---
 here/here.go          | 44 +++++++++++++++++++++++++++++++++++++++++++
 parser/include.go     |  4 ++--
 parser/source.go      |  2 +-
 pkging/mem/mem.go     |  2 +-
 pkging/stdos/stdos.go |  2 +-
 5 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/here/here.go b/here/here.go
index 70e4773..d40bc8b 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"path"
+	"strings"
 	"sync"
 
 	"github.com/gobuffalo/here"
@@ -39,3 +41,45 @@ func Dir(p string) (Info, error) {
 	folders.Store(p, i)
 	return i, nil
 }
+
+// Parse the string in Path format, in the context of the Info.
+// The name of the path is always absolute and clean, there is
+// nothing above the root of a package.
+func Parse(i Info, p string) (Path, error) {
+	name := slash(strings.TrimSpace(p))
+	dir := slash(i.Dir)
+
+	var pt Path
+	if n := strings.Index(name, ":/"); n > 0 && !strings.HasPrefix(name, "/") && !beneath(path.Clean(name), dir) {
+		pt.Pkg = name[:n]
+		name = name[n+1:]
+	} else if !path.IsAbs(name) && !beneath(path.Clean(name), dir) {
+		// a package, or nothing at all
+		pt, err := i.Parse(p)
+		pt.Name = path.Clean("/" + slash(pt.Name))
+		return pt, err
+	}
+
+	if len(pt.Pkg) == 0 {
+		pt.Pkg = i.Module.Path
+	}
+
+	pt.Name = path.Clean(name)
+	if pt.Pkg == i.Module.Path && beneath(pt.Name, dir) {
+		pt.Name = strings.TrimPrefix(pt.Name, dir)
+	}
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
+}
+
+func slash(p string) string {
+	return strings.Replace(p, "\\", "/", -1)
+}
+
+// beneath returns true if the name is the dir, or is beneath it
+func beneath(name string, dir string) bool {
+	if len(dir) == 0 {
+		return false
+	}
+	return name == dir || strings.HasPrefix(name, dir+"/")
+}
diff --git a/parser/include.go b/parser/include.go
index cb95500..18f2aab 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,12 +20,12 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(inc)
+	pt, err := here.Parse(her, inc)
 	if err != nil {
 		return id, err
 	}
 
-	if pt.Pkg != her.ImportPath {
+	if pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
diff --git a/parser/source.go b/parser/source.go
index be58036..81d35f7 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -173,7 +173,7 @@ func (p *ParsedSource) parse() error {
 			return false
 		}
 
-		pt, err := info.Parse(val)
+		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 46e50d6..f66694e 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -53,7 +53,7 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..daa81fa 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -130,7 +130,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From d37bf716cb58e1d3147f5ea29fe78cdad4015b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 13/45] fix: a closed in-memory file still could be read and
 written, and a listing not restarted

---
 pkging/mem/file.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 4e81ed8..3ce5702 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,10 +31,15 @@ type File struct {
 	entry  *File         // the stored file that Close replaces
 	infos  []os.FileInfo // what Readdir has still to return
 	listed bool
+	closed bool
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
+	if f.closed {
+		return 0, f.closedErr("seek")
+	}
+
 	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
@@ -42,15 +47,30 @@ func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
 	if sk, ok := f.reader.(io.Seeker); ok {
 		return sk.Seek(ofpkginget, whence)
 	}
+
+	if f.isDir() && ofpkginget == 0 && whence == io.SeekStart {
+		// list the directory again
+		f.infos = nil
+		f.listed = false
+	}
 	return 0, nil
 }
 
+func (f *File) closedErr(op string) error {
+	return &os.PathError{Op: op, Path: f.Name(), Err: os.ErrClosed}
+}
+
 func (f *File) isDir() bool {
 	return f.info != nil && f.info.IsDir()
 }
 
 // Close closes the File, rendering it unusable for I/O.
 func (f *File) Close() error {
+	if f.closed {
+		return nil
+	}
+	f.closed = true
+
 	defer func() {
 		f.reader = nil
 		f.writer = nil
@@ -90,6 +110,10 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
+	if f.closed {
+		return 0, f.closedErr("read")
+	}
+
 	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
@@ -103,6 +127,10 @@ func (f *File) Read(p []byte) (int, error) {
 
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
 func (f *File) Write(b []byte) (int, error) {
+	if f.closed {
+		return 0, f.closedErr("write")
+	}
+
 	if f.writer == nil {
 		f.writer = &bytes.Buffer{}
 	}
@@ -143,6 +171,10 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
+	if f.closed {
+		return nil, f.closedErr("readdir")
+	}
+
 	if !f.isDir() {
 		return nil, &os.PathError{Op: "readdir", Path: f.Name(), Err: syscall.ENOTDIR}
 	}
-- 
2.43.0


From fa1711369cde3ccd13aa8451ca2e39492cbc7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 14/45] fix: writing to an in-memory file opened for reading
 was silently lost

---
 pkging/mem/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 3ce5702..e36b34f 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -131,6 +131,11 @@ func (f *File) Write(b []byte) (int, error) {
 		return 0, f.closedErr("write")
 	}
 
+	if f.entry == nil {
+		// opened for reading, there is nothing to replace on Close
+		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.EBADF}
+	}
+
 	if f.writer == nil {
 		f.writer = &bytes.Buffer{}
 	}
-- 
2.43.0


From 7bada7248e33923534730f232af9309cf6e992ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 15/45] fix: MkdirAll on disk made a folder named after the
 package of the path

---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index daa81fa..e1debd2 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From d04bd7880fdfa02f63887bb3c7688d18be81036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 16/45] fix: Stat on an open disk file reported its state when
 it was opened

---
 pkging/stdos/file.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 9d7fb07..42df841 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -62,14 +62,12 @@ func (f *File) Path() here.Path {
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
 func (f *File) Stat() (os.FileInfo, error) {
-	if f.info != nil {
-		return f.info, nil
-	}
-
 	info, err := f.File.Stat()
 	if err != nil {
+		if f.info != nil {
+			return f.info, nil
+		}
 		return nil, err
 	}
-	f.info = pkging.NewFileInfo(info)
-	return f.info, nil
+	return pkging.NewFileInfo(info), nil
 }
-- 
2.43.0


From 140bb57f9cdb2cb443877c7eb8d6a693ead99cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 17/45] fix: opening a file beneath a Dir leaked the handle of
 the directory

---
 pkger.go              | 7 ++++++-
 pkging/stdos/stdos.go | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkger.go b/pkger.go
index 5f56a51..bf841b5 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,7 +36,12 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
-	return f.Open(name)
+
+	hf, err := f.Open(name)
+	if err != nil || hf != http.File(f) {
+		f.Close()
+	}
+	return hf, err
 }
 
 // Parse the string in here.Path format.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index e1debd2..0fa045a 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -55,6 +55,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
@@ -121,6 +122,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
-- 
2.43.0


From 25441f7cb92f111babedf375a36834211f77f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 18/45] fix: a request beneath a file on disk was an internal
 server error, not a missing file

---
 pkging/stdos/file.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 42df841..cb0f6e6 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -50,11 +50,31 @@ func (f *File) Open(name string) (http.File, error) {
 
 	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
-		return nil, err
+		return nil, f.openErr(pt, err)
 	}
 	return f2, nil
 }
 
+// openErr returns os.ErrNotExist if there is a file where the path
+// has a directory, like http.Dir does, instead of the original error.
+func (f *File) openErr(pt here.Path, err error) error {
+	if os.IsNotExist(err) || os.IsPermission(err) {
+		return err
+	}
+
+	for pt.Name != "/" {
+		pt.Name = path.Dir(pt.Name)
+		info, serr := f.pkging.Stat(pt.String())
+		if serr == nil {
+			if !info.IsDir() {
+				return os.ErrNotExist
+			}
+			break
+		}
+	}
+	return err
+}
+
 // Path returns the here.Path of the file
 func (f *File) Path() here.Path {
 	return f.path
-- 
2.43.0


From bdd965cdddbfb028072ac581ea9b475bfc3251e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 19/45] fix: files of other modules and packages were embedded
 under the wrong path, and left out files embedded by their folder

---
 parser/decl.go          |   6 +-
 parser/open.go          |   2 +-
 parser/walk.go          |  23 +++---
 pkging/mem/add.go       | 150 +++++++++++++++++++++++++---------------
 pkging/pkgutil/stuff.go |  14 ++--
 5 files changed, 120 insertions(+), 75 deletions(-)

diff --git a/parser/decl.go b/parser/decl.go
index 4dd6540..f2cda8e 100644
--- a/parser/decl.go
+++ b/parser/decl.go
@@ -31,6 +31,9 @@ func (decls Decls) Files() ([]*File, error) {
 			for _, s := range vt.VirtualPaths() {
 				v[s] = s
 			}
+			if f, err := d.File(); err == nil {
+				v[f.Path.String()] = f.Abs
+			}
 		}
 
 		fl, ok := d.(Filer)
@@ -44,8 +47,7 @@ func (decls Decls) Files() ([]*File, error) {
 		}
 
 		for _, f := range files {
-			m[f.Abs] = f
-			v[f.Abs] = f.Abs
+			m[f.Path.String()] = f
 		}
 	}
 
diff --git a/parser/open.go b/parser/open.go
index 85ec71e..4d38110 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,7 +48,7 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
+	if _, ok := virtual[d.file.Path.String()]; ok {
 		return nil, nil
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..4954396 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"go/token"
 	"os"
+	gopath "path"
 	"path/filepath"
 	"strings"
 
@@ -63,21 +64,25 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
 		}
 
-		n := strings.TrimPrefix(path, her.Module.Dir)
-
-		pt, err := her.Parse(n)
+		her, err := here.Dir(dir)
 		if err != nil {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
+		// the files are part of the same package as the root,
+		// even if there are other modules beneath it
+		n := filepath.ToSlash(strings.TrimPrefix(path, root))
+		pt := here.Path{
+			Pkg:  pt.Pkg,
+			Name: gopath.Join(pt.Name, n),
+		}
+
+		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..cfaa910 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -3,8 +3,11 @@ package mem
 import (
 	"bytes"
 	"io"
+	"math"
 	"os"
+	"path"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -19,61 +22,30 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
-		if err != nil {
-			return err
-		}
 
-		dir := f.Name()
-		if !info.IsDir() {
-			dir = filepath.Dir(dir)
-		}
-
-		her, err := here.Dir(dir)
+		pt, err := fx.locate(f.Name(), info)
 		if err != nil {
 			return err
 		}
+
 		if info.IsDir() {
-			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
+			root := filepath.Clean(f.Name())
+			err = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
 					return err
 				}
 
-				f, err := os.Open(path)
+				f, err := os.Open(p)
 				if err != nil {
 					return err
 				}
 				defer f.Close()
 
-				pt, err := fx.Parse(path)
-				if err != nil {
-					return err
-				}
-
-				her, err := here.Package(pt.Pkg)
-				if err != nil {
-					return err
-				}
-
-				mf := &File{
-					Here:   her,
-					info:   pkging.NewFileInfo(info),
-					path:   pt,
-					pkging: fx,
-				}
-
-				if !info.IsDir() {
-					bb := &bytes.Buffer{}
-					_, err = io.Copy(bb, f)
-					if err != nil {
-						return err
-					}
-					mf.data = bb.Bytes()
-				}
-
-				fx.files.Store(mf.Path(), mf)
-
-				return nil
+				rel := filepath.ToSlash(strings.TrimPrefix(p, root))
+				return fx.AddPath(here.Path{
+					Pkg:  pt.Pkg,
+					Name: path.Join(pt.Name, rel),
+				}, f)
 			})
 			if err != nil {
 				return err
@@ -81,24 +53,94 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			continue
 		}
 
-		mf := &File{
-			Here:   her,
-			info:   pkging.NewFileInfo(info),
-			path:   pt,
-			pkging: fx,
+		if err := fx.AddPath(pt, f); err != nil {
+			return err
 		}
+	}
 
-		if !info.IsDir() {
-			bb := &bytes.Buffer{}
-			_, err = io.Copy(bb, f)
-			if err != nil {
-				return err
-			}
-			mf.data = bb.Bytes()
+	return nil
+}
+
+// AddPath copies the file into the *Pkger with the given path. Only
+// the directory itself is copied, if it is one, not what it contains.
+func (fx *Pkger) AddPath(pt here.Path, f *os.File) error {
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	her, ok := fx.infos.Load(pt.Pkg)
+	if !ok {
+		her, err = here.Package(pt.Pkg)
+		if err != nil {
+			// there is no Go code at the root of the module
+			her, err = here.Dir(dirOf(f.Name(), info))
 		}
+		if err != nil {
+			return err
+		}
+		fx.infos.Store(pt.Pkg, her)
+	}
 
-		fx.files.Store(mf.Path(), mf)
+	mf := &File{
+		Here:   her,
+		info:   pkging.NewFileInfo(info),
+		path:   pt,
+		pkging: fx,
 	}
 
+	if !info.IsDir() {
+		// the file might have been read from already
+		bb := &bytes.Buffer{}
+		if _, err := io.Copy(bb, io.NewSectionReader(f, 0, math.MaxInt64)); err != nil {
+			return err
+		}
+		mf.data = bb.Bytes()
+	}
+
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+	fx.files.Store(pt, mf)
 	return nil
 }
+
+// locate returns the path, in the module it is part of, of a file on disk
+func (fx *Pkger) locate(name string, info os.FileInfo) (here.Path, error) {
+	abs, err := filepath.Abs(name)
+	if err != nil {
+		return here.Path{}, err
+	}
+
+	if len(rel(fx.Here.Dir, abs)) > 0 {
+		return fx.Parse(abs)
+	}
+
+	her, err := here.Dir(dirOf(abs, info))
+	if err != nil {
+		return here.Path{}, err
+	}
+
+	name = rel(her.Module.Dir, abs)
+	if len(name) == 0 {
+		return fx.Parse(abs)
+	}
+	return here.Path{Pkg: her.Module.Path, Name: name}, nil
+}
+
+// rel returns the name the file has in the directory, if it is in there
+func rel(dir string, abs string) string {
+	if abs == dir {
+		return "/"
+	}
+	if len(dir) > 0 && strings.HasPrefix(abs, dir+string(filepath.Separator)) {
+		return filepath.ToSlash(strings.TrimPrefix(abs, dir))
+	}
+	return ""
+}
+
+func dirOf(name string, info os.FileInfo) string {
+	if info.IsDir() {
+		return name
+	}
+	return filepath.Dir(name)
+}
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..d69c96f 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -25,20 +25,16 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 
 	for _, pf := range files {
 		err = func() error {
-			if strings.HasSuffix(pf.Abs, ".tmp") {
-				return nil
-			}
 			df, err := os.Open(pf.Abs)
 			if err != nil {
+				if os.IsNotExist(err) && strings.HasSuffix(pf.Abs, ".tmp") {
+					return nil
+				}
 				return fmt.Errorf("could open stuff %s: %s", pf.Abs, err)
 			}
 			defer df.Close()
 
-			if err := pkg.Add(df); err != nil {
-				return err
-			}
-
-			return err
+			return pkg.AddPath(pf.Path, df)
 		}()
 
 		if err != nil {
@@ -57,5 +53,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From f668e38560766b3836018b005e7412f9299c7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 20/45] fix: paths in a package other than its module's root
 were embedded from the root of that module

---
 parser/include.go | 4 +++-
 parser/open.go    | 8 +-------
 parser/source.go  | 4 +++-
 parser/walk.go    | 4 +---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/parser/include.go b/parser/include.go
index 18f2aab..e342b5b 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -25,14 +25,16 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		return id, err
 	}
 
+	dir := her.Module.Dir
 	if pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
 		}
+		dir = her.Dir
 	}
 
-	abs := filepath.Join(her.Module.Dir, pt.Name)
+	abs := filepath.Join(dir, pt.Name)
 
 	f := &File{
 		Abs:  abs,
diff --git a/parser/open.go b/parser/open.go
index 4d38110..6298f4c 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"go/token"
 	"os"
-	"path/filepath"
 )
 
 var _ Decl = OpenDecl{}
@@ -52,12 +51,7 @@ func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
 		return nil, nil
 	}
 
-	her := d.file.Here
-	pt := d.file.Path
-
-	fp := filepath.Join(her.Module.Dir, pt.Name)
-
-	osf, err := os.Stat(fp)
+	osf, err := os.Stat(d.file.Abs)
 	if err != nil {
 		return nil, err
 	}
diff --git a/parser/source.go b/parser/source.go
index 81d35f7..5372e56 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -179,16 +179,18 @@ func (p *ParsedSource) parse() error {
 			return false
 		}
 
+		dir := info.Module.Dir
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
 				p.err = fmt.Errorf("%s: %s", err, p.Abs)
 				return false
 			}
+			dir = info.Dir
 		}
 
 		f := File{
-			Abs:  filepath.Join(info.Module.Dir, pt.Name),
+			Abs:  filepath.Join(dir, pt.Name),
 			Here: info,
 			Path: pt,
 		}
diff --git a/parser/walk.go b/parser/walk.go
index 4954396..15f95b8 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -54,10 +54,8 @@ func (d WalkDecl) Value() (string, error) {
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 	var files []*File
 
-	her := d.file.Here
 	pt := d.file.Path
-
-	root := filepath.Join(her.Module.Dir, pt.Name)
+	root := d.file.Abs
 
 	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From e922f0c06d6a134d151913d71048d3fc909c3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 21/45] fix: folders whose name only starts like one that is
 ignored, and a module in a folder named like one, were not parsed

---
 parser/parser.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..b02c0c6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -199,11 +199,8 @@ func (p *Parser) parse() error {
 			return nil
 		}
 
-		base := filepath.Base(path)
-		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
-				return filepath.SkipDir
-			}
+		if path != root && ignored(filepath.Base(path)) {
+			return filepath.SkipDir
 		}
 
 		srcs, err := p.ParseDir(path, 0)
@@ -227,6 +224,19 @@ func (p *Parser) parse() error {
 	return err
 }
 
+// ignored returns true for folders that the go tool ignores
+func ignored(base string) bool {
+	for _, x := range defaultIgnoredFolders {
+		if base == x {
+			return true
+		}
+		if len(x) == 1 && strings.HasPrefix(base, x) {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) parseIncludes() error {
 	for _, i := range p.includes {
 		d, err := NewInclude(p.Info, i)
-- 
2.43.0


From b34906cd544082a444e0c6e44bc4b4574bd96a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 22/45] fix: constants of other files and groups crashed the
 parser, calls in arguments and errors were lost

---
 parser/parser.go |   1 +
 parser/source.go | 125 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 95 insertions(+), 31 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b02c0c6..43c4e12 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -129,6 +129,7 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 				},
 				FileSet: fset,
 				Ast:     pf,
+				pkg:     pkg,
 			}
 			srcs = append(srcs, s)
 		}
diff --git a/parser/source.go b/parser/source.go
index 5372e56..dbb9deb 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -21,6 +21,7 @@ type ParsedSource struct {
 	Source
 	FileSet *token.FileSet
 	Ast     *ast.File
+	pkg     *ast.Package
 	decls   map[string]Decls
 	once    sync.Once
 	err     error
@@ -33,45 +34,106 @@ func (p *ParsedSource) Parse() error {
 	return p.err
 }
 
-func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
-	s = node.Name
-	if node.Obj.Kind != ast.Con {
-		return
-	}
-	// As per ast package a Con object is always a *ValueSpec,
-	// but double-checking to avoid panics
-	if x, ok := node.Obj.Decl.(*ast.ValueSpec); ok {
-		// The const var can be defined inline with other vars,
-		// as in `const a, b = "a", "b"`.
-		for i, v := range x.Names {
-			if v.Name == node.Name {
-				s = p.valueNode(x.Values[i])
+// valueIdent returns the value of a constant
+func (p *ParsedSource) valueIdent(node *ast.Ident) (string, error) {
+	obj := node.Obj
+	if obj == nil && p.pkg != nil {
+		// it might be declared in another file of the package
+		for _, f := range p.pkg.Files {
+			if obj = f.Scope.Lookup(node.Name); obj != nil {
 				break
 			}
 		}
 	}
-	return
+
+	if obj != nil && obj.Kind == ast.Con {
+		if x, ok := obj.Decl.(*ast.ValueSpec); ok {
+			// The const var can be defined inline with other vars,
+			// as in `const a, b = "a", "b"`.
+			values := p.constValues(x)
+			for i, v := range x.Names {
+				if v.Name == node.Name && i < len(values) {
+					return p.value(values[i])
+				}
+			}
+		}
+	}
+	return "", fmt.Errorf("%s is not a constant", node.Name)
 }
 
-func (p *ParsedSource) valueNode(node ast.Node) string {
-	var s string
-	switch x := node.(type) {
-	case *ast.BasicLit:
-		s = x.Value
-	case *ast.Ident:
-		s = p.valueIdent(x)
+// constValues returns the values of a constant declaration, which
+// are those of the previous one in the group if it has none.
+func (p *ParsedSource) constValues(spec *ast.ValueSpec) []ast.Expr {
+	if len(spec.Values) > 0 {
+		return spec.Values
 	}
-	return s
+
+	files := []*ast.File{p.Ast}
+	if p.pkg != nil {
+		for _, f := range p.pkg.Files {
+			files = append(files, f)
+		}
+	}
+
+	var values []ast.Expr
+	for _, f := range files {
+		ast.Inspect(f, func(node ast.Node) bool {
+			gd, ok := node.(*ast.GenDecl)
+			if !ok || gd.Tok != token.CONST {
+				return true
+			}
+
+			var last []ast.Expr
+			for _, s := range gd.Specs {
+				x, ok := s.(*ast.ValueSpec)
+				if !ok {
+					continue
+				}
+				if len(x.Values) > 0 {
+					last = x.Values
+				}
+				if x == spec {
+					values = last
+				}
+			}
+			return true
+		})
+	}
+	return values
 }
 
+// value returns the value of an expression, if it is a constant string
 func (p *ParsedSource) value(node ast.Node) (string, error) {
-	s := p.valueNode(node)
-	return strconv.Unquote(s)
+	switch x := node.(type) {
+	case *ast.BasicLit:
+		return strconv.Unquote(x.Value)
+	case *ast.Ident:
+		return p.valueIdent(x)
+	case *ast.ParenExpr:
+		return p.value(x.X)
+	case *ast.BinaryExpr:
+		if x.Op != token.ADD {
+			break
+		}
+		a, err := p.value(x.X)
+		if err != nil {
+			return "", err
+		}
+		b, err := p.value(x.Y)
+		return a + b, err
+	}
+	return "", fmt.Errorf("not a constant string")
 }
 
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
+
+	var rerr error
 	var fn walker = func(node ast.Node) bool {
+		if rerr != nil {
+			return false
+		}
+
 		ce, ok := node.(*ast.CallExpr)
 		if !ok {
 			return true
@@ -156,26 +218,27 @@ func (p *ParsedSource) parse() error {
 		}
 
 		if len(ce.Args) < 1 {
-			p.err = fmt.Errorf("declarations require at least one argument")
+			rerr = fmt.Errorf("declarations require at least one argument")
 			return false
 		}
 
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			// the path is not known until run time, but
+			// there might be others in the arguments
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, p.Abs)
+			rerr = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
 		}
 
 		pt, err := here.Parse(info, val)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, p.Abs)
+			rerr = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
 		}
 
@@ -183,7 +246,7 @@ func (p *ParsedSource) parse() error {
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
-				p.err = fmt.Errorf("%s: %s", err, p.Abs)
+				rerr = fmt.Errorf("%s: %s", err, p.Abs)
 				return false
 			}
 			dir = info.Dir
@@ -199,7 +262,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return rerr
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From c478e0f7e49525ab5604d854b852cb6380b0ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 23/45] fix: a failed pack left a partial file behind, which
 was packed into itself, and the package clause and build tag could be invalid

---
 cmd/pkger/cmds/pack.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..317e649 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,12 +1,16 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"go/token"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
@@ -130,21 +134,14 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 	}
 
 	os.RemoveAll(out)
-	defer func() {
-		if err := recover(); err != nil {
-			os.RemoveAll(out)
-		}
-	}()
-
-	f, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
 
+	// nothing is written until the contents are complete, otherwise
+	// the file might be packed into itself, or left there if that fails
+	f := &bytes.Buffer{}
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
+	fmt.Fprintf(f, "//go:build !skippkger\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
-	fmt.Fprintf(f, "package %s\n\n", c.Name)
+	fmt.Fprintf(f, "package %s\n\n", packageName(c.Name))
 	fmt.Fprintf(f, "import (\n\t\"github.com/markbates/pkger\"\n\t")
 	fmt.Fprintf(f, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
 	fmt.Fprintf(f, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
@@ -155,5 +152,25 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
+	if err := ioutil.WriteFile(out, f.Bytes(), 0666); err != nil {
+		os.RemoveAll(out)
+		return err
+	}
 	return nil
 }
+
+// packageName returns the name if it can be the name of a package. That
+// of a folder without Go files might not, it is named after the folder.
+func packageName(name string) string {
+	name = strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+
+	if !token.IsIdentifier(name) || name == "_" {
+		name = "_" + name
+	}
+	return name
+}
-- 
2.43.0


From a70a387584e529585a3308ef4cbe1c8fea5b034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 24/45] fix: info without arguments always failed

---
 cmd/pkger/cmds/info.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index e7e0f09..c326bf7 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 )
 
 type infoCmd struct {
@@ -29,7 +30,12 @@ func (r *infoCmd) Exec(args []string) error {
 	}
 	for _, a := range args {
 
-		fi, err := pkger.Info(a)
+		info := pkger.Info
+		if a == "." {
+			info = here.Dir
+		}
+
+		fi, err := info(a)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c55ada7f537715665fa20253637c64e78be7422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 25/45] fix: modules without Go code at their root could not be
 used at all

---
 pkging/mem/mem.go     | 4 ++++
 pkging/stdos/stdos.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index f66694e..8f36a9c 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -26,6 +26,10 @@ func New(info here.Info) (*Pkger, error) {
 		Here:  info,
 	}
 	f.infos.Store(info.ImportPath, info)
+	if len(info.ImportPath) == 0 {
+		// there is no Go code at the root of the module
+		f.infos.Store(info.Module.Path, info)
+	}
 	return f, nil
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 0fa045a..8a7c614 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -25,6 +25,10 @@ func New(her here.Info) (*Pkger, error) {
 		Here:  her,
 	}
 	p.infos.Store(her.ImportPath, her)
+	if len(her.ImportPath) == 0 {
+		// there is no Go code at the root of the module
+		p.infos.Store(her.Module.Path, her)
+	}
 	return p, nil
 }
 
-- 
2.43.0


From 54e0a91a31baef15ce551ba5900e16d58f880d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 26/45] fix: creating an in-memory file where a directory is
 made the root directory

---
 pkging/mem/mem.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 8f36a9c..dc2bbca 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -119,6 +119,10 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.mu.Lock()
 	defer fx.mu.Unlock()
 
+	if info, err := fx.Stat(pt.String()); pt.Name == "/" || (err == nil && info.IsDir()) {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
+	}
+
 	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
 	if dir.Name == "/" {
 		if err := fx.mkdirAll(dir, 0755); err != nil {
@@ -134,10 +138,6 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.ENOTDIR}
 	}
 
-	if info, err := fx.Stat(pt.String()); err == nil && info.IsDir() {
-		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
-	}
-
 	entry := &File{
 		Here: her,
 		path: pt,
-- 
2.43.0


From a214132bd0b33f951d87531e344a9b07c4b07362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 27/45] fix: adding the working directory mangled names that
 start with a dot, and its own

---
 pkging/mem/add.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index cfaa910..faba2d9 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -23,13 +23,17 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			return err
 		}
 
-		pt, err := fx.locate(f.Name(), info)
+		root, err := filepath.Abs(f.Name())
+		if err != nil {
+			return err
+		}
+
+		pt, err := fx.locate(root, info)
 		if err != nil {
 			return err
 		}
 
 		if info.IsDir() {
-			root := filepath.Clean(f.Name())
 			err = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
 					return err
@@ -105,12 +109,7 @@ func (fx *Pkger) AddPath(pt here.Path, f *os.File) error {
 }
 
 // locate returns the path, in the module it is part of, of a file on disk
-func (fx *Pkger) locate(name string, info os.FileInfo) (here.Path, error) {
-	abs, err := filepath.Abs(name)
-	if err != nil {
-		return here.Path{}, err
-	}
-
+func (fx *Pkger) locate(abs string, info os.FileInfo) (here.Path, error) {
 	if len(rel(fx.Here.Dir, abs)) > 0 {
 		return fx.Parse(abs)
 	}
@@ -120,7 +119,7 @@ func (fx *Pkger) locate(name string, info os.FileInfo) (here.Path, error) {
 		return here.Path{}, err
 	}
 
-	name = rel(her.Module.Dir, abs)
+	name := rel(her.Module.Dir, abs)
 	if len(name) == 0 {
 		return fx.Parse(abs)
 	}
-- 
2.43.0


From 405c2e48c0f013f1f4ff2f50ef248d756fb9c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 28/45] fix: Stat of the in-memory file system handed out its
 own file information

---
 pkging/mem/mem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index dc2bbca..f95cc52 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -272,7 +272,11 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	}
 	f, ok := fx.files.Load(pt)
 	if ok {
-		return f.Stat()
+		info, err := f.Stat()
+		if err != nil {
+			return nil, err
+		}
+		return pkging.NewFileInfo(info), nil
 	}
 	return nil, &os.PathError{Op: "stat", Path: pt.String(), Err: os.ErrNotExist}
 }
-- 
2.43.0


From 90bf00ac5dead9e5da0db2139851ed040e01defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 29/45] fix: a declaration with its function in parentheses was
 not found

---
 parser/source.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/source.go b/parser/source.go
index dbb9deb..55d17fa 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -139,7 +139,16 @@ func (p *ParsedSource) parse() error {
 			return true
 		}
 
-		sel, ok := ce.Fun.(*ast.SelectorExpr)
+		fun := ce.Fun
+		for {
+			paren, ok := fun.(*ast.ParenExpr)
+			if !ok {
+				break
+			}
+			fun = paren.X
+		}
+
+		sel, ok := fun.(*ast.SelectorExpr)
 		if !ok {
 			return true
 		}
-- 
2.43.0


From bf7a2adfd5a8e8419b58a86f624c79cc3a3d76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 30/45] fix: walking a path that is created at run time, and is
 not there yet, failed to pack

---
 parser/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/walk.go b/parser/walk.go
index 15f95b8..c037365 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -52,6 +52,11 @@ func (d WalkDecl) Value() (string, error) {
 }
 
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
+	// it is created at run time, and need not be there now
+	if _, ok := virtual[d.file.Path.String()]; ok {
+		return nil, nil
+	}
+
 	var files []*File
 
 	pt := d.file.Path
-- 
2.43.0


From d36b1625f4c64f9d58a0e7d455183f1e03abbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 31/45] fix: folders with Go files that the go tool refuses
 could not be packed

---
 parser/parser.go | 4 +++-
 parser/walk.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 43c4e12..1ff3180 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -100,7 +100,9 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 
 	her, err := here.Dir(abs)
 	if err != nil {
-		return nil, fmt.Errorf("%s: here.Dir failed %s", err, abs)
+		// the go tool refuses the Go files in there, because
+		// they are all excluded by build constraints, say
+		her = p.Info
 	}
 
 	pt, err := her.Parse(strings.TrimPrefix(abs, filepath.Dir(abs)))
diff --git a/parser/walk.go b/parser/walk.go
index c037365..c188ae4 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -74,7 +74,9 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 
 		her, err := here.Dir(dir)
 		if err != nil {
-			return err
+			// it is embedded, whatever the go tool
+			// thinks of the Go files in there
+			her = d.file.Here
 		}
 
 		// the files are part of the same package as the root,
-- 
2.43.0


From 8067f09551303e6775af0c7c1d1d371e98a5d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 32/45] fix: packing and listing failed on, and described, what
 an earlier run left behind

---
 cmd/pkger/cmds/list.go |  3 +--
 cmd/pkger/cmds/pack.go | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmd/pkger/cmds/list.go b/cmd/pkger/cmds/list.go
index ab3598a..91e8967 100644
--- a/cmd/pkger/cmds/list.go
+++ b/cmd/pkger/cmds/list.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 
-	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/parser"
 )
 
@@ -34,7 +33,7 @@ func (e *listCmd) Exec(args []string) error {
 
 	args = e.Args()
 
-	info, err := pkger.Current()
+	info, err := current("")
 	if err != nil {
 		return err
 	}
diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index 317e649..ee04c2e 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -7,11 +7,13 @@ import (
 	"go/token"
 	"io/ioutil"
 	"os"
+	"os/exec"
 	"path/filepath"
 	"sort"
 	"strings"
 	"unicode"
 
+	gohere "github.com/gobuffalo/here"
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/parser"
@@ -44,7 +46,7 @@ func (e *packCmd) Name() string {
 }
 
 func (e *packCmd) Exec(args []string) error {
-	info, err := pkger.Current()
+	info, err := current(e.out)
 	if err != nil {
 		return err
 	}
@@ -127,6 +129,22 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
+// current returns the current module. What an earlier run left behind is
+// removed first: it is not part of the module, and might not be valid.
+func current(out string) (here.Info, error) {
+	b, err := exec.Command("go", "env", "GOMOD").Output()
+	mod := strings.TrimSpace(string(b))
+	if err != nil || len(mod) == 0 || mod == os.DevNull {
+		return pkger.Current()
+	}
+
+	root := filepath.Dir(mod)
+	os.RemoveAll(filepath.Join(root, out, outName))
+
+	// what is known so far is from before that
+	return gohere.Dir(root)
+}
+
 func Package(info here.Info, out string, decls parser.Decls) error {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
-- 
2.43.0


From 0d36d44ce8a4507662dd8428a9f747009a6ba8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 33/45] fix: a reader could see a part of what MkdirAll or
 RemoveAll does at once

Open and Stat of the in-memory file system looked at the files while they
were updated, and found a new parent without the folder it was made for.
---
 pkging/mem/mem.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index f95cc52..87bd86d 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -37,7 +37,7 @@ type Pkger struct {
 	Here  here.Info
 	infos *maps.Infos
 	files *maps.Files
-	mu    sync.Mutex // held while files are updated
+	mu    sync.RWMutex // held while files are updated, or have to be as of one instant
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
@@ -119,7 +119,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.mu.Lock()
 	defer fx.mu.Unlock()
 
-	if info, err := fx.Stat(pt.String()); pt.Name == "/" || (err == nil && info.IsDir()) {
+	if info, err := fx.stat(pt); pt.Name == "/" || (err == nil && info.IsDir()) {
 		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
 	}
 
@@ -130,7 +130,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		}
 	}
 
-	info, err := fx.Stat(dir.String())
+	info, err := fx.stat(dir)
 	if err != nil {
 		return nil, err
 	}
@@ -245,7 +245,9 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		}
 	}
 
+	fx.mu.RLock()
 	fl, ok := fx.files.Load(pt)
+	fx.mu.RUnlock()
 	if !ok {
 		return nil, os.ErrNotExist
 	}
@@ -270,6 +272,14 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+
+	fx.mu.RLock()
+	defer fx.mu.RUnlock()
+
+	return fx.stat(pt)
+}
+
+func (fx *Pkger) stat(pt here.Path) (os.FileInfo, error) {
 	f, ok := fx.files.Load(pt)
 	if ok {
 		info, err := f.Stat()
-- 
2.43.0


From 56257bb7536392941b618212bbb1da3ad74bda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 34/45] fix: packing and listing a module whose go.mod is not
 valid went on with the root of the disk

The description of such a module is empty, paths were looked for below no
directory at all, and a file for a module without a name was written.
---
 cmd/pkger/cmds/pack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index ee04c2e..742d054 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -142,7 +142,11 @@ func current(out string) (here.Info, error) {
 	os.RemoveAll(filepath.Join(root, out, outName))
 
 	// what is known so far is from before that
-	return gohere.Dir(root)
+	info, err := gohere.Dir(root)
+	if err == nil && len(info.Module.Path) == 0 {
+		err = fmt.Errorf("could not load the module of %s", mod)
+	}
+	return info, err
 }
 
 func Package(info here.Info, out string, decls parser.Decls) error {
-- 
2.43.0


From 20c216107ba3b641a5a0fdd4ee8248020120863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 35/45] fix: without a module the disk implementation acted on
 the whole disk

Without the go command, or outside of a module, there is no directory that
paths are below: they were taken to be below "" or the folder of /dev/null,
so that RemoveAll, for one, removed what a path named on the real disk.
---
 pkging/stdos/stdos.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 8a7c614..2fb3300 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -24,11 +24,13 @@ func New(her here.Info) (*Pkger, error) {
 		infos: &maps.Infos{},
 		Here:  her,
 	}
-	p.infos.Store(her.ImportPath, her)
-	if len(her.ImportPath) == 0 {
+	if len(her.ImportPath) > 0 {
+		p.infos.Store(her.ImportPath, her)
+	} else if len(her.Module.Dir) > 0 {
 		// there is no Go code at the root of the module
 		p.infos.Store(her.Module.Path, her)
 	}
+	// otherwise there is no module, and no directory that paths are in
 	return p, nil
 }
 
@@ -78,6 +80,10 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 		return info, nil
 	}
 
+	if len(p) == 0 {
+		return info, fmt.Errorf("there is no module")
+	}
+
 	info, err := here.Package(p)
 	if err != nil {
 		return info, err
-- 
2.43.0


From 4c1faed070b35a6ce4b4899ed57f768de5e842a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 36/45] fix: info described a package where there is neither a
 package nor a module

---
 cmd/pkger/cmds/info.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index c326bf7..eba1f09 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -3,6 +3,7 @@ package cmds
 import (
 	"encoding/json"
 	"flag"
+	"fmt"
 	"os"
 
 	"github.com/markbates/pkger"
@@ -39,6 +40,9 @@ func (r *infoCmd) Exec(args []string) error {
 		if err != nil {
 			return err
 		}
+		if len(fi.ImportPath) == 0 && len(fi.Module.Dir) == 0 {
+			return fmt.Errorf("%s is neither a package nor part of a module", a)
+		}
 
 		enc := json.NewEncoder(os.Stdout)
 		enc.SetIndent("", " ")
-- 
2.43.0


From a85b3e9730b7ba21096ed2b1b016fd873f0764fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 37/45] fix: rehydrate files under the names they were packed
 with

The keys of the packed files are text. Parsing trims white space and
turns backslashes into slashes, so that a file "a " took the place of
"a".
---
 pkging/mem/embed.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 64fd457..397dca6 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -63,9 +63,13 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 
 	p.files = &maps.Files{}
 	for k, v := range y.Files {
-		pt, err := p.Parse(k)
-		if err != nil {
-			return err
+		// the key is text, which need not parse to the same path
+		pt := v.Path
+		if len(pt.Name) == 0 {
+			var err error
+			if pt, err = p.Parse(k); err != nil {
+				return err
+			}
 		}
 
 		f := &File{
-- 
2.43.0


From 4624f03e85ff7782f7da7f6f3902e21d1c07f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 38/45] fix: list files whose names are white space

Readdir parsed the walked names as text, which dropped such a name and
left the directory it is in.
---
 pkging/mem/file.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index e36b34f..5138f8d 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"syscall"
 	"time"
 
@@ -195,11 +196,7 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 				return nil
 			}
 
-			pt, err := f.pkging.Parse(name)
-			if err != nil {
-				return err
-			}
-			if path.Dir(pt.Name) != f.path.Name {
+			if strings.Contains(strings.TrimPrefix(name, beneath(root)), "/") {
 				return nil
 			}
 
-- 
2.43.0


From 36ad2261b9f432f32296a70a89502cd4af3842c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:08 +0000
Subject: [PATCH 39/45] fix: rehydrating JSON null panicked

json.Unmarshal sets a pointer to nil when it is given null.
---
 pkging/mem/embed.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 397dca6..2f8d460 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -51,7 +51,8 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 		Files: map[string]embed.File{},
 	}
 
-	if err := json.Unmarshal(b, &y); err != nil {
+	// not &y: null would make y nil
+	if err := json.Unmarshal(b, y); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 674a7688b0a300415f5ca7ade42183f861c65dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:08 +0000
Subject: [PATCH 40/45] fix: a serialised file without info was accepted, and
 opening it panicked

---
 pkging/mem/embed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 2f8d460..33ba631 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -2,6 +2,7 @@ package mem
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -64,6 +65,10 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 
 	p.files = &maps.Files{}
 	for k, v := range y.Files {
+		if v.Info == nil {
+			return fmt.Errorf("file %s has no info", k)
+		}
+
 		// the key is text, which need not parse to the same path
 		pt := v.Path
 		if len(pt.Name) == 0 {
-- 
2.43.0


From a8d6c36ede394d378397e9949d1ba640bdef6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 41/45] fix: a constant that is defined by itself overflowed
 the stack of the parser

---
 parser/source.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/source.go b/parser/source.go
index 55d17fa..66ed889 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -23,6 +23,7 @@ type ParsedSource struct {
 	Ast     *ast.File
 	pkg     *ast.Package
 	decls   map[string]Decls
+	within  map[*ast.Object]bool // constants that are being evaluated
 	once    sync.Once
 	err     error
 }
@@ -53,6 +54,11 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (string, error) {
 			values := p.constValues(x)
 			for i, v := range x.Names {
 				if v.Name == node.Name && i < len(values) {
+					if p.within[obj] {
+						return "", fmt.Errorf("%s is defined by itself", node.Name)
+					}
+					p.within[obj] = true
+					defer delete(p.within, obj)
 					return p.value(values[i])
 				}
 			}
@@ -127,6 +133,7 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
+	p.within = map[*ast.Object]bool{}
 
 	var rerr error
 	var fn walker = func(node ast.Node) bool {
-- 
2.43.0


From cbd95e75ef14d8063c23eea9276aede05f2192f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:21 +0000
Subject: [PATCH 42/45] fix: times of any zone and year survive JSON

The format of ModTime has no seconds for the offset of the zone, and
four digits for the year. Local mean times, which is what the system's
zone was at that instant, lost the seconds; years beyond these could not
be decoded.
---
 pkging/mod_time.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkging/mod_time.go b/pkging/mod_time.go
index d81a32c..ca4a19c 100644
--- a/pkging/mod_time.go
+++ b/pkging/mod_time.go
@@ -1,6 +1,7 @@
 package pkging
 
 import (
+	"bytes"
 	"encoding/json"
 	"time"
 )
@@ -11,10 +12,29 @@ type ModTime time.Time
 
 func (m ModTime) MarshalJSON() ([]byte, error) {
 	t := time.Time(m)
+
+	// the format has no seconds, and less than 24 hours, for the
+	// offset of the zone, and four digits for the year
+	if _, off := t.Zone(); off%60 != 0 || off <= -24*3600 || off >= 24*3600 {
+		t = t.UTC()
+	}
+	if y := t.Year(); y < 0 || y > 9999 {
+		return json.Marshal([2]int64{t.Unix(), int64(t.Nanosecond())})
+	}
+
 	return json.Marshal(t.Format(timeFmt))
 }
 
 func (m *ModTime) UnmarshalJSON(b []byte) error {
+	if bytes.HasPrefix(b, []byte("[")) {
+		var u [2]int64
+		if err := json.Unmarshal(b, &u); err != nil {
+			return err
+		}
+		(*m) = ModTime(time.Unix(u[0], u[1]))
+		return nil
+	}
+
 	t := time.Time{}
 	if err := json.Unmarshal(b, &t); err != nil {
 		return err
-- 
2.43.0


From a91ac9d1cec2524f4ad2ea538e13ef5c3c8ea085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:21 +0000
Subject: [PATCH 43/45] fix: names that are not valid UTF-8 survive packing

The strings of JSON are valid UTF-8: other names were replaced, and
files of different names were taken for the same.
---
 pkging/embed/file.go |  4 ++++
 pkging/mem/embed.go  | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkging/embed/file.go b/pkging/embed/file.go
index af239f8..40abf7a 100644
--- a/pkging/embed/file.go
+++ b/pkging/embed/file.go
@@ -11,4 +11,8 @@ type File struct {
 	Path   here.Path        `json:"path"`
 	Data   []byte           `json:"data"`
 	Parent here.Path        `json:"parent"`
+
+	// Name is the name of the path, if it is not valid UTF-8,
+	// which the strings of JSON have to be
+	Name []byte `json:"name,omitempty"`
 }
diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 33ba631..c7aaa6b 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -3,6 +3,9 @@ package mem
 import (
 	"encoding/json"
 	"fmt"
+	"path"
+	"strconv"
+	"unicode/utf8"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -27,7 +30,12 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 			Parent: f.parent,
 			Data:   f.data,
 		}
-		files[key.String()] = ef
+		k := key.String()
+		if !utf8.ValidString(k) {
+			ef.Name = []byte(key.Name)
+			k = strconv.Quote(k)
+		}
+		files[k] = ef
 		return true
 	})
 	p.mu.Unlock()
@@ -69,6 +77,11 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 			return fmt.Errorf("file %s has no info", k)
 		}
 
+		if len(v.Name) > 0 {
+			v.Path.Name = string(v.Name)
+			v.Info.Details.Name = path.Base(v.Path.Name)
+		}
+
 		// the key is text, which need not parse to the same path
 		pt := v.Path
 		if len(pt.Name) == 0 {
-- 
2.43.0


From 27f498d6bc29936ddcf5db062d5bed676dd3aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:25 +0000
Subject: [PATCH 44/45] fix: a pkger.Dir beneath a file is not found rather
 than an error

---
 pkger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkger.go b/pkger.go
index bf841b5..702ab93 100644
--- a/pkger.go
+++ b/pkger.go
@@ -1,10 +1,12 @@
 package pkger
 
 import (
+	"errors"
 	"net/http"
 	"os"
 	"path/filepath"
 	"sync"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -33,6 +35,10 @@ type Dir string
 
 func (d Dir) Open(name string) (http.File, error) {
 	f, err := impl().Open(string(d))
+	if errors.Is(err, syscall.ENOTDIR) {
+		// there is a file where the path has a directory
+		return nil, os.ErrNotExist
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3e848416207e94f32875531670da6a6ad3e76477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:54 +0000
Subject: [PATCH 45/45] fix: the in-memory package did not build on plan9

---
 pkging/mem/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 5138f8d..2257132 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -2,6 +2,7 @@ package mem
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -134,7 +135,7 @@ func (f *File) Write(b []byte) (int, error) {
 
 	if f.entry == nil {
 		// opened for reading, there is nothing to replace on Close
-		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.EBADF}
+		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: errors.New("bad file descriptor")}
 	}
 
 	if f.writer == nil {
-- 
2.43.0

