package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

// Node is a file or directory of a generated tree.
type Node struct {
	Dir   bool
	Data  []byte
	Mode  os.FileMode // permission and setuid, setgid, sticky bits
	MTime time.Time
}

// Tree maps absolute slash paths to nodes; "/" is always there.
type Tree map[string]*Node

func (t Tree) Paths() []string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func (t Tree) Dirs() []string {
	var ps []string
	for _, p := range t.Paths() {
		if t[p].Dir {
			ps = append(ps, p)
		}
	}
	return ps
}

func (t Tree) Files() []string {
	var ps []string
	for _, p := range t.Paths() {
		if !t[p].Dir {
			ps = append(ps, p)
		}
	}
	return ps
}

// names that are prefixes of each other, sort around '/', or are awkward
var nameFamilies = [][]string{
	{"a", "ab", "a.b", "a-b", "a b", "a!b", "a0", "aa", "a.txt", "a.txt.bak", "a\x01b"},
	{"dir", "dir.d", "dir-2", "dir2", "dirs", "dir!", "dir#", "dir\x01"},
	{"x", "x.html", "x.htm", "x.js", "x.json", "x.css", "x.png", "x.bin"},
	{"A", "Z", "_u", ".hid", ".h", "~t", "-dash", "@at", "=eq", "+p", ",c", "'q"},
	{"é", "日本", "ünï", "ß", "Ω.txt"},
	{"index.html", "index.htm", "indexes", "index"},
	{"100%", "%20", "a%2fb", "q?x", "h#y", "amp&", "semi;"},
	{"t.tmp", "u.tmp", "back.bak~", "node_modulesx", "vendored", "f.GO", "LICENSE", "Makefile"},
	{"public", "public2", "public.old", "templates", "assets", "img"},
	{"readme", "README", "Readme", "README.md", "readme.md", "ReadMe.md"},
	{"e\u0301", "\u00e9", "\u212b", "\u00c5", "fi", "\ufb01", "I\u0307", "i"},
	{"tab\tin", "line\nin", "bell\x07", "del\x7f", "quo\"te", "back`tick", "lt<gt>", "pipe|", "star*", "$HOME", "{br}", "(paren)", "[brack]", "co:lon", "a:", ":b"},
	{long, long + "x", long[:199], long[:199] + ".txt", "long"},
}

// names that are no text: the system takes any bytes
var rawNames = []string{"caf\xe9", "caf\xe8", "caf\ufffd", "\xff", "\xfe", "\xff\xfe.txt", "a\xc3", "a\xc3\xa9", "a\xed\xa0\x80", "\x80", "q\"\x80"}

// the checks in which names do not go through text of the harness
var rawNamesIn = map[string]bool{"C01": true, "C04": true, "C06": true, "C10": true, "C11": true, "C13": true, "C15": true, "C24": true, "C29": true}

var long = strings.Repeat("long", 50)

func genName(r *rand.Rand) string {
	f := nameFamilies[r.Intn(len(nameFamilies))]
	return f[r.Intn(len(f))]
}

func familyNames(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	f := nameFamilies[r.Intn(len(nameFamilies))]
	for tries := 0; len(out) < n && tries < 100; tries++ {
		s := f[r.Intn(len(f))]
		if r.Intn(4) == 0 {
			s = genName(r)
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

var sizes = []int{0, 0, 1, 2, 3, 10, 100, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537}

func genData(r *rand.Rand, big bool) []byte {
	var n int
	switch r.Intn(10) {
	case 0, 1, 2:
		n = sizes[r.Intn(len(sizes))]
	case 3:
		if big {
			n = 1<<20 + r.Intn(3) - 1
			break
		}
		fallthrough
	default:
		n = r.Intn(64)
	}
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
		r.Read(b)
	case 1:
		// what a Go raw string or JSON might trip over
		s := "`\\\"\x00\xff\u2028é\r\n</script>"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	case 3:
		// all zero
	default:
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
	}
	return b
}

var fileModes = []os.FileMode{0644, 0600, 0755, 0777, 0400, 0444, 0640, 0664, 0755 | os.ModeSetuid, 0644 | os.ModeSticky, 0700 | os.ModeSetgid, 0666}
var dirModes = []os.FileMode{0755, 0700, 0777, 0775, 0777 | os.ModeSticky, 0755 | os.ModeSetgid, 0750}

func genMTime(r *rand.Rand) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Unix(0, 0)
	case 1:
		return time.Unix(int64(r.Intn(2000000000)), 0)
	case 2:
		return time.Unix(-int64(r.Intn(1000000000)), int64(r.Intn(1000000000)))
	case 3:
		return time.Unix(int64(r.Intn(2000000000)), 999999999)
	case 4:
		return time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1000))*1000000)
	}
	return time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1000000000)))
}

// TreeOpts steers genTree.
type TreeOpts struct {
	N      int  // number of nodes, about
	Big    bool // files up to a megabyte
	Depth  int
	GoSafe bool // nothing the go tool would look at
	Odd    bool // modes with special bits
}

func genTree(r *rand.Rand, o TreeOpts) Tree {
	t := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}}
	if o.Depth == 0 {
		o.Depth = 5
	}
	dirs := []string{"/"}
	if o.N >= 5 && r.Intn(25) == 0 {
		// one that is nested deeply
		d := "/"
		for i := 10 + r.Intn(20); i > 0; i-- {
			d = path.Join(d, []string{"d", "e", "d.d"}[r.Intn(3)])
			t[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
		}
		t[path.Join(d, "f")] = &Node{Data: genData(r, false), Mode: 0644, MTime: genMTime(r)}
	}
	if o.N >= 10 && r.Intn(25) == 0 {
		// one with many entries
		d := "/many"
		t[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
		for i := 60 + r.Intn(100); i > 0; i-- {
			n := &Node{Data: []byte(fmt.Sprint(i)), Mode: 0644, MTime: genMTime(r)}
			if r.Intn(15) == 0 {
				n = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
			}
			t[path.Join(d, fmt.Sprintf("n%d", i))] = n
		}
	}
	o.N += len(t) - 1
	for tries := 0; len(t) < o.N && tries < o.N*5; tries++ {
		d := dirs[r.Intn(len(dirs))]
		if r.Intn(3) == 0 {
			d = dirs[len(dirs)-1]
		}
		for _, n := range familyNames(r, 1+r.Intn(4)) {
			p := path.Join(d, n)
			if _, ok := t[p]; ok || strings.Count(p, "/") > o.Depth {
				continue
			}
			if r.Intn(3) == 0 {
				m := os.FileMode(0755)
				if o.Odd {
					m = dirModes[r.Intn(len(dirModes))]
				}
				t[p] = &Node{Dir: true, Mode: m, MTime: genMTime(r)}
				dirs = append(dirs, p)
				continue
			}
			m := os.FileMode(0644)
			if o.Odd {
				m = fileModes[r.Intn(len(fileModes))]
			}
			t[p] = &Node{Data: genData(r, o.Big), Mode: m, MTime: genMTime(r)}
		}
	}
	return t
}

// write puts the tree below dir on the disk. Times are set last.
func (t Tree) write(dir string) {
	for _, p := range t.Paths() {
		n := t[p]
		fp := filepath.Join(dir, p)
		if n.Dir {
			if err := os.Mkdir(fp, 0755); err != nil && !os.IsExist(err) {
				must(err)
			}
			continue
		}
		must(os.WriteFile(fp, n.Data, 0600))
	}
	t.stamp(dir)
}

func (t Tree) stamp(dir string) {
	ps := t.Paths()
	for i := len(ps) - 1; i >= 0; i-- {
		n := t[ps[i]]
		fp := filepath.Join(dir, ps[i])
		if ps[i] != "/" {
			must(os.Chmod(fp, n.Mode))
		}
		must(os.Chtimes(fp, n.MTime, n.MTime))
	}
}

// Entry is what can be observed of a path.
type Entry struct {
	Name  string
	Size  int64
	Mode  os.FileMode
	MTime time.Time
	Dir   bool
	Data  string   // files
	Kids  []string // directories, sorted
}

func short(s string) string {
	if len(s) <= 40 {
		return fmt.Sprintf("%q", s)
	}
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%d bytes %q... sha %s", len(s), s[:16], hex.EncodeToString(h[:6]))
}

func (e Entry) String() string {
	if e.Dir {
		return fmt.Sprintf("{dir name=%q size=%d mode=%v mtime=%s kids=%q}", e.Name, e.Size, e.Mode, e.MTime.UTC().Format(time.RFC3339Nano), e.Kids)
	}
	return fmt.Sprintf("{file name=%q size=%d mode=%v mtime=%s data=%s}", e.Name, e.Size, e.Mode, e.MTime.UTC().Format(time.RFC3339Nano), short(e.Data))
}

// Snap maps "pkg:/path" to what is observed there.
type Snap map[string]Entry

func (s Snap) Keys() []string {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func infoEntry(fi os.FileInfo) Entry {
	return Entry{Name: fi.Name(), Size: fi.Size(), Mode: fi.Mode(), MTime: fi.ModTime(), Dir: fi.IsDir()}
}

// infoDiff compares metadata; mtime to the nanosecond.
func infoDiff(want, got Entry) string {
	var d []string
	if want.Name != got.Name {
		d = append(d, fmt.Sprintf("name %q, want %q", got.Name, want.Name))
	}
	if want.Size != got.Size {
		d = append(d, fmt.Sprintf("size %d, want %d", got.Size, want.Size))
	}
	if want.Mode != got.Mode {
		d = append(d, fmt.Sprintf("mode %v (%o), want %v (%o)", got.Mode, uint32(got.Mode), want.Mode, uint32(want.Mode)))
	}
	if !want.MTime.Equal(got.MTime) {
		d = append(d, fmt.Sprintf("mtime %v, want %v", got.MTime.UTC(), want.MTime.UTC()))
	}
	if want.Dir != got.Dir {
		d = append(d, fmt.Sprintf("IsDir %v, want %v", got.Dir, want.Dir))
	}
	if got.Dir != got.Mode.IsDir() {
		d = append(d, fmt.Sprintf("IsDir %v with mode %v", got.Dir, got.Mode))
	}
	return strings.Join(d, "; ")
}

// diff returns "" if the snapshots agree.
func (want Snap) diff(got Snap) string {
	for _, k := range want.Keys() {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s is missing, want %v", k, want[k])
		}
		w := want[k]
		if d := infoDiff(w, g); d != "" {
			return fmt.Sprintf("%s: %s", k, d)
		}
		if w.Data != g.Data {
			return fmt.Sprintf("%s: contents %s, want %s", k, short(g.Data), short(w.Data))
		}
		if strings.Join(w.Kids, "\x00") != strings.Join(g.Kids, "\x00") {
			return fmt.Sprintf("%s: lists %q, want %q", k, g.Kids, w.Kids)
		}
	}
	for _, k := range got.Keys() {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s should not be there: %v", k, got[k])
		}
	}
	return ""
}

// diskSnap observes a directory with the os package alone.
func diskSnap(dir, pkg string) Snap {
	s := Snap{}
	if _, err := os.Lstat(dir); os.IsNotExist(err) {
		return s
	}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if os.IsPermission(err) && fi != nil {
			return filepath.SkipDir
		}
		if err != nil {
			return err
		}
		e := infoEntry(fi)
		if fi.IsDir() {
			ents, err := os.ReadDir(p)
			if err != nil && !os.IsPermission(err) {
				return err
			}
			for _, x := range ents {
				e.Kids = append(e.Kids, x.Name())
			}
			sort.Strings(e.Kids)
		} else if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if os.IsPermission(err) {
				b, err = []byte("(not readable)"), nil
			}
			if err != nil {
				return err
			}
			e.Data = string(b)
		}
		rel := filepath.ToSlash(strings.TrimPrefix(p, dir))
		if rel == "" {
			rel = "/"
		}
		s[pkg+":"+rel] = e
		return nil
	}))
	return s
}

// sub is the part of the snapshot at and beneath root ("pkg:/path").
func (s Snap) sub(root string) Snap {
	out := Snap{}
	for k, e := range s {
		if within(k, root) {
			out[k] = e
		}
	}
	return out
}

func within(k, root string) bool {
	return k == root || strings.HasPrefix(k, strings.TrimSuffix(root, "/")+"/")
}

// relist recalculates the children of every directory from the entries
// that are there: for file systems that hold a part of a tree.
func (s Snap) relist() Snap {
	out := Snap{}
	kids := map[string][]string{}
	for k := range s {
		pkg, name := splitPath(k)
		if name != "/" {
			kids[pkg+":"+path.Dir(name)] = append(kids[pkg+":"+path.Dir(name)], path.Base(name))
		}
	}
	for k, e := range s {
		e.Kids = nil
		if e.Dir {
			e.Kids = kids[k]
			sort.Strings(e.Kids)
		}
		out[k] = e
	}
	return out
}

func splitPath(s string) (pkg, name string) {
	i := strings.Index(s, ":/")
	if i < 0 {
		return "", s
	}
	return s[:i], s[i+1:]
}

// cleanTree returns entries as a fileSystem made from the tree would show
// them. Sizes of directories are left out by the callers.
func readAll(f io.Reader) (string, error) {
	bb := &bytes.Buffer{}
	// a reader that neither ends nor fails is cut off
	n, err := io.Copy(bb, io.LimitReader(f, 64<<20))
	if n == 64<<20 {
		return "", fmt.Errorf("no end of file after %d bytes", n)
	}
	return bb.String(), err
}

// fsSnap observes a pkger file system beneath the roots ("pkg:/"), through
// Walk, Stat, Open, Read, and Readdir, which all have to agree. The error
// says what does not.
//
// Paths in text form do not keep white space around them: files with such
// names show in walks and listings only.
func fsSnap(p pkging.Pkger, roots ...string) (Snap, error) {
	s := Snap{}
	for _, root := range roots {
		var order []string
		err := p.Walk(root, func(name string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if _, ok := s[name]; ok {
				return fmt.Errorf("walk: %s visited twice", name)
			}
			if fi == nil {
				return fmt.Errorf("walk: %s without info", name)
			}
			s[name] = infoEntry(fi)
			order = append(order, name)
			return nil
		})
		if err != nil {
			if errors.Is(err, os.ErrNotExist) && len(order) == 0 {
				continue
			}
			return s, fmt.Errorf("walk %s: %v", root, err)
		}
		for _, name := range order {
			if awkward(name) {
				continue
			}
			e := s[name]
			fi, err := p.Stat(name)
			if err != nil {
				return s, fmt.Errorf("%s is walked, but Stat fails: %v", name, err)
			}
			if d := infoDiff(e, infoEntry(fi)); d != "" {
				return s, fmt.Errorf("%s: Stat differs from Walk: %s", name, d)
			}
			f, err := p.Open(name)
			if err != nil {
				return s, fmt.Errorf("%s is walked, but Open fails: %v", name, err)
			}
			if f.Name() != name || f.Path().String() != name {
				f.Close()
				return s, fmt.Errorf("%s: opened file has name %s and path %s", name, f.Name(), f.Path())
			}
			fi, err = f.Stat()
			if err != nil {
				f.Close()
				return s, fmt.Errorf("%s: Stat on the open file fails: %v", name, err)
			}
			if d := infoDiff(e, infoEntry(fi)); d != "" {
				f.Close()
				return s, fmt.Errorf("%s: Stat on the open file differs from Walk: %s", name, d)
			}
			if e.Dir {
				infos, err := f.Readdir(-1)
				if err != nil {
					f.Close()
					return s, fmt.Errorf("%s: Readdir fails: %v", name, err)
				}
				for _, x := range infos {
					e.Kids = append(e.Kids, x.Name())
				}
				sort.Strings(e.Kids)
			} else {
				e.Data, err = readAll(f)
				if err != nil {
					f.Close()
					return s, fmt.Errorf("%s: Read fails: %v", name, err)
				}
			}
			if err := f.Close(); err != nil {
				return s, fmt.Errorf("%s: Close fails: %v", name, err)
			}
			s[name] = e
		}
	}
	return s, nil
}

// errClass reduces an error to what callers can rely on.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case os.IsNotExist(err):
		return "notexist"
	}
	return "error"
}

func osClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case os.IsNotExist(err):
		return "notexist"
	case os.IsExist(err):
		return "exist"
	case os.IsPermission(err):
		return "permission"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	case errors.Is(err, syscall.EISDIR):
		return "isdir"
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, os.ErrClosed):
		return "closed"
	}
	return "error"
}

func mainInfo(dir, mod string) here.Info {
	return here.Info{
		Dir: dir, ImportPath: mod, Name: path.Base(mod),
		Module: here.Module{Path: mod, Main: true, Dir: dir, GoMod: filepath.Join(dir, "go.mod")},
	}
}

func pick(r *rand.Rand, s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[r.Intn(len(s))]
}

var zeroTime time.Time

// awkward is a name that the text form of paths does not keep.
func awkward(name string) bool { return strings.TrimSpace(name) != name }
