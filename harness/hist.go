package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// hist drives an in-memory file system and the model side by side.
type hist struct {
	c     *C
	p     *mem.Pkger
	m     *model
	cur   string
	pkgs  []string
	names []string
	spell bool
	open  []*whandle
	last  Snap
	seq   int
	snaps bool // compare full snapshots after every step
}

// whandle is a file that was created and is not closed yet.
type whandle struct {
	k    key
	f    pkging.File
	data []byte
	live bool // the path still is this file
}

const cur = "example.test/app"

var otherPkgs = []string{"example.test/app2", "other.test/lib", "example.test/app/sub"}

func appInfo(r *rand.Rand) here.Info {
	return mainInfo([]string{"/app", "/src/app", "/a", "/home/u/dir", "/x"}[r.Intn(5)], cur)
}

// conflictFree is the tree without what spells the directory of the
// module: a path beneath it means the file on disk.
func conflictFree(t Tree, dir string) Tree {
	first := "/" + strings.SplitN(dir, "/", 3)[1]
	for p := range t {
		if within(p, first) {
			delete(t, p)
		}
	}
	return t
}

// pathPool makes paths, none of which spells the directory of the module.
func pathPool(r *rand.Rand, dir string, n int) []string {
	seen := map[string]bool{}
	var out []string
	first := familyNames(r, 4)
	second := familyNames(r, 3)
	depth := 4
	if r.Intn(10) == 0 {
		depth = 30
	}
	for tries := 0; len(out) < n && tries < 20*n; tries++ {
		p := "/" + first[r.Intn(len(first))]
		for d := r.Intn(depth); d > 0; d-- {
			p += "/" + second[r.Intn(len(second))]
		}
		if n > 20 && r.Intn(3) > 0 {
			p += fmt.Sprintf("%d", r.Intn(4*n))
		}
		if p == dir || within(p, dir) || within(dir, p) || len(p) > 1500 {
			continue
		}
		// parents of what is there, more often than not
		if len(out) > 0 && r.Intn(3) == 0 {
			p = path.Dir(out[r.Intn(len(out))])
			if p == "/" && r.Intn(4) > 0 {
				continue
			}
		}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func newHist(c *C, embedded bool, npkgs int) *hist {
	r := c.R
	info := appInfo(r)
	h := &hist{c: c, cur: cur, spell: true, snaps: true}
	h.pkgs = append([]string{cur}, otherPkgs[:npkgs-1]...)
	n := 5 + r.Intn(8)
	if r.Intn(60) == 0 {
		n = 30 + r.Intn(60)
	}
	h.names = pathPool(r, info.Dir, n)
	if embedded || npkgs > 1 {
		trees := map[string]Tree{}
		for _, pkg := range h.pkgs {
			if r.Intn(5) == 0 && pkg != cur {
				continue
			}
			t := Tree{}
			for _, n := range h.names {
				switch r.Intn(4) {
				case 0:
					t[n] = &Node{Data: []byte(fmt.Sprintf("%s embedded %s %d", pkg, n, r.Intn(1000))), Mode: fileModes[r.Intn(len(fileModes))], MTime: genMTime(r)}
				case 1:
					t[n] = &Node{Dir: true, Mode: dirModes[r.Intn(len(dirModes))], MTime: genMTime(r)}
				}
			}
			// a file has nothing beneath it; sometimes parents are missing
			for _, p := range t.Paths() {
				for d := path.Dir(p); d != "/"; d = path.Dir(d) {
					if n := t[d]; n != nil {
						n.Dir, n.Data = true, nil
						n.Mode = n.Mode.Perm()
					} else if r.Intn(5) > 0 {
						t[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
					}
				}
			}
			if r.Intn(4) > 0 {
				t["/"] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
			}
			trees[pkg] = t
		}
		h.p, h.m = memFS(info, h.pkgs, trees)
		for _, k := range h.m.keys() {
			c.Logf("embedded %s dir=%v", k, h.m.m[k].dir)
		}
	} else {
		if r.Intn(4) == 0 {
			// no Go code at the root of the module
			info.ImportPath, info.Name = "", ""
			c.Obs("without code at the root", 1)
		}
		p, err := mem.New(info)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
		h.p, h.m = p, newModel()
	}
	h.snapshot("start")
	return h
}

func (h *hist) key() key {
	r := h.c.R
	k := key{h.pkgs[r.Intn(len(h.pkgs))], h.names[r.Intn(len(h.names))]}
	if r.Intn(25) == 0 {
		k.name = "/"
	}
	return k
}

func (h *hist) str(k key) string {
	if !h.spell {
		return k.String()
	}
	return spell(h.c.R, k, h.cur)
}

func (h *hist) roots() []string {
	var rs []string
	for _, p := range h.pkgs {
		rs = append(rs, p+":/")
	}
	return rs
}

func (h *hist) expect(op string, k key, s string, err error, want string) {
	got := errClass(err)
	h.c.Logf("%s(%q) = %v", op, s, err)
	h.c.Obs("op:"+op+":"+got, 1)
	if want == "error" && got == "notexist" && op != "open" && op != "stat" {
		got = "error"
	}
	if got != want {
		h.c.Fail(op+"-result", "%s(%q): %v (%s), want %s", op, s, err, got, want)
	}
}

func (h *hist) handle(k key) *whandle {
	for _, w := range h.open {
		if w.k == k && w.live {
			return w
		}
	}
	return nil
}

// kill marks the handles whose file is gone from the tree
func (h *hist) kill(root key) {
	for _, w := range h.open {
		if w.k.within(root) {
			w.live = false
		}
	}
}

func (h *hist) data() []byte {
	h.seq++
	r := h.c.R
	s := fmt.Sprintf("<%d.%d>", h.c.Idx, h.seq)
	if r.Intn(10) == 0 {
		return nil
	}
	if r.Intn(10) == 0 {
		return []byte(strings.Repeat(s, 1+r.Intn(3000)))
	}
	if r.Intn(6) == 0 {
		return append([]byte(s), genData(r, false)...)
	}
	return []byte(strings.Repeat(s, 1+r.Intn(4)))
}

// step performs one operation.
func (h *hist) step() {
	r := h.c.R
	k := h.key()
	switch x := r.Intn(100); {
	case x < 26:
		h.createClosed(k)
	case x < 34:
		h.create(k)
	case x < 42:
		if len(h.open) > 0 {
			h.finish(r.Intn(len(h.open)))
		}
	case x < 58:
		h.mkdirAll(k)
	case x < 66:
		h.remove(k)
	case x < 74:
		h.removeAll(k)
	case x < 82:
		h.read(k)
	case x < 90:
		h.stat(k)
	default:
		h.walk(k)
	}
}

func (h *hist) create(k key) bool {
	if h.handle(k) != nil {
		return false // two writers of one file are not specified
	}
	s := h.str(k)
	before := h.m.clone()
	want := h.m.create(k)
	if want == "notexist" {
		// which error a missing parent gives does not matter
		want = "error"
	}
	f, err := h.p.Create(s)
	h.expect("create", k, s, err, want)
	if want != "ok" {
		h.m = before
		h.snapshot("create")
		return false
	}
	if f.Name() != k.String() {
		h.c.Fail("create-name", "Create(%q) gave a file named %s", s, f.Name())
	}
	h.open = append(h.open, &whandle{k: k, f: f, live: true})
	h.snapshot("create")
	return true
}

func (h *hist) write(w *whandle) {
	for i := h.c.R.Intn(4); i > 0; i-- {
		b := h.data()
		n, err := w.f.Write(b)
		h.c.Logf("write %d bytes to %s = %d %v", len(b), w.k, n, err)
		if n != len(b) || err != nil {
			h.c.Fail("write", "Write of %d bytes to %s = %d, %v", len(b), w.k, n, err)
		}
		w.data = append(w.data, b...)
		// the buffer is the caller's
		for i := range b {
			b[i] = '!'
		}
	}
}

// finish writes some more, and closes the file.
func (h *hist) finish(i int) {
	w := h.open[i]
	h.write(w)
	err := w.f.Close()
	h.c.Logf("close %s = %v (live %v)", w.k, err, w.live)
	if err != nil {
		h.c.Fail("close", "Close of %s: %v", w.k, err)
	}
	h.open = append(h.open[:i], h.open[i+1:]...)
	if w.live {
		h.m.m[w.k].data = string(w.data)
	}
	h.c.Obs("op:close", 1)
	h.snapshot("close")
}

func (h *hist) createClosed(k key) {
	if h.create(k) {
		h.finish(len(h.open) - 1)
	}
}

func (h *hist) mkdirAll(k key) {
	perm := []os.FileMode{0755, 0700, 0777, 0500, 0}[h.c.R.Intn(5)]
	s := h.str(k)
	before := h.m.clone()
	want := h.m.mkdirAll(k, perm)
	err := h.p.MkdirAll(s, perm)
	h.expect("mkdirall", k, s, err, want)
	if want != "ok" {
		h.m = before
	}
	h.snapshot("mkdirall")
}

func (h *hist) remove(k key) {
	s := h.str(k)
	want := h.m.remove(k)
	err := h.p.Remove(s)
	h.c.Logf("remove(%q) = %v", s, err)
	got := errClass(err)
	h.c.Obs("op:remove:"+want, 1)
	if got != want {
		h.c.Fail("remove-result", "Remove(%q): %v, want %s", s, err, want)
	}
	if want == "ok" {
		h.kill(k)
	}
	h.snapshot("remove")
}

func (h *hist) removeAll(k key) {
	s := h.str(k)
	h.m.removeAll(k)
	err := h.p.RemoveAll(s)
	h.expect("removeall", k, s, err, "ok")
	h.kill(k)
	h.snapshot("removeall")
}

func (h *hist) stat(k key) {
	s := h.str(k)
	n := h.m.m[k]
	fi, err := h.p.Stat(s)
	if n == nil {
		h.expect("stat", k, s, err, "notexist")
		return
	}
	h.expect("stat", k, s, err, "ok")
	if fi.IsDir() != n.dir {
		h.c.Fail("stat-dir", "Stat(%q): IsDir %v", s, fi.IsDir())
	}
}

func (h *hist) read(k key) {
	s := h.str(k)
	n := h.m.m[k]
	f, err := h.p.Open(s)
	if n == nil {
		h.expect("open", k, s, err, "notexist")
		return
	}
	h.expect("open", k, s, err, "ok")
	defer f.Close()
	if n.dir || h.handle(k) != nil {
		return
	}
	got, err := readAll(f)
	if err != nil || got != n.data {
		h.c.Fail("read", "reading %q: %s, %v; want %s", s, short(got), err, short(n.data))
	}
}

// walk checks the set that is visited; C08 looks at order and pruning.
func (h *hist) walk(k key) {
	s := h.str(k)
	want := map[string]bool{}
	for x := range h.m.m {
		if x.within(k) {
			want[x.String()] = true
		}
	}
	_, there := h.m.m[k]
	got := map[string]bool{}
	err := h.p.Walk(s, func(name string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if got[name] {
			h.c.Fail("walk-twice", "Walk(%q) visits %s twice", s, name)
		}
		got[name] = true
		return nil
	})
	h.c.Logf("walk(%q) = %d entries, %v", s, len(got), err)
	h.c.Obs("op:walk", 1)
	if there && err != nil {
		h.c.Fail("walk-err", "Walk(%q): %v", s, err)
	}
	for x := range want {
		if !got[x] {
			h.c.Fail("walk-miss", "Walk(%q) does not visit %s", s, x)
		}
	}
	for x := range got {
		if !want[x] {
			h.c.Fail("walk-extra", "Walk(%q) visits %s", s, x)
		}
	}
}

// snapshot compares everything that can be observed with the model, and
// the metadata of everything that was not touched with what it was before.
func (h *hist) snapshot(op string) {
	if !h.snaps {
		return
	}
	s, err := fsSnap(h.p, h.roots()...)
	if err != nil {
		h.c.Fail("consistency", "after %s: %v", op, err)
	}
	h.c.Obs("snapshots", 1)
	h.c.Obs("entries", len(s))
	m := h.m
	if len(h.open) > 0 {
		// the contents of a file being written are not specified
		m = m.clone()
		for _, w := range h.open {
			if w.live {
				e, ok := s[w.k.String()]
				if ok {
					m.m[w.k].data = e.Data
				}
			}
		}
	}
	if d := m.matches(s, nil); d != "" {
		h.c.Fail(op+"-state", "after %s: %s", op, d)
	}
	if h.last != nil {
		for k, e := range s {
			old, ok := h.last[k]
			if !ok {
				continue
			}
			same := old.Dir == e.Dir && old.Data == e.Data && old.Mode == e.Mode
			if same && e.Dir && op != "removeall" && !old.MTime.Equal(e.MTime) {
				h.c.Fail(op+"-touch", "after %s: modification time of %s went from %v to %v", op, k, old.MTime, e.MTime)
			}
			if same && !e.Dir && !old.MTime.Equal(e.MTime) && op != "close" && op != "create" {
				h.c.Fail(op+"-touch", "after %s: modification time of %s went from %v to %v", op, k, old.MTime, e.MTime)
			}
		}
	}
	h.last = s
}

// end closes what is open.
func (h *hist) end() {
	for len(h.open) > 0 {
		h.finish(len(h.open) - 1)
	}
}

// sigOf is the shape of a state, for counting distinct ones.
func (m *model) sigOf() string {
	var b strings.Builder
	for _, k := range m.keys() {
		n := m.m[k]
		fmt.Fprintf(&b, "%s %v %d;", k, n.dir, len(n.data))
	}
	return b.String()
}

func base(p string) string { return filepath.Base(p) }
