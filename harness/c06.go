package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C06", Level: "exploration",
		Rule:  "twin directories: random histories of calls to the disk implementation on three real modules, each repeated with the os package on a copy, with direct changes on the disk (files, links, modes, times) to both in between; results, error classes, bytes read, positions and metadata are compared call by call, and everything in and around the modules after each call. A case counts by its calls.",
		Quick: 500, Thorough: 9000,
		MinObs: map[string]int{"calls": 10000, "handle calls": 2493, "direct changes": 1500, "failed calls": 1500, "calls without a module": 2000},
		Setup:  setupMods,
		Run:    runC06,
	})
}

// twin is a handle of the disk implementation and one of the os package.
type twin struct {
	k key
	f pkging.File
	o *os.File
}

type c06 struct {
	c     *C
	p     pkging.Pkger
	m     *Mods
	tdir  string
	hs    []*twin
	pkgs  []string
	names []string
	last  string
}

func (x *c06) tw(k key) string { return filepath.Join(x.tdir, modDirs[k.pkg], k.name) }

// same compares how two calls ended.
func (x *c06) same(what string, got, want error) bool {
	x.c.Obs("calls", 1)
	x.last = what
	if want != nil {
		x.c.Obs("failed calls", 1)
	}
	g, w := osClass(got), osClass(want)
	x.c.Logf("%s: %v", what, got)
	if g != w {
		x.c.Fail("result", "%s: %v (%s), the os package says %v (%s)", what, got, g, want, w)
	}
	return want == nil
}

// infos compares what Stat says with the file that it is about, and with
// the twin as far as times allow.
func (x *c06) info(what string, got os.FileInfo, self string, follow bool, twin os.FileInfo) {
	var o os.FileInfo
	var err error
	if follow {
		o, err = os.Stat(self)
	} else {
		o, err = os.Lstat(self)
	}
	must(err)
	if d := infoDiff(infoEntry(o), infoEntry(got)); d != "" {
		x.c.Fail("info", "%s: %s", what, d)
	}
	if got.Mode() != twin.Mode() || got.IsDir() != twin.IsDir() || (!got.IsDir() && got.Size() != twin.Size()) || got.Name() != twin.Name() {
		x.c.Fail("info-twin", "%s: %v, the twin has %v", what, infoEntry(got), infoEntry(twin))
	}
}

// compare looks at everything that is there.
func (x *c06) compare() {
	got := x.m.snap()
	for _, pkg := range x.m.Pkgs {
		a := got.sub("base:/" + modDirs[pkg])
		b := diskSnap(filepath.Join(x.tdir, modDirs[pkg]), "base:/"+modDirs[pkg])
		bb := Snap{}
		for k, e := range b {
			k = strings.Replace(k, ":/"+modDirs[pkg]+":/", ":/"+modDirs[pkg]+"/", 1)
			k = strings.TrimSuffix(k, "/")
			if g, ok := a[k]; ok {
				e.MTime = g.MTime
				if e.Dir {
					e.Size = g.Size
				}
				if e.Mode&os.ModeSymlink != 0 {
					e.Size = g.Size
				}
			}
			bb[k] = e
		}
		if d := bb.diff(a); d != "" {
			x.c.Fail("state", "after %s: %s", x.last, d)
		}
	}
}

func init() { children["nomodule"] = childNoModule }

// childNoModule uses the disk below no module: nothing can be reached.
func childNoModule(args []string) error {
	dir := args[0]
	names := []string{"", "/", "/f", "/d", "/d/g", "/new", "/d/new/deep"}
	n := 0
	for _, x := range names {
		for _, p := range []string{dir + x, ":" + dir + x, "/.." + dir + x, x, "/null", "/shm"} {
			for op, fn := range map[string]func() error{
				"Open": func() error {
					f, err := pkger.Open(p)
					if err == nil {
						f.Close()
					}
					return err
				},
				"Dir": func() error {
					f, err := pkger.Dir("/").Open(p)
					if err == nil {
						f.Close()
					}
					return err
				},
				"Create": func() error {
					f, err := pkger.Create(p)
					if err == nil {
						f.Close()
					}
					return err
				},
				"Stat":      func() error { _, err := pkger.Stat(p); return err },
				"MkdirAll":  func() error { return pkger.MkdirAll(p, 0755) },
				"Remove":    func() error { return pkger.Remove(p) },
				"RemoveAll": func() error { return pkger.RemoveAll(p) },
				"Walk": func() error {
					return pkger.Walk(p, func(string, os.FileInfo, error) error { return nil })
				},
			} {
				n++
				if err := fn(); err == nil {
					fmt.Printf("%s(%q) works\n", op, p)
				}
			}
		}
	}
	fmt.Printf("%d calls\n", n)
	return nil
}

// noModule runs where there is no module, or no go command to find it.
func noModule(c *C) {
	r := c.R
	t := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/f": {Data: genData(r, false), Mode: 0644, MTime: genMTime(r)},
		"/d": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/d/g": {Data: genData(r, false), Mode: 0600, MTime: genMTime(r)}}
	canary := filepath.Join(c.Dir(), "canary")
	must(os.MkdirAll(canary, 0755))
	t.write(canary)
	t.stamp(canary)
	where := filepath.Join(c.Dir(), "where")
	must(os.MkdirAll(where, 0755))
	var env []string
	kind := []string{"no go command", "outside of a module", "go.mod is not valid", "go env fails"}[r.Intn(4)]
	switch kind {
	case "no go command":
		env = []string{"PATH=/nonexistent"}
		must(os.WriteFile(where+"/go.mod", []byte("module x.test/y\n"), 0644))
	case "go.mod is not valid":
		must(os.WriteFile(where+"/go.mod", []byte("modul x\n"), 0644))
	case "go env fails":
		env = []string{"GOFLAGS=-not-a-flag"}
	}
	before := diskSnap(c.Dir(), "c")
	self, err := os.Executable()
	must(err)
	so, se, code, err := runCmd(where, env, self, "-child", "nomodule", canary)
	must(err)
	c.Logf("%s: %s%s", kind, so, se)
	lines := strings.Split(strings.TrimSpace(so), "\n")
	n := 0
	fmt.Sscanf(lines[len(lines)-1], "%d calls", &n)
	if code != 0 || n == 0 {
		c.Inconclusive("the child ends with %d: %s%s", code, so, se)
	}
	if len(lines) > 1 {
		c.Fail("outside", "%s: there is no module, but %s", kind, lines[0])
	}
	if d := before.diff(diskSnap(c.Dir(), "c")); d != "" {
		c.Fail("outside", "%s: there is no module, but %s", kind, d)
	}
	c.Obs("calls without a module", n)
	c.Distinct("nomodule", kind, c.Idx)
}

func runC06(c *C) {
	if c.Idx%50 == 7 {
		noModule(c)
		return
	}
	r := c.R
	m := c.Mods
	x := &c06{c: c, m: m, tdir: filepath.Join(c.Dir(), "twin"), pkgs: []string{cur, cur, cur, otherPkgs[0], otherPkgs[1]}}
	tree := genTree(r, TreeOpts{N: 5 + r.Intn(20), Odd: r.Intn(3) == 0})
	trees := map[string]Tree{}
	for _, p := range m.Pkgs {
		t := Tree{}
		for k, n := range tree {
			cp := *n
			cp.Data = append([]byte(p+k), n.Data...)
			t[k] = &cp
		}
		trees[p] = t
	}
	m.reset(trees)
	must(os.MkdirAll(x.tdir, 0755))
	for _, p := range m.Pkgs {
		d := filepath.Join(x.tdir, modDirs[p])
		must(os.MkdirAll(d, 0755))
		for _, n := range m.fixed(p) {
			b, err := os.ReadFile(filepath.Join(m.Dirs[p], n))
			must(err)
			must(os.WriteFile(filepath.Join(d, n), b, 0644))
		}
		trees[p].write(d)
	}
	x.names = append(tree.Paths(), pathPool(r, "/tmp", 6)...)
	x.p = m.disk(c)
	canary := canarySnap(m)
	x.compare()
	var sig strings.Builder
	for i := 30 + r.Intn(20); i > 0; i-- {
		n := r.Intn(100)
		k := key{x.pkgs[r.Intn(len(x.pkgs))], x.names[r.Intn(len(x.names))]}
		if r.Intn(10) == 0 {
			k.name = path.Join(k.name, genName(r))
		}
		fmt.Fprintf(&sig, "%d %s;", n, k)
		switch {
		case n < 15:
			x.direct(k)
			continue
		case n < 45:
			x.handleCall()
		default:
			x.call(n, k)
		}
		x.compare()
	}
	for _, t := range x.hs {
		x.same("close "+t.k.String(), t.f.Close(), t.o.Close())
	}
	x.compare()
	if d := canary.diff(canarySnap(m)); d != "" {
		c.Fail("outside", "something outside the modules changed: %s", d)
	}
	c.Distinct(sig.String())
	c.Sample("names %q, calls %s", x.names, sig.String())
}

func canarySnap(m *Mods) Snap {
	s := m.snap()
	out := Snap{}
	for _, n := range canaryDirs {
		for k, e := range s.sub("base:/" + n) {
			out[k] = e
		}
	}
	e := s["base:/"]
	e.Size = 0
	out["base:/"] = e
	return out
}

// direct changes the disk behind the back of the implementation.
func (x *c06) direct(k key) {
	r := x.c.R
	if k.name == "/" {
		return
	}
	a, b := x.m.abs(k), x.tw(k)
	x.c.Obs("direct changes", 1)
	n := r.Intn(7)
	data := []byte(fmt.Sprintf("direct %d", r.Int63()))
	mt := genMTime(r)
	for _, p := range []string{a, b} {
		switch n {
		case 0, 1:
			os.WriteFile(p, data, 0644)
		case 2:
			os.MkdirAll(p, 0755)
		case 3:
			if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
				os.Chmod(p, []os.FileMode{0600, 0444, 0, 0755, 04755}[int(data[7])%5])
			}
		case 4:
			os.Chtimes(p, mt, mt)
		case 5:
			os.Symlink([]string{"x.go", "a", "./aa", "nowhere", "."}[int(data[8])%5], p)
		case 6:
			if f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0); err == nil {
				f.Write(data)
				f.Close()
			}
		}
	}
	x.c.Logf("direct %d on %s", n, k)
	x.last = fmt.Sprintf("direct change %d of %s", n, k)
	x.compare()
}

func (x *c06) open(k key, f pkging.File, o *os.File, what string, err, oerr error) {
	if !x.same(what, err, oerr) {
		return
	}
	if f.Name() != k.String() {
		x.c.Fail("name", "%s: the file is named %s, want %s", what, f.Name(), k)
	}
	if in := f.Info(); in.Dir != x.m.Dirs[k.pkg] {
		x.c.Fail("file-info", "%s: the file's package is in %s, want %s", what, in.Dir, x.m.Dirs[k.pkg])
	}
	x.hs = append(x.hs, &twin{k, f, o})
}

func (x *c06) call(n int, k key) {
	r := x.c.R
	s := spell(r, k, cur)
	a, b := x.m.abs(k), x.tw(k)
	switch {
	case n < 55:
		f, err := x.p.Open(s)
		o, oerr := os.Open(b)
		x.open(k, f, o, fmt.Sprintf("Open(%q)", s), err, oerr)
	case n < 65:
		f, err := x.p.Create(s)
		o, oerr := os.Create(b)
		x.open(k, f, o, fmt.Sprintf("Create(%q)", s), err, oerr)
	case n < 74:
		fi, err := x.p.Stat(s)
		o, oerr := os.Stat(b)
		if x.same(fmt.Sprintf("Stat(%q)", s), err, oerr) {
			x.info(x.last, fi, a, true, o)
		}
	case n < 82:
		perm := []os.FileMode{0755, 0700, 0777, 0750}[r.Intn(4)]
		if r.Intn(6) == 0 {
			perm = []os.FileMode{0555, 0500, 0400, 0300, 0577, 0, 0100, os.ModeSticky | 0777, os.ModeSetgid | 0755, 0707}[r.Intn(10)]
			x.c.Obs("odd permissions", 1)
		}
		x.same(fmt.Sprintf("MkdirAll(%q, %o)", s, perm), x.p.MkdirAll(s, perm), os.MkdirAll(b, perm))
	case n < 88:
		if k.name == "/" {
			return
		}
		x.same(fmt.Sprintf("Remove(%q)", s), x.p.Remove(s), os.Remove(b))
	case n < 92:
		if k.name == "/" {
			return
		}
		x.same(fmt.Sprintf("RemoveAll(%q)", s), x.p.RemoveAll(s), os.RemoveAll(b))
	case n < 95:
		fi, err := os.Lstat(a)
		if err != nil || !fi.IsDir() || k.name == "/" {
			return
		}
		// a directory that cannot be entered
		fb, err := os.Lstat(b)
		must(err)
		must(os.Chmod(a, 0))
		must(os.Chmod(b, 0))
		k2 := key{k.pkg, path.Join(k.name, "a")}
		_, err = x.p.Stat(k2.String())
		_, oerr := os.Stat(x.tw(k2))
		x.same(fmt.Sprintf("Stat(%s) in a closed directory", k2), err, oerr)
		err = x.p.RemoveAll(k.String() + "/a")
		oerr = os.RemoveAll(b + "/a")
		x.same(fmt.Sprintf("RemoveAll(%s/a) in a closed directory", k), err, oerr)
		must(os.Chmod(a, fi.Mode()))
		must(os.Chmod(b, fb.Mode()))
	default:
		var got, want []string
		var infos []Entry
		err := x.p.Walk(s, func(name string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			got = append(got, name)
			infos = append(infos, infoEntry(fi))
			return nil
		})
		var selfs []Entry
		werr := filepath.Walk(a, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n := strings.TrimPrefix(p, x.m.Dirs[k.pkg])
			want = append(want, key{k.pkg, path.Clean("/" + n)}.String())
			selfs = append(selfs, infoEntry(fi))
			return nil
		})
		x.same(fmt.Sprintf("Walk(%q)", s), err, werr)
		for i := range got {
			if i >= len(want) || got[i] != want[i] {
				x.c.Fail("walk", "Walk(%q): visits %q, want %q", s, got, want)
			}
			if d := infoDiff(selfs[i], infos[i]); d != "" {
				x.c.Fail("walk-info", "Walk(%q): %s: %s", s, got[i], d)
			}
		}
		if len(got) != len(want) {
			x.c.Fail("walk", "Walk(%q): visits %q, want %q", s, got, want)
		}
	}
}

func (x *c06) handleCall() {
	if len(x.hs) == 0 {
		return
	}
	r := x.c.R
	i := r.Intn(len(x.hs))
	t := x.hs[i]
	x.c.Obs("handle calls", 1)
	switch n := r.Intn(12); {
	case n < 4:
		size := []int{0, 1, 5, 512, 70000}[r.Intn(5)]
		a, b := make([]byte, size), make([]byte, size)
		na, ea := t.f.Read(a)
		nb, eb := t.o.Read(b)
		x.same(fmt.Sprintf("Read(%d) of %s", size, t.k), ea, eb)
		if na != nb || !bytes.Equal(a, b) {
			x.c.Fail("read", "Read(%d) of %s = %d %s, the twin reads %d %s", size, t.k, na, short(string(a[:na])), nb, short(string(b[:nb])))
		}
	case n < 6:
		off, wh := []int64{0, 1, -1, 10, -3, 100000}[r.Intn(6)], r.Intn(3)
		if fi, err := t.o.Stat(); err == nil && fi.IsDir() {
			off, wh = 0, 0
		}
		na, ea := t.f.Seek(off, wh)
		nb, eb := t.o.Seek(off, wh)
		x.same(fmt.Sprintf("Seek(%d,%d) of %s", off, wh, t.k), ea, eb)
		if na != nb {
			x.c.Fail("seek", "Seek(%d,%d) of %s = %d, the twin %d", off, wh, t.k, na, nb)
		}
	case n < 8:
		b := genData(r, false)
		na, ea := t.f.Write(b)
		nb, eb := t.o.Write(b)
		x.same(fmt.Sprintf("Write(%d) to %s", len(b), t.k), ea, eb)
		if na != nb {
			x.c.Fail("write", "Write(%d) to %s = %d, the twin %d", len(b), t.k, na, nb)
		}
	case n < 10:
		fa, ea := t.f.Stat()
		fb, eb := t.o.Stat()
		if eb != nil {
			return // a closed handle may remember
		}
		x.same("Stat on the open "+t.k.String(), ea, eb)
		if fa.Mode() != fb.Mode() || fa.Name() != fb.Name() || (!fa.IsDir() && fa.Size() != fb.Size()) {
			x.c.Fail("handle-stat", "Stat on the open %s: %v, the twin %v", t.k, infoEntry(fa), infoEntry(fb))
		}
		// where the path still is this file, so is its time
		if o, err := os.Stat(x.tw(t.k)); err == nil && os.SameFile(o, fb) {
			o, err := os.Stat(x.m.abs(t.k))
			must(err)
			if d := infoDiff(infoEntry(o), infoEntry(fa)); d != "" {
				x.c.Fail("handle-stat", "Stat on the open %s: %s", t.k, d)
			}
			x.c.Obs("handle stats", 1)
		}
	case n < 11:
		ia, ea := t.f.Readdir(-1)
		ib, eb := t.o.Readdir(-1)
		x.same("Readdir of "+t.k.String(), ea, eb)
		if a, b := names(ia), names(ib); a != b {
			x.c.Fail("readdir", "Readdir of %s: %s, the twin %s", t.k, a, b)
		}
	default:
		x.same("Close of "+t.k.String(), t.f.Close(), t.o.Close())
		if r.Intn(3) > 0 {
			x.hs = append(x.hs[:i], x.hs[i+1:]...)
		}
	}
}

func names(fis []os.FileInfo) string {
	var s []string
	for _, fi := range fis {
		s = append(s, fmt.Sprintf("%s %v", fi.Name(), fi.Mode()))
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}
