package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C24", Level: "exploration",
		Rule:  "disk trees in the main module and two others; files and directories are added in random order to in-memory file systems, empty, created or rehydrated: opened by absolute, relative and roundabout names, fresh, partly read and read to the end, several per call, again after changes on the disk, through Add and AddPath. After each call everything observable has to be what it was, overlaid with what the os package reports for what was added; then the disk and everything that was handed out - buffers, file infos, listings - is changed, and the copy compared again. Unreadable files and closed handles have to be refused. A case counts by tree and calls.",
		Quick: 1200, Thorough: 10000,
		MinObs: map[string]int{"adds": 2560, "entries added": 8364, "disk changes": 2788, "infos modified": 10000, "partly read": 200, "refused": 100, "other modules": 300, "not at the root of the module": 100, "with few descriptors": 30, "relative": 500, "again": 381},
		Setup:  setupMods,
		Run:    runC24,
	})
}

func runC24(c *C) {
	r := c.R
	m := c.Mods
	pkgs := m.Pkgs[:3]
	roots := []string{otherMod + ":/"}
	trees := map[string]Tree{}
	for i, k := range pkgs {
		roots = append(roots, k+":/")
		o := TreeOpts{N: 5 + r.Intn(14), Odd: true, Depth: 3, Big: r.Intn(15) == 0}
		if i > 0 {
			o.N = r.Intn(6)
			o.Depth = 1
		}
		trees[k] = genTree(r, o)
		for _, n := range trees[k] {
			n.Mode |= 0400
			if n.Dir {
				n.Mode |= 0700
			}
		}
	}
	m.reset(trees)
	var p interface {
		pkging.Pkger
		pkging.Adder
		AddPath(here.Path, *os.File) error
	}
	switch r.Intn(3) {
	case 0:
		p = m.mem(c)
	case 1:
		f, err := memFSEmpty(c, m)
		must(err)
		p = f
	default:
		// with entries of its own, also under the same names
		t := Tree{"/": {Dir: true, Mode: 0700, MTime: genMTime(r)}}
		for _, n := range trees[cur].Paths() {
			if r.Intn(3) == 0 && n != "/" {
				t[n] = &Node{Dir: trees[cur][n].Dir, Data: []byte("older"), Mode: 0640, MTime: genMTime(r)}
				if t[n].Dir {
					t[n].Data = nil
					t[n].Mode = 0700
				}
			}
		}
		t["/mem.only"] = &Node{Data: []byte("stays"), Mode: 0600, MTime: genMTime(r)}
		f, _ := memFS(m.Main, m.Pkgs, map[string]Tree{cur: t, otherPkgs[2]: t})
		p = f
	}
	roots = append(roots, otherPkgs[2]+":/")
	snap := func(when string) Snap {
		s, err := fsSnap(p, roots...)
		if err != nil {
			c.Fail("consistency", "%s: %v", when, err)
		}
		return s
	}
	want := snap("at first")
	added := map[string]bool{}
	var sig strings.Builder
	for step := 2 + r.Intn(6); step > 0; step-- {
		n := 1
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(3)
		}
		var files []*os.File
		var overlay []Snap
		what := ""
		viaPath := r.Intn(5) == 0
		if viaPath {
			n = 1
		}
		var pt here.Path
		refuse := false
		for i := 0; i < n; i++ {
			pkg := pkgs[0]
			if r.Intn(4) == 0 {
				pkg = pkgs[r.Intn(len(pkgs))]
			}
			if pkg != cur {
				c.Obs("other modules", 1)
			}
			names := m.modSnap(pkg).Keys()
			if len(names) == 0 {
				continue
			}
			k := names[r.Intn(len(names))]
			if r.Intn(12) == 0 {
				k = pkg + ":/"
			}
			_, name := splitPath(k)
			abs := m.abs(key{pkg, name})
			if name == "/" {
				abs = m.Dirs[pkg]
			}
			as := abs
			how := r.Intn(4)
			if viaPath {
				how = 3
			}
			switch how {
			case 0:
				rel, err := filepath.Rel(m.Dirs[cur], abs)
				must(err)
				as = rel
				if r.Intn(2) == 0 && !strings.HasPrefix(as, "..") {
					as = "./" + as
				}
				c.Obs("relative", 1)
			case 1:
				as = filepath.Dir(abs) + "/./../" + filepath.Base(filepath.Dir(abs)) + "//" + filepath.Base(abs)
			}
			f, err := os.Open(as)
			must(err)
			fi, err := f.Stat()
			must(err)
			if !fi.IsDir() {
				switch r.Intn(4) {
				case 0:
					f.Read(make([]byte, 1+r.Intn(20)))
					c.Obs("partly read", 1)
				case 1:
					readAll(f)
				case 2:
					f.Seek(int64(r.Intn(100)), 0)
				}
			} else if r.Intn(4) == 0 {
				f.Readdir(1 + r.Intn(2))
			}
			what += fmt.Sprintf(" %s(as %s)", k, as)
			if added[k] {
				c.Obs("again", 1)
			}
			added[k] = true
			files = append(files, f)
			s := m.modSnap(pkg).sub(k)
			if viaPath {
				pt = here.Path{Pkg: pkg, Name: name}
				s = Snap{k: s[k]}
			} else if modOf(pkg) != pkg {
				// kept by the module that the package is in
				in := Snap{}
				for k, e := range s {
					_, name := splitPath(k)
					in[modOf(pkg)+":"+path.Join(strings.TrimPrefix(pkg, modOf(pkg)), name)] = e
				}
				s = in
				c.Obs("not at the root of the module", 1)
			}
			overlay = append(overlay, s)
		}
		// something in the way
		var closed *os.File
		var lock string
		if r.Intn(8) == 0 && len(files) > 0 {
			if r.Intn(2) == 0 {
				closed = files[r.Intn(len(files))]
				closed.Close()
				refuse = true
			} else if !viaPath {
				s := overlay[len(overlay)-1]
				for _, k := range s.Keys() {
					if pkg, nm := splitPath(k); !s[k].Dir && files[len(files)-1].Name() != "" && len(s) > 1 {
						lock = filepath.Join(m.Dirs[pkg], nm)
						must(os.Chmod(lock, 0))
						refuse = true
						break
					}
				}
			}
		}
		var err error
		release := func() {}
		if n := 0; r.Intn(4) == 0 {
			for _, s := range overlay {
				n += len(s)
			}
			if n > 12 {
				// not every file at a time
				c.Obs("with few descriptors", 1)
				release = softLimit(syscall.RLIMIT_NOFILE, uint64(openFiles()+8))
			}
		}
		if viaPath && len(files) == 1 {
			what = "AddPath" + what
			err = p.AddPath(pt, files[0])
		} else {
			what = "Add" + what
			err = p.Add(files...)
		}
		release()
		for _, f := range files {
			f.Close()
		}
		c.Logf("%s: %v", what, err)
		fmt.Fprintf(&sig, "%s;", what)
		if refuse {
			if lock != "" {
				must(os.Chmod(lock, 0644))
			}
			if err == nil {
				c.Fail("swallowed", "%s succeeds, but %s cannot be read", what, lock)
			}
			c.Obs("refused", 1)
			// what is not named is as it was
			got := snap(what)
			for _, s := range overlay {
				for k := range s {
					delete(got, k)
					delete(want, k)
				}
			}
			if d := want.relist().diff(got.relist()); d != "" {
				c.Fail("untouched", "after %s, which fails: %s", what, d)
			}
			return
		}
		if err != nil {
			c.Fail("add", "%s: %v", what, err)
		}
		c.Obs("adds", 1)
		for _, s := range overlay {
			for k, e := range s {
				want[k] = e
				c.Obs("entries added", 1)
			}
		}
		want = want.relist()
		if d := want.diff(snap(what)); d != "" {
			c.Fail("copy", "after %s: %s", what, d)
		}
		for k := range want {
			pkg, _ := splitPath(k)
			f, err := p.Open(k)
			if err != nil {
				c.Fail("open", "Open(%s): %v", k, err)
			}
			if f.Info().Module.Path != modOf(pkg) {
				c.Fail("module", "%s is described as of module %q", k, f.Info().Module.Path)
			}
			f.Close()
		}
		if r.Intn(3) == 0 {
			meddle(c, p, want, roots)
			if d := want.diff(snap("after meddling")); d != "" {
				c.Fail("shared", "after %s, and changes to what was handed out: %s", what, d)
			}
		}
		for i := r.Intn(4); i > 0; i-- {
			changeDisk(c, m, pkgs[r.Intn(len(pkgs))])
		}
		if d := want.diff(snap("after changes on the disk")); d != "" {
			c.Fail("not a copy", "after %s, and changes on the disk: %s", what, d)
		}
	}
	c.Distinct(sig.String())
	c.Sample("%s", sig.String())
}

// meddle changes everything that the file system hands out.
func meddle(c *C, p pkging.Pkger, s Snap, roots []string) {
	spoil := func(fi os.FileInfo) {
		if x, ok := fi.(*pkging.FileInfo); ok && x != nil {
			x.Details.Name = "spoiled"
			x.Details.Size = -7
			x.Details.Mode = 0
			x.Details.IsDir = !x.Details.IsDir
			x.Details.ModTime = pkging.ModTime(time.Time{})
			c.Obs("infos modified", 1)
		}
	}
	for _, k := range s.Keys() {
		fi, err := p.Stat(k)
		if err == nil {
			spoil(fi)
		}
		f, err := p.Open(k)
		if err != nil {
			continue
		}
		if s[k].Dir {
			infos, _ := f.Readdir(-1)
			for i := range infos {
				spoil(infos[i])
				infos[i] = nil
			}
		} else {
			b := make([]byte, len(s[k].Data)+10)
			n, _ := f.Read(b)
			for i := range b[:n] {
				b[i] ^= 0xff
			}
		}
		if fi, err := f.Stat(); err == nil {
			spoil(fi)
		}
		f.Close()
	}
	for _, root := range roots {
		p.Walk(root, func(n string, fi os.FileInfo, err error) error {
			d := fi.IsDir()
			spoil(fi)
			_ = d
			return nil
		})
	}
}

// changeDisk changes something in the module of the package.
func changeDisk(c *C, m *Mods, pkg string) {
	r := c.R
	s := m.modSnap(pkg)
	ks := s.Keys()
	k := ks[r.Intn(len(ks))]
	_, name := splitPath(k)
	if name == "/go.mod" || name == "/x.go" {
		return
	}
	abs := m.abs(key{pkg, name})
	e := s[k]
	c.Obs("disk changes", 1)
	c.Logf("disk: %s", k)
	if e.Dir {
		n := filepath.Join(abs, genName(r))
		switch _, err := os.Lstat(n); {
		case err == nil:
		case r.Intn(3) == 0:
			must(os.Mkdir(n, 0755))
		case strings.HasSuffix(n, ".go"):
		default:
			must(os.WriteFile(n, genData(r, false), 0644))
		}
		return
	}
	switch r.Intn(6) {
	case 0:
		os.Remove(abs)
	case 1:
		must(os.Chmod(abs, 0400|fileModes[r.Intn(len(fileModes))]))
	case 2:
		mt := genMTime(r)
		must(os.Chtimes(abs, mt, mt))
	case 3:
		// in place
		os.Chmod(abs, 0644)
		f, err := os.OpenFile(abs, os.O_WRONLY, 0)
		must(err)
		f.WriteAt([]byte("XXXXX"), int64(r.Intn(10)))
		f.Close()
	case 4:
		os.Chmod(abs, 0644)
		must(os.Truncate(abs, int64(r.Intn(20))))
	default:
		os.Remove(abs)
		must(os.WriteFile(abs, genData(r, false), 0644))
	}
}
