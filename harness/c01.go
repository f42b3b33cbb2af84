package main

import (
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C01", Level: "exploration",
		Rule:  "modules with generated trees - contents of all kinds up to a megabyte, empty files, odd names, all mode bits, times from before the epoch with nanoseconds - are packed by include lists (files, directories, roots, other modules, sub packages, in all spellings) through the parser, pkgutil.Stuff and mem.UnmarshalEmbed; each packed file system has to show, through Walk, Stat, Open, Read, Seek, Readdir and the package-level API, exactly the selected part of what the os package and the disk implementation reported before. A case counts by tree and includes.",
		Quick: 800, Thorough: 10000,
		MinObs: map[string]int{"packed": 601, "entries": 5000, "other modules": 800, "special modes": 800, "sub-second times": 3000, "large": 15, "empty": 60, "with few descriptors": 5, "names with space around": 500, "partial": 1354, "links": 100},
		Setup:  setupCode,
		Run:    runC01,
	})
}

func runC01(c *C) {
	r := c.R
	m := c.Mods
	trees := map[string]Tree{}
	pkgs := m.Pkgs[:3]
	for i, k := range pkgs {
		o := TreeOpts{N: 4 + r.Intn(16), Odd: true, Depth: 2 + r.Intn(2), Big: r.Intn(6) == 0}
		if i > 0 {
			o.N = r.Intn(8)
			o.Depth = 1 + r.Intn(2)
		}
		if c.Idx%50 == 17 && i == 0 {
			o.N = 250
		}
		t := genTree(r, o)
		for _, p := range t.Paths() {
			n := t[p]
			n.Mode |= 0400
			if n.Dir {
				n.Mode |= 0700
			}
			if i == 0 && p != "/" && r.Intn(4) == 0 {
				// permissions that only the owner's bits decide on
				n.Mode &^= 0077
			}
		}
		if i == 0 && r.Intn(2) == 0 {
			d := codeDirs[1+r.Intn(len(codeDirs)-1)]
			for x := d; x != "/"; x = path.Dir(x) {
				if t[x] == nil || !t[x].Dir {
					t[x] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
				}
			}
			t[path.Join(d, "data.bin")] = &Node{Data: genData(r, false), Mode: 0640, MTime: genMTime(r)}
		}
		if r.Intn(4) == 0 {
			// names that become those of others when they are trimmed
			ds := t.Dirs()
			d := ds[r.Intn(len(ds))]
			for _, n := range []string{"w", "w ", " w", "w\t", "w\n", " ", "v ", "w /deep", "w /deep ", "w /d /w", "w /d /w "} {
				p := path.Join(d, n)
				if t[p] != nil || r.Intn(4) == 0 {
					continue
				}
				x := path.Dir(p)
				for t[x] == nil {
					x = path.Dir(x)
				}
				if !t[x].Dir {
					continue
				}
				for x := path.Dir(p); t[x] == nil; x = path.Dir(x) {
					t[x] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
				}
				t[p] = &Node{Data: genData(r, false), Mode: 0644, MTime: genMTime(r)}
				c.Obs("names with space around", 1)
			}
		}
		trees[k] = t
	}
	m.reset(trees)
	if r.Intn(4) == 0 {
		m.link(c, pkgs, trees)
	}
	before := m.snap()
	disk := m.modSnap(pkgs...)
	dirs := map[string]string{}
	for _, p := range pkgs {
		dirs[p] = m.Dirs[p]
	}
	cp := codePkgs(m)
	for p, d := range cp {
		dirs[p] = d
	}
	// what is selected
	var includes []string
	sel := map[string]string{}
	keys := disk.Keys()
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		pkg, name := splitPath(keys[r.Intn(len(keys))])
		switch {
		case i == 0 && r.Intn(4) == 0:
			pkg, name = pkgs[r.Intn(3)], "/"
		case i == 0 && r.Intn(4) == 0:
			pkg = cur
			name = "/"
			if ds := trees[cur].Dirs(); len(ds) > 1 {
				name = ds[1+r.Intn(len(ds)-1)]
			}
		}
		if awkward(name) {
			name = path.Dir(name)
			if awkward(name) {
				name = "/"
			}
		}
		k := key{pkg, name}
		if pkg == cur {
			for _, d := range codeDirs[1:] {
				if strings.HasPrefix(name, d+"/") && cp[cur+d] != "" && r.Intn(2) == 0 {
					k = key{cur + d, strings.TrimPrefix(name, d)}
				}
			}
		} else {
			c.Obs("other modules", 1)
		}
		if k.name != "/" {
			c.Obs("partial", 1)
		}
		includes = append(includes, spell(r, k, cur))
		root := filepath.Join(dirs[k.pkg], k.name)
		must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			must(err)
			sel[key{k.pkg, path.Join(k.name, strings.TrimPrefix(p, root))}.str()] = p
			return nil
		}))
	}
	want := diskEntries(sel)
	// the disk implementation reports the same
	d := m.disk(c)
	for _, k := range want.Keys() {
		if awkward(k) {
			continue
		}
		fi, err := d.Stat(k)
		if err != nil {
			c.Fail("disk", "Stat(%s) on disk: %v", k, err)
		}
		if x := infoDiff(want[k], infoEntry(fi)); x != "" {
			c.Fail("disk", "%s on disk: %s", k, x)
		}
		e := want[k]
		c.Obs("entries", 1)
		if e.Mode&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky) != 0 {
			c.Obs("special modes", 1)
		}
		if e.MTime.Nanosecond() != 0 {
			c.Obs("sub-second times", 1)
		}
		if !e.Dir && e.Size > 1<<19 {
			c.Obs("large", 1)
		}
		if !e.Dir && e.Size == 0 {
			c.Obs("empty", 1)
		}
	}
	c.Logf("includes %q", includes)
	scarce := func() func() { return func() {} }
	if len(want) > 20 {
		// not every file at a time
		c.Obs("with few descriptors", 1)
		used := openFiles()
		scarce = func() func() { return softLimit(syscall.RLIMIT_NOFILE, uint64(used+16)) }
	}
	release := scarce()
	p := m.pack(c, includes...)
	release()
	c.Obs("packed", 1)
	if x := before.diff(m.snap()); x != "" {
		c.Fail("disk", "packing changes the disk: %s", x)
	}
	var roots []string
	for pkg := range dirs {
		roots = append(roots, pkg+":/")
	}
	sort.Strings(roots)
	check := func(how string, p pkging.Pkger) {
		got, err := fsSnap(p, roots...)
		if err != nil {
			c.Fail("consistency", "%s: %v", how, err)
		}
		if x := want.diff(got); x != "" {
			c.Fail("copy", "%s with includes %q: %s", how, includes, x)
		}
	}
	check("packed", p)
	cu, err := p.Current()
	if err != nil || cu.ImportPath != m.Main.ImportPath || cu.Module.Path != cur {
		c.Fail("current", "the current package is %s (%v), packed in %s", cu.ImportPath, err, m.Main.ImportPath)
	}
	// what was not selected is not there
	for _, k := range keys {
		if awkward(k) {
			continue
		}
		_, err := p.Stat(k)
		if _, ok := want[k]; !ok && !os.IsNotExist(err) {
			c.Fail("extra", "Stat(%s), which was not selected: %v", k, err)
		}
	}
	// the package level
	install(p)
	for _, k := range want.Keys() {
		if awkward(k) {
			continue
		}
		e := want[k]
		pkg, name := splitPath(k)
		s := spell(r, key{pkg, name}, cur)
		fi, err := pkger.Stat(s)
		if err != nil {
			c.Fail("package level", "Stat(%q): %v", s, err)
		}
		if x := infoDiff(e, infoEntry(fi)); x != "" {
			c.Fail("package level", "Stat(%q): %s", s, x)
		}
		f, err := pkger.Open(s)
		if err != nil {
			c.Fail("package level", "Open(%q): %v", s, err)
		}
		if f.Info().Module.Path != pkg && f.Info().ImportPath != pkg {
			c.Fail("package level", "%s is described as of %s, module %s", k, f.Info().ImportPath, f.Info().Module.Path)
		}
		if !e.Dir && e.Size > 0 {
			off := r.Int63n(e.Size)
			if sk, ok := f.(io.Seeker); ok {
				if _, err := sk.Seek(off, 0); err != nil {
					c.Fail("package level", "Seek: %v", err)
				}
				b, err := io.ReadAll(f)
				if err != nil || string(b) != e.Data[off:] {
					c.Fail("package level", "%s from %d: %d bytes, %v", k, off, len(b), err)
				}
			}
		}
		f.Close()
	}
	got := Snap{}
	for _, root := range roots {
		err := pkger.Walk(root, func(n string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			got[n] = infoEntry(fi)
			return nil
		})
		if err != nil {
			c.Fail("package level", "Walk(%s): %v", root, err)
		}
	}
	for _, k := range want.Keys() {
		if x := infoDiff(want[k], got[k]); x != "" {
			c.Fail("package level", "Walk: %s: %s", k, x)
		}
		delete(got, k)
	}
	if len(got) > 0 {
		c.Fail("package level", "Walk also shows %q", got.Keys())
	}
	if r.Intn(4) == 0 {
		// and once more
		c.Obs("packed", 1)
		check("packed again", m.pack(c, includes...))
	}
	c.Distinct(want.Keys(), includes, len(disk))
	c.Sample("%d of %d entries by %q", len(want), len(disk), includes)
}
