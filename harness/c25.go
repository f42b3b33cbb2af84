package main

import (
	"fmt"
	"net/http"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C25", Level: "exploration",
		Rule:  "three packages with overlapping trees in which every file holds its own identity, as embedded, created and disk file systems; names with '..', repeated slashes, package prefixes, absolute paths and names of files that exist elsewhere are opened through directory handles, through handles opened from handles, and through pkger.Dir; what comes back has to be the file that the clean joined path denotes, or an error if there is none. A case counts by its directories and names.",
		Quick: 700, Thorough: 12000,
		MinObs: map[string]int{"opens": 20000, "found": 5000, "traversals": 8000},
		Setup:  setupMods,
		Run:    runC25,
	})
}

func hostileName(c *C, t Tree, m *Mods, dir string) string {
	r := c.R
	parts := []string{"..", "..", "..", ".", "", "/", "//", "...", "x.go", "go.mod", "app", "a", "canary", "a.txt", "etc", "passwd"}
	var s string
	switch r.Intn(9) {
	case 0: // something that is there, seen from the directory
		p := pick(r, t.Paths())
		s = strings.TrimPrefix(p, strings.TrimSuffix(dir, "/"))
	case 1: // something that is there, elsewhere
		s = pick(r, t.Paths())
	case 2: // up and down again
		s = strings.Repeat("../", 1+r.Intn(5)) + pick(r, []string{"a.txt", "canary/a.txt", "app/x.go", "other/lib/x.go", "other/x.go", "app2/go.mod", "x.go", "etc/passwd"})
	case 3:
		s = strings.Repeat("/..", 1+r.Intn(4)) + pick(r, t.Paths())
	case 4: // another package
		s = pick(r, append([]string{cur, "pkg"}, otherPkgs...)) + ":" + pick(r, t.Paths())
	case 5: // on the disk
		s = m.Base + "/" + pick(r, []string{"canary/a.txt", "ap/a.txt", "other/lib/x.go", "other/x.go", "app2/x.go"})
	case 6:
		p := pick(r, t.Paths())
		s = path.Join(path.Base(path.Dir(p)), "..", path.Base(p))
	default:
		for i := 1 + r.Intn(6); i > 0; i-- {
			if r.Intn(2) == 0 {
				s += parts[r.Intn(len(parts))]
			} else {
				s += genName(r)
			}
			if r.Intn(4) > 0 {
				s += "/"
			}
		}
	}
	if r.Intn(3) == 0 {
		s = "/" + s
	}
	if r.Intn(10) == 0 {
		s += "/"
	}
	return s
}

func runC25(c *C) {
	r := c.R
	m := c.Mods
	pkgs := []string{cur, otherPkgs[0], otherPkgs[1]}
	shared := genTree(r, TreeOpts{N: 10 + r.Intn(20)})
	trees := map[string]Tree{}
	for _, p := range pkgs {
		t := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}}
		for _, k := range shared.Paths() {
			if k == "/" || r.Intn(8) > 0 {
				n := *shared[k]
				if par := t[path.Dir(k)]; k != "/" && (par == nil || !par.Dir) {
					continue
				}
				n.Data = []byte("identity " + p + ":" + k)
				t[k] = &n
			}
		}
		for _, n := range m.fixed(p) {
			b, err := os.ReadFile(m.Dirs[p] + n)
			must(err)
			t[n] = &Node{Data: b, Mode: 0644, MTime: genMTime(r)}
		}
		trees[p] = t
	}
	m.reset(trees)
	emb, _ := memFS(m.Main, pkgs, trees)
	made, err := memFSEmpty(c, m)
	must(err)
	for _, p := range pkgs {
		buildMem(c, made, p, trees[p])
	}
	var sig strings.Builder
	for _, impl := range []struct {
		name string
		p    pkging.Pkger
	}{{"embedded", emb}, {"created", made}, {"disk", m.disk(c)}, {"layered", pkging.Wrap(made, emb)}} {
		install(impl.p)
		for i := 0; i < 14; i++ {
			pkg := pkgs[r.Intn(len(pkgs))]
			t := trees[pkg]
			dir := pick(r, t.Dirs())
			ds := spell(r, key{pkg, dir}, cur)
			var fs http.FileSystem
			var closers []interface{ Close() error }
			how := r.Intn(3)
			switch how {
			case 0:
				fs = pkger.Dir(ds)
			default:
				f, err := impl.p.Open(ds)
				if err != nil {
					c.Fail("open", "%s: Open(%q): %v", impl.name, ds, err)
				}
				closers = append(closers, f)
				fs = f
				if how == 2 {
					// a directory found through a handle is one as well
					sub := pick(r, t.Dirs())
					if within(sub, dir) {
						hf, err := f.Open(strings.TrimPrefix(sub, strings.TrimSuffix(dir, "/")))
						if err != nil {
							c.Fail("open-dir", "%s: opening %s below %s: %v", impl.name, sub, dir, err)
						}
						closers = append(closers, hf)
						if x, ok := hf.(http.FileSystem); ok {
							fs, dir = x, sub
						}
					}
				}
			}
			for j := 0; j < 4; j++ {
				name := hostileName(c, t, m, dir)
				want := path.Join(dir, path.Clean("/"+name))
				fmt.Fprintf(&sig, "%s+%q;", dir, name)
				c.openRel(impl.name, fs, name, key{pkg, want}, t, m.Main.Dir, fmt.Sprintf("%s (opened as %q, kind %d) + %q", key{pkg, dir}, ds, how, name))
				if strings.Contains(name, "..") || strings.Contains(name, ":/") {
					c.Obs("traversals", 1)
				}
			}
			for _, x := range closers {
				x.Close()
			}
		}
	}
	c.Distinct(sig.String())
	c.Sample("%s", sig.String())
}

func (c *C) openRel(impl string, fs http.FileSystem, name string, want key, t Tree, main string, what string) {
	hf, err := fs.Open(name)
	c.Obs("opens", 1)
	c.Logf("%s: %s should be %s: %v", impl, what, want, err)
	n := t[want.name]
	if want.pkg == cur && within(want.name, main) {
		// an absolute path into the module is a name for what is there
		n = t[path.Clean("/"+strings.TrimPrefix(want.name, main))]
		want.name = path.Clean("/" + strings.TrimPrefix(want.name, main))
	}
	if n == nil {
		if err == nil {
			fi, _ := hf.Stat()
			b, _ := readAll(hf)
			hf.Close()
			c.Fail("escape", "%s: %s is %v %s; there is no %s", impl, what, fi, short(b), want)
		}
		return
	}
	if err != nil {
		c.Fail("missing", "%s: %s: %v; want %s", impl, what, err, want)
	}
	defer hf.Close()
	c.Obs("found", 1)
	fi, err := hf.Stat()
	if err != nil || fi.IsDir() != n.Dir {
		c.Fail("stat", "%s: %s: Stat %v, %v; want directory %v", impl, what, fi, err, n.Dir)
	}
	if want.name != "/" && fi.Name() != path.Base(want.name) {
		c.Fail("name", "%s: %s is named %q, want %q", impl, what, fi.Name(), path.Base(want.name))
	}
	if !n.Dir {
		b, err := readAll(hf)
		if err != nil || b != string(n.Data) {
			c.Fail("other-file", "%s: %s reads %s, %v; want %s", impl, what, short(b), err, short(string(n.Data)))
		}
		return
	}
	infos, err := hf.Readdir(-1)
	if err != nil {
		c.Fail("readdir", "%s: %s: Readdir: %v", impl, what, err)
	}
	got := map[string]bool{}
	for _, x := range infos {
		got[x.Name()] = true
	}
	kids := 0
	for p := range t {
		if p != "/" && path.Dir(p) == want.name {
			kids++
			if !got[path.Base(p)] {
				c.Fail("other-dir", "%s: %s does not list %q", impl, what, path.Base(p))
			}
		}
	}
	if kids != len(infos) {
		c.Fail("other-dir", "%s: %s lists %d entries, want %d", impl, what, len(infos), kids)
	}
}
