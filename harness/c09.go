package main

import (
	"fmt"
	"io"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule:  "random trees (also directories of several hundred entries, empty directories, children with nested entries and siblings whose names start the same) as embedded, created and disk file systems; every directory listed through two interleaved handles with random batch sizes, and through handles opened relative to their parent; each handle has a batch/EOF monitor. A case counts by tree and batches.",
		Quick: 700, Thorough: 12000,
		MinObs: map[string]int{"handles": 10000, "batches": 20000, "eof": 3000, "entries": 20000, "handles opened by another": 1000},
		Setup:  setupMods,
		Run:    runC09,
	})
}

// lister watches the listing of one handle.
type lister struct {
	c    *C
	impl string
	dir  string
	f    interface {
		Readdir(int) ([]os.FileInfo, error)
		Close() error
	}
	want map[string]Entry
	seen map[string]bool
	soft bool // metadata are those of files just created
}

func (l *lister) left() int { return len(l.want) - len(l.seen) }

// call returns false when there is no more to come.
func (l *lister) call(n int) bool {
	c := l.c
	left := l.left()
	infos, err := l.f.Readdir(n)
	c.Obs("batches", 1)
	what := fmt.Sprintf("%s: Readdir(%d) of %s with %d of %d left", l.impl, n, l.dir, left, len(l.want))
	c.Logf("%s = %d %v", what, len(infos), err)
	for _, fi := range infos {
		w, ok := l.want[fi.Name()]
		if !ok {
			c.Fail("readdir-extra", "%s lists %q, not a child", what, fi.Name())
		}
		if l.seen[fi.Name()] {
			c.Fail("readdir-twice", "%s lists %q again", what, fi.Name())
		}
		l.seen[fi.Name()] = true
		g := infoEntry(fi)
		d := infoDiff(w, g)
		if l.soft {
			d = ""
			if g.Dir != w.Dir || g.Mode.IsDir() != w.Dir || (!w.Dir && g.Size != w.Size) {
				d = fmt.Sprintf("is %v, want %v", g, w)
			}
		}
		if d != "" {
			c.Fail("readdir-info", "%s: %q %s", what, fi.Name(), d)
		}
		c.Obs("entries", 1)
	}
	// the list is the caller's
	grown := append(infos, rawInfo{name: "not from the directory"}, rawInfo{name: "neither is this"})
	for i := range grown {
		grown[i] = rawInfo{name: "overwritten"}
	}
	if n > 0 {
		switch {
		case left == 0:
			if len(infos) != 0 || err != io.EOF {
				c.Fail("readdir-eof", "%s = %d entries, %v; want io.EOF", what, len(infos), err)
			}
			c.Obs("eof", 1)
			return false
		case len(infos) > n:
			c.Fail("readdir-many", "%s = %d entries", what, len(infos))
		case len(infos) == 0 || err != nil:
			c.Fail("readdir-few", "%s = %d entries, %v", what, len(infos), err)
		}
		return true
	}
	if err != nil || len(infos) != left {
		c.Fail("readdir-all", "%s = %d entries, %v", what, len(infos), err)
	}
	return c.R.Intn(3) == 0
}

func runC09(c *C) {
	r := c.R
	m := c.Mods
	trees := map[string]Tree{}
	for _, p := range []string{cur, otherPkgs[1]} {
		t := genTree(r, TreeOpts{N: 6 + r.Intn(24), Odd: true})
		if r.Intn(8) == 0 {
			t["/many"] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
			for i := 0; i < 150+r.Intn(200); i++ {
				n := fmt.Sprintf("/many/%c%d", 'a'+i%7, i)
				t[n] = &Node{Dir: i%5 == 0, Mode: 0755, MTime: genMTime(r)}
				if i%10 == 0 {
					t[n+"/inner"] = &Node{Mode: 0644, Data: []byte("x"), MTime: genMTime(r)}
				}
			}
		}
		for _, n := range m.fixed(p) {
			b, err := os.ReadFile(m.Dirs[p] + n)
			must(err)
			t[n] = &Node{Data: b, Mode: 0644, MTime: genMTime(r)}
		}
		trees[p] = t
	}
	m.reset(trees)
	emb, _ := memFS(m.Main, []string{cur, otherPkgs[1]}, trees)
	made, err := memFSEmpty(c, m)
	must(err)
	for p, t := range trees {
		buildMem(c, made, p, t)
	}
	embSnap := wantSnap(m.Main, trees)
	diskSnap := m.modSnap(cur, otherPkgs[1])
	var sig strings.Builder
	for _, impl := range []struct {
		name string
		p    pkging.Pkger
		want Snap
	}{{"embedded", emb, embSnap}, {"created", made, embSnap}, {"disk", m.disk(c), diskSnap}} {
		for _, pkg := range []string{cur, otherPkgs[1]} {
			t := trees[pkg]
			for _, d := range t.Dirs() {
				want := map[string]Entry{}
				for _, k := range impl.want[pkg+":"+d].Kids {
					want[k] = impl.want[pkg+":"+path.Join(d, k)]
				}
				var ls []*lister
				for i := 1 + r.Intn(2); i > 0; i-- {
					s := spell(r, key{pkg, d}, cur)
					f, err := impl.p.Open(s)
					if err != nil {
						c.Fail("open", "%s: Open(%q): %v", impl.name, s, err)
					}
					l := &lister{c: c, impl: impl.name, dir: pkg + ":" + d, f: f, want: want, seen: map[string]bool{}, soft: impl.name == "created"}
					defer f.Close()
					if d != "/" && r.Intn(3) == 0 {
						// opened the way an http server does
						pf, err := impl.p.Open(pkg + ":" + path.Dir(d))
						if err != nil {
							c.Fail("open", "%s: Open(%s): %v", impl.name, path.Dir(d), err)
						}
						hf, err := pf.Open("/" + path.Base(d))
						if err != nil {
							c.Fail("open-rel", "%s: opening %s in %s: %v", impl.name, path.Base(d), path.Dir(d), err)
						}
						pf.Close()
						defer hf.Close()
						l.f = hf
					}
					c.Obs("handles", 1)
					ls = append(ls, l)
					if r.Intn(4) == 0 {
						// another one of the same directory
						hf, err := f.Open("/")
						if err != nil {
							c.Fail("open-rel", "%s: opening / in %s: %v", impl.name, s, err)
						}
						defer hf.Close()
						l2 := &lister{c: c, impl: impl.name + " (opened by its own handle)", dir: l.dir, f: hf, want: want, seen: map[string]bool{}, soft: l.soft}
						c.Obs("handles opened by another", 1)
						ls = append(ls, l2)
					}
				}
				for len(ls) > 0 {
					i := r.Intn(len(ls))
					n := []int{1, 1, 2, 3, 5, 7, 100, 1 << 20, 0, -1, -5}[r.Intn(11)]
					if len(want) > 50 && n > 0 && n < 8 {
						n *= 20
					}
					fmt.Fprint(&sig, n, ",")
					if !ls[i].call(n) {
						if r.Intn(2) == 0 {
							// which does not matter to the others
							ls[i].f.Close()
						}
						ls = append(ls[:i], ls[i+1:]...)
					}
				}
			}
			// files have nothing to list
			for _, fn := range t.Files() {
				if r.Intn(4) > 0 {
					continue
				}
				f, err := impl.p.Open(pkg + ":" + fn)
				if err != nil {
					c.Fail("open", "%s: Open(%s): %v", impl.name, fn, err)
				}
				for _, n := range []int{-1, 1} {
					infos, err := f.Readdir(n)
					if err == nil || err == io.EOF || len(infos) > 0 {
						c.Fail("readdir-file", "%s: Readdir(%d) of the file %s = %d entries, %v", impl.name, n, fn, len(infos), err)
					}
				}
				f.Close()
				c.Obs("files refused", 1)
			}
		}
	}
	c.Distinct(trees[cur].Paths(), sig.String())
	c.Sample("%d and %d entries, batches %s", len(trees[cur]), len(trees[otherPkgs[1]]), sig.String())
}
