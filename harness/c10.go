package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C10", Level: "exploration",
		Rule:  "the same tree of colliding names in three packages, as embedded, created and disk file systems; random Remove and RemoveAll of existing, missing, prefix-of-existing and root paths in any spelling; after each call everything that can be observed (for the disk: everything in and next to the module directories, symlinks included) is compared with what was there before minus what was named. A case counts by tree and calls.",
		Quick: 600, Thorough: 10000,
		MinObs: map[string]int{"removeall": 1988, "remove": 2089, "removed entries": 5000, "refused": 357, "missing": 500},
		Setup:  setupMods,
		Run:    runC10,
	})
}

// minus is what is left when the subtree is gone. The directory it was in
// has changed (on a disk).
func (s Snap) minus(root string, disk bool, got Snap) Snap {
	out := Snap{}
	n := 0
	for k, e := range s {
		if within(k, root) {
			n++
			continue
		}
		out[k] = e
	}
	pkg, name := splitPath(root)
	par := pkg + ":" + path.Dir(name)
	if n > 0 && name != "/" {
		if e, ok := out[par]; ok {
			var kids []string
			for _, x := range e.Kids {
				if x != path.Base(name) {
					kids = append(kids, x)
				}
			}
			e.Kids = kids
			if disk {
				e.MTime = got[par].MTime
				e.Size = got[par].Size
			}
			out[par] = e
		}
	}
	return out
}

func runC10(c *C) {
	r := c.R
	m := c.Mods
	pkgs := []string{cur, otherPkgs[0], otherPkgs[1], otherPkgs[2]}
	tree := genTree(r, TreeOpts{N: 8 + r.Intn(30), Odd: r.Intn(3) == 0})
	trees := map[string]Tree{}
	for _, p := range pkgs {
		t := Tree{}
		for k, n := range tree {
			cp := *n
			if !cp.Dir {
				cp.Data = []byte(p + k)
			}
			t[k] = &cp
		}
		trees[p] = t
	}
	names := tree.Paths()
	var sig strings.Builder
	impl := r.Intn(3)
	var p pkging.Pkger
	var snap func() Snap
	isDisk := false
	kind := []string{"embedded", "created", "disk"}[impl]
	memSnap := func(p pkging.Pkger) func() Snap {
		return func() Snap {
			var roots []string
			for _, k := range pkgs {
				roots = append(roots, k+":/")
			}
			s, err := fsSnap(p, roots...)
			if err != nil {
				c.Fail("consistency", "%s: %v", kind, err)
			}
			return s
		}
	}
	switch impl {
	case 0:
		if r.Intn(3) == 0 {
			// what has been packed need not include the directories it was in
			for _, d := range tree.Dirs() {
				for _, k := range pkgs {
					if r.Intn(3) == 0 {
						delete(trees[k], d)
					}
				}
			}
		}
		f, _ := memFS(m.Main, pkgs, trees)
		p, snap = f, memSnap(f)
	case 1:
		f, err := memFSEmpty(c, m)
		must(err)
		for _, k := range pkgs {
			buildMem(c, f, k, trees[k])
		}
		p, snap = f, memSnap(f)
	case 2:
		isDisk = true
		m.reset(trees)
		// links out of the module
		for i, t := range []string{"canary", "ap", "app2/x.go", "nowhere"} {
			if d := pick(r, tree.Dirs()); i == 0 || r.Intn(2) == 0 {
				n := path.Join(d, fmt.Sprintf("lnk%d", i))
				for _, k := range pkgs {
					must(os.Symlink(filepath.Join(m.Base, t), m.abs(key{k, n})))
				}
				names = append(names, n)
			}
		}
		p = m.disk(c)
		snap = m.snap
	}
	at := func(k key) string {
		if isDisk {
			return "base:" + path.Clean("/"+modDirs[k.pkg]+k.name)
		}
		return k.String()
	}
	before := snap()
	for i := 8 + r.Intn(8); i > 0; i-- {
		k := key{pkgs[r.Intn(len(pkgs))], names[r.Intn(len(names))]}
		switch r.Intn(10) {
		case 0: // starts like something that is there
			if len(k.name) > 2 {
				k.name = path.Clean(strings.TrimRight(k.name[:len(k.name)-1], "% "))
			}
		case 1:
			if k.name != "/" {
				k.name += "x"
			}
		case 2:
			k.name = path.Join(k.name, genName(r))
		case 3:
			if r.Intn(4) == 0 {
				k.name = "/"
			}
		}
		all := r.Intn(2) == 0
		_, exists := before[at(k)]
		kids := len(before.sub(at(k))) > 1
		if !exists && len(before.sub(at(k))) > 0 {
			// entries without parents
			if !all {
				continue
			}
			exists = true
			c.Obs("removeall of parents that are not there", 1)
		}
		if isDisk && all && k.name == "/" {
			continue
		}
		s := spell(r, k, cur)
		underFile := false
		for d := path.Dir(k.name); d != "/"; d = path.Dir(d) {
			if e, ok := before[at(key{k.pkg, d})]; ok && !e.Dir {
				underFile = true
			}
		}
		// a link's target is another story
		if isDisk {
			for d := path.Dir(k.name); d != "/"; d = path.Dir(d) {
				if before[at(key{k.pkg, d})].Mode&os.ModeSymlink != 0 {
					underFile = true
					exists = false
				}
			}
			if underFile && strings.Contains(k.name, "/lnk") {
				continue
			}
		}
		fmt.Fprintf(&sig, "%v %s;", all, k)
		var err error
		want := before
		if all {
			err = p.RemoveAll(s)
			c.Obs("removeall", 1)
			c.Logf("%s: RemoveAll(%q) = %v", kind, s, err)
			if err != nil && !(isDisk && underFile) {
				c.Fail("removeall", "%s: RemoveAll(%q) (exists: %v): %v", kind, s, exists, err)
			}
		} else {
			err = p.Remove(s)
			c.Obs("remove", 1)
			c.Logf("%s: Remove(%q) = %v", kind, s, err)
			switch {
			case !exists:
				c.Obs("missing", 1)
				if err == nil || !os.IsNotExist(err) && !(isDisk && underFile) {
					c.Fail("remove-missing", "%s: Remove(%q), which does not exist: %v", kind, s, err)
				}
			case kids:
				c.Obs("refused", 1)
				if err == nil {
					c.Fail("remove-full", "%s: Remove(%q), a directory with entries, succeeds", kind, s)
				}
				if os.IsNotExist(err) {
					c.Fail("remove-full", "%s: Remove(%q), a directory with entries: %v", kind, s, err)
				}
			default:
				if err != nil {
					c.Fail("remove", "%s: Remove(%q): %v", kind, s, err)
				}
			}
		}
		got := snap()
		if err == nil && exists {
			want = before.minus(at(k), isDisk, got)
			c.Obs("removed entries", len(before)-len(want))
		}
		if d := want.diff(got); d != "" {
			c.Fail("removed", "%s: after Remove(All: %v)(%q) = %v: %s", kind, all, s, err, d)
		}
		if err == nil {
			if _, serr := p.Stat(k.String()); !os.IsNotExist(serr) && !(isDisk && underFile) {
				c.Fail("still-there", "%s: after Remove(All: %v)(%q), Stat = %v", kind, all, s, serr)
			}
			if f, oerr := p.Open(s); !os.IsNotExist(oerr) && !(isDisk && underFile) {
				if f != nil && oerr == nil {
					f.Close()
				}
				c.Fail("still-there", "%s: after Remove(All: %v)(%q), Open = %v", kind, all, s, oerr)
			}
		}
		before = got
	}
	c.Distinct(kind, sig.String())
	c.Sample("%s: tree %q, calls (all?) %s", kind, names, sig.String())
}
