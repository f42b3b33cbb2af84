package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() {
	register(&Check{
		ID: "C11", Level: "exploration",
		Rule:  "five packages, one of them within the module of another, that hold the same path names with different contents, as embedded, created, packed (parsed includes, pkgutil.Stuff, codec) and disk file systems; random histories of Create, MkdirAll, Remove, RemoveAll, Walk, relative opens and serialisations, each naming one package: everything observable in the others is compared before and after, entries carry the description of their own package, walks, listings and relative opens stay inside. A case counts by kind and calls.",
		Quick: 480, Thorough: 8000,
		MinObs: map[string]int{"calls": 5000, "snapshots": 5000, "packed": 20, "relative opens": 200},
		Setup:  setupMods,
		Run:    runC11,
	})
}

// pack runs the packer over the main module with the includes.
func (m *Mods) pack(c *C, includes ...string) *mem.Pkger {
	decls, err := parser.Parse(m.Main, includes...)
	if err != nil {
		c.Fail("parse", "parser.Parse(%q): %v", includes, err)
	}
	bb := &bytes.Buffer{}
	if err := pkgutil.Stuff(bb, m.Main, decls); err != nil {
		c.Fail("stuff", "Stuff with %q: %v", includes, err)
	}
	p, err := mem.UnmarshalEmbed(bb.Bytes())
	if err != nil {
		c.Fail("unmarshal", "UnmarshalEmbed of what was packed: %v", err)
	}
	return p
}

func runC11(c *C) {
	r := c.R
	m := c.Mods
	// a package and the module it is in: on the disk, the one is a part
	// of the other
	pkgs := append(append([]string{}, m.Pkgs...), otherMod)
	packed := r.Intn(8) == 0
	o := TreeOpts{N: 6 + r.Intn(14)}
	if packed {
		o.N = 6
	}
	tree := genTree(r, o)
	for _, n := range []string{"/go.mod", "/x.go"} {
		tree[n] = &Node{Mode: 0644, MTime: genMTime(r)}
	}
	trees := map[string]Tree{}
	m.restore()
	for _, p := range pkgs {
		t := Tree{}
		for k, n := range tree {
			cp := *n
			if !cp.Dir {
				cp.Data = []byte(p + k)
			}
			if k == "/go.mod" || k == "/x.go" {
				if k == "/go.mod" && modOf(p) != p {
					continue
				}
				b, err := os.ReadFile(m.Dirs[p] + k)
				must(err)
				cp.Data = b
			}
			t[k] = &cp
		}
		trees[p] = t
	}
	var names []string
	for _, n := range tree.Paths() {
		if n != "/go.mod" && n != "/x.go" {
			names = append(names, n)
		}
	}
	names = append(names, pathPool(r, "/tmp", 4)...)
	var roots []string
	for _, k := range pkgs {
		roots = append(roots, k+":/")
	}
	var p pkging.Pkger
	kind := []string{"embedded", "created", "disk"}[r.Intn(3)]
	switch {
	case packed:
		kind = "packed"
		m.reset(trees)
		trees[otherMod].write(m.Dirs[otherMod])
		f := m.pack(c, roots...)
		s, err := fsSnap(f, roots...)
		if err != nil {
			c.Fail("consistency", "packed: %v", err)
		}
		if d := m.modSnap(pkgs...).diff(s); d != "" {
			c.Fail("packed", "packed from disk: %s", d)
		}
		c.Obs("packed", 1)
		p = f
	case kind == "embedded":
		f, _ := memFS(m.Main, pkgs, trees)
		p = f
	case kind == "created":
		f, _ := memFS(m.Main, pkgs, map[string]Tree{})
		for _, k := range pkgs {
			buildMem(c, f, k, trees[k])
		}
		p = f
	default:
		m.reset(trees)
		trees[otherMod].write(m.Dirs[otherMod])
		p = m.disk(c)
	}
	snap := func() Snap {
		c.Obs("snapshots", 1)
		if kind == "disk" {
			return m.modSnap(pkgs...)
		}
		s, err := fsSnap(p, roots...)
		if err != nil {
			c.Fail("consistency", "%s: %v", kind, err)
		}
		return s
	}
	var sig strings.Builder
	before := snap()
	for i := 15 + r.Intn(10); i > 0; i-- {
		k := key{pkgs[r.Intn(len(pkgs))], names[r.Intn(len(names))]}
		s := spell(r, k, cur)
		x := r.Intn(100)
		what := ""
		c.Obs("calls", 1)
		switch {
		case x < 25:
			what = fmt.Sprintf("Create(%q)", s)
			f, err := p.Create(s)
			if err == nil {
				if f.Path().Pkg != k.pkg || f.Info().ImportPath != k.pkg {
					c.Fail("created-pkg", "%s: %s made %s of package %q", kind, what, f.Path(), f.Info().ImportPath)
				}
				fmt.Fprintf(f, "new %d in %s", i, k.pkg)
				f.Close()
			}
		case x < 40:
			what = fmt.Sprintf("MkdirAll(%q)", s)
			p.MkdirAll(s, 0755)
		case x < 50:
			what = fmt.Sprintf("Remove(%q)", s)
			p.Remove(s)
		case x < 60:
			if k.name == "/" && kind == "disk" {
				continue
			}
			what = fmt.Sprintf("RemoveAll(%q)", s)
			p.RemoveAll(s)
		case x < 70:
			what = fmt.Sprintf("Walk(%q)", s)
			err := p.Walk(s, func(name string, fi os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				pkg, n := splitPath(name)
				if pkg != k.pkg || !within(n, k.name) {
					c.Fail("walk-out", "%s: %s visits %s", kind, what, name)
				}
				if _, ok := before[name]; !ok {
					c.Fail("walk-out", "%s: %s visits %s, which is not in that package", kind, what, name)
				}
				return nil
			})
			if err != nil && !os.IsNotExist(err) && before[k.String()].Name != "" {
				c.Fail("walk", "%s: %s: %v", kind, what, err)
			}
		case x < 85:
			e, ok := before[k.String()]
			if !ok || !e.Dir {
				continue
			}
			what = fmt.Sprintf("Open(%q) and below", s)
			f, err := p.Open(s)
			if err != nil {
				c.Fail("open", "%s: Open(%q): %v", kind, s, err)
			}
			if f.Info().ImportPath != k.pkg {
				f.Close()
				c.Fail("opened-pkg", "%s: Open(%q) has the description of package %q", kind, s, f.Info().ImportPath)
			}
			n := pick(r, names)
			hf, err := f.Open(n)
			c.Obs("relative opens", 1)
			w, ok := before[k.pkg+":"+path.Join(k.name, n)]
			switch {
			case !ok && err == nil:
				c.Fail("open-rel", "%s: %s opened from %s", kind, n, k)
			case ok && err != nil:
				c.Fail("open-rel", "%s: %s from %s: %v", kind, n, k, err)
			case ok && !w.Dir:
				b, err := readAll(hf)
				if err != nil || b != w.Data {
					c.Fail("open-rel", "%s: %s opened from %s reads %s, want %s", kind, n, k, short(b), short(w.Data))
				}
			}
			if err == nil {
				hf.Close()
			}
			infos, err := f.Readdir(-1)
			if err != nil || len(infos) != len(e.Kids) {
				c.Fail("readdir", "%s: %s lists %d entries, %v; want %d", kind, k, len(infos), err, len(e.Kids))
			}
			f.Close()
		case x < 92:
			i, err := p.Info(k.pkg)
			what = "Info " + k.pkg
			if err != nil || i.ImportPath != k.pkg || i.Module.Path != modOf(k.pkg) {
				c.Fail("info", "%s: Info(%q) is of %q, %v", kind, k.pkg, i.ImportPath, err)
			}
		default:
			f, ok := p.(*mem.Pkger)
			if !ok {
				continue
			}
			what = "serialise"
			b, err := f.MarshalJSON()
			if err != nil {
				c.Fail("marshal", "MarshalJSON: %v", err)
			}
			p = reload(c, b, r.Intn(2) == 0)
			got := snap()
			if d := before.diff(got); d != "" {
				c.Fail("serialise", "%s: rehydrated: %s", kind, d)
			}
		}
		c.Logf("%s: %s", kind, what)
		fmt.Fprintf(&sig, "%s;", what)
		got := snap()
		for _, pkg := range pkgs {
			if pkg == k.pkg && x < 60 {
				continue
			}
			b, g := before.pkg(pkg), got.pkg(pkg)
			if kind == "disk" && pkg == otherMod && k.pkg == "other.test/lib" {
				b, g = b.without("other.test:/lib"), g.without("other.test:/lib")
			}
			if d := b.diff(g); d != "" {
				c.Fail("other-package", "%s: %s changed another package: %s", kind, what, d)
			}
		}
		before = got
	}
	c.Distinct(kind, sig.String())
	c.Sample("%s: %s", kind, sig.String())
}

// without is the snapshot without a subtree
func (s Snap) without(root string) Snap {
	o := Snap{}
	for k, e := range s {
		if !within(k, root) {
			o[k] = e
		}
	}
	return o
}

// pkg is the part of the snapshot in the package.
func (s Snap) pkg(p string) Snap { return s.sub(p + ":/") }
