package main

import (
	"bytes"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() {
	register(&Check{
		ID: "C02", Level: "exploration",
		Rule:  "modules are generated - data below the module, its packages and two other modules, Go packages in folders that count and in ignored ones, declarations by literals and constants in all spellings, overlapping, virtual, missing, plus include lists - and the expected set calculated from the type checker's declarations and the os package; Files has to be that set, sorted, once each, with the right file on disk, and what is packed has to hold exactly that. Missing paths have to fail. A case counts by declarations, includes and disk.",
		Quick: 640, Thorough: 12000,
		MinObs: map[string]int{"selections": 250, "files": 4000, "virtual": 300, "missing": 40, "includes": 300, "ignored declarations": 1000, "other modules": 200, "sub packages": 100, "overlaps": 250, "refused Go files": 300, "links": 100},
		Setup:  setupCode,
		Run:    runC02,
	})
}

// codePkgs are the packages below the main module that can be named.
func codePkgs(m *Mods) map[string]string {
	out := map[string]string{}
	for _, d := range codeDirs {
		if d != "/" && d != "/node_modulesx" {
			out[cur+d] = filepath.Join(m.Dirs[cur], d)
		}
	}
	return out
}

// layout is a module set made for one case.
type layout struct {
	c      *C
	m      *Mods
	dirs   map[string]string // package -> folder
	disk   Snap              // everything that can be named
	decls  []SrcDecl         // that count
	ignore int
	vkeys  map[string]bool
	code   []string
}

// canon is the canonical form of a value in the main module: what C04 is
// about, so here it comes from the parser that is checked there.
func (l *layout) canon(v string) key {
	pt, err := here.Parse(l.m.Main, v)
	must(err)
	return key{pt.Pkg, pt.Name}
}

func (k key) str() string { return k.pkg + ":" + k.name }

// pick is a path that is there.
func (l *layout) pick(r *rand.Rand) key {
	pkgs := l.m.Pkgs[:3]
	pkg := cur
	if r.Intn(5) == 0 {
		pkg = pkgs[r.Intn(len(pkgs))]
	}
	ks := l.disk.Keys()
	for {
		k := ks[r.Intn(len(ks))]
		p, n := splitPath(k)
		if n == "/" && r.Intn(3) > 0 || (path.Base(n) == "go.mod" || path.Ext(n) == ".go") && r.Intn(4) > 0 {
			continue
		}
		if p == pkg {
			for _, d := range codeDirs {
				// the same file, named by the package of a folder
				if p == cur && d != "/" && d != "/node_modulesx" && strings.HasPrefix(n, d+"/") && r.Intn(2) == 0 {
					return key{cur + d, strings.TrimPrefix(n, d)}
				}
			}
			return key{p, n}
		}
	}
}

func (l *layout) abs(k key) string {
	return filepath.Join(l.dirs[k.pkg], k.name)
}

// newLayout writes modules with data and code. Static and virtual choose
// what is declared.
func newLayout(c *C, m *Mods, missing bool) *layout {
	r := c.R
	l := &layout{c: c, m: m, dirs: map[string]string{}, vkeys: map[string]bool{}}
	for _, p := range m.Pkgs {
		l.dirs[p] = m.Dirs[p]
	}
	for p, d := range codePkgs(m) {
		l.dirs[p] = d
	}
	trees := map[string]Tree{}
	for i, p := range m.Pkgs[:3] {
		o := TreeOpts{N: 4 + r.Intn(14), Depth: 2}
		if i > 0 {
			o.N = r.Intn(6)
			o.Depth = 1
		}
		t := genTree(r, o)
		for _, n := range t.Paths() {
			if i > 0 {
				break
			}
			for _, d := range append(append([]string{}, codeDirs...), ignoredDirs...) {
				if d != "/" && (within(n, d) || within(n, "/"+strings.SplitN(d, "/", 3)[1])) {
					delete(t, n)
				}
			}
		}
		if i == 0 {
			// data next to code
			for _, d := range append(append([]string{}, codeDirs...), ignoredDirs...) {
				if r.Intn(3) > 0 {
					continue
				}
				for x := d; x != "/"; x = path.Dir(x) {
					t[x] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
				}
				for _, n := range []string{"index.html", "data.json", ".keep"} {
					if _, ok := t[path.Join(d, n)]; !ok && r.Intn(2) == 0 {
						t[path.Join(d, n)] = &Node{Data: []byte(d + n), Mode: 0644, MTime: genMTime(r)}
					}
				}
			}
		}
		trees[p] = t
	}
	m.reset(trees)
	if r.Intn(4) == 0 {
		m.link(c, m.Pkgs[:3], trees)
	}
	root := m.Dirs[cur]
	mkpkg := func(d string) {
		abs := filepath.Join(root, d)
		must(os.MkdirAll(abs, 0755))
		must(os.WriteFile(abs+"/main.go", []byte("package "+pkgName(d)+"\n"), 0644))
	}
	var dirs, ign []string
	for _, d := range codeDirs {
		if r.Intn(5) == 0 {
			dirs = append(dirs, d)
			mkpkg(d)
		}
	}
	for _, d := range ignoredDirs {
		if r.Intn(5) == 0 {
			ign = append(ign, d)
			mkpkg(d)
		}
	}
	// Go files that the go tool refuses, without declarations
	for p, src := range map[string]string{
		"/tools/tools.go":       "//go:build tools\n// +build tools\n\npackage tools\n\nimport _ \"x.test/tool\"\n",
		"/twice/a.go":           "package a\n",
		"/twice/b.go":           "package b\n",
		"/testdata/t/bad.go":    "package {{ .Name }}\n\npkger.Open(\"/x\")\n",
		"/_tmpl/deep/x.go":      "not Go\n",
		"/unresolved/x.go":      "package unresolved\n\nimport _ \"nowhere.test/x\"\n",
		"/web2/only_test.go":    "package web2_test\n",
		"/web3/x_plan9.go":      "package web3\n",
		"/vendor/v.test/y/y.go": "package y\n",
	} {
		if (len(p)+c.Idx)%4 == 0 {
			must(os.MkdirAll(filepath.Join(root, path.Dir(p)), 0755))
			must(os.WriteFile(filepath.Join(root, p), []byte(src), 0644))
			c.Obs("refused Go files", 1)
		}
	}
	l.code = dirs
	l.disk = m.modSnap(m.Pkgs[:3]...)
	// a few are declared over and over, so that they overlap
	var pool, virt []key
	for i := 1 + r.Intn(5); i > 0; i-- {
		k := l.pick(r)
		pool = append(pool, k)
		if d := path.Dir(k.name); d != "/" && r.Intn(2) == 0 {
			pool = append(pool, key{k.pkg, d})
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		k := l.pick(r)
		if r.Intn(3) == 0 {
			e := l.disk[k.str()]
			if e.Dir {
				k.name = path.Join(k.name, "made")
			}
		}
		if r.Intn(4) == 0 {
			// the beginning of one that is there
			if n := strings.TrimSuffix(k.name, path.Ext(k.name)); path.Base(n) == strings.TrimSpace(path.Base(n)) && !strings.HasSuffix(n, "/") && path.Clean(n) == n {
				k.name = n
				if d := path.Dir(n); d != "/" {
					pool = append(pool, key{k.pkg, d})
				}
			}
		}
		if k.name == "/" || !l.main(k) {
			continue
		}
		virt = append(virt, k)
		if r.Intn(2) == 0 {
			pool = append(pool, k)
		}
	}
	gone := missing
	o := SrcOpts{Files: 1 + r.Intn(2), Stmts: 2, Special: r.Intn(2) == 0,
		Static: func() string {
			k := pool[r.Intn(len(pool))]
			if missing && (gone || r.Intn(10) == 0) {
				gone = false
				k = l.pick(r)
				k.name = path.Join(k.name, "not.there")
			}
			return spell(r, k, cur)
		},
		Virtual: func() string {
			if len(virt) == 0 {
				return "/virtual"
			}
			return spell(r, virt[r.Intn(len(virt))], cur)
		}}
	if len(virt) == 0 {
		o.Kinds = []string{"Open", "Stat", "Dir", "Walk", "Include"}
	}
	gen := func(d string, o SrcOpts, counts bool) {
		o.Name = pkgName(d)
		abs := filepath.Join(root, d)
		srcs, _ := genPackage(r, o)
		os.Remove(abs + "/main.go")
		var names []string
		for n := range srcs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			must(os.WriteFile(filepath.Join(abs, n), []byte(srcs[n]), 0644))
			c.Logf("%s/%s:\n%s", d, n, srcs[n])
		}
		decls, _, err := typeCheck(abs, srcs)
		if err != nil {
			c.Inconclusive("the generated package is not valid: %v", err)
		}
		if counts {
			l.decls = append(l.decls, decls...)
		} else {
			l.ignore += len(decls)
		}
	}
	for _, d := range dirs {
		gen(d, o, true)
	}
	for _, d := range ign {
		o := o
		o.Static = func() string { return []string{"/never.there", "/go.mod", "/"}[r.Intn(3)] }
		o.Virtual = func() string { return spell(r, l.pick(r), cur) }
		o.Kinds = nil
		gen(d, o, false)
	}
	l.disk = m.modSnap(m.Pkgs[:3]...)
	for _, d := range l.decls {
		if d.Kind == "Create" || d.Kind == "MkdirAll" {
			l.vkeys[l.canon(d.Value).str()] = true
		}
	}
	return l
}

// main tells whether it is named as of a whole module.
func (l *layout) main(k key) bool {
	for _, p := range l.m.Pkgs {
		if p == k.pkg {
			return true
		}
	}
	return false
}

// expect is the selection for the declarations and includes: canonical path
// -> file on disk. False if something is missing.
func (l *layout) expect(includes []string) (map[string]string, bool) {
	out := map[string]string{}
	var vals []string
	for _, d := range l.decls {
		if d.Kind != "Create" && d.Kind != "MkdirAll" {
			vals = append(vals, d.Value)
		}
	}
	vals = append(vals, includes...)
	seen := map[string]bool{}
	for _, v := range vals {
		k := l.canon(v)
		if seen[k.str()] {
			continue
		}
		seen[k.str()] = true
		if l.vkeys[k.str()] {
			continue
		}
		if !l.main(k) {
			l.c.Obs("sub packages", 1)
		} else if k.pkg != cur {
			l.c.Obs("other modules", 1)
		}
		root := l.abs(k)
		if _, err := os.Lstat(root); err != nil {
			return nil, false
		}
		must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n := key{k.pkg, path.Join(k.name, filepath.ToSlash(strings.TrimPrefix(p, root)))}.str()
			if l.vkeys[n] {
				if fi.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
			if _, ok := out[n]; ok {
				l.c.Obs("overlaps", 1)
			}
			out[n] = p
			return nil
		}))
	}
	return out, true
}

func runC02(c *C) {
	r := c.R
	m := c.Mods
	l := newLayout(c, m, r.Intn(6) == 0)
	var includes []string
	for i := r.Intn(4); i > 0; i-- {
		k := l.pick(r)
		if r.Intn(30) == 0 {
			k.name = path.Join(k.name, "not.there")
		}
		if l.vkeys[k.str()] {
			continue
		}
		includes = append(includes, spell(r, k, cur))
		c.Obs("includes", 1)
	}
	c.Logf("includes %q virtual %v", includes, l.vkeys)
	c.Obs("virtual", len(l.vkeys))
	c.Obs("ignored declarations", l.ignore)
	want, ok := l.expect(includes)
	decls, err := parser.Parse(m.Main, includes...)
	if err != nil {
		if !ok {
			c.Obs("missing", 1)
			return
		}
		c.Fail("parse", "Parse: %v", err)
	}
	if !ok {
		files, err := decls.Files()
		if err == nil {
			c.Fail("missing", "something that is declared is missing, but Files has %d files and no error", len(files))
		}
		bb := &bytes.Buffer{}
		if err := pkgutil.Stuff(bb, m.Main, decls); err == nil {
			c.Fail("missing", "something that is declared is missing, but Stuff has no error and %d bytes", bb.Len())
		}
		c.Obs("missing", 1)
		c.Distinct("missing", l.decls, includes)
		return
	}
	for round := 0; round < 2; round++ {
		files, err := decls.Files()
		if err != nil {
			c.Fail("files", "Files: %v", err)
		}
		c.Obs("selections", 1)
		c.Obs("files", len(files))
		seen := map[string]bool{}
		last := ""
		for _, f := range files {
			s := f.Path.String()
			if seen[s] {
				c.Fail("twice", "%s is listed twice", s)
			}
			seen[s] = true
			if s < last {
				c.Fail("order", "%s comes after %s", s, last)
			}
			last = s
			abs, ok := want[s]
			if !ok {
				c.Fail("extra", "%s (%s) is listed, but not declared", s, f.Abs)
			}
			if f.Abs != abs {
				c.Fail("file", "%s is %s, listed as %s", s, abs, f.Abs)
			}
		}
		for _, s := range keysOf(want) {
			if !seen[s] {
				c.Fail("dropped", "%s is declared, but not listed", s)
			}
		}
	}
	bb := &bytes.Buffer{}
	if err := pkgutil.Stuff(bb, m.Main, decls); err != nil {
		c.Fail("stuff", "Stuff: %v", err)
	}
	p, err := mem.UnmarshalEmbed(bb.Bytes())
	if err != nil {
		c.Fail("unmarshal", "UnmarshalEmbed of what was packed: %v", err)
	}
	var roots []string
	for pkg := range l.dirs {
		roots = append(roots, pkg+":/")
	}
	sort.Strings(roots)
	got, err := fsSnap(p, roots...)
	if err != nil {
		c.Fail("packed", "what was packed: %v", err)
	}
	if d := diskEntries(want).diff(got); d != "" {
		c.Fail("packed", "what was packed: %s", d)
	}
	var dk []string
	for _, d := range l.decls {
		dk = append(dk, d.Kind+" "+d.Value)
	}
	c.Distinct(dk, includes, l.disk.Keys())
	c.Sample("%d declarations %.200v, includes %q: %d files", len(dk), dk, includes, len(want))
}

func keysOf(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// diskEntries observes the files on disk under their canonical paths.
func diskEntries(files map[string]string) Snap {
	s := Snap{}
	for k, abs := range files {
		fi, err := os.Stat(abs) // links are followed
		must(err)
		e := infoEntry(fi)
		if !e.Dir && !awkward(k) {
			b, err := os.ReadFile(abs)
			must(err)
			e.Data = string(b)
		}
		s[k] = e
	}
	s = s.relist()
	for k, e := range s {
		if awkward(k) {
			e.Kids = nil
			s[k] = e
		}
	}
	return s
}
