package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C18", Level: "exploration",
		Rule:  "whole modules are generated - main package at the root or below it, with or without code at the root, with another module - with a program that reads everything it declares and prints it. It is run in development where it can be, packed by the real command (at the root, with -o into folders with and without code, from below the root, with -include), the generated file is taken apart and put to the go command with and without skippkger, and the program is built, moved, run with its sources changed, and, with its sources deleted, inside of another module and in an empty folder without go command: it has to print what the disk held. A case counts by layout, tree and includes.",
		Quick: 84, Thorough: 1500,
		MinObs: map[string]int{"packed": 50, "programs run": 100, "entries read": 900, "without sources": 50, "development": 15, "skippkger": 4, "with -o": 37, "no code at the root": 12, "includes": 40, "sources changed": 10, "in another module": 10},
		Run:    runC18,
	})
}

// layouts: root package, directory of the main package, -o, package there
type packLayout struct {
	rootPkg, mainDir, out, outPkg string
}

var packLayouts = []packLayout{
	{"main", "", "", "main"},
	{"main", "", "", "main"},
	{"lib", "cmd/app", "", "lib"},
	{"", "cmd/app", "cmd/app", "main"},
	{"", "cmd/my-app", "cmd/my-app", "main"},
	{"main", "", "internal/assets", "assets"},
	{"main", "", "pkg-x", "nameD_é2"},
	{"main", "", "gen/x-y", ""},
	{"main", "", "9lives", ""},
	{"main", "", "a.b/type", ""},
	{"", "app", "UP-dir", ""},
	{"main", "", "./data/../data//deep/", ""},
}

// dataTree puts generated files below the root of the module.
func (m *cliMod) dataTree(n int) Tree {
	r := m.c.R
	t := Tree{}
	for p, nd := range genTree(r, TreeOpts{N: n, Odd: true, Depth: 2, Big: r.Intn(8) == 0}) {
		if p == "/" || strings.HasPrefix(p, "/go.") || strings.HasSuffix(p, ".go") {
			continue
		}
		nd.Mode |= 0400
		if nd.Dir {
			nd.Mode |= 0700
		}
		t["/assets"+p] = nd
	}
	t["/assets"] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
	t["/top.txt"] = &Node{Data: genData(r, false), Mode: 0644, MTime: genMTime(r)}
	t["/other"] = &Node{Dir: true, Mode: 0750, MTime: genMTime(r)}
	t["/other/left.out"] = &Node{Data: []byte("left out"), Mode: 0644, MTime: genMTime(r)}
	return t
}

// literal paths that are declared
func declare(r interface{ Intn(int) int }, k key, current string) string {
	s := k.str()
	if k.pkg == current && r.Intn(2) == 0 {
		s = k.name
	}
	switch r.Intn(3) {
	case 0:
		return fmt.Sprintf("pkger.Include(%q)", s)
	case 1:
		return fmt.Sprintf("string(pkger.Dir(%q))", s)
	}
	return fmt.Sprintf("func() string { pkger.Stat(%q); return %q }()", s, s)
}

func runC18(c *C) {
	r := c.R
	m := newCLIMod(c, []string{"app", "my app", "_x", "testdata", "a.b", "x-y"}[r.Intn(6)])
	l := packLayouts[c.Idx%len(packLayouts)]
	outDir := path.Clean("/" + l.out)
	t := m.dataTree(5 + r.Intn(12))
	t.write(m.Root)
	lt := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files/l.txt": {Data: genData(r, false), Mode: 0600, MTime: genMTime(r)}}
	lt.write(m.LDir)

	// what is declared
	var decl []key
	for i := 1 + r.Intn(4); i > 0; i-- {
		ps := t.Paths()
		k := key{m.Path, ps[r.Intn(len(ps))]}
		switch r.Intn(9) {
		case 0:
			k.name = "/"
		case 1, 2:
			k.name = "/assets"
		case 3:
			k = key{m.Lib, "/files"}
		case 4:
			k = key{m.Lib, "/"}
		}
		if strings.HasPrefix(k.name, "/other") {
			k.name = "/top.txt"
		}
		decl = append(decl, k)
	}
	var incl []key
	for i := r.Intn(3); i > 0; i-- {
		ps := t.Paths()
		incl = append(incl, key{m.Path, ps[r.Intn(len(ps))]})
	}
	// the program
	imports := ""
	if l.rootPkg != "" && l.mainDir != "" {
		imports = fmt.Sprintf("\n\t_ %q\n", m.Path)
	}
	outImp := ""
	if outDir != "/" && outDir != "/"+l.mainDir {
		outImp = m.Path + outDir
		imports = fmt.Sprintf("\n\t_ %q\n", outImp)
	}
	imports += fmt.Sprintf("\t_ %q\n", m.Lib)
	var roots, run []string
	for _, k := range decl {
		roots = append(roots, declare(r, k, m.Path))
	}
	for _, k := range incl {
		s := k.str()
		i := r.Intn(len(s))
		run = append(run, fmt.Sprintf("%q + %q", s[:i], s[i:]))
	}
	absent := []string{"/nothing/here", "/other/left.out", m.Lib + ":/nothing"}
	main := "package main\n\n" + fmt.Sprintf(probeImports, imports) +
		"\nfunc main() {\n\tprobe(append([]string{\n\t\t" + strings.Join(roots, ",\n\t\t") + ",\n\t}, extra()...), []string{\"" + strings.Join(absent, `", "`) + "\"})\n}\n\n" +
		"func extra() []string { return []string{" + strings.Join(run, ", ") + "} }\n" + probeSrc
	m.write(l.mainDir+"/main.go", main)
	if l.rootPkg == "lib" {
		m.write("lib.go", "package lib\n")
	}
	hasCode := true
	if outImp != "" {
		if l.outPkg != "" {
			m.write(l.out+"/doc.go", "package "+l.outPkg+"\n")
			if r.Intn(3) == 0 {
				m.write(l.out+"/a_test.go", "package "+l.outPkg+"_test\n")
			}
		} else {
			must(os.MkdirAll(filepath.Join(m.Root, l.out), 0755))
			hasCode = false
		}
	}
	if l.rootPkg == "" {
		c.Obs("no code at the root", 1)
	}
	if l.out != "" {
		c.Obs("with -o", 1)
	}
	t.stamp(m.Root)
	lt.stamp(m.LDir)

	bin := c.Dir() + "/bin"
	must(os.MkdirAll(bin+"/empty", 0755))
	expect := func() Snap {
		sel := map[string]string{}
		for _, k := range append(append([]key{}, decl...), incl...) {
			m.expand(sel, k)
		}
		return diskEntries(sel)
	}
	if hasCode && r.Intn(2) == 0 {
		// in development
		_, se, code := m.gocmd("build", "-o", bin+"/dev", "./"+l.mainDir)
		if code != 0 {
			c.Inconclusive("the module does not build: %s", se)
		}
		m.probe("in development", bin+"/dev", m.Root, nil, expect())
		c.Obs("development", 1)
	}
	want := expect()
	before := diskSnap(m.Root, "root")
	var args []string
	if l.out != "" {
		args = append(args, "-o", l.out)
	}
	for _, k := range incl {
		s := k.str()
		if r.Intn(2) == 0 {
			s = k.name
		}
		args = append(args, "-include", s)
		c.Obs("includes", 1)
	}
	from := m.Root
	if r.Intn(4) == 0 {
		from = filepath.Join(m.Root, []string{"assets", l.mainDir, "other"}[r.Intn(3)])
		c.Obs("from below the root", 1)
	}
	_, se, code := m.run(from, args...)
	if code != 0 {
		c.Fail("pack", "pkger %q exits with %d: %s", args, code, se)
	}
	c.Obs("packed", 1)
	gen := filepath.Join(m.Root, l.out, "pkged.go")
	g, err := readGenerated(gen)
	if err != nil {
		c.Fail("generated", "the generated file: %v", err)
	}
	if l.outPkg != "" && g.Pkg != l.outPkg {
		c.Fail("generated", "the generated file is of package %s, not %s", g.Pkg, l.outPkg)
	}
	after := diskSnap(m.Root, "root")
	for _, k := range after.Keys() {
		if _, ok := before[k]; !ok && k != "root:"+path.Join(outDir, "pkged.go") {
			c.Fail("more", "packing makes %s", k)
		}
	}
	pat := "./" + strings.TrimPrefix(outDir, "/")
	so, se, code := m.gocmd("list", "-f", "{{.Name}} {{.GoFiles}} {{.IgnoredGoFiles}}", pat)
	if code != 0 || !strings.Contains(so, "pkged.go") || !strings.HasPrefix(so, g.Pkg+" ") {
		c.Fail("generated", "go list %s: %s%s", pat, so, se)
	}
	so, se, code = m.gocmd("list", "-e", "-tags", "skippkger", "-f", "{{.GoFiles}}", pat)
	if code != 0 || strings.Contains(so, "pkged.go") {
		c.Fail("skippkger", "go list -tags skippkger %s: %s%s", pat, so, se)
	}
	rooted := false
	for k := range want {
		if _, n := splitPath(k); n == "/" || outDir != "/" && within(outDir, n) {
			rooted = true
		}
	}
	if hasCode && !rooted && r.Intn(3) == 0 {
		// without the generated file it is the disk that counts
		_, se, code := m.gocmd("build", "-tags", "skippkger", "-o", bin+"/skip", "./"+l.mainDir)
		if code != 0 {
			c.Fail("skippkger", "it does not build with skippkger: %s", se)
		}
		if f := t.Files(); len(f) > 0 {
			n := filepath.Join(m.Root, f[r.Intn(len(f))])
			must(os.Chmod(n, 0644))
			must(os.WriteFile(n, []byte("changed after packing"), 0644))
		}
		m.probe("with skippkger", bin+"/skip", m.Root, nil, expect())
		c.Obs("skippkger", 1)
	}
	_, se, code = m.gocmd("build", "-o", bin+"/probe", "./"+l.mainDir)
	if code != 0 {
		c.Fail("build", "the packed program does not build: %s", se)
	}
	if r.Intn(3) == 0 {
		// what is on the disk no longer counts
		for _, f := range t.Files() {
			n := filepath.Join(m.Root, f)
			if fi, err := os.Lstat(n); err == nil && fi.Mode().IsRegular() {
				switch r.Intn(3) {
				case 0:
					must(os.Chmod(n, 0644))
					must(os.WriteFile(n, []byte("changed after packing"), 0644))
				case 1:
					os.Remove(n)
				}
			}
		}
		m.probe("with its files changed", bin+"/probe", m.Root, nil, want)
		c.Obs("sources changed", 1)
	}
	os.Chdir(c.Scratch)
	wipe(c.Dir() + "/src")
	if r.Intn(3) == 0 {
		// nor does the module it happens to run in
		other := bin + "/elsewhere"
		must(os.MkdirAll(other+"/sub", 0755))
		must(os.WriteFile(other+"/go.mod", []byte("module elsewhere.test/module\n\ngo 1.13\n"), 0644))
		must(os.WriteFile(other+"/x.go", []byte("package elsewhere\n"), 0644))
		must(os.WriteFile(other+"/sub/x.go", []byte("package sub\n"), 0644))
		for _, f := range t.Files() {
			if r.Intn(2) == 0 && os.MkdirAll(filepath.Dir(other+f), 0755) == nil {
				os.WriteFile(other+f, []byte("of another module"), 0644)
			}
		}
		m.probe("in another module", bin+"/probe", other+[]string{"", "/sub"}[r.Intn(2)], nil, want)
		c.Obs("in another module", 1)
	}
	o := m.probe("without its files", bin+"/probe", bin+"/empty", []string{"PATH=/nonexistent", "HOME=/nonexistent", "GOPATH=/nonexistent"}, want)
	for a, ok := range o.Absent {
		if !ok {
			if _, there := want[a]; !there && want[m.Path+":"+a].Name == "" {
				c.Fail("absent", "%s can be opened or has a Stat", a)
			}
		}
	}
	c.Obs("without sources", 1)
	sort.Strings(roots)
	c.Distinct(l, roots, incl, t.Paths())
	c.Sample("%+v: %q, %q, %d entries", l, roots, args, len(want))
}
