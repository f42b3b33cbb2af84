package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
)

func init() {
	register(&Check{
		ID: "C21", Level: "exploration",
		Rule:  "the real command in generated modules - data, several packages, a required module, declarations and includes, from the root and from below it - and each of its answers compared: list, plain and as JSON, with what packing with the same includes embeds and with the os package; parse, of folders and packages, with the type checker; path with the canonical path that the generator spelled differently; stat with os.Stat; info with go list. Questions without an answer - missing, unknown, unreadable, not valid, no module - have to end with a status other than zero. A case counts by module and questions.",
		Quick: 44, Thorough: 1500,
		MinObs: map[string]int{"list": 79, "listed paths": 500, "parse": 26, "declarations": 300, "path": 26, "spellings": 150, "stat": 26, "stats": 80, "info": 26, "infos": 40, "unanswerable": 200, "virtual": 20, "large folders": 4},
		Run:    runC21,
	})
}

type c21 struct {
	*C
	m      *cliMod
	t      Tree
	decls  map[string][]SrcDecl // folder -> declarations
	static []key
	virt   map[string]bool
}

func runC21(c *C) {
	r := c.R
	x := &c21{C: c, m: newCLIMod(c, []string{"app", "my app", "testdata", "a.b"}[r.Intn(4)]), decls: map[string][]SrcDecl{}, virt: map[string]bool{}}
	m := x.m
	x.t = m.dataTree(4 + r.Intn(10))
	x.t.write(m.Root)
	lt := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files/l.txt": {Data: genData(r, false), Mode: 0600, MTime: genMTime(r)}}
	lt.write(m.LDir)
	// go mod tidy takes away what is not used
	m.write("keep/keep.go", "package keep\n\nimport (\n\t_ \"github.com/markbates/pkger\"\n\t_ \""+m.Lib+"\"\n)\n")
	for i := r.Intn(5); i > 0; i-- {
		k := x.pick()
		x.static = append(x.static, k)
	}
	var virt []key
	for i := r.Intn(3); i > 0; i-- {
		k := x.pick()
		if k.pkg == m.Path && k.name != "/" {
			virt = append(virt, k)
		}
	}
	dirs := []string{"/"}
	for _, d := range []string{"/web", "/cmd/tool", "/internal/deep"} {
		if r.Intn(2) == 0 {
			dirs = append(dirs, d)
		}
	}
	for _, d := range dirs {
		o := SrcOpts{Name: pkgName(d), Files: 1 + r.Intn(2), Stmts: 2, NoRun: true, Special: r.Intn(3) == 0,
			Static: func() string {
				if len(x.static) == 0 {
					return "/top.txt"
				}
				return x.spell(x.static[r.Intn(len(x.static))])
			},
			Virtual: func() string {
				if len(virt) == 0 {
					return "/virtual"
				}
				return x.spell(virt[r.Intn(len(virt))])
			}}
		if len(virt) == 0 {
			o.Kinds = []string{"Open", "Stat", "Dir", "Walk", "Include"}
		}
		srcs, _ := genPackage(r, o)
		abs := filepath.Join(m.Root, d)
		must(os.MkdirAll(abs, 0755))
		var names []string
		for n, s := range srcs {
			names = append(names, n)
			must(os.WriteFile(filepath.Join(abs, n), []byte(s), 0644))
		}
		sort.Strings(names)
		ds, _, err := typeCheck(abs, srcs)
		if err != nil {
			c.Inconclusive("the generated package is not valid: %v", err)
		}
		x.decls[d] = ds
		for _, d := range ds {
			if d.Kind == "Create" || d.Kind == "MkdirAll" {
				x.virt[x.canon(d.Value).str()] = true
				c.Obs("virtual", 1)
			}
		}
	}
	x.t.stamp(m.Root)
	x.list(dirs)
	x.parse(dirs)
	x.paths()
	x.stat()
	x.info(dirs)
	x.unanswerable(dirs)
	x.Distinct(dirs, x.t.Paths(), x.static, virt)
	x.Sample("folders %q, declared %v, virtual %v", dirs, x.static, virt)
}

func (x *c21) pick() key {
	ps := x.t.Paths()
	k := key{x.m.Path, ps[x.R.Intn(len(ps))]}
	switch x.R.Intn(9) {
	case 0:
		k.name = "/"
	case 1:
		k = key{x.m.Lib, []string{"/", "/files", "/files/l.txt"}[x.R.Intn(3)]}
	}
	return k
}

// spell is a spelling that can be an argument of a command.
func (x *c21) spell(k key) string { return spell(x.R, k, x.m.Path) }

// canon reads a value that spell has made.
func (x *c21) canon(v string) key {
	pt, err := here.Parse(here.Info{ImportPath: x.m.Path, Module: here.Module{Path: x.m.Path}}, v)
	must(err)
	return key{pt.Pkg, pt.Name}
}

func (x *c21) from(dirs []string) string {
	return filepath.Join(x.m.Root, append([]string{"/", "/assets", "/other"}, dirs...)[x.R.Intn(3+len(dirs))])
}

// decode reads one JSON value and nothing else.
func (x *c21) decode(what, so string, v interface{}) {
	d := json.NewDecoder(strings.NewReader(so))
	if err := d.Decode(v); err != nil {
		x.Fail(what, "pkger %s prints %.300q: %v", what, so, err)
	}
	if _, err := d.Token(); err != io.EOF {
		x.Fail(what, "pkger %s prints more than one value: %.500q", what, so)
	}
}

func (x *c21) list(dirs []string) {
	r, m := x.R, x.m
	var incl []string
	sel := map[string]string{}
	add := func(k key) {
		if x.virt[k.str()] {
			return
		}
		one := map[string]string{}
		m.expand(one, k)
		for s, abs := range one {
			skip := false
			for v := range x.virt {
				vp, vn := splitPath(v)
				p, n := splitPath(s)
				// what is beneath it as well, unless declared beneath it
				if vp == p && within(n, vn) && within(vn, k.name) {
					skip = true
				}
			}
			if !skip {
				sel[s] = abs
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		k := x.pick()
		if x.virt[k.str()] {
			continue
		}
		incl = append(incl, "-include", x.spell(k))
		add(k)
	}
	for _, ds := range x.decls {
		for _, d := range ds {
			if d.Kind != "Create" && d.Kind != "MkdirAll" {
				add(x.canon(d.Value))
			}
		}
	}
	want := keysOf(sel)
	run := func(args ...string) string {
		so, se, code := m.run(x.from(dirs), append(args, incl...)...)
		if code != 0 {
			x.Fail("list", "pkger %q %q exits with %d: %s", args, incl, code, se)
		}
		return so
	}
	plain := func() {
		// names can have line breaks
		lines := strings.Split(strings.TrimSuffix(run("list"), "\n"), "\n > ")
		// packages that are named after nothing
		if lines[0] != m.Path {
			x.Fail("list", "the first line is %q, the module is %s", lines[0], m.Path)
		}
		var got []string
		got = append(got, lines[1:]...)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("list", "pkger list %q prints %q, declared and there are %q", incl, got, want)
		}
		x.Obs("list", 1)
		x.Obs("listed paths", len(got))
	}
	asJSON := func() {
		var out struct {
			ImportPath string
			Files      []struct {
				Abs  string
				Path struct{ Pkg, Name string }
			}
		}
		x.decode("list", run("list", "-json"), &out)
		if out.ImportPath != m.Path {
			x.Fail("list", "the import path is %q", out.ImportPath)
		}
		var got []string
		for _, f := range out.Files {
			s := f.Path.Pkg + ":" + f.Path.Name
			got = append(got, s)
			if sel[s] != f.Abs {
				x.Fail("list", "%s is %s, listed as %s", s, sel[s], f.Abs)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("list", "pkger list -json %q prints %q, declared and there are %q", incl, got, want)
		}
		x.Obs("list", 1)
		x.Obs("listed paths", len(got))
	}
	plain()
	asJSON()
	run()
	gen := filepath.Join(m.Root, "pkged.go")
	g, err := readGenerated(gen)
	if err != nil {
		x.Fail("pack", "%v", err)
	}
	got, err := fsSnap(g.FS, m.Path+":/", m.Lib+":/")
	if err != nil {
		x.Fail("pack", "%v", err)
	}
	if fmt.Sprint(got.Keys()) != fmt.Sprint(sortedAsKeys(want)) {
		x.Fail("list", "pkger list %q prints %q, packing embeds %q", incl, want, got.Keys())
	}
	// it says the same with the output there, which it takes away
	if r.Intn(2) == 0 {
		plain()
	} else {
		asJSON()
	}
	os.Remove(gen)
}

func sortedAsKeys(ks []string) []string {
	s := Snap{}
	for _, k := range ks {
		s[k] = Entry{}
	}
	return s.Keys()
}

func (x *c21) parse(dirs []string) {
	r, m := x.R, x.m
	where := dirs[r.Intn(len(dirs))]
	args := []string{}
	if r.Intn(2) == 0 {
		args = append(args, ".")
	}
	if r.Intn(2) == 0 {
		args = append(args, m.Path+strings.TrimSuffix(dirs[r.Intn(len(dirs))], "/"))
	}
	so, se, code := m.run(filepath.Join(m.Root, where), append([]string{"parse"}, args...)...)
	if code != 0 {
		x.Fail("parse", "pkger parse %q exits with %d: %s", args, code, se)
	}
	var out map[string][]struct {
		declJSON
		File struct {
			Abs  string
			Path struct{ Pkg, Name string }
		}
	}
	x.decode("parse", so, &out)
	if len(args) == 0 {
		args = []string{"."}
	}
	uniq := map[string]bool{}
	for _, a := range args {
		uniq[a] = true
		d := where
		if a != "." {
			d = path.Join("/", strings.TrimPrefix(a, m.Path))
		}
		var want, got []SrcDecl
		for x, ds := range x.decls {
			if within(x, d) {
				want = append(want, ds...)
			}
		}
		js, ok := out[a]
		if !ok {
			x.Fail("parse", "pkger parse %q has no answer for %s", args, a)
		}
		for _, j := range js {
			y := j.decl()
			got = append(got, y)
			if k := x.canon(y.Value); j.File.Path.Pkg != k.pkg || j.File.Path.Name != k.name || j.File.Abs != m.abs(k) {
				x.Fail("parse", "%v is of file %+v, that is %s at %s", y, j.File, k, m.abs(k))
			}
		}
		if d := diffDecls(want, got); d != "" {
			x.Fail("parse", "pkger parse %q in %s: %s: %s", args, where, a, d)
		}
		x.Obs("declarations", len(got))
	}
	if len(out) != len(uniq) {
		x.Fail("parse", "pkger parse %q has %d answers", args, len(out))
	}
	x.Obs("parse", 1)
}

func (x *c21) paths() {
	r, m := x.R, x.m
	args := []string{"path"}
	want := map[string]key{}
	for i := 1 + r.Intn(10); i > 0; i-- {
		k := x.pick()
		if r.Intn(3) == 0 {
			k.name = path.Join(k.name, genName(r))
		}
		if r.Intn(4) == 0 {
			k.pkg = []string{"other.test/x", m.Lib, "github.com/a/b/v2"}[r.Intn(3)]
		}
		s := x.spell(k)
		switch r.Intn(12) {
		case 0:
			s, k.name = k.pkg, "/"
		case 1:
			// as it is on disk
			if k.pkg == m.Path {
				s = filepath.Join(m.Root, k.name)
			}
		}
		args = append(args, s)
		want[s] = k
	}
	so, se, code := m.run(x.from(nil), args...)
	if code != 0 {
		x.Fail("path", "pkger %q exits with %d: %s", args, code, se)
	}
	var out map[string]struct{ Pkg, Name string }
	x.decode("path", so, &out)
	for s, k := range want {
		if o, ok := out[s]; !ok || o.Pkg != k.pkg || o.Name != k.name {
			x.Fail("path", "pkger path %q prints %+v, that is %s", s, out[s], k)
		}
	}
	if len(out) != len(want) {
		x.Fail("path", "pkger %q has %d answers", args, len(out))
	}
	x.Obs("path", 1)
	x.Obs("spellings", len(want))
}

func (x *c21) stat() {
	r, m := x.R, x.m
	args := []string{"stat"}
	var want []Entry
	var many key
	if r.Intn(4) == 0 {
		// more than fits into any buffer
		many = key{m.Path, "/many"}
		must(os.Mkdir(m.abs(many), 0755))
		defer os.RemoveAll(m.abs(many))
		for i := []int{101, 513, 1025, 1500, 2049, 4097, 5000}[r.Intn(7)]; i > 0; i-- {
			must(os.WriteFile(m.abs(many)+fmt.Sprintf("/%x.txt", i), nil, 0644))
		}
		x.Obs("large folders", 1)
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		k := x.pick()
		if i == 1 && many.name != "" {
			k = many
		}
		if k.name == "/" && k.pkg == m.Path {
			// go mod tidy changes what is there
			continue
		}
		args = append(args, x.spell(k))
		fi, err := os.Stat(m.abs(k))
		must(err)
		if !fi.IsDir() {
			want = append(want, infoEntry(fi))
			continue
		}
		es, err := os.ReadDir(m.abs(k))
		must(err)
		var kids []Entry
		for _, e := range es {
			fi, err := e.Info()
			must(err)
			kids = append(kids, infoEntry(fi))
		}
		want = append(want, kids...)
	}
	if len(args) == 1 {
		return
	}
	so, se, code := m.run(x.from(nil), args...)
	if code != 0 {
		x.Fail("stat", "pkger %q exits with %d: %s", args, code, se)
	}
	var got []Entry
	d := json.NewDecoder(strings.NewReader(so))
	for {
		var j struct {
			Details struct {
				Name    string
				Size    int64
				Mode    uint32
				ModTime time.Time `json:"mod_time"`
				IsDir   bool      `json:"is_dir"`
			}
		}
		err := d.Decode(&j)
		if err == io.EOF {
			break
		}
		if err != nil {
			x.Fail("stat", "pkger %q prints %.500q: %v", args, so, err)
		}
		e := j.Details
		n := Entry{Name: e.Name, Size: e.Size, Mode: os.FileMode(e.Mode), MTime: e.ModTime, Dir: e.IsDir}
		got = append(got, n)
	}
	// the children of a folder come in any order
	key := func(e Entry) string { return fmt.Sprintf("%s %d %v %v", e.Name, e.Size, e.Mode, e.MTime) }
	sort.SliceStable(want, func(a, b int) bool { return key(want[a]) < key(want[b]) })
	sort.SliceStable(got, func(a, b int) bool { return key(got[a]) < key(got[b]) })
	if len(got) != len(want) {
		x.Fail("stat", "pkger %q describes %d files, there are %d", args, len(got), len(want))
	}
	for i := range want {
		if d := infoDiff(want[i], got[i]); d != "" {
			x.Fail("stat", "pkger %q: %s: %s", args, want[i].Name, d)
		}
	}
	x.Obs("stat", 1)
	x.Obs("stats", len(got))
}

func (x *c21) info(dirs []string) {
	r, m := x.R, x.m
	where := append([]string{"/assets"}, dirs...)[r.Intn(1+len(dirs))]
	var args []string
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			args = append(args, m.Lib)
		case 1:
			args = append(args, ".")
		default:
			args = append(args, m.Path+strings.TrimSuffix(dirs[r.Intn(len(dirs))], "/"))
		}
	}
	so, se, code := m.run(filepath.Join(m.Root, where), append([]string{"info"}, args...)...)
	if code != 0 {
		x.Fail("info", "pkger info %q in %s exits with %d: %s", args, where, code, se)
	}
	if len(args) == 0 {
		args = []string{"."}
	}
	d := json.NewDecoder(bytes.NewReader([]byte(so)))
	for _, a := range args {
		var j struct {
			Dir, ImportPath, Name string
			Module                struct {
				Path, Dir, GoMod string
				Main             bool
			}
		}
		if err := d.Decode(&j); err != nil {
			x.Fail("info", "pkger info %q prints %.500q: %v", args, so, err)
		}
		k := a
		if a == "." {
			k = m.Path + strings.TrimSuffix(where, "/")
		}
		mod, root := m.Path, m.Root
		if k == m.Lib {
			mod, root = m.Lib, m.LDir
		}
		dir := m.place(k)
		imp, name := k, ""
		switch {
		case k == m.Lib:
			name = "lib"
		case a == "." && where == "/assets":
			// no package, but part of the module
			imp, name = "", "assets"
			if j.Dir == "." {
				dir = "."
			}
			if j.Name == "." {
				name = "."
			}
		default:
			name = pkgName(path.Join("/", strings.TrimPrefix(k, m.Path)))
		}
		if j.Dir != dir || j.ImportPath != imp || j.Name != name || j.Module.Path != mod || j.Module.Dir != root || j.Module.Main != (mod == m.Path) {
			x.Fail("info", "pkger info %q in %s prints %+v for %s; it is package %s, %q in %s of %s in %s", args, where, j, a, name, imp, dir, mod, root)
		}
		x.Obs("infos", 1)
	}
	if _, err := d.Token(); err != io.EOF {
		x.Fail("info", "pkger info %q prints more", args)
	}
	x.Obs("info", 1)
}

func (x *c21) unanswerable(dirs []string) {
	r, m := x.R, x.m
	good := x.spell(key{m.Path, "/top.txt"})
	ask := func(what string, args ...string) {
		so, se, code := m.run(m.Root, args...)
		if code == 0 {
			x.Fail("unanswerable", "%s: pkger %q exits with 0 and prints %.300q", what, args, so)
		}
		if strings.TrimSpace(se) == "" {
			x.Fail("unanswerable", "%s: pkger %q exits with %d and says nothing", what, args, code)
		}
		x.Obs("unanswerable", 1)
	}
	for _, i := range r.Perm(12)[:4] {
		switch i {
		case 0:
			ask("no such command", []string{"nothing", "lists", "Path", "-no", "pack"}[r.Intn(5)])
		case 1:
			ask("no path", "path")
		case 2:
			ask("no such file", "stat", "/none")
			ask("no such file", "stat", good, m.Path+":/none", good)
		case 3:
			ask("no such package", "info", "nowhere.test/x")
			ask("no such package", "info", m.Path, m.Path+"/none")
		case 4:
			ask("no such package", "parse", "nowhere.test/x")
			ask("no such package", "parse", ".", m.Path+"/none")
		case 5:
			ask("no such path", "list", "-include", "/none")
			ask("no such path", "list", "-json", "-include", good, "-include", "/top.txt/below")
		case 6:
			ask("no such package", "list", "-include", "nowhere.test/x:/y")
			ask("no such package", "stat", "nowhere.test/x:/y")
		case 7:
			must(os.Chmod(m.Root+"/top.txt", 0))
			ask("unreadable", "stat", "/top.txt")
			must(os.Chmod(m.Root+"/top.txt", 0644))
		case 8:
			m.write("web/bad.go", "package web\n\nfunc {\n")
			ask("not Go", "parse")
			ask("not Go", "list")
			must(os.Remove(m.Root + "/web/bad.go"))
		case 9:
			m.write("web/missing.go", "package "+pkgName("/web")+"\n\nimport \"github.com/markbates/pkger\"\n\nvar _ = pkger.Include(\"/none/at/all\")\n")
			ask("declares what is missing", "list")
			ask("declares what is missing", "list", "-json")
			must(os.Remove(m.Root + "/web/missing.go"))
		case 11:
			bad := []string{"::", ":::", "::::::"}[r.Intn(3)]
			for _, a := range []string{"path", "stat"} {
				if pt, err := here.Parse(here.Info{Dir: m.Root, ImportPath: m.Path, Module: here.Module{Path: m.Path, Dir: m.Root}}, bad); err != nil {
					ask("no path", a, bad)
					ask("no path", a, good, bad)
					ask("no path", a, bad, good)
				} else {
					x.Logf("%q is %s", bad, pt)
				}
			}
		case 10:
			b, err := os.ReadFile(m.Root + "/go.mod")
			must(err)
			m.write("go.mod", "modul x\n")
			for _, a := range []string{"info", "list", "stat"} {
				if a == "stat" {
					ask("go.mod is not valid", a, "/top.txt")
					continue
				}
				ask("go.mod is not valid", a)
			}
			m.write("go.mod", string(b))
		}
	}
}
