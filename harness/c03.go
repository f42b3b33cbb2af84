package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
)

func init() {
	register(&Check{
		ID: "C03", Level: "exploration",
		Rule:  "Go packages are generated - calls with literals, escapes, constants of all forms, in initialisers, closures, callbacks, arguments of other calls, all kinds of statements, next to computed paths, shadowed names and decoys in comments and strings - and checked by the type checker, which also is the oracle: its list of constant calls, with kind, value and position, has to be what the parser reports, each once. Half of the time a folder is written again - with its time left as it was or not - and has to be parsed again by the same process. Some of the cases ask the command. A case counts by its sources.",
		Quick: 1300, Thorough: 40000,
		MinObs: map[string]int{"packages": 1498, "declarations": 25000, "computed": 2000, "parse command": 20, "written again": 300, "files of the standard library": 100,
			"constant of another file": 200, "implicit repetition": 100, "nested in a computed path": 200, "shadowing constant": 50, "shadowing variable": 50, "generics": 100, "in a callback": 100, "CRLF": 50},
		Setup: setupCode,
		Run:   runC03,
	})
}

// folders that hold Go code, and ones that are ignored though they do
var codeDirs = []string{"/", "/cmd/tool", "/internal/deep/er", "/web", "/vendored", "/node_modulesx", "/testdata2", "/x_y", "/pkg-dash", "/cmd", "/x.y", "/UP"}
var ignoredDirs = []string{"/_ign", "/.hid", "/vendor/v.test/x", "/testdata", "/testdata/t", "/node_modules/n", "/web/_x", "/_ign/in", "/cmd/tool/testdata", "/.git", "/x_y/vendor", "/web/node_modules", "/internal/.deep", "/_"}

// setupCode makes the modules, with all folders for code known to the
// process: what the go command says about them never changes.
func setupCode(w *Worker) error {
	// the folder of a module can have any name
	modDirs[cur] = []string{"app", "_app", "app", "testdata", "app", "node_modules", "app", ".app"}[w.First%8]
	if err := setupMods(w); err != nil {
		return err
	}
	m := w.Mods
	for _, d := range codeDirs {
		p := filepath.Join(m.Dirs[cur], d)
		must(os.MkdirAll(p, 0755))
		if d != "/" {
			must(os.WriteFile(filepath.Join(p, "warm.go"), []byte("package "+pkgName(d)+"\n"), 0644))
		}
		if _, err := here.Dir(p); err != nil {
			return err
		}
	}
	return nil
}

var stdPkgs = []string{"fmt", "strings", "go/ast", "go/types", "net/http", "encoding/json", "os", "reflect", "text/template", "sort", "slices", "iter", "crypto/tls", "regexp/syntax", "math/big", "time", "runtime", "go/parser", "html", "unicode"}

func pkgName(d string) string {
	if d == "/_" {
		return "under"
	}
	n := filepath.Base(d)
	if d == "/" {
		return "app"
	}
	n = strings.Map(func(r rune) rune {
		if r == '.' || r == '-' {
			return '_'
		}
		return r
	}, n)
	return n
}

// reported makes comparable what the parser reports.
func reported(c *C, d parser.Decl) SrcDecl {
	var x SrcDecl
	switch d.(type) {
	case parser.OpenDecl:
		x.Kind = "Open"
	case parser.StatDecl:
		x.Kind = "Stat"
	case parser.HTTPDecl:
		x.Kind = "Dir"
	case parser.WalkDecl:
		x.Kind = "Walk"
	case parser.IncludeDecl:
		x.Kind = "Include"
	case parser.CreateDecl:
		x.Kind = "Create"
	case parser.MkdirAllDecl:
		x.Kind = "MkdirAll"
	default:
		c.Fail("kind", "declaration of type %T", d)
	}
	v, err := d.Value()
	if err != nil {
		c.Fail("value", "Value of %v: %v", d, err)
	}
	x.Value = v
	p, err := d.Position()
	if err != nil {
		c.Fail("position", "Position of %v: %v", d, err)
	}
	x.File, x.Line, x.Col, x.Off = p.Filename, p.Line, p.Column, p.Offset
	// as JSON it is the same
	b, err := json.Marshal(d)
	if err != nil {
		c.Fail("json", "%v", err)
	}
	j := declJSON{}
	if err := json.Unmarshal(b, &j); err != nil {
		c.Fail("json", "%s: %v", b, err)
	}
	if y := j.decl(); y != x {
		c.Fail("json", "%v is encoded as %s", x, b)
	}
	return x
}

type declJSON struct {
	Type  string
	File  *parser.File
	Pos   token.Position
	Value string
}

func (j declJSON) decl() SrcDecl {
	return SrcDecl{Kind: strings.TrimPrefix(j.Type, "pkger."), Value: j.Value, File: j.Pos.Filename, Line: j.Pos.Line, Col: j.Pos.Column, Off: j.Pos.Offset}
}

func diffDecls(want, got []SrcDecl) string {
	sortDecls(want)
	sortDecls(got)
	cw, cg := map[SrcDecl]int{}, map[SrcDecl]int{}
	for _, d := range want {
		cw[d]++
	}
	for _, d := range got {
		cg[d]++
	}
	var out []string
	for _, d := range want {
		if cg[d] != cw[d] {
			out = append(out, fmt.Sprintf("%v is reported %d times, is there %d times", d, cg[d], cw[d]))
		}
	}
	for _, d := range got {
		if cw[d] == 0 {
			out = append(out, fmt.Sprintf("%v is reported, but is not there", d))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("and %d more", len(out)-6))
	}
	return strings.Join(out, "\n")
}

// some values of paths
func genValue(c *C) string {
	r := c.R
	names := []string{"/a", "/public/index.html", "/x y", "/é/日本", "/quo\"te", "/tab\t", "/nul\\x", "/a//b/../c", "/", "/assets", "example.test/app:/z", "other.test/lib:/file", "example.test/app/sub:/", "/with:colon", "/100%", "/%s%d", "/new\nline", "/b`tick"}
	v := names[r.Intn(len(names))]
	if r.Intn(2) == 0 {
		v += fmt.Sprint(r.Intn(1000))
	}
	return v
}

func runC03(c *C) {
	r := c.R
	m := c.Mods
	m.reset(nil)
	root := m.Dirs[cur]
	var want []SrcDecl
	var sig []string
	used := map[string]bool{}
	// code writes a new package into the folder
	code := func(d string) {
		o := SrcOpts{Name: pkgName(d), Files: 1 + r.Intn(3), Stmts: 3, NoRun: true, Special: r.Intn(3) == 0,
			Static: func() string { return genValue(c) }, Virtual: func() string { return genValue(c) }}
		if r.Intn(5) == 0 {
			o.Stmts = 10
		}
		srcs, traits := genPackage(r, o)
		abs := filepath.Join(root, d)
		decls, computed, err := typeCheck(abs, srcs)
		if err != nil {
			for n, s := range srcs {
				c.Logf("%s:\n%s", n, s)
			}
			c.Inconclusive("the generated package is not valid: %v", err)
		}
		must(os.MkdirAll(abs, 0755))
		var names []string
		for n := range srcs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			must(os.WriteFile(filepath.Join(abs, n), []byte(srcs[n]), 0644))
			sig = append(sig, srcs[n])
		}
		want = append(want, decls...)
		c.Obs("packages", 1)
		c.Obs("declarations", len(decls))
		c.Obs("computed", computed)
		for t := range traits {
			c.Obs(t, 1)
		}
	}
	var dirs []string
	for i := 1 + r.Intn(3); i > 0; i-- {
		d := codeDirs[r.Intn(len(codeDirs))]
		if used[d] {
			continue
		}
		used[d] = true
		dirs = append(dirs, d)
		code(d)
	}
	if c.Idx%40 != 0 && r.Intn(15) == 0 && !used["/vendored"] {
		// what others have written declares nothing, however odd
		d := filepath.Join(runtime.GOROOT(), "src", stdPkgs[r.Intn(len(stdPkgs))])
		fs, err := filepath.Glob(d + "/*.go")
		must(err)
		must(os.MkdirAll(root+"/vendored", 0755))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			must(err)
			must(os.WriteFile(root+"/vendored/"+filepath.Base(f), b, 0644))
			c.Obs("files of the standard library", 1)
		}
	}
	check := func(what string) *parser.Parser {
		decls, err := parser.Parse(m.Main)
		if err != nil {
			c.Fail("parse", "Parse: %v", err)
		}
		var got []SrcDecl
		for _, d := range decls {
			got = append(got, reported(c, d))
		}
		if d := diffDecls(want, got); d != "" {
			c.Fail("declarations", "%s%s", what, d)
		}
		p, err := parser.New(m.Main)
		must(err)
		dm, err := p.DeclsMap()
		if err != nil {
			c.Fail("parse", "DeclsMap: %v", err)
		}
		got = nil
		for _, k := range declKinds {
			for _, d := range dm[k] {
				x := reported(c, d)
				if x.Kind != k {
					c.Fail("kind", "DeclsMap has %v under %s", x, k)
				}
				got = append(got, x)
			}
		}
		if d := diffDecls(want, got); d != "" {
			c.Fail("declarations", "%sDeclsMap: %s", what, d)
		}
		return p
	}
	p := check("")
	singly(c, p, want, used, root)
	if r.Intn(2) == 0 {
		// one of them is written again: what has been parsed before is of no
		// interest, not even when the folder looks as if it were not changed
		d := dirs[r.Intn(len(dirs))]
		abs := filepath.Join(root, d)
		fi, err := os.Stat(abs)
		must(err)
		fs, err := filepath.Glob(abs + "/*.go")
		must(err)
		for _, f := range fs {
			if f != root+"/x.go" {
				must(os.Remove(f))
			}
		}
		var rest []SrcDecl
		for _, x := range want {
			if filepath.Dir(x.File) != abs {
				rest = append(rest, x)
			}
		}
		want = rest
		code(d)
		if r.Intn(3) > 0 {
			must(os.Chtimes(abs, fi.ModTime(), fi.ModTime()))
		}
		q := check("the second time: ")
		if r.Intn(2) == 0 {
			q = p
		}
		singly(c, q, want, used, root)
		c.Obs("written again", 1)
	}
	if c.Idx%40 == 0 {
		so, se, code, err := runCmd(root, nil, c.Pkger, "parse")
		must(err)
		if code != 0 {
			c.Fail("command", "pkger parse exits with %d: %s", code, se)
		}
		var out map[string][]declJSON
		if err := json.Unmarshal([]byte(so), &out); err != nil || len(out) != 1 {
			c.Fail("command", "pkger parse prints %s: %v", so, err)
		}
		var got []SrcDecl
		for _, j := range out["."] {
			got = append(got, j.decl())
		}
		if d := diffDecls(want, got); d != "" {
			c.Fail("declarations", "pkger parse: %s", d)
		}
		c.Obs("parse command", 1)
	}
	c.Distinct(sig)
	if len(want) > 0 {
		c.Sample("%v and %d more", want[0], len(want)-1)
	}
}

// singly asks for the declarations of single folders and files.
func singly(c *C, p *parser.Parser, want []SrcDecl, used map[string]bool, root string) {
	of := func(what string, srcs []*parser.ParsedSource) []SrcDecl {
		var out []SrcDecl
		for _, s := range srcs {
			dm, err := s.DeclsMap()
			if err != nil {
				c.Fail("parse", "DeclsMap of %s: %v", what, err)
			}
			for _, k := range declKinds {
				for _, d := range dm[k] {
					out = append(out, reported(c, d))
				}
			}
		}
		return out
	}
	var dirs []string
	for d := range used {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		abs := filepath.Join(root, d)
		srcs, err := p.ParseDir(abs, 0)
		if err != nil {
			c.Fail("parse", "ParseDir(%s): %v", abs, err)
		}
		in := func(dir bool, name string) []SrcDecl {
			var out []SrcDecl
			for _, x := range want {
				if x.File == name || dir && filepath.Dir(x.File) == name {
					out = append(out, x)
				}
			}
			return out
		}
		if s := diffDecls(in(true, abs), of(abs, srcs)); s != "" {
			c.Fail("declarations", "ParseDir(%s): %s", abs, s)
		}
		c.Obs("folders parsed alone", 1)
		fs, err := filepath.Glob(abs + "/*.go")
		must(err)
		for _, f := range fs {
			src, err := p.ParseFile(f, 0)
			if err != nil {
				c.Fail("parse", "ParseFile(%s): %v", f, err)
			}
			got := of(f, []*parser.ParsedSource{src})
			w := in(false, f)
			if len(fs) > 1 {
				// the constants may be in the other files
				has := map[SrcDecl]bool{}
				for _, x := range got {
					has[x] = true
				}
				var part []SrcDecl
				for _, x := range w {
					if has[x] {
						part = append(part, x)
					}
				}
				w = part
			}
			if s := diffDecls(w, got); s != "" {
				c.Fail("declarations", "ParseFile(%s): %s", f, s)
			}
			c.Obs("files parsed alone", 1)
		}
	}
}
