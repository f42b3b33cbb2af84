package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/markbates/pkger/pkging/mem"
)

// Modules of their own for the command, which runs as it does for users.

type cliMod struct {
	c    *C
	Path string // of the module
	Root string
	Lib  string // path of the module it requires
	LDir string
}

func newCLIMod(c *C, dirname string) *cliMod {
	m := &cliMod{c: c}
	m.Path = fmt.Sprintf("m%d.test/app", c.Idx)
	m.Lib = fmt.Sprintf("m%d.test/lib", c.Idx)
	m.Root = filepath.Join(c.Dir(), "src", dirname)
	m.LDir = filepath.Join(c.Dir(), "src", "lib")
	must(os.MkdirAll(m.Root, 0755))
	must(os.MkdirAll(m.LDir, 0755))
	m.write("go.mod", "module "+m.Path+"\n\ngo 1.13\n\nrequire (\n\tgithub.com/markbates/pkger v0.0.0\n\t"+m.Lib+" v0.0.0\n)\n\nreplace github.com/markbates/pkger => /repo\n\nreplace "+m.Lib+" => ../lib\n")
	b, err := os.ReadFile("/repo/go.sum")
	must(err)
	m.write("go.sum", string(b))
	must(os.WriteFile(m.LDir+"/go.mod", []byte("module "+m.Lib+"\n\ngo 1.13\n"), 0644))
	must(os.WriteFile(m.LDir+"/lib.go", []byte("package lib\n"), 0644))
	return m
}

func (m *cliMod) write(name, s string) {
	p := filepath.Join(m.Root, name)
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, []byte(s), 0644))
}

// run runs the pkger command
func (m *cliMod) run(dir string, args ...string) (string, string, int) {
	so, se, code, err := runCmd(dir, nil, m.c.Pkger, args...)
	must(err)
	m.c.Logf("pkger %q in %s: exit %d", args, dir, code)
	return so, se, code
}

// gocmd is the go command
func (m *cliMod) gocmd(args ...string) (string, string, int) {
	so, se, code, err := runCmd(m.Root, nil, "go", args...)
	must(err)
	m.c.Logf("go %q: exit %d", args, code)
	return so, se, code
}

// place is the directory of a package
func (m *cliMod) place(pkg string) string {
	if pkg == m.Lib {
		return m.LDir
	}
	return filepath.Join(m.Root, strings.TrimPrefix(pkg, m.Path))
}

func (m *cliMod) abs(k key) string { return filepath.Join(m.place(k.pkg), k.name) }

// expand is what the path selects: canonical path -> file
func (m *cliMod) expand(sel map[string]string, k key) bool {
	root := m.abs(k)
	if _, err := os.Lstat(root); err != nil {
		return false
	}
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		must(err)
		sel[key{k.pkg, path.Join(k.name, strings.TrimPrefix(p, root))}.str()] = p
		return nil
	}))
	return true
}

// generated is what a generated file holds.
type generated struct {
	Pkg  string
	FS   *mem.Pkger
	Blob string
	Tags string
}

// readGenerated takes a generated file apart.
func readGenerated(file string) (*generated, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := goparser.ParseFile(fset, file, b, goparser.ParseComments)
	if err != nil {
		return nil, err
	}
	g := &generated{Pkg: f.Name.Name}
	var lits []string
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		ast.Inspect(gd, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				s, err := strconv.Unquote(l.Value)
				if err == nil {
					lits = append(lits, s)
				}
			}
			return true
		})
	}
	if len(lits) != 1 {
		return g, fmt.Errorf("%s has %d string literals", file, len(lits))
	}
	g.Blob = lits[0]
	g.FS, err = mem.UnmarshalEmbed([]byte(lits[0]))
	return g, err
}

// the program that is packed

type probeEnt struct {
	Name  string
	Size  int64
	Mode  uint32
	Sec   int64
	Nsec  int
	Dir   bool
	Data  []byte
	Kids  []string
	Opens string
}

type probeOut struct {
	Current string
	Entries map[string]probeEnt
	Errors  []string
	Absent  map[string]bool
}

const probeSrc = `
type ent struct {
	Name  string
	Size  int64
	Mode  uint32
	Sec   int64
	Nsec  int
	Dir   bool
	Data  []byte
	Kids  []string
	Opens string
}

func probe(roots []string, absent []string) {
	out := struct {
		Current string
		Entries map[string]ent
		Errors  []string
		Absent  map[string]bool
	}{Entries: map[string]ent{}, Absent: map[string]bool{}}
	bad := func(format string, a ...interface{}) { out.Errors = append(out.Errors, fmt.Sprintf(format, a...)) }
	her, err := pkger.Current()
	if err != nil {
		bad("Current: %v", err)
	}
	out.Current = her.Module.Path
	mk := func(fi os.FileInfo) ent {
		t := fi.ModTime()
		return ent{Name: fi.Name(), Size: fi.Size(), Mode: uint32(fi.Mode()), Sec: t.Unix(), Nsec: t.Nanosecond(), Dir: fi.IsDir()}
	}
	same := func(a, b ent) bool {
		return a.Name == b.Name && a.Size == b.Size && a.Mode == b.Mode && a.Sec == b.Sec && a.Nsec == b.Nsec && a.Dir == b.Dir
	}
	for _, root := range roots {
		err := pkger.Walk(root, func(n string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			e := mk(fi)
			x, err := pkger.Stat(n)
			if err != nil {
				bad("Stat %s: %v", n, err)
				return nil
			}
			if !same(e, mk(x)) {
				bad("Stat %s: %v, walked %v", n, mk(x), e)
			}
			f, err := pkger.Open(n)
			if err != nil {
				bad("Open %s: %v", n, err)
				return nil
			}
			defer f.Close()
			x, err = f.Stat()
			if err != nil || !same(e, mk(x)) {
				bad("Open and Stat %s: %v", n, err)
			}
			e.Opens = f.Path().String()
			if e.Dir {
				l, err := f.Readdir(-1)
				if err != nil {
					bad("Readdir %s: %v", n, err)
				}
				for _, x := range l {
					e.Kids = append(e.Kids, x.Name())
				}
				sort.Strings(e.Kids)
			} else {
				e.Data, err = ioutil.ReadAll(f)
				if err != nil {
					bad("Read %s: %v", n, err)
				}
			}
			out.Entries[n] = e
			return nil
		})
		if err != nil {
			bad("Walk %s: %v", root, err)
		}
	}
	for _, a := range absent {
		_, err := pkger.Stat(a)
		_, err2 := pkger.Open(a)
		out.Absent[a] = err != nil && err2 != nil
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
`

const probeImports = `import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"sort"

	"github.com/markbates/pkger"
%s)
`

func (o *probeOut) snap() Snap {
	s := Snap{}
	for k, e := range o.Entries {
		x := Entry{Name: e.Name, Size: e.Size, Mode: os.FileMode(e.Mode), MTime: time.Unix(e.Sec, int64(e.Nsec)), Dir: e.Dir, Kids: e.Kids}
		if !e.Dir {
			x.Data = string(e.Data)
		}
		s[k] = x
	}
	return s
}

// probe runs a built program and compares what it sees.
func (m *cliMod) probe(when, bin, dir string, env []string, want Snap) *probeOut {
	so, se, code, err := runCmd(dir, env, bin)
	must(err)
	if code != 0 {
		m.c.Fail("program", "%s: the program exits with %d: %s", when, code, se)
	}
	o := &probeOut{}
	if err := json.Unmarshal([]byte(so), o); err != nil {
		m.c.Fail("program", "%s: the program prints %q: %v", when, so, err)
	}
	if len(o.Errors) > 0 {
		sort.Strings(o.Errors)
		m.c.Fail("program", "%s: %q", when, o.Errors)
	}
	if o.Current != m.Path {
		m.c.Fail("program", "%s: the current module is %q", when, o.Current)
	}
	if d := want.diff(o.snap()); d != "" {
		m.c.Fail("program", "%s: %s", when, d)
	}
	for k, e := range o.Entries {
		if e.Opens != k {
			m.c.Fail("program", "%s: opening %s gives %s", when, k, e.Opens)
		}
	}
	m.c.Obs("programs run", 1)
	m.c.Obs("entries read", len(o.Entries))
	return o
}
