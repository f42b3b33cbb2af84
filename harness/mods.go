package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

// Mods are real modules on the disk, one set per worker: the main module
// and three that it requires. Their contents change with every case, what
// the go command says about them does not.
type Mods struct {
	Base    string
	Main    here.Info
	Infos   map[string]here.Info
	Pkgs    []string          // main first
	Dirs    map[string]string // package -> directory
	goFiles map[string]bool
}

var modDirs = map[string]string{
	cur:                    "app",
	"example.test/app2":    "app2",
	"other.test/lib":       "other/lib",
	"example.test/app/sub": "sub",
}

// otherMod is the module that other.test/lib is a package of: it is not at
// the root of its module.
const (
	otherMod    = "other.test"
	otherModDir = "other"
)

// modOf is the path of the module of the package.
func modOf(pkg string) string {
	if pkg == "other.test/lib" {
		return otherMod
	}
	return pkg
}

var modNames = map[string]string{
	cur:                    "app",
	"example.test/app2":    "app2",
	"other.test/lib":       "lib",
	"example.test/app/sub": "sub",
}

// what must never change, next to the modules
var canaryDirs = []string{"app.bak", "ap", "app2x", "libs", "canary", "other/libs", "other/canary"}

func goVersionLine() string { return "go 1.13\n" }

func setupMods(w *Worker) error {
	m := &Mods{Base: filepath.Join(w.Scratch, "mods"), Dirs: map[string]string{}, Pkgs: append([]string{cur}, otherPkgs...)}
	must(os.MkdirAll(m.Base, 0755))
	m.restore()
	if err := os.Chdir(m.Dirs[cur]); err != nil {
		return err
	}
	i, err := here.Dir(m.Dirs[cur])
	if err != nil {
		return err
	}
	if i.Module.Path != cur || i.Dir != m.Dirs[cur] {
		return fmt.Errorf("here.Dir describes the module as %s", i)
	}
	m.Main = i
	m.Infos = map[string]here.Info{cur: i}
	for _, o := range otherPkgs {
		// from now on known in this process
		i, err := here.Package(o)
		if err != nil {
			return err
		}
		if i.Dir != m.Dirs[o] || i.Module.Path != modOf(o) {
			return fmt.Errorf("here.Package(%s) describes it as %s", o, i)
		}
		m.Infos[o] = i
	}
	if i, err := here.Package(otherMod); err != nil || i.Dir != m.Dirs[otherMod] {
		return fmt.Errorf("here.Package(%s) describes it as %s, %v", otherMod, i, err)
	}
	w.Mods = m
	return nil
}

// restore makes the modules, as far as they are not there.
func (m *Mods) restore() {
	for _, p := range m.Pkgs {
		d := filepath.Join(m.Base, modDirs[p])
		m.Dirs[p] = d
		if fi, err := os.Lstat(d); err == nil && !fi.IsDir() {
			wipe(d)
		}
		must(os.MkdirAll(d, 0755))
		for _, n := range m.fixed(p) {
			if fi, err := os.Lstat(filepath.Join(d, n)); err == nil && !fi.Mode().IsRegular() {
				wipe(filepath.Join(d, n))
			}
		}
		gm := "module " + p + "\n\n" + goVersionLine()
		if p == cur {
			for _, o := range otherPkgs {
				d := modDirs[o]
				if modOf(o) != o {
					o, d = otherMod, otherModDir
				}
				gm += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => ../%s\n", o, o, d)
			}
		}
		if modOf(p) == p {
			must(os.WriteFile(filepath.Join(d, "go.mod"), []byte(gm), 0644))
		}
		must(os.WriteFile(filepath.Join(d, "x.go"), []byte("package "+modNames[p]+"\n"), 0644))
	}
	d := filepath.Join(m.Base, otherModDir)
	m.Dirs[otherMod] = d
	must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+otherMod+"\n\n"+goVersionLine()), 0644))
	must(os.WriteFile(filepath.Join(d, "x.go"), []byte("package other\n"), 0644))
	for _, n := range canaryDirs {
		d := filepath.Join(m.Base, n)
		must(os.MkdirAll(filepath.Join(d, "a"), 0755))
		must(os.WriteFile(filepath.Join(d, "a.txt"), []byte("canary "+n), 0644))
		must(os.WriteFile(filepath.Join(d, "a", "b"), []byte("canary "+n), 0644))
	}
}

// fixed are the files that always are in the package.
func (m *Mods) fixed(pkg string) []string {
	if modOf(pkg) != pkg {
		return []string{"/x.go"}
	}
	return []string{"/go.mod", "/x.go"}
}

// home is the directory workers run in.
func (w *Worker) home() string {
	if w.Mods != nil {
		return w.Mods.Dirs[cur]
	}
	return w.Scratch
}

// reset replaces the contents of the modules. There always is the Go file
// and go.mod.
func (m *Mods) reset(trees map[string]Tree) {
	m.restore()
	must(os.Chdir(m.Dirs[cur]))
	for _, p := range m.Pkgs {
		d := m.Dirs[p]
		ents, err := os.ReadDir(d)
		must(err)
		for _, e := range ents {
			if e.Name() == "x.go" || e.Name() == "go.mod" && modOf(p) == p {
				continue
			}
			wipe(filepath.Join(d, e.Name()))
		}
		if p == "other.test/lib" {
			// and what is next to it in its module
			ents, err := os.ReadDir(m.Dirs[otherMod])
			must(err)
			for _, e := range ents {
				switch e.Name() {
				case "go.mod", "x.go", "lib", "libs", "canary":
				default:
					wipe(filepath.Join(m.Dirs[otherMod], e.Name()))
				}
			}
		}
		if t := trees[p]; t != nil {
			t.write(d)
		}
	}
}

// wipe removes a scratch directory whatever its modes are.
func wipe(d string) {
	if !strings.HasPrefix(d, "/tmp/") {
		panic("wipe " + d)
	}
	var open func(p string)
	open = func(p string) {
		fi, err := os.Lstat(p)
		if err != nil || !fi.IsDir() {
			return
		}
		if fi.Mode().Perm()&0700 != 0700 {
			os.Chmod(p, 0755)
		}
		es, _ := os.ReadDir(p)
		for _, e := range es {
			if e.IsDir() {
				open(filepath.Join(p, e.Name()))
			}
		}
	}
	open(d)
	must(os.RemoveAll(d))
}

func (m *Mods) disk(c *C) *stdos.Pkger {
	p, err := stdos.New(m.Main)
	if err != nil {
		c.Fail("new", "stdos.New: %v", err)
	}
	return p
}

func (m *Mods) mem(c *C) *mem.Pkger {
	p, err := mem.New(m.Main)
	if err != nil {
		c.Fail("new", "mem.New: %v", err)
	}
	return p
}

// snap is all there is below the base: modules and canaries.
func (m *Mods) snap() Snap { return diskSnap(m.Base, "base") }

// link adds symbolic links to regular files, next to them, elsewhere in the
// modules, or nowhere in a module. They are read like the files are.
func (m *Mods) link(c *C, pkgs []string, trees map[string]Tree) {
	r := c.R
	var files []string
	for _, p := range pkgs {
		for _, f := range trees[p].Files() {
			files = append(files, m.abs(key{p, f}))
		}
	}
	out := filepath.Join(m.Base, "linked.txt")
	must(os.WriteFile(out, genData(r, false), 0644))
	files = append(files, out)
	for i := 1 + r.Intn(4); i > 0; i-- {
		p := pkgs[r.Intn(len(pkgs))]
		ds := trees[p].Dirs()
		d := m.abs(key{p, ds[r.Intn(len(ds))]})
		n := filepath.Join(d, fmt.Sprintf("%s%d", []string{"lnk", "a", ".lnk", "zz.txt"}[r.Intn(4)], i))
		if _, err := os.Lstat(n); err == nil {
			continue
		}
		t := files[r.Intn(len(files))]
		if r.Intn(2) == 0 {
			x, err := filepath.Rel(d, t)
			must(err)
			must(os.Symlink(x, n))
		} else {
			must(os.Symlink(t, n))
		}
		// links to links
		files = append(files, n)
		c.Obs("links", 1)
	}
}

// modSnap is what the disk has for the packages.
func (m *Mods) modSnap(pkgs ...string) Snap {
	s := Snap{}
	for _, p := range pkgs {
		for k, e := range diskSnap(m.Dirs[p], p) {
			s[k] = e
		}
	}
	return s
}

// abs is the file on disk.
func (m *Mods) abs(k key) string { return filepath.Join(m.Dirs[k.pkg], k.name) }

func runCmd(dir string, env []string, name string, args ...string) (string, string, int, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return so.String(), se.String(), -1, err
		}
		code = ee.ExitCode()
	}
	return so.String(), se.String(), code, nil
}
