package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

// key is a package and an absolute, clean name in it.
type key struct{ pkg, name string }

func (k key) String() string { return k.pkg + ":" + k.name }

func (k key) parent() key { return key{k.pkg, path.Dir(k.name)} }

func (k key) within(root key) bool {
	return k.pkg == root.pkg && within(k.name, root.name)
}

// mnode is an entry of the model.
type mnode struct {
	dir  bool
	data string
	mode os.FileMode
}

// model is a plain hierarchical file system, one tree per package. It may
// hold entries without their parents, as embedded file systems do.
type model struct {
	m map[key]*mnode
}

func newModel() *model { return &model{m: map[key]*mnode{}} }

func (m *model) keys() []key {
	var ks []key
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a].String() < ks[b].String() })
	return ks
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.m {
		c := *v
		n.m[k] = &c
	}
	return n
}

func (m *model) hasKids(k key) bool {
	for x := range m.m {
		if x != k && x.within(k) {
			return true
		}
	}
	return false
}

func (m *model) mkdirAll(k key, perm os.FileMode) string {
	if n, ok := m.m[k]; ok {
		if !n.dir {
			return "error"
		}
		return "ok"
	}
	if k.name != "/" {
		if r := m.mkdirAll(k.parent(), perm); r != "ok" {
			return r
		}
	}
	m.m[k] = &mnode{dir: true, mode: perm | os.ModeDir}
	return "ok"
}

func (m *model) create(k key) string {
	if n, ok := m.m[k]; ok && n.dir || k.name == "/" {
		return "error"
	}
	par := k.parent()
	if par.name == "/" {
		if _, ok := m.m[par]; !ok {
			m.m[par] = &mnode{dir: true, mode: 0755 | os.ModeDir}
		}
	}
	p, ok := m.m[par]
	if !ok {
		return "notexist"
	}
	if !p.dir {
		return "error"
	}
	m.m[k] = &mnode{mode: 0644}
	return "ok"
}

func (m *model) remove(k key) string {
	if _, ok := m.m[k]; !ok {
		return "notexist"
	}
	if m.hasKids(k) {
		return "error"
	}
	delete(m.m, k)
	return "ok"
}

func (m *model) removeAll(k key) {
	for x := range m.m {
		if x.within(k) {
			delete(m.m, x)
		}
	}
}

// matches compares what is observed with the model: paths, kind, contents,
// size, permission bits, base name and listings.
func (m *model) matches(s Snap, rootNames map[string]string) string {
	for _, k := range m.keys() {
		n := m.m[k]
		e, ok := s[k.String()]
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if e.Dir != n.dir || e.Mode.IsDir() != n.dir {
			return fmt.Sprintf("%s: IsDir %v, mode %v; want directory: %v", k, e.Dir, e.Mode, n.dir)
		}
		if e.Mode != n.mode {
			return fmt.Sprintf("%s: mode %v, want %v", k, e.Mode, n.mode)
		}
		if k.name != "/" {
			if e.Name != path.Base(k.name) {
				return fmt.Sprintf("%s: base name %q", k, e.Name)
			}
		}
		if !n.dir {
			if e.Data != n.data {
				return fmt.Sprintf("%s: contents %s, want %s", k, short(e.Data), short(n.data))
			}
			if e.Size != int64(len(n.data)) {
				return fmt.Sprintf("%s: size %d, want %d", k, e.Size, len(n.data))
			}
		} else {
			var kids []string
			for x := range m.m {
				if x.pkg == k.pkg && x.name != "/" && path.Dir(x.name) == k.name {
					kids = append(kids, path.Base(x.name))
				}
			}
			sort.Strings(kids)
			if strings.Join(kids, "\x00") != strings.Join(e.Kids, "\x00") {
				return fmt.Sprintf("%s: lists %q, want %q", k, e.Kids, kids)
			}
		}
	}
	for k := range s {
		p, n := splitPath(k)
		if _, ok := m.m[key{p, n}]; !ok {
			return fmt.Sprintf("%s should not be there", k)
		}
	}
	return ""
}

// memFS builds an in-memory file system that holds the trees, as it would
// come out of a packed program, or a new empty one.
func memFS(main here.Info, pkgs []string, trees map[string]Tree) (*mem.Pkger, *model) {
	ed := embed.Data{Here: main, Infos: map[string]here.Info{}, Files: map[string]embed.File{}}
	ed.Infos[main.ImportPath] = main
	md := newModel()
	infos := map[string]here.Info{main.Module.Path: main}
	for _, p := range pkgs {
		if p == main.Module.Path {
			continue
		}
		i := mainInfo("/src/"+filepath.Base(p), p)
		if o := modOf(p); o != p {
			i.Module = mainInfo("/src", o).Module
		}
		ed.Infos[p] = i
		infos[p] = i
	}
	for pkg, t := range trees {
		for p, n := range t {
			k := key{pkg, p}
			name := path.Base(p)
			if p == "/" {
				name = path.Base(infos[pkg].Dir)
			}
			fi := &pkging.FileInfo{Details: pkging.Details{
				Name: name, Size: int64(len(n.Data)), Mode: n.Mode, ModTime: pkging.ModTime(n.MTime), IsDir: n.Dir,
			}}
			if n.Dir {
				fi.Details.Mode |= os.ModeDir
				fi.Details.Size = 4096
			}
			ed.Files[k.String()] = embed.File{Info: fi, Here: infos[pkg], Path: here.Path{Pkg: pkg, Name: p}, Data: n.Data}
			md.m[k] = &mnode{dir: n.Dir, data: string(n.Data), mode: fi.Details.Mode}
		}
	}
	b, err := json.Marshal(ed)
	must(err)
	b, err = embed.Encode(b)
	if err != nil {
		panic(failure{fmt.Sprintf("embed.Encode: %v", err), "encode"})
	}
	p, err := mem.UnmarshalEmbed(b)
	if err != nil {
		panic(failure{fmt.Sprintf("mem.UnmarshalEmbed of a valid blob: %v", err), "unmarshal"})
	}
	return p, md
}

// wantSnap is what a file system built by memFS from the trees has to show.
func wantSnap(main here.Info, trees map[string]Tree) Snap {
	s := Snap{}
	for pkg, t := range trees {
		for p, n := range t {
			name := path.Base(p)
			if p == "/" {
				name = path.Base(main.Dir)
				if pkg != main.Module.Path {
					name = path.Base(pkg)
				}
			}
			e := Entry{Name: name, Size: int64(len(n.Data)), Mode: n.Mode, MTime: n.MTime, Dir: n.Dir, Data: string(n.Data)}
			if n.Dir {
				e.Mode |= os.ModeDir
				e.Size = 4096
				e.Data = ""
			}
			s[pkg+":"+p] = e
		}
	}
	return s.relist()
}

// spell gives another spelling of the path; cur is the current package.
func spell(r *rand.Rand, k key, cur string) string {
	name := k.name
	elems := strings.Split(strings.TrimPrefix(name, "/"), "/")
	if name == "/" {
		elems = nil
	}
	switch r.Intn(8) {
	case 0: // doubled slashes
		name = "/" + strings.Join(elems, strings.Repeat("/", 1+r.Intn(3)))
	case 1: // dots
		var out []string
		for _, e := range elems {
			for r.Intn(2) == 0 {
				out = append(out, ".")
			}
			out = append(out, e)
		}
		name = "/" + strings.Join(out, "/")
	case 2: // detours
		var out []string
		for _, e := range elems {
			for r.Intn(3) == 0 {
				out = append(out, genName(r), "..")
			}
			out = append(out, e)
		}
		name = "/" + strings.Join(out, "/")
	case 3: // above the root
		n := 1 + r.Intn(3)
		name = strings.Repeat("/..", n) + "/" + strings.Join(elems, "/")
	case 4: // trailing
		if name != "/" {
			name += []string{"/", "//", "/.", "/x/..", "/./"}[r.Intn(5)]
		}
	}
	s := name
	if k.pkg != cur || r.Intn(2) == 0 {
		s = k.pkg + ":" + name
	}
	switch r.Intn(10) {
	case 0:
		s = " " + s
	case 1:
		s = s + []string{"\n", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u2003", "\u3000"}[r.Intn(8)]
	case 2:
		s = []string{"\t", "\u2009", "\u00a0 "}[r.Intn(3)] + s + "  "
	}
	return s
}

// memFSEmpty knows the packages and holds nothing.
func memFSEmpty(c *C, m *Mods) (*mem.Pkger, error) {
	p, _ := memFS(m.Main, m.Pkgs, map[string]Tree{})
	return p, nil
}
