package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

func init() {
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule:  "random packages, path elements (also with ':', spaces, dots, the module's own folder name, package-like text) and spellings of them: each is parsed by both implementations under several module directories and has to give the generator's canonical pair, again when it is parsed again; then histories of operations where each call uses another spelling, in memory and on disk, compared with the reference model. A case counts by its spellings and calls.",
		Quick: 700, Thorough: 12000,
		MinObs: map[string]int{"parsed": 30000, "calls": 5000, "disk calls": 2000},
		Setup:  setupMods,
		Run:    runC04,
	})
}

var oddElems = []string{"a:b", "a:", ":c", "example.test", "other.test", "app", "app2", "x.go", "..a", "a..", "...", "a b", "-", "c:", "go.mod", "src", "u", "%2e%2e"}

// respell is spell with the rarer ways.
func respell(r *rand.Rand, k key, info here.Info) string {
	main := info.Module.Path
	if k.name == "/" && r.Intn(3) == 0 {
		if k.pkg == main && r.Intn(2) == 0 {
			return []string{"", ".", ":", " ", "/", "//", "/.", "/..", "\t\n"}[r.Intn(9)]
		}
		return []string{k.pkg, k.pkg + ":", k.pkg + ":/", k.pkg + ":/."}[r.Intn(4)]
	}
	if k.pkg == main && r.Intn(8) == 0 {
		// as the go tool and the file system name it
		s := info.Dir + k.name
		if k.name == "/" {
			s = info.Dir
		}
		if r.Intn(3) == 0 {
			s = main + ":" + s
		}
		return s
	}
	return spell(r, k, main)
}

func runC04(c *C) {
	r := c.R
	m := c.Mods
	var sig strings.Builder

	// parsing
	dirs := []string{"/app", "/a", "/src/app", "/home/u/go/src/example.test/app", m.Main.Dir, "/x/a b", "/app.d"}
	mods := []string{cur, "a", "github.com/u/app", "app"}
	for i := 0; i < 8; i++ {
		info := mainInfo(dirs[r.Intn(len(dirs))], mods[r.Intn(len(mods))])
		if r.Intn(5) == 0 {
			info = m.Main
		}
		pm, err := mem.New(info)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
		ps, err := stdos.New(info)
		if err != nil {
			c.Fail("new", "stdos.New: %v", err)
		}
		lay := pkging.Wrap(ps, pm)
		for j := 0; j < 12; j++ {
			k := key{pkg: info.Module.Path}
			if r.Intn(2) == 0 {
				k.pkg = append([]string{"b", "gopkg.in/x.v2", info.Module.Path + "2", info.Module.Path + "/sub", "127.0.0.1/x"}, otherPkgs...)[r.Intn(5+len(otherPkgs))]
			}
			var elems []string
			for n := r.Intn(5); n > 0; n-- {
				if r.Intn(3) == 0 {
					elems = append(elems, oddElems[r.Intn(len(oddElems))])
				} else {
					elems = append(elems, genName(r))
				}
			}
			switch r.Intn(8) {
			case 0: // starts like the module directory, does not lie in it
				elems = append([]string{strings.TrimPrefix(info.Dir, "/") + []string{"2", "x", ".d", " "}[r.Intn(4)] + "q"}, elems...)
			case 1: // names the module directory further down
				elems = append(append([]string{"z"}, strings.Split(strings.TrimPrefix(info.Dir, "/"), "/")...), elems...)
			}
			k.name = path.Clean("/" + strings.Join(elems, "/"))
			if within(k.name, info.Dir) && k.pkg == info.Module.Path || strings.HasSuffix(k.name, " ") {
				continue
			}
			for n := 0; n < 4; n++ {
				s := respell(r, k, info)
				if strings.HasPrefix(k.name, "/ ") {
					break
				}
				// a detour may begin with the module directory by chance
				for which, p := range []pkging.Pkger{pm, ps, lay} {
					pt, err := p.Parse(s)
					c.Obs("parsed", 1)
					if err != nil {
						c.Fail("parse-error", "[dir %s, module %s, impl %d] Parse(%q): %v; want %s", info.Dir, info.Module.Path, which, s, err, k)
					}
					if pt.Pkg != k.pkg || pt.Name != k.name {
						c.Fail("parse", "[dir %s, module %s, impl %d] Parse(%q) = %q %q, want %s", info.Dir, info.Module.Path, which, s, pt.Pkg, pt.Name, k)
					}
					if pt.String() != k.String() {
						c.Fail("parse-string", "Parse(%q).String() = %q, want %s", s, pt.String(), k)
					}
					again, err := p.Parse(pt.String())
					if err != nil || again != pt {
						c.Fail("parse-again", "[dir %s] Parse(%q) = %v %v, it was parsed from %q", info.Dir, pt.String(), again, err, s)
					}
				}
				fmt.Fprintf(&sig, "%q ", s)
			}
		}
	}

	// operating
	names := pathPool(r, "/tmp", 4+r.Intn(6))
	for i := r.Intn(3); i > 0; i-- {
		names = append(names, path.Join("/", names[r.Intn(len(names))], oddElems[r.Intn(len(oddElems))]))
	}
	pkgs := []string{cur, otherPkgs[1], otherPkgs[2]}
	onDisk := r.Intn(2) == 0
	var p pkging.Pkger
	md := newModel()
	what := "mem"
	if onDisk {
		what = "disk"
		m.reset(nil)
		p = m.disk(c)
	} else {
		f, err := memFSEmpty(c, m)
		must(err)
		p = f
	}
	for _, pkg := range pkgs {
		if onDisk {
			md.m[key{pkg, "/"}] = &mnode{dir: true, mode: os.ModeDir | 0755}
			for _, n := range m.fixed(pkg) {
				b, err := os.ReadFile(m.Dirs[pkg] + n)
				must(err)
				md.m[key{pkg, n}] = &mnode{data: string(b), mode: 0644}
			}
		}
	}
	check := func(op string) {
		var s Snap
		var err error
		if onDisk {
			s = m.modSnap(pkgs...)
		} else {
			var roots []string
			for _, k := range pkgs {
				roots = append(roots, k+":/")
			}
			s, err = fsSnap(p, roots...)
			if err != nil {
				c.Fail("consistency", "%s: after %s: %v", what, op, err)
			}
		}
		if d := md.matches(s, nil); d != "" {
			c.Fail("state", "%s: after %s: %s", what, op, d)
		}
	}
	for i := 0; i < 14; i++ {
		k := key{pkgs[r.Intn(len(pkgs))], names[r.Intn(len(names))]}
		s := respell(r, k, m.Main)
		op := []string{"create", "create", "mkdirall", "mkdirall", "remove", "removeall", "open", "stat", "walk"}[r.Intn(9)]
		if onDisk && op == "removeall" && k.name == "/" {
			continue
		}
		c.Logf("%s %s(%q) is %s", what, op, s, k)
		c.Obs("calls", 1)
		if onDisk {
			c.Obs("disk calls", 1)
		}
		fmt.Fprintf(&sig, "%s %q;", op, s)
		before := md.clone()
		var want, got string
		switch op {
		case "create":
			want = md.create(k)
			data := fmt.Sprintf("%d:%d", c.Idx, i)
			f, err := p.Create(s)
			got = errClass(err)
			if err == nil {
				if f.Name() != k.String() || f.Path() != (here.Path{Pkg: k.pkg, Name: k.name}) {
					c.Fail("name", "%s: Create(%q) gave %s %v, want %s", what, s, f.Name(), f.Path(), k)
				}
				_, err := f.Write([]byte(data))
				if err != nil {
					c.Fail("write", "%s: %v", s, err)
				}
				if err := f.Close(); err != nil {
					c.Fail("close", "%s: %v", s, err)
				}
				if n := md.m[k]; n != nil {
					n.data = data
				}
				// another spelling reads it
				s2 := respell(r, k, m.Main)
				f, err = p.Open(s2)
				if err != nil {
					c.Fail("reopen", "%s: created as %q, Open(%q): %v", what, s, s2, err)
				}
				b, err := readAll(f)
				f.Close()
				if err != nil || b != data {
					c.Fail("reread", "%s: created as %q, read as %q: %s, %v", what, s, s2, short(b), err)
				}
			}
			if before.m[k] != nil && !before.m[k].dir && onDisk && want == "ok" {
				md.m[k].mode = before.m[k].mode
			}
		case "mkdirall":
			want = md.mkdirAll(k, 0755)
			got = errClass(p.MkdirAll(s, 0755))
		case "remove":
			want = md.remove(k)
			got = errClass(p.Remove(s))
		case "removeall":
			md.removeAll(k)
			want, got = "ok", errClass(p.RemoveAll(s))
		case "open":
			f, err := p.Open(s)
			want, got = "notexist", errClass(err)
			if n := md.m[k]; n != nil {
				want = "ok"
				if err == nil {
					if f.Name() != k.String() {
						c.Fail("name", "%s: Open(%q) gave %s, want %s", what, s, f.Name(), k)
					}
					if !n.dir {
						b, err := readAll(f)
						if err != nil || b != n.data {
							c.Fail("read", "%s: Open(%q) reads %s, %v; want %s", what, s, short(b), err, short(n.data))
						}
					}
				}
			}
			if err == nil {
				f.Close()
			}
		case "stat":
			fi, err := p.Stat(s)
			want, got = "notexist", errClass(err)
			if n := md.m[k]; n != nil {
				want = "ok"
				if err == nil && (fi.IsDir() != n.dir || !n.dir && fi.Size() != int64(len(n.data))) {
					c.Fail("stat", "%s: Stat(%q) = %v, want dir %v, %d bytes", what, s, infoEntry(fi), n.dir, len(n.data))
				}
			}
		case "walk":
			if md.m[k] == nil {
				continue
			}
			vis := map[string]bool{}
			err := p.Walk(s, func(name string, fi os.FileInfo, err error) error {
				vis[name] = true
				return err
			})
			want, got = "ok", errClass(err)
			n := 0
			for x := range md.m {
				if x.within(k) {
					n++
					if !vis[x.String()] {
						c.Fail("walk", "%s: Walk(%q) does not visit %s", what, s, x)
					}
				}
			}
			if n != len(vis) {
				c.Fail("walk", "%s: Walk(%q) visits %d paths, want %d", what, s, len(vis), n)
			}
		}
		underFile := false
		for d := path.Dir(k.name); d != "/"; d = path.Dir(d) {
			if n := before.m[key{k.pkg, d}]; n != nil && !n.dir {
				underFile = true
			}
		}
		if want != got && !(want != "ok" && got != "ok" && (underFile || op == "create")) && !(underFile && op == "removeall") {
			c.Fail(op+"-result", "%s: %s(%q), which is %s: %s, want %s", what, op, s, k, got, want)
		}
		if want != "ok" {
			md = before
		}
		check(fmt.Sprintf("%s(%q)", op, s))
	}
	c.Distinct(sig.String())
	c.Sample("%s: %s", what, sig.String())
}
