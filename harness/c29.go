package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C29", Level: "exploration",
		Rule:  "twins: a module and two that it requires, with generated trees, as the disk implementation shows them and as they are after packing the whole of them; random histories of reading calls - also wrong ones, on missing paths, beneath files, on closed handles, out of range - are made on both, directly or through the package-level functions, on up to five handles, and every answer is compared: success, missing or not, bytes, positions, names, paths, metadata, listings, order and end of walks that are cut short. A case counts by its answers.",
		Quick: 500, Thorough: 9000,
		MinObs: map[string]int{"calls": 30000, "failed calls": 9000, "handle calls": 15000, "walks": 1800, "pruned walks": 800, "listings": 2400, "reads": 3000},
		Setup:  setupCode,
		Run:    runC29,
	})
}

type pair struct {
	d, m   pkging.File
	dir    bool
	closed bool
	name   string
}

// fate is what callers can tell calls by.
func fate(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	}
	return "error"
}

func runC29(c *C) {
	r := c.R
	m := c.Mods
	trees := map[string]Tree{}
	pkgs := m.Pkgs[:3]
	for i, k := range pkgs {
		o := TreeOpts{N: 4 + r.Intn(14), Odd: true, Depth: 2 + r.Intn(2)}
		if i > 0 {
			o.N = r.Intn(8)
		}
		t := genTree(r, o)
		for _, p := range t.Paths() {
			n := t[p]
			n.Mode |= 0400
			if n.Dir {
				n.Mode |= 0700
			}
		}
		trees[k] = t
	}
	m.reset(trees)
	var includes []string
	for _, p := range pkgs {
		includes = append(includes, p+":/")
	}
	snap := m.modSnap(pkgs...)
	var keys []string
	for _, k := range snap.Keys() {
		if !awkward(k) && !strings.Contains(k, "\\") {
			keys = append(keys, k)
		}
	}
	disk := pkging.Pkger(m.disk(c))
	packed := pkging.Pkger(m.pack(c, includes...))
	level := r.Intn(3) == 0
	on := func(p pkging.Pkger) pkging.Pkger {
		if level {
			install(p)
			return api{}
		}
		return p
	}
	var log []string
	same := func(what, d, p string) {
		c.Logf("%s: %s", what, cut(d))
		c.Obs("calls", 1)
		if strings.HasPrefix(d, "error") {
			c.Obs("failed calls", 1)
		}
		if d != p {
			c.Fail("differs", "%s: on the disk\n%s\nafter packing\n%s", what, cut(d), cut(p))
		}
		log = append(log, d)
	}
	// the missing are missing, other errors are other errors, except that
	// beneath a file the disk says that there is no folder, and a
	// name may be too long for it
	class := func(err error) string {
		if osClass(err) == "notdir" || errors.Is(err, syscall.ENAMETOOLONG) {
			return "error notexist"
		}
		if err != nil {
			return "error " + errClass(err)
		}
		return "ok"
	}
	info := func(fi os.FileInfo, err error) string {
		if err != nil {
			return class(err)
		}
		e := infoEntry(fi)
		return fmt.Sprintf("%s %d %v %v %v", e.Name, e.Size, e.Mode, e.MTime.UnixNano(), e.Dir)
	}
	ident := func(f pkging.File) string {
		i := f.Info()
		return fmt.Sprintf("%s %s %s %s %s %s", f.Name(), f.Path(), i.Dir, i.ImportPath, i.Module.Path, info(f.Stat()))
	}
	path1 := func() string {
		k := keys[r.Intn(len(keys))]
		pkg, name := splitPath(k)
		switch r.Intn(12) {
		case 0:
			name = path.Join(name, genName(r))
		case 1:
			name = path.Join(path.Dir(name), strings.TrimSpace(genName(r)))
		case 2:
			name += "x"
		case 3:
			name = strings.ToUpper(name)
		case 4:
			if name != "/" {
				name = name[:len(name)-1]
			}
		}
		if !strings.HasPrefix(name, "/") {
			name = "/" + name
		}
		return spell(r, key{pkg, name}, cur)
	}
	var hs []*pair
	defer func() {
		for _, h := range hs {
			h.d.Close()
			h.m.Close()
		}
	}()
	listing := func(f pkging.File, n int) string {
		var out []string
		for i := 0; ; i++ {
			infos, err := f.Readdir(n)
			if n > 0 && len(infos) > n {
				out = append(out, "too many")
			}
			for _, fi := range infos {
				out = append(out, info(fi, nil))
			}
			if err != nil || n <= 0 || i > 2000 {
				sort.Strings(out)
				return fate(err) + " " + strings.Join(out, ",")
			}
		}
	}
	for i := 40 + r.Intn(80); i > 0; i-- {
		p := path1()
		x := r.Intn(100)
		switch {
		case x < 12:
			a := info(on(disk).Stat(p))
			b := info(on(packed).Stat(p))
			same("Stat("+p+")", a, b)
		case x < 24 || len(hs) == 0:
			d, err := on(disk).Open(p)
			q, qerr := on(packed).Open(p)
			if err == nil && qerr == nil {
				same("Open("+p+")", ident(d), ident(q))
				fi, _ := d.Stat()
				hs = append(hs, &pair{d: d, m: q, dir: fi.IsDir(), name: d.Name()})
				if len(hs) > 5 {
					hs[0].d.Close()
					hs[0].m.Close()
					hs = hs[1:]
				}
				break
			}
			if err == nil {
				d.Close()
			}
			same("Open("+p+")", class(err), class(qerr))
		case x < 34:
			if _, err := disk.Stat(p); err != nil {
				// walks from what is missing are not specified
				break
			}
			at := -1
			if r.Intn(2) == 0 {
				at = r.Intn(8)
				c.Obs("pruned walks", 1)
			}
			stop := []error{filepath.SkipDir, fmt.Errorf("stop")}[r.Intn(2)]
			walk := func(q pkging.Pkger) string {
				var out []string
				err := q.Walk(p, func(n string, fi os.FileInfo, err error) error {
					if err != nil {
						return err
					}
					out = append(out, n+" "+info(fi, nil))
					if len(out)-1 == at {
						return stop
					}
					return nil
				})
				if err == stop {
					out = append(out, "stopped")
				} else {
					out = append(out, class(err))
				}
				return strings.Join(out, "\n")
			}
			a := walk(on(disk))
			b := walk(on(packed))
			c.Obs("walks", 1)
			same(fmt.Sprintf("Walk(%s) with %v at %d", p, stop, at), a, b)
		case x < 38:
			par := func(q pkging.Pkger) string {
				pt, err := q.Parse(p)
				return pt.String() + fate(err)
			}
			a := par(on(disk))
			b := par(on(packed))
			same("Parse("+p+")", a, b)
		case x < 40:
			pkg := pkgs[r.Intn(3)]
			inf := func(q pkging.Pkger) string {
				i, err := q.Info(pkg)
				cu, err2 := q.Current()
				return i.String() + fate(err) + cu.String() + fate(err2)
			}
			a := inf(on(disk))
			b := inf(on(packed))
			same("Info("+pkg+")", a, b)
		case x < 46:
			// the way of file servers
			k := keys[r.Intn(len(keys))]
			_, name := splitPath(k)
			name = strings.Repeat("/..", r.Intn(2)) + name
			if r.Intn(4) == 0 {
				name += genName(r)
			}
			at := spell(r, key{pkgs[r.Intn(3)], []string{"/", path.Dir(name)}[r.Intn(2)]}, cur)
			if r.Intn(2) == 0 {
				name = path.Base(name)
			}
			via := func(q pkging.Pkger) string {
				install(q)
				f, err := pkger.Dir(at).Open(name)
				if err != nil {
					return class(err)
				}
				defer f.Close()
				fi, err := f.Stat()
				s := info(fi, err)
				if err == nil && !fi.IsDir() {
					data, err := readAll(f)
					s += data + fate(err)
				}
				return s
			}
			same(fmt.Sprintf("Dir(%s).Open(%q)", at, name), via(disk), via(packed))
		default:
			h := hs[r.Intn(len(hs))]
			c.Obs("handle calls", 1)
			if h.closed {
				buf := make([]byte, 1+r.Intn(10))
				call := func(f pkging.File) string {
					n, err := f.Read(buf)
					return fmt.Sprint(n, fate(err))
				}
				if h.dir {
					call = func(f pkging.File) string {
						infos, err := f.Readdir(-1)
						return fmt.Sprint(len(infos), fate(err))
					}
				}
				same("on closed "+h.name, "error"+call(h.d), "error"+call(h.m))
				break
			}
			switch y := r.Intn(20); {
			case y == 0:
				same("Close "+h.name, fate(h.d.Close()), fate(h.m.Close()))
				h.closed = true
			case y == 1:
				same("Write to "+h.name, writeFate(h.d), writeFate(h.m))
			case y == 2:
				same("ident of "+h.name, ident(h.d), ident(h.m))
			case y == 3:
				name := []string{"", "/", ".", "x", "/../x"}[r.Intn(5)]
				if h.dir {
					if es := snap[h.name].Kids; len(es) > 0 && r.Intn(2) == 0 {
						name = es[r.Intn(len(es))]
					}
				}
				via := func(f pkging.File) string {
					g, err := f.Open(name)
					if err != nil {
						return class(err)
					}
					defer g.Close()
					return info(g.Stat())
				}
				if awkward(name) || strings.Contains(name, "\\") {
					break
				}
				same(fmt.Sprintf("%s.Open(%q)", h.name, name), via(h.d), via(h.m))
			case h.dir && y < 15:
				c.Obs("listings", 1)
				if r.Intn(4) == 0 {
					n := 1 + r.Intn(5)
					// part of it, then again from the start
					a, err := h.d.Readdir(n)
					b, err2 := h.m.Readdir(n)
					same(fmt.Sprintf("Readdir(%d) of %s", n, h.name), fmt.Sprint(len(a), fate(err)), fmt.Sprint(len(b), fate(err2)))
				} else {
					n := []int{-1, 0, 1, 2, 7}[r.Intn(5)]
					rewind(h)
					same(fmt.Sprintf("Readdir(%d) of %s", n, h.name), listing(h.d, n), listing(h.m, n))
				}
				rewind(h)
			case h.dir:
				buf := make([]byte, r.Intn(10)+1)
				n, err := h.d.Read(buf)
				n2, err2 := h.m.Read(buf)
				same("Read of folder "+h.name, fmt.Sprint("error", n, fate(err)), fmt.Sprint("error", n2, fate(err2)))
			case y < 10:
				size := int64(snap[h.name].Size)
				off := r.Int63n(size+10) - 3
				if r.Intn(6) == 0 {
					off = []int64{0, size, -size, 1 << 40, -1 << 40}[r.Intn(5)]
				}
				whence := r.Intn(3)
				if off > 0 && whence == 2 && r.Intn(2) == 0 {
					off = -off
				}
				a, err := h.d.Seek(off, whence)
				b, err2 := h.m.Seek(off, whence)
				if err != nil && err2 != nil {
					a, b = 0, 0
				}
				same(fmt.Sprintf("Seek(%d, %d) of %s", off, whence, h.name), fmt.Sprint(a, fate(err)), fmt.Sprint(b, fate(err2)))
			case y < 12:
				a, b := listing(h.d, 1+r.Intn(2)-2), listing(h.m, -1)
				same("Readdir of file "+h.name, a, b)
			default:
				c.Obs("reads", 1)
				if r.Intn(3) == 0 {
					a, err := readAll(h.d)
					b, err2 := readAll(h.m)
					same("rest of "+h.name, a+fate(err), b+fate(err2))
					break
				}
				buf := make([]byte, r.Intn(600))
				n, err := io.ReadFull(h.d, buf)
				a := fmt.Sprintf("%q %s", buf[:n], full(err))
				n, err = io.ReadFull(h.m, buf)
				same(fmt.Sprintf("%d bytes of %s", len(buf), h.name), a, fmt.Sprintf("%q %s", buf[:n], full(err)))
			}
		}
	}
	c.Distinct(log)
	c.Sample("%d entries: %s", len(keys), strings.Join(log[:3], " | "))
}

func full(err error) string {
	if err == io.ErrUnexpectedEOF {
		return "short"
	}
	return fate(err)
}

func writeFate(f pkging.File) string {
	n, err := f.Write([]byte("written"))
	return fmt.Sprint("error", n, fate(err))
}

func rewind(h *pair) {
	h.d.Seek(0, io.SeekStart)
	h.m.Seek(0, io.SeekStart)
}
