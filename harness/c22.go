package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"
)

func init() {
	children["leaks"] = childLeaks
	register(&Check{
		ID: "C22", Level: "exploration",
		Rule:  "with the garbage collector off, so that no finalizer closes anything, the descriptors of the process are listed from /proc/self/fd after every single call, and its goroutines at the end of every history: a call that returns no handle leaves the descriptors as they are, one that returns a handle adds at most one, closing the handle gives it back, and no goroutine of a history outlives it. Histories are calls to the disk, in-memory and layered file systems and the package level functions, also from several goroutines, with paths that are missing, of the wrong kind or cannot be accessed and at the limit of descriptors; HTTP requests, answered, refused and broken off; parsing and packing with failing writers, limits and broken files; adding files; the inspection commands; and, with strace, disk calls whose system calls fail. A case counts by its calls.",
		Quick: 1600, Thorough: 30000,
		MinObs: map[string]int{"calls": 12000, "failed calls": 2500, "handles": 2000, "descriptor limits": 400, "requests": 700, "broken off": 60, "packs": 150, "failed packs": 60, "adds": 200, "failed adds": 50, "commands": 50, "injected calls": 20, "concurrent calls": 1500, "failing while read": 30},
		Setup:  setupC22,
		Run:    runC22,
	})
}

func setupC22(w *Worker) error {
	if os.Getenv("GOGC") != "off" {
		return fmt.Errorf("the garbage collector is on")
	}
	if err := setupCode(w); err != nil {
		return err
	}
	// what the runtime opens once
	srv := httptest.NewServer(http.NotFoundHandler())
	res, err := noRedirect.RoundTrip(must2(http.NewRequest("GET", srv.URL, nil)))
	if err == nil {
		res.Body.Close()
	}
	noRedirect.CloseIdleConnections()
	srv.Close()
	for i := 0; i < 3; i++ {
		if _, _, _, err := runCmd("/", nil, "go", "version"); err != nil {
			return err
		}
		runtime.GC()
	}
	time.Sleep(100 * time.Millisecond)
	return nil
}

func must2(r *http.Request, err error) *http.Request {
	must(err)
	return r
}

// fds are the open descriptors: number and what it is.
func fds() map[int]string {
	d, err := syscall.Open("/proc/self/fd", syscall.O_RDONLY|syscall.O_DIRECTORY|syscall.O_CLOEXEC, 0)
	must(err)
	out := map[int]string{}
	buf := make([]byte, 8192)
	for {
		n, err := syscall.ReadDirent(d, buf)
		must(err)
		if n == 0 {
			break
		}
		_, _, ns := syscall.ParseDirent(buf[:n], -1, nil)
		for _, s := range ns {
			i, err := strconv.Atoi(s)
			must(err)
			if i != d {
				out[i] = ""
			}
		}
	}
	syscall.Close(d)
	for i := range out {
		var st syscall.Stat_t
		if err := syscall.Fstat(i, &st); err != nil {
			delete(out, i) // closed in between, by another goroutine
			continue
		}
		// the name changes when the file is removed
		out[i] = fmt.Sprintf("%d:%d", st.Dev, st.Ino)
	}
	return out
}

// more are the descriptors that were not there before.
func more(before, after map[int]string) []string {
	var out []string
	for i, l := range after {
		if before[i] != l {
			n, _ := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", i))
			out = append(out, fmt.Sprintf("%d -> %s", i, n))
		}
	}
	sort.Strings(out)
	return out
}

func goroutines() map[string]string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		f := strings.Fields(g)
		if len(f) > 2 && f[0] == "goroutine" {
			out[f[1]] = g
		}
	}
	return out
}

// c22 watches one history.
type c22 struct {
	*C
	base map[int]string
	gs   map[string]string
	open []*held
	sig  strings.Builder
	last string
	disk Snap // what can be read
}

// held is a handle the caller has.
type held struct {
	name   string
	f      io.Closer
	closed bool
}

// expectFDs compares the descriptors with what they have to be.
func (x *c22) expectFDs(what string) {
	if m := more(x.base, fds()); len(m) > 0 {
		x.Fail("descriptor", "%s leaves a descriptor open: %q", what, m)
	}
}

// call is one that returns no handle.
func (x *c22) call(what string, fn func() error) error {
	x.last = what
	err := fn()
	x.Obs("calls", 1)
	if err != nil {
		x.Obs("failed calls", 1)
	}
	x.Logf("%s: %v", what, err)
	fmt.Fprintf(&x.sig, "%s %v;", what, err != nil)
	x.expectFDs(what)
	return err
}

// handle is a call that returns one, or an error.
func (x *c22) handle(what string, fn func() (io.Closer, error)) io.Closer {
	x.last = what
	f, err := fn()
	x.Obs("calls", 1)
	x.Logf("%s: %v", what, err)
	fmt.Fprintf(&x.sig, "%s %v;", what, err != nil)
	if err != nil {
		x.Obs("failed calls", 1)
		x.expectFDs(fmt.Sprintf("%s, which fails with %v,", what, err))
		return nil
	}
	now := fds()
	if m := more(x.base, now); len(m) > 1 {
		x.Fail("descriptor", "%s opens %d descriptors: %q", what, len(m), m)
	} else if len(m) > 0 {
		x.Obs("descriptors", 1)
		x.base = now
	}
	x.Obs("handles", 1)
	h := &held{name: what, f: f}
	x.open = append(x.open, h)
	return f
}

func (x *c22) close(i int) {
	h := x.open[i]
	before := fds()
	err := h.f.Close()
	x.Obs("calls", 1)
	after := fds()
	x.Logf("close of %s: %v", h.name, err)
	x.base = after
	x.last = "close of " + h.name
	if m := more(before, after); len(m) > 0 {
		x.Fail("descriptor", "closing the handle of %s leaves a descriptor open: %q", h.name, m)
	}
	x.open = append(x.open[:i], x.open[i+1:]...)
	if x.R.Intn(10) == 0 {
		// once more
		h.f.Close()
		x.expectFDs("closing the handle of " + h.name + " again")
	}
}

// end closes everything: then it is as it was.
func (x *c22) end(start map[int]string) {
	for len(x.open) > 0 {
		x.close(x.R.Intn(len(x.open)))
	}
	if m := more(start, fds()); len(m) > 0 {
		x.Fail("descriptor", "every handle is closed, but there still are %q", m)
	}
	x.settled()
}

// settled waits for the goroutines to end.
func (x *c22) settled() {
	var left []string
	for i := 0; i < 60; i++ {
		left = nil
		for id, g := range goroutines() {
			if x.gs[id] == "" && !strings.Contains(g, "runtime.runfinq") && !strings.Contains(g, "runtime.runCleanups") && !strings.Contains(g, "main.watchdog") {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			x.Obs("goroutine checks", 1)
			return
		}
		time.Sleep(time.Duration(1+i) * 2 * time.Millisecond)
	}
	sort.Strings(left)
	x.Fail("goroutine", "after %s: %d goroutines are left, one is\n%s", x.last, len(left), left[0])
}

func runC22(c *C) {
	if c.Idx%8 == 0 || c.Idx < 8 {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	x := &c22{C: c, gs: goroutines()}
	kind := c.Idx / 8 % 10
	kinds := []func(x *c22){x22Disk, x22HTTP, x22Disk, x22Pack, x22Add, x22Disk, x22Commands, x22Concurrent, x22Add, x22HTTP}
	if c.Idx/8%20 == 16 {
		kinds[6] = x22Injected
	}
	m := c.Mods
	c22Reset(x, kind)
	x.base = fds()
	start := map[int]string{}
	for i, l := range x.base {
		start[i] = l
	}
	install(m.disk(c))
	kinds[kind](x)
	x.end(start)
	c.Distinct(kind, x.sig.String())
	c.Sample("%s", x.sig.String())
}

// c22Reset writes trees that have something to fail on.
func c22Reset(x *c22, kind int) {
	r := x.R
	t := genTree(r, TreeOpts{N: 8 + r.Intn(12), Odd: true, Depth: 3})
	t["/sub"] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
	t["/sub/f"] = &Node{Data: []byte("f"), Mode: 0644, MTime: genMTime(r)}
	lib := genTree(r, TreeOpts{N: r.Intn(6), Depth: 2})
	x.Mods.reset(map[string]Tree{cur: t, otherPkgs[0]: lib, otherPkgs[1]: lib})
	for _, d := range codeDirs {
		// packages that can be named
		if r.Intn(3) == 0 {
			p := filepath.Join(x.Mods.Dirs[cur], d)
			if os.MkdirAll(p, 0755) == nil {
				os.WriteFile(filepath.Join(p, "y.go"), []byte("package "+pkgName(d)+"\n"), 0644)
			}
		}
	}
	x.disk = x.Mods.modSnap(cur)
	d := x.Mods.Dirs[cur]
	if kind == 3 {
		return
	}
	os.Symlink("nowhere", d+"/dangling")
	os.Symlink("loop", d+"/loop")
	os.Symlink("/proc/self/mem", d+"/mem.link")
	os.Mkdir(d+"/closed", 0755)
	os.WriteFile(d+"/closed/x", []byte("x"), 0644)
	os.Chmod(d+"/closed", []os.FileMode{0, 0400, 0100, 0300}[r.Intn(4)])
	os.WriteFile(d+"/secret", []byte("x"), 0)
}

// pool are names to use: there, missing, of the wrong kind, closed.
func (x *c22) pool() []string {
	out := []string{"/", "/dangling", "/loop", "/closed", "/closed/x", "/secret", "/mem.link", "/sub", "/sub/f", "/not.there", "/not.there/x", "/x.go/x", "/x.go", "/new", "/new/deep/er", "/sub/f/g"}
	for _, k := range x.disk.Keys() {
		_, n := splitPath(k)
		out = append(out, n, path.Join(n, genName(x.R)))
	}
	return out
}

// x22Disk is a history of calls to the file systems.
func x22Disk(x *c22) {
	r := x.R
	m := x.Mods
	names := x.pool()
	var p pkging.Pkger = m.disk(x.C)
	what := "disk"
	t := genTree(r, TreeOpts{N: 5 + r.Intn(8), Depth: 2})
	mfs, _ := memFS(m.Main, m.Pkgs, map[string]Tree{cur: t})
	for _, n := range t.Paths() {
		names = append(names, n)
	}
	switch x.Idx % 8 {
	case 0, 1:
	case 2:
		p, what = mfs, "memory"
	case 3, 4:
		// with errors, too, and the memory above or below
		p, what = stack(x.C, []pkging.Pkger{p, mfs}), "layers"
	case 5:
		p, what = stack(x.C, []pkging.Pkger{mfs, m.mem(x.C), p}), "layers, disk newest"
	case 6, 7:
		if r.Intn(2) == 0 {
			p = stack(x.C, []pkging.Pkger{p, mfs})
		}
		install(p)
		p, what = api{}, "package"
	}
	x.Logf("%s", what)
	var hs []pkging.File
	add := func(f io.Closer) {
		if f, ok := f.(pkging.File); ok && f != nil {
			hs = append(hs, f)
		}
	}
	for i := 30 + r.Intn(40); i > 0; i-- {
		k := key{cur, names[r.Intn(len(names))]}
		switch r.Intn(12) {
		case 0:
			k.pkg = x.Mods.Pkgs[r.Intn(3)]
		case 1:
			if r.Intn(40) == 0 {
				k.pkg = "unknown.test/pkg"
			}
		}
		s := spell(r, k, cur)
		limit := func() {}
		lim := ""
		if r.Intn(7) == 0 {
			used := openFiles()
			n := r.Intn(3)
			if k.pkg == cur || k.pkg == x.Mods.Pkgs[1] {
				limit = softLimit(syscall.RLIMIT_NOFILE, uint64(used+n))
				lim = fmt.Sprintf(" with %d descriptors left", n)
				x.Obs("descriptor limits", 1)
			}
		}
		// the limit ends with the call
		in := func(fn func() error) func() error {
			return func() error {
				err := fn()
				limit()
				return err
			}
		}
		inh := func(fn func() (io.Closer, error)) func() (io.Closer, error) {
			return func() (io.Closer, error) {
				f, err := fn()
				limit()
				return f, err
			}
		}
		switch n := r.Intn(20); {
		case n < 5:
			add(x.handle(fmt.Sprintf("%s: Open(%q)%s", what, s, lim), inh(func() (io.Closer, error) { return p.Open(s) })))
		case n < 7:
			add(x.handle(fmt.Sprintf("%s: Create(%q)%s", what, s, lim), inh(func() (io.Closer, error) { return p.Create(s) })))
		case n < 8:
			d := pkger.Dir(s)
			if what != "package" {
				install(p)
			}
			name := names[r.Intn(len(names))]
			x.handle(fmt.Sprintf("%s: Dir(%q).Open(%q)%s", what, s, name, lim), inh(func() (io.Closer, error) { return d.Open(name) }))
		case n < 10:
			x.call(fmt.Sprintf("%s: Stat(%q)%s", what, s, lim), in(func() error { _, err := p.Stat(s); return err }))
		case n < 11:
			x.call(fmt.Sprintf("%s: MkdirAll(%q)%s", what, s, lim), in(func() error { return p.MkdirAll(s, 0755) }))
		case n < 12:
			if k.name == "/" || k.name == "/x.go" || k.name == "/go.mod" {
				limit()
				continue
			}
			x.call(fmt.Sprintf("%s: Remove(%q)%s", what, s, lim), in(func() error { return p.Remove(s) }))
		case n < 13:
			if k.name == "/" || k.name == "/x.go" || k.name == "/go.mod" || r.Intn(2) == 0 {
				limit()
				continue
			}
			x.call(fmt.Sprintf("%s: RemoveAll(%q)%s", what, s, lim), in(func() error { return p.RemoveAll(s) }))
		case n < 15:
			stop := r.Intn(12)
			end := []error{nil, filepath.SkipDir, errors.New("enough")}[r.Intn(3)]
			x.call(fmt.Sprintf("%s: Walk(%q) with %v at %d%s", what, s, end, stop, lim), in(func() error {
				return p.Walk(s, func(string, os.FileInfo, error) error {
					if stop--; stop == 0 {
						return end
					}
					return nil
				})
			}))
		case n < 16 && len(x.open) > 0:
			limit()
			x.close(r.Intn(len(x.open)))
		case len(hs) > 0:
			i := r.Intn(len(hs))
			f := hs[i]
			hw := fmt.Sprintf("%s: handle %s", what, f.Name())
			switch r.Intn(6) {
			case 0:
				n := r.Intn(4) - 1
				x.call(fmt.Sprintf("%s: Readdir(%d)%s", hw, n, lim), in(func() error { _, err := f.Readdir(n); return err }))
			case 1:
				x.call(hw+": Stat"+lim, in(func() error { _, err := f.Stat(); return err }))
			case 2:
				x.call(hw+": Read"+lim, in(func() error { _, err := f.Read(make([]byte, r.Intn(100))); return err }))
			case 3:
				x.call(hw+": Seek, Write"+lim, in(func() error {
					f.Seek(int64(r.Intn(10)), r.Intn(3))
					_, err := f.Write(make([]byte, r.Intn(100)))
					return err
				}))
			default:
				name := names[r.Intn(len(names))]
				add(x.handle(fmt.Sprintf("%s: Open(%q)%s", hw, name, lim), inh(func() (io.Closer, error) {
					h, err := f.Open(name)
					return h, err
				})))
			}
		default:
			limit()
		}
		if r.Intn(3) == 0 && len(x.open) > 6 {
			x.close(r.Intn(len(x.open)))
		}
	}
}

// x22HTTP serves.
func x22HTTP(x *c22) {
	r := x.R
	m := x.Mods
	t := Tree{}
	for k, e := range x.disk {
		_, n := splitPath(k)
		t[n] = &Node{Dir: e.Dir, Data: []byte(e.Data), Mode: e.Mode, MTime: e.MTime}
	}
	big := bytes.Repeat([]byte("0123456789abcdef"), 1<<16)
	must(os.WriteFile(m.Dirs[cur]+"/big.bin", big, 0644))
	t["/big.bin"] = &Node{Data: big, Mode: 0644, MTime: genMTime(r)}
	var p pkging.Pkger = m.disk(x.C)
	kind := "disk"
	if r.Intn(4) == 0 {
		mt := Tree{}
		for _, n := range t.Paths() {
			mt[n] = &Node{Dir: t[n].Dir, Data: t[n].Data, Mode: t[n].Mode.Perm(), MTime: t[n].MTime}
		}
		p, _ = memFS(m.Main, m.Pkgs, map[string]Tree{cur: mt})
		kind = "memory"
	}
	if r.Intn(4) == 0 {
		p = stack(x.C, []pkging.Pkger{m.disk(x.C), p})
		kind += " above the disk"
	}
	install(p)
	root := pick(r, append(t.Dirs(), "/", "/", "/", "/closed", "/sub/f", "/not.there"))
	spelled := spell(r, key{cur, root}, cur)
	var h http.Handler = http.FileServer(pkger.Dir(spelled))
	via := "Dir"
	if r.Intn(2) == 0 {
		f := x.handle(fmt.Sprintf("%s: Open(%q)", kind, spelled), func() (io.Closer, error) { return p.Open(spelled) })
		if f != nil {
			h = http.FileServer(f.(http.FileSystem))
			via = "a handle"
		}
	}
	if n := t[root]; n == nil || !n.Dir {
		root = "/"
	}
	if r.Intn(2) == 0 {
		// without a network: after each
		for i := 0; i < 30; i++ {
			q := genReq(x.C, t, root)
			w := ""
			x.call(fmt.Sprintf("%s via %s: %s", kind, via, q), func() error { w = direct(h, q); return nil })
			x.Obs("status "+w[:3], 1)
			x.Obs("requests", 1)
			if i%5 == 0 {
				// the client is gone
				q.path = "/big.bin"
				x.call(fmt.Sprintf("%s via %s: %s broken off", kind, via, q), func() (err error) {
					defer func() {
						if e := recover(); e != nil && e != http.ErrAbortHandler {
							panic(e)
						}
					}()
					req := must2(http.NewRequest("GET", "http://x/big.bin", nil))
					h.ServeHTTP(&brokenClient{panics: r.Intn(3) == 0}, req)
					return nil
				})
				x.Obs("broken off", 1)
			}
		}
		return
	}
	srv := httptest.NewServer(h)
	for i := 0; i < 25; i++ {
		q := genReq(x.C, t, root)
		if q.path == "" {
			continue
		}
		x.Obs("requests", 1)
		x.last = q.String()
		fmt.Fprintf(&x.sig, "%s;", q)
		if i%6 == 5 {
			// a client that goes away in the middle
			conn, err := net.Dial("tcp", strings.TrimPrefix(srv.URL, "http://"))
			must(err)
			fmt.Fprintf(conn, "GET /big.bin HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
			io.ReadFull(conn, make([]byte, r.Intn(5000)))
			conn.Close()
			x.Obs("broken off", 1)
			continue
		}
		if _, err := overNet(srv.URL, q); err != nil {
			x.Logf("%s: %v", q, err)
		}
	}
	noRedirect.CloseIdleConnections()
	srv.Close()
	for i := 0; i < 60 && len(more(x.base, fds())) > 0; i++ {
		time.Sleep(time.Duration(1+i) * 2 * time.Millisecond)
	}
	x.call("serving over the network", func() error { return nil })
}

type brokenClient struct {
	h      http.Header
	n      int
	panics bool
}

func (b *brokenClient) Header() http.Header {
	if b.h == nil {
		b.h = http.Header{}
	}
	return b.h
}
func (b *brokenClient) WriteHeader(int) {}
func (b *brokenClient) Write(p []byte) (int, error) {
	b.n++
	if b.n < 3 {
		return len(p), nil
	}
	if b.panics {
		panic(http.ErrAbortHandler)
	}
	return 0, errFault
}

// x22Pack parses and packs.
func x22Pack(x *c22) {
	r := x.R
	m := x.Mods
	l := newLayout(x.C, m, r.Intn(6) == 0)
	x.base = fds()
	var includes []string
	for i := r.Intn(3); i > 0; i-- {
		k := l.pick(r)
		if r.Intn(10) == 0 {
			k.name += "/not.there"
		}
		includes = append(includes, spell(r, k, cur))
	}
	if r.Intn(3) == 0 {
		// more than goes through anything in one piece
		big := make([]byte, 50<<10+r.Intn(400<<10))
		r.Read(big)
		must(os.WriteFile(m.Dirs[cur]+"/incompressible.bin", big, 0644))
		includes = append(includes, cur+":/incompressible.bin")
		x.Obs("large packs", 1)
	}
	if r.Intn(3) == 0 {
		// source that cannot be parsed
		must(os.WriteFile(m.Dirs[cur]+"/zz.go", []byte([]string{"package", "package x\nfunc {", "package x\nvar x = pkger.Open(\n"}[r.Intn(3)]), []os.FileMode{0644, 0}[r.Intn(2)]))
	}
	var undo []func()
	defer func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}()
	breakOne := func() {
		k := l.pick(r)
		f := l.abs(k)
		fi, err := os.Lstat(f)
		if err != nil || !fi.Mode().IsRegular() || strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "go.mod") {
			return
		}
		what, un := breakFile(x.C, f)
		x.Logf("%s is %s", f, what)
		undo = append(undo, un)
		x.base = fds()
	}
	limited := func(fn func() error) (string, func() error) {
		if r.Intn(3) > 0 {
			return "", fn
		}
		used := openFiles()
		n := r.Intn(5)
		x.Obs("descriptor limits", 1)
		return fmt.Sprintf(" with %d descriptors left", n), func() error {
			defer softLimit(syscall.RLIMIT_NOFILE, uint64(used+n))()
			return fn()
		}
	}
	for i := 0; i < 3; i++ {
		if i > 0 && r.Intn(2) == 0 && len(undo) == 0 {
			breakOne()
		}
		var decls parser.Decls
		lim, fn := limited(func() (err error) { decls, err = parser.Parse(m.Main, includes...); return })
		if err := x.call(fmt.Sprintf("Parse with %q%s", includes, lim), fn); err != nil {
			x.Obs("failed packs", 1)
			os.Remove(m.Dirs[cur] + "/zz.go")
			if decls, err = parser.Parse(m.Main, includes...); err != nil {
				x.Logf("%v", err)
				includes = nil
				continue
			}
		}
		lim, fn = limited(func() error { _, err := decls.Files(); return err })
		x.call("Files"+lim, fn)
		ref := &bytes.Buffer{}
		lim, fn = limited(func() error { return pkgutil.Stuff(ref, m.Main, decls) })
		err := x.call("Stuff"+lim, fn)
		x.Obs("packs", 1)
		if err != nil {
			x.Obs("failed packs", 1)
		}
		for i := 0; i < 2; i++ {
			at := r.Intn(ref.Len() + 2)
			if x.call(fmt.Sprintf("Stuff to a writer that fails at %d", at), func() error { return pkgutil.Stuff(&faultyWriter{at: at}, m.Main, decls) }) != nil {
				x.Obs("failed packs", 1)
			}
			x.Obs("packs", 1)
		}
		out := filepath.Join(m.Dirs[cur], "pkged.go")
		for i := 0; i < 3; i++ {
			where, how := out, ""
			limit := func() func() { return func() {} }
			switch r.Intn(4) {
			case 0:
				n := r.Intn(ref.Len() + 400)
				how = fmt.Sprintf("a file size limit of %d", n)
				limit = func() func() { return softLimit(syscall.RLIMIT_FSIZE, uint64(n)) }
			case 1:
				used := openFiles()
				n := r.Intn(6)
				how = fmt.Sprintf("%d descriptors left", n)
				limit = func() func() { return softLimit(syscall.RLIMIT_NOFILE, uint64(used+n)) }
				x.Obs("descriptor limits", 1)
			case 2:
				how = "nowhere to write to"
				ro := filepath.Join(x.Dir(), "ro")
				os.Mkdir(ro, 0555)
				where = []string{ro, filepath.Join(ro, "none"), m.Dirs[cur] + "/x.go"}[r.Intn(3)] + "/pkged.go"
			}
			if x.call("Package, "+how, func() error {
				defer limit()()
				return cmds.Package(m.Main, where, decls)
			}) != nil {
				x.Obs("failed packs", 1)
			}
			x.Obs("packs", 1)
			wipe(out)
		}
	}
	for i := len(undo) - 1; i >= 0; i-- {
		undo[i]()
	}
	undo = nil
	// files that open, and fail while they are read, after others that do not
	var names []string
	for _, n := range m.modSnap(cur).Keys() {
		if _, n := splitPath(n); strings.HasPrefix(n, "/") && n != "/go.mod" && !strings.HasSuffix(n, ".go") {
			if fi, err := os.Lstat(m.Dirs[cur] + n); err == nil && fi.Mode().IsRegular() {
				names = append(names, n)
			}
		}
	}
	if len(names) == 0 {
		return
	}
	n := names[r.Intn(len(names))]
	decls, err := parser.Parse(m.Main, append(includes, cur+":"+n)...)
	if err != nil {
		return
	}
	f := m.Dirs[cur] + n
	di, err := os.Lstat(filepath.Dir(f))
	must(err)
	os.Chmod(filepath.Dir(f), di.Mode()|0700)
	must(os.Remove(f))
	must(os.Symlink("/proc/self/mem", f))
	x.base = fds()
	for i := 1 + r.Intn(2); i > 0; i-- {
		if x.call("Stuff of what fails while it is read", func() error { return pkgutil.Stuff(&bytes.Buffer{}, m.Main, decls) }) != nil {
			x.Obs("failing while read", 1)
		}
		if x.call("Package of what fails while it is read", func() error {
			return cmds.Package(m.Main, filepath.Join(m.Dirs[cur], "pkged.go"), decls)
		}) == nil {
			wipe(filepath.Join(m.Dirs[cur], "pkged.go"))
		}
	}
}

// x22Add adds files.
func x22Add(x *c22) {
	r := x.R
	m := x.Mods
	d := m.Dirs[cur]
	if r.Intn(2) == 0 {
		// what cannot be added at all
		for _, n := range []string{"/closed", "/secret", "/mem.link", "/loop", "/dangling"} {
			if r.Intn(2) == 0 {
				if n == "/closed" {
					os.Chmod(d+n, 0755)
				}
				wipe(d + n)
			}
		}
	}
	if r.Intn(3) == 0 {
		if ln, err := net.Listen("unix", shorten(d+"/sock")); err == nil {
			ln.(*net.UnixListener).SetUnlinkOnClose(false)
			ln.Close()
		}
	}
	var p *mem.Pkger
	if r.Intn(2) == 0 {
		p = m.mem(x.C)
	} else {
		p, _ = memFSEmpty(x.C, m)
	}
	names := x.pool()
	for i := 0; i < 12; i++ {
		var fs []*os.File
		var what []string
		for k := 1 + r.Intn(2); k > 0; k-- {
			pkg := m.Pkgs[r.Intn(3)]
			n := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				n = "/"
			}
			if f, err := os.Open(filepath.Join(m.Dirs[pkg], n)); err == nil {
				fs = append(fs, f)
				what = append(what, pkg+":"+n)
			}
		}
		if len(fs) == 0 {
			continue
		}
		if r.Intn(10) == 0 {
			fs[0].Close()
			what[0] += " (closed)"
		}
		x.base = fds()
		lim := ""
		limit := func() func() { return func() {} }
		if r.Intn(4) == 0 {
			used := openFiles()
			n := r.Intn(5)
			lim = fmt.Sprintf(" with %d descriptors left", n)
			limit = func() func() { return softLimit(syscall.RLIMIT_NOFILE, uint64(used+n)) }
			x.Obs("descriptor limits", 1)
		}
		var err error
		if r.Intn(4) == 0 {
			pt := here.Path{Pkg: m.Pkgs[r.Intn(3)], Name: names[r.Intn(len(names))]}
			err = x.call(fmt.Sprintf("AddPath(%s) of %q%s", pt, what[0], lim), func() error {
				defer limit()()
				return p.AddPath(pt, fs[0])
			})
		} else {
			err = x.call(fmt.Sprintf("Add(%q)%s", what, lim), func() error {
				defer limit()()
				return p.Add(fs...)
			})
		}
		x.Obs("adds", 1)
		if err != nil {
			x.Obs("failed adds", 1)
		}
		// they are the caller's to close
		for i, f := range fs {
			if cerr := f.Close(); cerr != nil && !strings.HasSuffix(what[i], "(closed)") {
				x.Fail("closed", "Add(%q): %v, and then closing %s: %v", what, err, what[i], cerr)
			}
		}
		x.base = fds()
	}
	x.call("MarshalJSON", func() error {
		b, err := p.MarshalJSON()
		if err != nil {
			return err
		}
		return (&mem.Pkger{}).UnmarshalJSON(b)
	})
}

// x22Commands runs the commands in this process.
func x22Commands(x *c22) {
	r := x.R
	names := x.pool()
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	must(err)
	defer null.Close()
	if r.Intn(2) == 0 {
		install(stack(x.C, []pkging.Pkger{x.Mods.disk(x.C), x.Mods.mem(x.C)}))
	}
	x.base = fds()
	for i := 0; i < 12; i++ {
		cmd := []string{"stat", "stat", "stat", "path", "info", "list", "stat"}[r.Intn(7)]
		args := []string{cmd}
		for k := r.Intn(4); k > 0; k-- {
			switch cmd {
			case "info":
				args = append(args, []string{".", cur, otherPkgs[0], cur, otherPkgs[1]}[r.Intn(5)])
			case "list":
				if r.Intn(2) == 0 {
					args = append(args, "-include", spell(r, key{cur, names[r.Intn(len(names))]}, cur))
				}
			default:
				args = append(args, spell(r, key{cur, names[r.Intn(len(names))]}, cur))
			}
		}
		x.call(fmt.Sprintf("command %q", args), func() error {
			defer func(f *os.File) { os.Stdout = f }(os.Stdout)
			os.Stdout = null
			p, err := cmds.New()
			if err != nil {
				return err
			}
			return p.Route(args)
		})
		x.Obs("commands", 1)
	}
	null.Close()
}

// x22Concurrent does it all at once.
func x22Concurrent(x *c22) {
	r := x.R
	m := x.Mods
	names := x.pool()
	p := stack(x.C, []pkging.Pkger{m.disk(x.C), m.mem(x.C)})
	if r.Intn(2) == 0 {
		p = m.disk(x.C)
	}
	install(p)
	h := http.FileServer(pkger.Dir("/"))
	var wg sync.WaitGroup
	var log [6]strings.Builder
	for g := 0; g < 6; g++ {
		g := g
		var plan []int
		for i := 0; i < 60; i++ {
			plan = append(plan, r.Intn(1<<20))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var hs []io.Closer
			for _, n := range plan {
				name := names[n>>4%len(names)]
				var f io.Closer
				var err error
				switch n % 8 {
				case 0, 1:
					f, err = pkger.Open(name)
				case 2:
					f, err = pkger.Create(path.Join("/", fmt.Sprintf("g%d.%d", g, n%7)))
				case 3:
					f, err = pkger.Dir("/sub").Open(name)
				case 4:
					_, err = pkger.Stat(name)
				case 5:
					err = pkger.Walk(name, func(string, os.FileInfo, error) error { return nil })
				case 6:
					w := httptest.NewRecorder()
					h.ServeHTTP(w, must2(http.NewRequest("GET", "http://x/", nil)))
				case 7:
					if len(hs) > 0 {
						hs[0].Close()
						hs = hs[1:]
					}
				}
				fmt.Fprintf(&log[g], "%d %s %v;", n%8, name, err != nil)
				if err == nil && n%8 < 4 {
					hs = append(hs, f)
				}
			}
			for _, f := range hs {
				f.Close()
			}
		}()
	}
	wg.Wait()
	for g := range log {
		x.sig.WriteString(log[g].String())
	}
	x.Obs("concurrent calls", 6*60)
	x.call("six goroutines that closed all their handles", func() error { return nil })
}

// x22Injected lets single system calls of a child fail.
func x22Injected(x *c22) {
	st, err := exec.LookPath("strace")
	if err != nil {
		x.Obs("no strace", 1)
		return
	}
	r := x.R
	d := x.Mods.Dirs[cur]
	self, err := os.Executable()
	must(err)
	calls := []string{"fstat,newfstatat", "fstat", "read,pread64", "getdents64", "newfstatat", "openat", "lseek", "read,pread64"}[r.Intn(8)]
	errno := []string{"EIO", "EACCES", "ENOMEM"}[r.Intn(3)]
	when := []string{"1+", "2+", "1", "2", "3", "1+2"}[r.Intn(6)]
	args := []string{"-f", "-qq", "-o", x.Dir() + "/strace", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", calls, errno, when)}
	for _, n := range []string{"/sub", "/sub/f", "/sub/new"} {
		args = append(args, "-P", d+n)
	}
	what := fmt.Sprintf("%s fail with %s, number %s", calls, errno, when)
	so, se, code, err := runCmd(d, nil, st, append(args, self, "-child", "leaks", d)...)
	must(err)
	b, _ := os.ReadFile(x.Dir() + "/strace")
	x.Obs("injected calls", bytes.Count(b, []byte("(INJECTED)")))
	x.Logf("%s: %s%s", what, so, se)
	fmt.Fprintf(&x.sig, "%s %s", what, so)
	lines := strings.Split(strings.TrimSpace(so), "\n")
	n := 0
	fmt.Sscanf(lines[len(lines)-1], "%d calls", &n)
	if code != 0 || n == 0 {
		x.Inconclusive("the child ends with %d: %s%s", code, so, se)
	}
	x.Obs("calls", n)
	if len(lines) > 1 {
		x.Fail("descriptor", "%s: %s", what, lines[0])
	}
}

// childLeaks calls what touches the disk, and looks at the descriptors.
func childLeaks(args []string) error {
	dir := args[0]
	os.Setenv("GODEBUG", "")
	i, err := here.Dir(dir)
	if err != nil {
		return err
	}
	p, err := stdos.New(i)
	if err != nil {
		return err
	}
	pkger.Apply(p, nil)
	m, err := mem.New(i)
	if err != nil {
		return err
	}
	n := 0
	closing := func(f io.Closer, err error) error {
		if err == nil {
			f.Close()
		}
		return err
	}
	ops := []struct {
		name string
		fn   func() error
	}{
		{"Open /sub/f", func() error { return closing(p.Open("/sub/f")) }},
		{"Open /sub", func() error { return closing(p.Open("/sub")) }},
		{"Create /sub/new", func() error { return closing(p.Create("/sub/new")) }},
		{"Create /sub/f", func() error { return closing(p.Create("/sub/f")) }},
		{"pkger.Dir /sub", func() error { return closing(pkger.Dir("/sub").Open("/f")) }},
		{"pkger.Dir /sub/f", func() error { return closing(pkger.Dir("/sub/f").Open("/")) }},
		{"GET /sub/f", func() error {
			http.FileServer(pkger.Dir("/")).ServeHTTP(httptest.NewRecorder(), must2(http.NewRequest("GET", "http://x/sub/f", nil)))
			return nil
		}},
		{"GET /sub/", func() error {
			http.FileServer(pkger.Dir("/sub")).ServeHTTP(httptest.NewRecorder(), must2(http.NewRequest("GET", "http://x/", nil)))
			return nil
		}},
		{"Stat /sub/f", func() error { _, err := p.Stat("/sub/f"); return err }},
		{"Walk /sub", func() error { return p.Walk("/sub", func(string, os.FileInfo, error) error { return nil }) }},
		{"Readdir /sub", func() error {
			f, err := p.Open("/sub")
			if err != nil {
				return err
			}
			defer f.Close()
			_, err = f.Readdir(-1)
			return err
		}},
		{"Add /sub", func() error {
			f, err := os.Open(dir + "/sub")
			if err != nil {
				return err
			}
			defer f.Close()
			return m.Add(f)
		}},
		{"AddPath /sub/f", func() error {
			f, err := os.Open(dir + "/sub/f")
			if err != nil {
				return err
			}
			defer f.Close()
			return m.AddPath(here.Path{Pkg: i.ImportPath, Name: "/sub/f"}, f)
		}},
		{"pack /sub", func() error {
			decls, err := parser.Parse(i, "/sub")
			if err != nil {
				return err
			}
			return pkgutil.Stuff(io.Discard, i, decls)
		}},
		{"RemoveAll /sub/new", func() error { return p.RemoveAll("/sub/new") }},
	}
	for round := 0; round < 3; round++ {
		for _, o := range ops {
			before := fds()
			err := o.fn()
			n++
			if l := more(before, fds()); len(l) > 0 {
				fmt.Printf("%s (round %d, result %v) leaves %q\n", o.name, round, err, l)
			}
		}
	}
	fmt.Printf("%d calls\n", n)
	return nil
}
