package main

import (
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C17", Level: "exploration",
		Rule:  "trees with index.html files, odd names, empty and large files; http.FileServer over a directory handle and over pkger.Dir of a disk, an in-memory (filled by Add or rehydrated) and a packed file system, for the root and for directories below it, also in another package; the same requests - methods, spellings of paths, single, multiple, suffix and broken ranges, conditional headers, queries - go to http.FileServer(http.Dir) on the real directory; status, headers and body are compared, directly, over the loopback network, and from eight goroutines at once under the race detector; then files are written and removed, with requests for them and for their directories before and after. A case counts by tree and requests.",
		Quick: 700, Thorough: 10000,
		MinObs: map[string]int{"requests": 30000, "over the network": 3000, "concurrent": 50000, "status 200": 8580, "status 206": 300, "status 301": 3000, "status 304": 400, "status 404": 3000, "status 416": 200, "listings": 3000, "status 412": 50, "before and after": 500, "odd roots": 2000, "odd roots: status 403": 20},
		Setup:  setupMods,
		Run:    runC17,
	})
}

type hreq struct {
	method, path, query string
	hdr                 http.Header
}

func (q hreq) String() string {
	return fmt.Sprintf("%s %q?%s %v", q.method, q.path, q.query, q.hdr)
}

func genReq(c *C, t Tree, root string) hreq {
	r := c.R
	q := hreq{method: "GET", hdr: http.Header{}}
	switch r.Intn(10) {
	case 0:
		q.method = "HEAD"
	case 1:
		q.method = []string{"POST", "PUT", "DELETE", "OPTIONS", "HEAD"}[r.Intn(5)]
	}
	var ps []string
	for _, p := range t.Paths() {
		if within(p, root) {
			ps = append(ps, "/"+strings.TrimPrefix(strings.TrimPrefix(p, strings.TrimSuffix(root, "/")), "/"))
		}
	}
	p := ps[r.Intn(len(ps))]
	isDir := t[path.Join(root, p)].Dir
	spelling := r.Intn(14)
	if r.Intn(4) == 0 {
		// a file as it is, a large one rather
		for tries := 0; tries < 10 && (isDir || len(t[path.Join(root, p)].Data) < 3); tries++ {
			p = ps[r.Intn(len(ps))]
			isDir = t[path.Join(root, p)].Dir
		}
		spelling = 99
	}
	switch spelling {
	case 0:
		p += "/"
	case 1:
		p += "/index.html"
	case 2:
		p = path.Join(p, genName(r))
	case 3:
		p = path.Join(p, genName(r)) + "/"
	case 4:
		p = strings.ReplaceAll(p, "/", "//")
	case 5:
		p = "/" + genName(r) + "/.." + p
	case 6:
		p = strings.Repeat("/..", 1+r.Intn(3)) + p
	case 7:
		p += "/."
	case 8:
		p = "/" + genName(r)
	case 9:
		p = []string{"", "/", "//", "/index.html", "/.", "/..", "/x.go", "/go.mod", "/../go.mod", "/%", "/a%2fb", "/example.test/app:/x.go", "/../app.bak/a.txt", "/app/x.go"}[r.Intn(14)]
	case 10:
		p = path.Dir(p) + "/"
	default:
		if isDir && r.Intn(3) > 0 {
			p += "/"
		}
	}
	q.path = p
	if r.Intn(10) == 0 {
		q.query = []string{"a=b", "x", "q=%2e%2e", ""}[r.Intn(4)]
	}
	n := t[path.Join(root, p)]
	size := 10
	mt := time.Unix(1e9, 0)
	if n != nil {
		size, mt = len(n.Data), n.MTime
	}
	near := func() int {
		v := []int{0, 1, size - 1, size, size + 1, size / 2, r.Intn(size + 5), 511, 512}[r.Intn(9)]
		if v < 0 {
			v = 0
		}
		return v
	}
	if r.Intn(3) == 0 || spelling == 99 && r.Intn(2) == 0 {
		one := func() string {
			switch r.Intn(7) {
			case 0:
				return fmt.Sprintf("%d-", near())
			case 1:
				return fmt.Sprintf("-%d", near())
			case 2:
				return []string{"", "-", "a-b", "1", "5-2", " 0 - 3 ", "0-0", "-0"}[r.Intn(8)]
			default:
				a, b := near(), near()
				if a > b && r.Intn(4) > 0 {
					a, b = b, a
				}
				return fmt.Sprintf("%d-%d", a, b)
			}
		}
		v := "bytes=" + one()
		for k := r.Intn(4); k > 0; k-- {
			v += "," + one()
		}
		if r.Intn(20) == 0 {
			v = []string{"bytes", "items=0-1", "bytes=", "=0-1", "BYTES=0-1"}[r.Intn(5)]
		}
		q.hdr.Set("Range", v)
	}
	when := func() string {
		d := []time.Duration{0, time.Second, -time.Second, time.Hour, -time.Hour}[r.Intn(5)]
		if r.Intn(10) == 0 {
			return []string{"yesterday", "", "0"}[r.Intn(3)]
		}
		return mt.Add(d).UTC().Format(http.TimeFormat)
	}
	if r.Intn(4) == 0 {
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch r.Intn(5) {
			case 0, 1:
				q.hdr.Set("If-Modified-Since", when())
			case 2:
				q.hdr.Set("If-Unmodified-Since", when())
			case 3:
				q.hdr.Set("If-Range", when())
			case 4:
				q.hdr.Set([]string{"If-Match", "If-None-Match"}[r.Intn(2)], []string{"*", `"x"`, `W/"x"`, ""}[r.Intn(4)])
			}
		}
	}
	return q
}

// answer is a response without what differs by nature.
func answer(status int, hdr http.Header, body []byte) string {
	var ks []string
	b := string(body)
	if mt, ps, err := mime.ParseMediaType(hdr.Get("Content-Type")); err == nil && strings.HasPrefix(mt, "multipart/") {
		b = strings.ReplaceAll(b, ps["boundary"], "BOUNDARY")
		hdr = hdr.Clone()
		hdr.Set("Content-Type", mt+"; boundary of "+fmt.Sprint(len(ps["boundary"])))
	}
	for k := range hdr {
		if k != "Date" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	s := fmt.Sprint(status)
	for _, k := range ks {
		s += fmt.Sprintf("\n%s: %q", k, hdr[k])
	}
	return s + "\n\n" + b
}

func cut(s string) string {
	if len(s) > 900 {
		return s[:900] + fmt.Sprintf("... %d bytes", len(s))
	}
	return s
}

func direct(h http.Handler, q hreq) string {
	req := &http.Request{Method: q.method, URL: &url.URL{Path: q.path, RawQuery: q.query}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: q.hdr.Clone(), Host: "x", Body: http.NoBody}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return answer(w.Code, w.Result().Header, w.Body.Bytes())
}

func overNet(base string, q hreq) (string, error) {
	u, err := url.Parse(base)
	if err != nil {
		return "", err
	}
	u.Path, u.RawQuery = q.path, q.query
	req := &http.Request{Method: q.method, URL: u, Header: q.hdr.Clone(), Host: "x"}
	res, err := noRedirect.RoundTrip(req)
	if err != nil {
		return "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return "", err
	}
	return answer(res.StatusCode, res.Header, b), nil
}

var noRedirect = &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 4}

func runC17(c *C) {
	r := c.R
	m := c.Mods
	pkg := m.Pkgs[r.Intn(3)]
	t := genTree(r, TreeOpts{N: 10 + r.Intn(20), Big: r.Intn(6) == 0})
	dirs := t.Dirs()
	for k := r.Intn(4); k > 0; k-- {
		d := dirs[r.Intn(len(dirs))]
		t[path.Join(d, "index.html")] = &Node{Data: []byte("<html>index of " + d), Mode: 0644, MTime: genMTime(r)}
	}
	if n := t["/index.html/x"]; n != nil {
		delete(t, "/index.html/x")
	}
	// an index may have replaced a directory with contents
	for _, p := range t.Paths() {
		if p != "/" && (t[path.Dir(p)] == nil || !t[path.Dir(p)].Dir) {
			delete(t, p)
		}
	}
	for _, p := range t.Paths() {
		if p != "/" && (t[path.Dir(p)] == nil || !t[path.Dir(p)].Dir) {
			delete(t, p)
		}
	}
	locked := ""
	kind := []string{"disk", "added", "rehydrated", "packed", "added", "rehydrated"}[r.Intn(6)]
	if kind == "packed" && r.Intn(4) > 0 {
		kind = "disk"
	}
	if kind == "disk" && r.Intn(4) == 0 {
		if locked = pick(r, t.Paths()); locked != "/" {
			t[locked].Mode = 0
		}
	}
	m.reset(map[string]Tree{pkg: t})
	root := pick(r, append(t.Dirs(), "/", "/"))
	if locked != "" && locked != "/" && within(root, locked) {
		root = "/"
	}
	var p pkging.Pkger
	switch kind {
	case "disk":
		p = m.disk(c)
	case "added":
		f, err := memFSEmpty(c, m)
		must(err)
		d, err := os.Open(m.Dirs[pkg])
		must(err)
		if err := f.Add(d); err != nil {
			c.Fail("add", "Add(%s): %v", d.Name(), err)
		}
		d.Close()
		p = f
	case "packed":
		p = m.pack(c, pkg+":/")
	default:
		// what is on the disk is part of it
		full := Tree{}
		for k, e := range m.modSnap(pkg) {
			_, n := splitPath(k)
			full[n] = &Node{Dir: e.Dir, Data: []byte(e.Data), Mode: e.Mode &^ os.ModeDir, MTime: e.MTime}
		}
		f, _ := memFS(m.Main, m.Pkgs, map[string]Tree{pkg: full})
		p = f
	}
	spelled := pkg + ":" + root
	if pkg == cur && r.Intn(2) == 0 {
		spelled = root
	}
	if o := modOf(pkg); o != pkg && kind == "added" {
		// under the path of the module
		spelled = o + ":" + path.Join("/lib", root)
	}
	install(p)
	dh, err := p.Open(spelled)
	if err != nil {
		c.Fail("open", "%s: Open(%q): %v", kind, spelled, err)
	}
	defer dh.Close()
	subjects := map[string]http.Handler{
		"a directory handle": http.FileServer(dh.(http.FileSystem)),
		"pkger.Dir":          http.FileServer(pkger.Dir(spelled)),
	}
	order := []string{"a directory handle", "pkger.Dir"}
	if r.Intn(3) == 0 {
		subjects["a prefix stripped"] = http.StripPrefix("/pre", http.FileServer(pkger.Dir(spelled)))
		order = append(order, "a prefix stripped")
	}
	dir := m.abs(key{pkg, root})
	oracle := http.FileServer(http.Dir(dir))
	preOracle := http.StripPrefix("/pre", oracle)
	var reqs []hreq
	for i := 40; i > 0; i-- {
		reqs = append(reqs, genReq(c, t, root))
	}
	want := make([]string, len(reqs))
	var sig strings.Builder
	for i, q := range reqs {
		want[i] = direct(oracle, q)
		c.Obs("status "+want[i][:3], 1)
		if strings.Contains(want[i], "<pre>\n") {
			c.Obs("listings", 1)
		}
		c.Logf("%s -> %s", q, want[i][:3])
		fmt.Fprintf(&sig, "%s=%s;", q, want[i][:3])
	}
	for _, s := range order {
		for i, q := range reqs {
			c.Obs("requests", 1)
			w := want[i]
			if s == "a prefix stripped" {
				q.path = "/pre" + q.path
				w = direct(preOracle, q)
			}
			if g := direct(subjects[s], q); g != w {
				c.Fail("differs", "%s, %s of %s, %s:\n%s\nbut http.Dir(%s) answers\n%s", kind, s, spelled, q, cut(g), dir, cut(w))
			}
		}
	}
	if r.Intn(5) == 0 {
		srv := httptest.NewServer(subjects[order[r.Intn(2)]])
		osrv := httptest.NewServer(oracle)
		func() {
			defer srv.Close()
			defer osrv.Close()
			for _, q := range reqs {
				if q.path == "" {
					continue
				}
				w, err := overNet(osrv.URL, q)
				if err != nil {
					continue // not a request at all
				}
				g, err := overNet(srv.URL, q)
				if err != nil {
					c.Fail("net", "%s over the network, %s: %v", kind, q, err)
				}
				g, w = strings.ReplaceAll(g, srv.URL, ""), strings.ReplaceAll(w, osrv.URL, "")
				c.Obs("over the network", 1)
				if g != w {
					c.Fail("differs", "%s over the network, %s of %s:\n%s\nbut http.Dir answers\n%s", kind, q, spelled, cut(g), cut(w))
				}
			}
			noRedirect.CloseIdleConnections()
		}()
	}
	// all at once
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for g := 0; g < 8; g++ {
		g := g
		perm := r.Perm(len(reqs))
		h := subjects[order[g%2]]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range perm[:20] {
				if got := direct(h, reqs[i]); got != want[i] {
					bad[g] = fmt.Sprintf("%s from one of eight goroutines, %s:\n%s\nwant\n%s", kind, reqs[i], cut(got), cut(want[i]))
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Obs("concurrent", 160)
	for _, b := range bad {
		if b != "" {
			c.Fail("concurrent", "%s", b)
		}
	}
	oddRoots(c, kind, pkg, t, locked)
	if kind != "packed" && locked == "" {
		changesC17(c, p, kind, pkg, root, spelled, order, subjects, oracle)
	}
	c.Distinct(kind, root, sig.String())
	c.Sample("%s at %s: %s", kind, spelled, sig.String())
}

// oddRoots serves what is missing, is no directory, or is not allowed.
func oddRoots(c *C, kind, pkg string, t Tree, locked string) {
	r := c.R
	if kind == "added" && modOf(pkg) != pkg {
		return
	}
	var roots []string
	if locked != "" && locked != "/" {
		roots = append(roots, locked, path.Join(locked, "x"), path.Dir(locked))
	}
	if fs := t.Files(); len(fs) > 0 {
		f := fs[r.Intn(len(fs))]
		roots = append(roots, f, path.Join(f, "x"))
	}
	roots = append(roots, path.Join(pick(r, t.Dirs()), "not.there"))
	for i := 0; i < 2; i++ {
		root := roots[r.Intn(len(roots))]
		dir := filepath.Join(c.Mods.Dirs[pkg], root)
		oracle := http.FileServer(http.Dir(dir))
		h := http.FileServer(pkger.Dir(pkg + ":" + root))
		for j := 0; j < 6; j++ {
			q := genReq(c, t, "/")
			if j == 0 {
				q.path = "/"
			} else if root == locked && !t[root].Dir {
				break // which is opened first is not specified
			}
			w := direct(oracle, q)
			c.Obs("odd roots", 1)
			c.Obs("odd roots: status "+w[:3], 1)
			if g := direct(h, q); g != w {
				c.Fail("odd root", "%s, pkger.Dir(%q), %s:\n%s\nbut http.Dir(%s) answers\n%s", kind, pkg+":"+root, q, cut(g), dir, cut(w))
			}
		}
	}
}

// changesC17 changes what is served. What has been answered before is of no
// interest.
func changesC17(c *C, p pkging.Pkger, kind, pkg, root, spelled string, order []string, subjects map[string]http.Handler, oracle http.Handler) {
	r := c.R
	m := c.Mods
	var files, dirs []string
	for k, e := range m.modSnap(pkg) {
		_, n := splitPath(k)
		switch {
		case !within(n, root) || strings.HasSuffix(n, ".go") || n == "/go.mod":
		case e.Dir:
			dirs = append(dirs, n)
		default:
			files = append(files, n)
		}
	}
	sort.Strings(files)
	sort.Strings(dirs)
	strip := func(s string) string {
		if kind == "disk" {
			return s
		}
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if !strings.HasPrefix(l, "Last-Modified") {
				out = append(out, l)
			}
		}
		return strings.Join(out, "\n")
	}
	ask := func(n, when string) {
		q := hreq{method: "GET", path: "/" + strings.TrimPrefix(strings.TrimPrefix(n, strings.TrimSuffix(root, "/")), "/"), hdr: http.Header{}}
		if m := m.abs(key{pkg, n}); strings.HasSuffix(n, "/") || q.path != "/" && isDir(m) {
			q.path += "/"
		}
		w := strip(direct(oracle, q))
		for _, s := range order[:2] {
			if g := strip(direct(subjects[s], q)); g != w {
				c.Fail("differs", "%s, %s of %s, %s, %s:\n%s\nbut http.Dir answers\n%s", kind, s, spelled, when, q, cut(g), cut(w))
			}
			c.Obs("before and after", 1)
		}
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		d := dirs[r.Intn(len(dirs))]
		n := path.Join(d, []string{"index.html", "new.txt", "new.html", "x y"}[r.Intn(4)])
		if len(files) > 0 && r.Intn(2) == 0 {
			n = files[r.Intn(len(files))]
			d = path.Dir(n)
		}
		abs := m.abs(key{pkg, n})
		if isDir(abs) {
			continue
		}
		ask(n, "before")
		if d != n {
			ask(d, "before")
		}
		name := strings.TrimSuffix(spelled, "/") + "/" + strings.TrimPrefix(strings.TrimPrefix(n, strings.TrimSuffix(root, "/")), "/")
		_, err := os.Lstat(abs)
		behind := kind == "disk" && r.Intn(2) == 0
		what := "since it is written"
		if err == nil && r.Intn(3) == 0 {
			what = "since it is removed"
			if !behind {
				if err := p.Remove(name); err != nil {
					c.Fail("change", "Remove(%q): %v", name, err)
				}
			}
			if kind != "disk" || behind {
				must(os.Remove(abs))
			}
		} else {
			data := genData(r, false)
			if !behind {
				f, err := p.Create(name)
				if err == nil {
					_, err = f.Write(data)
				}
				if err == nil {
					err = f.Close()
				}
				if err != nil {
					c.Fail("change", "Create(%q): %v", name, err)
				}
			}
			if kind != "disk" || behind {
				os.Chmod(abs, 0644)
				must(os.WriteFile(abs, data, 0644))
			}
		}
		ask(n, what)
		ask(d, what)
	}
}

func isDir(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}
