package main

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{
		ID: "C26", Level: "exploration",
		Rule:  "the real command serves generated directories of generated modules - the root, folders below it, a required module, named by different spellings, from the root or from below it - on its port, one server at a time; requests of every kind that C17 makes go to it and to http.FileServer(http.Dir) on the same directory over the loopback network, one after the other and from several clients at once, before and after the directory was changed, and every answer is compared. What cannot be served - missing, in an unknown module, a port that is taken, no module - has to end with a status other than zero. A case counts by tree and requests.",
		Quick: 60, Thorough: 600,
		MinObs: map[string]int{"servers": 36, "requests": 2500, "after changes": 1000, "before and after": 100, "concurrent": 1500, "status 200": 250, "status 404": 80, "status 301": 80, "listings": 60, "refused": 36},
		Run:    runC26,
	})
}

const servePort = "127.0.0.1:3000"

// portLock makes the workers take turns.
func portLock(c *C) func() {
	f, err := os.OpenFile(filepath.Join(filepath.Dir(c.Scratch), "port.lock"), os.O_CREATE|os.O_RDWR, 0644)
	must(err)
	must(syscall.Flock(int(f.Fd()), syscall.LOCK_EX))
	return func() { f.Close() }
}

func portBusy() bool {
	cn, err := net.DialTimeout("tcp", servePort, time.Second)
	if err != nil {
		return false
	}
	cn.Close()
	return true
}

func runC26(c *C) {
	r := c.R
	m := newCLIMod(c, []string{"app", "my app", "a.b"}[r.Intn(3)])
	t := m.dataTree(6 + r.Intn(14))
	for _, d := range t.Dirs() {
		if r.Intn(4) == 0 && t[path.Join(d, "index.html")] == nil {
			t[path.Join(d, "index.html")] = &Node{Data: []byte("<html>index of " + d), Mode: 0644, MTime: genMTime(r)}
		}
	}
	t["/"] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
	t.write(m.Root)
	lt := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files": {Dir: true, Mode: 0755, MTime: genMTime(r)}, "/files/l.txt": {Data: genData(r, false), Mode: 0600, MTime: genMTime(r)}}
	lt.write(m.LDir)
	m.write("keep/keep.go", "package keep\n\nimport (\n\t_ \"github.com/markbates/pkger\"\n\t_ \""+m.Lib+"\"\n)\n")
	m.write("main.go", "package main\n\nfunc main() {}\n")
	t.stamp(m.Root)

	k := key{m.Path, pick(r, append(t.Dirs(), "/", "/"))}
	st := t
	if r.Intn(6) == 0 {
		k = key{m.Lib, []string{"/", "/files"}[r.Intn(2)]}
		st = lt
	}
	args := []string{"serve", spell(r, k, m.Path)}
	if k.pkg == m.Path && k.name == "/" && r.Intn(2) == 0 {
		args = args[:1]
	}
	from := m.Root
	if len(args) > 1 && r.Intn(3) == 0 {
		from = filepath.Join(m.Root, []string{"assets", "other"}[r.Intn(2)])
	}
	dir := m.abs(k)

	defer portLock(c)()
	for i := 0; portBusy() && i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if portBusy() {
		c.Inconclusive("something else listens on port 3000")
	}
	x := &c26{C: c, m: m}
	x.refuses(k, args[1:])

	srv := x.start(from, args, k)
	defer srv.stop()
	oracle := httptest.NewServer(http.FileServer(http.Dir(dir)))
	defer oracle.Close()
	defer noRedirect.CloseIdleConnections()
	base := "http://" + servePort
	ask := func(q hreq, when string) (string, string) {
		w, err := overNet(oracle.URL, q)
		if err != nil {
			return "", "" // not a request at all
		}
		g, err := overNet(base, q)
		if err != nil {
			return fmt.Sprintf("pkger %q, %s, %s: %v", args, when, q, err), w
		}
		if g, w := strings.ReplaceAll(g, base, ""), strings.ReplaceAll(w, oracle.URL, ""); g != w {
			return fmt.Sprintf("pkger %q, %s, %s:\n%s\nbut http.Dir(%s) answers\n%s", args, when, q, cut(g), dir, cut(w)), w
		}
		return "", w
	}
	var sig strings.Builder
	round := func(when string, n int) {
		for i := 0; i < n; i++ {
			q := genReq(c, st, k.name)
			if q.path == "" {
				continue
			}
			bad, w := ask(q, when)
			if w == "" {
				continue
			}
			c.Logf("%s -> %s", q, w[:3])
			if bad != "" {
				c.Fail("differs", "%s", bad)
			}
			fmt.Fprintf(&sig, "%s=%s;", q, w[:3])
			c.Obs("requests", 1)
			c.Obs("status "+w[:3], 1)
			if strings.Contains(w, "<pre>\n") {
				c.Obs("listings", 1)
			}
			if when != "at first" {
				c.Obs("after changes", 1)
			}
		}
	}
	one := func(p, when string) {
		q := hreq{method: "GET", path: "/" + strings.TrimPrefix(strings.TrimPrefix(p, strings.TrimSuffix(k.name, "/")), "/"), hdr: http.Header{}}
		bad, w := ask(q, when)
		if bad != "" {
			c.Fail("differs", "%s", bad)
		}
		if w != "" {
			c.Obs("before and after", 1)
		}
	}
	round("at first", 40)
	for i := 2; i > 0; i-- {
		// the directory as it is when it is asked for
		change := func() {
			p := pick(r, st.Paths())
			if !within(p, k.name) || p == "/" {
				return
			}
			abs := m.abs(key{k.pkg, p})
			n := st[p]
			switch {
			case n.Dir:
				q := path.Join(p, fmt.Sprintf("new%d.txt", r.Intn(10)))
				if st[q] == nil {
					one(q, "before it is there")
					one(p, "before it has another file")
					defer one(p, "since it has another file")
					defer one(q, "since it is there")
					st[q] = &Node{Data: genData(r, false), Mode: 0644, MTime: genMTime(r)}
					must(os.WriteFile(m.abs(key{k.pkg, q}), st[q].Data, 0644))
				}
			case r.Intn(3) == 0:
				one(p, "before it is removed")
				must(os.Remove(abs))
				delete(st, p)
				one(p, "since it is removed")
			default:
				one(p, "before it is written again")
				defer one(p, "since it is written again")
				n.Data, n.MTime = genData(r, false), genMTime(r)
				must(os.Chmod(abs, 0644))
				must(os.WriteFile(abs, n.Data, 0644))
				must(os.Chtimes(abs, n.MTime, n.MTime))
			}
		}
		for j := 1 + r.Intn(4); j > 0; j-- {
			change()
		}
		round("after changes", 20)
	}
	var wg sync.WaitGroup
	bad := make([]string, 6)
	for g := range bad {
		var qs []hreq
		for i := 0; i < 8; i++ {
			if q := genReq(c, st, k.name); q.path != "" {
				qs = append(qs, q)
			}
		}
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, q := range qs {
				if b, _ := ask(q, "one of six clients"); b != "" && bad[g] == "" {
					bad[g] = b
				}
			}
		}()
		c.Obs("concurrent", len(qs))
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("differs", "%s", b)
		}
	}
	if !srv.alive() {
		c.Fail("ends", "pkger %q has ended: %s", args, srv.stderr.String())
	}
	c.Obs("servers", 1)
	c.Distinct(args, from, sig.String())
	c.Sample("pkger %q: %s", args, sig.String())
}

type c26 struct {
	*C
	m *cliMod
}

type server struct {
	cmd    *exec.Cmd
	stderr *strings.Builder
	done   chan error
}

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
}

// start starts the server, which prints the path that it serves.
func (x *c26) start(dir string, args []string, k key) *server {
	s := &server{stderr: &strings.Builder{}, done: make(chan error)}
	s.cmd = exec.Command(x.Pkger, args...)
	s.cmd.Dir = dir
	s.cmd.Stderr = s.stderr
	so, err := s.cmd.StdoutPipe()
	must(err)
	must(s.cmd.Start())
	line := make(chan string, 1)
	go func() {
		in := bufio.NewReader(so)
		l, _ := in.ReadString('\n')
		for i := strings.Count(k.str(), "\n"); i > 0; i-- {
			more, _ := in.ReadString('\n')
			l += more
		}
		line <- l
		s.cmd.Wait()
		close(s.done)
	}()
	l := <-line
	x.Logf("pkger %q in %s: %q", args, dir, l)
	for i := 0; i < 600 && s.alive(); i++ {
		if portBusy() {
			if got := strings.TrimSpace(l); got != k.str() {
				s.stop()
				x.Fail("path", "pkger %q says it serves %q, not %s", args, got, k.str())
			}
			return s
		}
		time.Sleep(20 * time.Millisecond)
	}
	if s.alive() {
		s.stop()
		x.Inconclusive("pkger %q does not listen on %s", args, servePort)
	}
	x.Fail("serve", "pkger %q ends: %s", args, s.stderr.String())
	return nil
}

// refuses asks for what cannot be served.
func (x *c26) refuses(k key, args []string) {
	r := x.R
	dir, what := x.m.Root, ""
	bad := []string{"serve"}
	switch r.Intn(5) {
	case 0:
		what = "a missing folder"
		bad = append(bad, spell(r, key{k.pkg, path.Join(k.name, "is/not/there")}, x.m.Path))
	case 1:
		what = "an unknown module"
		bad = append(bad, "unknown.test/mod:/")
	case 2:
		what = "a port that is taken"
		ln, err := net.Listen("tcp", ":3000")
		if err != nil {
			x.Inconclusive("cannot listen: %v", err)
		}
		defer ln.Close()
		bad = append(bad, args...)
	case 3:
		what = "no module"
		dir = filepath.Join(x.Dir(), "none")
		must(os.MkdirAll(dir, 0755))
		bad = append(bad, "/assets")
	case 4:
		what = "an unreadable folder"
		d := filepath.Join(x.m.Root, "locked")
		must(os.Mkdir(d, 0))
		defer os.Remove(d)
		bad = append(bad, "/locked")
	}
	cmd := exec.Command(x.Pkger, bad...)
	cmd.Dir = dir
	out := &strings.Builder{}
	cmd.Stdout, cmd.Stderr = out, out
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		x.Fail("refuse", "pkger %q, %s: still runs: %s", bad, what, out)
	}
	x.Logf("pkger %q, %s: %v", bad, what, err)
	if err == nil {
		x.Fail("refuse", "pkger %q, %s: exits with zero: %s", bad, what, out)
	}
	x.Obs("refused", 1)
}
