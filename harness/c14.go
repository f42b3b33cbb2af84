package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C14", Level: "exploration",
		Rule:  "scripted layers: every operation, on stacks of one to four layers nested either way, with every pattern of success and failure per layer (also values handed out along with an error, and Walk callbacks that fail), directly and through the package-level functions; a monitor checks the sequence of calls each layer receives, their arguments and the answer. Real layers: random histories on stacks of in-memory file systems (and the disk below them, for reading) with overlapping trees, compared with the same calls made layer by layer on copies. A case counts by stack, pattern and calls.",
		Quick: 4000, Thorough: 40000,
		MinObs: map[string]int{"scripted calls": 100000, "layer calls": 150000, "patterns": 10000, "real calls": 10000, "fallbacks": 40000, "package-level calls": 10000},
		Setup:  setupC14,
		Run:    runC14,
	})
}

// the layers this process applies to the package level API
var applied [3]*swap

func setupC14(w *Worker) error {
	if err := setupMods(w); err != nil {
		return err
	}
	for i := range applied {
		applied[i] = &swap{}
		if err := pkger.Apply(applied[i], nil); err != nil {
			return err
		}
	}
	return nil
}

// script is a layer that answers as told.
type script struct {
	id    int
	fail  bool
	with  bool // hands out a value along with the error
	bare  bool // succeeds with nothing
	err   error
	calls *[]string
	file  *scriptFile
	names []string // what Walk visits
}

type scriptFile struct {
	pkging.File
	id int
}

func (s *script) note(f string, args ...interface{}) {
	*s.calls = append(*s.calls, fmt.Sprintf("%d.", s.id)+fmt.Sprintf(f, args...))
}

func (s *script) Parse(p string) (here.Path, error) {
	s.note("Parse(%q)", p)
	if s.fail && !s.with {
		return here.Path{}, s.err
	}
	if s.fail {
		return here.Path{Pkg: "wrong", Name: "/wrong"}, s.err
	}
	if s.bare {
		return here.Path{}, nil
	}
	return here.Path{Pkg: fmt.Sprintf("layer%d", s.id), Name: p}, nil
}

func (s *script) info(what string) (here.Info, error) {
	if s.fail && !s.with {
		return here.Info{}, s.err
	}
	if s.fail {
		return here.Info{Dir: "wrong"}, s.err
	}
	if s.bare {
		return here.Info{}, nil
	}
	return here.Info{Dir: fmt.Sprintf("layer%d", s.id), Name: what}, nil
}

func (s *script) Current() (here.Info, error) {
	s.note("Current()")
	return s.info("current")
}

func (s *script) Info(p string) (here.Info, error) {
	s.note("Info(%q)", p)
	return s.info(p)
}

func (s *script) opened() (pkging.File, error) {
	if s.fail && !s.with {
		return nil, s.err
	}
	if s.fail {
		return &scriptFile{id: -1}, s.err
	}
	if s.bare {
		return nil, nil
	}
	return s.file, nil
}

func (s *script) Create(p string) (pkging.File, error) {
	s.note("Create(%q)", p)
	return s.opened()
}

func (s *script) Open(p string) (pkging.File, error) {
	s.note("Open(%q)", p)
	return s.opened()
}

func (s *script) Stat(p string) (os.FileInfo, error) {
	s.note("Stat(%q)", p)
	if s.fail && !s.with {
		return nil, s.err
	}
	if s.fail {
		return rawInfo{name: "wrong"}, s.err
	}
	if s.bare {
		return nil, nil
	}
	return rawInfo{name: fmt.Sprintf("layer%d", s.id)}, nil
}

func (s *script) done() error {
	if s.fail {
		return s.err
	}
	return nil
}

func (s *script) MkdirAll(p string, perm os.FileMode) error {
	s.note("MkdirAll(%q, %o)", p, uint32(perm))
	return s.done()
}

func (s *script) Remove(p string) error {
	s.note("Remove(%q)", p)
	return s.done()
}

func (s *script) RemoveAll(p string) error {
	s.note("RemoveAll(%q)", p)
	return s.done()
}

func (s *script) Walk(p string, wf filepath.WalkFunc) error {
	s.note("Walk(%q)", p)
	for _, n := range s.names {
		if err := wf(n, rawInfo{name: n}, nil); err != nil {
			return err
		}
	}
	return s.done()
}

var _ pkging.Pkger = &script{}

// oddError is an error of any type a file system reports.
func oddError(c *C, i int) error {
	r := c.R
	es := []error{os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrInvalid, io.EOF, io.ErrUnexpectedEOF, syscall.ENOTDIR, syscall.EISDIR, syscall.ENOTEMPTY, syscall.EACCES, syscall.ENOENT, syscall.EEXIST, syscall.EROFS, syscall.EINTR, errors.New("strange")}
	e := es[r.Intn(len(es))]
	switch r.Intn(4) {
	case 0:
		return e
	case 1:
		return fmt.Errorf("layer %d: %w", i, e)
	case 2:
		return &os.SyscallError{Syscall: "x", Err: e}
	}
	return &os.PathError{Op: "x", Path: fmt.Sprint(i), Err: e}
}

// stack wraps the layers, oldest first, nested this way or that.
func stack(c *C, layers []pkging.Pkger) pkging.Pkger {
	if len(layers) == 1 {
		if c.R.Intn(2) == 0 {
			return layers[0]
		}
		return pkging.Wrap(nil, layers[0])
	}
	k := len(layers) - 1
	if c.R.Intn(3) == 0 {
		k = 1 + c.R.Intn(len(layers)-1)
	}
	return pkging.Wrap(stack(c, layers[:k]), stack(c, layers[k:]))
}

// api is the package-level API.
type api struct{}

func (api) Parse(p string) (here.Path, error)         { return pkger.Parse(p) }
func (api) Current() (here.Info, error)               { return pkger.Current() }
func (api) Info(p string) (here.Info, error)          { return pkger.Info(p) }
func (api) Create(p string) (pkging.File, error)      { return pkger.Create(p) }
func (api) MkdirAll(p string, m os.FileMode) error    { return pkger.MkdirAll(p, m) }
func (api) Open(p string) (pkging.File, error)        { return pkger.Open(p) }
func (api) Stat(p string) (os.FileInfo, error)        { return pkger.Stat(p) }
func (api) Walk(p string, wf filepath.WalkFunc) error { return pkger.Walk(p, wf) }
func (api) Remove(p string) error                     { return pkger.Remove(p) }
func (api) RemoveAll(p string) error                  { return pkger.RemoveAll(p) }

func runC14(c *C) {
	if c.Idx%3 == 0 {
		realLayers(c)
		return
	}
	scripted(c)
}

func scripted(c *C) {
	r := c.R
	n := 1 + r.Intn(4)
	viaAPI := r.Intn(4) == 0
	if viaAPI {
		n = 3
	}
	var calls []string
	scripts := make([]*script, n) // newest first
	var layers []pkging.Pkger     // oldest first
	for i := range scripts {
		s := &script{id: i, calls: &calls, file: &scriptFile{id: i}}
		s.err = fmt.Errorf("layer %d fails", i)
		if r.Intn(3) > 0 {
			s.err = oddError(c, i)
		}
		scripts[i] = s
	}
	for i := n - 1; i >= 0; i-- {
		layers = append(layers, scripts[i])
	}
	var w pkging.Pkger
	if viaAPI {
		for i := range applied {
			applied[i].Pkger = layers[i]
		}
		w = api{}
	} else {
		w = stack(c, layers)
	}
	arg := []string{"/a", "a/b", "x:/y", "", "/../..", "\n weird ", "/" + genName(r)}[r.Intn(7)]
	perm := []os.FileMode{0, 0755, 0700, os.ModePerm | os.ModeSetuid}[r.Intn(4)]
	var sig strings.Builder
	for pat := 0; pat < 1<<uint(n); pat++ {
		first, firstFail := n, n
		for i, s := range scripts {
			s.fail = pat>>uint(i)&1 == 1
			s.with = r.Intn(3) == 0
			s.bare = r.Intn(5) == 0
			s.names = nil
			for k := r.Intn(3); k > 0; k-- {
				s.names = append(s.names, fmt.Sprintf("L%d/%d", i, k))
			}
			if !s.fail && first == n {
				first = i
			}
			if s.fail && firstFail == n {
				firstFail = i
			}
		}
		c.Obs("patterns", 1)
		fmt.Fprintf(&sig, "%d/%b;", n, pat)
		// those that look for an answer
		isErr := func(err error) bool {
			for _, s := range scripts {
				if err == s.err {
					return true
				}
			}
			return false
		}
		expect := func(call string, upto int) {
			c.Obs("scripted calls", 1)
			c.Obs("layer calls", len(calls))
			if viaAPI {
				c.Obs("package-level calls", 1)
			}
			var want []string
			for i := 0; i <= upto && i < n; i++ {
				want = append(want, fmt.Sprintf("%d.%s", i, call))
			}
			if upto > 0 {
				c.Obs("fallbacks", 1)
			}
			if strings.Join(want, ",") != strings.Join(calls, ",") {
				c.Fail("order", "%s on %v, layers that fail (newest first): %s: the layers were asked %v, want %v", call, w, bits(pat, n), calls, want)
			}
		}
		for _, op := range []string{"Parse", "Current", "Info", "Create", "Open", "Stat"} {
			calls = nil
			var err error
			who := -1
			call := fmt.Sprintf("%s(%q)", op, arg)
			layerOf := func(s string) int {
				for i := range scripts {
					if s == fmt.Sprintf("layer%d", i) {
						return i
					}
				}
				return -1
			}
			switch op {
			case "Parse":
				var pt here.Path
				pt, err = w.Parse(arg)
				who = layerOf(pt.Pkg)
				if err == nil && !(first < n && scripts[first].bare) && pt.Name != arg {
					c.Fail("answer", "%s answers %v", call, pt)
				}
			case "Current":
				call = "Current()"
				var i here.Info
				i, err = w.Current()
				who = layerOf(i.Dir)
				if err == nil && !(first < n && scripts[first].bare) && i.Name != "current" {
					c.Fail("answer", "%s answers %v", call, i)
				}
			case "Info":
				var i here.Info
				i, err = w.Info(arg)
				who = layerOf(i.Dir)
				if err == nil && !(first < n && scripts[first].bare) && i.Name != arg {
					c.Fail("answer", "%s answers %v", call, i)
				}
			case "Create", "Open":
				var f pkging.File
				if op == "Open" {
					f, err = w.Open(arg)
				} else {
					f, err = w.Create(arg)
				}
				if sf, ok := f.(*scriptFile); ok && sf != nil {
					who = sf.id
				}
			case "Stat":
				var fi os.FileInfo
				fi, err = w.Stat(arg)
				if fi != nil {
					who = layerOf(fi.Name())
				}
			}
			if first == n {
				if err == nil {
					c.Fail("swallowed", "%s: every layer fails, but the stack %v does not", call, w)
				}
				if !isErr(err) {
					c.Fail("error", "%s: every layer fails, the stack %v answers with another error: %v", call, w, err)
				}
			} else {
				if err != nil {
					c.Fail("error", "%s on %v, failing: %s: %v, but layer %d can answer", call, w, bits(pat, n), err, first)
				}
				if scripts[first].bare {
					if who == -1 {
						who = first
					}
					c.Obs("answers of nothing", 1)
				}
				if who != first {
					c.Fail("answer", "%s on %v, failing: %s: answered by layer %d, want %d", call, w, bits(pat, n), who, first)
				}
			}
			expect(call, first)
		}
		for _, op := range []string{"MkdirAll", "Remove", "RemoveAll", "Walk"} {
			calls = nil
			var err error
			call := fmt.Sprintf("%s(%q)", op, arg)
			var cbErr error
			var seen, wantSeen []string
			stop := firstFail
			switch op {
			case "MkdirAll":
				call = fmt.Sprintf("MkdirAll(%q, %o)", arg, uint32(perm))
				err = w.MkdirAll(arg, perm)
			case "Remove":
				err = w.Remove(arg)
			case "RemoveAll":
				err = w.RemoveAll(arg)
			case "Walk":
				total := 0
				for i := 0; i <= firstFail && i < n; i++ {
					total += len(scripts[i].names)
				}
				at := -1
				if total > 0 && r.Intn(3) == 0 {
					at = r.Intn(total)
					cbErr = errors.New("callback fails")
				}
				k := 0
				for i := 0; i <= firstFail && i < n && (at < 0 || k <= at); i++ {
					for _, x := range scripts[i].names {
						if at >= 0 && k > at {
							break
						}
						wantSeen = append(wantSeen, x)
						stop0 := i
						if k == at {
							stop = stop0
						}
						k++
					}
				}
				m := 0
				err = w.Walk(arg, func(p string, fi os.FileInfo, e error) error {
					if fi == nil || fi.Name() != p || e != nil {
						c.Fail("walk", "the callback is called with %q, %v, %v", p, fi, e)
					}
					seen = append(seen, p)
					m++
					if m-1 == at {
						return cbErr
					}
					return nil
				})
				if strings.Join(seen, ",") != strings.Join(wantSeen, ",") {
					c.Fail("walk", "%s on %v, failing: %s: visits %v, want %v", call, w, bits(pat, n), seen, wantSeen)
				}
			}
			want := error(nil)
			if stop < n {
				want = scripts[stop].err
				if cbErr != nil {
					want = cbErr
				}
			}
			if err != want {
				c.Fail("error", "%s on %v, failing: %s: returns %v, want %v", call, w, bits(pat, n), err, want)
			}
			expect(call, stop)
		}
	}
	c.Distinct("scripted", n, viaAPI, arg, fmt.Sprint(w), sig.String())
	c.Sample("scripted stack of %d layers, argument %q, every failure pattern: %s", n, arg, sig.String())
}

func bits(pat, n int) string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, fmt.Sprint(pat>>uint(i)&1 == 1))
	}
	return strings.Join(s, " ")
}

// fresh tells of times that were set by this case.
func fresh(t time.Time) bool {
	d := time.Since(t)
	return d < 10*time.Minute && d > -10*time.Minute
}

// shown leaves the time out of what was just made.
func shown(fi os.FileInfo) string {
	e := infoEntry(fi)
	if fresh(e.MTime) {
		e.MTime = time.Time{}
	}
	return e.String()
}

// realLayers compares a stack of in-memory file systems with the same calls
// made layer by layer on copies of them.
func realLayers(c *C) {
	r := c.R
	m := c.Mods
	n := 2 + r.Intn(3)
	pkgs := m.Pkgs[:2]
	roots := []string{pkgs[0] + ":/", pkgs[1] + ":/"}
	names := append(pathPool(r, "/tmp", 8), "/")
	var layers []pkging.Pkger // oldest first
	var twins []pkging.Pkger  // newest first
	disk := r.Intn(3) == 0
	if disk {
		t := genTree(r, TreeOpts{N: 6})
		m.reset(map[string]Tree{cur: t})
		for _, p := range t.Paths() {
			if len(names) < 12 {
				names = append(names, p)
			}
		}
		layers = append(layers, m.disk(c))
		twins = append(twins, m.disk(c))
		n--
	}
	for i := 0; i < n; i++ {
		// layers know different packages and are of different modules
		main := m.Main
		if i > 0 && r.Intn(3) == 0 {
			main = mainInfo("/src/other", "example.test/layer")
		}
		trees := map[string]Tree{}
		var known []string
		for _, k := range pkgs {
			if r.Intn(4) == 0 {
				continue
			}
			known = append(known, k)
			t := Tree{}
			for _, x := range names {
				if r.Intn(3) == 0 && x != "/" && x != "/go.mod" && x != "/x.go" {
					t[x] = &Node{Data: []byte(fmt.Sprintf("layer %d %s%s", i, k, x)), Mode: 0644, MTime: genMTime(r)}
				}
			}
			for _, x := range t.Paths() {
				for d := path.Dir(x); ; d = path.Dir(d) {
					t[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
					if d == "/" {
						break
					}
				}
			}
			trees[k] = t
		}
		a, _ := memFS(main, known, trees)
		b, err := a.MarshalJSON()
		if err != nil {
			c.Fail("marshal", "MarshalJSON: %v", err)
		}
		layers = append(layers, a)
		twins = append([]pkging.Pkger{reload(c, b, false)}, twins...)
	}
	w := stack(c, layers)
	if len(layers) == 3 && r.Intn(3) == 0 {
		for i := range applied {
			applied[i].Pkger = layers[i]
		}
		w = api{}
	}
	read := func(f pkging.File, err error) string {
		if err != nil {
			return errClass(err)
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			return "stat " + errClass(err)
		}
		if fi.IsDir() {
			infos, err := f.Readdir(-1)
			var s []string
			for _, x := range infos {
				s = append(s, x.Name())
			}
			sort.Strings(s)
			return fmt.Sprintf("dir %s %v %v %v", f.Name(), f.Info().Module.Path, s, err)
		}
		b, err := readAll(f)
		return fmt.Sprintf("file %s %q %v %v", f.Name(), b, err, shown(fi))
	}
	// firstOf and all are the rule
	firstOf := func(fn func(p pkging.Pkger) (string, error)) string {
		var last string
		for i, t := range twins {
			s, err := fn(t)
			if err == nil {
				if i > 0 {
					c.Obs("fallbacks", 1)
				}
				return s
			}
			last = s
		}
		return last
	}
	all := func(fn func(p pkging.Pkger) error) string {
		for _, t := range twins {
			if err := fn(t); err != nil {
				return errClass(err) + err.Error()
			}
		}
		return "ok"
	}
	text := func(err error) string {
		if err == nil {
			return "ok"
		}
		return errClass(err) + err.Error()
	}
	var sig strings.Builder
	for i := 20 + r.Intn(20); i > 0; i-- {
		k := key{pkgs[r.Intn(len(pkgs))], names[r.Intn(len(names))]}
		s := k.String()
		if r.Intn(3) == 0 {
			s = k.name
		}
		op := []string{"Open", "Open", "Stat", "Info", "Current", "Parse", "Walk", "Walk", "Create", "MkdirAll", "Remove", "RemoveAll"}[r.Intn(12)]
		if disk && (op == "Create" || op == "MkdirAll" || op == "Remove" || op == "RemoveAll") {
			op = "Walk"
		}
		c.Obs("real calls", 1)
		if _, ok := w.(api); ok {
			c.Obs("package-level calls", 1)
		}
		fmt.Fprintf(&sig, "%s(%s);", op, s)
		c.Logf("%s(%q)", op, s)
		var got, want string
		switch op {
		case "Open":
			got = read(w.Open(s))
			want = firstOf(func(p pkging.Pkger) (string, error) {
				f, err := p.Open(s)
				return read(f, err), err
			})
		case "Stat":
			show := func(fi os.FileInfo, err error) (string, error) {
				if err != nil {
					return errClass(err), err
				}
				return shown(fi), nil
			}
			got, _ = show(w.Stat(s))
			want = firstOf(func(p pkging.Pkger) (string, error) { return show(p.Stat(s)) })
		case "Info":
			q := []string{k.pkg, cur, "example.test/layer", "no.such/pkg"}[r.Intn(4)]
			if disk && q == "no.such/pkg" {
				q = k.pkg
			}
			show := func(i here.Info, err error) (string, error) {
				if err != nil {
					return "error", err
				}
				return i.String(), nil
			}
			got, _ = show(w.Info(q))
			want = firstOf(func(p pkging.Pkger) (string, error) { return show(p.Info(q)) })
		case "Current":
			show := func(i here.Info, err error) (string, error) {
				if err != nil {
					return "error", err
				}
				return i.String(), nil
			}
			got, _ = show(w.Current())
			want = firstOf(func(p pkging.Pkger) (string, error) { return show(p.Current()) })
		case "Parse":
			show := func(pt here.Path, err error) (string, error) {
				if err != nil {
					return "error", err
				}
				return pt.String(), nil
			}
			got, _ = show(w.Parse(s))
			want = firstOf(func(p pkging.Pkger) (string, error) { return show(p.Parse(s)) })
		case "Create":
			data := fmt.Sprintf("new %d", i)
			put := func(f pkging.File, err error) (string, error) {
				if err != nil {
					return errClass(err), err
				}
				io.WriteString(f, data)
				if err := f.Close(); err != nil {
					return "close " + err.Error(), nil
				}
				return "created " + f.Name(), nil
			}
			got, _ = put(w.Create(s))
			want = firstOf(func(p pkging.Pkger) (string, error) { return put(p.Create(s)) })
		case "MkdirAll":
			got = text(w.MkdirAll(s, 0750))
			want = all(func(p pkging.Pkger) error { return p.MkdirAll(s, 0750) })
		case "Remove":
			got = text(w.Remove(s))
			want = all(func(p pkging.Pkger) error { return p.Remove(s) })
		case "RemoveAll":
			got = text(w.RemoveAll(s))
			want = all(func(p pkging.Pkger) error { return p.RemoveAll(s) })
		case "Walk":
			stop := r.Intn(12)
			mode := r.Intn(4)
			trace := func() (filepath.WalkFunc, *[]string) {
				var v []string
				return func(p string, fi os.FileInfo, err error) error {
					if fi != nil {
						p += " " + shown(fi)
					}
					v = append(v, fmt.Sprint(p, err))
					if err != nil {
						return err
					}
					if len(v) == stop && mode == 1 {
						return errors.New("stop")
					}
					if len(v) == stop && mode == 2 {
						return filepath.SkipDir
					}
					return nil
				}, &v
			}
			wf, v := trace()
			got = text(w.Walk(s, wf)) + strings.Join(*v, "\n")
			wf, v = trace()
			want = all(func(p pkging.Pkger) error { return p.Walk(s, wf) })
			want += strings.Join(*v, "\n")
		}
		if got != want {
			c.Fail("real", "%s(%q) on %d layers gives %s, want %s", op, s, len(layers), got, want)
		}
	}
	// and each layer is in the state the rule leaves it in
	for i, l := range layers {
		f, ok := l.(*mem.Pkger)
		if !ok {
			continue
		}
		a, err := fsSnap(f, roots...)
		if err != nil {
			c.Fail("consistency", "%v", err)
		}
		b, err := fsSnap(twins[len(twins)-1-i], roots...)
		if err != nil {
			c.Fail("consistency", "%v", err)
		}
		for k, e := range a {
			// times of what was created differ
			if x, ok := b[k]; ok && fresh(e.MTime) && fresh(x.MTime) {
				e.MTime = x.MTime
				a[k] = e
			}
		}
		if d := b.diff(a); d != "" {
			c.Fail("state", "layer %d of %d: %s", i, len(layers), d)
		}
	}
	c.Distinct("real", sig.String())
	c.Sample("real stack %v: %s", w, sig.String())
}
