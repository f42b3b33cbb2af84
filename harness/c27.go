package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C27", Level: "exploration",
		Rule:  "under the race detector: 2 to 8 goroutines, each with a random history on a folder of its own in one of four packages and on files that all of them read, run first one after the other and then at once, on equal copies of the disk implementation, of stacks of in-memory and disk layers, and through the package-level API. What each call answered - error class, bytes, positions, names, sizes, modes - has to be the same both times, as has the final state. Fresh processes whose first calls of all come from many goroutines at once have to get the right answers about packages that were never used before. A case counts by its answers.",
		Quick: 800, Thorough: 12000,
		MinObs: map[string]int{"concurrent calls": 50000, "calls that met": 500, "reads of shared files": 12000, "first uses": 3000, "failed calls": 12000},
		Setup:  setupMods,
		Run:    runC27,
	})
	children["c27"] = childC27
}

// alone is one goroutine's history: what was asked and answered.
type alone struct {
	p      pkging.Pkger
	r      *rand.Rand
	pkg    string
	own    string // folder
	names  []string
	shared Tree
	busy   *int32 // how many are inside a call
	met    int
	obs    map[string]int
	log    []string
	hs     []pkging.File
	seq    int
}

func (a *alone) at(n string) string {
	k := key{a.pkg, path.Join(a.own, n)}
	return spell(a.r, k, cur)
}

func (a *alone) enter() {
	pause(uint32(a.r.Int31()))
	if atomic.AddInt32(a.busy, 1) > 1 {
		a.met++
	}
	a.obs["concurrent calls"]++
}

func (a *alone) leave() { atomic.AddInt32(a.busy, -1) }

func (a *alone) say(err error, format string, args ...interface{}) {
	a.leave()
	if err != nil {
		a.obs["failed calls"]++
	}
	a.log = append(a.log, fmt.Sprintf(format, args...)+" = "+osClass(err))
}

func infoText(fi os.FileInfo) string {
	if fi == nil {
		return "no info"
	}
	if fi.IsDir() {
		return fmt.Sprintf("%s %v", fi.Name(), fi.Mode())
	}
	return fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), fi.Size())
}

func (a *alone) step() {
	r := a.r
	n := a.names[r.Intn(len(a.names))]
	p := a.at(n)
	a.enter()
	switch x := r.Intn(100); {
	case x < 14:
		f, err := a.p.Create(p)
		if err == nil {
			a.seq++
			data := strings.Repeat(fmt.Sprintf("<%s %d>", a.own, a.seq), 1+r.Intn(200))
			for len(data) > 0 {
				k := 1 + r.Intn(len(data))
				pause(uint32(r.Int31()))
				if m, err := f.Write([]byte(data[:k])); err != nil || m != k {
					a.log = append(a.log, fmt.Sprintf("write %d %v", m, err))
					break
				}
				data = data[k:]
			}
			if r.Intn(4) > 0 || len(a.hs) > 3 {
				err = f.Close()
			} else {
				a.hs = append(a.hs, f)
			}
		}
		a.say(err, "Create(%s)", p)
	case x < 22:
		a.say(a.p.MkdirAll(p, 0755), "MkdirAll(%s)", p)
	case x < 28:
		a.say(a.p.Remove(p), "Remove(%s)", p)
	case x < 31:
		a.say(a.p.RemoveAll(p), "RemoveAll(%s)", p)
	case x < 41:
		fi, err := a.p.Stat(p)
		s := ""
		if err == nil {
			s = infoText(fi)
		}
		a.say(err, "Stat(%s) %s", p, s)
	case x < 51:
		f, err := a.p.Open(p)
		s := ""
		if err == nil {
			fi, e := f.Stat()
			if e != nil {
				s = "stat " + osClass(e)
			} else if fi.IsDir() {
				s = a.list(f)
			} else {
				s, e = readAll(f)
				s += " " + osClass(e)
			}
			f.Close()
		}
		a.say(err, "Open(%s) %s", p, s)
	case x < 56:
		var out []string
		err := a.p.Walk(a.at("/"), func(name string, fi os.FileInfo, err error) error {
			out = append(out, name+" "+infoText(fi))
			pause(uint32(a.seq * 31))
			return err
		})
		a.say(err, "Walk %s", strings.Join(out, ","))
	case x < 60:
		f, err := a.p.Open(a.at("/"))
		s := ""
		if err == nil {
			g, e := f.Open(n)
			s = osClass(e)
			if e == nil {
				fi, e := g.Stat()
				s = fmt.Sprint(osClass(e))
				if e == nil {
					s += infoText(fi)
				}
				g.Close()
			}
			f.Close()
		}
		a.say(err, "Open(%s) relative %s", p, s)
	case x < 64:
		pt, err := a.p.Parse(p)
		a.say(err, "Parse(%s) %s", p, pt)
	case x < 68:
		i, err := a.p.Info(a.pkg)
		a.say(err, "Info(%s) %s %s %s", a.pkg, i.Dir, i.ImportPath, i.Module.Path)
	case x < 70:
		i, err := a.p.Current()
		a.say(err, "Current() %s %s", i.Dir, i.ImportPath)
	case x < 80 && len(a.hs) > 0:
		// go on with a handle
		i := r.Intn(len(a.hs))
		f := a.hs[i]
		switch r.Intn(4) {
		case 0:
			err := f.Close()
			a.hs = append(a.hs[:i], a.hs[i+1:]...)
			a.say(err, "Close %s", f.Name())
		case 1:
			off, err := f.Seek(int64(r.Intn(300)), r.Intn(2))
			a.say(err, "Seek %s %d", f.Name(), off)
		case 2:
			// the disk allows what memory does not: reading what is written
			fi, err := f.Stat()
			a.say(err, "Stat %s %v", f.Name(), fi != nil)
		default:
			a.say(nil, "path %s %s", f.Name(), f.Path())
		}
	default:
		a.sharedStep()
	}
}

// list reads the folder in batches.
func (a *alone) list(f pkging.File) string {
	n := []int{-1, 0, 1, 2, 3}[a.r.Intn(5)]
	var out []string
	for i := 0; i < 1000; i++ {
		infos, err := f.Readdir(n)
		for _, x := range infos {
			out = append(out, infoText(x))
		}
		if n <= 0 || err != nil {
			if err != nil && err != io.EOF {
				out = append(out, osClass(err))
			}
			break
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// sharedStep reads what everybody reads.
func (a *alone) sharedStep() {
	r := a.r
	all := a.shared.Paths()
	n := all[r.Intn(len(all))]
	p := spell(r, key{cur, n}, cur)
	a.obs["reads of shared files"]++
	if r.Intn(6) == 0 {
		fi, err := a.p.Stat(p)
		s := ""
		if err == nil {
			s = infoText(fi) + " " + fmt.Sprint(fi.ModTime().UnixNano())
		}
		a.say(err, "Stat(%s) %s", p, s)
		return
	}
	if r.Intn(6) == 0 {
		var out []string
		err := a.p.Walk("/shared", func(name string, fi os.FileInfo, err error) error {
			out = append(out, name+" "+infoText(fi))
			return err
		})
		a.say(err, "Walk /shared %s", strings.Join(out, ","))
		return
	}
	f, err := a.p.Open(p)
	if err != nil {
		a.say(err, "Open(%s)", p)
		return
	}
	defer f.Close()
	if a.shared[n].Dir {
		s := a.list(f)
		a.say(nil, "Open(%s) %s", p, s)
		return
	}
	var out strings.Builder
	buf := make([]byte, 1+r.Intn(3000))
	for i := 0; i < 40; i++ {
		pause(uint32(r.Int31()))
		if r.Intn(10) == 0 {
			off, err := f.Seek(int64(r.Intn(5000)), io.SeekStart)
			fmt.Fprintf(&out, "@%d%s ", off, osClass(err))
		}
		k, err := f.Read(buf)
		fmt.Fprintf(&out, "%x ", hashOf(buf[:k]))
		if err != nil {
			fmt.Fprintf(&out, "%s", osClass(err))
			break
		}
	}
	a.say(nil, "Open(%s) %s", p, out.String())
}

func hashOf(b []byte) uint32 {
	h := uint32(2166136261)
	for _, x := range b {
		h = (h ^ uint32(x)) * 16777619
	}
	return h + uint32(len(b))
}

func (a *alone) run(n int) {
	a.enter()
	a.say(a.p.MkdirAll(a.at("/"), 0755), "MkdirAll(%s)", a.own)
	for i := 0; i < n; i++ {
		a.step()
	}
	for _, f := range a.hs {
		a.enter()
		a.say(f.Close(), "Close %s", f.Name())
	}
	a.hs = nil
}

func runC27(c *C) {
	if c.Idx%8 == 0 {
		firstUses(c)
		return
	}
	r := c.R
	shared := Tree{"/shared": {Dir: true, Mode: 0755, MTime: genMTime(r)}}
	for i := 2 + r.Intn(5); i > 0; i-- {
		d := "/shared"
		if r.Intn(2) == 0 {
			d = "/shared/" + fmt.Sprint("d", r.Intn(3))
			shared[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
		}
		shared[d+"/"+fmt.Sprint("f", r.Intn(4))] = &Node{Data: genData(r, false), Mode: 0644, MTime: genMTime(r)}
	}
	trees := map[string]Tree{cur: shared}
	kind := []string{"disk", "disk", "disk api", "mem over disk", "mem over mem", "mem over disk api", "disk over mem"}[r.Intn(7)]
	embeddedTree := Tree{"/": {Dir: true, Mode: 0755, MTime: genMTime(r)}}
	if r.Intn(2) == 0 {
		for _, k := range shared.Paths() {
			embeddedTree[k] = shared[k]
		}
	}
	newMem := func() pkging.Pkger {
		p, _ := memFS(c.Mods.Main, c.Mods.Pkgs, map[string]Tree{cur: embeddedTree})
		return p
	}
	mk := func() pkging.Pkger {
		c.Mods.reset(trees)
		shared.stamp(c.Mods.Dirs[cur])
		switch kind {
		case "mem over disk":
			return pkging.Wrap(c.Mods.disk(c), newMem())
		case "disk over mem":
			return pkging.Wrap(newMem(), c.Mods.disk(c))
		case "mem over mem":
			return pkging.Wrap(newMem(), newMem())
		case "disk api":
			install(c.Mods.disk(c))
			return api{}
		case "mem over disk api":
			install(pkging.Wrap(c.Mods.disk(c), newMem()))
			return api{}
		}
		return c.Mods.disk(c)
	}
	G := 2 + r.Intn(7)
	n := 10 + r.Intn(30)
	type part struct {
		seed     int64
		pkg, own string
		names    []string
	}
	var parts []part
	pkgs := c.Mods.Pkgs
	for g := 0; g < G; g++ {
		x := part{seed: r.Int63(), pkg: pkgs[r.Intn(len(pkgs))], own: fmt.Sprintf("/g%d", g)}
		if r.Intn(3) == 0 {
			// names that share beginnings, and deeper ones
			x.own = "/" + strings.Repeat("g", g+1)
			if r.Intn(2) == 0 {
				x.own = fmt.Sprintf("/deep/er%d", g)
			}
		}
		x.names = []string{"/a", "/a/b", "/a/b/c", "/ab", "/d", "/d/e", "/"}[r.Intn(3):]
		parts = append(parts, x)
		c.Logf("%s: goroutine %d on %s:%s", kind, g, x.pkg, x.own)
	}
	newAlone := func(p pkging.Pkger, x part, busy *int32) *alone {
		return &alone{p: p, r: rand.New(rand.NewSource(x.seed)), pkg: x.pkg, own: x.own, names: x.names, shared: shared, busy: busy, obs: map[string]int{}}
	}

	// one after the other
	p := mk()
	var want [][]string
	for _, x := range parts {
		var busy int32
		a := newAlone(p, x, &busy)
		a.run(n)
		want = append(want, a.log)
	}
	rest := func(p pkging.Pkger) string {
		var out []string
		for _, pkg := range pkgs {
			err := p.Walk(pkg+":/", func(name string, fi os.FileInfo, err error) error {
				out = append(out, name+" "+infoText(fi))
				return err
			})
			out = append(out, osClass(err))
		}
		return strings.Join(out, "\n")
	}
	wantRest := rest(p)
	wantDisk := c.Mods.snap()

	// at once
	p = mk()
	var busy int32
	var as []*alone
	var wg sync.WaitGroup
	start := make(chan struct{})
	crash := make([]string, G)
	for g, x := range parts {
		a := newAlone(p, x, &busy)
		as = append(as, a)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					crash[g] = fmt.Sprint(e, "\n", string(debug.Stack()))
				}
			}()
			<-start
			a.run(n)
		}(g)
	}
	close(start)
	wg.Wait()
	for g, s := range crash {
		if s != "" {
			if !fromPkger(s) {
				panic(harnessError{fmt.Errorf("%s", s)})
			}
			c.Fail("panic", "goroutine %d: %s", g, cut(s))
		}
	}
	for g, a := range as {
		for i, w := range want[g] {
			if i >= len(a.log) || a.log[i] != w {
				got := "nothing"
				if i < len(a.log) {
					got = a.log[i]
				}
				c.Fail("disturbed", "%s, goroutine %d of %d, call %d: alone it is\n%s\nbut with the others\n%s", kind, g, G, i, cut(w), cut(got))
			}
		}
		for k, v := range a.obs {
			c.Obs(k, v)
		}
		c.Obs("calls that met", a.met)
	}
	if got := rest(p); got != wantRest {
		c.Fail("state", "%s: in the end there is\n%s\nbut one after the other\n%s", kind, cut(got), cut(wantRest))
	}
	got := c.Mods.snap()
	for k, e := range got {
		e.MTime = wantDisk[k].MTime
		if e.Dir {
			e.Size = wantDisk[k].Size
		}
		got[k] = e
	}
	if d := wantDisk.diff(got); d != "" {
		c.Fail("disk", "%s: on the disk, in the end: %s", kind, d)
	}
	c.Obs("kind "+kind, 1)
	c.Distinct(kind, want)
	c.Sample("%s, %d goroutines, %d calls each: %s", kind, G, n, strings.Join(want[0][:3], " | "))
}

// first uses: processes of their own, where nothing is known yet

type firstIn struct {
	Seed  int64
	Pkgs  []string
	Dirs  map[string]string
	Files map[string]string // canonical path -> contents
}

func firstUses(c *C) {
	r := c.R
	trees := map[string]Tree{}
	in := firstIn{Seed: r.Int63(), Pkgs: c.Mods.Pkgs, Dirs: c.Mods.Dirs, Files: map[string]string{}}
	for _, pkg := range c.Mods.Pkgs {
		t := Tree{"/d": {Dir: true, Mode: 0755, MTime: genMTime(r)}}
		for i := 0; i < 3; i++ {
			n := []string{"/f", "/d/g", "/d/h"}[i]
			t[n] = &Node{Data: []byte(fmt.Sprintf("%s in %s %d", n, pkg, r.Int())), Mode: 0644, MTime: genMTime(r)}
			in.Files[pkg+":"+n] = string(t[n].Data)
		}
		trees[pkg] = t
	}
	c.Mods.reset(trees)
	b, err := json.Marshal(in)
	must(err)
	exe, err := os.Executable()
	must(err)
	so, se, code, err := runCmd(c.Mods.Dirs[cur], nil, exe, "-child", "c27", string(b))
	must(err)
	var res childRes
	if code != 0 && code != 3 || json.Unmarshal([]byte(so), &res) != nil {
		if strings.Contains(se, "github.com/markbates/pkger") && strings.Contains(se, "goroutine ") {
			c.Fail("crash", "a process that uses the disk from many goroutines died: %s", trimStack([]byte(se)))
		}
		c.Inconclusive("child: %d %s %s", code, so, se)
	}
	if res.Msg != "" {
		c.Fail(res.Class, "%s", res.Msg)
	}
	for k, n := range res.Obs {
		c.Obs(k, n)
	}
	c.Obs("fresh processes", 1)
	c.Distinct(res.Sig)
}

func childC27(args []string) error {
	var in firstIn
	if err := json.Unmarshal([]byte(args[0]), &in); err != nil {
		return err
	}
	go func() {
		time.Sleep(100 * time.Second)
		panic("github.com/markbates/pkger does not return")
	}()
	r := rand.New(rand.NewSource(in.Seed))
	var names []string
	for k := range in.Files {
		names = append(names, k)
	}
	sort.Strings(names)
	G := 4 + r.Intn(9)
	var mu sync.Mutex
	res := childRes{Obs: map[string]int{}}
	bad := func(class, format string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if res.Msg == "" {
			res.Class, res.Msg = class, fmt.Sprintf(format, a...)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var sig []string
	for g := 0; g < G; g++ {
		r := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		var plan []int
		var what []string
		for i := 0; i < 8; i++ {
			plan = append(plan, r.Intn(9))
			what = append(what, names[r.Intn(len(names))])
		}
		sig = append(sig, fmt.Sprint(plan, what))
		go func(g int) {
			defer wg.Done()
			<-start
			for i, x := range plan {
				n := what[i]
				pkg, name := splitPath(n)
				want := in.Files[n]
				switch x {
				case 0, 1:
					inf, err := pkger.Info(pkg)
					if err != nil || inf.Dir != in.Dirs[pkg] || inf.ImportPath != pkg {
						bad("first-info", "Info(%s) = %s %s, %v; want %s", pkg, inf.ImportPath, inf.Dir, err, in.Dirs[pkg])
					}
				case 2:
					var got []string
					err := pkger.Walk(pkg+":/d", func(n string, fi os.FileInfo, err error) error {
						got = append(got, n)
						return err
					})
					if w := fmt.Sprint([]string{pkg + ":/d", pkg + ":/d/g", pkg + ":/d/h"}); err != nil || fmt.Sprint(got) != w {
						bad("first-walk", "Walk(%s:/d) = %v, %v", pkg, got, err)
					}
				case 3:
					fi, err := pkger.Stat(n)
					if err != nil || fi.Name() != path.Base(name) || fi.Size() != int64(len(want)) {
						bad("first-stat", "Stat(%s) = %v, %v", n, fi, err)
					}
				case 4:
					i, err := pkger.Current()
					if err != nil || i.Dir != in.Dirs[cur] {
						bad("first-current", "Current() = %v, %v", i, err)
					}
				case 5:
					pt, err := pkger.Parse(n)
					if err != nil || pt != (here.Path{Pkg: pkg, Name: name}) {
						bad("first-parse", "Parse(%s) = %v, %v", n, pt, err)
					}
				case 6:
					f, err := pkger.Dir(pkg + ":/").Open(name)
					if err != nil {
						bad("first-dir", "Dir(%s:/).Open(%s): %v", pkg, name, err)
						break
					}
					s, err := readAll(f)
					f.Close()
					if err != nil || s != want {
						bad("first-dir", "Dir(%s:/).Open(%s) reads %q, %v; want %q", pkg, name, s, err, want)
					}
				case 7:
					if _, err := pkger.Stat("no.such/package" + fmt.Sprint(g) + ":/f"); err == nil {
						bad("first-unknown", "Stat in an unknown package works")
					}
				default:
					f, err := pkger.Open(n)
					if err != nil {
						bad("first-open", "Open(%s): %v", n, err)
						break
					}
					s, err := readAll(f)
					if err != nil || s != want || f.Info().Dir != in.Dirs[pkg] || f.Name() != n {
						bad("first-open", "Open(%s) is %s of %s and reads %q, %v; want %q", n, f.Name(), f.Info().Dir, s, err, want)
					}
					f.Close()
				}
				mu.Lock()
				res.Obs["first uses"]++
				mu.Unlock()
			}
		}(g)
	}
	close(start)
	wg.Wait()
	res.Sig = strings.Join(sig, "|")
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	fmt.Println(string(b))
	return nil
}
