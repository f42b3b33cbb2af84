package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() {
	register(&Check{
		ID: "C28", Level: "exploration",
		Rule:  "in-memory file systems after random histories, rehydrated ones, modules on the disk and layers of these are dumped: the document is decoded and compared with type, description and entries that independent walks of the same file system, and the model or the disk, have; before and after, everything observable is the same. Writers that fail at every kind of position, file systems that cannot describe or walk themselves (scripted layers) have to make Dump fail. A case counts by its entries.",
		Quick: 1600, Thorough: 30000,
		MinObs: map[string]int{"dumps": 1200, "entries": 12000, "failing writers": 1500, "failing file systems": 500, "kind mem": 250, "kind rehydrated": 150, "kind disk": 100, "kind layers": 200},
		Setup:  setupMods,
		Run:    runC28,
	})
}

// shortWriter fails after n bytes.
type shortWriter struct {
	n   int
	err error
}

func (w *shortWriter) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return len(b), nil
	}
	n := w.n
	w.n = 0
	return n, w.err
}

type dumped struct {
	Type  string
	Info  here.Info
	Paths map[string]*pkging.FileInfo
}

func runC28(c *C) {
	r := c.R
	if c.Idx%4 == 3 {
		brokenDumps(c)
		return
	}
	var p pkging.Pkger
	var want Snap // what there has to be in the current package, if that is known
	var typ, kind string
	memory := func() (*mem.Pkger, *model) {
		h := newHist(c, r.Intn(2) == 0, 1+r.Intn(3))
		h.snaps = false
		for i := r.Intn(40); i > 0; i-- {
			h.step()
		}
		h.end()
		return h.p, h.m
	}
	onDisk := false
	disk := func() pkging.Pkger {
		onDisk = true
		trees := map[string]Tree{}
		for _, pkg := range c.Mods.Pkgs {
			trees[pkg] = genTree(r, TreeOpts{N: 2 + r.Intn(14)})
		}
		c.Mods.reset(trees)
		return c.Mods.disk(c)
	}
	var md *model
	switch r.Intn(6) {
	case 0, 1:
		kind, typ = "mem", "*mem.Pkger"
		p, md = memory()
	case 2:
		kind, typ = "rehydrated", "*mem.Pkger"
		var q *mem.Pkger
		q, md = memory()
		b, err := json.Marshal(q)
		if err != nil {
			c.Fail("marshal", "%v", err)
		}
		n := &mem.Pkger{}
		if err := json.Unmarshal(b, n); err != nil {
			c.Fail("unmarshal", "%v", err)
		}
		p = n
	case 3:
		kind, typ = "disk", "*stdos.Pkger"
		p = disk()
		want = c.Mods.modSnap(cur)
	default:
		kind, typ = "layers", "pkging.withPkger"
		// trees of the same place
		a, _ := memFS(c.Mods.Main, c.Mods.Pkgs, map[string]Tree{cur: genTree(r, TreeOpts{N: 10}), otherPkgs[0]: genTree(r, TreeOpts{N: 5})})
		if r.Intn(2) == 0 {
			p = pkging.Wrap(disk(), a)
		} else {
			b, _ := memFS(c.Mods.Main, c.Mods.Pkgs, map[string]Tree{cur: genTree(r, TreeOpts{N: 10})})
			p = pkging.Wrap(a, b)
		}
	}
	c.Obs("kind "+kind, 1)
	look := func() map[string]Entry {
		m := map[string]Entry{}
		if err := p.Walk("/", func(n string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			m[n] = infoEntry(fi)
			return nil
		}); err != nil {
			c.Fail("walk", "Walk: %v", err)
		}
		return m
	}
	before := look()
	cu, err := p.Current()
	if err != nil {
		c.Fail("current", "Current: %v", err)
	}
	var out bytes.Buffer
	if err := pkgutil.Dump(&out, p); err != nil {
		c.Fail("dump", "Dump: %v", err)
	}
	c.Obs("dumps", 1)
	var d dumped
	dec := json.NewDecoder(bytes.NewReader(out.Bytes()))
	if err := dec.Decode(&d); err != nil {
		c.Fail("json", "what Dump wrote does not decode: %v\n%s", err, cut(out.String()))
	}
	if dec.More() {
		c.Fail("json", "Dump writes more than one document:\n%s", cut(out.String()))
	}
	if d.Type != typ {
		c.Fail("type", "Dump says %s, it is a %s", d.Type, typ)
	}
	if d.Info.String() != cu.String() {
		c.Fail("info", "Dump says\n%s\nbut it is\n%s", d.Info, cu)
	}
	if len(before) != len(d.Paths) {
		c.Logf("%v", d.Paths)
	}
	got := Snap{}
	for n, fi := range d.Paths {
		if fi == nil {
			c.Fail("entry", "Dump has no info for %s", n)
		}
		got[n] = infoEntry(fi)
	}
	if d := Snap(before).diff(got); d != "" {
		c.Fail("entries", "what Dump wrote is not what Walk shows: %s", d)
	}
	if want != nil {
		for k, e := range want {
			e.Data, e.Kids = "", nil
			want[k] = e
		}
		if d := want.diff(got); d != "" {
			c.Fail("entries-disk", "what Dump wrote is not what the disk has: %s", d)
		}
	}
	if md != nil {
		n := 0
		for _, k := range md.keys() {
			if k.pkg != cur {
				continue
			}
			n++
			e, ok := got[k.String()]
			if !ok || e.Dir != md.m[k].dir {
				c.Fail("entries-model", "Dump has %v for %s (%v)", e, k, ok)
			}
		}
		if n != len(got) {
			c.Fail("entries-model", "Dump has %d entries, there are %d", len(got), n)
		}
	}
	c.Obs("entries", len(got))
	if d := Snap(before).diff(Snap(look())); d != "" {
		c.Fail("changed", "after Dump: %s", d)
	}
	var again bytes.Buffer
	if err := pkgutil.Dump(&again, p); err != nil || !onDisk && again.String() != out.String() {
		c.Fail("repeat", "the second Dump differs (%v):\n%s\nthe first was\n%s", err, cut(again.String()), cut(out.String()))
	}
	oops := oddError(c, 0)
	for i := 0; i < 3; i++ {
		n := []int{0, r.Intn(out.Len()), out.Len() - 1}[i]
		if onDisk {
			// times of access, which are in there, change
			n /= 2
		}
		if err := pkgutil.Dump(&shortWriter{n, oops}, p); !errors.Is(err, oops) {
			c.Fail("writer", "the writer fails after %d of %d bytes, Dump says %v", n, out.Len(), err)
		}
		c.Obs("failing writers", 1)
	}
	c.Distinct(kind, out.String())
	c.Sample("%s: %d entries, %d bytes", kind, len(got), out.Len())
}

// halfPkger fails to tell what it is or what it has.
type halfPkger struct {
	*script
	current error
	walk    error
	stop    int
	asErr   bool // Walk hands the error to its function
}

func (h *halfPkger) Current() (here.Info, error) {
	if h.current != nil {
		return here.Info{}, h.current
	}
	return here.Info{Dir: "/src/half"}, nil
}

func (h *halfPkger) Walk(p string, wf filepath.WalkFunc) error {
	for i, n := range h.names {
		if i == h.stop && h.walk != nil {
			if h.asErr {
				return wf(n, nil, h.walk)
			}
			return h.walk
		}
		if err := wf(n, rawInfo{name: n}, nil); err != nil {
			return err
		}
	}
	return h.walk
}

func brokenDumps(c *C) {
	r := c.R
	for i := 0; i < 6; i++ {
		oops := oddError(c, i)
		var calls []string
		h := &halfPkger{script: &script{calls: &calls}}
		for j := r.Intn(6); j > 0; j-- {
			h.names = append(h.names, fmt.Sprintf("m.test:/%d", j))
		}
		if r.Intn(3) == 0 {
			h.current = oops
		} else {
			h.walk = oops
			h.stop = r.Intn(len(h.names) + 1)
			h.asErr = r.Intn(2) == 0 && h.stop < len(h.names)
		}
		var p pkging.Pkger = h
		if r.Intn(3) == 0 {
			p = pkging.Wrap(nil, p)
		}
		var out strings.Builder
		err := pkgutil.Dump(&out, p)
		if !errors.Is(err, oops) {
			c.Fail("silent", "Dump of a file system that cannot be described (current %v, walk %v at %d of %d) says %v and writes %s", h.current, h.walk, h.stop, len(h.names), err, cut(out.String()))
		}
		c.Obs("failing file systems", 1)
		c.Distinct("broken", len(h.names), h.stop, h.asErr, h.current != nil)
	}
}
