package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C15", Level: "exploration",
		Rule:  "under the race detector, with yields injected between calls: (a) short histories of 2 to 6 goroutines over nested paths of new and embedded file systems, from the very first use on, recorded with their times and checked for linearizability against a hierarchical file system (porcupine), the final state read back as part of the history; (b) long histories of up to 16 goroutines whose reads are checked to be complete versions between the last one closed before the read and the last one created during it; (c) every operation of the interface at once, also serialising, adding, listing and HTTP style access. Every path has at most one writer at a time. A case counts by its recorded history.",
		Quick: 1600, Thorough: 24000,
		MinObs: map[string]int{"linearized operations": 500000, "histories with overlap": 1000, "overlapping pairs": 2000, "duels that met": 500, "towers that met": 100, "versioned reads": 40000, "mixed operations": 30000, "first uses": 30000},
		Setup:  setupMods,
		Run:    runC15,
	})
}

func runC15(c *C) {
	switch c.Idx % 8 {
	case 3:
		towers(c)
	case 0, 1, 2:
		for i := 0; i < 3; i++ {
			linear(c)
		}
	case 4, 5:
		duels(c)
	case 6:
		versions(c)
	default:
		everything(c)
	}
}

const nPaths = 10

// paths and the index of their parents
var linPaths = [nPaths]string{"/", "/d", "/d/a", "/d/a/x", "/d/b", "/e", "/e/y", "/dx", "/d/a/x/z", "/e/y/q"}
var linParent = [nPaths]int{-1, 0, 1, 2, 1, 0, 5, 0, 3, 6}

type lent struct {
	kind byte // 0 nothing, 1 file, 2 directory
	inst int32
	ver  int32
}

type lstate [nPaths]lent

type lop struct {
	op   string
	p    int
	inst int32 // create, close
	ver  int32 // close: what is written, 0 nothing
}

type lres struct {
	class string
	kind  byte
	ver   int32
	size  int64
}

func under(p, root int) bool {
	for ; p >= 0; p = linParent[p] {
		if p == root {
			return true
		}
	}
	return false
}

func verSize(v int32) int64 {
	if v == 0 {
		return 0
	}
	return int64(8 + (v*37)%5000)
}

func verData(v int32) []byte {
	b := make([]byte, verSize(v))
	for i := range b {
		b[i] = byte(int(v)*7 + i%251)
	}
	copy(b, fmt.Sprintf("%07d:", v))
	return b
}

// step is the sequential specification.
func (s lstate) step(o lop) (lstate, lres) {
	ok := lres{class: "ok"}
	switch o.op {
	case "create":
		if o.p == 0 || s[o.p].kind == 2 {
			return s, lres{class: "error"}
		}
		par := linParent[o.p]
		if par == 0 && s[0].kind == 0 {
			s[0] = lent{kind: 2}
		}
		switch s[par].kind {
		case 0:
			return s, lres{class: "notexist"}
		case 1:
			return s, lres{class: "error"}
		}
		s[o.p] = lent{kind: 1, inst: o.inst}
		return s, ok
	case "close":
		if o.ver != 0 && s[o.p].kind == 1 && s[o.p].inst == o.inst {
			s[o.p].ver = o.ver
		}
		return s, ok
	case "mkdirall":
		var chain []int
		for p := o.p; p >= 0; p = linParent[p] {
			chain = append(chain, p)
			if s[p].kind != 0 {
				break
			}
		}
		if s[chain[len(chain)-1]].kind == 1 {
			return s, lres{class: "error"}
		}
		for _, p := range chain {
			s[p].kind = 2
			s[p].inst, s[p].ver = 0, 0
		}
		return s, ok
	case "remove":
		if s[o.p].kind == 0 {
			return s, lres{class: "notexist"}
		}
		for p := range s {
			if p != o.p && s[p].kind != 0 && under(p, o.p) {
				return s, lres{class: "error"}
			}
		}
		s[o.p] = lent{}
		return s, ok
	case "removeall":
		for p := range s {
			if under(p, o.p) {
				s[p] = lent{}
			}
		}
		return s, ok
	case "open":
		if s[o.p].kind == 0 {
			return s, lres{class: "notexist"}
		}
		return s, lres{class: "ok", kind: s[o.p].kind, ver: s[o.p].ver}
	case "stat":
		if s[o.p].kind == 0 {
			return s, lres{class: "notexist"}
		}
		return s, lres{class: "ok", kind: s[o.p].kind, size: verSize(s[o.p].ver)}
	}
	panic(o.op)
}

func linModel(init lstate) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			n, want := st.(lstate).step(in.(lop))
			return want == out.(lres), n
		},
		Equal: func(a, b interface{}) bool { return a.(lstate) == b.(lstate) },
		DescribeOperation: func(in, out interface{}) string {
			return fmt.Sprintf("%v -> %v", in, out)
		},
	}
}

// pause lets others run, or not.
func pause(x uint32) {
	switch x % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := uint32(0); i < x%500; i++ {
			atomic.AddUint32(&spin, 0)
		}
	case 3:
		if x%64 == 3 {
			time.Sleep(time.Microsecond)
		}
	}
}

var spin uint32

func kindOf(isDir bool) byte {
	if isDir {
		return 2
	}
	return 1
}

func linear(c *C) {
	r := c.R
	var p *mem.Pkger
	var init lstate
	pkg := cur
	main := mainInfo("/src/app", cur)
	if r.Intn(2) == 0 {
		var err error
		p, err = mem.New(main)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
	} else {
		if r.Intn(3) == 0 {
			pkg = otherPkgs[0]
		}
		t := Tree{}
		for i := 0; i < nPaths; i++ {
			par := linParent[i]
			if par >= 0 && init[par].kind != 2 || r.Intn(3) == 0 && i > 0 {
				continue
			}
			if i == 0 || r.Intn(2) == 0 {
				init[i] = lent{kind: 2}
				t[linPaths[i]] = &Node{Dir: true, Mode: 0755, MTime: time.Unix(1, 0)}
			} else {
				v := int32(1 + i)
				init[i] = lent{kind: 1, inst: -v, ver: v}
				t[linPaths[i]] = &Node{Data: verData(v), Mode: 0644, MTime: time.Unix(1, 0)}
			}
		}
		p, _ = memFS(main, []string{cur, otherPkgs[0]}, map[string]Tree{pkg: t})
	}
	// fewer paths, more conflicts
	var used []int
	for len(used) < 2 {
		used = used[:0]
		for i := 0; i < nPaths; i++ {
			if r.Intn(2) == 0 {
				used = append(used, i)
			}
		}
	}
	G := 2 + r.Intn(5)
	per := 3 + r.Intn(5)
	if G > 4 {
		per = 3
	}
	reads := r.Intn(3) // bias
	plan := make([][]lop, G)
	owner := map[int]int{}
	for _, x := range used {
		owner[x] = r.Intn(G)
	}
	waits := make([][]uint32, G)
	pfx := pkg + ":"
	if pkg == cur && r.Intn(2) == 0 {
		pfx = ""
	}
	next := int32(100)
	for g := range plan {
		held := map[int]int32{}
		for len(plan[g]) < per {
			x := used[r.Intn(len(used))]
			k := r.Intn(10)
			if reads == 0 && k > 6 {
				k = r.Intn(7)
			}
			var o lop
			switch {
			case k < 3 && owner[x] == g && x != 0:
				if _, ok := held[x]; !ok {
					next++
					o = lop{op: "create", p: x, inst: next}
					held[x] = next
					break
				}
				fallthrough
			case k < 4 && len(held) > 0:
				var hs []int
				for h := range held {
					hs = append(hs, h)
				}
				sort.Ints(hs)
				h := hs[r.Intn(len(hs))]
				next++
				o = lop{op: "close", p: h, inst: held[h], ver: next}
				if r.Intn(6) == 0 {
					o.ver = 0
				}
				delete(held, h)
			case k < 5:
				o = lop{op: "mkdirall", p: x}
			case k == 5:
				o = lop{op: "remove", p: x}
			case k == 6:
				o = lop{op: "removeall", p: x}
			case k == 7:
				o = lop{op: "stat", p: x}
			default:
				o = lop{op: "open", p: x}
			}
			plan[g] = append(plan[g], o)
			waits[g] = append(waits[g], r.Uint32())
		}
	}
	ops, overlap := execLin(c, p, init, nil, plan, waits, pkg, pfx)
	c.Distinct(fmt.Sprint(order(ops)))
	c.Sample("%d goroutines, %d overlapping pairs: %s", G, overlap, order(ops))
}

// duels sets two or three calls against each other, many times.
func duels(c *C) {
	r := c.R
	main := mainInfo("/src/app", cur)
	var sigs strings.Builder
	for round := 0; round < 120; round++ {
		G := 2 + r.Intn(5)/4
		var init lstate
		p, err := mem.New(main)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
		for i := 0; i < nPaths; i++ {
			par := linParent[i]
			if par >= 0 && init[par].kind != 2 || r.Intn(4) == 0 {
				continue
			}
			if i == 0 || r.Intn(3) > 0 {
				init[i] = lent{kind: 2}
				must(p.MkdirAll(linPaths[i], 0755))
			} else {
				v := int32(1 + i)
				init[i] = lent{kind: 1, inst: -v, ver: v}
				f, err := p.Create(linPaths[i])
				must(err)
				f.Write(verData(v))
				must(f.Close())
			}
		}
		var pre, plan [][]lop
		var waits [][]uint32
		x := r.Intn(nPaths)
		next := int32(100)
		st := init
		for g := 0; g < G; g++ {
			// the same path, or one above or below it
			y := x
			for k := r.Intn(3); k > 0 && linParent[y] >= 0; k-- {
				y = linParent[y]
			}
			if r.Intn(3) == 0 {
				for i := range linPaths {
					if linParent[i] == x && r.Intn(2) == 0 {
						y = i
					}
				}
			}
			if g == 0 {
				y = x
			}
			var before, ops []lop
			next += 2
			o := lop{op: []string{"mkdirall", "remove", "removeall", "mkdirall", "removeall", "stat", "open"}[r.Intn(7)], p: y}
			if g == 0 && y != 0 && r.Intn(3) > 0 {
				o = lop{op: "create", p: y, inst: next}
				if r.Intn(3) > 0 {
					// if that works, its Close is what matters
					if n, res := st.step(o); res.class == "ok" {
						st = n
						before = append(before, o)
						o = lop{op: "close", p: y, inst: next, ver: next + 1}
					}
				}
			}
			ops = append(ops, o)
			if r.Intn(3) == 0 {
				ops = append(ops, lop{op: []string{"open", "stat", "mkdirall", "remove"}[r.Intn(4)], p: y})
			}
			pre = append(pre, before)
			plan = append(plan, ops)
			waits = append(waits, []uint32{r.Uint32() | 4, r.Uint32() | 4})
		}
		ops, overlap := execLin(c, p, init, pre, plan, waits, cur, "")
		if overlap > 0 {
			c.Obs("duels that met", 1)
		}
		fmt.Fprint(&sigs, order(ops))
	}
	c.Distinct(sigs.String())
}

// towers sets readers against calls that change many entries.
func towers(c *C) {
	r := c.R
	main := mainInfo("/src/app", cur)
	var sigs strings.Builder
	tower := []int{0, 1, 2, 3, 8}
	for round := 0; round < 40; round++ {
		var init lstate
		p, err := mem.New(main)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
		full := r.Intn(2) == 0
		top := r.Intn(3)
		if full {
			must(p.MkdirAll(linPaths[8], 0755))
			for _, i := range tower {
				init[i] = lent{kind: 2}
			}
		} else if top > 0 {
			must(p.MkdirAll(linPaths[tower[top-1]], 0755))
			for _, i := range tower[:top] {
				init[i] = lent{kind: 2}
			}
		}
		G := 2 + r.Intn(3)
		plan := make([][]lop, G)
		waits := make([][]uint32, G)
		up := lop{op: "mkdirall", p: 8}
		down := lop{op: "removeall", p: tower[top]}
		for i := 1 + r.Intn(3); i > 0; i-- {
			if full {
				plan[0] = append(plan[0], down)
			} else {
				plan[0] = append(plan[0], up)
			}
			full = !full
		}
		for g := 1; g < G; g++ {
			a, b := tower[r.Intn(5)], tower[r.Intn(5)]
			for i := 2 + r.Intn(5); i > 0; i-- {
				plan[g] = append(plan[g], lop{op: []string{"open", "stat"}[r.Intn(2)], p: a})
				a, b = b, a
			}
		}
		for g := range plan {
			for range plan[g] {
				waits[g] = append(waits[g], 4) // none
			}
		}
		ops, overlap := execLin(c, p, init, nil, plan, waits, cur, "")
		if overlap > 0 {
			c.Obs("towers that met", 1)
		}
		fmt.Fprint(&sigs, order(ops))
	}
	c.Distinct(sigs.String())
}

// execLin runs the plans together and checks what they recorded.
func execLin(c *C, p *mem.Pkger, init lstate, pre, plan [][]lop, waits [][]uint32, pkg, pfx string) ([]porcupine.Operation, int) {
	G := len(plan)
	hist := make([][]porcupine.Operation, G)
	bad := make([]string, G)
	var ready, start, wg sync.WaitGroup
	start.Add(1)
	base := time.Now()
	c.Obs("first uses", 1)
	for g := 0; g < G; g++ {
		g := g
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			files := map[int]*whandle{}
			do := func(o lop, wait uint32) bool {
				call := time.Since(base).Nanoseconds()
				res, msg := linOp(p, o, pfx+linPaths[o.p], files, wait)
				ret := time.Since(base).Nanoseconds()
				if msg != "" {
					bad[g] = msg
					return false
				}
				if res.class != "none" {
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: o, Output: res, Call: call, Return: ret})
				}
				return true
			}
			hist[g] = make([]porcupine.Operation, 0, 16)
			if pre != nil {
				for _, o := range pre[g] {
					do(o, 7)
				}
			}
			ready.Done()
			start.Wait()
			for i, o := range plan[g] {
				pause(waits[g][i])
				if !do(o, waits[g][i]) {
					return
				}
			}
		}()
	}
	ready.Wait()
	start.Done()
	wg.Wait()
	var ops []porcupine.Operation
	for g := range hist {
		ops = append(ops, hist[g]...)
		if bad[g] != "" {
			describe(c, ops)
			c.Fail("answer", "%s", bad[g])
		}
	}
	overlap := 0
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].ClientId != ops[j].ClientId && ops[i].Call <= ops[j].Return && ops[j].Call <= ops[i].Return {
				overlap++
			}
		}
	}
	// what is there in the end
	for _, o := range []string{"open", "stat"} {
		for i := 0; i < nPaths; i++ {
			op := lop{op: o, p: i}
			call := time.Since(base).Nanoseconds()
			res, msg := linOp(p, op, pfx+linPaths[i], nil, 7)
			if msg != "" {
				describe(c, ops)
				c.Fail("answer", "in the end: %s", msg)
			}
			ops = append(ops, porcupine.Operation{ClientId: G, Input: op, Output: res, Call: call, Return: time.Since(base).Nanoseconds()})
		}
	}
	c.Obs("linearized operations", len(ops))
	c.Obs("overlapping pairs", overlap)
	if overlap > 0 {
		c.Obs("histories with overlap", 1)
	}
	switch porcupine.CheckOperationsTimeout(linModel(init), ops, 20*time.Second) {
	case porcupine.Illegal:
		describe(c, ops)
		c.Fail("not linearizable", "no order of the %d operations explains their results", len(ops))
	case porcupine.Unknown:
		c.Obs("undecided histories", 1)
	}
	// listings agree with what is there
	s, err := fsSnap(p, pkg+":/")
	if err != nil {
		describe(c, ops)
		c.Fail("consistency", "in the end: %v", err)
	}
	for _, o := range ops[len(ops)-nPaths:] {
		in, out := o.Input.(lop), o.Output.(lres)
		_, ok := s[pkg+":"+linPaths[in.p]]
		if ok != (out.class == "ok") && s[pkg+":/"].Name != "" {
			c.Fail("consistency", "in the end %s is %v, but walked: %v", linPaths[in.p], out, ok)
		}
	}
	return ops, overlap
}

func order(ops []porcupine.Operation) string {
	o := append([]porcupine.Operation{}, ops...)
	sort.SliceStable(o, func(a, b int) bool { return o[a].Call < o[b].Call })
	var sb strings.Builder
	for _, x := range o {
		in := x.Input.(lop)
		fmt.Fprintf(&sb, "g%d %s(%s)=%s ", x.ClientId, in.op, linPaths[in.p], x.Output.(lres).class)
	}
	return sb.String()
}

func describe(c *C, ops []porcupine.Operation) {
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
	for _, x := range ops {
		in := x.Input.(lop)
		c.Logf("g%d [%d,%d] %s(%s) inst=%d ver=%d -> %+v", x.ClientId, x.Call, x.Return, in.op, linPaths[in.p], in.inst, in.ver, x.Output)
	}
}

// linOp makes the call and reports what it answered; the message tells of
// an answer that is wrong by itself.
func linOp(p *mem.Pkger, o lop, name string, files map[int]*whandle, x uint32) (lres, string) {
	switch o.op {
	case "create":
		f, err := p.Create(name)
		if err == nil {
			files[o.p] = &whandle{f: f}
		}
		return lres{class: errClass(err)}, ""
	case "close":
		h := files[o.p]
		if h == nil {
			return lres{class: "none"}, ""
		}
		delete(files, o.p)
		b := verData(o.ver)
		for len(b) > 0 {
			k := 1 + int(x)%len(b)
			n, err := h.f.Write(b[:k])
			if n != k || err != nil {
				return lres{}, fmt.Sprintf("Write of %d bytes to %s: %d, %v", k, name, n, err)
			}
			b = b[k:]
			pause(x)
		}
		return lres{class: errClass(h.f.Close())}, ""
	case "mkdirall":
		return lres{class: errClass(p.MkdirAll(name, 0755))}, ""
	case "remove":
		return lres{class: errClass(p.Remove(name))}, ""
	case "removeall":
		return lres{class: errClass(p.RemoveAll(name))}, ""
	case "stat":
		fi, err := p.Stat(name)
		if err != nil {
			return lres{class: errClass(err)}, ""
		}
		l := lres{class: "ok", kind: kindOf(fi.IsDir())}
		if !fi.IsDir() {
			l.size = fi.Size()
		}
		if o.p > 0 && fi.Name() != path.Base(name) {
			return l, fmt.Sprintf("Stat(%s) describes %q", name, fi.Name())
		}
		return l, ""
	case "open":
		f, err := p.Open(name)
		if err != nil {
			return lres{class: errClass(err)}, ""
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			return lres{}, fmt.Sprintf("Stat of the open %s: %v", name, err)
		}
		l := lres{class: "ok", kind: kindOf(fi.IsDir())}
		if fi.IsDir() {
			return l, ""
		}
		pause(x)
		b, err := io.ReadAll(f)
		if err != nil {
			return l, fmt.Sprintf("reading %s: %v", name, err)
		}
		if int64(len(b)) != fi.Size() {
			return l, fmt.Sprintf("%s: read %d bytes, but Stat of the same handle says %d", name, len(b), fi.Size())
		}
		if len(b) > 0 {
			var v int32
			if _, err := fmt.Sscanf(string(b[:min(8, len(b))]), "%07d:", &v); err != nil || !bytes.Equal(b, verData(v)) {
				return l, fmt.Sprintf("%s has contents that were never written: %s", name, short(string(b)))
			}
			l.ver = v
		}
		return l, ""
	}
	panic(o.op)
}

// versions has many goroutines rewrite and read a few files.
func versions(c *C) {
	r := c.R
	main := mainInfo("/src/app", cur)
	p, err := mem.New(main)
	if err != nil {
		c.Fail("new", "mem.New: %v", err)
	}
	must(p.MkdirAll("/v", 0755))
	nf := 1 + r.Intn(4)
	G := 4 + r.Intn(13)
	rounds := 20 + r.Intn(30)
	type stamp struct{ createCall, createRet, closeCall, closeRet int64 }
	type obs struct {
		ver       int32
		call, ret int64
		file      int
		size      bool
	}
	wlog := make([][]stamp, nf)
	reads := make([][]obs, G)
	bad := make([]string, G)
	base := time.Now()
	now := func() int64 { return time.Since(base).Nanoseconds() }
	size := func(v int32) int { return 8 + int(uint32(v)*2654435761>>8)%20000 }
	data := func(f int, v int32) []byte {
		b := bytes.Repeat([]byte{byte(v), byte(f), byte(v >> 8)}, size(v)/3+3)[:size(v)]
		copy(b, fmt.Sprintf("%07d:", v))
		return b
	}
	name := func(f int) string { return fmt.Sprintf("/v/f%d", f) }
	seeds := make([]uint32, G)
	for i := range seeds {
		seeds[i] = r.Uint32() | 1
	}
	for f := 0; f < nf; f++ {
		w, err := p.Create(name(f))
		must(err)
		w.Write(data(f, 0))
		must(w.Close())
	}
	sizes := map[int64]bool{0: true}
	for v := 0; v <= rounds; v++ {
		sizes[int64(size(int32(v)))] = true
	}
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := 0; g < G; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := seeds[g]
			rnd := func() uint32 {
				x ^= x << 13
				x ^= x >> 17
				x ^= x << 5
				return x
			}
			start.Wait()
			if g < nf {
				for v := int32(1); v <= int32(rounds); v++ {
					var s stamp
					s.createCall = now()
					w, err := p.Create(name(g))
					s.createRet = now()
					if err != nil {
						bad[g] = fmt.Sprintf("Create(%s): %v", name(g), err)
						return
					}
					b := data(g, v)
					for len(b) > 0 {
						k := 1 + int(rnd())%len(b)
						w.Write(b[:k])
						b = b[k:]
						pause(rnd())
					}
					s.closeCall = now()
					err = w.Close()
					s.closeRet = now()
					if err != nil {
						bad[g] = fmt.Sprintf("Close(%s): %v", name(g), err)
						return
					}
					wlog[g] = append(wlog[g], s)
					pause(rnd())
				}
				return
			}
			buf := make([]byte, 700)
			for i := 0; i < rounds*2; i++ {
				fi := int(rnd()) % nf
				if fi < 0 {
					fi = -fi
				}
				call := now()
				if rnd()%4 == 0 {
					st, err := p.Stat(name(fi))
					if err != nil || !sizes[st.Size()] {
						bad[g] = fmt.Sprintf("Stat(%s): %v, size of no version", name(fi), err)
						return
					}
					continue
				}
				h, err := p.Open(name(fi))
				ret := now()
				if err != nil {
					bad[g] = fmt.Sprintf("Open(%s): %v", name(fi), err)
					return
				}
				var b []byte
				for {
					n, err := h.Read(buf)
					b = append(b, buf[:n]...)
					if err == io.EOF {
						break
					}
					if err != nil || len(b) > 1<<20 {
						bad[g] = fmt.Sprintf("Read(%s): %v after %d bytes", name(fi), err, len(b))
						return
					}
					pause(rnd())
				}
				h.Close()
				o := obs{ver: -1, call: call, ret: ret, file: fi}
				if len(b) > 0 {
					if _, err := fmt.Sscanf(string(b[:8]), "%07d:", &o.ver); err != nil || !bytes.Equal(b, data(fi, o.ver)) {
						bad[g] = fmt.Sprintf("%s has contents that were never written: %s", name(fi), short(string(b)))
						return
					}
				}
				reads[g] = append(reads[g], o)
			}
		}()
	}
	start.Done()
	wg.Wait()
	for g, b := range bad {
		if b != "" {
			c.Fail("answer", "goroutine %d of %d: %s", g, G, b)
		}
	}
	seen := map[int32]bool{}
	for g, rs := range reads {
		for _, o := range rs {
			c.Obs("versioned reads", 1)
			seen[o.ver] = true
			w := wlog[o.file]
			if o.ver == -1 {
				// between a Create and its Close
				ok := false
				for _, s := range w {
					if s.createCall <= o.ret && s.closeRet >= o.call {
						ok = true
					}
				}
				if !ok {
					c.Fail("lost", "goroutine %d reads %s as empty, but nobody was writing it", g, name(o.file))
				}
				c.Obs("reads while being written", 1)
				continue
			}
			// closed before the read returned
			if o.ver > 0 && w[o.ver-1].closeCall > o.ret {
				c.Fail("future", "goroutine %d reads version %d of %s before it is closed", g, o.ver, name(o.file))
			}
			// and nothing newer was created before the read began
			if int(o.ver) < len(w) && w[o.ver].createRet < o.call {
				c.Fail("stale", "goroutine %d reads version %d of %s, but version %d had been created before", g, o.ver, name(o.file), o.ver+1)
			}
		}
	}
	for f := 0; f < nf; f++ {
		h, err := p.Open(name(f))
		if err != nil {
			c.Fail("lost", "in the end, Open(%s): %v", name(f), err)
		}
		b, err := readAll(h)
		if err != nil || b != string(data(f, int32(rounds))) {
			c.Fail("lost", "in the end %s has %s, %v", name(f), short(b), err)
		}
	}
	c.Distinct("versions", nf, G, rounds, len(seen))
	c.Obs("versions seen", len(seen))
}

// everything does everything at once.
func everything(c *C) {
	r := c.R
	m := c.Mods
	names := append(pathPool(r, "/tmp", 8), "/")
	t := Tree{}
	for _, n := range names[:4] {
		t[n] = &Node{Data: []byte("initial " + n), Mode: 0644, MTime: time.Unix(5, 0)}
	}
	for _, n := range t.Paths() {
		for d := path.Dir(n); ; d = path.Dir(d) {
			t[d] = &Node{Dir: true, Mode: 0755, MTime: time.Unix(5, 0)}
			if d == "/" {
				break
			}
		}
	}
	p, _ := memFS(m.Main, m.Pkgs, map[string]Tree{cur: t, otherPkgs[0]: t})
	if r.Intn(3) == 0 {
		p, _ = memFS(m.Main, m.Pkgs, map[string]Tree{})
	}
	od := func(i int) string { return filepath.Join(m.Dirs[cur], fmt.Sprintf("added%d", i)) }
	for i := 0; i < 3; i++ {
		must(os.WriteFile(od(i), []byte("from the disk"), 0644))
	}
	G := 4 + r.Intn(9)
	ops := 40
	seeds := make([]uint32, G)
	for i := range seeds {
		seeds[i] = r.Uint32() | 1
	}
	bad := make([]string, G)
	walkIn := func(s, root string) string {
		seen := map[string]bool{}
		msg := ""
		err := p.Walk(s, func(n string, fi os.FileInfo, err error) error {
			pkg, nm := splitPath(n)
			if fi == nil || err != nil {
				msg = fmt.Sprintf("Walk(%s) calls back with %v, %v", s, fi, err)
			} else if seen[n] || pkg != cur || !within(nm, root) || nm != "/" && fi.Name() != path.Base(nm) {
				msg = fmt.Sprintf("Walk(%s) visits %s (again: %v), named %s", s, n, seen[n], fi.Name())
			}
			seen[n] = true
			return nil
		})
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			msg = fmt.Sprintf("Walk(%s): %v", s, err)
		}
		return msg
	}
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := 0; g < G; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := seeds[g]
			rnd := func(n int) int {
				x ^= x << 13
				x ^= x >> 17
				x ^= x << 5
				return int(x>>1) % n
			}
			start.Wait()
			for i := 0; i < ops && bad[g] == ""; i++ {
				n := names[rnd(len(names))]
				pause(uint32(rnd(1 << 20)))
				switch k := rnd(22); k {
				case 0, 1:
					// each goroutine writes files of its own
					f, err := p.Create(fmt.Sprintf("%s/g%d-%d", strings.TrimSuffix(n, "/"), g, rnd(3)))
					if err == nil {
						fmt.Fprintf(f, "goroutine %d", g)
						f.Stat()
						f.Close()
					}
				case 2, 3:
					p.MkdirAll(n, 0755)
				case 4:
					p.Remove(n)
				case 5:
					if rnd(3) == 0 {
						p.RemoveAll(n)
					}
				case 6, 7:
					if f, err := p.Open(n); err == nil {
						f.Stat()
						if _, err := f.Readdir(-1); err != nil {
							io.Copy(io.Discard, f)
							f.Seek(0, io.SeekStart)
						}
						_ = f.Name() + fmt.Sprint(f)
						f.Close()
					}
				case 8:
					if fi, err := p.Stat(n); err == nil {
						_ = infoEntry(fi)
					}
				case 9, 10, 11:
					bad[g] = walkIn(n, n)
				case 12:
					if b, err := p.MarshalJSON(); err != nil {
						bad[g] = fmt.Sprintf("MarshalJSON: %v", err)
					} else if q := (&mem.Pkger{}); q.UnmarshalJSON(b) != nil {
						bad[g] = "UnmarshalJSON of a serialised file system fails"
					}
				case 13:
					if i, err := p.Current(); err != nil || i.Module.Path != cur {
						bad[g] = fmt.Sprintf("Current: %v %v", i, err)
					}
				case 14:
					q := m.Pkgs[rnd(len(m.Pkgs))]
					if i, err := p.Info(q); err != nil || i.ImportPath != q {
						bad[g] = fmt.Sprintf("Info(%s): %v %v", q, i, err)
					}
				case 15:
					if pt, err := p.Parse(n); err != nil || pt.Name != n || pt.Pkg != cur {
						bad[g] = fmt.Sprintf("Parse(%s): %v %v", n, pt, err)
					}
				case 16, 17:
					z := rnd(3)
					if f, err := os.Open(od(z)); err == nil {
						err := p.AddPath(here.Path{Pkg: m.Pkgs[rnd(len(m.Pkgs))], Name: fmt.Sprintf("/added%d", z)}, f)
						if err != nil {
							bad[g] = fmt.Sprintf("AddPath: %v", err)
						}
						f.Close()
					}
				case 18:
					if f, err := os.Open(od(rnd(3))); err == nil {
						if err := p.Add(f); err != nil {
							bad[g] = fmt.Sprintf("Add: %v", err)
						}
						f.Close()
					}
				default:
					// as http.FileServer does
					f, err := p.Open("/")
					if err != nil {
						continue
					}
					h, err := f.Open(n)
					if err == nil {
						h.Stat()
						h.Readdir(2)
						h.Read(make([]byte, 3))
						h.Close()
					}
					f.Close()
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
	c.Obs("mixed operations", G*ops)
	for g, b := range bad {
		if b != "" {
			c.Fail("answer", "goroutine %d of %d: %s", g, G, b)
		}
	}
	if _, err := fsSnap(p, cur+":/"); err != nil {
		c.Fail("consistency", "in the end: %v", err)
	}
	c.Distinct("mixed", fmt.Sprint(seeds))
}
