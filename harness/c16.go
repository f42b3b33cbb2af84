package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C16", Level: "exploration",
		Rule:  "under the race detector, scripted layers that report who was asked: several goroutines apply layers (some with an error, some from within a Walk callback) while others use every package-level function; every round starts from the stack the last one left, one in twelve cases starts from a process in which nothing was ever applied. The recorded calls with their times are checked against the final order of the layers: each answer comes from one suffix of it, holds everything applied before it began and nothing applied after it ended, and later answers never show less. A case counts by its final order and what the reads saw.",
		Quick: 4800, Thorough: 60000,
		MinObs: map[string]int{"rounds": 15000, "applied": 50000, "reads": 20000, "reads during an Apply": 1000, "refused": 8000, "fresh processes": 200},
		Setup:  setupMods,
		Run:    runC16,
	})
	children["c16"] = childC16
}

var errEnd = errors.New("end of what this round is about")

// player is a layer that answers some calls with its number.
type player struct {
	id      int
	deaf    map[string]bool // operations it cannot answer
	retired bool
	logging bool
	mu      sync.Mutex
	log     map[string]bool
}

func (l *player) can(op string) error {
	if l.retired {
		return nil // answers as nobody
	}
	if l.deaf[op] {
		return fmt.Errorf("layer %d cannot %s", l.id, op)
	}
	return nil
}

func (l *player) all(p string) error {
	if l.retired {
		return errEnd
	}
	l.mu.Lock()
	l.log[p] = true
	l.mu.Unlock()
	return nil
}

func (l *player) num() int {
	if l.retired {
		return -1
	}
	return l.id
}

func (l *player) name() string { return strconv.Itoa(l.num()) }

func (l *player) Parse(p string) (here.Path, error) {
	return here.Path{Pkg: l.name()}, l.can("Parse")
}
func (l *player) Current() (here.Info, error) { return here.Info{Name: l.name()}, l.can("Current") }
func (l *player) Info(p string) (here.Info, error) {
	return here.Info{Name: l.name()}, l.can("Info")
}
func (l *player) Create(p string) (pkging.File, error) {
	return &scriptFile{id: l.num()}, l.can("Create")
}
func (l *player) Open(p string) (pkging.File, error) { return &scriptFile{id: l.num()}, l.can("Open") }
func (l *player) Stat(p string) (os.FileInfo, error) {
	return rawInfo{name: l.name()}, l.can("Stat")
}
func (l *player) MkdirAll(p string, perm os.FileMode) error { return l.all(p) }
func (l *player) Remove(p string) error                     { return l.all(p) }
func (l *player) RemoveAll(p string) error                  { return l.all(p) }
func (l *player) Walk(p string, wf filepath.WalkFunc) error {
	if l.retired {
		return errEnd
	}
	return wf(l.name(), rawInfo{name: l.name()}, nil)
}

// event is a call that was recorded.
type event struct {
	g         int
	op        string
	call, ret int64
	id        int   // Apply: the layer; reads: who answered, -1 nobody
	stack     []int // Walk and others: who was asked, newest first
	tok       string
	inner     bool
}

var players []*player // of the last round

// round applies layers and reads at the same time. It returns what is
// wrong, and counts.
func round(r *rand.Rand, obs func(string, int), note func(string, ...interface{})) (sig, msg, class string) {
	for _, p := range players {
		p.retired = true
	}
	// retired layers end every call that reaches them
	first := len(players) == 0
	if !first {
		players = players[:1]
	}
	A := 1 + r.Intn(4)
	R := 1 + r.Intn(4)
	ops := []string{"Parse", "Current", "Info", "Create", "Open", "Stat"}
	logging := r.Intn(3) == 0
	var lays []*player
	next := 0
	mk := func() *player {
		p := &player{id: next, deaf: map[string]bool{}, log: map[string]bool{}}
		next++
		for _, o := range ops {
			if r.Intn(3) == 0 {
				p.deaf[o] = true
			}
		}
		lays = append(lays, p)
		return p
	}
	type todo struct {
		op   string
		lay  *player
		wait uint32
		bad  bool
	}
	plans := make([][]todo, A+R)
	for g := 0; g < A; g++ {
		for k := 1 + r.Intn(3); k > 0; k-- {
			t := todo{op: "Apply", lay: mk(), wait: r.Uint32()}
			if r.Intn(6) == 0 {
				t.bad = true
			} else if r.Intn(5) == 0 {
				t.op = "Walk+Apply"
			}
			plans[g] = append(plans[g], t)
			if r.Intn(3) == 0 {
				plans[g] = append(plans[g], todo{op: ops[r.Intn(6)], wait: r.Uint32()})
			}
		}
	}
	for g := A; g < A+R; g++ {
		for k := 4 + r.Intn(8); k > 0; k-- {
			o := "Walk"
			switch r.Intn(10) {
			case 0, 1, 2, 3, 4:
				o = ops[r.Intn(6)]
			case 5:
				if logging {
					o = []string{"MkdirAll", "Remove", "RemoveAll"}[r.Intn(3)]
				}
			case 6:
				o = "Walk+Stat"
			}
			plans[g] = append(plans[g], todo{op: o, wait: r.Uint32()})
		}
	}
	evs := make([][]event, A+R)
	bad := make([]string, A+R)
	refused := make([]int, A+R)
	base := time.Now()
	now := func() int64 { return time.Since(base).Nanoseconds() }
	apply := func(g int, p *player) {
		e := event{g: g, op: "Apply", id: p.id, call: now()}
		err := pkger.Apply(p, nil)
		e.ret = now()
		if err != nil {
			bad[g] = fmt.Sprintf("Apply: %v", err)
		}
		evs[g] = append(evs[g], e)
	}
	num := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			return -2
		}
		return n
	}
	read := func(g int, op string, wait uint32, lay *player, tok string) {
		e := event{g: g, op: op, id: -1, tok: tok}
		var err error
		switch op {
		case "Parse":
			e.call = now()
			var pt here.Path
			pt, err = pkger.Parse("/x")
			e.ret = now()
			e.id = num(pt.Pkg)
		case "Current", "Info":
			var i here.Info
			e.call = now()
			if op == "Info" {
				i, err = pkger.Info("x")
			} else {
				i, err = pkger.Current()
			}
			e.ret = now()
			e.id = num(i.Name)
		case "Create", "Open":
			var f pkging.File
			e.call = now()
			if op == "Open" {
				f, err = pkger.Open("/x")
			} else {
				f, err = pkger.Create("/x")
			}
			e.ret = now()
			if sf, ok := f.(*scriptFile); ok {
				e.id = sf.id
			}
		case "Stat":
			var fi os.FileInfo
			e.call = now()
			fi, err = pkger.Stat("/x")
			e.ret = now()
			if fi != nil {
				e.id = num(fi.Name())
			}
		case "Walk", "Walk+Stat", "Walk+Apply":
			e.op = "Walk"
			e.call = now()
			did := false
			pkger.Walk("/x", func(p string, fi os.FileInfo, err error) error {
				e.stack = append(e.stack, num(p))
				pause(wait)
				if !did {
					did = true
					switch op {
					case "Walk+Stat":
						pkger.Stat("/x")
					case "Walk+Apply":
						apply(g, lay)
					}
				}
				return nil
			})
			e.ret = now()
			if op == "Walk+Apply" && !did {
				apply(g, lay)
			}
			evs[g] = append(evs[g], e)
			return
		default:
			e.call = now()
			switch op {
			case "MkdirAll":
				pkger.MkdirAll(tok, 0755)
			case "Remove":
				pkger.Remove(tok)
			case "RemoveAll":
				pkger.RemoveAll(tok)
			}
			e.ret = now()
			e.op = "all"
			evs[g] = append(evs[g], e)
			return
		}
		if err != nil {
			e.id = -1
		}
		evs[g] = append(evs[g], e)
	}
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := range plans {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			for i, t := range plans[g] {
				pause(t.wait)
				switch {
				case t.bad:
					func() {
						defer func() {
							if recover() != nil {
								refused[g]++
							}
						}()
						if i%2 == 0 {
							pkger.Apply(t.lay, errors.New("damaged"))
						} else {
							m, err := mem.UnmarshalEmbed([]byte("1f8b08"))
							if err == nil {
								err = errors.New("damaged")
							}
							_ = m
							pkger.Apply(t.lay, err)
						}
						bad[g] = "an Apply that carries an error does not panic"
					}()
				case t.op == "Apply":
					apply(g, t.lay)
				default:
					if (t.op == "MkdirAll" || t.op == "Remove" || t.op == "RemoveAll") && first {
						// would reach the disk if nothing is applied yet
						continue
					}
					if first && t.op == "Create" {
						continue
					}
					read(g, t.op, t.wait, t.lay, fmt.Sprintf("/tok%d.%d", g, i))
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
	obs("rounds", 1)
	var all, applies, reads []event
	for g := range evs {
		if bad[g] != "" {
			return "", bad[g], "apply"
		}
		all = append(all, evs[g]...)
		obs("refused", refused[g])
	}
	// the final order, newest first
	var final []int
	pkger.Walk("/x", func(p string, fi os.FileInfo, err error) error {
		final = append(final, num(p))
		return nil
	})
	sort.Slice(all, func(a, b int) bool { return all[a].call < all[b].call })
	for _, e := range all {
		note("g%d [%d,%d] %s %d %v", e.g, e.call, e.ret, e.op, e.id, e.stack)
	}
	note("final order, newest first: %v", final)
	pos := map[int]int{} // number of layers once it is there
	for i, id := range final {
		if _, ok := pos[id]; ok || id < 0 || id >= len(lays) {
			return "", fmt.Sprintf("layer %d is in the final stack %v twice, or is none of ours", id, final), "stack"
		}
		pos[id] = len(final) - i
	}
	for _, e := range all {
		if e.op == "Apply" {
			applies = append(applies, e)
			if pos[e.id] == 0 {
				return "", fmt.Sprintf("layer %d was applied, and is not in the final stack %v", e.id, final), "lost"
			}
		} else {
			reads = append(reads, e)
		}
	}
	if len(applies) != len(final) {
		return "", fmt.Sprintf("%d layers were applied, the final stack is %v", len(applies), final), "stack"
	}
	for _, l := range lays {
		if pos[l.id] > 0 {
			players = append(players, l)
		}
	}
	obs("applied", len(applies))
	obs("reads", len(reads))
	for _, a := range applies {
		for _, b := range applies {
			if a.ret < b.call && pos[a.id] > pos[b.id] {
				return "", fmt.Sprintf("layer %d was applied before layer %d, but is on top of it in %v", a.id, b.id, final), "order"
			}
		}
	}
	// reads: which numbers of layers explain them
	type seen struct {
		ret int64
		n   int
	}
	var earlier []seen
	for _, e := range reads {
		lo, hi := 0, len(final)
		switch e.op {
		case "Walk", "all":
			st := e.stack
			if e.op == "all" {
				st = nil
				for _, id := range final {
					if lays[id].log[e.tok] {
						st = append(st, id)
					}
				}
				for _, l := range lays {
					if l.log[e.tok] && pos[l.id] == 0 {
						st = append(st, l.id)
					}
				}
			}
			if fmt.Sprint(st) != fmt.Sprint(final[len(final)-len(st):]) && len(st) > 0 {
				return "", fmt.Sprintf("%s asks the layers %v, which is none of the stacks that end in %v", e.op, st, final), "stack"
			}
			lo, hi = len(st), len(st)
		default:
			// the newest of the first n that can answer
			lo, hi = -1, -2
			for n := 0; n <= len(final); n++ {
				who := -1
				for _, id := range final[len(final)-n:] {
					if !lays[id].deaf[e.op] {
						who = id
						break
					}
				}
				ans := e.id
				if first && who == -1 && ans < 0 {
					ans = -1 // the disk, or nothing
				}
				if who == ans {
					if lo < 0 {
						lo = n
					}
					hi = n
				}
			}
			if lo < 0 {
				return "", fmt.Sprintf("%s is answered by layer %d, which no stack that ends in %v explains", e.op, e.id, final), "answer"
			}
		}
		min := lo
		for _, s := range earlier {
			if s.ret < e.call && s.n > min {
				min = s.n
			}
		}
		for _, a := range applies {
			if a.ret < e.call && pos[a.id] > min {
				min = pos[a.id]
			}
			if a.call <= e.ret && a.ret >= e.call {
				obs("reads during an Apply", 1)
			}
		}
		if min > hi {
			return "", fmt.Sprintf("g%d %s [%d,%d] is answered by %d %v: a stack of at most %d of %v, but %d were there before it began", e.g, e.op, e.call, e.ret, e.id, e.stack, hi, final, min), "disappeared"
		}
		for _, a := range applies {
			if a.call > e.ret && min >= pos[a.id] {
				return "", fmt.Sprintf("g%d %s [%d,%d] is answered by %d %v, but layer %d was only applied later", e.g, e.op, e.call, e.ret, e.id, e.stack, a.id), "future"
			}
		}
		earlier = append(earlier, seen{e.ret, min})
		fmt.Fprintf(&sigb, "%d-%d,", lo, hi)
	}
	s := fmt.Sprint(final, sigb.String())
	sigb.Reset()
	return s, "", ""
}

var sigb strings.Builder

func runC16(c *C) {
	if c.Idx%12 == 0 {
		dir := filepath.Join(c.Dir(), "empty")
		must(os.MkdirAll(dir, 0755))
		exe, err := os.Executable()
		must(err)
		so, se, code, err := runCmd(dir, nil, exe, "-child", "c16", fmt.Sprint(c.R.Int63()))
		must(err)
		var res childRes
		if code != 0 && code != 3 || json.Unmarshal([]byte(so), &res) != nil {
			if strings.Contains(se, "github.com/markbates/pkger") && strings.Contains(se, "goroutine ") {
				c.Fail("crash", "a process that applies layers died: %s", trimStack([]byte(se)))
			}
			c.Inconclusive("child: %d %s %s", code, so, se)
		}
		for _, n := range res.Notes {
			c.Logf("%s", n)
		}
		if res.Msg != "" {
			c.Fail(res.Class, "%s", res.Msg)
		}
		for k, n := range res.Obs {
			c.Obs(k, n)
		}
		c.Obs("fresh processes", 1)
		c.Distinct(res.Sig)
		return
	}
	var sigs []string
	for i := 0; i < 6; i++ {
		var notes []string
		sig, msg, class := round(c.R, c.Obs, func(f string, a ...interface{}) { notes = append(notes, fmt.Sprintf(f, a...)) })
		if msg != "" {
			for _, n := range notes {
				c.Logf("%s", n)
			}
			c.Fail(class, "%s", msg)
		}
		sigs = append(sigs, sig)
		c.Sample("%s", strings.Join(notes, " | "))
	}
	c.Distinct(sigs)
}

type childRes struct {
	Obs             map[string]int
	Notes           []string
	Msg, Class, Sig string
}

func childC16(args []string) error {
	seed, err := strconv.ParseInt(args[0], 10, 64)
	if err != nil {
		return err
	}
	res := childRes{Obs: map[string]int{}}
	r := rand.New(rand.NewSource(seed))
	go func() {
		time.Sleep(100 * time.Second)
		panic("github.com/markbates/pkger does not return")
	}()
	for i := 0; i < 3 && res.Msg == ""; i++ {
		var notes []string
		res.Sig, res.Msg, res.Class = round(r, func(k string, n int) { res.Obs[k] += n }, func(f string, a ...interface{}) { notes = append(notes, fmt.Sprintf(f, a...)) })
		if res.Msg != "" {
			res.Notes = notes
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	fmt.Println(string(b))
	return nil
}
