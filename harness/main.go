// Command harness runs the workload and the monitors of one property.
//
// Cases are numbered and depend only on the seed, the property and the
// number, so that any of them can be run again alone (-case N).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one count
	// number of cases
	Quick, Thorough int
	// what has to be observed at least, per 100 cases
	MinObs map[string]int
	Setup  func(w *Worker) error
	Run    func(c *C)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Violation is a witness.
type Violation struct {
	Case int      `json:"case"`
	Msg  string   `json:"msg"`
	Sig  string   `json:"sig"`
	Log  []string `json:"log,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Prop         string           `json:"prop"`
	Evaluations  int              `json:"evaluations"`
	Distinct     []uint64         `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []string         `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Level        string           `json:"level"`
	Rule         string           `json:"rule"`
	MinObs       map[string]int   `json:"min_obs"`
}

// Worker is the state of one worker process.
type Worker struct {
	Tier    string
	Seed    int64
	Scratch string
	Pkger   string // the built command
	Check   *Check
	Verbose bool
	Mods    *Mods
	First   int // case

	mu  sync.Mutex
	res Result
	dis map[uint64]bool
}

// C is one case.
type C struct {
	*Worker
	Idx int
	R   *rand.Rand
	log []string
	dir string
	cnt map[string]int64
	lmu sync.Mutex
	smp int
	sig []uint64
}

type failure struct{ msg, sig string }
type skip struct{ why string }

// Fail reports a violation and ends the case. The first argument
// identifies the kind of violation.
func (c *C) Fail(sig string, format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...), sig})
}

// Inconclusive ends the case without a verdict.
func (c *C) Inconclusive(format string, args ...interface{}) {
	panic(skip{fmt.Sprintf(format, args...)})
}

// Logf adds to the witness.
func (c *C) Logf(format string, args ...interface{}) {
	c.lmu.Lock()
	defer c.lmu.Unlock()
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.log = append(c.log, s)
	if c.Verbose {
		fmt.Fprintln(os.Stderr, s)
	}
}

// Obs counts what was observed.
func (c *C) Obs(key string, n int) {
	c.lmu.Lock()
	defer c.lmu.Unlock()
	c.cnt[key] += int64(n)
}

// Distinct records the signature of a non-trivial evaluation.
func (c *C) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", parts)
	c.lmu.Lock()
	defer c.lmu.Unlock()
	c.sig = append(c.sig, h.Sum64())
}

// Sample keeps a few written out cases.
func (c *C) Sample(format string, args ...interface{}) {
	if c.smp >= 1 {
		return
	}
	c.smp++
	s := fmt.Sprintf(format, args...)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 2 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("case %d: %s", c.Idx, s))
	}
}

// Dir is the scratch directory of the case.
func (c *C) Dir() string {
	if c.dir == "" {
		c.dir = filepath.Join(c.Scratch, fmt.Sprintf("c%d", c.Idx))
		must(os.MkdirAll(c.dir, 0755))
	}
	return c.dir
}

func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// harnessError is a failure of the machinery, not of pkger.
type harnessError struct{ err error }

func seedFor(seed int64, prop string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	return int64(h.Sum64() >> 1)
}

func (w *Worker) runCase(idx int) {
	c := &C{
		Worker: w,
		Idx:    idx,
		R:      rand.New(rand.NewSource(seedFor(w.Seed, w.Check.ID, idx))),
		cnt:    map[string]int64{},
	}
	done := make(chan struct{})
	go watchdog(c, done)
	func() {
		defer close(done)
		defer func() {
			if c.dir != "" && os.Getenv("VERIF_KEEP") == "" {
				os.Chdir(w.home())
				wipe(c.dir)
			}
		}()
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch x := e.(type) {
			case failure:
				w.violation(c, x.sig, x.msg)
			case skip:
				w.mu.Lock()
				w.res.Inconclusive = append(w.res.Inconclusive, fmt.Sprintf("case %d: %s", idx, x.why))
				w.mu.Unlock()
			case harnessError:
				w.mu.Lock()
				w.res.Inconclusive = append(w.res.Inconclusive, fmt.Sprintf("case %d: harness: %v\n%s", idx, x.err, trimStack(debug.Stack())))
				w.mu.Unlock()
			default:
				st := string(debug.Stack())
				if fromPkger(st) {
					w.violation(c, "panic", fmt.Sprintf("panic: %v\n%s", e, trimStack([]byte(st))))
				} else {
					w.mu.Lock()
					w.res.Inconclusive = append(w.res.Inconclusive, fmt.Sprintf("case %d: harness panic: %v\n%s", idx, e, st))
					w.mu.Unlock()
				}
			}
		}()
		w.Check.Run(c)
	}()
	w.mu.Lock()
	w.res.Evaluations++
	for k, v := range c.cnt {
		w.res.Counters[k] += v
	}
	for _, d := range c.sig {
		w.dis[d] = true
	}
	w.mu.Unlock()
}

func (w *Worker) violation(c *C, sig, msg string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	log := c.log
	if len(log) > 60 {
		log = log[len(log)-60:]
	}
	w.res.Violations = append(w.res.Violations, Violation{Case: c.Idx, Msg: msg, Sig: sig, Log: log})
}

// fromPkger tells whether the innermost frame that is neither Go's own nor
// a helper is in the code under test: the panic is its doing.
func fromPkger(stack string) bool {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.HasPrefix(l, "github.com/markbates/pkger") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// watchdog ends a worker whose case does not come back. Waiting that long
// is no verdict by itself: the supervisor looks at where it is stuck.
func watchdog(c *C, done chan struct{}) {
	t := time.NewTimer(240 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "WATCHDOG case %d does not return\n%s\n", c.Idx, buf[:n])
		os.Exit(7)
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	only := flag.Int("case", -1, "run this case alone")
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	pk := flag.String("pkger", "", "pkger command")
	list := flag.Bool("list", false, "list properties")
	verbose := flag.Bool("v", false, "verbose")
	child := flag.String("child", "", "internal: helper process")
	flag.Parse()

	if *child != "" {
		runChild(*child, flag.Args())
		return
	}

	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}

	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	// GOPROXY and friends come from the supervisor
	w := &Worker{Tier: *tier, Seed: *seed, Scratch: *scratch, Pkger: *pk, Check: ck, Verbose: *verbose, dis: map[uint64]bool{}, First: *shard}
	if *only >= 0 {
		w.First = *only
	}
	w.res = Result{Prop: ck.ID, Counters: map[string]int64{}, Level: ck.Level, Rule: ck.Rule, MinObs: ck.MinObs}
	must(os.MkdirAll(w.Scratch, 0755))
	os.Chdir(w.Scratch)

	if rawNamesIn[ck.ID] {
		nameFamilies = append(nameFamilies, rawNames)
	}
	if w.First%4 == 3 {
		// what the system reports comes in zones like this one: before
		// there were time zones their offsets had seconds
		time.Local = time.FixedZone("LMT", -2670)
	}

	if ck.Setup != nil {
		if err := ck.Setup(w); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(2)
		}
	}

	n := ck.Quick
	if *tier == "thorough" {
		n = ck.Thorough
	}
	if *only >= 0 {
		w.runCase(*only)
	} else {
		for i := *shard; i < n; i += *shards {
			progress(*out, i)
			w.runCase(i)
			if len(w.res.Violations) >= 20 {
				break
			}
		}
	}
	for d := range w.dis {
		w.res.Distinct = append(w.res.Distinct, d)
	}
	b, err := json.Marshal(w.res)
	must(err)
	if *out == "" {
		w.res.Distinct = nil
		b, _ = json.MarshalIndent(w.res, "", " ")
		fmt.Println(string(b))
		return
	}
	must(os.WriteFile(*out, b, 0644))
}

// progress notes the case that is running, for when the process dies.
func progress(out string, i int) {
	if out != "" {
		os.WriteFile(out+".case", []byte(fmt.Sprint(i)), 0644)
	}
}
