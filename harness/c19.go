package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() {
	register(&Check{
		ID: "C19", Level: "exploration",
		Rule:  "faults are put into packing: writers that fail once or for good at chosen bytes of the output, a file size limit that makes the real output file fail at chosen bytes, few file descriptors, files and folders that cannot be read, are gone, sockets, dangling links or fail while being read, missing paths and unknown packages, source that is not Go, output folders that are missing, files or read-only, and, with strace, errors of single system calls on the files involved while the real command runs. A pack either fails - error or exit status - and leaves nothing, or exactly what stood there before, and no other file, or succeeds, and then what it wrote is complete and holds exactly what the os package shows; where the fault leaves no way to succeed it has to fail. A case counts by its faults.",
		Quick: 352, Thorough: 8000,
		MinObs: map[string]int{"writers failing": 800, "writers not failing": 60, "file size limits": 500, "failed cleanly": 900, "complete": 150, "descriptor limits": 133, "faults on files": 72, "command faults": 60, "leftovers": 100},
		Setup:  setupCode,
		Run:    runC19,
	})
}

// faultyWriter fails at one byte, for good or once. It has no other methods
// that write, there is no way around it.
type faultyWriter struct {
	buf    bytes.Buffer
	at     int
	once   bool
	failed bool
}

var errFault = errors.New("injected fault")

func (w *faultyWriter) Write(b []byte) (int, error) {
	if w.failed && !w.once {
		return 0, errFault
	}
	if !w.failed && w.buf.Len()+len(b) > w.at {
		w.failed = true
		n := w.at - w.buf.Len()
		w.buf.Write(b[:n])
		return n, errFault
	}
	return w.buf.Write(b)
}

func runC19(c *C) {
	if c.Idx%8 >= 5 {
		c19Command(c)
		return
	}
	r := c.R
	m := c.Mods
	l := newLayout(c, m, false)
	var includes []string
	for i := r.Intn(3); i > 0; i-- {
		k := l.pick(r)
		if !l.vkeys[k.str()] {
			includes = append(includes, spell(r, k, cur))
		}
	}
	var roots []string
	for pkg := range l.dirs {
		roots = append(roots, pkg+":/")
	}
	want, ok := l.expect(includes)
	if !ok {
		c.Obs("nothing to pack", 1)
		return
	}
	decls, err := parser.Parse(m.Main, includes...)
	if err != nil {
		c.Fail("parse", "Parse: %v", err)
	}
	outName := "/pkged.go"
	holds := func(when string, p *mem.Pkger, want map[string]string) {
		got, err := fsSnap(p, roots...)
		if err != nil {
			c.Fail("incomplete", "%s: %v", when, err)
		}
		// the time of its folder changes with the output
		if d := rest(diskEntries(want), outName).diff(rest(got, outName)); d != "" {
			c.Fail("incomplete", "%s: success is reported, but %s", when, d)
		}
		c.Obs("complete", 1)
	}
	if c.Idx%8 < 2 {
		// writers
		ref := &bytes.Buffer{}
		if err := pkgutil.Stuff(ref, m.Main, decls); err != nil {
			c.Fail("stuff", "Stuff: %v", err)
		}
		n := ref.Len()
		ats := []int{0, 1, n - 1, n - 2, n - 3, n / 2, n, n + 1}
		for i := 0; i < 12; i++ {
			ats = append(ats, r.Intn(n))
		}
		for _, at := range ats {
			w := &faultyWriter{at: at, once: r.Intn(2) == 0}
			err := pkgutil.Stuff(w, m.Main, decls)
			if !w.failed {
				if err != nil {
					c.Fail("refused", "a writer that did not fail: Stuff: %v", err)
				}
				p, err := mem.UnmarshalEmbed(w.buf.Bytes())
				if err != nil {
					c.Fail("incomplete", "success is reported, but: %v", err)
				}
				holds("a writer that did not fail", p, want)
				c.Obs("writers not failing", 1)
				continue
			}
			if err == nil {
				c.Fail("swallowed", "the writer failed at byte %d of %d (once: %v), but Stuff reports success", at, n, w.once)
			}
			c.Obs("writers failing", 1)
		}
		c.Distinct("writer", ats, len(want))
		return
	}
	// the output file
	outDir := m.Dirs[cur]
	if r.Intn(2) == 0 {
		outDir = filepath.Join(outDir, "outdir")
		outName = "/outdir/pkged.go"
		must(os.MkdirAll(outDir, 0755))
		want, _ = l.expect(includes)
	}
	out := filepath.Join(outDir, "pkged.go")
	pack := func(when string, must_ bool, want map[string]string, limit func() func()) bool {
		wipe(out)
		names := namesIn(m.Dirs[cur])
		prior := ""
		if r.Intn(3) == 0 {
			prior = "package x // left by an earlier run\n"
			must(os.WriteFile(out, []byte(prior), 0644))
			c.Obs("leftovers", 1)
		}
		restore := limit()
		err := cmds.Package(m.Main, out, decls)
		restore()
		b, rerr := os.ReadFile(out)
		if err != nil {
			if rerr == nil && (prior == "" || string(b) != prior) || rerr != nil && !os.IsNotExist(rerr) {
				c.Fail("partial", "%s: packing fails with %v, and leaves %d bytes at the output location: %.200q", when, err, len(b), b)
			}
			for n := range namesIn(m.Dirs[cur]) {
				if !names[n] && (prior == "" || n != out) {
					c.Fail("partial", "%s: packing fails with %v, and leaves %s", when, err, n)
				}
			}
			c.Obs("failed cleanly", 1)
			return false
		}
		if must_ {
			c.Fail("swallowed", "%s: packing reports success", when)
		}
		g, gerr := readGenerated(out)
		if gerr != nil {
			c.Fail("incomplete", "%s: success is reported, but the output: %v", when, gerr)
		}
		holds(when, g.FS, want)
		if !strings.HasSuffix(string(b), "`)))\n") && !bytes.HasSuffix(bytes.TrimSpace(b), []byte(")")) {
			c.Fail("incomplete", "%s: success is reported, but the output ends with %q", when, b[len(b)-20:])
		}
		return true
	}
	none := func() func() { return func() {} }
	if !pack("without a fault", false, want, none) {
		c.Fail("refused", "packing fails without a fault")
	}
	b, err := os.ReadFile(out)
	must(err)
	n := len(b)
	switch c.Idx % 8 {
	case 2, 3:
		blob := bytes.IndexByte(b, '`')
		ks := []int{0, 1, blob, blob + 1, n - 1, n - 4, n - 5, n, n + 1, n / 2}
		for i := 0; i < 10; i++ {
			ks = append(ks, r.Intn(n))
		}
		for _, k := range ks {
			when := fmt.Sprintf("a limit of %d of %d bytes", k, n)
			pack(when, false, want, func() func() { return softLimit(syscall.RLIMIT_FSIZE, uint64(k)) })
			c.Obs("file size limits", 1)
		}
		c.Distinct("limit", ks, n)
		c.Sample("limits %v of %d bytes", ks, n)
	case 4:
		for i := 0; i < 6; i++ {
			used := openFiles()
			pack(fmt.Sprintf("%d more descriptors", i), false, want, func() func() { return softLimit(syscall.RLIMIT_NOFILE, uint64(used+i)) })
			c.Obs("descriptor limits", 1)
		}
		for i := 0; i < 4; i++ {
			// a file that cannot be read
			var files []string
			for _, k := range keysOf(want) {
				fi, err := os.Lstat(want[k])
				must(err)
				_, name := splitPath(k)
				if fi.Mode().IsRegular() && path.Ext(name) != ".go" && path.Base(name) != "go.mod" && path.Base(name) != "go.sum" && path.Ext(name) != ".tmp" {
					files = append(files, want[k])
				}
			}
			if len(files) == 0 {
				break
			}
			f := files[r.Intn(len(files))]
			what, undo := breakFile(c, f)
			pack(fmt.Sprintf("%s is %s", f, what), what != "gone", want, none)
			undo()
			c.Obs("faults on files", 1)
			c.Distinct("file", what, f, l.disk.Keys())
		}
	}
	wipe(out)
	if outDir != m.Dirs[cur] {
		wipe(outDir)
	}
}

func softLimit(which int, n uint64) func() {
	var old syscall.Rlimit
	must(syscall.Getrlimit(which, &old))
	nl := old
	nl.Cur = n
	must(syscall.Setrlimit(which, &nl))
	return func() { must(syscall.Setrlimit(which, &old)) }
}

// openFiles is the highest descriptor in use, plus one.
func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	max := 0
	for _, e := range es {
		n := 0
		fmt.Sscan(e.Name(), &n)
		if _, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && n > max {
			max = n
		}
	}
	return max + 1
}

// breakFile puts something there that cannot be packed.
func breakFile(c *C, f string) (string, func()) {
	fi, err := os.Lstat(f)
	must(err)
	aside := filepath.Join(c.Dir(), "aside")
	di, err := os.Lstat(filepath.Dir(f))
	must(err)
	os.Chmod(filepath.Dir(f), di.Mode()|0700)
	stamp := func() {
		os.Chmod(filepath.Dir(f), di.Mode())
		must(os.Chtimes(filepath.Dir(f), di.ModTime(), di.ModTime()))
	}
	switch k := c.R.Intn(5); k {
	case 0:
		must(os.Chmod(f, 0))
		stamp()
		return "unreadable", func() { must(os.Chmod(f, fi.Mode())) }
	default:
		must(os.Rename(f, aside))
		what := ""
		switch k {
		case 1:
			must(os.Symlink("/nowhere/at/all", f))
			what = "a dangling link"
		case 2:
			must(os.Symlink("/proc/self/mem", f))
			what = "failing while read"
		case 3:
			ln, err := net.Listen("unix", shorten(f))
			if err != nil {
				must(os.Symlink("/nowhere/at/all", f))
				what = "a dangling link"
				break
			}
			ln.(*net.UnixListener).SetUnlinkOnClose(false)
			ln.Close()
			what = "a socket"
		case 4:
			must(os.Mkdir(f, 0))
			what = "a folder that cannot be read"
		}
		stamp()
		return what, func() {
			os.Chmod(filepath.Dir(f), di.Mode()|0700)
			must(os.Remove(f))
			must(os.Rename(aside, f))
			stamp()
		}
	}
}

// shorten names a file so that it can be that of a socket.
func shorten(f string) string {
	d, err := os.Getwd()
	must(err)
	if rel, err := filepath.Rel(d, f); err == nil && len(rel)+2 < len(f) {
		// a leading @ means something else
		return "./" + rel
	}
	return f
}

// the command

type cmdFault struct {
	name string
	must bool // it cannot succeed
	do   func(m *cliMod, r *cmdRun)
}

type cmdRun struct {
	decl, incl []string // paths
	dir        string
	out        string
	args       []string
	main       string
	before     func()
	limit      func() func()
	strace     []string
	paths      []string
}

var cmdFaults = []cmdFault{
	{"declared file unreadable", true, func(m *cliMod, r *cmdRun) {
		m.write("assets/secret", "x")
		must(os.Chmod(m.Root+"/assets/secret", 0))
		r.decl = append(r.decl, []string{"/assets/secret", "/assets", "/"}[m.c.R.Intn(3)])
	}},
	{"included file unreadable", true, func(m *cliMod, r *cmdRun) {
		m.write("assets/secret", "x")
		must(os.Chmod(m.Root+"/assets/secret", 0200))
		r.incl = append(r.incl, []string{"/assets/secret", "/assets", "/"}[m.c.R.Intn(3)])
	}},
	{"folder unreadable", true, func(m *cliMod, r *cmdRun) {
		m.write("assets/closed/x", "x")
		must(os.Chmod(m.Root+"/assets/closed", []os.FileMode{0, 0300, 0100}[m.c.R.Intn(3)]))
		r.decl = append(r.decl, []string{"/assets/closed", "/assets"}[m.c.R.Intn(2)])
	}},
	{"folder cannot be entered", true, func(m *cliMod, r *cmdRun) {
		m.write("assets/closed/x", "x")
		must(os.Chmod(m.Root+"/assets/closed", 0400))
		r.decl = append(r.decl, []string{"/assets/closed", "/assets", "/assets/closed/x"}[m.c.R.Intn(3)])
	}},
	{"declared path missing", true, func(m *cliMod, r *cmdRun) {
		r.decl = append(r.decl, []string{"/not/there", "/top.txt/below", "/assets/none.html"}[m.c.R.Intn(3)])
	}},
	{"included path missing", true, func(m *cliMod, r *cmdRun) {
		r.incl = append(r.incl, []string{"/not/there", "/top.txt/below", m.Lib + ":/none"}[m.c.R.Intn(3)])
	}},
	{"declared package unknown", true, func(m *cliMod, r *cmdRun) { r.decl = append(r.decl, "nowhere.test/at/all:/x") }},
	{"included package unknown", true, func(m *cliMod, r *cmdRun) {
		r.incl = append(r.incl, []string{"nowhere.test/at/all:/x", m.Path + "/none:/x", "nowhere"}[m.c.R.Intn(3)])
	}},
	{"source is not Go", true, func(m *cliMod, r *cmdRun) {
		n := []string{"bad.go", "web/bad.go"}[m.c.R.Intn(2)]
		m.write(n, "package main\n\nfunc {\n")
		if n != "bad.go" {
			m.write("web/good.go", "package main\n\nvar X = 1\n")
		}
	}},
	{"source unreadable", true, func(m *cliMod, r *cmdRun) {
		m.write("web/good.go", "package web\n\nvar X = 1\n")
		m.write("web/bad.go", "package web\n\nvar Y = 1\n")
		must(os.Chmod(m.Root+"/web/bad.go", 0))
	}},
	{"-o is missing", true, func(m *cliMod, r *cmdRun) { r.out = "not/there" }},
	{"-o is a file", true, func(m *cliMod, r *cmdRun) { r.out = "top.txt" }},
	{"-o is read-only", true, func(m *cliMod, r *cmdRun) {
		m.write("ro/doc.go", "package ro\n")
		must(os.Chmod(m.Root+"/ro", 0555))
		r.out = "ro"
	}},
	{"root is read-only", true, func(m *cliMod, r *cmdRun) {
		r.out = ""
		r.before = func() {
			// what stands there already could be overwritten
			os.Remove(m.Root + "/pkged.go")
			must(os.Chmod(m.Root, 0555))
		}
	}},
	{"go.mod is not valid", true, func(m *cliMod, r *cmdRun) { m.write("go.mod", "modul x\n") }},
	{"no module", true, func(m *cliMod, r *cmdRun) { r.dir = m.c.Dir() }},
	{"dangling link", true, func(m *cliMod, r *cmdRun) {
		must(os.Symlink("nowhere", m.Root+"/assets/link"))
		r.decl = append(r.decl, []string{"/assets/link", "/assets"}[m.c.R.Intn(2)])
	}},
	{"file fails while read", true, func(m *cliMod, r *cmdRun) {
		must(os.Symlink("/proc/self/mem", m.Root+"/assets/mem"))
		r.decl = append(r.decl, []string{"/assets/mem", "/assets"}[m.c.R.Intn(2)])
	}},
	{"file size limit", false, func(m *cliMod, r *cmdRun) {
		n := uint64(m.c.R.Intn(4000))
		r.limit = func() func() { return softLimit(syscall.RLIMIT_FSIZE, n) }
	}},
	{"file size limit of the output", false, func(m *cliMod, r *cmdRun) {
		n := uint64(600 + m.c.R.Intn(2500))
		r.limit = func() func() { return softLimit(syscall.RLIMIT_FSIZE, n) }
	}},
	{"descriptor limit", false, func(m *cliMod, r *cmdRun) {
		n := uint64(4 + m.c.R.Intn(20))
		r.strace = []string{"bash", "-c", fmt.Sprintf("ulimit -n %d; exec \"$@\"", n), "sh"}
	}},
	{"output call fails", false, nil},
	{"file call fails", false, nil},
	{"folder call fails", false, nil},
	{"source call fails", false, nil},
	{"output call fails", false, nil},
	{"file call fails", false, nil},
	{"output call fails", false, nil},
}

func c19Command(c *C) {
	r := c.R
	m := newCLIMod(c, "app")
	t := m.dataTree(4 + r.Intn(8))
	t.write(m.Root)
	run := &cmdRun{dir: m.Root, before: func() {}, limit: func() func() { return func() {} }}
	ps := t.Paths()
	for i := r.Intn(3); i > 0; i-- {
		run.decl = append(run.decl, ps[r.Intn(len(ps))])
	}
	for i := r.Intn(2); i > 0; i-- {
		run.incl = append(run.incl, ps[r.Intn(len(ps))])
	}
	if r.Intn(3) == 0 {
		run.out = "gen"
		m.write("gen/doc.go", "package gen\n")
	}
	f := cmdFaults[(c.Idx/8*3+c.Idx%8-5)%len(cmdFaults)]
	inject := ""
	if f.do != nil {
		f.do(m, run)
	} else {
		errno := []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EDQUOT"}[r.Intn(6)]
		var calls string
		switch f.name {
		case "output call fails":
			run.paths = []string{filepath.Join(m.Root, run.out, "pkged.go")}
			calls = []string{"openat", "write", "close", "write", "write,pwrite64,ftruncate,fsync", "close"}[r.Intn(6)]
		case "file call fails":
			run.decl = append(run.decl, "/top.txt")
			run.paths = []string{m.Root + "/top.txt"}
			calls = []string{"openat", "read,pread64", "newfstatat", "fstat", "close", "read,pread64", "read,pread64"}[r.Intn(7)]
		case "folder call fails":
			run.decl = append(run.decl, "/assets")
			run.paths = []string{m.Root + "/assets"}
			calls = []string{"openat", "getdents64", "newfstatat", "fstat", "getdents64"}[r.Intn(5)]
		case "source call fails":
			run.paths = []string{m.Root + "/main.go"}
			calls = []string{"openat", "read", "newfstatat", "fstat"}[r.Intn(4)]
		}
		when := fmt.Sprint(1 + r.Intn(3))
		if r.Intn(3) == 0 {
			when = "1+"
		}
		if calls == "close" {
			when = "1"
		}
		inject = fmt.Sprintf("%s of %q, number %s: %s", calls, run.paths, when, errno)
		st, err := exec.LookPath("strace")
		if err != nil {
			c.Obs("no strace", 1)
			return
		}
		run.strace = []string{st, "-f", "-qq", "-o", c.Dir() + "/strace", "-e", "trace=openat," + calls, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", calls, errno, when)}
		for _, p := range run.paths {
			run.strace = append(run.strace, "-P", p)
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc main() {}\n\nvar _ pkger.Dir\n")
	for _, d := range run.decl {
		k := key{m.Path, d}
		if i := strings.Index(d, ":"); i > 0 {
			k = key{d[:i], d[i+1:]}
		}
		fmt.Fprintf(&sb, "var _ = %s\n", declare(r, k, m.Path))
	}
	m.write("main.go", sb.String())
	gen := filepath.Join(m.Root, run.out, "pkged.go")
	prior := ""
	if fi, err := os.Stat(filepath.Dir(gen)); err == nil && fi.IsDir() && fi.Mode()&0200 != 0 && r.Intn(3) == 0 {
		prior = "package main // left by an earlier run\n"
		must(os.WriteFile(gen, []byte(prior), 0644))
		c.Obs("leftovers", 1)
	}
	run.before()
	names := namesIn(m.Root)
	args := []string{}
	if run.out != "" {
		args = append(args, "-o", run.out)
	}
	for _, s := range run.incl {
		args = append(args, "-include", s)
	}
	name := c.Pkger
	if run.strace != nil {
		args = append(append(append([]string{}, run.strace[1:]...), name), args...)
		name = run.strace[0]
	}
	restore := run.limit()
	so, se, code, err := runCmd(run.dir, nil, name, args...)
	restore()
	must(err)
	must(os.Chmod(m.Root, 0755))
	what := f.name
	if inject != "" {
		what += " (" + inject + ")"
		b, _ := os.ReadFile(c.Dir() + "/strace")
		n := bytes.Count(b, []byte("(INJECTED)"))
		c.Obs("injected calls", n)
		if n > 0 {
			c.Obs("runs with injected calls", 1)
		}
		// the descriptor that the output is written to
		fd, failed := "", false
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, "openat(") && strings.Contains(l, "/pkged.go\"") && !strings.Contains(l, "= -1") {
				fd = ""
				if i := strings.LastIndex(l, "= "); i > 0 && (strings.Contains(l, "O_WRONLY") || strings.Contains(l, "O_RDWR")) {
					fd = "close(" + strings.TrimSpace(l[i+2:]) + ")"
				}
			}
			failed = failed || fd != "" && strings.Contains(l, fd) && strings.Contains(l, "(INJECTED)")
		}
		if failed && f.name == "output call fails" {
			// what was written so far may not have been
			f.must = true
			c.Obs("output not closed", 1)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, "(") && !strings.Contains(l, "---") {
				c.Logf("%s", l)
			}
		}
	}
	c.Logf("%s: decl %q incl %q -o %q: exit %d\n%s%s", what, run.decl, run.incl, run.out, code, so, se)
	c.Obs("command faults", 1)
	c.Distinct(what, run.decl, run.incl, run.out, t.Paths())
	c.Sample("%s: decl %q incl %q -o %q: exit %d", what, run.decl, run.incl, run.out, code)
	for _, d := range []string{m.Root, m.LDir, c.Dir()} {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Name() == "pkged.go" && p != gen {
				c.Fail("elsewhere", "%s: there is output at %s", what, p)
			}
			return nil
		})
	}
	b, rerr := os.ReadFile(gen)
	if code != 0 {
		if rerr == nil && (prior == "" || string(b) != prior) {
			c.Fail("partial", "%s: packing fails with %d (%s), and leaves %d bytes at the output location: %.200q", what, code, se, len(b), b)
		}
		for n := range namesIn(m.Root) {
			if !names[n] && n != gen && filepath.Base(n) != "go.sum" {
				c.Fail("partial", "%s: packing fails with %d (%s), and leaves %s", what, code, se, n)
			}
		}
		if strings.TrimSpace(se) == "" {
			c.Fail("silent", "%s: packing exits with %d and says nothing", what, code)
		}
		c.Obs("failed cleanly", 1)
		c.Obs("command failed cleanly", 1)
		return
	}
	if f.must {
		c.Fail("swallowed", "%s: packing reports success: decl %q, includes %q: %s%s", what, run.decl, run.incl, so, se)
	}
	g, err := readGenerated(gen)
	if err != nil {
		c.Fail("incomplete", "%s: success is reported, but the output: %v", what, err)
	}
	sel := map[string]string{}
	for _, s := range append(append([]string{}, run.decl...), run.incl...) {
		m.expand(sel, key{m.Path, s})
	}
	out := path.Join("/", run.out, "pkged.go")
	delete(sel, m.Path+":"+out)
	got, err := fsSnap(g.FS, m.Path+":/")
	if err != nil {
		c.Fail("incomplete", "%s: %v", what, err)
	}
	if d := rest(diskEntries(sel), out).diff(rest(got, out)); d != "" {
		c.Fail("incomplete", "%s: success is reported, but %s", what, d)
	}
	c.Obs("complete", 1)
}

// namesIn are all the files beneath the directory.
func namesIn(dir string) map[string]bool {
	names := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		names[p] = true
		return nil
	})
	return names
}
