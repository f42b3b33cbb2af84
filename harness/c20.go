package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C20", Level: "exploration",
		Rule:  "histories of edits - files changed, added, removed, restamped, declarations changed, includes changed - and runs of the real command, at the root or with -o, on top of what an earlier run or something else left at the output location: results as they are, truncated at random bytes, flipped, foreign Go files of the same and of other packages, garbage, empty, read-only, unreadable, links, folders with files. Every result is taken apart and compared with what the os package shows of the declared files at that moment, with a second run over the unchanged module, and with a run after the output was deleted; snapshots of the module show that nothing else changed. A case counts by its history.",
		Quick: 64, Thorough: 2000,
		MinObs: map[string]int{"packed": 220, "equal again": 50, "equal from scratch": 50, "listed": 20, "left truncated": 8, "left foreign": 16, "left link": 8, "left folder": 8, "edits": 111, "root declared": 20, "namesakes": 30},
		Run:    runC20,
	})
}

// rest is the snapshot without what packing is there to change: the output,
// the time of its folder, and what go mod tidy maintains.
func rest(s Snap, out string) Snap {
	o := Snap{}
	for k, e := range s {
		_, n := splitPath(k)
		if within(n, out) || n == "/go.mod" || n == "/go.sum" {
			continue
		}
		if n == path.Dir(out) || n == "/" {
			e.Size = 0
			e.MTime = e.MTime.Add(0)
			e.MTime = zeroTime
			var kids []string
			for _, x := range e.Kids {
				if path.Join(n, x) != out && !(n == "/" && x == "go.sum") {
					kids = append(kids, x)
				}
			}
			e.Kids = kids
		}
		o[k] = e
	}
	return o
}

func runC20(c *C) {
	r := c.R
	m := newCLIMod(c, "app")
	out := []string{"", "", "gen", "internal/deep/out"}[r.Intn(4)]
	outPath := path.Join("/", out, "pkged.go")
	gen := filepath.Join(m.Root, outPath)
	t := m.dataTree(4 + r.Intn(10))
	// files that are called like the output, or nearly, are files like any other
	for _, d := range []string{"/kept", "/kept/more", "/tools"} {
		if t[d] != nil || d == "/kept/more" && t["/kept"] == nil || r.Intn(3) == 0 {
			continue
		}
		t[d] = &Node{Dir: true, Mode: 0755, MTime: genMTime(r)}
		for _, n := range []string{"pkged.go", "pkged.go.bak", "my_pkged.go", "pkged.json", "pkged"} {
			if p := path.Join(d, n); r.Intn(2) == 0 {
				t[p] = &Node{Data: []byte("package elsewhere\n\n// " + n + "\n"), Mode: 0644, MTime: genMTime(r)}
				c.Obs("namesakes", 1)
			}
		}
	}
	t.write(m.Root)
	must(os.MkdirAll(filepath.Dir(gen), 0755))
	pkg := "main"
	if out != "" {
		pkg = path.Base(out)
		if r.Intn(2) == 0 {
			m.write(out+"/doc.go", "package "+pkg+"\n")
		}
	}
	canary := filepath.Join(c.Dir(), "canary")
	must(os.WriteFile(canary, []byte("not to be touched"), 0644))
	var decl, incl []key
	rooted := func() bool {
		for _, k := range append(append([]key{}, decl...), incl...) {
			if within(outPath, k.name) {
				return true
			}
		}
		return false
	}
	code := func() {
		var sb strings.Builder
		sb.WriteString("package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc main() {}\n\n")
		for _, k := range decl {
			fmt.Fprintf(&sb, "var _ = %s\n", declare(r, k, m.Path))
		}
		sb.WriteString("\nvar _ pkger.Dir\n")
		m.write("main.go", sb.String())
	}
	exists := func() []string {
		var ps []string
		for k := range diskSnap(m.Root, "m") {
			_, n := splitPath(k)
			if n == "/" || n == outPath || strings.HasPrefix(n, "/go.") || n == "/main.go" || within(n, path.Dir(outPath)) && out != "" || within(path.Dir(outPath), n) && n != "/" {
				continue
			}
			ps = append(ps, n)
		}
		sort.Strings(ps)
		return ps
	}
	choose := func() {
		decl, incl = nil, nil
		ps := exists()
		if r.Intn(4) == 0 {
			decl = append(decl, key{m.Path, "/"})
			c.Obs("root declared", 1)
		} else if out != "" && r.Intn(3) == 0 {
			decl = append(decl, key{m.Path, "/" + strings.SplitN(out, "/", 2)[0]})
			c.Obs("root declared", 1)
		}
		for i := r.Intn(4); i > 0; i-- {
			decl = append(decl, key{m.Path, ps[r.Intn(len(ps))]})
		}
		for i := r.Intn(2); i > 0; i-- {
			incl = append(incl, key{m.Path, ps[r.Intn(len(ps))]})
		}
		code()
	}
	choose()
	var sig []string
	pack := func(when string) *generated {
		before := rest(diskSnap(m.Root, "m"), outPath)
		fi, err := os.Stat(m.Root + "/main.go")
		must(err)
		ino := fi.Sys().(*syscall.Stat_t).Ino
		var args []string
		if out != "" {
			args = append(args, "-o", out)
		}
		for _, k := range incl {
			args = append(args, "-include", k.str())
		}
		_, se, code := m.run(m.Root, args...)
		if code != 0 {
			c.Fail("pack", "%s: pkger %q exits with %d: %s", when, args, code, se)
		}
		c.Obs("packed", 1)
		fi, err = os.Lstat(gen)
		if err != nil || !fi.Mode().IsRegular() || fi.Mode().Perm()&0600 != 0600 {
			c.Fail("output", "%s: the output is %v, %v", when, fi, err)
		}
		if st := fi.Sys().(*syscall.Stat_t); st.Nlink != 1 {
			c.Fail("output", "%s: the output is linked to from elsewhere", when)
		}
		if d := before.diff(rest(diskSnap(m.Root, "m"), outPath)); d != "" {
			c.Fail("other files", "%s: packing changes: %s", when, d)
		}
		fi, err = os.Stat(m.Root + "/main.go")
		must(err)
		if fi.Sys().(*syscall.Stat_t).Ino != ino {
			c.Fail("other files", "%s: packing replaces main.go", when)
		}
		if b, err := os.ReadFile(canary); err != nil || string(b) != "not to be touched" {
			c.Fail("other files", "%s: packing changes a file that the output was linked to", when)
		}
		g, err := readGenerated(gen)
		if err != nil {
			c.Fail("output", "%s: the output: %v", when, err)
		}
		if g.Pkg != pkg {
			c.Fail("output", "%s: the output is of package %s, not %s", when, g.Pkg, pkg)
		}
		// the present state, without the output
		sel := map[string]string{}
		for _, k := range append(append([]key{}, decl...), incl...) {
			m.expand(sel, k)
		}
		delete(sel, m.Path+":"+outPath)
		want := rest(diskEntries(sel), outPath)
		got, err := fsSnap(g.FS, m.Path+":/")
		if err != nil {
			c.Fail("consistency", "%s: %v", when, err)
		}
		if _, ok := got[m.Path+":"+outPath]; ok {
			c.Fail("itself", "%s: the output is packed into itself", when)
		}
		if d := want.diff(rest(got, outPath)); d != "" {
			c.Fail("present", "%s: declared %v, includes %v: %s", when, decl, incl, d)
		}
		return g
	}
	same := func(when string, a, b *generated) {
		x, err := fsSnap(a.FS, m.Path+":/")
		must(err)
		y, err := fsSnap(b.FS, m.Path+":/")
		must(err)
		if d := rest(x, outPath).diff(rest(y, outPath)); d != "" {
			c.Fail("repeat", "%s: %s", when, d)
		}
		ja, jb := canonical(c, a.FS), canonical(c, b.FS)
		if !rooted() && !bytes.Equal(ja, jb) {
			c.Fail("repeat", "%s: the results differ %s", when, firstDiff(ja, jb))
		}
	}
	for step := 2 + r.Intn(3); step > 0; step-- {
		for i := r.Intn(3); i > 0; i-- {
			// a change
			ps := exists()
			n := ps[r.Intn(len(ps))]
			abs := filepath.Join(m.Root, n)
			fi, err := os.Lstat(abs)
			must(err)
			c.Obs("edits", 1)
			switch {
			case r.Intn(4) == 0:
				choose()
			case fi.IsDir():
				x := filepath.Join(abs, fmt.Sprintf("new%d", r.Intn(100)))
				must(os.WriteFile(x, genData(r, false), 0644))
			case r.Intn(4) == 0:
				must(os.Chmod(abs, 0400|fileModes[r.Intn(len(fileModes))]))
			case r.Intn(4) == 0:
				mt := genMTime(r)
				must(os.Chtimes(abs, mt, mt))
			case r.Intn(3) == 0:
				used := false
				for _, k := range append(append([]key{}, decl...), incl...) {
					used = used || k.name == n
				}
				if !used {
					must(os.Remove(abs))
				}
			case strings.HasSuffix(n, ".go"):
			default:
				os.Chmod(abs, 0644)
				must(os.WriteFile(abs, genData(r, false), 0644))
			}
		}
		g := pack("after edits")
		kind := r.Intn(9)
		left := []string{"as it was", "truncated", "flipped", "foreign", "foreign", "garbage", "modes", "link", "folder"}[kind]
		b, err := os.ReadFile(gen)
		must(err)
		must(os.Remove(gen))
		switch kind {
		case 0:
			must(os.WriteFile(gen, b, 0644))
		case 1:
			must(os.WriteFile(gen, b[:r.Intn(len(b))], 0644))
		case 2:
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			must(os.WriteFile(gen, b, 0644))
		case 3, 4:
			src := []string{
				"package other\n",
				"package " + pkg + "\n\nfunc main() { undefined }\n",
				"package " + pkg + "\n\nimport \"nowhere.test/at/all\"\n",
				"package " + pkg + "\n\nimport \"github.com/markbates/pkger\"\n\nvar _ = pkger.Include(\"/not/there\")\n",
				"package " + pkg + "\n\nimport \"github.com/markbates/pkger\"\n\nfunc init() { pkger.Create(\"/top.txt\"); pkger.MkdirAll(\"/assets\", 0755) }\n",
			}[r.Intn(5)]
			must(os.WriteFile(gen, []byte(src), 0644))
		case 5:
			must(os.WriteFile(gen, genData(r, false), 0644))
		case 6:
			must(os.WriteFile(gen, b, 0644))
			must(os.Chmod(gen, []os.FileMode{0, 0444, 0111, 0200}[r.Intn(4)]))
		case 7:
			switch r.Intn(3) {
			case 0:
				must(os.Symlink(canary, gen))
			case 1:
				must(os.Link(canary, gen))
			default:
				must(os.Symlink("nowhere", gen))
			}
		case 8:
			must(os.MkdirAll(gen+"/sub", 0755))
			must(os.WriteFile(gen+"/sub/x.go", []byte("package sub\n"), 0644))
		}
		c.Obs("left "+left, 1)
		sig = append(sig, left, fmt.Sprint(decl, incl, len(exists())))
		c.Logf("left: %s (%d)", left, kind)
		g2 := pack("over what was left: " + left)
		same("over what was left: "+left, g, g2)
		c.Obs("equal again", 1)
		if r.Intn(2) == 0 && out == "" {
			// listing takes the output away and nothing else
			before := rest(diskSnap(m.Root, "m"), outPath)
			ps := exists()
			_, se, code := m.run(m.Root, "list", "-include", ps[r.Intn(len(ps))])
			if code != 0 {
				c.Fail("list", "pkger list exits with %d: %s", code, se)
			}
			if d := before.diff(rest(diskSnap(m.Root, "m"), outPath)); d != "" {
				c.Fail("other files", "listing changes: %s", d)
			}
			c.Obs("listed", 1)
		}
		if r.Intn(2) == 0 {
			os.RemoveAll(gen)
			same("from scratch", g2, pack("from scratch"))
			c.Obs("equal from scratch", 1)
		}
	}
	c.Distinct(sig)
	c.Sample("%s %q", outPath, sig)
}

// canonical is all of what is packed, apart from what the state of caches
// and the times of access leave in it.
func canonical(c *C, p *mem.Pkger) []byte {
	b, err := p.MarshalJSON()
	if err != nil {
		c.Fail("marshal", "%v", err)
	}
	var x interface{}
	must(json.Unmarshal(b, &x))
	var strip func(interface{})
	strip = func(x interface{}) {
		switch x := x.(type) {
		case map[string]interface{}:
			for _, k := range []string{"sys", "Stale", "StaleReason", "Target"} {
				delete(x, k)
			}
			for _, y := range x {
				strip(y)
			}
		case []interface{}:
			for _, y := range x {
				strip(y)
			}
		}
	}
	strip(x)
	b, err = json.Marshal(x)
	must(err)
	return b
}

// firstDiff shows where two texts part.
func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(x []byte) string {
		to := i + 100
		if to > len(x) {
			to = len(x)
		}
		return string(x[from:to])
	}
	return fmt.Sprintf("at byte %d: ...%q and ...%q", i, cut(a), cut(b))
}
