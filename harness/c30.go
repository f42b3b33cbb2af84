package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() {
	register(&Check{
		ID: "C30", Level: "exploration",
		Rule:  "hostile input: (a) serialised file systems, valid ones with parts replaced, removed, doubled or of other types and bytes changed, are rehydrated directly and as blobs; what is accepted is then used - walked, read, listed, changed, serialised again; (b) strings of arbitrary bytes, and paths with hostile parts, as arguments of every function of the memory and disk implementations and the package-level API; (c) Go packages with tokens and bytes removed, doubled, replaced and swapped are parsed, twice; (d) the command with arbitrary arguments. Monitors: no panic, no call that does not return within its deadline (and no worker beyond its address-space limit), the same answer to the same question, and rehydrating what was written back gives the same. A case counts by its inputs.",
		Quick: 2000, Thorough: 60000,
		MinObs: map[string]int{"documents": 4000, "accepted documents": 400, "refused documents": 1500, "strings": 12000, "mutated packages": 300, "packages still parsed": 60, "commands": 150},
		Setup:  setupCode,
		Run:    runC30,
	})
}

// guard reports a panic as what it is.
func guard(c *C, what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, skip, harnessError:
				panic(e)
			}
			st := string(debug.Stack())
			if !fromPkger(st) {
				panic(e)
			}
			c.Fail("panic in "+panicIn(st), "%s: panic: %v\n%s", what, e, trimStack([]byte(st)))
		}
	}()
	fn()
}

// panicIn is the innermost function of pkger.
func panicIn(stack string) string {
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/markbates/pkger/") {
			l = strings.TrimPrefix(l, "github.com/markbates/pkger/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

func runC30(c *C) {
	switch x := c.Idx % 16; {
	case x < 7:
		hostileDocs(c)
	case x < 12:
		hostileStrings(c)
	case x < 15:
		hostileSources(c)
	default:
		hostileArgs(c)
	}
}

// mutate changes one part of a decoded document.
func mutateJSON(r *rand.Rand, v interface{}) interface{} {
	junk := func() interface{} {
		switch r.Intn(12) {
		case 0:
			return nil
		case 1:
			return map[string]interface{}{}
		case 2:
			return []interface{}{}
		case 3:
			return ""
		case 4:
			return float64(r.Intn(100) - 50)
		case 5:
			return true
		case 6:
			return hostileString(r)
		case 7:
			return -1e300
		case 8:
			return []interface{}{nil, "x", 1.5}
		case 9:
			return map[string]interface{}{"": nil, "Name": 1, "details": nil, "info": nil}
		case 10:
			return "2019-13-45T99:99:99Z"
		default:
			return "AAAA"
		}
	}
	switch t := v.(type) {
	case map[string]interface{}:
		if len(t) == 0 || r.Intn(6) == 0 {
			return junk()
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		k := ks[r.Intn(len(ks))]
		switch r.Intn(8) {
		case 0:
			delete(t, k)
		case 1:
			t[hostileString(r)] = t[k]
		case 2:
			x := t[k]
			delete(t, k)
			t[hostileString(r)] = x
		case 3:
			t[k] = t[ks[r.Intn(len(ks))]]
		case 4:
			t[k] = junk()
		default:
			t[k] = mutateJSON(r, t[k])
		}
		return t
	case []interface{}:
		if len(t) == 0 || r.Intn(3) == 0 {
			return junk()
		}
		i := r.Intn(len(t))
		t[i] = mutateJSON(r, t[i])
		return t
	}
	return junk()
}

var hostileParts = []string{"..", ".", "", "/", "//", ":", ":/", "\\", "\x00", "\xff\xfe", " ", "\n", "%2e", "~", "$HOME", "C:", "app", cur, "other.test/lib", "…", "\u202e", "é", "`", "\"", "{}", "*", "?", "[", "-", "--", "@v1.2.3", "go.mod", "x.go", "no.such/pkg", strings.Repeat("a", 300), strings.Repeat("../", 50)}

func hostileString(r *rand.Rand) string {
	var b strings.Builder
	for i := r.Intn(6); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			b.WriteByte(byte(r.Intn(256)))
		case 1:
			b.WriteString("/")
		default:
			b.WriteString(hostileParts[r.Intn(len(hostileParts))])
		}
	}
	return b.String()
}

// exercise uses a file system whatever it is.
func exercise(c *C, what string, p pkging.Pkger) {
	r := c.R
	guard(c, what, func() {
		var names []string
		var infos []os.FileInfo
		p.Current()
		for _, pkg := range []string{"", cur + ":", otherPkgs[0] + ":", ":", hostileString(r)} {
			p.Walk(pkg+"/", func(n string, fi os.FileInfo, err error) error {
				if fi == nil && err == nil {
					c.Fail("no-info", "%s: Walk calls with no info and no error for %s", what, n)
				}
				names = append(names, n)
				infos = append(infos, fi)
				return nil
			})
		}
		for _, fi := range infos {
			if fi != nil {
				fi.Name()
				fi.IsDir()
				fi.Mode()
				fi.ModTime()
				fi.Size()
				fi.Sys()
			}
		}
		for i, n := range append(names, "/a", "/", hostileString(r)) {
			if i > 60 {
				break
			}
			p.Stat(n)
			f, err := p.Open(n)
			if err != nil {
				continue
			}
			if f == nil {
				c.Fail("no-file", "%s: Open(%q) returns neither a file nor an error", what, n)
			}
			f.Name()
			f.Path()
			f.Info()
			f.Stat()
			if _, err := io.Copy(io.Discard, io.LimitReader(f, 1<<20)); err == nil {
				f.Seek(0, 0)
			}
			f.Readdir(1)
			f.Readdir(-1)
			if g, err := f.Open("/a"); err == nil {
				g.Close()
			}
			f.Close()
		}
		pkgutil.Dump(io.Discard, p)
		if f, err := p.Create("/new"); err == nil {
			f.Write([]byte("x"))
			f.Close()
		}
		p.MkdirAll("/a/b/new", 0755)
		if len(names) > 0 {
			p.Remove(names[r.Intn(len(names))])
			p.RemoveAll(names[r.Intn(len(names))])
		}
	})
}

func hostileDocs(c *C) {
	r := c.R
	trees := map[string]Tree{cur: genTree(r, TreeOpts{N: 1 + r.Intn(6)}), otherPkgs[0]: genTree(r, TreeOpts{N: 1 + r.Intn(3)})}
	p, _ := memFS(mainInfo("/app", cur), []string{cur, otherPkgs[0]}, trees)
	valid, err := json.Marshal(p)
	must(err)
	for i := 0; i < 6; i++ {
		var doc []byte
		if r.Intn(4) == 0 {
			doc = append([]byte{}, valid...)
			for n := 1 + r.Intn(3); n > 0 && len(doc) > 0; n-- {
				x := r.Intn(len(doc))
				switch r.Intn(4) {
				case 0:
					doc[x] = byte(r.Intn(256))
				case 1:
					doc = append(doc[:x], doc[x+1:]...)
				case 2:
					doc = doc[:x]
				default:
					y := x + r.Intn(len(doc)-x)
					doc = append(doc[:x:x], doc[y:]...)
				}
			}
		} else {
			var v interface{}
			must(json.Unmarshal(valid, &v))
			for n := 1 + r.Intn(4); n > 0; n-- {
				v = mutateJSON(r, v)
			}
			doc, err = json.Marshal(v)
			must(err)
			if r.Intn(40) == 0 {
				doc = []byte([]string{"null", "", "{}", "[]", " ", "0", "\"\"", "{\"files\":null}", "{\"Files\":{\"\":{}}}", "nul"}[r.Intn(10)])
			}
		}
		c.Obs("documents", 1)
		c.Distinct(string(doc))
		c.Sample("document %.300q", doc)
		var q *mem.Pkger
		var uerr error
		guard(c, fmt.Sprintf("rehydrating %s", cut(string(doc))), func() {
			if r.Intn(2) == 0 {
				q = &mem.Pkger{}
				uerr = json.Unmarshal(doc, q)
			} else {
				b, err := embed.Encode(doc)
				if err != nil {
					c.Fail("encode", "Encode: %v", err)
				}
				q, uerr = mem.UnmarshalEmbed(b)
			}
		})
		c.Logf("%s: %v", cut(string(doc)), uerr)
		if uerr != nil {
			c.Obs("refused documents", 1)
			continue
		}
		c.Obs("accepted documents", 1)
		if strings.TrimSpace(string(doc)) == "null" {
			// json leaves what it is given alone
			continue
		}
		what := "what was rehydrated from " + cut(string(doc))
		// what was accepted can be written, and is the same when it is back
		guard(c, what, func() {
			b, err := json.Marshal(q)
			if err != nil {
				c.Fail("remarshal", "%s does not serialise: %v", what, err)
			}
			q2 := &mem.Pkger{}
			if err := json.Unmarshal(b, q2); err != nil {
				c.Fail("remarshal", "%s, serialised again, is refused: %v\n%s", what, err, cut(string(b)))
			}
			b2, err := json.Marshal(q2)
			if err != nil || !bytes.Equal(b, b2) {
				c.Fail("remarshal", "%s changes with every round trip (%v):\n%s\n%s", what, err, cut(string(b)), cut(string(b2)))
			}
		})
		exercise(c, what, q)
	}
	// the smaller ones
	for i := 0; i < 10; i++ {
		var v interface{}
		k := r.Intn(4)
		must(json.Unmarshal([]byte([]string{
			`{"details":{"name":"f","size":1,"mode":420,"mod_time":"2020-01-02T03:04:05.000000006Z","is_dir":false,"sys":null}}`,
			`{"Pkg":"a.test","Name":"/b"}`,
			`{"info":{"details":{"name":"f","size":1,"mode":420,"mod_time":"2020-01-02T03:04:05Z","is_dir":false}},"her":{},"path":{"Pkg":"a","Name":"/b"},"data":"AAAA","parent":{}}`,
			`{"type":"x","file":{"Abs":"/a"},"pos":{},"value":"x"}`}[k]), &v))
		if r.Intn(5) > 0 {
			v = mutateJSON(r, v)
		}
		doc, err := json.Marshal(v)
		must(err)
		guard(c, "decoding "+string(doc), func() {
			switch k {
			case 0:
				fi := &pkging.FileInfo{}
				if json.Unmarshal(doc, fi) == nil {
					_ = fi.String()
				}
			case 1:
				pt := here.Path{}
				if json.Unmarshal(doc, &pt) == nil {
					_ = pt.String()
				}
			case 2:
				f := embed.File{}
				json.Unmarshal(doc, &f)
			default:
				var t pkging.ModTime
				json.Unmarshal(doc, &t)
				if s, ok := v.(string); ok {
					json.Unmarshal([]byte(s), &t)
				}
				_ = time.Time(t).String()
			}
		})
		c.Obs("small documents", 1)
	}
}

func hostileStrings(c *C) {
	r := c.R
	m := c.Mods
	t := genTree(r, TreeOpts{N: 5})
	m.reset(map[string]Tree{cur: t})
	p, _ := memFS(m.Main, m.Pkgs, map[string]Tree{cur: t})
	disk := m.disk(c)
	before := m.snap()
	nothing := func(string, os.FileInfo, error) error { return nil }
	level := r.Intn(2) == 0
	var q pkging.Pkger = p
	if level {
		install(p)
		q = api{}
	}
	for i := 0; i < 25; i++ {
		s := hostileString(r)
		if r.Intn(3) == 0 {
			all := t.Paths()
			s = spell(r, key{cur, all[r.Intn(len(all))]}, cur) + hostileString(r)
		}
		c.Obs("strings", 1)
		c.Distinct(s)
		c.Sample("argument %.300q", s)
		n := r.Intn(6)
		guard(c, fmt.Sprintf("call %d with %q", n, s), func() {
			// the same question twice
			pt, err := q.Parse(s)
			pt2, err2 := q.Parse(s)
			if pt != pt2 || fate(err) != fate(err2) {
				c.Fail("unsteady", "Parse(%q) is %v, %v, and then %v, %v", s, pt, err, pt2, err2)
			}
			if err == nil && (!strings.HasPrefix(pt.Name, "/") || strings.Contains(pt.Name, "/../") || strings.HasSuffix(pt.Name, "/..") || strings.Contains(pt.Name, "//")) {
				c.Fail("parse", "Parse(%q) is %v, which is not absolute and clean", s, pt)
			}
			fi, err := q.Stat(s)
			if (fi == nil) != (err != nil) {
				c.Fail("stat", "Stat(%q) = %v, %v", s, fi, err)
			}
			f, err := q.Open(s)
			if (f == nil) != (err != nil) {
				c.Fail("open", "Open(%q) = %v, %v", s, f, err)
			}
			if err == nil {
				if g, err := f.Open(hostileString(r)); err == nil {
					g.Close()
				}
				f.Close()
			}
			if f, err := pkger.Dir(s).Open(hostileString(r)); err == nil {
				f.Close()
			}
			q.Walk(s, nothing)
			q.Info(s)
			switch n {
			case 0:
				f, err := q.Create(s)
				if err == nil {
					f.Write([]byte(s))
					f.Close()
					if _, err := q.Stat(s); err != nil {
						c.Fail("create", "Create(%q) works, but then Stat says %v", s, err)
					}
				}
			case 1:
				if q.MkdirAll(s, os.FileMode(r.Uint32())) == nil {
					if _, err := q.Stat(s); err != nil {
						c.Fail("mkdirall", "MkdirAll(%q) works, but then Stat says %v", s, err)
					}
				}
			case 2:
				if q.Remove(s) == nil {
					if _, err := q.Stat(s); err == nil {
						c.Fail("remove", "Remove(%q) works, but it still is there", s)
					}
				}
			case 3:
				if q.RemoveAll(s) == nil {
					if _, err := q.Stat(s); err == nil {
						c.Fail("removeall", "RemoveAll(%q) works, but it still is there", s)
					}
				}
			}
			// the disk, for reading, without asking the go command each time
			pt, err = disk.Parse(s)
			if err == nil && (m.Infos[pt.Pkg].Dir != "" || i == 0) {
				fi, err := disk.Stat(s)
				if (fi == nil) != (err != nil) {
					c.Fail("stat", "on disk Stat(%q) = %v, %v", s, fi, err)
				}
				f, err := disk.Open(s)
				if err == nil {
					f.Name()
					f.Readdir(1)
					f.Close()
				} else if f != nil {
					c.Fail("open", "on disk Open(%q) = %v, %v", s, f, err)
				}
				disk.Walk(s, nothing)
			}
		})
	}
	if d := before.diff(m.snap()); d != "" {
		c.Fail("disk", "reading changes the disk: %s", d)
	}
	b, err := json.Marshal(p)
	if err != nil {
		c.Fail("marshal", "after that the file system does not serialise: %v", err)
	}
	n := &mem.Pkger{}
	if err := json.Unmarshal(b, n); err != nil {
		c.Fail("marshal", "after that the file system does not rehydrate: %v", err)
	}
	exercise(c, "the file system after hostile calls", p)
}

var goTokens = []string{"(", ")", "{", "}", "[", "]", ",", ";", ":=", "=", "...", ".", "pkger", "pkger.Open", "pkger.Walk(", "pkger.Dir", "pkger.Dir(", "pkger.Include(", "nil", "func", "func()", "interface{}", "type T", "const c = ", "var v = ", "\"x\"", "`", "'a'", "1", "-", "*", "&", "<-", "go ", "defer ", "return", "import ", "\n", "//", "/*", "T[int]", "[int]", "_", "iota", "\x00", "\xff", "if ", "for ", "switch ", "select {", "case ", "goto x", "x:", "struct{", "map[string]", "chan ", "~int", "any", "pkger.Open()", "pkger.Stat(\"a\", \"b\")", "pkger.Walk(\"/x\")", "pkger.MkdirAll(\"/d\")", "pkger.Dir()", "pkger.Open(p...)", "pkger.Create(`/c`)", "(pkger).Open(\"/o\")", "pkger.Open((\"/p\"))", "pkger.Open(\"/\" + \"q\")", "pkger.Open(string(\"r\"))", "pkger.Open(pkger.Include(\"/s\"))"}

func hostileSources(c *C) {
	r := c.R
	m := c.Mods
	for i := 0; i < 4; i++ {
		m.reset(nil)
		root := m.Dirs[cur]
		o := SrcOpts{Name: "app", Files: 1 + r.Intn(2), Stmts: 3, NoRun: true,
			Static: func() string { return genValue(c) }, Virtual: func() string { return genValue(c) }}
		srcs, _ := genPackage(r, o)
		var names []string
		for n := range srcs {
			names = append(names, n)
		}
		sort.Strings(names)
		var all []string
		for _, n := range names {
			s := srcs[n]
			for k := 1 + r.Intn(5); k > 0; k-- {
				x := r.Intn(len(s) + 1)
				if r.Intn(2) == 0 {
					// at a token
					if y := strings.IndexAny(s[x:], " (){}[],.\n\t"); y >= 0 {
						x += y
					}
				}
				switch r.Intn(4) {
				case 0:
					y := x + r.Intn(20)
					if y > len(s) {
						y = len(s)
					}
					s = s[:x] + s[y:]
				case 1:
					s = s[:x] + goTokens[r.Intn(len(goTokens))] + s[x:]
				case 2:
					y := r.Intn(len(s) + 1)
					z := y + r.Intn(40)
					if z > len(s) {
						z = len(s)
					}
					s = s[:x] + s[y:z] + s[x:]
				default:
					// declarations that are valid alone
					s += "\n" + []string{"func init() { pkger.Open }", "var _ = pkger.Open", "func _() { pkger.Walk(\"/w\") }", "func _() { pkger.Open() }", "func _() { pkger.Dir() }", "var x, y = pkger.Open(\"/a\"), pkger.Dir", "const k = pkger.Open(\"/k\")", "func _() { pkger.Stat(nil) }", "func _() { pkger.Include(1 + \"x\") }",
						"const ( a0 = a1; a1 = a0 )", "func _() { pkger.Open(a0) }", "func _() { pkger.Open(zz9) ; var zz9 = zz9 }", "const sh = 1 << 1e9", "func _() { pkger.Open(string(rune(1<<60))) }", "func _() { pkger.Open(\"a\"[0:1]) }", "func _() { pkger.Open(\"a\" - \"b\") }", "func _() { pkger.Open(-\"a\") }", "func _() { pkger.Open(1/0) }", "func _() { pkger.Open(\"x\" + 1/0) }", "func _() { pkger.Open(len(\"x\")) }", "const ( i0 = iota; i1; i2 )", "const ( p0, p1 = \"/p\"; p2 )", "func _() { pkger.Open(p1); pkger.Open(p2) }", "const self = self + \"x\"", "func _() { pkger.Open(self) }",
						"import \"github.com/markbates/pkger\"", "package again"}[r.Intn(27)] + "\n"
				}
			}
			must(os.WriteFile(filepath.Join(root, n), []byte(s), 0644))
			all = append(all, n+":\n"+s)
		}
		text := strings.Join(all, "\n")
		c.Obs("mutated packages", 1)
		c.Distinct(text)
		var first string
		for k := 0; k < 2; k++ {
			var got string
			guard(c, "parsing "+cutLong(text), func() {
				var found []string
				decls, err := parser.Parse(m.Main)
				got = fate(err)
				if err == nil {
					if k == 0 {
						c.Obs("packages still parsed", 1)
					}
					for _, d := range decls {
						d.File()
						d.Position()
						d.Value()
						b, err := json.Marshal(d)
						if err != nil {
							c.Fail("json", "%v does not serialise: %v", d, err)
						}
						found = append(found, string(b))
					}
					// in which order is not specified
					sort.Strings(found)
					got += strings.Join(found, "\n")
				}
			})
			if k == 0 {
				first = got
			} else if first != got {
				c.Fail("unsteady", "parsing the same package twice gives %s, then %s:\n%s", first, got, cutLong(text))
			}
		}
	}
}

func cutLong(s string) string {
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func hostileArgs(c *C) {
	r := c.R
	m := c.Mods
	m.reset(map[string]Tree{cur: genTree(r, TreeOpts{N: 3})})
	cmds := []string{"list", "parse", "path", "stat", "info", "", "-h", "help", "--", "-json", "-x", "list -json", "parse -json", "version"}
	for i := 0; i < 3; i++ {
		args := strings.Fields(cmds[r.Intn(len(cmds))])
		for k := r.Intn(3); k > 0; k-- {
			s := strings.ReplaceAll(hostileString(r), "\x00", "0")
			args = append(args, s)
		}
		if len(args) == 0 || args[0] != "list" && args[0] != "parse" && args[0] != "path" && args[0] != "stat" && args[0] != "info" {
			// others pack: to a place of their own
			args = append([]string{"-o", "out"}, args...)
		}
		so, se, code, err := runCmd(m.Dirs[cur], nil, c.Pkger, args...)
		if err != nil {
			c.Inconclusive("%v", err)
		}
		c.Obs("commands", 1)
		c.Sample("command pkger %.300q", args)
		c.Logf("pkger %q: exit %d", args, code)
		if strings.Contains(se, "goroutine 1 [") || strings.Contains(se, "panic: ") && strings.Contains(se, ".go:") {
			c.Fail("panic", "pkger %q: %s", args, trimStack([]byte(se)))
		}
		if code < 0 || code > 2 {
			c.Fail("exit", "pkger %q exits with %d: %s %s", args, code, cut(so), cut(se))
		}
		c.Distinct(args)
	}
}
