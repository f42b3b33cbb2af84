package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C08", Level: "exploration",
		Rule:  "random trees with names that are prefixes of each other or sort around '/', in the current and in another package, as embedded, created in-memory and disk file systems; several walks per tree (root, spelling, and callback answers nil, SkipDir, errors of many types chosen per path), some on disk with a directory in the way that cannot be read; the callbacks are compared one by one with those of filepath.Walk on an equal tree. A case counts by tree, roots and answers.",
		Quick: 700, Thorough: 12000,
		MinObs: map[string]int{"walks": 5000, "callbacks": 50000, "skipdir": 1000, "stopped": 500, "unreadable": 100},
		Setup:  setupMods,
		Run:    runC08,
	})
}

// visit is one callback.
type visit struct {
	name string
	e    Entry
}

// what callbacks give up with: their own errors, whatever they look like
var (
	errStop  = errors.New("stop here")
	errStops = []error{
		errStop, errStop, io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrInvalid,
		&os.PathError{Op: "open", Path: "/else/where", Err: syscall.ENOENT},
		&os.PathError{Op: "lstat", Path: "/else/where", Err: syscall.ENOTDIR},
		&os.PathError{Op: "open", Path: "/else/where", Err: syscall.EACCES},
		context.Canceled, syscall.EINTR,
		fmt.Errorf("wrapped: %w", os.ErrNotExist),
		// not the one that skips, for filepath.Walk
		fmt.Errorf("wrapped: %w", filepath.SkipDir),
		errors.New(filepath.SkipDir.Error()),
	}
)

// policy answers callbacks, by path.
type policy map[string]error

func (p policy) String() string {
	var s []string
	for k, v := range p {
		if v != nil {
			s = append(s, fmt.Sprintf("%s=%v", k, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func genPolicy(c *C, t Tree, root string) policy {
	pol := policy{}
	kind := c.R.Intn(5)
	for _, p := range t.Paths() {
		if !within(p, root) {
			continue
		}
		x := c.R.Intn(100)
		switch kind {
		case 1: // prune directories
			if t[p].Dir && x < 30 && p != root {
				pol[p] = filepath.SkipDir
			}
		case 2: // and files
			if x < 15 && (p != root || x < 2) {
				pol[p] = filepath.SkipDir
			}
		case 3: // stop
			if x < 10 {
				pol[p] = errStops[c.R.Intn(len(errStops))]
			}
		case 4:
			if x < 10 {
				pol[p] = filepath.SkipDir
			} else if x < 15 {
				pol[p] = errStops[c.R.Intn(len(errStops))]
			}
		}
	}
	return pol
}

// walkRef is filepath.Walk on the disk.
func walkRef(dir, root string, pol policy) ([]visit, error) {
	var vs []visit
	err := filepath.Walk(filepath.Join(dir, root), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel := filepath.ToSlash(strings.TrimPrefix(p, dir))
		if rel == "" {
			rel = "/"
		}
		vs = append(vs, visit{rel, infoEntry(fi)})
		return pol[rel]
	})
	return vs, err
}

// buildMem creates the tree through the API.
func buildMem(c *C, p pkging.Pkger, pkg string, t Tree) {
	for _, n := range t.Paths() {
		nd := t[n]
		s := pkg + ":" + n
		if nd.Dir {
			if err := p.MkdirAll(s, nd.Mode); err != nil {
				c.Fail("mkdirall", "MkdirAll(%s): %v", s, err)
			}
			continue
		}
		f, err := p.Create(s)
		if err != nil {
			c.Fail("create", "Create(%s): %v", s, err)
		}
		if _, err := f.Write(nd.Data); err != nil {
			c.Fail("write", "Write to %s: %v", s, err)
		}
		if err := f.Close(); err != nil {
			c.Fail("close", "Close of %s: %v", s, err)
		}
	}
}

func runC08(c *C) {
	r := c.R
	m := c.Mods
	trees := map[string]Tree{}
	for _, p := range []string{cur, otherPkgs[0], otherPkgs[1]} {
		trees[p] = genTree(r, TreeOpts{N: 8 + r.Intn(30), Odd: r.Intn(2) == 0})
		// the Go file and go.mod are there anyway
		for _, n := range m.fixed(p) {
			b, err := os.ReadFile(filepath.Join(m.Dirs[p], n))
			must(err)
			trees[p][n] = &Node{Data: b, Mode: 0644, MTime: genMTime(r)}
		}
	}
	m.reset(trees)
	emb, _ := memFS(m.Main, []string{cur, otherPkgs[0], otherPkgs[1]}, trees)
	made, err := memFSEmpty(c, m)
	if err != nil {
		c.Fail("new", "%v", err)
	}
	for p, t := range trees {
		buildMem(c, made, p, t)
	}
	disk := m.disk(c)
	wantEmb := wantSnap(m.Main, trees)
	ref := func(k string) Entry { return wantEmb[k] }

	sig := strings.Join(trees[cur].Paths(), " ")
	for i := 6 + r.Intn(6); i > 0; i-- {
		pkg := []string{cur, cur, otherPkgs[0], otherPkgs[1]}[r.Intn(4)]
		t := trees[pkg]
		root := "/"
		if r.Intn(4) > 0 {
			if ds := t.Dirs(); r.Intn(6) > 0 {
				root = ds[r.Intn(len(ds))]
			} else {
				root = pick(r, t.Files())
			}
		}
		pol := genPolicy(c, t, root)
		s := spell(r, key{pkg, root}, cur)
		sig += fmt.Sprintf("|%s:%s %v", pkg, root, pol)
		// a directory that cannot be read must not go missing silently
		unreadable, mode := "", os.FileMode(0)
		if r.Intn(5) == 0 {
			unreadable = pick(r, t.Dirs())
			if unreadable == "/" || !within(unreadable, root) {
				unreadable = ""
			}
		}
		if unreadable != "" {
			mode = []os.FileMode{0, 0100, 0300, 0400, 0600}[r.Intn(5)]
			must(os.Chmod(m.Dirs[pkg]+unreadable, mode))
		}
		want, wantErr := walkRef(m.Dirs[pkg], root, pol)
		if os.IsPermission(wantErr) && unreadable != "" {
			c.Obs("unreadable", 1)
		}
		c.Logf("walk %s root %s policy %v: %d callbacks, %v", pkg, root, pol, len(want), wantErr)
		for _, impl := range []struct {
			name string
			p    pkging.Pkger
		}{{"embedded", emb}, {"created", made}, {"disk", disk}} {
			if unreadable != "" && impl.name != "disk" {
				continue
			}
			var got []visit
			err := impl.p.Walk(s, func(name string, fi os.FileInfo, err error) error {
				if err != nil && unreadable != "" {
					return err
				}
				if err != nil {
					c.Fail("walk-err", "%s: Walk(%q) calls back for %s with error %v", impl.name, s, name, err)
				}
				p, n := splitPath(name)
				if p != pkg || path.Clean(n) != n || fi == nil {
					c.Fail("walk-name", "%s: Walk(%q) calls back for %q, info %v", impl.name, s, name, fi)
				}
				got = append(got, visit{n, infoEntry(fi)})
				if pol[n] == filepath.SkipDir {
					c.Obs("skipdir", 1)
				}
				return pol[n]
			})
			if unreadable != "" {
				must(os.Chmod(m.Dirs[pkg]+unreadable, 0755))
			}
			c.Obs("walks", 1)
			c.Obs("callbacks", len(got))
			if wantErr != nil {
				c.Obs("stopped", 1)
			}
			if unreadable != "" && os.IsPermission(wantErr) && os.IsPermission(err) {
				err = wantErr
			}
			if err != wantErr && !(wantErr != nil && errors.Is(err, wantErr)) {
				c.Fail("walk-return", "%s: Walk(%q) with answers %v returns %v, want %v", impl.name, s, pol, err, wantErr)
			}
			for j := 0; j < len(want) || j < len(got); j++ {
				switch {
				case j >= len(got):
					c.Fail("walk-missing", "%s: Walk(%q) with answers %v: callback %d should be for %s, there is none", impl.name, s, pol, j, want[j].name)
				case j >= len(want):
					c.Fail("walk-extra", "%s: Walk(%q) with answers %v: callback %d is for %s, there should be none", impl.name, s, pol, j, got[j].name)
				case want[j].name != got[j].name:
					c.Fail("walk-order", "%s: Walk(%q) with answers %v: callback %d is for %s, want %s", impl.name, s, pol, j, got[j].name, want[j].name)
				}
				var d string
				switch impl.name {
				case "disk":
					d = infoDiff(want[j].e, got[j].e)
				case "embedded":
					d = infoDiff(ref(pkg+":"+got[j].name), got[j].e)
				default:
					w := want[j].e
					if got[j].e.Dir != w.Dir || got[j].e.Mode.IsDir() != w.Dir || (got[j].name != "/" && got[j].e.Name != w.Name) || (!w.Dir && got[j].e.Size != w.Size) {
						d = fmt.Sprintf("info %v, want %v", got[j].e, w)
					}
				}
				if d != "" {
					c.Fail("walk-info", "%s: Walk(%q): %s: %s", impl.name, s, got[j].name, d)
				}
			}
		}
	}
	c.Distinct(sig)
	c.Sample("tree, roots and answers: %s", sig)
}
