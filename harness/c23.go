package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C23", Level: "exploration",
		Rule:  "file descriptions with names of any valid UTF-8, boundary and random sizes, every single mode bit and random mode words, boundary and random instants of any year in random zones, whole minutes or not, also those of real files; each is copied with NewFileInfo and taken through one to three JSON round trips, alone, inside a struct, and as ModTime. A case counts by its description.",
		Quick: 20000, Thorough: 400000,
		MinObs: map[string]int{"roundtrips": 20000, "instants": 15000},
		Run:    runC23,
	})
}

// rawInfo is any os.FileInfo.
type rawInfo struct {
	name  string
	size  int64
	mode  os.FileMode
	mtime time.Time
	dir   bool
}

func (r rawInfo) Name() string       { return r.name }
func (r rawInfo) Size() int64        { return r.size }
func (r rawInfo) Mode() os.FileMode  { return r.mode }
func (r rawInfo) ModTime() time.Time { return r.mtime }
func (r rawInfo) IsDir() bool        { return r.dir }
func (r rawInfo) Sys() interface{}   { return nil }

func genInstant(c *C) time.Time {
	r := c.R
	var t time.Time
	switch r.Intn(10) {
	case 8:
		// years that have not got four digits
		y := []int{0, -1, -4712, 10000, 10001, 99999, 292277, -r.Intn(200000), 10000 + r.Intn(200000)}[r.Intn(9)]
		t = time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000), time.UTC)
	case 9:
		// around the instants where the year gets more or fewer digits
		y := []int{0, 1, 10000, 9999}[r.Intn(4)]
		t = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(r.Int63n(int64(60*time.Hour))) - 30*time.Hour)
	case 0:
		t = genMTime(r)
	case 1:
		t = time.Date(1, 1, 2, 0, 0, 0, r.Intn(1000000000), time.UTC)
	case 2:
		t = time.Date(9999, 12, 30, 23, 59, 59, 999999999, time.UTC)
	case 3:
		t = time.Date(1+r.Intn(9998), time.Month(1+r.Intn(12)), 2+r.Intn(26), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000), time.UTC)
	case 4:
		ns := []int{0, 1, 10, 100, 1000, 999, 500000000, 999999999, 123456789, 100000000, 120000000}
		t = time.Date(1+r.Intn(9998), 6, 15, 12, 0, 0, ns[r.Intn(len(ns))], time.UTC)
	case 5:
		t = time.Now()
	case 6:
		t = time.Unix([]int64{0, -1, 1, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 253402214400}[r.Intn(8)], int64(r.Intn(1000000000)))
	default:
		t = time.Unix(r.Int63n(4e9)-1e9, r.Int63n(1e9))
	}
	switch r.Intn(6) {
	case 3:
		// local mean times have seconds
		z := r.Intn(2*24*3600) - 24*3600
		t = t.In(time.FixedZone("LMT", z))
	case 4:
		z := []int{-2670, 1, -1, 59, -59, 24*3600 - 1, 24 * 3600, -24 * 3600, 24*3600 - 60, 1 - 24*3600, 100 * 3600, -25*3600 - 7}[r.Intn(12)]
		t = t.In(time.FixedZone("Z", z))
	case 0:
		z := r.Intn(2*14*60) - 14*60
		t = t.In(time.FixedZone(fmt.Sprintf("z%d", z), z*60))
	case 1:
		t = t.UTC()
	case 2:
		t = t.In(time.FixedZone("", 0))
	}
	return t
}

func genAnyName(c *C) string {
	r := c.R
	switch r.Intn(5) {
	case 0:
		return genName(r)
	case 1:
		return []string{"", "/", ".", "..", "\"", "\\", "`", "<b>&", "\u2028\u2029", "\x7f", "\x01\x1f", "a\nb", "a\tb", "null", "true", "{}", "\uFEFF", "\U0001F600", "é", "e\u0301"}[r.Intn(20)]
	}
	var s []rune
	for n := r.Intn(20); n > 0; n-- {
		x := rune(r.Intn(0x300))
		switch r.Intn(6) {
		case 0:
			x = rune(r.Intn(0x10FFFF))
		case 1:
			x = rune('a' + r.Intn(26))
		}
		if x >= 0xD800 && x < 0xE000 {
			x = 'x'
		}
		s = append(s, x)
	}
	return string(s)
}

func runC23(c *C) {
	r := c.R
	var in os.FileInfo
	if c.Idx%20 == 0 {
		p := filepath.Join(c.Dir(), genName(r))
		if r.Intn(3) == 0 {
			must(os.Mkdir(p, 0755))
			must(os.Chmod(p, dirModes[r.Intn(len(dirModes))]))
		} else {
			must(os.WriteFile(p, genData(r, false), 0644))
			must(os.Chmod(p, fileModes[r.Intn(len(fileModes))]))
		}
		mt := genMTime(r)
		must(os.Chtimes(p, mt, mt))
		fi, err := os.Lstat(p)
		must(err)
		in = fi
	} else {
		x := rawInfo{name: genAnyName(c), mtime: genInstant(c), dir: r.Intn(3) == 0}
		x.size = []int64{0, 1, -1, 4096, 1 << 31, 1<<31 - 1, 1<<53 + 1, 1<<63 - 1, -1 << 63, r.Int63(), int64(r.Intn(1 << 20))}[r.Intn(11)]
		switch r.Intn(4) {
		case 0:
			x.mode = os.FileMode(1) << uint(c.Idx%32)
		case 1:
			x.mode = os.FileMode(r.Uint32())
		case 2:
			x.mode = fileModes[r.Intn(len(fileModes))]
		case 3:
			x.mode = os.FileMode(r.Intn(01000)) | []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeCharDevice | os.ModeDevice, os.ModeIrregular, os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSetuid | os.ModeSetgid | os.ModeSticky}[r.Intn(11)]
		}
		in = x
	}
	want := infoEntry(in)
	check := func(what string, fi os.FileInfo) {
		g := infoEntry(fi)
		var d string
		switch {
		case g.Name != want.Name:
			d = fmt.Sprintf("name %q, want %q", g.Name, want.Name)
		case g.Size != want.Size:
			d = fmt.Sprintf("size %d, want %d", g.Size, want.Size)
		case g.Mode != want.Mode:
			d = fmt.Sprintf("mode %o, want %o", uint32(g.Mode), uint32(want.Mode))
		case !g.MTime.Equal(want.MTime):
			d = fmt.Sprintf("time %v, want %v", g.MTime, want.MTime)
		case g.Dir != want.Dir:
			d = fmt.Sprintf("IsDir %v, want %v", g.Dir, want.Dir)
		}
		if d != "" {
			c.Fail("info", "%s: %s (of %v)", what, d, want)
		}
	}
	fi := pkging.NewFileInfo(in)
	check("NewFileInfo", fi)
	if fi.Sys() != in.Sys() {
		c.Fail("sys", "Sys() is %v after NewFileInfo, was %v", fi.Sys(), in.Sys())
	}
	check("NewFileInfo of it", pkging.NewFileInfo(fi))
	// of Sys os types do not come back
	var prev []byte
	for i := 1 + r.Intn(3); i > 0; i-- {
		var b []byte
		var err error
		if r.Intn(2) == 0 {
			b, err = json.Marshal(fi)
		} else {
			b, err = json.MarshalIndent(fi, "", " ")
		}
		if err != nil {
			c.Fail("marshal", "marshalling %v: %v", want, err)
		}
		out := &pkging.FileInfo{}
		if err := json.Unmarshal(b, out); err != nil {
			c.Fail("unmarshal", "unmarshalling %s: %v", b, err)
		}
		check("after a round trip", out)
		check("String after a round trip", fromString(c, out))
		c.Obs("roundtrips", 1)
		fi = out
		canon, err := json.Marshal(fi)
		if err != nil {
			c.Fail("marshal", "marshalling %v again: %v", want, err)
		}
		if prev != nil && string(prev) != string(canon) {
			c.Fail("unstable", "the second round trip gives %s after %s", canon, prev)
		}
		prev = canon
	}
	// within other structures, as pointer and value
	type box struct {
		T pkging.ModTime
		P *pkging.ModTime
		M map[string]pkging.ModTime
	}
	mt := pkging.ModTime(in.ModTime())
	b, err := json.Marshal(box{mt, &mt, map[string]pkging.ModTime{"x": mt}})
	if err != nil {
		c.Fail("marshal", "ModTime %v: %v", in.ModTime(), err)
	}
	var bx box
	if err := json.Unmarshal(b, &bx); err != nil {
		c.Fail("unmarshal", "ModTime %s: %v", b, err)
	}
	if bx.P == nil {
		c.Fail("modtime", "ModTime %v is lost", in.ModTime())
	}
	for _, t := range []pkging.ModTime{bx.T, *bx.P, bx.M["x"]} {
		if !time.Time(t).Equal(in.ModTime()) {
			c.Fail("modtime", "ModTime %v comes back as %v", in.ModTime(), time.Time(t))
		}
		c.Obs("instants", 1)
	}
	c.Distinct(want.String(), in.ModTime().String())
	c.Sample("%s", want)
}

// fromString reads what String prints.
func fromString(c *C, fi *pkging.FileInfo) os.FileInfo {
	out := &pkging.FileInfo{}
	if err := json.Unmarshal([]byte(fi.String()), out); err != nil {
		c.Fail("string", "String gives %q: %v", fi.String(), err)
	}
	return out
}
