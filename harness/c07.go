package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C07", Level: "exploration",
		Rule:  "1..3 files of boundary and random sizes, embedded or written in random chunks; random interleavings of Read (any buffer size), Seek (any whence and offset, also invalid ones), Write, Close on up to 6 handles, each watched by its own offset automaton. A case counts by its sizes and calls.",
		Quick: 6000, Thorough: 120000,
		MinObs: map[string]int{"reads": 20000, "seeks": 10000, "eof": 3000, "writes": 2000},
		Run:    runC07,
	})
}

// rh is an open handle and what it must do next.
type rh struct {
	f      pkging.File
	name   string
	data   []byte
	off    int64
	closed bool
	write  bool
	wrote  []byte
	gone   bool
}

func c07Data(r *rand.Rand, tag string) []byte {
	var n int
	switch r.Intn(4) {
	case 0:
		n = sizes[r.Intn(len(sizes))]
	default:
		n = r.Intn(40)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + len(tag)*31 + r.Intn(2))
	}
	return b
}

func runC07(c *C) {
	r := c.R
	info := mainInfo("/app", cur)
	names := []string{"/f", "/d/f", "/d/ff"}[:1+r.Intn(3)]
	content := map[string][]byte{}
	var p *mem.Pkger
	if r.Intn(2) == 0 {
		t := Tree{"/": {Dir: true, Mode: 0755}, "/d": {Dir: true, Mode: 0755}}
		for _, n := range names {
			content[n] = c07Data(r, n)
			t[n] = &Node{Data: append([]byte{}, content[n]...), Mode: 0644}
		}
		p, _ = memFS(info, []string{cur}, map[string]Tree{cur: t})
	} else {
		var err error
		p, err = mem.New(info)
		if err != nil {
			c.Fail("new", "mem.New: %v", err)
		}
		if err := p.MkdirAll("/d", 0755); err != nil {
			c.Fail("mkdir", "MkdirAll: %v", err)
		}
		for _, n := range names {
			f, err := p.Create(n)
			if err != nil {
				c.Fail("create", "Create(%s): %v", n, err)
			}
			content[n] = c07Data(r, n)
			left := content[n]
			for len(left) > 0 || r.Intn(4) == 0 {
				k := 0
				if len(left) > 0 {
					k = 1 + r.Intn(len(left))
				}
				chunk := append([]byte{}, left[:k]...)
				m, err := f.Write(chunk)
				if m != k || err != nil {
					c.Fail("write", "Write of %d bytes = %d, %v", k, m, err)
				}
				for i := range chunk {
					chunk[i] ^= 0x55
				}
				left = left[k:]
				c.Obs("writes", 1)
			}
			if err := f.Close(); err != nil {
				c.Fail("close", "Close: %v", err)
			}
		}
	}
	var hs []*rh
	sig := fmt.Sprint(len(content[names[0]]))
	openH := func() *rh {
		n := names[r.Intn(len(names))]
		f, err := p.Open(n)
		if err != nil {
			c.Fail("open", "Open(%s): %v", n, err)
		}
		fi, err := f.Stat()
		if err != nil || fi.Size() != int64(len(content[n])) {
			c.Fail("stat-size", "Stat of %s: size %v, %v; it has %d bytes", n, fi, err, len(content[n]))
		}
		h := &rh{f: f, name: n, data: content[n]}
		hs = append(hs, h)
		c.Logf("h%d = open %s (%d bytes)", len(hs)-1, n, len(h.data))
		return h
	}
	openH()
	for i := 10 + r.Intn(50); i > 0; i-- {
		h := hs[r.Intn(len(hs))]
		x := r.Intn(100)
		sig += fmt.Sprint(x, ",")
		switch {
		case x < 8 && len(hs) < 6:
			openH()
		case x < 16:
			rewrite(c, p, names[r.Intn(len(names))], content, &hs)
		case x < 20:
			err := h.f.Close()
			c.Logf("close %s = %v", h.name, err)
			if err != nil && !h.closed {
				c.Fail("close", "Close of %s: %v", h.name, err)
			}
			if !h.closed && h.write && !h.gone {
				content[h.name] = h.wrote
			}
			h.closed = true
		case x < 55:
			c07Seek(c, h)
		case x < 60 && !h.closed && !h.write:
			c07Bulk(c, h)
		default:
			c07Read(c, h)
		}
	}
	for _, h := range hs {
		if h.write && !h.closed {
			if err := h.f.Close(); err != nil {
				c.Fail("close", "Close: %v", err)
			}
			h.closed = true
			if !h.gone {
				content[h.name] = h.wrote
			}
		}
	}
	// everything that was written, nothing that was not
	for _, n := range names {
		f, err := p.Open(n)
		if err != nil {
			c.Fail("open", "Open(%s): %v", n, err)
		}
		got, err := readAll(f)
		if err != nil || got != string(content[n]) {
			c.Fail("final", "%s finally reads %s, %v; want %s", n, short(got), err, short(string(content[n])))
		}
		fi, _ := f.Stat()
		if fi.Size() != int64(len(content[n])) {
			c.Fail("final-size", "%s has size %d and %d bytes", n, fi.Size(), len(content[n]))
		}
		f.Close()
	}
	c.Distinct(sig)
	c.Sample("files %v, %d handles, calls %s", names, len(hs), sig)
}

// rewrite replaces a file, now or when the handle is closed.
func rewrite(c *C, p *mem.Pkger, name string, content map[string][]byte, hs *[]*rh) {
	r := c.R
	for _, h := range *hs {
		if h.write && !h.closed && h.name == name {
			// one writer per file: this one goes on
			b := c07Data(r, name)
			n, err := h.f.Write(b)
			c.Logf("write %d to %s = %d %v", len(b), name, n, err)
			if n != len(b) || err != nil {
				c.Fail("write", "Write of %d bytes = %d, %v", len(b), n, err)
			}
			h.wrote = append(h.wrote, b...)
			for i := range b {
				b[i] = '!'
			}
			c.Obs("writes", 1)
			return
		}
	}
	f, err := p.Create(name)
	c.Logf("create %s = %v", name, err)
	if err != nil {
		c.Fail("create", "Create(%s): %v", name, err)
	}
	h := &rh{f: f, name: name, write: true}
	for i := r.Intn(3); i > 0; i-- {
		b := c07Data(r, name)
		n, err := f.Write(b)
		if n != len(b) || err != nil {
			c.Fail("write", "Write of %d bytes = %d, %v", len(b), n, err)
		}
		h.wrote = append(h.wrote, b...)
		for i := range b {
			b[i] = '!'
		}
		c.Obs("writes", 1)
	}
	content[name] = nil // truncated
	if r.Intn(2) == 0 {
		if err := f.Close(); err != nil {
			c.Fail("close", "Close: %v", err)
		}
		h.closed = true
		content[name] = h.wrote
		c.Logf("close, %d bytes", len(h.wrote))
	}
	*hs = append(*hs, h)
}

func c07Read(c *C, h *rh) {
	r := c.R
	size := []int{0, 1, 2, 3, 7, 16, 100, 511, 512, 513, 4096, 32768, 70000}[r.Intn(13)]
	buf := make([]byte, size)
	if h.write && !h.closed {
		return // reading what is being written is not specified
	}
	n, err := h.f.Read(buf)
	c.Logf("read(%d) of %s at %d/%d = %d %v", size, h.name, h.off, len(h.data), n, err)
	c.Obs("reads", 1)
	if h.closed {
		if n != 0 || err == nil {
			c.Fail("read-closed", "Read on a closed file = %d, %v", n, err)
		}
		if w, err := h.f.Write([]byte("late")); w != 0 || err == nil {
			c.Fail("write-closed", "Write on a closed file = %d, %v", w, err)
		}
		h.f.Close()
		return
	}
	left := int64(len(h.data)) - h.off
	if left < 0 {
		left = 0
	}
	if n < 0 || int64(n) > left || n > size {
		c.Fail("read-count", "Read(%d) at %d of %d = %d", size, h.off, len(h.data), n)
	}
	if !bytes.Equal(buf[:n], h.data[h.off%int64(len(h.data)+1):][:n]) && n > 0 {
		c.Fail("read-data", "Read at %d of %s returned other bytes", h.off, h.name)
	}
	h.off += int64(n)
	for i := range buf {
		buf[i] = 0xEE // must not reach the stored file
	}
	switch {
	case size == 0:
		if err != nil && !(err == io.EOF && left == 0) {
			c.Fail("read-empty", "Read into an empty buffer: %v", err)
		}
	case left == 0:
		if n != 0 || err != io.EOF {
			c.Fail("eof", "Read at the end (%d of %d) = %d, %v; want io.EOF", h.off, len(h.data), n, err)
		}
		c.Obs("eof", 1)
	default:
		if n == 0 {
			c.Fail("read-nothing", "Read(%d) with %d bytes left = 0, %v", size, left, err)
		}
		if err != nil && !(err == io.EOF && int64(n) == left) {
			c.Fail("read-err", "Read(%d) with %d bytes left = %d, %v", size, left, n, err)
		}
	}
}

func c07Seek(c *C, h *rh) {
	r := c.R
	if h.write && !h.closed {
		return
	}
	whence := r.Intn(3)
	if r.Intn(20) == 0 {
		whence = []int{3, -1, 7}[r.Intn(3)]
	}
	n := int64(len(h.data))
	off := []int64{0, 1, -1, n, -n, n / 2, -n / 2, n - 1, n + 1, -h.off, -h.off - 1, n - h.off, int64(r.Intn(200)) - 100, 1 << 40}[r.Intn(14)]
	got, err := h.f.Seek(off, whence)
	c.Logf("seek(%d,%d) of %s at %d/%d = %d %v", off, whence, h.name, h.off, n, got, err)
	c.Obs("seeks", 1)
	if h.closed {
		if err == nil {
			c.Fail("seek-closed", "Seek on a closed file = %d, %v", got, err)
		}
		return
	}
	var want int64
	switch whence {
	case 0:
		want = off
	case 1:
		want = h.off + off
	case 2:
		want = n + off
	default:
		want = -1
	}
	if want < 0 {
		if err == nil {
			c.Fail("seek-accepts", "Seek(%d, %d) at %d of %d = %d, want an error", off, whence, h.off, n, got)
		}
		c.Obs("bad seeks", 1)
		return
	}
	if err != nil || got != want {
		c.Fail("seek", "Seek(%d, %d) at %d of %d = %d, %v; want %d", off, whence, h.off, n, got, err, want)
	}
	h.off = want
	if r.Intn(10) == 0 {
		// and where are we
		if at, err := h.f.Seek(0, io.SeekCurrent); err != nil || at != want {
			c.Fail("seek-current", "Seek(0, current) = %d, %v; want %d", at, err, want)
		}
	}
}

// c07Bulk reads to the end the way callers do.
func c07Bulk(c *C, h *rh) {
	var got []byte
	var err error
	how := c.R.Intn(4)
	switch how {
	case 0:
		got, err = io.ReadAll(h.f)
	case 1:
		bb := &bytes.Buffer{}
		_, err = io.Copy(bb, h.f)
		got = bb.Bytes()
	case 2:
		got, err = io.ReadAll(bufio.NewReaderSize(h.f, 16))
	case 3:
		bb := &strings.Builder{}
		_, err = io.CopyBuffer(struct{ io.Writer }{bb}, struct{ io.Reader }{h.f}, make([]byte, 3))
		got = []byte(bb.String())
	}
	var want []byte
	if h.off < int64(len(h.data)) {
		want = h.data[h.off:]
	}
	c.Logf("bulk read %d of %s at %d: %d bytes %v", how, h.name, h.off, len(got), err)
	c.Obs("bulk", 1)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("bulk", "reading %s from %d to the end: %s, %v; want %s", h.name, h.off, short(string(got)), err, short(string(want)))
	}
	if h.off < int64(len(h.data)) {
		h.off = int64(len(h.data))
	}
}

var _ = here.Info{}
