package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

func init() {
	register(&Check{
		ID: "C13", Level: "fault_enumeration",
		Rule:  "payloads of boundary and random sizes (empty to a megabyte, and twice up to 257 megabytes; text, JSON, zeros, random, and whole file systems) are encoded, inspected character by character, and decoded; small blobs are then damaged in every way of these kinds: truncated at every length, every character replaced by each hex digit and by characters outside the alphabet, deleted, doubled, swapped with its neighbour, garbage appended and prepended, and random multi-character damage; large blobs in sampled places. The same damage is applied to blobs of file systems before rehydrating them. Several blobs, their decoded payloads and a rehydrated file system are held throughout and compared again in the end. A case counts by its payload.",
		Quick: 400, Thorough: 8000,
		MinObs: map[string]int{"huge roundtrips": 2, "roundtrips": 240, "faults": 793202, "truncations": 30000, "rehydrations of damaged blobs": 30000, "refused": 751049, "results held": 1600},
		Run:    runC13,
	})
}

// rawSafe tells whether the text can stand between the back quotes of a
// raw string literal and is then read back unchanged.
func rawSafe(b []byte) string {
	if !utf8.Valid(b) {
		return "is not valid UTF-8"
	}
	for _, r := range string(b) {
		switch r {
		case '`', '\r', 0, 0xFEFF:
			return fmt.Sprintf("contains %q", r)
		}
	}
	return ""
}

// damages calls fn with damaged forms of the blob; the slice is reused.
func damages(c *C, b []byte, every bool, fn func(what string, d []byte)) {
	r := c.R
	n := len(b)
	buf := make([]byte, 0, 2*n+64)
	pos := func(full int) []int {
		var ps []int
		if every {
			for i := 0; i < n; i++ {
				ps = append(ps, i)
			}
			return ps
		}
		for _, i := range []int{0, 1, 2, 3, 4, 5, 6, 7, 18, 19, 20, 21, 22, n - 1, n - 2, n - 8, n - 9, n - 15, n - 16, n - 17, n - 18} {
			if i >= 0 && i < n {
				ps = append(ps, i)
			}
		}
		if n > 20000 {
			full /= 10
			ps = ps[:4]
		}
		for i := 0; i < full; i++ {
			ps = append(ps, r.Intn(n))
		}
		return ps
	}
	for _, i := range pos(60) {
		fn(fmt.Sprintf("truncated to %d of %d", i, n), append(buf[:0], b[:i]...))
		c.Obs("truncations", 1)
	}
	alphabet := "0123456789abcdef"
	others := "gGAF`\n \x00\xff/+=-:@"
	if !every {
		alphabet = string(alphabet[r.Intn(16)]) + string(alphabet[r.Intn(16)])
		others = string(others[r.Intn(len(others))])
	}
	for _, i := range pos(60) {
		d := append(buf[:0], b...)
		for _, x := range []byte(alphabet + others) {
			if x == b[i] {
				continue
			}
			d[i] = x
			fn(fmt.Sprintf("character %d of %d replaced by %q", i, n, x), d)
		}
		d[i] = b[i]
	}
	for _, i := range pos(20) {
		d := append(buf[:0], b[:i]...)
		fn(fmt.Sprintf("character %d of %d deleted", i, n), append(d, b[i+1:]...))
		d = append(buf[:0], b[:i]...)
		d = append(d, b[i], b[i])
		fn(fmt.Sprintf("character %d of %d doubled", i, n), append(d, b[i+1:]...))
		if i+1 < n && b[i] != b[i+1] {
			d = append(buf[:0], b...)
			d[i], d[i+1] = d[i+1], d[i]
			fn(fmt.Sprintf("characters %d and %d of %d swapped", i, i+1, n), d)
		}
		if i+2 <= n {
			d = append(buf[:0], b[:i]...)
			fn(fmt.Sprintf("two characters at %d of %d deleted", i, n), append(d, b[i+2:]...))
			d = append(buf[:0], b[:i]...)
			d = append(d, '0', '0')
			fn(fmt.Sprintf("two characters inserted at %d of %d", i, n), append(d, b[i:]...))
		}
	}
	for i := 0; i < 24; i++ {
		var x []byte
		k := 1 + r.Intn(20)
		switch i % 6 {
		case 0:
			x = bytes.Repeat([]byte("0"), k)
		case 1:
			x = bytes.Repeat([]byte("0"), 2*k)
		case 2, 3:
			for ; k > 0; k-- {
				x = append(x, "0123456789abcdef"[r.Intn(16)], "0123456789abcdef"[r.Intn(16)])
			}
		case 4:
			x = []byte("1f8b08")[:2+2*r.Intn(3)]
		case 5:
			x = []byte([]string{"\n", " ", "`", "\x00", "g", "zz"}[r.Intn(6)])
		}
		fn(fmt.Sprintf("%q appended", x), append(append(buf[:0], b...), x...))
		fn(fmt.Sprintf("%q prepended", x), append(append(buf[:0], x...), b...))
	}
	for i := 0; i < 40; i++ {
		d := append(buf[:0], b...)
		var at []int
		switch r.Intn(3) {
		case 0: // scattered
			for k := 2 + r.Intn(8); k > 0; k-- {
				at = append(at, r.Intn(n))
			}
		case 1: // a burst
			s := r.Intn(n)
			for k := 0; k < 2+r.Intn(30) && s+k < n; k++ {
				at = append(at, s+k)
			}
		case 2: // a block of the same, as of a lost page
			s := r.Intn(n)
			for k := 0; k < 64 && s+k < n; k++ {
				d[s+k] = '0'
			}
		}
		for _, p := range at {
			d[p] = "0123456789abcdef"[r.Intn(16)]
		}
		fn(fmt.Sprintf("damaged at %v of %d", at, n), d)
	}
	if n > 20000 {
		return
	}
	// pieces moved
	for i := 0; i < 20 && n >= 8; i++ {
		a, z := 2*r.Intn(n/2), 2*r.Intn(n/2)
		if a > z {
			a, z = z, a
		}
		d := append(append(append(buf[:0], b[:a]...), b[z:]...), b[a:z]...)
		fn(fmt.Sprintf("%d to %d of %d moved to the end", a, z, n), d)
		d = append(append(buf[:0], b[:a]...), b[z:]...)
		fn(fmt.Sprintf("%d to %d of %d cut out", a, z, n), d)
		d = append(append(buf[:0], b[:z]...), b[a:]...)
		fn(fmt.Sprintf("%d to %d of %d repeated", a, z, n), d)
	}
}

// hugePayload is one that no buffer or limit of a plausible size holds.
func hugePayload(c *C) {
	r := c.R
	n := []int{33 << 20, 65<<20 + 1, 129 << 20, 257 << 20}[c.Idx/200%4]
	payload := make([]byte, n)
	w := "<a href=\"x\">the quick brown fox</a>\n"
	for i := copy(payload, w); i < n; i *= 2 {
		copy(payload[i:], payload[:i])
	}
	for i := 0; i < n; i += 1<<20 + r.Intn(1<<16) {
		r.Read(payload[i : i+r.Intn(min(n-i, 4096))])
	}
	blob, err := embed.Encode(payload)
	if err != nil {
		c.Fail("encode", "Encode of %d bytes: %v", n, err)
	}
	if s := rawSafe(blob); s != "" {
		c.Fail("unsafe", "the encoded form of %d bytes %s", n, s)
	}
	dec, err := embed.Decode(blob)
	if err != nil || !bytes.Equal(dec, payload) {
		c.Fail("roundtrip", "Decode(Encode(%d bytes)) is %d bytes, %v", n, len(dec), err)
	}
	dec = nil
	for i := 0; i < 3; i++ {
		at := len(blob) - 1 - r.Intn(len(blob)/2)
		d := append([]byte{}, blob[:at]...)
		what := "truncated"
		if i > 0 {
			d = append([]byte{}, blob...)
			d[at] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", d[at])+1+r.Intn(15))%16]
			what = "altered"
		}
		got, err := embed.Decode(d)
		if err == nil && !bytes.Equal(got, payload) {
			c.Fail("wrong", "blob of %d bytes, %s at %d of %d, decodes to %d other bytes without error", n, what, at, len(blob), len(got))
		}
		c.Obs("faults", 1)
	}
	c.Obs("roundtrips", 1)
	c.Obs("huge roundtrips", 1)
	c.Distinct(fmt.Sprint("huge", n))
}

func runC13(c *C) {
	r := c.R
	if c.Idx%200 == 7 {
		hugePayload(c)
		return
	}
	var payload []byte
	fs := c.Idx%3 == 0
	small := true
	kind := ""
	var want Snap
	var pkgs = []string{cur, otherPkgs[0]}
	roots := []string{pkgs[0] + ":/", pkgs[1] + ":/"}
	if fs {
		kind = "file system"
		info := appInfo(r)
		o := TreeOpts{N: 1 + r.Intn(3)}
		if c.Idx%30 == 0 {
			o.N, o.Big, small = 20, true, false
			kind = "large file system"
		}
		p, _ := memFS(info, pkgs, map[string]Tree{pkgs[0]: conflictFree(genTree(r, o), info.Dir)})
		var err error
		payload, err = p.MarshalJSON()
		if err != nil {
			c.Fail("marshal", "MarshalJSON: %v", err)
		}
		want, err = fsSnap(p, roots...)
		if err != nil {
			c.Fail("consistency", "%v", err)
		}
	} else {
		n := []int{0, 1, 2, 3, 5, 8, 13, 40, 100, 255, 256, 257}[r.Intn(12)]
		kind = "small"
		if c.Idx%10 == 1 {
			n = []int{4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 1 << 20, 1<<20 + 1}[r.Intn(12)]
			small = false
			kind = "large"
		}
		payload = make([]byte, n)
		switch r.Intn(5) {
		case 0:
			r.Read(payload)
		case 1:
		case 2:
			for i := range payload {
				payload[i] = "`\\\"\x00\xff\r\n"[i%7]
			}
		case 3:
			for i := range payload {
				payload[i] = byte(i)
			}
		case 4:
			w := "<a href=\"x\">the quick brown fox</a>\n"
			for i := range payload {
				payload[i] = w[(i*i/7)%len(w)]
			}
		}
	}
	orig := append([]byte{}, payload...)
	blob, err := embed.Encode(payload)
	if err != nil {
		c.Fail("encode", "Encode of %d bytes: %v", len(payload), err)
	}
	if !bytes.Equal(orig, payload) {
		c.Fail("encode-writes", "Encode changed its argument")
	}
	if s := rawSafe(blob); s != "" {
		c.Fail("unsafe", "the encoded form of %s %s", short(string(orig)), s)
	}
	if r.Intn(20) == 0 || len(blob) < 200 {
		src := "package x\n\nvar b = []byte(`" + string(blob) + "`)\n"
		f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
		if err != nil {
			c.Fail("unsafe", "Go source with the encoded form of %s: %v", short(string(orig)), err)
		}
		_ = f
		u, err := strconv.Unquote("`" + string(blob) + "`")
		if err != nil || u != string(blob) {
			c.Fail("unsafe", "the encoded form of %s as a raw literal: %v", short(string(orig)), err)
		}
		c.Obs("literals", 1)
	}
	keep := append([]byte{}, blob...)
	dec, err := embed.Decode(blob)
	if err != nil || !bytes.Equal(dec, orig) {
		c.Fail("roundtrip", "Decode(Encode(%s)) is %s, %v", short(string(orig)), short(string(dec)), err)
	}
	if !bytes.Equal(keep, blob) {
		c.Fail("decode-writes", "Decode changed its argument")
	}
	// what was handed out is the caller's
	for i := range dec {
		dec[i] ^= 0x55
	}
	dec2, err := embed.Decode(blob)
	if err != nil || !bytes.Equal(dec2, orig) || !bytes.Equal(payload, orig) {
		c.Fail("roundtrip", "decoding again gives %s, %v", short(string(dec2)), err)
	}
	c.Obs("roundtrips", 1)
	// and stays what it is, whatever is encoded and decoded later on
	type kept struct{ orig, blob, dec, copy []byte }
	held := []kept{{orig, blob, dec2, keep}}
	for i := 0; i < 3; i++ {
		o := make([]byte, []int{len(orig), 1 + len(orig)/2, 1 + 2*len(orig)}[i])
		r.Read(o)
		b, err := embed.Encode(o)
		if err != nil {
			c.Fail("encode", "Encode of %d bytes: %v", len(o), err)
		}
		d, err := embed.Decode(b)
		if err != nil {
			c.Fail("roundtrip", "Decode(Encode(%s)): %v", short(string(o)), err)
		}
		held = append(held, kept{o, b, d, append([]byte{}, b...)})
	}
	stays := func(when string) {
		for i, h := range held {
			if !bytes.Equal(h.dec, h.orig) {
				c.Fail("handed-out", "%s: what was decoded from blob %d of %d, of %s, has become %s", when, i, len(held), short(string(h.orig)), short(string(h.dec)))
			}
			if !bytes.Equal(h.blob, h.copy) {
				c.Fail("handed-out", "%s: blob %d of %d, of %s, has become %s", when, i, len(held), short(string(h.orig)), short(string(h.blob)))
			}
			c.Obs("results held", 1)
		}
	}
	stays("right away")
	if c.Idx%16 == 0 {
		together(c)
		stays("after decoding from several goroutines")
	}
	var whole pkging.Pkger
	if fs {
		if whole, err = mem.UnmarshalEmbed(blob); err != nil {
			c.Fail("rehydrate", "UnmarshalEmbed: %v", err)
		}
	}

	check := func(what string, d []byte) {
		if bytes.Equal(d, blob) {
			return
		}
		c.Obs("faults", 1)
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(failure); ok {
					panic(f)
				}
				c.Fail("crash", "Decode panics with %v on %s %s, %s: %s", e, kind, short(string(orig)), what, short(string(d)))
			}
		}()
		got, err := embed.Decode(d)
		if err != nil {
			c.Obs("refused", 1)
			return
		}
		if !bytes.Equal(got, orig) {
			c.Fail("wrong", "%s blob of %s, %s, decodes to %s without error", kind, short(string(orig)), what, short(string(got)))
		}
		c.Obs("harmless", 1)
	}
	every := len(blob) < 700 && (small || len(blob) < 200)
	damages(c, blob, every, check)
	if fs {
		i := 0
		damages(c, blob, false, func(what string, d []byte) {
			if bytes.Equal(d, blob) {
				return
			}
			i++
			c.Obs("rehydrations of damaged blobs", 1)
			defer func() {
				if e := recover(); e != nil {
					if f, ok := e.(failure); ok {
						panic(f)
					}
					buf := make([]byte, 4000)
					c.Fail("crash", "UnmarshalEmbed panics with %v on %s: %s", e, what, buf[:runtime.Stack(buf, false)])
				}
			}()
			p, err := mem.UnmarshalEmbed(d)
			if err != nil {
				return
			}
			got, err := fsSnap(p, roots...)
			if err != nil {
				c.Fail("wrong-fs", "%s: rehydrated without error, but %v", what, err)
			}
			if df := want.diff(got); df != "" {
				c.Fail("wrong-fs", "%s: rehydrated without error, but %s", what, df)
			}
			c.Obs("harmless rehydrations", 1)
		})
	}
	stays("in the end")
	if fs {
		got, err := fsSnap(whole, roots...)
		if err != nil {
			c.Fail("consistency", "in the end: %v", err)
		}
		if df := want.diff(got); df != "" {
			c.Fail("handed-out", "the file system rehydrated first has changed: %s", df)
		}
	}
	c.Distinct(string(orig))
	c.Sample("%s payload %s, encoded in %d characters", kind, short(string(orig)), len(blob))
}

// together encodes and decodes from several goroutines: program start up
// of several packed packages.
func together(c *C) {
	var wg sync.WaitGroup
	errs := make(chan string, 16)
	for g := 0; g < 8; g++ {
		b, _ := json.Marshal(strings.Repeat(fmt.Sprint(c.Idx, g), 1+g*97))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var es, ec, ds [][]byte
			defer func() {
				for i := range ds {
					if !bytes.Equal(es[i], ec[i]) || !bytes.Equal(ds[i], b) {
						errs <- fmt.Sprintf("what was encoded as %s and decoded as %s changes later on, want %s", short(string(es[i])), short(string(ds[i])), short(string(b)))
						return
					}
				}
			}()
			for i := 0; i < 20; i++ {
				e, err := embed.Encode(b)
				if err != nil {
					errs <- err.Error()
					return
				}
				d, err := embed.Decode(e)
				if err != nil || !bytes.Equal(b, d) {
					errs <- fmt.Sprintf("%s, %v, want %s", short(string(d)), err, short(string(b)))
					return
				}
				es, ec, ds = append(es, e), append(ec, append([]byte{}, e...)), append(ds, d)
			}
		}()
	}
	wg.Wait()
	select {
	case e := <-errs:
		c.Fail("together", "encoding and decoding from several goroutines: %s", e)
	default:
	}
	c.Obs("concurrent roundtrips", 160)
}
