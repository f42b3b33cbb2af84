package main

import (
	"encoding/json"

	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

func reload(c *C, b []byte, codec bool) *mem.Pkger {
	if codec {
		e, err := embed.Encode(b)
		if err != nil {
			c.Fail("encode", "Encode: %v", err)
		}
		p, err := mem.UnmarshalEmbed(e)
		if err != nil {
			c.Fail("unmarshal", "UnmarshalEmbed: %v", err)
		}
		return p
	}
	p := &mem.Pkger{}
	if err := json.Unmarshal(b, p); err != nil {
		c.Fail("unmarshal", "UnmarshalJSON: %v", err)
	}
	return p
}

func runC12(c *C) {
	r := c.R
	h := newHist(c, r.Intn(2) == 0, 1+r.Intn(3))
	h.snaps = r.Intn(3) == 0
	steps := func(n int) {
		for i := 0; i < n; i++ {
			h.step()
		}
		h.end()
	}
	steps(r.Intn(40))
	var sig string
	for trips := 1 + r.Intn(3); trips > 0; trips-- {
		h.snaps, h.last = true, nil
		h.snapshot("before")
		before := h.last
		infos := infosOf(c, h.p, h.pkgs)
		marshal := func() []byte {
			var b []byte
			var err error
			if r.Intn(2) == 0 {
				b, err = h.p.MarshalJSON()
			} else {
				b, err = json.Marshal(h.p)
			}
			if err != nil {
				c.Fail("marshal", "MarshalJSON: %v", err)
			}
			return b
		}
		b1 := marshal()
		after, err := fsSnap(h.p, h.roots()...)
		if err != nil {
			c.Fail("consistency", "after MarshalJSON: %v", err)
		}
		sameSnap(c, "original after serialising", before, after)
		b2 := marshal()
		if string(b1) != string(b2) {
			c.Fail("marshal-twice", "serialising twice gave %d and %d bytes that differ", len(b1), len(b2))
		}
		p2 := reload(c, b1, r.Intn(2) == 0)
		got, err := fsSnap(p2, h.roots()...)
		if err != nil {
			c.Fail("consistency", "rehydrated: %v", err)
		}
		sameSnap(c, "rehydrated", before, got)
		sameInfos(c, "rehydrated", infos, infosOf(c, p2, h.pkgs))
		if infos[h.pkgs[0]] == "error" {
			c.Fail("infos-current", "the current package is not known")
		}
		// keeps working, and is independent of the original
		orig := h.p
		h.p = p2
		c.Obs("roundtrips", 1)
		sig += "|" + h.m.sigOf()
		h.snaps, h.last = r.Intn(2) == 0, nil
		steps(5 + r.Intn(30))
		if r.Intn(3) == 0 {
			s, err := fsSnap(orig, h.roots()...)
			if err != nil {
				c.Fail("consistency", "original later: %v", err)
			}
			sameSnap(c, "original after changes to the copy", before, s)
		}
		// and a third copy from the first blob is what it was
		p3 := reload(c, b1, false)
		if r.Intn(2) == 0 {
			// so is one that has been in use for something else
			t := conflictFree(genTree(r, TreeOpts{N: 1 + r.Intn(6)}), "/none")
			p3, _ = memFS(appInfo(r), []string{cur, otherPkgs[2]}, map[string]Tree{cur: t, otherPkgs[2]: t})
			if err := json.Unmarshal(b1, p3); err != nil {
				c.Fail("unmarshal", "UnmarshalJSON into a used file system: %v", err)
			}
			c.Obs("used again", 1)
			fresh := reload(c, b1, false)
			all := append(append([]string{}, h.pkgs...), otherPkgs...)
			sameInfos(c, "rehydrated into a used file system", infosOf(c, fresh, all), infosOf(c, p3, all))
			for n := range t {
				k := otherPkgs[2] + ":" + n
				_, err1 := fresh.Stat(k)
				_, err2 := p3.Stat(k)
				if (err1 == nil) != (err2 == nil) {
					c.Fail("merged", "rehydrated into a file system that was used before: Stat(%s) is %v, in a new one %v", k, err2, err1)
				}
			}
		}
		s, err := fsSnap(p3, h.roots()...)
		if err != nil {
			c.Fail("consistency", "third: %v", err)
		}
		sameSnap(c, "rehydrated again", before, s)
	}
	c.Distinct(sig)
	c.Sample("serialised states %s", sig)
}
