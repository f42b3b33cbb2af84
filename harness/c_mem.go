package main

import (
	"fmt"
	"os"
	"sort"

	"github.com/markbates/pkger/pkging"
)

func init() {
	register(&Check{
		ID: "C05", Level: "exploration",
		Rule:  "random histories of 60..120 operations (Create, Write, Close, Open, Read, Stat, MkdirAll, Remove, RemoveAll, Walk, in any spelling of the path, writers interleaved with other operations) over 5..13 overlapping path names in 1..2 packages, on empty and on embedded in-memory file systems; after every mutating operation everything observable is compared with the reference model. A case counts by the sequence of states it went through.",
		Quick: 1400, Thorough: 30000,
		MinObs: map[string]int{"snapshots": 1000, "op:create:ok": 500, "op:removeall:ok": 100},
		Run: func(c *C) {
			h := newHist(c, c.R.Intn(2) == 0, 1+c.R.Intn(2))
			n := 60 + c.R.Intn(60)
			var sig string
			for i := 0; i < n; i++ {
				h.step()
				sig = sig + "|" + h.m.sigOf()
			}
			h.end()
			c.Distinct(sig)
			c.Sample("%d operations over %q ended in %s", n, h.names, h.m.sigOf())
		},
	})

	register(&Check{
		ID: "C12", Level: "exploration",
		Rule:  "random histories, then 1..3 round trips through MarshalJSON and UnmarshalJSON or the embed codec, then the history continues on the copy against the same model; full snapshots before and after. Half of the third copies are read into a file system that was in use and must equal one read into a new one. A case counts by the states serialised.",
		Quick: 1200, Thorough: 20000,
		MinObs: map[string]int{"roundtrips": 100, "used again": 300},
		Run:    runC12,
	})
}

func sameSnap(c *C, what string, want, got Snap) {
	if d := want.diff(got); d != "" {
		c.Fail("roundtrip-"+what, "%s: %s", what, d)
	}
}

// infosOf asks for the descriptions of the packages.
func infosOf(c *C, p pkging.Pkger, pkgs []string) map[string]string {
	m := map[string]string{}
	for _, k := range append(append([]string{}, pkgs...), "unknown.test/pkg") {
		i, err := p.Info(k)
		if err != nil {
			m[k] = "error"
			continue
		}
		m[k] = i.String()
	}
	i, err := p.Current()
	m["current"] = fmt.Sprint(i.String(), err)
	return m
}

func sameInfos(c *C, what string, want, got map[string]string) {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if want[k] != got[k] {
			c.Fail("infos-"+what, "%s: description of package %q is\n%s\nwant\n%s", what, k, got[k], want[k])
		}
	}
}

var _ = os.ErrNotExist
