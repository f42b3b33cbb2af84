package main

import (
	"sync"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

// swap is the one layer this process applies to the package level API; what
// it stands for changes with every case.
type swap struct{ pkging.Pkger }

var (
	theSwap  = &swap{}
	swapOnce sync.Once
)

// install makes the package level functions use p.
func install(p pkging.Pkger) {
	theSwap.Pkger = p
	swapOnce.Do(func() { pkger.Apply(theSwap, nil) })
}
