package main

import (
	"fmt"
	"os"
)

// children are what a worker runs as processes of their own, because they
// change what cannot be changed back: -child NAME ARGS...
var children = map[string]func(args []string) error{}

func runChild(name string, args []string) {
	fn := children[name]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no child", name)
		os.Exit(2)
	}
	if err := fn(args); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
}
