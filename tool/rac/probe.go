package main

import (
	"fmt"
	"io"
	"os"
)

// probeMain is the program which is called by scripts of C18: it shows its arguments and input.
func probeMain() {
	in := ""
	for _, a := range os.Args[2:] {
		if a == "stdin" {
			b, _ := io.ReadAll(os.Stdin)
			in = string(b)
			break
		}
	}
	o, code := probeRun(os.Args[2:], in)
	fmt.Fprint(os.Stderr, probeErr(os.Args[2:]))
	fmt.Print(o)
	os.Exit(code)
}
