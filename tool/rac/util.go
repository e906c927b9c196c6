package main

import (
	"os"
	"path/filepath"
	"strings"
)

func put(d, n, c string) {
	f := filepath.Join(d, n)
	os.WriteFile(f, []byte(c), 0666)
	os.Chmod(f, 0666)
}

// get returns nil if the file doesn't exist.
func get(d, n string) []byte {
	b, err := os.ReadFile(filepath.Join(d, n))
	if err != nil {
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", "N") }
