package main

import (
	"os"
	"strings"
)

// raceBuild tells whether this binary was built from a tree instrumented for
// race detection; it is part of the command line.
func raceBuild() bool {
	for i, a := range os.Args {
		if a == "-prop" && i+1 < len(os.Args) && os.Args[i+1] == "C10" || a == "-prop=C10" {
			return true
		}
		if a == "-file" && i+1 < len(os.Args) {
			if b, err := os.ReadFile(os.Args[i+1]); err == nil && strings.Contains(string(b), `"C10"`) {
				return true
			}
		}
	}
	return false
}
