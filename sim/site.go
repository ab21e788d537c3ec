package main

import (
	"runtime"
	"strings"
)

// panicSite names the function of the code under test that panicked.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "wampproto-go") && !strings.Contains(f.Function, "/zzsim") &&
			!strings.HasPrefix(f.Function, "main.") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return "?"
		}
	}
}
