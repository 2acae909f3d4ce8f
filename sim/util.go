package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// panicSite names the function of the code under test in which the current
// panic was raised (without line numbers, so that it survives edits).
func panicSite() string {
	pc := make([]uintptr, 60)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "main.") {
			return fmt.Sprintf("harness:%s:%d", f.Function, f.Line)
		}
		if strings.Contains(f.Function, "go-hbci/") && !strings.Contains(f.Function, "/zz_verif/sim") {
			fn := f.Function
			fn = fn[strings.Index(fn, "go-hbci/")+8:]
			return fn
		}
		if !more {
			break
		}
	}
	return "?"
}

func short(v interface{}) string {
	s := fmt.Sprint(v)
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// panicChain names the innermost frames of the library at a panic.
func panicChain() string {
	pc := make([]uintptr, 60)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var out []string
	for len(out) < 4 {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "go-hbci/"); i >= 0 && !strings.Contains(f.Function, "/zz_verif/sim") {
			file := f.File[strings.LastIndexByte(f.File, '/')+1:]
			out = append(out, fmt.Sprintf("%s (%s:%d)", f.Function[i+8:], file, f.Line))
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " < ")
}

func sortStrings(s []string) { sort.Strings(s) }
