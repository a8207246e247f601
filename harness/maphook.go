package main

import (
	"runtime"
	"strings"
	_ "unsafe"
)

// iterHook decides where an iteration over a map starts; see check.sh. In a
// build without that overlay it is never called.
//
//go:linkname iterHook internal/runtime/maps.IterHook
var iterHook func(used uint64) uint64

// mapHookX is the execution that answers, when one does.
var mapHookX *X
var mapHookBusy bool

func fromGopoet() bool {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/jhump/gopoet.") {
			return true
		}
		if strings.HasPrefix(f.Function, "main.") || strings.HasPrefix(f.Function, "go/") {
			return false
		}
		if !more {
			return false
		}
	}
}

// withMapOrder runs f with every iteration over a map that the library starts
// beginning at an entry the explorer chooses.
func withMapOrder(x *X, f func()) {
	mapHookX = x
	iterHook = func(used uint64) uint64 {
		if used < 2 || mapHookX == nil || mapHookBusy {
			return 0
		}
		mapHookBusy = true
		defer func() { mapHookBusy = false }()
		if !fromGopoet() {
			return 0
		}
		n := int(used)
		for n > 8 && n&(n-1) != 0 {
			n++ // it may also start at an unused slot
		}
		x.iters++
		return uint64(x.chooseSoft(n))
	}
	defer func() { mapHookX = nil; iterHook = nil }()
	f()
}

// withMapStart runs f with every iteration over a map that the library starts
// beginning at the same entry.
func withMapStart(x *X, start int, f func()) {
	iterHook = func(used uint64) uint64 {
		if used < 2 || mapHookBusy {
			return 0
		}
		mapHookBusy = true
		defer func() { mapHookBusy = false }()
		if !fromGopoet() {
			return 0
		}
		x.iters++
		return uint64(start)
	}
	defer func() { iterHook = nil }()
	f()
}
