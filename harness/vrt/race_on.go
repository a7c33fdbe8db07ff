//go:build !vsym && race

package vrt

import (
	"runtime"
	"unsafe"
)

// With the race detector on, the hand-over between goroutines is hidden from
// it and the synchronisation the code asked for is announced instead. The
// package itself is compiled without instrumentation.

func quiet()                   { runtime.RaceDisable() }
func loud()                    { runtime.RaceEnable() }
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
