//go:build !vsym && !race

package vrt

import "unsafe"

func quiet()                   {}
func loud()                    {}
func acquire(p unsafe.Pointer) {}
func release(p unsafe.Pointer) {}
