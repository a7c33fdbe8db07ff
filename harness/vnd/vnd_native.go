//go:build !vsym

// Package vnd replays one assignment against the compiled code.
package vnd

import (
	"bytes"
	"fmt"
	"time"

	"github.com/waj334/tinygo-mqtt/vrt"
)

func Byte(label string) byte  { return byte(vrt.Next(label)) }
func U16(label string) uint16 { return uint16(vrt.Next(label)) }
func U32(label string) uint32 { return uint32(vrt.Next(label)) }
func U64(label string) uint64 { return vrt.Next(label) }
func I64(label string) int64  { return int64(vrt.Next(label)) }
func Bool(label string) bool  { return vrt.Next(label)&1 == 1 }
func Int(label string, lo, hi int) int {
	x := int(vrt.Next(label))
	Assume(lo <= x && x <= hi)
	return x
}
func Choice(label string, n int) int { return vrt.Choice(label, n) }
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vrt.Next(label))
	}
	return b
}
func String(label string, n int) string { return string(Bytes(label, n)) }
func LazyBytes(label string, max int) []byte {
	n := vrt.Next(label + ".len")
	Assume(n <= uint64(max))
	return bytes.Repeat([]byte{byte(vrt.Next(label + ".fill"))}, int(n))
}
func LazyString(label string, max int) string { return string(LazyBytes(label, max)) }
func Assume(c bool) {
	if !c {
		vrt.W.Skip = true
		vrt.Stop()
	}
}
func Assert(c bool, msg string) {
	if !c {
		vrt.W.Fails = append(vrt.W.Fails, msg)
	}
}
func Cover(label string)     { vrt.W.Covers[label] = true }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }
func Param(name string, d int) int {
	if v, ok := vrt.W.Params[name]; ok {
		return v
	}
	return d
}
func Races()                  {}
func Explore(k int)           { vrt.Explore(k) }
func MapOrder(on bool)        {}
func SchedPoint()             { vrt.SchedPoint() }
func Yield()                  { vrt.YieldNow() }
func SkipYields()             { vrt.SkipYields() }
func Settle()                 { vrt.Settle() }
func Blocked() int            { return vrt.Blocked() }
func Advance(d time.Duration) { vrt.Advance(d) }
func Now() int64              { return vrt.NowNS() }
func TimeNS(t time.Time) int64 {
	return vrt.NS(t)
}
func Symbolic() bool                { return false }
func Observe(label string, v int64) { vrt.W.Obs = append(vrt.W.Obs, fmt.Sprintf("%s=%d", label, v)) }
func ObserveBytes(label string, v []byte) {
	vrt.W.Obs = append(vrt.W.Obs, fmt.Sprintf("%s=%x", label, v))
}
