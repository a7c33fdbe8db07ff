//go:build vsym

// Package vnd is the interface between harnesses and the checker. Under the
// vsym tag every function is interpreted by the symbolic executor.
package vnd

import "time"

func stub() { panic("vnd: symbolic stub executed") }

func Byte(label string) (r byte)                  { stub(); return }
func U16(label string) (r uint16)                 { stub(); return }
func U32(label string) (r uint32)                 { stub(); return }
func U64(label string) (r uint64)                 { stub(); return }
func I64(label string) (r int64)                  { stub(); return }
func Bool(label string) (r bool)                  { stub(); return }
func Int(label string, lo, hi int) (r int)        { stub(); return }
func Choice(label string, n int) (r int)          { stub(); return }
func Bytes(label string, n int) (r []byte)        { stub(); return }
func String(label string, n int) (r string)       { stub(); return }
func LazyBytes(label string, max int) (r []byte)  { stub(); return }
func LazyString(label string, max int) (r string) { stub(); return }
func Assume(c bool)                               { stub() }
func Assert(c bool, msg string)                   { stub() }
func Cover(label string)                          { stub() }
func And(a, b bool) (r bool)                      { stub(); return }
func Or(a, b bool) (r bool)                       { stub(); return }
func Not(a bool) (r bool)                         { stub(); return }
func Implies(a, b bool) (r bool)                  { stub(); return }
func IteInt(c bool, a, b int) (r int)             { stub(); return }
func IteByte(c bool, a, b byte) (r byte)          { stub(); return }
func IteBool(c bool, a, b bool) (r bool)          { stub(); return }
func EqBytes(a, b []byte) (r bool)                { stub(); return }
func EqStr(a, b string) (r bool)                  { stub(); return }
func Param(name string, def int) (r int)          { stub(); return }

// Races looks for unordered conflicting accesses from here on.
func Races() { stub() }

func Explore(preemptions int)             { stub() }
func MapOrder(on bool)                    { stub() }
func SchedPoint()                         { stub() }
func Yield()                              { stub() }
func SkipYields()                         { stub() }
func Settle()                             { stub() }
func Blocked() (r int)                    { stub(); return }
func Advance(d time.Duration)             { stub() }
func Now() (r int64)                      { stub(); return }
func TimeNS(t time.Time) (r int64)        { stub(); return }
func Symbolic() (r bool)                  { stub(); return }
func Observe(label string, v int64)       { stub() }
func ObserveBytes(label string, v []byte) { stub() }
