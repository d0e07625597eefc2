// Package zz_vrt is the harness runtime as seen by the symbolic engine: functions without a body are
// engine intrinsics, the others are models executed symbolically.
package zz_vrt

func Int8(name string) int8                 { panic("intrinsic") }
func Int16(name string) int16               { panic("intrinsic") }
func Int32(name string) int32               { panic("intrinsic") }
func Int64(name string) int64               { panic("intrinsic") }
func Uint8(name string) uint8               { panic("intrinsic") }
func Bool(name string) bool                 { panic("intrinsic") }
func IntRange(name string, lo, hi int) int  { panic("intrinsic") }
func Choose(name string, n int) int         { panic("intrinsic") }
func Str(name string, max int) string       { panic("intrinsic") }
func StrN(name string, n int) string        { panic("intrinsic") }
func Bytes(name string, max int) []byte     { panic("intrinsic") }
func BytesN(name string, n int) []byte      { panic("intrinsic") }
func Assume(c bool)                         { panic("intrinsic") }
func Assert(c bool, msg string)             { panic("intrinsic") }
func Fail(msg string)                       { panic("intrinsic") }
func AssertEqStr(a, b string, msg string)   { panic("intrinsic") }
func AssertEqBytes(a, b []byte, msg string) { panic("intrinsic") }
func Reach(label string)                    { panic("intrinsic") }
func Append(b, p []byte) []byte             { panic("intrinsic") }
func AppendStr(b []byte, p string) []byte   { panic("intrinsic") }
func Contract(fn, except string)            { panic("intrinsic") }
func AllocLimit(n int)                      { panic("intrinsic") }
func Explore(preempt int)                   { panic("intrinsic") }
func Deterministic()                        { panic("intrinsic") }
func AtomicPkg(p string)                    { panic("intrinsic") }
func Races()                                { panic("intrinsic") }
func AllowDeadlock(b bool)                  { panic("intrinsic") }
func Param(name string, def int) int        { panic("intrinsic") }
func Scale(n int) int                       { panic("intrinsic") }
func Expand(b []byte) []byte                { panic("intrinsic") }
func Symbolic() bool                        { panic("intrinsic") }
func Quiesce()                              { panic("intrinsic") }
func Live() int                             { panic("intrinsic") }
func SameArray(a, b []byte) bool            { panic("intrinsic") }
func Yield()                                { panic("intrinsic") }
func Concrete(n int) int                    { panic("intrinsic") }
func Dump(name string, v interface{})       { panic("intrinsic") }

// Settle waits until no other goroutine can make progress.
//
//vrt:pure
func Settle() { Quiesce() }

// Finding reports a defect identified by key.
func Finding(key, msg string) { panic("intrinsic") }
