package zz_vrt

import (
	"context"
	"io"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"
)

// ---- fmt / errors / strconv ----

type fmtErr struct {
	format string
	args   []interface{}
	w      error
}

func (e *fmtErr) Error() string { return fmtSprintf(e.format, e.args...) }

type wrapErr struct{ fmtErr }

func (e *wrapErr) Unwrap() error { return e.w }

type wrapErrs struct {
	fmtErr
	ws []error
}

func (e *wrapErrs) Unwrap() []error { return e.ws }

// fmt.Errorf: the message is made when it is asked for.
//
//vrt:replace fmt.Errorf
//vrt:pure
func fmtErrorf(format string, args ...interface{}) error {
	var ws []error
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format)-1 && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
			i++
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if w, ok := args[n].(error); ok {
				ws = append(ws, w)
			}
		}
		n++
	}
	e := fmtErr{format: format, args: append([]interface{}{}, args...)}
	switch len(ws) {
	case 0:
		return &e
	case 1:
		e.w = ws[0]
		return &wrapErr{e}
	}
	return &wrapErrs{e, ws}
}

//vrt:replace fmt.Println
//vrt:pure
func fmtPrintln(a ...interface{}) (int, error) { return 0, nil }

//vrt:replace fmt.Printf
//vrt:pure
func fmtPrintf(f string, a ...interface{}) (int, error) { return 0, nil }

//vrt:replace fmt.Print
//vrt:pure
func fmtPrint(a ...interface{}) (int, error) { return 0, nil }

//vrt:replace fmt.Fprintln
func fmtFprintln(w io.Writer, a ...interface{}) (int, error) { return fprint(w, fmtSprintln(a...)) }

//vrt:replace fmt.Fprintf
func fmtFprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return fprint(w, fmtSprintf(f, a...))
}

//vrt:replace fmt.Fprint
func fmtFprint(w io.Writer, a ...interface{}) (int, error) { return fprint(w, fmtSprint(a...)) }

func fprint(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

//vrt:replace log.Println
//vrt:pure
func logPrintln(a ...interface{}) {}

//vrt:replace log.Printf
//vrt:pure
func logPrintf(f string, a ...interface{}) {}

//vrt:replace log.Print
//vrt:pure
func logPrint(a ...interface{}) {}

// Under is x with its type replaced by the underlying one, when that is a basic type.
func Under(x interface{}) interface{} { panic("intrinsic") }

// one formats a value for a verb.
func one(a interface{}, verb byte, plus, sharp bool) string {
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		s, ok := "", true
		switch x := a.(type) {
		case error:
			s = x.Error()
		case interface{ String() string }:
			s = x.String()
		default:
			ok = false
		}
		if ok {
			if verb == 'q' {
				return strconv.Quote(s)
			}
			return s
		}
	}
	switch x := Under(a).(type) {
	case nil:
		return "<nil>"
	case string:
		switch verb {
		case 'q':
			return strconv.Quote(x)
		case 'x':
			return hexes(x)
		}
		return x
	case []byte:
		switch verb {
		case 'q':
			return strconv.Quote(string(x))
		case 'x':
			return hexes(string(x))
		case 's':
			return string(x)
		}
		out := "["
		for i, b := range x {
			if i > 0 {
				out += " "
			}
			out += itoa64(int64(b))
		}
		return out + "]"
	case []string:
		out := "["
		for i, b := range x {
			if i > 0 {
				out += " "
			}
			out += b
		}
		return out + "]"
	case int:
		return num(int64(x), verb)
	case int8:
		return num(int64(x), verb)
	case int16:
		return num(int64(x), verb)
	case int32:
		return num(int64(x), verb)
	case int64:
		return num(x, verb)
	case uint:
		return unum(uint64(x), verb)
	case uint8:
		return unum(uint64(x), verb)
	case uint16:
		return unum(uint64(x), verb)
	case uint32:
		return unum(uint64(x), verb)
	case uint64:
		return unum(x, verb)
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return "?"
}

func num(x int64, verb byte) string {
	if x < 0 && (verb == 'x' || verb == 'X') {
		return "-" + unum(uint64(-x), verb)
	}
	switch verb {
	case 'd', 'v', 's':
		return itoa64(x)
	case 'c':
		return string(rune(x))
	}
	return unum(uint64(x), verb)
}

func unum(x uint64, verb byte) string {
	switch verb {
	case 'x', 'X':
		const lo, up = "0123456789abcdef", "0123456789ABCDEF"
		s := ""
		for {
			if verb == 'x' {
				s = lo[x&15:x&15+1] + s
			} else {
				s = up[x&15:x&15+1] + s
			}
			if x >>= 4; x == 0 {
				return s
			}
		}
	case 'c':
		return string(rune(x))
	}
	return utoa64(x)
}

func hexes(x string) string {
	s := ""
	for i := 0; i < len(x); i++ {
		s += "0123456789abcdef"[x[i]>>4:x[i]>>4+1] + "0123456789abcdef"[x[i]&15:x[i]&15+1]
	}
	return s
}

//vrt:replace fmt.Sprintf
//vrt:pure
func fmtSprintf(format string, args ...interface{}) string {
	out := ""
	n := 0
	st := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			continue
		}
		out += format[st:i]
		i++
		plus, sharp, minus, zero, w, prec := false, false, false, false, 0, -1
		for i < len(format)-1 {
			c := format[i]
			if c == '+' {
				plus = true
			} else if c == '#' {
				sharp = true
			} else if c == '-' {
				minus = true
			} else if c == '0' && w == 0 && prec < 0 {
				zero = true
			} else if c >= '0' && c <= '9' && prec >= 0 {
				prec = 10*prec + int(c-'0')
			} else if c >= '0' && c <= '9' {
				w = 10*w + int(c-'0')
			} else if c == '.' {
				prec = 0
			} else {
				break
			}
			i++
		}
		st = i + 1
		if format[i] == '%' {
			out += "%"
			continue
		}
		s := "%!" + format[i:i+1] + "(MISSING)"
		if n < len(args) {
			s = one(args[n], format[i], plus, sharp)
		}
		if prec >= 0 && len(s) > prec && format[i] == 's' {
			s = s[:prec]
		}
		for len(s) < w {
			if minus {
				s += " "
			} else if zero {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		out += s
		n++
	}
	return out + format[st:]
}

//vrt:replace fmt.Sprint
//vrt:pure
func fmtSprint(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := Under(args[i-1]).(string)
			_, s2 := Under(a).(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += one(a, 'v', false, false)
	}
	return out
}

//vrt:replace fmt.Sprintln
//vrt:pure
func fmtSprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += one(a, 'v', false, false)
	}
	return out + "\n"
}

func itoa64(i int64) string {
	if i < 0 {
		return "-" + utoa64(uint64(-i))
	}
	return utoa64(uint64(i))
}

func utoa64(u uint64) string {
	n := 1
	for p := uint64(10); n < 20 && u >= p; n++ {
		p *= 10
	}
	b := make([]byte, n)
	for n--; n >= 0; n-- {
		b[n] = byte('0' + u%10)
		u /= 10
	}
	return string(b)
}

//vrt:replace strconv.Itoa
//vrt:pure
func strconvItoa(i int) string { return itoa64(int64(i)) }

//vrt:replace strconv.FormatUint
//vrt:pure
func strconvFormatUint(u uint64, base int) string {
	if base != 10 {
		panic("FormatUint base")
	}
	return utoa64(u)
}

//vrt:replace strconv.AppendInt
//vrt:pure
func strconvAppendInt(b []byte, i int64, base int) []byte {
	return append(b, strconvFormatInt(i, base)...)
}

//vrt:replace strconv.FormatInt
//vrt:pure
func strconvFormatInt(i int64, base int) string {
	if base != 10 {
		panic("FormatInt base")
	}
	return itoa64(i)
}

//vrt:replace errors.Is
//vrt:pure
func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func asTarget(err error, target interface{}) bool { panic("intrinsic") }

//vrt:replace errors.As
func errorsAs(err error, target interface{}) bool {
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// []rune(s) of a symbolic string
func toRunes(s string) []rune {
	r := []rune{}
	for _, c := range s {
		r = append(r, c)
	}
	return r
}

// ---- internal/bytealg (assembly) ----

//vrt:replace internal/bytealg.CountString
func bytealgCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//vrt:replace internal/bytealg.Count
func bytealgCount(s []byte, c byte) int { return bytealgCountString(string(s), c) }

//vrt:replace internal/bytealg.IndexString
func bytealgIndexString(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

//vrt:replace strings.Index
func stringsIndex(s, t string) int { return bytealgIndexString(s, t) }

//vrt:replace internal/stringslite.Index
func strlitIndex(s, t string) int { return bytealgIndexString(s, t) }

//vrt:replace bytes.Index
func bytesIndex(s, t []byte) int { return bytealgIndexString(string(s), string(t)) }

//vrt:replace internal/bytealg.Index
func bytealgIndex(s, t []byte) int { return bytealgIndexString(string(s), string(t)) }

//vrt:replace internal/bytealg.CompareString
func bytealgCompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//vrt:replace internal/bytealg.Compare
func bytealgCompare(a, b []byte) int { return bytealgCompareString(string(a), string(b)) }

// ---- sort ----

func sliceLen(s interface{}) int        { panic("intrinsic") }
func sliceSwap(s interface{}, i, j int) { panic("intrinsic") }

//vrt:replace sort.Slice
func sortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

//vrt:replace sort.SliceStable
func sortSliceStable(x interface{}, less func(i, j int) bool) { sortSlice(x, less) }

//vrt:replace sort.SliceIsSorted
func sortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := sliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- math/rand: any value ----

//vrt:replace math/rand.Intn
func randIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return IntRange("rand", 0, n-1)
}

//vrt:replace math/rand.Int31n
func randInt31n(n int32) int32 { return int32(randIntn(int(n))) }

//vrt:replace math/rand.Int63n
func randInt63n(n int64) int64 { return int64(randIntn(int(n))) }

//vrt:replace (*math/rand.Rand).Intn
func randRIntn(r *rand.Rand, n int) int { return randIntn(n) }

//vrt:replace (*math/rand.Rand).Int31n
func randRInt31n(r *rand.Rand, n int32) int32 { return randInt31n(n) }

//vrt:replace math/rand.Int31
func randInt31() int32 { return Int32("rand") & 0x7fffffff }

//vrt:replace math/rand.Int
func randInt() int { return int(Int64("rand") & 0x7fffffffffffffff) }

//vrt:replace math/rand.Int63
func randInt63() int64 { return Int64("rand") & 0x7fffffffffffffff }

//vrt:replace math/rand.Uint32
func randUint32() uint32 { return uint32(Int32("rand")) }

//vrt:replace math/rand.NewSource
func randNewSource(seed int64) rand.Source { return nil }

//vrt:replace math/rand.New
func randNew(s rand.Source) *rand.Rand { return new(rand.Rand) }

//vrt:replace math/rand.Seed
func randSeed(seed int64) {}

//vrt:replace math/rand.Shuffle
func randShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Concrete(randIntn(i+1)))
	}
}

//vrt:replace (*math/rand.Rand).Shuffle
func randRShuffle(r *rand.Rand, n int, swap func(i, j int)) { randShuffle(n, swap) }

//vrt:replace math/rand.Perm
func randPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	randShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

//vrt:replace (*math/rand.Rand).Perm
func randRPerm(r *rand.Rand, n int) []int { return randPerm(n) }

// ---- context ----

type valueCtx struct {
	context.Context
	k, v interface{}
}

func (c *valueCtx) Value(k interface{}) interface{} {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

//vrt:replace context.WithValue
func contextWithValue(parent context.Context, k, v interface{}) context.Context {
	return &valueCtx{parent, k, v}
}

// ---- time: a clock that moves on when it is read, or to the next timer when nothing can run ----

var clock int64 = 1600000000000000000

func tick() int64 {
	clock += 1000
	return clock
}

//vrt:replace time.Now
//vrt:pure
func timeNow() time.Time { return time.Unix(0, tick()) }

//vrt:replace time.Since
//vrt:pure
func timeSince(t time.Time) time.Duration { return time.Duration(tick() - t.UnixNano()) }

//vrt:replace time.Until
//vrt:pure
func timeUntil(t time.Time) time.Duration { return time.Duration(t.UnixNano() - tick()) }

type timerRec struct {
	t     *time.Timer
	c     chan time.Time
	f     func()
	run   *timerRunRec // nil: not active
	every int64
}

type timerRunRec struct{ stopped bool }

var timers []*timerRec

func timerWait(deadline int64, stop *bool) { panic("intrinsic") }

func (r *timerRec) start(d time.Duration) {
	run := &timerRunRec{}
	r.run = run
	if d < 0 {
		d = 0
	}
	go timerRun(r, run, tick()+int64(d))
}

func timerRun(r *timerRec, run *timerRunRec, at int64) {
	for {
		timerWait(at, &run.stopped)
		if run.stopped {
			return
		}
		if clock < at {
			clock = at
		}
		if r.every > 0 {
			at += r.every
		} else {
			r.run = nil
		}
		if r.f != nil {
			go r.f()
		} else {
			select {
			case r.c <- time.Unix(0, clock):
			default:
			}
		}
		if r.every == 0 {
			return
		}
	}
}

func (r *timerRec) stop() bool {
	if r.run == nil {
		return false
	}
	r.run.stopped = true
	r.run = nil
	return true
}

func timerOf(t *time.Timer) *timerRec {
	for _, r := range timers {
		if r.t == t {
			return r
		}
	}
	panic("timer not made by NewTimer")
}

//vrt:replace time.NewTimer
func timeNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	r := &timerRec{t: &time.Timer{C: c}, c: c}
	timers = append(timers, r)
	r.start(d)
	return r.t
}

//vrt:replace time.AfterFunc
func timeAfterFunc(d time.Duration, f func()) *time.Timer {
	r := &timerRec{t: &time.Timer{}, f: f}
	timers = append(timers, r)
	r.start(d)
	return r.t
}

//vrt:replace time.After
func timeAfter(d time.Duration) <-chan time.Time { return timeNewTimer(d).C }

//vrt:replace (*time.Timer).Stop
func timerStop(t *time.Timer) bool { return timerOf(t).stop() }

//vrt:replace (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	r := timerOf(t)
	was := r.stop()
	if r.c != nil {
		select {
		case <-r.c:
		default:
		}
	}
	r.start(d)
	return was
}

var tickers []*time.Ticker

//vrt:replace time.NewTicker
func timeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := timeNewTimer(d)
	timerOf(t).every = int64(d)
	k := &time.Ticker{C: t.C}
	tickers = append(tickers, k)
	return k
}

func tickerTimer(k *time.Ticker) *time.Timer {
	for _, r := range timers {
		if r.t.C == k.C {
			return r.t
		}
	}
	panic("ticker not made by NewTicker")
}

//vrt:replace (*time.Ticker).Stop
func tickerStop(k *time.Ticker) { timerStop(tickerTimer(k)) }

//vrt:replace (*time.Ticker).Reset
func tickerReset(k *time.Ticker, d time.Duration) {
	t := tickerTimer(k)
	timerOf(t).every = int64(d)
	timerReset(t, d)
}

//vrt:replace time.Tick
func timeTick(d time.Duration) <-chan time.Time { return timeNewTicker(d).C }

// ---- sync.Cond, sync.Map, sync.Pool ----

type condQ struct {
	c *sync.Cond
	w []chan struct{}
}

var condQs []*condQ

func condOf(c *sync.Cond) *condQ {
	for _, q := range condQs {
		if q.c == c {
			return q
		}
	}
	q := &condQ{c: c}
	condQs = append(condQs, q)
	return q
}

//vrt:replace (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	q := condOf(c)
	ch := make(chan struct{}, 1)
	q.w = append(q.w, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//vrt:replace (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	q := condOf(c)
	if len(q.w) > 0 {
		ch := q.w[0]
		q.w = q.w[1:]
		ch <- struct{}{}
	}
}

//vrt:replace (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	q := condOf(c)
	w := q.w
	q.w = nil
	for _, ch := range w {
		ch <- struct{}{}
	}
}

type smap struct {
	p *sync.Map
	m map[interface{}]interface{}
}

var smaps []*smap

// hb orders what was done before earlier calls with the same object before what follows.
func hb(p interface{}) { panic("intrinsic") }

func smapOf(p *sync.Map) map[interface{}]interface{} {
	hb(p)
	for _, s := range smaps {
		if s.p == p {
			return s.m
		}
	}
	s := &smap{p, map[interface{}]interface{}{}}
	smaps = append(smaps, s)
	return s.m
}

//vrt:replace (*sync.Map).Load
func smLoad(p *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smapOf(p)[k]
	return v, ok
}

//vrt:replace (*sync.Map).Store
func smStore(p *sync.Map, k, v interface{}) { smapOf(p)[k] = v }

//vrt:replace (*sync.Map).Delete
func smDelete(p *sync.Map, k interface{}) { delete(smapOf(p), k) }

//vrt:replace (*sync.Map).LoadAndDelete
func smLoadAndDelete(p *sync.Map, k interface{}) (interface{}, bool) {
	m := smapOf(p)
	v, ok := m[k]
	delete(m, k)
	return v, ok
}

//vrt:replace (*sync.Map).LoadOrStore
func smLoadOrStore(p *sync.Map, k, v interface{}) (interface{}, bool) {
	m := smapOf(p)
	if x, ok := m[k]; ok {
		return x, true
	}
	m[k] = v
	return v, false
}

//vrt:replace (*sync.Map).Swap
func syncMapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	old, ok := smLoad(m, k)
	smStore(m, k, v)
	return old, ok
}

//vrt:replace (*sync.Map).CompareAndSwap
func syncMapCAS(m *sync.Map, k, old, v interface{}) bool {
	if x, ok := smLoad(m, k); !ok || x != old {
		return false
	}
	smStore(m, k, v)
	return true
}

//vrt:replace (*sync.Map).CompareAndDelete
func syncMapCAD(m *sync.Map, k, old interface{}) bool {
	if x, ok := smLoad(m, k); !ok || x != old {
		return false
	}
	smDelete(m, k)
	return true
}

//vrt:replace (*sync.Map).Range
func smRange(p *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range smapOf(p) {
		if !f(k, v) {
			return
		}
	}
}

type spool struct {
	p *sync.Pool
	v []interface{}
}

var spools []*spool

func poolOf(p *sync.Pool) *spool {
	hb(p)
	for _, s := range spools {
		if s.p == p {
			return s
		}
	}
	s := &spool{p: p}
	spools = append(spools, s)
	return s
}

//vrt:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) interface{} {
	s := poolOf(p)
	if n := len(s.v); n > 0 {
		v := s.v[n-1]
		s.v = s.v[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//vrt:replace (*sync.Pool).Put
func poolPut(p *sync.Pool, v interface{}) {
	s := poolOf(p)
	s.v = append(s.v, v)
}
