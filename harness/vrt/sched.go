//go:build !vsym

// Package vrt runs counterexamples against the compiled code: goroutines,
// locks, channels, timers and the clock of the (mechanically rewritten) code
// are driven by the recorded choices of one symbolic path.
package vrt

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

type thread struct {
	id    int
	wake  chan struct{}
	done  bool
	yield bool
	ready func() bool
	why   string
}

// World is the state of one replay.
type World struct {
	Vals    map[string]uint64
	Params  map[string]int
	occ     map[string]int
	threads []*thread
	cur     *thread
	explore int
	skip    bool
	on      bool
	now     int64
	timers  []*timer
	chans   map[uintptr]*chanState
	pins    []interface{}

	Fails  []string
	Covers map[string]bool
	Obs    []string
	Panic  string
	Dead   string
	Skip   bool
	end    chan struct{}
	ended  bool
}

var W *World

type timer struct {
	at    int64
	every int64
	dead  bool
	fire  func()
}

// Run executes f as thread 0 and returns when it ends.
func Run(vals map[string]uint64, params map[string]int, f func(), limit time.Duration) (w *World, hang bool) {
	w = &World{Vals: vals, Params: params, occ: map[string]int{}, now: 1 << 60, chans: map[uintptr]*chanState{},
		Covers: map[string]bool{}, end: make(chan struct{})}
	W = w
	t := &thread{wake: make(chan struct{}, 1)}
	w.threads = []*thread{t}
	w.cur = t
	go func() {
		defer w.finish(t)
		f()
	}()
	select {
	case <-w.end:
	case <-time.After(limit):
		hang = true
	}
	return
}

type stop struct{}

func (w *World) endNow() {
	if !w.ended {
		w.ended = true
		close(w.end)
	}
}

// Stop abandons the replay.
func Stop() {
	W.endNow()
	select {}
}

func (w *World) finish(t *thread) {
	if r := recover(); r != nil {
		if !w.ended {
			w.Panic = fmt.Sprint(r)
			buf := make([]byte, 4096)
			w.Panic += "\n" + string(buf[:runtime.Stack(buf, false)])
		}
		w.endNow()
		return
	}
	t.done = true
	if t.id == 0 {
		w.endNow()
		return
	}
	if !w.ended {
		w.handoff(t, false)
	}
}

// Points counts the scheduling decisions.
func (w *World) Points() string {
	return fmt.Sprintf("%d %d %d", w.occ["preempt"], w.occ["sched"], w.occ["select"])
}

func Next(label string) uint64 {
	quiet()
	defer loud()
	n := W.occ[label]
	W.occ[label] = n + 1
	return W.Vals[fmt.Sprintf("%s#%d", label, n)]
}

func Choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(Next(label))
	if v >= n {
		v = 0
	}
	return v
}

func (t *thread) runnable() bool { return !t.done && (t.ready == nil || t.ready()) }

func (w *World) pick() *thread {
	cur := w.cur
	y := cur.yield
	cur.yield = false
	if !y && cur.runnable() {
		return cur
	}
	var cand []*thread
	n := len(w.threads)
	for k := 1; k <= n; k++ {
		t := w.threads[(cur.id+k)%n]
		if t != cur && t.runnable() {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		if cur.runnable() {
			return cur
		}
		return nil
	}
	if w.on && len(cand) > 1 {
		n = len(cand)
		if n > w.explore+1 {
			n = w.explore + 1
		}
		if n < 1 {
			n = 1
		}
		k := Choice("sched", n)
		w.explore -= k
		return cand[k]
	}
	return cand[0]
}

// handoff gives the token to the next thread; wait says whether the caller continues later.
func (w *World) handoff(t *thread, wait bool) {
	for {
		nx := w.pick()
		if nx == nil {
			if w.fireTimer() {
				continue
			}
			w.Dead = "deadlock:"
			for _, o := range w.threads {
				if !o.done {
					w.Dead += fmt.Sprintf(" t%d: %s;", o.id, o.why)
				}
			}
			w.endNow()
			if wait {
				select {}
			}
			return
		}
		w.cur = nx
		if nx == t {
			t.ready = nil
			return
		}
		nx.ready = nil
		quiet()
		nx.wake <- struct{}{}
		if wait {
			<-t.wake
		}
		loud()
		return
	}
}

func block(why string, ready func() bool) {
	t := W.cur
	t.ready, t.why = ready, why
	W.handoff(t, true)
}

func yield() {
	t := W.cur
	t.yield = true
	t.why = "preempted"
	W.handoff(t, true)
}

// offer asks for a preemption; the caller yields when it is true.
func offer() bool {
	w := W
	if !w.on || w.explore <= 0 {
		return false
	}
	n := 0
	for _, o := range w.threads {
		if o != w.cur && o.runnable() {
			n++
		}
	}
	if n == 0 {
		return false
	}
	if Choice("preempt", 2) == 1 {
		w.explore--
		return true
	}
	return false
}

func point() {
	if offer() {
		yield()
	}
}

func Go(f func()) {
	w := W
	t := &thread{id: len(w.threads), wake: make(chan struct{}, 1)}
	w.threads = append(w.threads, t)
	go func() {
		quiet()
		<-t.wake
		loud()
		defer w.finish(t)
		f()
	}()
	point()
}

func Explore(k int) { W.on = true; W.explore = k }
func SchedPoint()   { point() }
func YieldNow() {
	for _, o := range W.threads {
		if o != W.cur && o.runnable() {
			yield()
			return
		}
	}
}

// SkipYields lets Gosched return at once, for one of the delays.
func SkipYields() { W.skip = true }
func Gosched() {
	w := W
	if w.skip && w.on && w.explore > 0 {
		for _, o := range w.threads {
			if o != w.cur && o.runnable() {
				if Choice("skip", 2) == 1 {
					w.explore--
					return
				}
				break
			}
		}
	}
	YieldNow()
}
func Settle() {
	me := W.cur
	block("settle", func() bool {
		for _, o := range W.threads {
			if o != me && o.why != "settle" && o.runnable() {
				return false
			}
		}
		return true
	})
	me.why = ""
}
func Blocked() int {
	n := 0
	for _, o := range W.threads {
		if o != W.cur && !o.done && !o.runnable() {
			n++
		}
	}
	return n
}

// ---- clock ----

func Now() time.Time { return time.Unix(0, W.now) }
func NowNS() int64   { return W.now }
func Since(t time.Time) time.Duration {
	return time.Duration(W.now - NS(t))
}
func Until(t time.Time) time.Duration {
	return time.Duration(NS(t) - W.now)
}
func NS(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}
func Sleep(d time.Duration) { Gosched() }

func (w *World) fireTimer() bool {
	var best *timer
	for _, t := range w.timers {
		if t.dead {
			continue
		}
		if best == nil || t.at < best.at {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if w.now < best.at {
		w.now = best.at
	}
	w.trigger(best)
	return true
}

func (w *World) trigger(t *timer) {
	if t.every > 0 {
		t.at += t.every
	} else {
		t.dead = true
	}
	t.fire()
}

func Advance(d time.Duration) {
	w := W
	w.now += int64(d)
	for i := 0; i < len(w.timers); i++ {
		if t := w.timers[i]; !t.dead && t.at <= w.now {
			w.trigger(t)
		}
	}
}

func addTimer(d, every time.Duration, fire func()) *timer {
	t := &timer{at: W.now + int64(d), every: int64(every), fire: fire}
	W.timers = append(W.timers, t)
	if every == 0 && d <= 0 {
		W.trigger(t)
	}
	return t
}

// Timer mirrors time.Timer.
type Timer struct {
	C <-chan time.Time
	t *timer
}

func chanFire(c chan time.Time) func() {
	return func() {
		st := state(c)
		if len(st.buf) < 1 || hasWaiter(st.recvq) {
			trySend(st, Now())
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, t: addTimer(d, 0, chanFire(c))}
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{t: addTimer(d, 0, func() { spawnQuiet(f) })}
}
func (t *Timer) Stop() bool {
	was := !t.t.dead
	t.t.dead = true
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := !t.t.dead
	t.t.dead = false
	t.t.at = W.now + int64(d)
	return was
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	return &Ticker{C: c, t: addTimer(d, d, chanFire(c))}
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func (t *Ticker) Stop()                     { t.t.dead = true }
func (t *Ticker) Reset(d time.Duration) {
	t.t.dead = false
	t.t.at = W.now + int64(d)
}

func spawnQuiet(f func()) {
	w := W
	t := &thread{id: len(w.threads), wake: make(chan struct{}, 1)}
	w.threads = append(w.threads, t)
	go func() {
		quiet()
		<-t.wake
		loud()
		defer w.finish(t)
		f()
	}()
}

// ---- channels: real channels are only identities ----

type waiter struct {
	val  interface{}
	ok   bool
	done bool
	sel  *Sel
	idx  int

	mine, theirs byte // what the waiter and the one that wakes it pass on
}

func newWaiter(w *waiter) *waiter {
	release(unsafe.Pointer(&w.mine))
	return w
}

// woken is called when the waiter goes on after being completed.
func (w *waiter) woken() { acquire(unsafe.Pointer(&w.theirs)) }

type chanState struct {
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter

	slots        []byte
	sendx, recvx int
	cl           byte
}

// passed notes the use of one slot of the buffer.
func (s *chanState) passed(i int) {
	acquire(unsafe.Pointer(&s.slots[i]))
	release(unsafe.Pointer(&s.slots[i]))
}

// met orders the caller and a waiter both ways.
func met(w *waiter) {
	release(unsafe.Pointer(&w.theirs))
	acquire(unsafe.Pointer(&w.mine))
}

func state(c interface{}) *chanState {
	v := reflect.ValueOf(c)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	s := W.chans[p]
	if s == nil {
		s = &chanState{cap: v.Cap(), slots: make([]byte, v.Cap()+1)}
		W.chans[p] = s
		W.pins = append(W.pins, c)
	}
	return s
}

func live(w *waiter) bool { return !w.done && (w.sel == nil || w.sel.fired == nil) }

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if live(w) {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if live(w) {
			return true
		}
	}
	return false
}

func (w *waiter) complete() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w
	}
}

func trySend(s *chanState, v interface{}) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if w := deq(&s.recvq); w != nil {
		w.val, w.ok = v, true
		w.complete()
		if s.cap > 0 {
			s.passed(s.sendx)
			s.sendx = (s.sendx + 1) % s.cap
			s.recvx = s.sendx
		}
		met(w)
		return true
	}
	if len(s.buf) < s.cap {
		s.passed(s.sendx)
		s.sendx = (s.sendx + 1) % s.cap
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

func tryRecv(s *chanState) (v interface{}, ok, got bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = s.buf[1:]
		i := s.recvx
		s.passed(i)
		s.recvx = (s.recvx + 1) % s.cap
		if w := deq(&s.sendq); w != nil {
			s.sendx = s.recvx
			acquire(unsafe.Pointer(&w.mine))
			s.passed(i)
			release(unsafe.Pointer(&w.theirs))
			s.buf = append(s.buf, w.val)
			w.complete()
		}
		return v, true, true
	}
	if w := deq(&s.sendq); w != nil {
		w.complete()
		met(w)
		return w.val, true, true
	}
	if s.closed {
		acquire(unsafe.Pointer(&s.cl))
		return nil, false, true
	}
	return nil, false, false
}

func never() bool { return false }

// Send is curried so that the element type comes from the channel alone.
func Send[T any](c chan<- T) func(T) {
	return func(v T) { send(c, v) }
}

func send[T any](c chan<- T, v T) {
	s := state(c)
	if s == nil {
		block("send on nil channel", never)
	}
	if trySend(s, v) {
		point()
		return
	}
	w := newWaiter(&waiter{val: v})
	s.sendq = append(s.sendq, w)
	block("channel send", func() bool { return w.done || s.closed })
	if !w.done {
		w.done = true
		panic("send on closed channel")
	}
	w.woken()
}

func conv[T any](v interface{}) (r T) {
	if v != nil {
		r = v.(T)
	}
	return
}

func Recv2[T any](c <-chan T) (T, bool) {
	s := state(c)
	if s == nil {
		block("receive from nil channel", never)
	}
	if v, ok, got := tryRecv(s); got {
		point()
		return conv[T](v), ok
	}
	w := newWaiter(&waiter{})
	s.recvq = append(s.recvq, w)
	block("channel receive", func() bool { return w.done || s.closed })
	if !w.done {
		w.done = true
		acquire(unsafe.Pointer(&s.cl))
		var z T
		return z, false
	}
	w.woken()
	return conv[T](w.val), w.ok
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Close[T any](c chan<- T) {
	s := state(c)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	release(unsafe.Pointer(&s.cl))
}

func Len[T any](c <-chan T) int {
	s := state(c)
	if s == nil {
		return 0
	}
	return len(s.buf)
}

// Sel is one select statement.
type Sel struct {
	cases []selCase
	fired *waiter
}

type selCase struct {
	s    *chanState
	send bool
	val  interface{}
	set  func(v interface{}, ok bool)
}

// R receives the value of a select case.
type R[T any] struct {
	V  T
	OK bool
}

func NewSel() *Sel { return &Sel{} }

func SelRecv[T any](s *Sel, c <-chan T) *R[T] {
	r := &R[T]{}
	s.cases = append(s.cases, selCase{s: state(c), set: func(v interface{}, ok bool) { r.V, r.OK = conv[T](v), ok }})
	return r
}

func SelSend[T any](s *Sel, c chan<- T) func(T) {
	return func(v T) { s.cases = append(s.cases, selCase{s: state(c), send: true, val: v}) }
}

// Wait returns the index of the chosen case, or -1 for default.
func (s *Sel) Wait(def bool) int {
	var rdy []int
	for i, c := range s.cases {
		if c.s == nil {
			continue
		}
		if c.send {
			if c.s.closed || hasWaiter(c.s.recvq) || len(c.s.buf) < c.s.cap {
				rdy = append(rdy, i)
			}
		} else if len(c.s.buf) > 0 || hasWaiter(c.s.sendq) || c.s.closed {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[Choice("select", len(rdy))]
		c := s.cases[i]
		if c.send {
			trySend(c.s, c.val)
		} else {
			v, ok, _ := tryRecv(c.s)
			c.set(v, ok)
		}
		point()
		return i
	}
	if def {
		point()
		return -1
	}
	for i, c := range s.cases {
		if c.s == nil {
			continue
		}
		w := newWaiter(&waiter{val: c.val, sel: s, idx: i})
		if c.send {
			c.s.sendq = append(c.s.sendq, w)
		} else {
			c.s.recvq = append(c.s.recvq, w)
		}
	}
	closedOne := func() int {
		for i, c := range s.cases {
			if c.s != nil && c.s.closed {
				return i
			}
		}
		return -1
	}
	block("select", func() bool { return s.fired != nil || closedOne() >= 0 })
	if w := s.fired; w != nil {
		w.woken()
		c := s.cases[w.idx]
		if !c.send {
			c.set(w.val, w.ok)
		}
		return w.idx
	}
	i := closedOne()
	s.fired = &waiter{done: true}
	if s.cases[i].send {
		panic("send on closed channel")
	}
	acquire(unsafe.Pointer(&s.cases[i].s.cl))
	s.cases[i].set(nil, false)
	return i
}

// ---- locks ----

type lockState struct {
	locked  bool
	readers int
	wwait   int
	w, r    byte
}

// took and gave announce the lock to the race detector.
func (s *lockState) took() {
	acquire(unsafe.Pointer(&s.w))
	acquire(unsafe.Pointer(&s.r))
}
func (s *lockState) gave() { release(unsafe.Pointer(&s.w)) }

func fatal(msg string) {
	W.Panic = "fatal error: " + msg
	W.endNow()
	select {}
}

func (s *lockState) lockNow() {
	if !s.locked && s.readers == 0 {
		s.locked = true
		s.took()
		return
	}
	s.wwait++
	block("lock", func() bool { return !s.locked && s.readers == 0 })
	s.wwait--
	s.locked = true
	s.took()
}

func (s *lockState) lock() {
	point()
	s.lockNow()
}

func (s *lockState) unlock(what string) {
	if !s.locked {
		fatal("sync: unlock of unlocked " + what)
	}
	s.locked = false
	s.gave()
	point()
}

// Mutex mirrors sync.Mutex.
type Mutex struct{ s lockState }

func (m *Mutex) Lock()   { m.s.lock() }
func (m *Mutex) Unlock() { m.s.unlock("mutex") }
func (m *Mutex) TryLock() bool {
	if m.s.locked {
		return false
	}
	m.s.locked = true
	m.s.took()
	return true
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct{ s lockState }

func (m *RWMutex) Lock()   { m.s.lock() }
func (m *RWMutex) Unlock() { m.s.unlock("RWMutex") }
func (m *RWMutex) TryLock() bool {
	if m.s.locked || m.s.readers > 0 {
		return false
	}
	m.s.locked = true
	m.s.took()
	return true
}
func (m *RWMutex) RLock() {
	point()
	s := &m.s
	if !s.locked && s.wwait == 0 {
		s.readers++
		acquire(unsafe.Pointer(&s.w))
		return
	}
	block("rlock", func() bool { return !s.locked && s.wwait == 0 })
	s.readers++
	acquire(unsafe.Pointer(&s.w))
}
func (m *RWMutex) RUnlock() {
	if m.s.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.s.readers--
	release(unsafe.Pointer(&m.s.r))
	point()
}
func (m *RWMutex) TryRLock() bool {
	if m.s.locked || m.s.wwait > 0 {
		return false
	}
	m.s.readers++
	acquire(unsafe.Pointer(&m.s.w))
	return true
}
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once mirrors sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done {
		o.slow(f)
		return
	}
	acquire(unsafe.Pointer(o))
}

func (o *Once) slow(f func()) {
	o.m.s.lockNow()
	defer func() { o.m.s.locked = false; o.m.s.gave() }()
	if !o.done {
		defer func() { o.done = true; release(unsafe.Pointer(o)) }()
		f()
	}
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct{ n int }

func (g *WaitGroup) Add(k int) {
	g.n += k
	release(unsafe.Pointer(g))
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if g.n > 0 {
		block("WaitGroup.Wait", func() bool { return g.n == 0 })
	}
	acquire(unsafe.Pointer(g))
}
func (g *WaitGroup) Go(f func()) {
	g.n++
	Go(func() {
		f()
		release(unsafe.Pointer(g))
		g.n--
	})
}

// Cond mirrors sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*waiter
}

func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}
func (c *Cond) Wait() {
	var s *lockState
	switch l := c.L.(type) {
	case *Mutex:
		s = &l.s
	case *RWMutex:
		s = &l.s
	default:
		panic("vrt: Cond with unknown locker")
	}
	if !s.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	s.locked = false
	s.gave()
	w := &waiter{}
	c.q = append(c.q, w)
	block("Cond.Wait", func() bool { return w.done })
	s.lockNow()
}
func (c *Cond) Signal() {
	if w := deq(&c.q); w != nil {
		w.done = true
	}
}
func (c *Cond) Broadcast() {
	for w := deq(&c.q); w != nil; w = deq(&c.q) {
		w.done = true
	}
}

// ---- random numbers ----

func RUint32() uint32 { return uint32(Next("rand")) }
func RUint64() uint64 { return Next("rand") }
func RInt() int       { return int(Next("rand") & math.MaxInt64) }
func RInt63() int64   { return int64(Next("rand") & math.MaxInt64) }
func RInt31() int32   { return int32(Next("rand") & math.MaxInt32) }
func RIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to random number function")
	}
	return int(Next("rand"))
}
func RInt63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to random number function")
	}
	return int64(Next("rand"))
}
func RInt31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to random number function")
	}
	return int32(Next("rand"))
}
