package sym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

type waiter struct {
	th   *Thread
	val  Value
	ok   bool
	done bool
	sel  *selWait
	idx  int
}

type selWait struct {
	fired *waiter
}

type Chan struct {
	id     int
	cap    int
	et     types.Type
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter

	slots        []vclock // of what passed through each slot
	sendx, recvx int
	cclk         vclock // of the close
}

type mutexState struct {
	locked  bool
	owner   *Thread
	readers int
	wwait   int
	wclk    vclock // of the last write unlock
	rclk    vclock // of the read unlocks
}

type wgState struct {
	n   int64
	clk vclock
}

type condState struct{ q []*waiter }

type timer struct {
	at    *term.Term
	fire  func()
	dead  bool
	cell  *Cell
	every *term.Term
	vc    vclock
}

func (m *Machine) newChanID() int {
	m.chanSeq++
	return m.chanSeq
}

func (m *Machine) spawn(f *Fn, args []Value) *Thread {
	if m.keepMode > 0 {
		m.unsupported("goroutine during initialisation")
	}
	th := &Thread{id: len(m.threads)}
	m.threads = append(m.threads, th)
	if m.cur == nil {
		m.cur = th
	}
	m.raceThread(th)
	m.call(th, f, args, nil)
	if len(th.frames) == 0 {
		th.done = true
	}
	return th
}

// block suspends th until ready holds; resume then completes the operation.
func (m *Machine) block(th *Thread, why string, ready func() bool, resume func()) {
	th.why = why
	th.ready, th.resume = ready, resume
}

// run schedules threads until the main thread ends.
func (m *Machine) run() {
	for {
		main := m.threads[0]
		if main.done {
			return
		}
		th := m.pick()
		if th == nil {
			if m.fireTimer() {
				continue
			}
			m.deadlock()
		}
		m.cur = th
		if th.ready != nil {
			res := th.resume
			th.ready, th.resume, th.why = nil, nil, ""
			if res != nil {
				m.guard(th, res)
			}
			if th.done || th.ready != nil {
				continue
			}
			// a deferred native call that had to wait during a panic
			if fr := th.frames[len(th.frames)-1]; fr.panic != nil {
				m.guard(th, func() { m.unwind(th) })
			}
		}
		for !th.done && th.ready == nil && !th.yield {
			m.step(th)
		}
	}
}

func (m *Machine) guard(th *Thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanic(th, gp.v)
				return
			}
			panic(r)
		}
	}()
	f()
}

func (th *Thread) runnable() bool {
	return !th.done && (th.ready == nil || th.ready())
}

// pick chooses the next thread to run.
func (m *Machine) pick() *Thread {
	cur := m.cur
	y := cur.yield
	cur.yield = false
	if !y && cur.runnable() {
		return cur
	}
	var cand []*Thread
	n := len(m.threads)
	for k := 1; k <= n; k++ {
		th := m.threads[(cur.id+k)%n]
		if th.runnable() && (th != cur || y) {
			if th == cur {
				continue
			}
			cand = append(cand, th)
		}
	}
	if len(cand) == 0 {
		if cur.runnable() {
			return cur
		}
		return nil
	}
	if m.exploreOn && len(cand) > 1 {
		return m.choose(cand)
	}
	return cand[0]
}

// choose picks among runnable threads: the next in round-robin order, unless
// the delay budget allows skipping some.
func (m *Machine) choose(cand []*Thread) *Thread {
	n := len(cand)
	if n > m.explore+1 {
		n = m.explore + 1
	}
	if n <= 1 {
		return cand[0]
	}
	m.scheds++
	k := m.choice("sched", n)
	m.explore -= k
	m.trace = append(m.trace, fmt.Sprintf("switch to t%d", cand[k].id))
	return cand[k]
}

// schedPoint offers a preemption when schedules are explored.
func (m *Machine) schedPoint(th *Thread) {
	if !m.exploreOn || m.explore <= 0 || m.keepMode > 0 || th.yield {
		return
	}
	// only operations of the code under test and the harness are preemptible,
	// not the inside of library calls
	wrapped := false
	for i := len(th.frames) - 1; i >= 0; i-- {
		pk := th.frames[i].fn.Pkg
		if pk == nil {
			// a method value passed to a library call, as in once.Do(mu.Unlock)
			wrapped = wrapped || strings.HasSuffix(th.frames[i].fn.Name(), "$bound")
			continue
		}
		if pp := pk.Pkg.Path(); pp == "sync" || pp == "sync/atomic" {
			if strings.Contains(th.frames[i].fn.String(), "Once") && !wrapped {
				return
			}
			continue
		}
		if !m.P.inModule(pk) {
			return
		}
		break
	}
	n := 0
	for _, o := range m.threads {
		if o != th && o.runnable() {
			n++
		}
	}
	if n == 0 {
		return
	}
	m.scheds++
	if m.choice("preempt", 2) == 1 {
		m.explore--
		m.trace = append(m.trace, fmt.Sprintf("preempt t%d at %s", th.id, m.loc(th)))
		th.yield = true
	}
}

func (m *Machine) deadlock() {
	var s []string
	for _, th := range m.threads {
		if !th.done {
			s = append(s, fmt.Sprintf("t%d: %s in %s", th.id, th.why, m.loc(th)))
		}
	}
	m.violate("deadlock", "deadlock: "+strings.Join(s, "; "), m.model)
	panic(pathStop{EndViolation, "deadlock"})
}

// fireTimer advances the virtual clock to the next timer when nothing else can run.
func (m *Machine) fireTimer() bool {
	var best *timer
	for _, t := range m.timers {
		if t.dead {
			continue
		}
		if best == nil || m.branch(m.c.Slt(t.at, best.at)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if m.branch(m.c.Slt(m.now, best.at)) {
		m.now = best.at
	}
	m.trigger(best)
	return true
}

func (m *Machine) trigger(t *timer) {
	if t.every != nil {
		t.at = m.c.Bin(term.Add, t.at, t.every)
	} else {
		t.dead = true
	}
	if m.raceOn {
		m.raceFrom = append(vclock{}, t.vc...)
	}
	t.fire()
	m.raceFrom = nil
}

// advance moves the clock and fires due timers.
func (m *Machine) advance(d *term.Term) {
	m.now = m.c.Bin(term.Add, m.now, d)
	for i := 0; i < len(m.timers); i++ {
		t := m.timers[i]
		if !t.dead && m.branch(m.c.Sle(t.at, m.now)) {
			m.trigger(t)
		}
	}
}

// ---- channels ----

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done || (w.sel != nil && w.sel.fired != nil) {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.done && (w.sel == nil || w.sel.fired == nil) {
			return true
		}
	}
	return false
}

func (w *waiter) complete() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w
	}
}

func (m *Machine) trySend(ch *Chan, v Value) bool {
	if ch.closed {
		m.rtPanicPlainStr("send on closed channel")
	}
	if w := deq(&ch.recvq); w != nil {
		w.val, w.ok = v, true
		w.complete()
		if ch.cap == 0 {
			m.met(w.th)
		} else {
			m.passed(ch, ch.sendx, nil)
			m.passed(ch, ch.sendx, w.th)
			ch.sendx = (ch.sendx + 1) % ch.cap
			ch.recvx = ch.sendx
		}
		return true
	}
	if len(ch.buf) < ch.cap {
		m.passed(ch, ch.sendx, nil)
		ch.sendx = (ch.sendx + 1) % ch.cap
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(ch *Chan, et types.Type) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		i := ch.recvx
		m.passed(ch, i, nil)
		ch.recvx = (ch.recvx + 1) % ch.cap
		if w := deq(&ch.sendq); w != nil {
			m.passed(ch, i, w.th)
			ch.sendx = ch.recvx
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], w.val)
			w.complete()
		}
		return v, true, true
	}
	if w := deq(&ch.sendq); w != nil {
		w.complete()
		m.met(w.th)
		return w.val, true, true
	}
	if ch.closed {
		m.acquire(ch.cclk)
		return m.zero(et), false, true
	}
	return nil, false, false
}

func never() bool { return false }

func (m *Machine) chanSend(th *Thread, ch *Chan, v Value, done func()) {
	if ch == nil {
		m.block(th, "send on nil channel", never, nil)
		return
	}
	if m.trySend(ch, v) {
		done()
		m.schedPoint(th)
		return
	}
	w := &waiter{th: th, val: v}
	ch.sendq = append(ch.sendq, w)
	m.block(th, "channel send", func() bool { return w.done || ch.closed }, func() {
		if !w.done {
			w.done = true
			m.rtPanicPlainStr("send on closed channel")
		}
		done()
	})
}

func (m *Machine) chanRecv(th *Thread, ch *Chan, et types.Type, done func(Value, bool)) {
	if ch == nil {
		m.block(th, "receive from nil channel", never, nil)
		return
	}
	if v, ok, got := m.tryRecv(ch, et); got {
		done(v, ok)
		m.schedPoint(th)
		return
	}
	w := &waiter{th: th}
	ch.recvq = append(ch.recvq, w)
	m.block(th, "channel receive", func() bool { return w.done || ch.closed }, func() {
		if !w.done {
			w.done = true
			m.acquire(ch.cclk)
			done(m.zero(et), false)
			return
		}
		done(w.val, w.ok)
	})
}

func (m *Machine) chanClose(th *Thread, ch *Chan) {
	if ch == nil {
		m.rtPanicPlainStr("close of nil channel")
	}
	if ch.closed {
		m.rtPanicPlainStr("close of closed channel")
	}
	ch.closed = true
	ch.cclk = m.released()
}

func (m *Machine) rtPanicPlainStr(s string) {
	panic(goPanic{Iface{t: m.P.plainErr(), v: Str{s: s}}})
}

func (m *Machine) selectOp(th *Thread, fr *Frame, in *ssa.Select) {
	type st struct {
		ch   *Chan
		send bool
		val  Value
		et   types.Type
	}
	sts := make([]st, len(in.States))
	for i, s := range in.States {
		ch, _ := m.get(fr, s.Chan).(*Chan)
		sts[i] = st{ch: ch, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			sts[i].val = m.get(fr, s.Send)
		}
	}
	finish := func(idx int, recvOK bool, v Value) {
		tp := Tuple{m.ki(idx), m.c.Bool(recvOK)}
		for i, s := range sts {
			if !s.send {
				if i == idx && v != nil {
					tp = append(tp, v)
				} else {
					tp = append(tp, m.zero(s.et))
				}
			}
		}
		fr.set(in, tp)
	}
	var rdy []int
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		if s.send {
			if s.ch.closed || hasWaiter(s.ch.recvq) || len(s.ch.buf) < s.ch.cap {
				rdy = append(rdy, i)
			}
		} else if len(s.ch.buf) > 0 || hasWaiter(s.ch.sendq) || s.ch.closed {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			k = m.choice("select", len(rdy))
		}
		i := rdy[k]
		if sts[i].send {
			m.trySend(sts[i].ch, sts[i].val)
			finish(i, false, nil)
		} else {
			v, ok, _ := m.tryRecv(sts[i].ch, sts[i].et)
			finish(i, ok, v)
		}
		m.schedPoint(th)
		return
	}
	if !in.Blocking {
		finish(-1, false, nil)
		m.schedPoint(th)
		return
	}
	sw := &selWait{}
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		w := &waiter{th: th, val: s.val, sel: sw, idx: i}
		if s.send {
			s.ch.sendq = append(s.ch.sendq, w)
		} else {
			s.ch.recvq = append(s.ch.recvq, w)
		}
	}
	closedOne := func() int {
		for i, s := range sts {
			if s.ch != nil && s.ch.closed {
				return i
			}
		}
		return -1
	}
	m.block(th, "select", func() bool { return sw.fired != nil || closedOne() >= 0 }, func() {
		if w := sw.fired; w != nil {
			if sts[w.idx].send {
				finish(w.idx, false, nil)
			} else {
				finish(w.idx, w.ok, w.val)
			}
			return
		}
		i := closedOne()
		sw.fired = &waiter{done: true}
		if sts[i].send {
			m.rtPanicPlainStr("send on closed channel")
		}
		m.acquire(sts[i].ch.cclk)
		finish(i, false, m.zero(sts[i].et))
	})
}

// ---- locks ----

func (m *Machine) mutex(p Ptr) *mutexState {
	if p.c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := m.mutexes[p.c]
	if s == nil {
		s = &mutexState{}
		m.mutexes[p.c] = s
	}
	return s
}

func (m *Machine) fatal(msg string) {
	m.violate("panic", "fatal error: "+msg, m.model)
	panic(pathStop{EndViolation, msg})
}

func (m *Machine) lock(th *Thread, p Ptr) {
	s := m.mutex(p)
	m.schedPoint(th)
	if th.yield {
		// preempted just before acquiring
		th.yield = false
		m.yieldThen(th, func() { m.lockNow(th, s) })
		return
	}
	m.lockNow(th, s)
}

// yieldThen lets another thread run first, then does f.
func (m *Machine) yieldThen(th *Thread, f func()) {
	th.yield = true
	th.why = "preempted"
	th.ready = func() bool { return true }
	th.resume = f
}

func (m *Machine) lockNow(th *Thread, s *mutexState) {
	if !s.locked && s.readers == 0 {
		s.locked, s.owner = true, th
		m.locked(s)
		return
	}
	s.wwait++
	m.block(th, "lock", func() bool { return !s.locked && s.readers == 0 }, func() {
		s.wwait--
		s.locked, s.owner = true, th
		m.locked(s)
	})
}

func (m *Machine) locked(s *mutexState) {
	m.acquire(s.wclk)
	m.acquire(s.rclk)
}

func (m *Machine) unlock(th *Thread, p Ptr) {
	s := m.mutex(p)
	if !s.locked {
		m.fatal("sync: unlock of unlocked mutex")
	}
	s.locked, s.owner = false, nil
	s.wclk = m.released()
	m.schedPoint(th)
}

func (m *Machine) rlock(th *Thread, p Ptr) {
	s := m.mutex(p)
	m.schedPoint(th)
	f := func() {
		// a waiting writer blocks new readers
		if !s.locked && s.wwait == 0 {
			s.readers++
			m.acquire(s.wclk)
			return
		}
		m.block(th, "rlock", func() bool { return !s.locked && s.wwait == 0 }, func() { s.readers++; m.acquire(s.wclk) })
	}
	if th.yield {
		th.yield = false
		m.yieldThen(th, f)
		return
	}
	f()
}

func (m *Machine) runlock(th *Thread, p Ptr) {
	s := m.mutex(p)
	if s.readers == 0 {
		m.fatal("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	s.rclk = s.rclk.join(m.released())
	m.schedPoint(th)
}
