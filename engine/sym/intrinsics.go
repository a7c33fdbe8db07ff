package sym

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// redirects replaces library functions by Go models in package vmodel.
var redirects = map[string]string{
	"fmt.Errorf":   "Errorf",
	"errors.As":    "ErrorsAs",
	"fmt.Sprintf":  "Sprintf",
	"fmt.Sprint":   "Sprint",
	"fmt.Sprintln": "Sprint",

	"sort.Slice":         "SortSlice",
	"sort.SliceStable":   "SortSlice",
	"sort.SliceIsSorted": "SliceIsSorted",
	"context.WithValue":  "WithValue",

	"(*sync.Map).Load":             "MapLoad",
	"(*sync.Map).Store":            "MapStore",
	"(*sync.Map).Clear":            "MapClear",
	"(*sync.Map).LoadOrStore":      "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "MapLoadAndDelete",
	"(*sync.Map).Delete":           "MapDelete",
	"(*sync.Map).Swap":             "MapSwap",
	"(*sync.Map).CompareAndSwap":   "MapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "MapCompareAndDelete",
	"(*sync.Map).Range":            "MapRange",
}

func nop(m *Machine, th *Thread, a []Value) Value { return nil }

func (m *Machine) scalarPtr(v Value) Ptr { return m.ptr(v) }

var intrinsics map[string]handler

func init() {
	in := map[string]handler{}
	intrinsics = in
	// ---- sync ----
	in["(*sync.Mutex).Lock"] = func(m *Machine, th *Thread, a []Value) Value { m.lock(th, m.ptr(a[0])); return nil }
	in["(*sync.Mutex).Unlock"] = func(m *Machine, th *Thread, a []Value) Value { m.unlock(th, m.ptr(a[0])); return nil }
	tryLock := func(m *Machine, th *Thread, a []Value) Value {
		s := m.mutex(m.ptr(a[0]))
		if s.locked || s.readers > 0 {
			return m.c.F
		}
		s.locked, s.owner = true, th
		m.locked(s)
		return m.c.T
	}
	in["(*sync.Mutex).TryLock"] = tryLock
	in["(*sync.RWMutex).TryLock"] = tryLock
	in["(*sync.RWMutex).Lock"] = in["(*sync.Mutex).Lock"]
	in["(*sync.RWMutex).Unlock"] = func(m *Machine, th *Thread, a []Value) Value {
		if !m.mutex(m.ptr(a[0])).locked {
			m.fatal("sync: Unlock of unlocked RWMutex")
		}
		m.unlock(th, m.ptr(a[0]))
		return nil
	}
	in["(*sync.RWMutex).RLock"] = func(m *Machine, th *Thread, a []Value) Value { m.rlock(th, m.ptr(a[0])); return nil }
	in["(*sync.RWMutex).RUnlock"] = func(m *Machine, th *Thread, a []Value) Value { m.runlock(th, m.ptr(a[0])); return nil }
	in["(*sync.RWMutex).TryRLock"] = func(m *Machine, th *Thread, a []Value) Value {
		s := m.mutex(m.ptr(a[0]))
		if s.locked || s.wwait > 0 {
			return m.c.F
		}
		s.readers++
		m.acquire(s.wclk)
		return m.c.T
	}
	wg := func(m *Machine, v Value) *wgState {
		p := m.ptr(v)
		s := m.wgs[p.c]
		if s == nil {
			s = &wgState{}
			m.wgs[p.c] = s
		}
		return s
	}
	in["(*sync.WaitGroup).Add"] = func(m *Machine, th *Thread, a []Value) Value {
		s := wg(m, a[0])
		s.clk = s.clk.join(m.released())
		s.n += int64(m.concretize(a[1].(*term.Term), "WaitGroup.Add"))
		if s.n < 0 {
			m.rtPanicPlainStr("sync: negative WaitGroup counter")
		}
		return nil
	}
	in["(*sync.WaitGroup).Done"] = func(m *Machine, th *Thread, a []Value) Value {
		s := wg(m, a[0])
		s.clk = s.clk.join(m.released())
		s.n--
		if s.n < 0 {
			m.rtPanicPlainStr("sync: negative WaitGroup counter")
		}
		return nil
	}
	in["(*sync.WaitGroup).Wait"] = func(m *Machine, th *Thread, a []Value) Value {
		s := wg(m, a[0])
		if s.n > 0 {
			m.block(th, "WaitGroup.Wait", func() bool { return s.n == 0 }, func() { m.acquire(s.clk) })
			return nil
		}
		m.acquire(s.clk)
		return nil
	}
	in["(*sync.WaitGroup).Go"] = func(m *Machine, th *Thread, a []Value) Value {
		s := wg(m, a[0])
		s.n++
		f := a[1].(*Fn)
		nt := m.spawn(f, nil)
		if len(nt.frames) > 0 {
			nt.frames[0].onRet = func(Value) { s.clk = s.clk.join(m.released()); s.n--; nt.done = true }
		} else {
			s.n--
		}
		m.schedPoint(th)
		return nil
	}
	in["(*sync.Pool).Get"] = func(m *Machine, th *Thread, a []Value) Value {
		p := m.ptr(a[0])
		m.atomically(p, true, false)
		if l := m.pools[p.c]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[p.c] = l[:len(l)-1]
			return v
		}
		st := p.c.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if f, _ := m.load(p.c.fs[i]).(*Fn); f != nil {
					return m.tail(th, f)
				}
			}
		}
		return Iface{}
	}
	in["(*sync.Pool).Put"] = func(m *Machine, th *Thread, a []Value) Value {
		p := m.ptr(a[0])
		m.atomically(p, true, true)
		m.pools[p.c] = append(m.pools[p.c], a[1])
		return nil
	}
	cond := func(m *Machine, v Value) *condState {
		p := m.ptr(v)
		s := m.conds[p.c]
		if s == nil {
			s = &condState{}
			m.conds[p.c] = s
		}
		return s
	}
	in["(*sync.Cond).Wait"] = func(m *Machine, th *Thread, a []Value) Value {
		s := cond(m, a[0])
		p := m.ptr(a[0])
		l := m.load(p.c).(Struct)[condL(p.c.t)].(Iface)
		lp := m.ptr(l.v)
		if !strings.HasSuffix(l.t.String(), "sync.Mutex") && !strings.HasSuffix(l.t.String(), "sync.RWMutex") {
			m.unsupported("sync.Cond with locker %s", l.t)
		}
		ms := m.mutex(lp)
		if !ms.locked {
			m.fatal("sync: unlock of unlocked mutex")
		}
		ms.locked, ms.owner = false, nil
		ms.wclk = m.released()
		w := &waiter{th: th}
		s.q = append(s.q, w)
		m.block(th, "Cond.Wait", func() bool { return w.done }, func() { m.lockNow(th, ms) })
		return nil
	}
	in["(*sync.Cond).Signal"] = func(m *Machine, th *Thread, a []Value) Value {
		if w := deq(&cond(m, a[0]).q); w != nil {
			w.done = true
		}
		return nil
	}
	in["(*sync.Cond).Broadcast"] = func(m *Machine, th *Thread, a []Value) Value {
		s := cond(m, a[0])
		for w := deq(&s.q); w != nil; w = deq(&s.q) {
			w.done = true
		}
		return nil
	}
	in["(*sync.copyChecker).check"] = nop
	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		in["sync/atomic.Load"+ty] = func(m *Machine, th *Thread, a []Value) Value {
			p := m.ptr(a[0])
			v := m.aload(th, p)
			m.atomically(p, true, false)
			m.schedPoint(th)
			return v
		}
		in["sync/atomic.Store"+ty] = func(m *Machine, th *Thread, a []Value) Value {
			p := m.ptr(a[0])
			m.astore(th, p, a[1])
			m.atomically(p, false, true)
			m.schedPoint(th)
			return nil
		}
		in["sync/atomic.Swap"+ty] = func(m *Machine, th *Thread, a []Value) Value {
			p := m.ptr(a[0])
			o := m.aload(th, p)
			m.astore(th, p, a[1])
			m.atomically(p, true, true)
			m.schedPoint(th)
			return o
		}
		in["sync/atomic.CompareAndSwap"+ty] = func(m *Machine, th *Thread, a []Value) Value {
			p := m.ptr(a[0])
			o := m.aload(th, p)
			if m.branch(m.eqVal(o, a[1])) {
				m.astore(th, p, a[2])
				m.atomically(p, true, true)
				m.schedPoint(th)
				return m.c.T
			}
			m.atomically(p, true, false)
			m.schedPoint(th)
			return m.c.F
		}
		for nm, op := range map[string]term.Op{"Add": term.Add, "And": term.And, "Or": term.Or} {
			nm, op := nm, op
			in["sync/atomic."+nm+ty] = func(m *Machine, th *Thread, a []Value) Value {
				p := m.ptr(a[0])
				o := m.aload(th, p).(*term.Term)
				n := m.c.Bin(op, o, a[1].(*term.Term))
				m.astore(th, p, n)
				m.atomically(p, true, true)
				m.schedPoint(th)
				if nm == "Add" {
					return n
				}
				return o
			}
		}
	}
	in["(*sync/atomic.Value).Load"] = func(m *Machine, th *Thread, a []Value) Value {
		m.atomically(m.ptr(a[0]), true, false)
		if v, ok := m.avals[m.ptr(a[0]).c]; ok {
			return v
		}
		return Iface{}
	}
	in["(*sync/atomic.Value).Store"] = func(m *Machine, th *Thread, a []Value) Value {
		m.avals[m.ptr(a[0]).c] = a[1]
		m.atomically(m.ptr(a[0]), false, true)
		return nil
	}
	// ---- runtime ----
	in["runtime.Gosched"] = func(m *Machine, th *Thread, a []Value) Value { m.gosched(th); return nil }
	in["runtime.KeepAlive"] = nop
	in["runtime.GC"] = nop
	in["runtime.SetFinalizer"] = nop
	in["internal/abi.NoEscape"] = func(m *Machine, th *Thread, a []Value) Value { return a[0] }
	in["internal/abi.Escape"] = func(m *Machine, th *Thread, a []Value) Value { return a[0] }
	in["internal/race.Enable"] = nop
	in["internal/race.Disable"] = nop
	in["internal/godebug.New"] = func(m *Machine, th *Thread, a []Value) Value { return Ptr{} }
	in["(*internal/godebug.Setting).Value"] = func(m *Machine, th *Thread, a []Value) Value { return Str{} }
	in["(*internal/godebug.Setting).IncNonDefault"] = nop
	in["internal/bytealg.MakeNoZero"] = func(m *Machine, th *Thread, a []Value) Value {
		n := a[0].(*term.Term)
		return m.mkSlice(types.Typ[types.Uint8], n, n)
	}
	in["bytes.growSlice"] = nil
	delete(in, "bytes.growSlice")
	// ---- bytealg ----
	strOf := func(m *Machine, v Value) Str {
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			if x.a == nil {
				return Str{}
			}
			return Str{a: x.a, off: x.off, len: x.len}
		}
		m.unsupported("bytes of %T", v)
		return Str{}
	}
	indexByte := func(m *Machine, th *Thread, a []Value) Value {
		bs := m.strBytes(strOf(m, a[0]))
		c := a[1].(*term.Term)
		for i, b := range bs {
			if m.branch(m.c.Eq(b, c)) {
				return m.ki(i)
			}
		}
		return m.ki(-1)
	}
	lastIndexByte := func(m *Machine, th *Thread, a []Value) Value {
		bs := m.strBytes(strOf(m, a[0]))
		c := a[1].(*term.Term)
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(m.c.Eq(bs[i], c)) {
				return m.ki(i)
			}
		}
		return m.ki(-1)
	}
	count := func(m *Machine, th *Thread, a []Value) Value {
		bs := m.strBytes(strOf(m, a[0]))
		c := a[1].(*term.Term)
		r := m.k64(0)
		for _, b := range bs {
			r = m.c.Bin(term.Add, r, m.c.Ite(m.c.Eq(b, c), m.k64(1), m.k64(0)))
		}
		return r
	}
	indexStr := func(m *Machine, th *Thread, a []Value) Value {
		x, y := m.strBytes(strOf(m, a[0])), m.strBytes(strOf(m, a[1]))
		for i := 0; i+len(y) <= len(x); i++ {
			eq := m.c.T
			for j := range y {
				eq = m.c.AndB(eq, m.c.Eq(x[i+j], y[j]))
			}
			if m.branch(eq) {
				return m.ki(i)
			}
		}
		return m.ki(-1)
	}
	compare := func(m *Machine, th *Thread, a []Value) Value {
		x, y := strOf(m, a[0]), strOf(m, a[1])
		return m.c.Ite(m.strLt(x, y), m.ki(-1), m.c.Ite(m.strEq(x, y), m.ki(0), m.ki(1)))
	}
	equal := func(m *Machine, th *Thread, a []Value) Value { return m.strEq(strOf(m, a[0]), strOf(m, a[1])) }
	for _, p := range []string{"internal/bytealg.", "strings.", "bytes."} {
		in[p+"IndexByte"] = indexByte
		in[p+"IndexByteString"] = indexByte
		in[p+"LastIndexByte"] = lastIndexByte
		in[p+"LastIndexByteString"] = lastIndexByte
		in[p+"Compare"] = compare
		in[p+"Equal"] = equal
	}
	in["internal/bytealg.Count"] = count
	in["internal/bytealg.CountString"] = count
	for _, p := range []string{"internal/bytealg.", "strings.", "bytes."} {
		in[p+"Index"] = indexStr
		in[p+"IndexString"] = indexStr
	}
	contains := func(m *Machine, th *Thread, a []Value) Value {
		x, y := m.strBytes(strOf(m, a[0])), m.strBytes(strOf(m, a[1]))
		r := m.c.F
		for i := 0; i+len(y) <= len(x); i++ {
			eq := m.c.T
			for j := range y {
				eq = m.c.AndB(eq, m.c.Eq(x[i+j], y[j]))
			}
			r = m.c.OrB(r, eq)
		}
		return r
	}
	in["strings.Contains"] = contains
	in["bytes.Contains"] = contains
	in["internal/stringslite.Index"] = indexStr
	in["internal/stringslite.IndexByte"] = indexByte
	in["runtime.memequal"] = nil
	delete(in, "runtime.memequal")
	// ---- errors ----
	in["errors.Is"] = func(m *Machine, th *Thread, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return m.c.Bool(e.t == nil && t.t == nil)
		}
		is := m.P.pkgs["errors"].Func("is")
		if is == nil {
			m.unsupported("errors.is missing")
		}
		m.P.buildPkg(is.Pkg)
		return m.tail(th, &Fn{fn: is}, a[0], a[1], m.c.Bool(types.Comparable(t.t)))
	}
	// vmodel helper: assign err to *target when types allow
	in["vmodel.asTarget"] = func(m *Machine, th *Thread, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if t.t == nil {
			m.rtPanicPlainStr("errors: target cannot be nil")
		}
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			m.rtPanicPlainStr("errors: target must be a non-nil pointer")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if m.implements(e.t, it) {
				m.storePtr(th, m.ptr(t.v), e)
				return m.c.T
			}
			return m.c.F
		}
		if types.Identical(e.t, pt.Elem()) {
			m.storePtr(th, m.ptr(t.v), e.v)
			return m.c.T
		}
		return m.c.F
	}
	// vmodel helpers: any slice
	in["vmodel.length"] = func(m *Machine, th *Thread, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			m.unsupported("length of %T", a[0].(Iface).v)
		}
		return m.slen(s)
	}
	in["vmodel.swap"] = func(m *Machine, th *Thread, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		off := m.concretize(s.off, "swap")
		i, j := off+m.concretize(a[1].(*term.Term), "swap"), off+m.concretize(a[2].(*term.Term), "swap")
		x, y := m.at(s.a, i), m.at(s.a, j)
		m.setAt(s.a, i, y)
		m.setAt(s.a, j, x)
		return nil
	}
	in["vmodel.plain"] = func(m *Machine, th *Thread, a []Value) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return e
		}
		switch t := e.t.Underlying().(type) {
		case *types.Basic:
			return Iface{t: t, v: e.v}
		case *types.Pointer:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok {
				return Iface{t: types.NewPointer(b), v: e.v}
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok {
				return Iface{t: types.NewSlice(b), v: e.v}
			}
		}
		return e
	}
	// encoding/binary needs reflection for defined types only
	for _, name := range []string{"Write", "Read"} {
		name := name
		in["encoding/binary."+name] = func(m *Machine, th *Thread, a []Value) Value {
			f := m.P.Func("vmodel", "Binary"+name)
			switch t := a[2].(Iface).t.(type) {
			case *types.Basic:
				f = m.P.Func("encoding/binary", name)
			case *types.Pointer:
				if _, ok := t.Elem().(*types.Basic); ok {
					f = m.P.Func("encoding/binary", name)
				}
			case *types.Slice:
				if _, ok := t.Elem().(*types.Basic); ok {
					f = m.P.Func("encoding/binary", name)
				}
			}
			if f == nil {
				m.unsupported("binary.%s", name)
			}
			m.P.build(f)
			m.pushFrame(th, &Fn{fn: f}, a, m.retDst)
			return noResult{}
		}
	}
	in["vmodel.unmodelled"] = func(m *Machine, th *Thread, a []Value) Value {
		m.unsupported("%s", m.constString(a[0], "name"))
		return nil
	}
	in["maps.clone"] = func(m *Machine, th *Thread, a []Value) Value {
		e := a[0].(Iface)
		x, ok := e.v.(*Map)
		if !ok {
			m.unsupported("clone of %T", e.v)
		}
		if x == nil {
			return e
		}
		m.mapAccess(th, x, false)
		c := &Map{t: x.t}
		for _, n := range x.ents {
			c.ents = append(c.ents, &mapEntry{k: n.k, v: n.v})
		}
		return Iface{t: e.t, v: c}
	}
	// ---- fmt output is dropped ----
	for _, f := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		in[f] = func(m *Machine, th *Thread, a []Value) Value { return Tuple{m.k64(0), Iface{}} }
	}
	for _, f := range []string{"log.Println", "log.Printf", "log.Print"} {
		in[f] = nop
	}
	// ---- time: wall is 0, ext counts nanoseconds of the virtual clock ----
	mk := func(m *Machine, ext *term.Term) Value { return Struct{m.k64(0), ext, Ptr{}} }
	ext := func(v Value) *term.Term { return v.(Struct)[1].(*term.Term) }
	in["time.Now"] = func(m *Machine, th *Thread, a []Value) Value { return mk(m, m.now) }
	in["(time.Time).Add"] = func(m *Machine, th *Thread, a []Value) Value {
		return mk(m, m.c.Bin(term.Add, ext(a[0]), a[1].(*term.Term)))
	}
	in["(time.Time).Sub"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.Bin(term.Sub, ext(a[0]), ext(a[1]))
	}
	in["(time.Time).After"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Slt(ext(a[1]), ext(a[0])) }
	in["(time.Time).Before"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Slt(ext(a[0]), ext(a[1])) }
	in["(time.Time).Equal"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Eq(ext(a[0]), ext(a[1])) }
	in["(time.Time).Compare"] = func(m *Machine, th *Thread, a []Value) Value {
		x, y := ext(a[0]), ext(a[1])
		return m.c.Ite(m.c.Slt(x, y), m.ki(-1), m.c.Ite(m.c.Eq(x, y), m.ki(0), m.ki(1)))
	}
	in["(time.Time).IsZero"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Eq(ext(a[0]), m.k64(0)) }
	in["(time.Time).UnixNano"] = func(m *Machine, th *Thread, a []Value) Value { return ext(a[0]) }
	in["(time.Time).Round"] = func(m *Machine, th *Thread, a []Value) Value { return a[0] }
	in["time.Since"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Bin(term.Sub, m.now, ext(a[0])) }
	in["time.Until"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Bin(term.Sub, ext(a[0]), m.now) }
	in["time.Sleep"] = func(m *Machine, th *Thread, a []Value) Value { m.gosched(th); return nil }
	newTimer := func(m *Machine, th *Thread, d *term.Term, f *Fn, every bool) Value {
		tt := m.P.pkgs["time"].Type("Timer").Type()
		if every {
			tt = m.P.pkgs["time"].Type("Ticker").Type()
		}
		c := m.newCell(tt)
		t := &timer{at: m.c.Bin(term.Add, m.now, d), cell: c, vc: m.released()}
		if every {
			t.every = d
		}
		ch := &Chan{id: m.newChanID(), cap: 1}
		if f == nil {
			c.fs[0].v = ch
			t.fire = func() {
				if len(ch.buf) < 1 || hasWaiter(ch.recvq) {
					m.trySend(ch, mk(m, m.now))
				}
			}
		} else {
			t.fire = func() { m.spawn(f, nil) }
		}
		m.timers = append(m.timers, t)
		if !every && m.branch(m.c.Sle(d, m.k64(0))) {
			m.trigger(t)
		}
		return Ptr{c: c}
	}
	in["time.AfterFunc"] = func(m *Machine, th *Thread, a []Value) Value {
		return newTimer(m, th, a[0].(*term.Term), a[1].(*Fn), false)
	}
	in["time.NewTimer"] = func(m *Machine, th *Thread, a []Value) Value {
		return newTimer(m, th, a[0].(*term.Term), nil, false)
	}
	in["time.NewTicker"] = func(m *Machine, th *Thread, a []Value) Value {
		return newTimer(m, th, a[0].(*term.Term), nil, true)
	}
	in["time.After"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.ptr(newTimer(m, th, a[0].(*term.Term), nil, false)).c.fs[0].v
	}
	in["time.Tick"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.ptr(newTimer(m, th, a[0].(*term.Term), nil, true)).c.fs[0].v
	}
	find := func(m *Machine, v Value) *timer {
		for _, t := range m.timers {
			if t.cell == m.ptr(v).c {
				return t
			}
		}
		return nil
	}
	stop := func(m *Machine, th *Thread, a []Value) Value {
		t := find(m, a[0])
		was := t != nil && !t.dead
		if t != nil {
			t.dead = true
		}
		return m.c.Bool(was)
	}
	in["(*time.Timer).Stop"] = stop
	in["(*time.Ticker).Stop"] = func(m *Machine, th *Thread, a []Value) Value { stop(m, th, a); return nil }
	in["(*time.Timer).Reset"] = func(m *Machine, th *Thread, a []Value) Value {
		t := find(m, a[0])
		if t == nil {
			m.unsupported("reset of unknown timer")
		}
		was := !t.dead
		t.dead = false
		t.vc = m.released()
		t.at = m.c.Bin(term.Add, m.now, a[1].(*term.Term))
		return m.c.Bool(was)
	}
	// ---- random numbers are symbolic inputs ----
	rnd := func(w uint16) handler {
		return func(m *Machine, th *Thread, a []Value) Value { return m.newVar("rand", w) }
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		in[p+"Uint32"] = rnd(32)
		in[p+"Uint64"] = rnd(64)
		pos := func(w uint16, out uint16) handler {
			return func(m *Machine, th *Thread, a []Value) Value {
				return m.c.ZExt(m.c.Extract(m.newVar("rand", w), w-2, 0), out)
			}
		}
		in[p+"Int"] = pos(64, 64)
		in[p+"Int63"] = pos(64, 64)
		in[p+"Int64"] = pos(64, 64)
		in[p+"Int31"] = pos(32, 32)
		in[p+"Int32"] = pos(32, 32)
		below := func(m *Machine, th *Thread, a []Value) Value {
			n := a[0].(*term.Term)
			if !m.branch(m.c.Slt(m.c.Const(0, n.W), n)) {
				m.rtPanicPlainStr("invalid argument to random number function")
			}
			v := m.newVar("rand", n.W)
			m.assume(m.c.Ult(v, n))
			return v
		}
		for _, f := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N", "Uint32N", "Uint64N", "N"} {
			in[p+f] = below
		}
	}
	in["math.Float64bits"] = func(m *Machine, th *Thread, a []Value) Value {
		t := a[0].(*term.Term)
		if !t.IsConst() {
			m.unsupported("bits of a symbolic float")
		}
		return m.k64(t.K)
	}
	in["math.Pow"] = func(m *Machine, th *Thread, a []Value) Value {
		x, y := a[0].(*term.Term), a[1].(*term.Term)
		if !x.IsConst() || !y.IsConst() {
			m.unsupported("math.Pow on symbolic values")
		}
		return m.c.Float(math.Pow(term.FVal(x.K, x.W), term.FVal(y.K, y.W)), term.F64)
	}
	in["unicode/utf8.ValidString"] = func(m *Machine, th *Thread, a []Value) Value { return m.validUTF8(strOf(m, a[0])) }
	in["unicode/utf8.Valid"] = in["unicode/utf8.ValidString"]
}

func condL(t types.Type) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return i
		}
	}
	return 0
}

func (m *Machine) validUTF8(s Str) Value {
	n := m.concretize(m.strLen(s), "utf8.Valid")
	for i := uint64(0); i < n; {
		r, w := m.decodeRune(s, i, n)
		if w == 1 && r.IsK(0xFFFD) {
			return m.c.F
		}
		i += w
	}
	return m.c.T
}

// gosched is runtime.Gosched, or time.Sleep. After vnd.SkipYields it may return at once, as it does when no other thread gets to run on
// this processor; this takes one of the delays.
func (m *Machine) gosched(th *Thread) {
	if m.skipYields && m.exploreOn && m.explore > 0 && m.keepMode == 0 {
		for _, o := range m.threads {
			if o != th && o.runnable() {
				if m.choice("skip", 2) == 1 {
					m.explore--
					m.trace = append(m.trace, fmt.Sprintf("t%d goes on at %s", th.id, m.loc(th)))
					return
				}
				break
			}
		}
	}
	m.yieldNow(th)
}

func (m *Machine) yieldNow(th *Thread) {
	if m.keepMode > 0 {
		return
	}
	for _, o := range m.threads {
		if o != th && o.runnable() {
			th.yield = true
			return
		}
	}
}

func (m *Machine) constString(v Value, what string) string {
	s, ok := m.concStr(v.(Str))
	if !ok {
		m.unsupported("%s must be constant", what)
	}
	return s
}

// vndIntrinsic resolves the harness interface (package vnd) and model helpers.
func vndIntrinsic(p *Program, fn *ssa.Function) handler {
	if fn.Pkg == nil {
		return nil
	}
	path := fn.Pkg.Pkg.Path()
	if path == p.Module+"/vmodel" {
		return intrinsics["vmodel."+fn.Name()]
	}
	if path != p.Module+"/vnd" || fn.Signature.Recv() != nil {
		return nil
	}
	return vndTable[fn.Name()]
}

var vndTable map[string]handler

func init() {
	v := map[string]handler{}
	vndTable = v
	scalar := func(w uint16) handler {
		return func(m *Machine, th *Thread, a []Value) Value {
			return m.newVar(m.constString(a[0], "label"), w)
		}
	}
	v["Byte"] = scalar(8)
	v["U16"] = scalar(16)
	v["U32"] = scalar(32)
	v["U64"] = scalar(64)
	v["I64"] = scalar(64)
	v["Bool"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.Eq(m.c.Extract(m.newVar(m.constString(a[0], "label"), 8), 0, 0), m.c.Const(1, 1))
	}
	// Int(label, lo, hi) is a symbolic int in [lo, hi].
	v["Int"] = func(m *Machine, th *Thread, a []Value) Value {
		x := m.newVar(m.constString(a[0], "label"), 64)
		m.assume(m.c.AndB(m.c.Sle(a[1].(*term.Term), x), m.c.Sle(x, a[2].(*term.Term))))
		return x
	}
	v["Choice"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.ki(m.choice(m.constString(a[0], "label"), int(m.concretize(a[1].(*term.Term), "Choice"))))
	}
	v["Bytes"] = func(m *Machine, th *Thread, a []Value) Value {
		lab := m.constString(a[0], "label")
		n := m.concretize(a[1].(*term.Term), "Bytes length")
		arr := m.newArray(types.Typ[types.Uint8], m.k64(n))
		for i := uint64(0); i < n; i++ {
			arr.put(i, m.newVar(lab, 8))
		}
		return Slice{a: arr, off: m.k64(0), len: m.k64(n), cap: m.k64(n)}
	}
	v["String"] = func(m *Machine, th *Thread, a []Value) Value {
		lab := m.constString(a[0], "label")
		n := m.concretize(a[1].(*term.Term), "String length")
		bs := make([]*term.Term, n)
		for i := range bs {
			bs[i] = m.newVar(lab, 8)
		}
		return m.mkStr(bs)
	}
	lazy := func(m *Machine, a []Value) (*Array, *term.Term) {
		lab := m.constString(a[0], "label")
		mx := m.concretize(a[1].(*term.Term), "lazy bound")
		n := m.newVar(lab+".len", 64)
		m.assume(m.c.Ule(n, m.k64(mx)))
		arr := &Array{et: types.Typ[types.Uint8], n: n, sparse: map[uint64]Value{}}
		b := m.newVar(lab+".fill", 8)
		arr.gen = func(i uint64) Value { return b }
		return arr, n
	}
	// LazyBytes/LazyString have a symbolic length up to the bound; every byte is the same symbolic value.
	v["LazyBytes"] = func(m *Machine, th *Thread, a []Value) Value {
		arr, n := lazy(m, a)
		return Slice{a: arr, off: m.k64(0), len: n, cap: n}
	}
	v["LazyString"] = func(m *Machine, th *Thread, a []Value) Value {
		arr, n := lazy(m, a)
		return Str{a: arr, off: m.k64(0), len: n}
	}
	v["Assume"] = func(m *Machine, th *Thread, a []Value) Value { m.assume(a[0].(*term.Term)); return nil }
	v["Assert"] = func(m *Machine, th *Thread, a []Value) Value {
		m.assert(a[0].(*term.Term), m.constString(a[1], "assertion label"))
		return nil
	}
	v["Cover"] = func(m *Machine, th *Thread, a []Value) Value {
		m.covers[m.constString(a[0], "cover label")] = true
		return nil
	}
	v["And"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.AndB(a[0].(*term.Term), a[1].(*term.Term))
	}
	v["Or"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.OrB(a[0].(*term.Term), a[1].(*term.Term))
	}
	v["Not"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.Not(a[0].(*term.Term)) }
	v["Implies"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.OrB(m.c.Not(a[0].(*term.Term)), a[1].(*term.Term))
	}
	v["IteInt"] = func(m *Machine, th *Thread, a []Value) Value {
		return m.c.Ite(a[0].(*term.Term), a[1].(*term.Term), a[2].(*term.Term))
	}
	v["IteByte"] = v["IteInt"]
	v["IteBool"] = func(m *Machine, th *Thread, a []Value) Value {
		g := a[0].(*term.Term)
		return m.c.OrB(m.c.AndB(g, a[1].(*term.Term)), m.c.AndB(m.c.Not(g), a[2].(*term.Term)))
	}
	v["EqBytes"] = func(m *Machine, th *Thread, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		sx, sy := Str{}, Str{}
		if x.a != nil {
			sx = Str{a: x.a, off: x.off, len: x.len}
		}
		if y.a != nil {
			sy = Str{a: y.a, off: y.off, len: y.len}
		}
		return m.strEq(sx, sy)
	}
	v["EqStr"] = func(m *Machine, th *Thread, a []Value) Value { return m.strEq(a[0].(Str), a[1].(Str)) }
	v["Param"] = func(m *Machine, th *Thread, a []Value) Value {
		if x, ok := m.params[m.constString(a[0], "parameter")]; ok {
			return m.ki(x)
		}
		return a[1]
	}
	v["Explore"] = func(m *Machine, th *Thread, a []Value) Value {
		m.exploreOn = true
		m.explore = int(int64(m.concretize(a[0].(*term.Term), "Explore")))
		return nil
	}
	v["SkipYields"] = func(m *Machine, th *Thread, a []Value) Value { m.skipYields = true; return nil }
	v["MapOrder"] = func(m *Machine, th *Thread, a []Value) Value {
		m.mapOrder = a[0].(*term.Term).IsTrue()
		return nil
	}
	v["Races"] = func(m *Machine, th *Thread, a []Value) Value { m.racesOn(); return nil }
	v["SchedPoint"] = func(m *Machine, th *Thread, a []Value) Value { m.schedPoint(th); return nil }
	v["Yield"] = func(m *Machine, th *Thread, a []Value) Value { m.yieldNow(th); return nil }
	v["Advance"] = func(m *Machine, th *Thread, a []Value) Value { m.advance(a[0].(*term.Term)); return nil }
	v["Now"] = func(m *Machine, th *Thread, a []Value) Value { return m.now }
	v["TimeNS"] = func(m *Machine, th *Thread, a []Value) Value { return a[0].(Struct)[1] }
	v["Symbolic"] = func(m *Machine, th *Thread, a []Value) Value { return m.c.T }
	v["Settle"] = func(m *Machine, th *Thread, a []Value) Value {
		// run every other thread until it blocks or ends
		m.block(th, "settle", func() bool {
			for _, o := range m.threads {
				if o != th && o.why != "settle" && o.runnable() {
					return false
				}
			}
			return true
		}, nil)
		return nil
	}
	v["Blocked"] = func(m *Machine, th *Thread, a []Value) Value {
		// number of other threads that are blocked
		n := 0
		for _, o := range m.threads {
			if o != th && !o.done && !o.runnable() {
				n++
			}
		}
		return m.ki(n)
	}
	v["Observe"] = func(m *Machine, th *Thread, a []Value) Value {
		lab := m.constString(a[0], "label")
		t := a[1].(*term.Term)
		m.obs = append(m.obs, func() string { return fmt.Sprintf("%s=%d", lab, int64(m.c.Eval(t, m.model))) })
		return nil
	}
	v["ObserveBytes"] = func(m *Machine, th *Thread, a []Value) Value {
		lab := m.constString(a[0], "label")
		s := a[1].(Slice)
		var bs []*term.Term
		if s.a != nil {
			bs = m.strBytes(Str{a: s.a, off: s.off, len: s.len})
		}
		m.obs = append(m.obs, func() string {
			b := make([]byte, len(bs))
			for i, t := range bs {
				b[i] = byte(m.c.Eval(t, m.model))
			}
			return fmt.Sprintf("%s=%x", lab, b)
		})
		return nil
	}
}
