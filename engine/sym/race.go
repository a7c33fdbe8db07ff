package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races are found with vector clocks: two accesses to a location, one of
// them a write, that no synchronisation orders are reported whatever order the
// explored schedule put them in. Accesses of library code count for the
// nearest caller in the module; a race matters when a caller in the code under
// test is part of it.

type vclock []int32

func (v vclock) at(t int) int32 {
	if t < len(v) {
		return v[t]
	}
	return 0
}

// join gives the least clock above both; it never changes its arguments.
func (v vclock) join(o vclock) vclock {
	n := len(v)
	if len(o) > n {
		n = len(o)
	}
	r := make(vclock, n)
	copy(r, v)
	for i, x := range o {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

type site struct {
	fn   *ssa.Function
	pos  token.Pos
	repo bool
}

type access struct {
	t int
	c int32
	s site
}

type shadow struct {
	path  int
	write access
	has   bool
	reads []access
}

// kinds of functions
const (
	fnOther = iota
	fnRepo
	fnHarness
)

func (m *Machine) fnKind(fn *ssa.Function) int {
	if k, ok := m.fnKinds[fn]; ok {
		return k
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	k := fnOther
	if f.Pkg != nil {
		p := f.Pkg.Pkg.Path()
		switch {
		case p == m.P.Module+"/mqtt" || strings.HasPrefix(p, m.P.Module+"/mqtt/"):
			k = fnRepo
		case strings.HasPrefix(p, m.P.Module+"/h/"):
			k = fnHarness
		}
	}
	m.fnKinds[fn] = k
	return k
}

func (m *Machine) siteOf(th *Thread) site {
	for i := len(th.frames) - 1; i >= 0; i-- {
		fr := th.frames[i]
		k := m.fnKind(fr.fn)
		if k == fnOther {
			continue
		}
		s := site{fn: fr.fn, repo: k == fnRepo}
		if fr.pc > 0 && fr.pc <= len(fr.block.Instrs) {
			s.pos = fr.block.Instrs[fr.pc-1].Pos()
		}
		return s
	}
	return site{}
}

func (m *Machine) racesOn() {
	m.raceOn = true
	for _, th := range m.threads {
		if th.vc == nil {
			th.vc = make(vclock, th.id+1)
			th.vc[th.id] = 1
		}
	}
}

// released gives the clock of the acting thread to pass on, and moves it.
func (m *Machine) released() vclock {
	if !m.raceOn {
		return nil
	}
	if m.raceFrom != nil {
		return m.raceFrom
	}
	return m.cur.release()
}

func (m *Machine) acquire(v vclock) {
	if m.raceOn && v != nil && m.raceFrom == nil {
		m.cur.vc = m.cur.vc.join(v)
	}
}

func (m *Machine) raceThread(th *Thread) {
	if !m.raceOn {
		return
	}
	var v vclock
	if m.cur != nil && m.cur != th {
		v = m.released()
	}
	th.vc = v.join(make(vclock, th.id+1))
	th.vc[th.id] = 1
}

// seen checks and records one access.
func (m *Machine) seen(th *Thread, sh *shadow, write bool, what func() string) *shadow {
	if sh == nil || sh.path != m.pathID {
		sh = &shadow{path: m.pathID}
	}
	c := th.vc
	me := th.vc[th.id]
	if sh.has && sh.write.t != th.id && sh.write.c > c.at(sh.write.t) {
		m.race(th, sh.write, "write", write, what)
	}
	if write {
		for _, r := range sh.reads {
			if r.t != th.id && r.c > c.at(r.t) {
				m.race(th, r, "read", write, what)
			}
		}
		sh.write, sh.has, sh.reads = access{th.id, me, m.siteOf(th)}, true, nil
		return sh
	}
	for i := range sh.reads {
		if sh.reads[i].t == th.id {
			if sh.reads[i].c != me {
				sh.reads[i] = access{th.id, me, m.siteOf(th)}
			}
			return sh
		}
	}
	sh.reads = append(sh.reads, access{th.id, me, m.siteOf(th)})
	return sh
}

func (m *Machine) race(th *Thread, o access, kind string, write bool, what func() string) {
	s := m.siteOf(th)
	if s.fn == nil || o.s.fn == nil || !s.repo && !o.s.repo {
		return
	}
	now := "read"
	if write {
		now = "write"
	}
	at := func(s site) string {
		p := m.P.Prog.Fset.Position(s.pos)
		if !p.IsValid() {
			return s.fn.String()
		}
		return fmt.Sprintf("%s (%s:%d)", s.fn, filepath.Base(p.Filename), p.Line)
	}
	a, b := s.fn.Name()+" "+now, o.s.fn.Name()+" "+kind
	if b < a {
		a, b = b, a
	}
	msg := fmt.Sprintf("data race on %s: %s, %s", what(), a, b)
	if m.raced[msg] {
		return
	}
	m.raced[msg] = true
	m.trace = append(m.trace, fmt.Sprintf("race: t%d %ss in %s, t%d %ss in %s, unordered", th.id, now, at(s), o.t, kind, at(o.s)))
	m.violate("race", msg, m.model)
}

func (m *Machine) watching(th *Thread) bool {
	return m.raceOn && len(m.threads) > 1 && m.keepMode == 0 && m.atomic == 0 && th != nil
}

func (m *Machine) cellAccess(th *Thread, c *Cell, write bool) {
	switch {
	case c.fs != nil:
		for _, f := range c.fs {
			m.cellAccess(th, f, write)
		}
	case c.arr != nil:
		if c.arr.n.IsConst() && c.arr.n.K <= 64 {
			for i := uint64(0); i < c.arr.n.K; i++ {
				m.elemAccess(th, c.arr, i, write)
			}
		}
	default:
		c.sh = m.seen(th, c.sh, write, func() string {
			if c.in != nil {
				n := c.in.String()
				return n[strings.LastIndexByte(n, '/')+1:] + "." + c.in.Underlying().(*types.Struct).Field(c.fi).Name()
			}
			return fmt.Sprint(c.t)
		})
	}
}

func (m *Machine) elemAccess(th *Thread, a *Array, i uint64, write bool) {
	if a.alias != nil || a.ro {
		return
	}
	if a.shs == nil || a.shp != m.pathID {
		a.shs, a.shp = map[uint64]*shadow{}, m.pathID
	}
	a.shs[i] = m.seen(th, a.shs[i], write, func() string { return fmt.Sprintf("an element of []%s", a.et) })
}

func (m *Machine) ptrAccess(th *Thread, p Ptr, write bool) {
	switch {
	case p.c != nil:
		m.cellAccess(th, p.c, write)
	case p.a != nil && p.i.IsConst():
		m.elemAccess(th, p.a, p.i.K, write)
	}
}

func (m *Machine) mapAccess(th *Thread, mp *Map, write bool) {
	if mp == nil || !m.watching(th) {
		return
	}
	mp.sh = m.seen(th, mp.sh, write, func() string { return fmt.Sprintf("a %s", mp.t) })
}

// rangeAccess is an access to n elements from off on, as by copy and append.
func (m *Machine) rangeAccess(th *Thread, s Slice, off, n uint64, write bool) {
	if s.a == nil || !m.watching(th) || n > 256 {
		return
	}
	for i := uint64(0); i < n; i++ {
		if s.a.comp {
			if s.a.alias == nil {
				m.cellAccess(th, m.cellAt(s.a, off+i), write)
			}
			continue
		}
		m.elemAccess(th, s.a, off+i, write)
	}
}

// atomically orders an atomic operation after those before it on the same
// location; write also makes it visible to later ones.
func (m *Machine) atomically(p Ptr, read, write bool) {
	if !m.raceOn {
		return
	}
	var k interface{} = p.c
	if p.c == nil {
		if p.a == nil || !p.i.IsConst() {
			return
		}
		k = [2]interface{}{p.a, p.i.K}
	}
	c := m.aclk[k]
	if read {
		m.acquire(c)
	}
	if write {
		if read {
			m.aclk[k] = c.join(m.released())
		} else {
			m.aclk[k] = m.released()
		}
	}
}

// aload and astore are accesses of atomic operations.
func (m *Machine) aload(th *Thread, p Ptr) Value {
	m.atomic++
	defer func() { m.atomic-- }()
	return m.loadPtr(th, p)
}

func (m *Machine) astore(th *Thread, p Ptr, v Value) {
	m.atomic++
	defer func() { m.atomic-- }()
	m.storePtr(th, p, v)
}

// passed notes one use of a channel slot by the acting thread, or by a waiting
// one: what came before the last use of the slot is ordered before this one.
func (m *Machine) passed(ch *Chan, i int, w *Thread) {
	if !m.raceOn {
		return
	}
	for len(ch.slots) <= i {
		ch.slots = append(ch.slots, nil)
	}
	if w == nil {
		m.acquire(ch.slots[i])
		ch.slots[i] = m.released()
		return
	}
	w.vc = w.vc.join(ch.slots[i])
	ch.slots[i] = w.release()
}

func (th *Thread) release() vclock {
	v := append(vclock{}, th.vc...)
	th.vc = append(vclock{}, th.vc...)
	th.vc[th.id]++
	return v
}

// met orders the acting thread and a waiting one both ways.
func (m *Machine) met(w *Thread) {
	if !m.raceOn {
		return
	}
	mine, theirs := m.released(), w.release()
	w.vc = w.vc.join(mine)
	m.acquire(theirs)
}
