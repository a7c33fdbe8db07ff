// Package sym is a path-forking symbolic executor for Go programs in SSA form.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// Value is one of: *term.Term, Ptr, Str, Slice, Iface, *Map, *Chan, *Fn,
// Struct, ArrV, Tuple, UPtr, *mapIter, *strIter, Poison.
type Value interface{}

type (
	Struct []Value
	ArrV   []Value
	Tuple  []Value
	Poison struct{ why string }
	// Ptr points at a cell, or at element i of an array of scalars.
	Ptr struct {
		c *Cell
		a *Array
		i *term.Term
	}
	// Slice is a view of an array; a nil slice has a nil array.
	Slice struct {
		a             *Array
		off, len, cap *term.Term
	}
	// Str is either a concrete string or a view of an immutable byte array.
	Str struct {
		s        string
		a        *Array
		off, len *term.Term
	}
	Iface struct {
		t types.Type
		v Value
	}
	Fn struct {
		fn *ssa.Function
		fv []Value
		bi *ssa.Builtin
		nv func(m *Machine, th *Thread, args []Value) Value // native closure
	}
	UPtr struct{ v Value }
)

// Cell is a memory location of any type.
type Cell struct {
	t    types.Type
	v    Value
	fs   []*Cell
	arr  *Array
	keep bool // survives across paths; stores are journalled

	in types.Type // the struct this is a field of
	fi int
	sh *shadow
}

// Array is a (possibly lazily materialised, possibly symbolically sized) array.
type Array struct {
	et     types.Type
	n      *term.Term
	dense  []Value
	sparse map[uint64]Value
	gen    func(i uint64) Value
	cells  map[uint64]*Cell
	comp   bool
	alias  *Cell
	keep   bool
	ro     bool

	shs map[uint64]*shadow
	shp int
}

type mapEntry struct {
	k, v Value
	gone bool
}

type Map struct {
	t    *types.Map
	ents []*mapEntry
	idx  map[*term.Term]*mapEntry // of the entries, when all keys are constants
	keep bool
	sh   *shadow
}

type mapIter struct {
	m    *Map
	left []*mapEntry
}

type strIter struct {
	s   Str
	pos uint64
}

func (p Ptr) isNil() bool { return p.c == nil && p.a == nil }

func isComposite(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func widthOf(b *types.Basic) uint16 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.Float32:
		return term.F32
	case types.Float64, types.UntypedFloat:
		return term.F64
	}
	return 0xffff
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		w := widthOf(u)
		if w == 0xffff {
			return Poison{"zero " + t.String()}
		}
		return m.c.Const0(0, w)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Fn)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<16 {
			m.unsupported("array value of %d elements", n)
		}
		a := make(ArrV, n)
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	m.unsupported("zero value of %s", t)
	return nil
}

func (m *Machine) newCell(t types.Type) *Cell {
	c := &Cell{t: t, keep: m.keepMode > 0}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.fs = make([]*Cell, u.NumFields())
		for i := range c.fs {
			c.fs[i] = m.newCell(u.Field(i).Type())
			c.fs[i].in, c.fs[i].fi = t, i
		}
	case *types.Array:
		c.arr = m.newArray(u.Elem(), m.c.Const(uint64(u.Len()), 64))
	default:
		c.v = m.zero(t)
	}
	return c
}

func (m *Machine) newArray(et types.Type, n *term.Term) *Array {
	a := &Array{et: et, n: n, comp: isComposite(et), keep: m.keepMode > 0}
	if a.comp {
		a.cells = map[uint64]*Cell{}
	} else if n.IsConst() && n.K <= 1<<14 {
		a.dense = make([]Value, n.K)
	} else {
		a.sparse = map[uint64]Value{}
	}
	return a
}

func (m *Machine) cellAt(a *Array, i uint64) *Cell {
	if a.alias != nil {
		return a.alias
	}
	c := a.cells[i]
	if c == nil {
		if a.keep {
			m.keepMode++
		}
		c = m.newCell(a.et)
		if a.keep {
			m.keepMode--
		}
		a.cells[i] = c
	}
	return c
}

// at reads element i (concrete index).
func (m *Machine) at(a *Array, i uint64) Value {
	if a.alias != nil {
		return m.load(a.alias)
	}
	if a.comp {
		return m.load(m.cellAt(a, i))
	}
	if a.dense != nil || a.sparse == nil {
		if i >= uint64(len(a.dense)) {
			// reading the slack of a lazily sized object
			panic(fmt.Sprintf("array index %d of %d", i, len(a.dense)))
		}
		if v := a.dense[i]; v != nil {
			return v
		}
	} else if v, ok := a.sparse[i]; ok {
		return v
	}
	var v Value
	if a.gen != nil {
		v = a.gen(i)
	} else {
		v = m.zero(a.et)
	}
	if a.dense != nil {
		a.dense[i] = v
	} else {
		a.sparse[i] = v
	}
	return v
}

func (m *Machine) setAt(a *Array, i uint64, v Value) {
	if a.alias != nil {
		m.store(a.alias, v)
		return
	}
	if a.comp {
		m.store(m.cellAt(a, i), v)
		return
	}
	if a.keep && m.keepMode == 0 {
		old := m.at(a, i)
		m.journal = append(m.journal, func() { a.put(i, old) })
	}
	a.put(i, v)
}

func (a *Array) put(i uint64, v Value) {
	if a.dense != nil {
		a.dense[i] = v
	} else {
		a.sparse[i] = v
	}
}

func (m *Machine) load(c *Cell) Value {
	switch {
	case c.fs != nil:
		s := make(Struct, len(c.fs))
		for i, f := range c.fs {
			s[i] = m.load(f)
		}
		return s
	case c.arr != nil:
		n := c.arr.n.K
		if n > 1<<16 {
			m.unsupported("load of %d-element array", n)
		}
		a := make(ArrV, n)
		for i := range a {
			a[i] = m.at(c.arr, uint64(i))
		}
		return a
	}
	if c.v == nil { // empty struct
		return Struct{}
	}
	return c.v
}

func (m *Machine) store(c *Cell, v Value) {
	switch {
	case c.fs != nil:
		s, ok := v.(Struct)
		if !ok {
			m.unsupported("store %T into struct %s", v, c.t)
		}
		for i, f := range c.fs {
			m.store(f, s[i])
		}
	case c.arr != nil:
		a, ok := v.(ArrV)
		if !ok {
			m.unsupported("store %T into array", v)
		}
		for i := range a {
			m.setAt(c.arr, uint64(i), a[i])
		}
	default:
		if c.keep && m.keepMode == 0 {
			old := c.v
			m.journal = append(m.journal, func() { c.v = old })
		}
		c.v = v
	}
}

func (m *Machine) loadPtr(th *Thread, p Ptr) Value {
	if p.isNil() {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.watching(th) {
		m.ptrAccess(th, p, false)
	}
	if p.c != nil {
		return m.load(p.c)
	}
	if p.i.IsConst() {
		return m.at(p.a, p.i.K)
	}
	return m.symRead(p.a, p.i)
}

// symRead reads a scalar element at a symbolic index as an if-then-else chain.
func (m *Machine) symRead(a *Array, i *term.Term) Value {
	lo, hi := i.Lo, i.Hi
	if a.n.IsConst() && a.n.K > 0 && hi >= a.n.K {
		hi = a.n.K - 1
	}
	if a.alias == nil && !a.comp && hi-lo < 600 {
		ok := true
		var r *term.Term
		for k := hi; ; k-- {
			t, is := m.at(a, k).(*term.Term)
			if !is {
				ok = false
				break
			}
			if r == nil {
				r = t
			} else {
				r = m.c.Ite(m.c.Eq(i, m.c.Const(k, 64)), t, r)
			}
			if k == lo {
				break
			}
		}
		if ok {
			return r
		}
	}
	return m.at(a, m.concretize(i, "index"))
}

func (m *Machine) storePtr(th *Thread, p Ptr, v Value) {
	if p.isNil() {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.watching(th) {
		m.ptrAccess(th, p, true)
	}
	if p.c != nil {
		m.store(p.c, v)
		return
	}
	m.setAt(p.a, m.concretize(p.i, "store index"), v)
}

// ---- strings ----

func (m *Machine) k64(v uint64) *term.Term { return m.c.Const(v, 64) }
func (m *Machine) ki(v int) *term.Term     { return m.c.Const(uint64(int64(v)), 64) }

func (m *Machine) strLen(s Str) *term.Term {
	if s.a == nil {
		return m.ki(len(s.s))
	}
	return s.len
}

func (m *Machine) strAt(s Str, i uint64) *term.Term {
	if s.a == nil {
		if i < uint64(len(s.s)) {
			return m.c.Const(uint64(s.s[i]), 8)
		}
		return m.c.Const(0, 8)
	}
	ix := m.concretize(s.off, "string offset") + i
	return m.byteAt(s.a, ix)
}

// byteAt reads a byte that may lie in the slack of a lazy array.
func (m *Machine) byteAt(a *Array, i uint64) *term.Term {
	if a.dense != nil && i >= uint64(len(a.dense)) {
		return m.c.Const(0, 8)
	}
	v := m.at(a, i)
	t, ok := v.(*term.Term)
	if !ok {
		m.unsupported("byte is %T", v)
	}
	return t
}

// concStr returns the concrete Go string when every byte is constant.
func (m *Machine) concStr(s Str) (string, bool) {
	if s.a == nil {
		return s.s, true
	}
	if !s.len.IsConst() || !s.off.IsConst() {
		return "", false
	}
	b := make([]byte, s.len.K)
	for i := range b {
		t := m.byteAt(s.a, s.off.K+uint64(i))
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.K)
	}
	return string(b), true
}

// mkStr builds a string from byte terms.
func (m *Machine) mkStr(bs []*term.Term) Str {
	conc := true
	for _, b := range bs {
		if !b.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(bs))
		for i, b := range bs {
			x[i] = byte(b.K)
		}
		return Str{s: string(x)}
	}
	a := m.newArray(types.Typ[types.Uint8], m.ki(len(bs)))
	for i, b := range bs {
		a.put(uint64(i), b)
	}
	return Str{a: a, off: m.k64(0), len: m.ki(len(bs))}
}

// strArr views a string as an array.
func (m *Machine) strArr(s Str) (*Array, *term.Term, *term.Term) {
	if s.a != nil {
		return s.a, s.off, s.len
	}
	a := m.newArray(types.Typ[types.Uint8], m.ki(len(s.s)))
	str := s.s
	a.gen = func(i uint64) Value { return m.c.Const(uint64(str[i]), 8) }
	return a, m.k64(0), m.ki(len(s.s))
}

func (m *Machine) strBytes(s Str) []*term.Term {
	n := m.concretize(m.strLen(s), "string length")
	if n > 1<<16 {
		m.incomplete("string of %d bytes", n)
	}
	bs := make([]*term.Term, n)
	for i := range bs {
		bs[i] = m.strAt(s, uint64(i))
	}
	return bs
}

// cloneArr copies an array (used for immutable snapshots).
func (m *Machine) cloneArr(a *Array) *Array {
	n := &Array{et: a.et, n: a.n, comp: a.comp, keep: m.keepMode > 0}
	if a.comp || a.alias != nil {
		m.unsupported("clone of composite array")
	}
	if a.dense != nil {
		n.dense = append([]Value(nil), a.dense...)
	} else {
		n.sparse = make(map[uint64]Value, len(a.sparse))
		for k, v := range a.sparse {
			n.sparse[k] = v
		}
	}
	n.gen = a.gen
	return n
}

func (m *Machine) strEq(a, b Str) *term.Term {
	if a.a == nil && b.a == nil {
		return m.c.Bool(a.s == b.s)
	}
	la, lb := m.strLen(a), m.strLen(b)
	eq := m.c.Eq(la, lb)
	if eq.IsFalse() {
		return eq
	}
	if a.a != nil && a.a == b.a && a.off == b.off {
		return eq
	}
	if !la.IsConst() && !lb.IsConst() {
		if min(la.Hi, lb.Hi) > 64 {
			m.concretize(la, "string compare length")
			la = m.c.Const(m.lastConc, 64)
			eq = m.c.Eq(la, lb)
		} else {
			// both bounded: compare under the common length
			n := min(la.Hi, lb.Hi)
			r := eq
			for i := uint64(0); i < n; i++ {
				in := m.c.Ult(m.k64(i), la)
				r = m.c.AndB(r, m.c.OrB(m.c.Not(in), m.c.Eq(m.strAt(a, i), m.strAt(b, i))))
			}
			return r
		}
	}
	n := la.K
	if !la.IsConst() {
		n = lb.K
	}
	r := eq
	for i := uint64(0); i < n; i++ {
		r = m.c.AndB(r, m.c.Eq(m.strAt(a, i), m.strAt(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// strLt is lexicographic order.
func (m *Machine) strLt(a, b Str) *term.Term {
	if a.a == nil && b.a == nil {
		return m.c.Bool(a.s < b.s)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	r := m.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(x[i], y[i]), r, m.c.Ult(x[i], y[i]))
	}
	return r
}

// eqVal compares two values of the same static type.
func (m *Machine) eqVal(x, y Value) *term.Term {
	switch a := x.(type) {
	case *term.Term:
		b := y.(*term.Term)
		if a.IsFloat() {
			return m.c.FBin(term.FEq, a, b)
		}
		return m.c.Eq(a, b)
	case Str:
		return m.strEq(a, y.(Str))
	case Ptr:
		b := y.(Ptr)
		if a.isNil() || b.isNil() {
			return m.c.Bool(a.isNil() == b.isNil())
		}
		if a.c != nil || b.c != nil {
			return m.c.Bool(a.c == b.c)
		}
		if a.a != b.a {
			return m.c.F
		}
		return m.c.Eq(a.i, b.i)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			m.unsupported("compare interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.c.F
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.eqVal(a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := m.c.T
		for i := range a {
			r = m.c.AndB(r, m.eqVal(a[i], b[i]))
		}
		return r
	case ArrV:
		b := y.(ArrV)
		r := m.c.T
		for i := range a {
			r = m.c.AndB(r, m.eqVal(a[i], b[i]))
		}
		return r
	case *Chan:
		return m.c.Bool(a == y.(*Chan))
	case *Map:
		return m.c.Bool(a == y.(*Map))
	case *Fn:
		b := y.(*Fn)
		return m.c.Bool(a == nil && b == nil)
	case Slice:
		b := y.(Slice)
		return m.c.Bool(a.a == nil && b.a == nil)
	case UPtr:
		b := y.(UPtr)
		if a.v == nil || b.v == nil {
			return m.c.Bool(a.v == nil && b.v == nil)
		}
		return m.eqVal(a.v, b.v)
	}
	m.unsupported("compare %T", x)
	return nil
}

// ---- maps ----

// intKey is the key as a constant, which hash-consing makes one pointer per value.
func intKey(k Value) *term.Term {
	if t, ok := k.(*term.Term); ok && t.IsConst() && t.W <= 64 {
		return t
	}
	return nil
}

func (mp *Map) index() map[*term.Term]*mapEntry {
	if mp.idx == nil && len(mp.ents) > 16 {
		idx := make(map[*term.Term]*mapEntry, len(mp.ents))
		for _, e := range mp.ents {
			k := intKey(e.k)
			if k == nil {
				return nil
			}
			idx[k] = e
		}
		mp.idx = idx
	}
	return mp.idx
}

func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	if c := intKey(k); c != nil {
		if idx := mp.index(); idx != nil {
			return idx[c]
		}
	}
	for _, e := range mp.ents {
		eq := m.eqVal(e.k, k)
		if eq.IsTrue() || (!eq.IsFalse() && m.branch(eq)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapJournal(mp *Map) {
	if mp.keep && m.keepMode == 0 {
		old := append([]*mapEntry(nil), mp.ents...)
		m.journal = append(m.journal, func() {
			mp.ents, mp.idx = old, nil
			for _, e := range old {
				e.gone = false
			}
		})
	}
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if mp == nil {
		m.rtPanicPlain("assignment to entry in nil map")
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
	if e := m.mapFind(mp, k); e != nil {
		if mp.keep && m.keepMode == 0 {
			old := e.v
			m.journal = append(m.journal, func() { e.v = old })
		}
		e.v = v
		return
	}
	m.mapJournal(mp)
	e := &mapEntry{k: k, v: v}
	mp.ents = append(mp.ents, e)
	if mp.idx != nil {
		if c := intKey(k); c != nil {
			mp.idx[c] = e
		} else {
			mp.idx = nil
		}
	}
}

func (m *Machine) mapDel(mp *Map, k Value) {
	if e := m.mapFind(mp, k); e != nil {
		m.mapJournal(mp)
		e.gone = true
		if mp.idx != nil {
			delete(mp.idx, intKey(e.k))
		}
		for i := range mp.ents {
			if mp.ents[i] == e {
				copy(mp.ents[i:], mp.ents[i+1:])
				mp.ents = mp.ents[:len(mp.ents)-1]
				return
			}
		}
	}
}
