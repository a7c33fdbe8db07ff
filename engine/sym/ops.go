package sym

import (
	"go/token"
	"go/types"
	"unicode/utf8"

	"verif/engine/term"
)

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eqVal(x, y)
	case token.NEQ:
		return m.c.Not(m.eqVal(x, y))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.strCat(a, b)
		case token.LSS:
			return m.strLt(a, b)
		case token.GTR:
			return m.strLt(b, a)
		case token.LEQ:
			return m.c.Not(m.strLt(b, a))
		case token.GEQ:
			return m.c.Not(m.strLt(a, b))
		}
	}
	a, ok1 := x.(*term.Term)
	b, ok2 := y.(*term.Term)
	if !ok1 || !ok2 {
		m.unsupported("operator %s on %T, %T", op, x, y)
	}
	c := m.c
	if a.IsFloat() {
		switch op {
		case token.ADD:
			return c.FBin(term.FAdd, a, b)
		case token.SUB:
			return c.FBin(term.FSub, a, b)
		case token.MUL:
			return c.FBin(term.FMul, a, b)
		case token.QUO:
			return c.FBin(term.FDiv, a, b)
		case token.LSS:
			return c.FBin(term.FLt, a, b)
		case token.LEQ:
			return c.FBin(term.FLe, a, b)
		case token.GTR:
			return c.FBin(term.FLt, b, a)
		case token.GEQ:
			return c.FBin(term.FLe, b, a)
		}
		m.unsupported("float operator %s", op)
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return c.Bin(term.Add, a, b)
	case token.SUB:
		return c.Bin(term.Sub, a, b)
	case token.MUL:
		return c.Bin(term.Mul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.Const(0, b.W))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return c.Bin(term.SDiv, a, b)
		case op == token.QUO:
			return c.Bin(term.UDiv, a, b)
		case sg:
			return c.Bin(term.SRem, a, b)
		}
		return c.Bin(term.URem, a, b)
	case token.AND:
		if a.W == 0 {
			return c.AndB(a, b)
		}
		return c.Bin(term.And, a, b)
	case token.OR:
		if a.W == 0 {
			return c.OrB(a, b)
		}
		return c.Bin(term.Or, a, b)
	case token.XOR:
		return c.Bin(term.Xor, a, b)
	case token.AND_NOT:
		return c.Bin(term.And, a, c.BVNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) && m.branch(c.Slt(b, c.Const(0, b.W))) {
			m.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			return c.Shift(term.Shl, a, b)
		}
		if sg {
			return c.Shift(term.AShr, a, b)
		}
		return c.Shift(term.LShr, a, b)
	case token.LSS:
		if sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.GTR:
		if sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.LEQ:
		if sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GEQ:
		if sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	m.unsupported("operator %s", op)
	return nil
}

func (m *Machine) strCat(a, b Str) Value {
	if a.a == nil && b.a == nil {
		return Str{s: a.s + b.s}
	}
	if m.strLen(a).IsK(0) {
		return b
	}
	if m.strLen(b).IsK(0) {
		return a
	}
	x := m.strBytes(a)
	return m.mkStr(append(x[:len(x):len(x)], m.strBytes(b)...))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) convert(to, from types.Type, x Value) Value {
	tu, fu := to.Underlying(), from.Underlying()
	// unsafe.Pointer
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if p, ok := x.(Ptr); ok {
			if p.isNil() {
				return UPtr{}
			}
			return UPtr{p}
		}
		if p, ok := x.(UPtr); ok {
			return p
		}
		m.unsupported("convert %s to unsafe.Pointer", from)
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		u := x.(UPtr)
		if u.v == nil {
			return Ptr{}
		}
		pt, ok := tu.(*types.Pointer)
		if !ok {
			m.unsupported("convert unsafe.Pointer to %s", to)
		}
		return m.reinterpret(u.v, pt.Elem())
	}
	switch {
	case isStringT(to):
		if isStringT(from) {
			return x
		}
		if s, ok := x.(Slice); ok {
			if isByteSlice(from) {
				return m.bytesToStr(s, true)
			}
			n := m.concretize(m.slen(s), "rune slice length")
			var out []*term.Term
			for i := uint64(0); i < n; i++ {
				out = append(out, m.encodeRune(m.at(s.a, m.concretize(s.off, "offset")+i).(*term.Term))...)
			}
			return m.mkStr(out)
		}
		if t, ok := x.(*term.Term); ok {
			return m.mkStr(m.encodeRune(m.toInt64(from, t)))
		}
	case isStringT(from):
		s := x.(Str)
		if isByteSlice(to) {
			return m.strToBytes(s, tu.(*types.Slice).Elem())
		}
		n := m.concretize(m.strLen(s), "string to runes")
		var out []Value
		for i := uint64(0); i < n; {
			r, w := m.decodeRune(s, i, n)
			out = append(out, r)
			i += w
		}
		a := m.newArray(tu.(*types.Slice).Elem(), m.ki(len(out)))
		for i, v := range out {
			a.put(uint64(i), v)
		}
		return Slice{a: a, off: m.k64(0), len: m.ki(len(out)), cap: m.ki(len(out))}
	}
	tb, ok1 := tu.(*types.Basic)
	fb, ok2 := fu.(*types.Basic)
	t, ok3 := x.(*term.Term)
	if ok1 && ok2 && ok3 {
		w := widthOf(tb)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if w <= t.W {
				return m.c.Extract(t, w-1, 0)
			}
			if isSigned(from) {
				return m.c.SExt(t, w)
			}
			return m.c.ZExt(t, w)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if isSigned(from) {
				return m.c.FConv(term.SToF, t, w)
			}
			return m.c.FConv(term.UToF, t, w)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if isSigned(to) {
				return m.c.FConv(term.FToS, t, w)
			}
			return m.c.FConv(term.FToU, t, w)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if w == t.W {
				return t
			}
			return m.c.FConv(term.FToF, t, w)
		case ti&types.IsBoolean != 0:
			return t
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return x
	}
	if types.Identical(tu, fu) {
		return x
	}
	m.unsupported("convert %s to %s", from, to)
	return nil
}

// reinterpret views the target of an unsafe pointer as type t.
func (m *Machine) reinterpret(v Value, t types.Type) Value {
	p := m.ptr(v)
	if p.c == nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			if eb, ok := p.a.et.Underlying().(*types.Basic); ok && widthOf(b) == widthOf(eb) {
				return p
			}
		}
		if a, ok := t.Underlying().(*types.Array); ok && types.Identical(a.Elem().Underlying(), p.a.et.Underlying()) && p.i.IsK(0) {
			return Ptr{c: &Cell{t: t, arr: p.a, keep: p.a.keep}}
		}
		m.unsupported("reinterpret array element as %s", t)
	}
	if types.Identical(p.c.t, t) || types.Identical(p.c.t.Underlying(), t.Underlying()) {
		return p
	}
	cb, ok1 := p.c.t.Underlying().(*types.Basic)
	tb, ok2 := t.Underlying().(*types.Basic)
	if ok1 && ok2 && widthOf(cb) != 0xffff && widthOf(cb) == widthOf(tb) {
		return p
	}
	// []byte seen as string, and the reverse
	if isStringT(t) && isByteSlice(p.c.t) {
		n := m.newCell(t)
		n.v = m.bytesToStr(m.load(p.c).(Slice), false)
		return Ptr{c: n}
	}
	if isByteSlice(t) && isStringT(p.c.t) {
		n := m.newCell(t)
		n.v = m.strView(m.load(p.c).(Str))
		return Ptr{c: n}
	}
	// first field of a struct, or a struct wrapping
	for c := p.c; c.fs != nil && len(c.fs) > 0; {
		c = c.fs[0]
		if types.Identical(c.t, t) {
			return Ptr{c: c}
		}
	}
	m.unsupported("reinterpret %s as %s", p.c.t, t)
	return nil
}

// strView is a byte slice over a string's bytes.
func (m *Machine) strView(s Str) Slice {
	a, off, n := m.strArr(s)
	return Slice{a: a, off: off, len: n, cap: n}
}

func (m *Machine) strToBytes(s Str, et types.Type) Value {
	a, off, n := m.strArr(s)
	if n.IsConst() && off.IsConst() && n.K <= 1<<16 {
		b := m.newArray(et, n)
		for i := uint64(0); i < n.K; i++ {
			b.put(i, m.byteAt(a, off.K+i))
		}
		return Slice{a: b, off: m.k64(0), len: n, cap: n}
	}
	return Slice{a: m.cloneArr(a), off: off, len: n, cap: n}
}

func (m *Machine) bytesToStr(s Slice, copyIt bool) Value {
	if s.a == nil {
		return Str{}
	}
	if s.len.IsConst() && s.off.IsConst() && s.len.K <= 1<<16 {
		if !copyIt {
			return Str{a: s.a, off: s.off, len: s.len}
		}
		bs := make([]*term.Term, s.len.K)
		for i := range bs {
			bs[i] = m.byteAt(s.a, s.off.K+uint64(i))
		}
		return m.mkStr(bs)
	}
	a := s.a
	if copyIt {
		a = m.cloneArr(a)
	}
	return Str{a: a, off: s.off, len: s.len}
}

func (m *Machine) encodeRune(r *term.Term) []*term.Term {
	if r.IsConst() {
		var b [4]byte
		v := r.SVal()
		if v < 0 || v > utf8.MaxRune {
			v = utf8.RuneError
		}
		n := utf8.EncodeRune(b[:], rune(v))
		out := make([]*term.Term, n)
		for i := range out {
			out[i] = m.c.Const(uint64(b[i]), 8)
		}
		return out
	}
	if r.W > 32 {
		if !m.branch(m.c.Ult(r, m.c.Const(0x110000, r.W))) {
			return m.encodeRune(m.c.Const(0xFFFD, 32))
		}
		r = m.c.Extract(r, 31, 0)
	}
	c := m.c
	k := func(v uint64) *term.Term { return c.Const(v, 32) }
	low := func(t *term.Term) *term.Term { return c.Extract(t, 7, 0) }
	part := func(sh, mask, or uint64) *term.Term {
		return low(c.Bin(term.Or, c.Bin(term.And, c.Bin(term.LShr, r, k(sh)), k(mask)), k(or)))
	}
	switch {
	case m.branch(c.Ult(r, k(0x80))):
		return []*term.Term{low(r)}
	case m.branch(c.Ult(r, k(0x800))):
		return []*term.Term{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)}
	case m.branch(c.OrB(c.Ule(k(0x110000), r), c.AndB(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))))):
		return m.encodeRune(k(0xFFFD))
	case m.branch(c.Ult(r, k(0x10000))):
		return []*term.Term{part(12, 0xf, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return []*term.Term{part(18, 7, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
}
