// Package term implements hash-consed bit-vector, boolean and IEEE-754 terms
// with local simplification, evaluation under a model and SMT-LIB 2 printing.
package term

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term constructor.
type Op uint8

const (
	Const Op = iota
	Var
	Add
	Sub
	Mul
	UDiv
	SDiv
	URem
	SRem
	And
	Or
	Xor
	Not
	Neg
	Shl
	LShr
	AShr
	Concat
	Extract
	ZExt
	SExt
	Ite
	Eq
	Ult
	Ule
	Slt
	Sle
	BAnd
	BOr
	BNot
	// floating point
	FAdd
	FSub
	FMul
	FDiv
	FNeg
	FEq
	FLt
	FLe
	SToF // signed bit-vector to float
	UToF
	FToS // float to signed bit-vector (round toward zero)
	FToU
	FToF
)

var opName = map[Op]string{
	Add: "bvadd", Sub: "bvsub", Mul: "bvmul", UDiv: "bvudiv", SDiv: "bvsdiv", URem: "bvurem", SRem: "bvsrem",
	And: "bvand", Or: "bvor", Xor: "bvxor", Not: "bvnot", Neg: "bvneg", Shl: "bvshl", LShr: "bvlshr", AShr: "bvashr",
	Concat: "concat", Ite: "ite", Eq: "=", Ult: "bvult", Ule: "bvule", Slt: "bvslt", Sle: "bvsle",
	BAnd: "and", BOr: "or", BNot: "not",
	FAdd: "fp.add RNE", FSub: "fp.sub RNE", FMul: "fp.mul RNE", FDiv: "fp.div RNE", FNeg: "fp.neg",
	FEq: "fp.eq", FLt: "fp.lt", FLe: "fp.leq",
}

// Sort codes kept in W: 0 is Bool, 1..64 bit-vectors, F32 and F64 floats.
const (
	F32 = 232
	F64 = 264
)

// Term is an immutable hash-consed term.
type Term struct {
	Op      Op
	W       uint16 // sort
	K       uint64 // constant value, or extract: hi<<8|lo
	Name    string
	A, B, C *Term
	ID      uint32
	Lo, Hi  uint64 // unsigned range of the value (bit-vectors)
	HasVar  bool
}

type key struct {
	op      Op
	w       uint16
	k       uint64
	name    string
	a, b, c uint32
}

// Ctx owns a hash-consing table. It is not safe for concurrent use.
type Ctx struct {
	tab  map[key]*Term
	next uint32
	T, F *Term
	Vars []*Term
	memo []uint64
	mset []uint32
	ep   uint32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}}
	c.T = c.Const(1, 0)
	c.F = c.Const(0, 0)
	return c
}

// Size returns the number of distinct terms.
func (c *Ctx) Size() int { return int(c.next) }

func id(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.ID
}

func (c *Ctx) mk(op Op, w uint16, k uint64, name string, a, b, d *Term) *Term {
	ky := key{op, w, k, name, id(a), id(b), id(d)}
	if t, ok := c.tab[ky]; ok {
		return t
	}
	c.next++
	t := &Term{Op: op, W: w, K: k, Name: name, A: a, B: b, C: d, ID: c.next}
	t.HasVar = op == Var || (a != nil && a.HasVar) || (b != nil && b.HasVar) || (d != nil && d.HasVar)
	c.rng(t)
	c.tab[ky] = t
	return t
}

// Mask returns the all-ones value of width w.
func Mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

// SVal is the signed value of a constant.
func (t *Term) SVal() int64       { return sext(t.K, t.W) }
func (t *Term) IsConst() bool     { return t.Op == Const }
func (t *Term) IsFloat() bool     { return t.W >= F32 }
func (t *Term) IsTrue() bool      { return t.Op == Const && t.W == 0 && t.K == 1 }
func (t *Term) IsFalse() bool     { return t.Op == Const && t.W == 0 && t.K == 0 }
func (t *Term) IsK(k uint64) bool { return t.Op == Const && t.K == k }

func (c *Ctx) Const(v uint64, w uint16) *Term {
	if w == 0 {
		v &= 1
	} else if w <= 64 {
		v &= Mask(w)
	}
	return c.mk(Const, w, v, "", nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Float(f float64, w uint16) *Term {
	if w == F32 {
		return c.mk(Const, w, uint64(math.Float32bits(float32(f))), "", nil, nil, nil)
	}
	return c.mk(Const, w, math.Float64bits(f), "", nil, nil, nil)
}

func FVal(k uint64, w uint16) float64 {
	if w == F32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func (c *Ctx) Var(name string, w uint16) *Term {
	n := c.next
	t := c.mk(Var, w, 0, name, nil, nil, nil)
	if c.next != n {
		c.Vars = append(c.Vars, t)
	}
	return t
}

// rng computes a cheap unsigned range.
func (c *Ctx) rng(t *Term) {
	t.Lo, t.Hi = 0, Mask(t.W)
	if t.W == 0 || t.W > 64 {
		t.Hi = 1
		return
	}
	m := Mask(t.W)
	switch t.Op {
	case Const:
		t.Lo, t.Hi = t.K, t.K
	case ZExt:
		t.Lo, t.Hi = t.A.Lo, t.A.Hi
	case And:
		t.Hi = min(t.A.Hi, t.B.Hi)
	case Or, Xor:
		n := bits.Len64(t.A.Hi | t.B.Hi)
		if n < 64 {
			t.Hi = min(m, (uint64(1)<<n)-1)
		}
		if t.Op == Or {
			t.Lo = max(t.A.Lo, t.B.Lo)
		}
	case Add:
		if hi, cy := bits.Add64(t.A.Hi, t.B.Hi, 0); cy == 0 && hi <= m {
			t.Lo, t.Hi = t.A.Lo+t.B.Lo, hi
		} else if lo, cy := bits.Add64(t.A.Lo, t.B.Lo, 0); t.W == 64 && cy == 1 && t.B.Op == Const {
			// always wraps (subtracting a constant)
			t.Lo, t.Hi = lo, t.A.Hi+t.B.Hi
		} else if t.W < 64 && t.A.Lo+t.B.Lo > m {
			t.Lo, t.Hi = (t.A.Lo+t.B.Lo)&m, (t.A.Hi+t.B.Hi)&m
		}
	case Sub:
		if t.A.Lo >= t.B.Hi {
			t.Lo, t.Hi = t.A.Lo-t.B.Hi, t.A.Hi-t.B.Lo
		}
	case Mul:
		if h, l := bits.Mul64(t.A.Hi, t.B.Hi); h == 0 && l <= m {
			t.Lo, t.Hi = t.A.Lo*t.B.Lo, l
		}
	case UDiv:
		if t.B.Lo > 0 {
			t.Lo, t.Hi = t.A.Lo/t.B.Hi, t.A.Hi/t.B.Lo
		}
	case URem:
		if t.B.Lo > 0 {
			t.Hi = min(t.A.Hi, t.B.Hi-1)
		}
	case LShr:
		if t.B.Op == Const {
			if t.B.K >= 64 {
				t.Lo, t.Hi = 0, 0
			} else {
				t.Lo, t.Hi = t.A.Lo>>t.B.K, t.A.Hi>>t.B.K
			}
		} else {
			t.Hi = t.A.Hi
		}
	case Shl:
		if t.B.Op == Const && t.B.K < 64 && t.A.Hi<<t.B.K>>t.B.K == t.A.Hi && t.A.Hi<<t.B.K <= m {
			t.Lo, t.Hi = t.A.Lo<<t.B.K, t.A.Hi<<t.B.K
		}
	case Concat:
		t.Lo = t.A.Lo<<t.B.W | t.B.Lo
		t.Hi = t.A.Hi<<t.B.W | t.B.Hi
	case Extract:
		lo := t.K & 0xff
		if lo == 0 && t.A.Hi <= m {
			t.Lo, t.Hi = t.A.Lo, t.A.Hi
		}
	case Ite:
		t.Lo, t.Hi = min(t.B.Lo, t.C.Lo), max(t.B.Hi, t.C.Hi)
	}
}

func (c *Ctx) Not(a *Term) *Term { // boolean negation
	switch {
	case a.IsConst():
		return c.Bool(a.K == 0)
	case a.Op == BNot:
		return a.A
	}
	return c.mk(BNot, 0, 0, "", a, nil, nil)
}

func (c *Ctx) AndB(a, b *Term) *Term {
	switch {
	case a.IsFalse() || b.IsFalse():
		return c.F
	case a.IsTrue():
		return b
	case b.IsTrue(), a == b:
		return a
	case a.Op == BNot && a.A == b, b.Op == BNot && b.A == a:
		return c.F
	}
	return c.mk(BAnd, 0, 0, "", a, b, nil)
}

func (c *Ctx) OrB(a, b *Term) *Term {
	switch {
	case a.IsTrue() || b.IsTrue():
		return c.T
	case a.IsFalse():
		return b
	case b.IsFalse(), a == b:
		return a
	case a.Op == BNot && a.A == b, b.Op == BNot && b.A == a:
		return c.T
	}
	return c.mk(BOr, 0, 0, "", a, b, nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && a.W < F32 {
		return c.T
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq widths %d %d: %s %s", a.W, b.W, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K == b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 0 {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		return c.mk(Eq, 0, 0, "", a, b, nil)
	}
	if a.W <= 64 && (a.Hi < b.Lo || b.Hi < a.Lo) {
		return c.F
	}
	if b.IsConst() {
		switch a.Op {
		case ZExt:
			if b.K > Mask(a.A.W) {
				return c.F
			}
			return c.Eq(a.A, c.Const(b.K, a.A.W))
		case Concat:
			return c.AndB(c.Eq(a.A, c.Const(b.K>>a.B.W, a.A.W)), c.Eq(a.B, c.Const(b.K, a.B.W)))
		case Ite:
			if a.B.IsConst() && a.C.IsConst() {
				bt, ct := a.B.K == b.K, a.C.K == b.K
				switch {
				case bt && ct:
					return c.T
				case bt:
					return a.A
				case ct:
					return c.Not(a.A)
				}
				return c.F
			}
		case Add:
			if a.B.IsConst() {
				return c.Eq(a.A, c.Const(b.K-a.B.K, a.W))
			}
		case Xor:
			if a.B.IsConst() {
				return c.Eq(a.A, c.Const(b.K^a.B.K, a.W))
			}
		}
	} else {
		if a.Op == ZExt && b.Op == ZExt && a.A.W == b.A.W {
			return c.Eq(a.A, b.A)
		}
		if a.Op == Add && b.Op == Add && a.B == b.B {
			return c.Eq(a.A, b.A)
		}
		if a.Op == Concat && b.Op == Concat && a.B.W == b.B.W {
			return c.AndB(c.Eq(a.A, b.A), c.Eq(a.B, b.B))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return c.mk(Eq, 0, 0, "", a, b, nil)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.W != b.W {
		panic("Ult widths")
	}
	if a.Hi < b.Lo {
		return c.T
	}
	if a.Lo >= b.Hi || a == b {
		return c.F
	}
	if b.IsConst() && b.K == 1 {
		return c.Eq(a, c.Const(0, a.W))
	}
	if a.Op == ZExt && b.Op == ZExt && a.A.W == b.A.W {
		return c.Ult(a.A, b.A)
	}
	if a.Op == ZExt && b.IsConst() && b.K <= Mask(a.A.W) {
		return c.Ult(a.A, c.Const(b.K, a.A.W))
	}
	if b.Op == ZExt && a.IsConst() && a.K <= Mask(b.A.W) {
		return c.Ult(c.Const(a.K, b.A.W), b.A)
	}
	return c.mk(Ult, 0, 0, "", a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.W != b.W {
		panic("Slt widths")
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.SVal() < b.SVal())
	}
	if a == b {
		return c.F
	}
	half := uint64(1) << (a.W - 1)
	an, bn := a.Hi < half, b.Hi < half   // known non-negative
	ag, bg := a.Lo >= half, b.Lo >= half // known negative
	switch {
	case an && bn, ag && bg:
		return c.Ult(a, b)
	case an && bg:
		return c.F
	case ag && bn:
		return c.T
	}
	return c.mk(Slt, 0, 0, "", a, b, nil)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	switch {
	case g.IsTrue():
		return a
	case g.IsFalse():
		return b
	case a == b:
		return a
	}
	if a.W == 0 {
		switch {
		case a.IsTrue() && b.IsFalse():
			return g
		case a.IsFalse() && b.IsTrue():
			return c.Not(g)
		case a.IsTrue():
			return c.OrB(g, b)
		case a.IsFalse():
			return c.AndB(c.Not(g), b)
		case b.IsTrue():
			return c.OrB(c.Not(g), a)
		case b.IsFalse():
			return c.AndB(g, a)
		}
	}
	if g.Op == BNot {
		return c.Ite(g.A, b, a)
	}
	return c.mk(Ite, a.W, 0, "", g, a, b)
}

func (c *Ctx) ZExt(a *Term, w uint16) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	switch a.Op {
	case Const:
		return c.Const(a.K, w)
	case ZExt:
		return c.ZExt(a.A, w)
	}
	return c.mk(ZExt, w, 0, "", a, nil, nil)
}

func (c *Ctx) SExt(a *Term, w uint16) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.Const(uint64(a.SVal()), w)
	}
	if a.Hi < uint64(1)<<(a.W-1) {
		return c.ZExt(a, w)
	}
	return c.mk(SExt, w, 0, "", a, nil, nil)
}

func (c *Ctx) Extract(a *Term, hi, lo uint16) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.W {
		return a
	}
	switch a.Op {
	case Const:
		return c.Const(a.K>>lo, w)
	case ZExt:
		if lo >= a.A.W {
			return c.Const(0, w)
		}
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
		return c.ZExt(c.Extract(a.A, a.A.W-1, lo), w)
	case SExt:
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
	case Extract:
		l := uint16(a.K & 0xff)
		return c.Extract(a.A, hi+l, lo+l)
	case Concat:
		if hi < a.B.W {
			return c.Extract(a.B, hi, lo)
		}
		if lo >= a.B.W {
			return c.Extract(a.A, hi-a.B.W, lo-a.B.W)
		}
		return c.Concat(c.Extract(a.A, hi-a.B.W, 0), c.Extract(a.B, a.B.W-1, lo))
	case And, Or, Xor:
		return c.Bin(a.Op, c.Extract(a.A, hi, lo), c.Extract(a.B, hi, lo))
	case Not:
		return c.BVNot(c.Extract(a.A, hi, lo))
	case Add, Sub, Mul:
		if lo == 0 {
			return c.Bin(a.Op, c.Extract(a.A, hi, 0), c.Extract(a.B, hi, 0))
		}
	case Ite:
		if a.B.IsConst() && a.C.IsConst() {
			return c.Ite(a.A, c.Extract(a.B, hi, lo), c.Extract(a.C, hi, lo))
		}
	}
	return c.mk(Extract, w, uint64(hi)<<8|uint64(lo), "", a, nil, nil)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.K<<b.W|b.K, a.W+b.W)
	}
	if a.IsK(0) {
		return c.ZExt(b, a.W+b.W)
	}
	if a.Op == ZExt {
		return c.ZExt(c.Concat(a.A, b), a.W+b.W)
	}
	if b.Op == Concat && a.IsConst() && b.A.IsConst() {
		return c.Concat(c.Concat(a, b.A), b.B)
	}
	if a.Op == Concat { // right-nest
		return c.Concat(a.A, c.Concat(a.B, b))
	}
	if b.Op == Concat && a.Op == Extract && b.A.Op == Extract && a.A == b.A.A && uint16(a.K&0xff) == uint16(b.A.K>>8)+1 {
		return c.Concat(c.Concat(a, b.A), b.B)
	}
	if a.Op == Extract && b.Op == Extract && a.A == b.A && uint16(a.K&0xff) == uint16(b.K>>8)+1 {
		return c.Extract(a.A, uint16(a.K>>8), uint16(b.K&0xff))
	}
	return c.mk(Concat, a.W+b.W, 0, "", a, b, nil)
}

func (c *Ctx) BVNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(^a.K, a.W)
	}
	if a.Op == Not {
		return a.A
	}
	return c.mk(Not, a.W, 0, "", a, nil, nil)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.W >= F32 {
		if a.IsConst() {
			return c.Float(-FVal(a.K, a.W), a.W)
		}
		return c.mk(FNeg, a.W, 0, "", a, nil, nil)
	}
	if a.IsConst() {
		return c.Const(-a.K, a.W)
	}
	return c.mk(Neg, a.W, 0, "", a, nil, nil)
}

func isPow2(k uint64) (uint64, bool) {
	if k != 0 && k&(k-1) == 0 {
		return uint64(bits.TrailingZeros64(k)), true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation. Both operands have the same width
// (shift counts included); division by zero must be excluded by the caller.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("Bin %s widths %d %d", opName[op], a.W, b.W))
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		return c.Const(evalBin(op, a.K, b.K, w), w)
	}
	zero := func() *Term { return c.Const(0, w) }
	if op == Or || op == Add || op == Xor {
		// disjoint bit fields
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			// x may be a zero-extended concatenation
			z := x
			if z.Op == ZExt {
				z = z.A
			}
			if z.Op == Concat && y.Hi <= Mask(z.B.W) && (z.B.Hi == 0 || op != Add) {
				k := z.B.W
				r := c.Concat(z.A, c.Bin(op, z.B, c.Extract(y, k-1, 0)))
				return c.ZExt(r, w)
			}
		}
	}
	if op == And || op == Or || op == Xor {
		x, y := a, b
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			switch {
			case x.Op == Concat:
				k := x.B.W
				return c.Concat(c.Bin(op, x.A, c.Const(y.K>>k, x.A.W)), c.Bin(op, x.B, c.Const(y.K, k)))
			case x.Op == ZExt && (op == And || y.K <= Mask(x.A.W)):
				return c.ZExt(c.Bin(op, x.A, c.Const(y.K, x.A.W)), w)
			}
		}
	}
	switch op {
	case Add:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsK(0) {
			return a
		}
		if b.IsConst() && a.Op == Add && a.B.IsConst() {
			return c.Bin(Add, a.A, c.Const(a.B.K+b.K, w))
		}
		if !b.IsConst() && a.Op == Add && a.B.IsConst() {
			return c.Bin(Add, c.Bin(Add, a.A, b), a.B)
		}
		if !b.IsConst() && b.Op == Add && b.B.IsConst() {
			return c.Bin(Add, c.Bin(Add, a, b.A), b.B)
		}
		if !b.IsConst() && b.Op == Sub && b.B == a {
			return b.A
		}
		if a.Op == Sub && a.B == b {
			return a.A
		}
		if !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case Sub:
		if b.IsConst() {
			return c.Bin(Add, a, c.Const(-b.K, w))
		}
		if a == b {
			return zero()
		}
		if a.Op == Add {
			if a.A == b {
				return a.B
			}
			if a.B == b {
				return a.A
			}
			if a.B.IsConst() && a.A.Op == Add {
				if a.A.A == b {
					return c.Bin(Add, a.A.B, a.B)
				}
				if a.A.B == b {
					return c.Bin(Add, a.A.A, a.B)
				}
			}
		}
		if b.Op == Add && b.B.IsConst() {
			return c.Bin(Add, c.Bin(Sub, a, b.A), c.Const(-b.B.K, w))
		}
		if a.Op == Add && a.B.IsConst() {
			return c.Bin(Add, c.Bin(Sub, a.A, b), a.B)
		}
	case Mul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsK(0) {
			return b
		}
		if b.IsK(1) {
			return a
		}
		if b.IsConst() {
			if s, ok := isPow2(b.K); ok {
				return c.Bin(Shl, a, c.Const(s, w))
			}
			if a.Op == Mul && a.B.IsConst() {
				return c.Bin(Mul, a.A, c.Const(a.B.K*b.K, w))
			}
		}
	case UDiv:
		if b.IsK(1) {
			return a
		}
		if b.IsConst() {
			if s, ok := isPow2(b.K); ok {
				return c.Bin(LShr, a, c.Const(s, w))
			}
			if r := c.divMul(a, b.K); r != nil {
				return r
			}
		}
		if a.Hi < b.Lo {
			return zero()
		}
	case URem:
		if b.IsConst() {
			if s, ok := isPow2(b.K); ok {
				return c.Bin(And, a, c.Const((uint64(1)<<s)-1, w))
			}
			if r := c.divMul(a, b.K); r != nil {
				return zero()
			}
		}
		if a.Hi < b.Lo {
			return a
		}
	case SDiv, SRem:
		half := uint64(1) << (w - 1)
		if a.Hi < half && b.Hi < half {
			if op == SDiv {
				return c.Bin(UDiv, a, b)
			}
			return c.Bin(URem, a, b)
		}
	case And:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.K == 0 {
				return b
			}
			if b.K == Mask(w) {
				return a
			}
			if b.K&(b.K+1) == 0 && a.Hi <= b.K {
				return a
			}
			// low mask: extract and extend
			if b.K&(b.K+1) == 0 {
				return c.ZExt(c.Extract(a, uint16(bits.Len64(b.K))-1, 0), w)
			}
			if a.Op == And && a.B.IsConst() {
				return c.Bin(And, a.A, c.Const(a.B.K&b.K, w))
			}
			if a.Op == ZExt && b.K > Mask(a.A.W) {
				return c.Bin(And, a, c.Const(b.K&Mask(a.A.W), w))
			}
			if a.Op == Or && a.B.IsConst() {
				return c.Bin(Or, c.Bin(And, a.A, b), c.Const(a.B.K&b.K, w))
			}
			if a.Op == Or {
				l, r := c.Bin(And, a.A, b), c.Bin(And, a.B, b)
				if l.IsK(0) {
					return r
				}
				if r.IsK(0) {
					return l
				}
			}
			if a.Op == Shl && a.B.IsConst() && a.B.K < 64 {
				if hi := Mask(w) &^ ((uint64(1) << a.B.K) - 1); b.K&hi == 0 {
					return zero()
				}
			}
			if bits.TrailingZeros64(b.K) >= bits.Len64(a.Hi) {
				return zero()
			}
		}
	case Or:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b || b.IsK(0) {
			return a
		}
		if a.IsK(0) {
			return b
		}
		if b.IsConst() && b.K == Mask(w) {
			return b
		}
		if b.IsConst() && a.Op == Or && a.B.IsConst() {
			return c.Bin(Or, a.A, c.Const(a.B.K|b.K, w))
		}
	case Xor:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return zero()
		}
		if b.IsK(0) {
			return a
		}
		if b.IsConst() && b.K == Mask(w) {
			return c.BVNot(a)
		}
	case Shl, LShr, AShr:
		if b.IsK(0) || a.IsK(0) {
			return a
		}
		if op == AShr && a.Hi < uint64(1)<<(w-1) {
			return c.Bin(LShr, a, b)
		}
		if b.IsConst() {
			if b.K >= uint64(w) {
				if op != AShr {
					return zero()
				}
				b = c.Const(uint64(w-1), w)
			}
			if op == LShr && a.Hi>>b.K == 0 {
				return zero()
			}
			if op == Shl {
				return c.Concat(c.Extract(a, w-1-uint16(b.K), 0), c.Const(0, uint16(b.K)))
			}
			if op == LShr {
				return c.ZExt(c.Extract(a, w-1, uint16(b.K)), w)
			}
		}
	}
	return c.mk(op, w, 0, "", a, b, nil)
}

// divMul returns a/k when a is a non-wrapping product with k (or a sum of
// such), else nil.
func (c *Ctx) divMul(a *Term, k uint64) *Term {
	if a.Op == Mul && a.B.IsConst() && a.B.K%k == 0 && k != 0 {
		if h, l := bits.Mul64(a.A.Hi, a.B.K); h == 0 && l <= Mask(a.W) {
			return c.Bin(Mul, a.A, c.Const(a.B.K/k, a.W))
		}
	}
	return nil
}

// Shift applies Go shift semantics; cnt is unsigned of any width.
func (c *Ctx) Shift(op Op, a, cnt *Term) *Term {
	w := a.W
	if cnt.W < w {
		cnt = c.ZExt(cnt, w)
	} else if cnt.W > w {
		small := c.Extract(cnt, w-1, 0)
		if cnt.Hi >= uint64(w) {
			small = c.Ite(c.Ult(cnt, c.Const(uint64(w), cnt.W)), small, c.Const(uint64(w), w))
		}
		cnt = small
	}
	return c.Bin(op, a, cnt)
}

func evalBin(op Op, a, b uint64, w uint16) uint64 {
	m := Mask(w)
	switch op {
	case Add:
		return (a + b) & m
	case Sub:
		return (a - b) & m
	case Mul:
		return (a * b) & m
	case UDiv:
		if b == 0 {
			return m
		}
		return a / b
	case URem:
		if b == 0 {
			return a
		}
		return a % b
	case SDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case SRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case And:
		return a & b
	case Or:
		return a | b
	case Xor:
		return a ^ b
	case Shl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case LShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case AShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

// FBin builds a floating-point operation or comparison.
func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() {
		x, y := FVal(a.K, w), FVal(b.K, w)
		switch op {
		case FAdd:
			return c.Float(x+y, w)
		case FSub:
			return c.Float(x-y, w)
		case FMul:
			return c.Float(x*y, w)
		case FDiv:
			return c.Float(x/y, w)
		case FEq:
			return c.Bool(x == y)
		case FLt:
			return c.Bool(x < y)
		case FLe:
			return c.Bool(x <= y)
		}
	}
	switch op {
	case FEq, FLt, FLe:
		w = 0
	}
	return c.mk(op, w, 0, "", a, b, nil)
}

// FConv converts between integers and floats.
func (c *Ctx) FConv(op Op, a *Term, w uint16) *Term {
	if a.IsConst() {
		return c.Const0(evalConv(op, a.K, a.W, w), w)
	}
	return c.mk(op, w, 0, "", a, nil, nil)
}

// Const0 builds a constant of any sort from raw bits.
func (c *Ctx) Const0(k uint64, w uint16) *Term { return c.mk(Const, w, k, "", nil, nil, nil) }

func fbits(f float64, w uint16) uint64 {
	if w == F32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalConv(op Op, k uint64, from, to uint16) uint64 {
	switch op {
	case SToF:
		return fbits(float64(sext(k, from)), to)
	case UToF:
		return fbits(float64(k), to)
	case FToS:
		return uint64(int64(FVal(k, from))) & Mask(to)
	case FToU:
		return uint64(FVal(k, from)) & Mask(to)
	case FToF:
		return fbits(FVal(k, from), to)
	}
	panic("evalConv")
}

// Model maps variable names to values.
type Model map[string]uint64

// Eval evaluates t under m; unassigned variables are zero.
func (c *Ctx) Eval(t *Term, m Model) uint64 {
	c.ep++
	if int(c.next)+1 > len(c.memo) {
		n := int(c.next)*2 + 1024
		mm := make([]uint64, n)
		ms := make([]uint32, n)
		copy(mm, c.memo)
		copy(ms, c.mset)
		c.memo, c.mset = mm, ms
	}
	return c.ev(t, m)
}

func (c *Ctx) ev(t *Term, m Model) uint64 {
	if t.Op == Const {
		return t.K
	}
	if c.mset[t.ID] == c.ep {
		return c.memo[t.ID]
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.Op {
	case Var:
		r = m[t.Name]
	case Not:
		r = ^c.ev(t.A, m) & Mask(t.W)
	case Neg:
		r = -c.ev(t.A, m) & Mask(t.W)
	case Concat:
		r = c.ev(t.A, m)<<t.B.W | c.ev(t.B, m)
	case Extract:
		r = (c.ev(t.A, m) >> (t.K & 0xff)) & Mask(t.W)
	case ZExt:
		r = c.ev(t.A, m)
	case SExt:
		r = uint64(sext(c.ev(t.A, m), t.A.W)) & Mask(t.W)
	case Ite:
		if c.ev(t.A, m) != 0 {
			r = c.ev(t.B, m)
		} else {
			r = c.ev(t.C, m)
		}
	case Eq:
		r = b2(c.ev(t.A, m) == c.ev(t.B, m))
	case Ult:
		r = b2(c.ev(t.A, m) < c.ev(t.B, m))
	case Slt:
		r = b2(sext(c.ev(t.A, m), t.A.W) < sext(c.ev(t.B, m), t.B.W))
	case BAnd:
		r = c.ev(t.A, m) & c.ev(t.B, m)
	case BOr:
		r = c.ev(t.A, m) | c.ev(t.B, m)
	case BNot:
		r = 1 - c.ev(t.A, m)
	case FAdd:
		r = fbits(FVal(c.ev(t.A, m), t.W)+FVal(c.ev(t.B, m), t.W), t.W)
	case FSub:
		r = fbits(FVal(c.ev(t.A, m), t.W)-FVal(c.ev(t.B, m), t.W), t.W)
	case FMul:
		r = fbits(FVal(c.ev(t.A, m), t.W)*FVal(c.ev(t.B, m), t.W), t.W)
	case FDiv:
		r = fbits(FVal(c.ev(t.A, m), t.W)/FVal(c.ev(t.B, m), t.W), t.W)
	case FNeg:
		r = fbits(-FVal(c.ev(t.A, m), t.W), t.W)
	case FEq:
		r = b2(FVal(c.ev(t.A, m), t.A.W) == FVal(c.ev(t.B, m), t.A.W))
	case FLt:
		r = b2(FVal(c.ev(t.A, m), t.A.W) < FVal(c.ev(t.B, m), t.A.W))
	case FLe:
		r = b2(FVal(c.ev(t.A, m), t.A.W) <= FVal(c.ev(t.B, m), t.A.W))
	case SToF, UToF, FToS, FToU, FToF:
		r = evalConv(t.Op, c.ev(t.A, m), t.A.W, t.W)
	default:
		r = evalBin(t.Op, c.ev(t.A, m), c.ev(t.B, m), t.W)
	}
	c.mset[t.ID] = c.ep
	c.memo[t.ID] = r
	return r
}

// ---- SMT-LIB printing ----

func SortStr(w uint16) string {
	switch w {
	case 0:
		return "Bool"
	case F32:
		return "(_ FloatingPoint 8 24)"
	case F64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch {
	case t.W == 0:
		if t.K == 1 {
			return "true"
		}
		return "false"
	case t.W == F64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.K)
	case t.W == F32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.K)
	case t.W%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.W/4), t.K)
	}
	return fmt.Sprintf("#b%0*b", int(t.W), t.K)
}

// Sym is the solver's name for a variable: paths may use one name at two widths.
func (t *Term) Sym() string { return fmt.Sprintf("|%s@%d|", t.Name, t.W) }

// Printer emits definitions for terms once.
type Printer struct {
	done map[*Term]string
}

func NewPrinter() *Printer { return &Printer{done: map[*Term]string{}} }

// Ref returns a reference to t, writing any missing declarations to sb.
func (p *Printer) Ref(t *Term, sb *strings.Builder) string {
	if t.Op == Const {
		return constStr(t)
	}
	if s, ok := p.done[t]; ok {
		return s
	}
	if t.Op == Var {
		s := t.Sym()
		fmt.Fprintf(sb, "(declare-const %s %s)\n", s, SortStr(t.W))
		p.done[t] = s
		return s
	}
	var a, b, d string
	a = p.Ref(t.A, sb)
	if t.B != nil {
		b = p.Ref(t.B, sb)
	}
	if t.C != nil {
		d = p.Ref(t.C, sb)
	}
	var body string
	eb := func(w uint16) string {
		if w == F32 {
			return "8 24"
		}
		return "11 53"
	}
	switch t.Op {
	case Extract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.K>>8, t.K&0xff, a)
	case ZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A.W, a)
	case SExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A.W, a)
	case SToF:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", eb(t.W), a)
	case UToF:
		body = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", eb(t.W), a)
	case FToS:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, a)
	case FToU:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, a)
	case FToF:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", eb(t.W), a)
	default:
		body = "(" + opName[t.Op] + " " + a
		if b != "" {
			body += " " + b
		}
		if d != "" {
			body += " " + d
		}
		body += ")"
	}
	s := "t" + strconv.Itoa(int(t.ID))
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", s, SortStr(t.W), body)
	p.done[t] = s
	return s
}

// String renders small terms for messages.
func (t *Term) String() string { return t.str(5) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case Const:
		if t.IsFloat() {
			return fmt.Sprint(FVal(t.K, t.W))
		}
		return fmt.Sprint(t.K)
	case Var:
		return t.Name
	}
	if d == 0 {
		return "..."
	}
	s := opName[t.Op]
	switch t.Op {
	case Extract:
		s = fmt.Sprintf("ext[%d:%d]", t.K>>8, t.K&0xff)
	case ZExt:
		s = fmt.Sprintf("zx%d", t.W)
	case SExt:
		s = fmt.Sprintf("sx%d", t.W)
	}
	s = "(" + s
	for _, x := range []*Term{t.A, t.B, t.C} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

// CollectVars appends the variables of t.
func CollectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || !t.HasVar || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == Var {
		*out = append(*out, t)
		return
	}
	CollectVars(t.A, seen, out)
	CollectVars(t.B, seen, out)
	CollectVars(t.C, seen, out)
}
