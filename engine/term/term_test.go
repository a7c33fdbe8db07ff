package term

import (
	"math/rand"
	"testing"
)

// TestSimplifier compares simplified construction against direct evaluation.
func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 300000; it++ {
		if it%3000 == 0 {
			r = rand.New(rand.NewSource(int64(it)))
		}
		c := NewCtx()
		m := Model{"a": r.Uint64() & 0xff, "b": r.Uint64() & 0xff, "x": r.Uint64() & 0xffff, "y": r.Uint64() & 0xffffffff, "z": r.Uint64()}
		if r.Intn(3) == 0 {
			m["x"] = uint64(r.Intn(4))
			m["y"] = m["x"]
		}
		type tv struct {
			t *Term
			v uint64
		}
		pool := []tv{{c.Var("a", 8), m["a"]}, {c.Var("b", 8), m["b"]}, {c.Var("x", 16), m["x"]}, {c.Var("y", 32), m["y"]}, {c.Var("z", 64), m["z"]}}
		bools := []tv{{c.T, 1}}
		ws := []uint16{8, 16, 32, 64}
		get := func(w uint16) tv {
			if r.Intn(3) == 0 {
				k := r.Uint64()
				switch r.Intn(4) {
				case 0:
					k = uint64(r.Intn(70))
				case 1:
					k = (uint64(1) << r.Intn(64)) - 1
				case 2:
					k = uint64(1) << r.Intn(64)
				}
				k &= Mask(w)
				return tv{c.Const(k, w), k}
			}
			p := pool[r.Intn(len(pool))]
			switch {
			case p.t.W == w:
				return p
			case p.t.W < w:
				if r.Intn(2) == 0 {
					return tv{c.SExt(p.t, w), uint64(sext(p.v, p.t.W)) & Mask(w)}
				}
				return tv{c.ZExt(p.t, w), p.v}
			}
			lo := uint16(r.Intn(int(p.t.W - w + 1)))
			return tv{c.Extract(p.t, lo+w-1, lo), (p.v >> lo) & Mask(w)}
		}
		for i := 0; i < 14; i++ {
			w := ws[r.Intn(4)]
			a, b := get(w), get(w)
			switch k := r.Intn(20); {
			case k < 13:
				op := Op(int(Add) + r.Intn(int(AShr-Add)+1))
				if op == Not || op == Neg {
					op = Or
				}
				if (op == UDiv || op == URem || op == SDiv || op == SRem) && b.v == 0 {
					continue
				}
				pool = append(pool, tv{c.Bin(op, a.t, b.t), evalBin(op, a.v, b.v, w)})
			case k == 13:
				pool = append(pool, tv{c.BVNot(a.t), ^a.v & Mask(w)})
			case k == 14:
				if w < 64 {
					pool = append(pool, tv{c.Concat(a.t, b.t), a.v<<w | b.v})
				}
			case k == 15:
				bools = append(bools, tv{c.Eq(a.t, b.t), bo(a.v == b.v)})
			case k == 16:
				bools = append(bools, tv{c.Ult(a.t, b.t), bo(a.v < b.v)})
			case k == 17:
				bools = append(bools, tv{c.Slt(a.t, b.t), bo(sext(a.v, w) < sext(b.v, w))})
			case k == 18:
				g := bools[r.Intn(len(bools))]
				v := b.v
				if g.v == 1 {
					v = a.v
				}
				pool = append(pool, tv{c.Ite(g.t, a.t, b.t), v})
			case k == 19:
				g, h := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
				bools = append(bools, tv{c.AndB(g.t, c.Not(h.t)), g.v & (1 - h.v)}, tv{c.OrB(g.t, h.t), g.v | h.v})
			}
		}
		for _, p := range append(pool, bools...) {
			if p.t.W > 64 {
				continue
			}
			if got := c.Eval(p.t, m); got != p.v {
				t.Fatalf("it %d: %s = %#x want %#x (model %v)", it, p.t, got, p.v, m)
			}
			if p.t.W > 0 && (p.v < p.t.Lo || p.v > p.t.Hi) {
				t.Fatalf("it %d: %s = %#x outside [%#x,%#x]", it, p.t, p.v, p.t.Lo, p.t.Hi)
			}
		}
	}
}

func bo(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
