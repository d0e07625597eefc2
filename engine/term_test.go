package main

import (
	"math/rand"
	"testing"
)

// The constructors simplify; every simplification is checked against direct evaluation
// on random terms and random assignments.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 20000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTCtx()
		m := NewModel()
		type tv struct {
			t *Term
			v uint64
		}
		var bv []tv
		var bo []tv
		ws := []int{8, 16, 32, 64}
		rnd := func(w int) uint64 {
			switch r.Intn(4) {
			case 0:
				return uint64(r.Intn(5)) & mask(w)
			case 1:
				return -uint64(r.Intn(5)) & mask(w)
			case 2:
				return (uint64(1) << uint(r.Intn(w))) & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for i := 0; i < 6; i++ {
			w := ws[r.Intn(4)]
			x := c.Fresh("v", w)
			m.v[x.name] = rnd(w)
			bv = append(bv, tv{x, m.v[x.name]})
		}
		b0 := c.Fresh("b", 0)
		m.v[b0.name] = uint64(r.Intn(2))
		bo = append(bo, tv{b0, m.v[b0.name]})
		for i := 0; i < 3; i++ {
			w := ws[r.Intn(4)]
			v := rnd(w)
			bv = append(bv, tv{c.BV(v, w), v})
		}
		pick := func(w int) (tv, bool) {
			for k := 0; k < 20; k++ {
				x := bv[r.Intn(len(bv))]
				if x.t.w == w {
					return x, true
				}
			}
			return tv{}, false
		}
		bb := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for step := 0; step < 60; step++ {
			a := bv[r.Intn(len(bv))]
			w := a.t.w
			b, ok := pick(w)
			if !ok || r.Intn(4) == 0 {
				v := rnd(w)
				b = tv{c.BV(v, w), v}
			}
			if r.Intn(8) == 0 {
				a, b = b, a
			}
			sa, sb := sx(a.v, w), sx(b.v, w)
			var n tv
			isB := false
			what := r.Intn(24)
			switch what {
			case 0:
				n = tv{c.Add(a.t, b.t), a.v + b.v}
			case 1:
				n = tv{c.Sub(a.t, b.t), a.v - b.v}
			case 2:
				n = tv{c.Mul(a.t, b.t), a.v * b.v}
			case 3:
				n = tv{c.BAndBV(a.t, b.t), a.v & b.v}
			case 4:
				n = tv{c.BOrBV(a.t, b.t), a.v | b.v}
			case 5:
				n = tv{c.BXor(a.t, b.t), a.v ^ b.v}
			case 6:
				k := r.Intn(w + 2)
				var v uint64
				if k < w {
					v = a.v << uint(k)
				}
				n = tv{c.Shl(a.t, c.BV(uint64(k), w)), v}
			case 7:
				k := r.Intn(w + 2)
				var v uint64
				if k < w {
					v = a.v >> uint(k)
				}
				n = tv{c.Lshr(a.t, c.BV(uint64(k), w)), v}
			case 8:
				k := r.Intn(w + 2)
				n = tv{c.Ashr(a.t, c.BV(uint64(k), w)), uint64(sa >> uint(k))}
			case 9:
				w2 := ws[r.Intn(4)]
				if w2 >= w {
					n = tv{c.Zext(a.t, w2), a.v}
				} else {
					n = tv{c.Extract(a.t, w2-1, 0), a.v}
				}
			case 10:
				w2 := ws[r.Intn(4)]
				if w2 >= w {
					n = tv{c.Sext(a.t, w2), uint64(sa)}
				} else {
					lo := r.Intn(w - w2 + 1)
					n = tv{c.Extract(a.t, lo+w2-1, lo), a.v >> uint(lo)}
				}
			case 11:
				if w <= 32 {
					n = tv{c.Concat(a.t, b.t), a.v<<uint(w) | b.v}
				}
			case 12:
				q := bo[r.Intn(len(bo))]
				v := b.v
				if q.v == 1 {
					v = a.v
				}
				n = tv{c.Ite(q.t, a.t, b.t), v}
			case 13:
				isB, n = true, tv{c.Eq(a.t, b.t), bb(a.v == b.v)}
			case 14:
				isB, n = true, tv{c.Ult(a.t, b.t), bb(a.v < b.v)}
			case 15:
				isB, n = true, tv{c.Ule(a.t, b.t), bb(a.v <= b.v)}
			case 16:
				isB, n = true, tv{c.Slt(a.t, b.t), bb(sa < sb)}
			case 17:
				isB, n = true, tv{c.Sle(a.t, b.t), bb(sa <= sb)}
			case 18:
				q := bo[r.Intn(len(bo))]
				isB, n = true, tv{c.Not(q.t), 1 - q.v}
			case 19:
				p, q := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				isB, n = true, tv{c.And(p.t, q.t), p.v & q.v}
			case 20:
				p, q := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				isB, n = true, tv{c.Or(p.t, q.t), p.v | q.v}
			case 21:
				p, q := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				isB, n = true, tv{c.Eq(p.t, q.t), 1 - p.v ^ q.v}
			case 22:
				if b.t.isConst() && b.v != 0 {
					n = tv{c.Div(OUDiv, a.t, b.t), a.v / b.v}
					if r.Intn(2) == 0 {
						n = tv{c.Div(OURem, a.t, b.t), a.v % b.v}
					}
				}
			case 23:
				if b.t.isConst() && b.v != 0 && sb != -1 {
					n = tv{c.Div(OSDiv, a.t, b.t), uint64(sa / sb)}
					if r.Intn(2) == 0 {
						n = tv{c.Div(OSRem, a.t, b.t), uint64(sa % sb)}
					}
				}
			}
			if n.t == nil {
				continue
			}
			if n.t.w > 0 {
				n.v &= mask(n.t.w)
			}
			if g := c.Eval(n.t, m, map[*Term]uint64{}); g != n.v {
				t.Fatalf("seed %d step %d op %d: %v on %v (%#x), %v (%#x): eval %#x, want %#x", seed, step, what, n.t, a.t, a.v, b.t, b.v, g, n.v)
			}
			if n.t.w > 0 && n.t.w <= 64 {
				lo, hi := c.urange(n.t)
				sl, sh := c.srange(n.t)
				if n.v < lo || n.v > hi || sx(n.v, n.t.w) < sl || sx(n.v, n.t.w) > sh {
					t.Fatalf("seed %d: range of %v wrong: value %#x u[%d,%d] s[%d,%d]", seed, n.t, n.v, lo, hi, sl, sh)
				}
			}
			if isB {
				bo = append(bo, n)
			} else {
				bv = append(bv, n)
			}
		}
	}
}
