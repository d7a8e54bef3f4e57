package main

import (
	"math/rand"
	"testing"
)

// Every value a random term takes lies in its range, also after learning
// conditions that hold for the assignment.
func TestRange(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		p := NewPool()
		in := &Interp{p: p, bnd: map[int32]iv{}, epoch: 1}
		p.rng = in.rangeOf
		var m []uint64
		pools := map[uint8][]*Term{}
		ws := []uint8{8, 16, 32, 64}
		for i := 0; i < 4; i++ {
			w := ws[r.Intn(4)]
			v := p.NewVar("", w)
			x := r.Uint64()
			if r.Intn(2) == 0 {
				x = uint64(r.Intn(20))
			}
			m = append(m, x&mask(w))
			full := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			in.dom = append(in.dom, &full)
			if w == 8 {
				in.dom[i] = &[4]uint64{}
				for k := 0; k < 1+r.Intn(200); k++ {
					c := (x + uint64(r.Intn(30))*uint64(k&1)) & 255
					in.dom[i][c>>6] |= 1 << (c & 63)
				}
				c := x & 255
				in.dom[i][c>>6] |= 1 << (c & 63)
			}
			pools[w] = append(pools[w], v)
		}
		konst := func(w uint8) *Term {
			switch r.Intn(4) {
			case 0:
				return p.Const(w, uint64(r.Intn(12)))
			case 1:
				return p.Const(w, -uint64(r.Intn(12)))
			case 2:
				return p.Const(w, uint64(1)<<uint(r.Intn(int(w))))
			}
			return p.Const(w, r.Uint64())
		}
		pick := func(w uint8) *Term {
			if l := pools[w]; len(l) > 0 && r.Intn(3) > 0 {
				return l[r.Intn(len(l))]
			}
			return konst(w)
		}
		check := func(x *Term, what string) {
			v := p.Eval(x, m)
			g := in.rangeOf(x)
			if (v-g.lo)&mask(max(x.w, 1)) > g.sz {
				t.Fatalf("seed %d %s: %v op %d w %d value %d range %+v", seed, what, x, x.op, x.w, v, g)
			}
		}
		var bools []*Term
		for k := 0; k < 30; k++ {
			w := ws[r.Intn(4)]
			var x *Term
			switch r.Intn(7) {
			case 0, 1, 2:
				ops := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr}
				b := pick(w)
				op := ops[r.Intn(len(ops))]
				if r.Intn(2) == 0 {
					b = konst(w)
				}
				if op == OShl || op == OLShr || op == OAShr {
					b = p.Const(w, uint64(r.Intn(int(w))))
				}
				if (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && p.Eval(b, m) == 0 {
					continue
				}
				a := pick(w)
				if w > 8 && r.Intn(2) == 0 && (op == OUDiv || op == OURem || op == OSDiv || op == OSRem || op == OLShr) {
					c := uint64(r.Intn(300) + 2)
					if op == OLShr {
						k := uint64(r.Intn(7) + 1)
						b, c = p.Const(w, k), uint64(1)<<k
					} else {
						b = p.Const(w, c)
					}
					small := p.ZExt(pick(8), w)
					a = p.Bin(OAdd, p.Bin(OMul, p.ZExt(pick(8), w), p.Const(w, c*uint64(1+r.Intn(2)))), small)
					if r.Intn(2) == 0 {
						a = p.Bin(OSub, p.Bin(OAdd, a, konst(w)), p.ZExt(pick(8), w))
					}
				}
				x = p.Bin(op, a, b)
				if p.Eval(x, m) != evalBin(op, w, p.Eval(a, m), p.Eval(b, m)) {
					t.Fatalf("seed %d: bin", seed)
				}
			case 3:
				w2 := ws[r.Intn(4)]
				if r.Intn(2) == 0 {
					y := pick(w2)
					x = p.ZExt(y, w)
					if p.Eval(x, m) != p.Eval(y, m)&mask(w) {
						t.Fatalf("seed %d: zext", seed)
					}
				} else {
					x = p.SExt(pick(w2), w)
				}
			case 4:
				if w > 8 {
					x = p.Extract(pick(w), uint8(r.Intn(int(w-8))), 8)
				}
			case 5:
				if len(bools) > 0 {
					x = p.Ite(bools[r.Intn(len(bools))], pick(w), pick(w))
				}
			case 6:
				a, b := pick(w), pick(w)
				switch r.Intn(6) {
				case 0:
					if r.Intn(2) == 0 { // shared parts that cancel
						c, d := pick(w), konst(w)
						a, b = p.Bin(OAdd, p.Bin(OMul, a, d), c), p.Bin(OSub, c, p.Bin(OMul, b, konst(w)))
					}
					x = p.Eq(a, b)
					if (p.Eval(x, m) != 0) != (p.Eval(a, m) == p.Eval(b, m)) {
						t.Fatalf("seed %d: eq", seed)
					}
				case 5:
					if len(bools) > 1 {
						x = p.And(bools[r.Intn(len(bools))], bools[r.Intn(len(bools))])
					}
				default:
					if r.Intn(2) == 0 {
						b = p.Bin(OAdd, a, p.ZExt(pick(8), w))
						if r.Intn(2) == 0 {
							b = p.Bin(OSub, b, konst(w))
						}
					}
					if r.Intn(2) == 0 {
						a, b = b, a
					}
					op := []Op{OUlt, OUle, OSlt, OSle}[r.Intn(4)]
					x = p.Cmp(op, a, b)
					if (p.Eval(x, m) != 0) != evalCmp(op, w, p.Eval(a, m), p.Eval(b, m)) {
						t.Fatalf("seed %d: cmp", seed)
					}
				}
			}
			if x == nil {
				continue
			}
			check(x, "fresh")
			if x.w == 0 {
				if r.Intn(2) == 0 {
					x = p.Not(x)
				}
				bools = append(bools, x)
				if r.Intn(2) == 0 {
					c := x
					if p.Eval(c, m) == 0 {
						c = p.Not(c)
					}
					in.learn(c, 0)
					for _, l := range pools {
						for _, y := range l {
							check(y, "learnt")
						}
					}
				}
			} else {
				pools[x.w] = append(pools[x.w], x)
			}
		}
	}
}
