package main

// Ranges: a cheap over-approximation of the values a term takes under the path
// condition, used to settle branches without asking the solver. A range is the
// set {lo, lo+1, ..., lo+sz} modulo 2^w, so it may wrap around.

type iv struct{ lo, sz uint64 }

func fullIV(w uint8) iv { return iv{0, mask(w)} }

func boolIV(t, f bool) iv {
	switch {
	case t && f:
		return iv{0, 1}
	case t:
		return iv{1, 0}
	}
	return iv{0, 0}
}

// urange: bounds as unsigned numbers, when the range does not wrap.
func (r iv) urange(w uint8) (uint64, uint64, bool) {
	hi := r.lo + r.sz
	if hi < r.lo || hi > mask(w) {
		return 0, mask(w), false
	}
	return r.lo, hi, true
}

// srange: bounds as signed numbers.
func (r iv) srange(w uint8) (int64, int64, bool) {
	off := uint64(1) << (w - 1)
	lo, hi, ok := iv{(r.lo + off) & mask(w), r.sz}.urange(w)
	return sext((lo-off)&mask(w), w), sext((hi-off)&mask(w), w), ok
}

func fromS(lo, hi int64, w uint8) iv {
	return iv{uint64(lo) & mask(w), uint64(hi) - uint64(lo)}
}

// hull of two ranges (either order), not always the smallest.
func hull(a, b iv, w uint8) iv {
	m := mask(w)
	try := func(a, b iv) (iv, bool) { // a first, then b
		d := (b.lo - a.lo) & m
		if d > m-b.sz {
			return iv{}, false
		}
		sz := max(a.sz, d+b.sz)
		return iv{a.lo, sz}, true
	}
	x, okx := try(a, b)
	y, oky := try(b, a)
	switch {
	case okx && (!oky || x.sz <= y.sz):
		return x
	case oky:
		return y
	}
	return fullIV(w)
}

// meet over-approximates the intersection.
func meet(a, b iv, w uint8) iv {
	if a.sz == mask(w) {
		return b
	}
	if b.sz == mask(w) {
		return a
	}
	m := mask(w)
	// shift so that a starts at zero
	d := (b.lo - a.lo) & m
	if a.sz > b.sz {
		a, b = b, a
		d = (b.lo - a.lo) & m
	}
	// a is the smaller one
	if d <= a.sz { // b starts inside a
		if d > m-b.sz { // and wraps into it again
			return a
		}
		e := min(a.sz, satAdd(d, b.sz))
		return iv{(a.lo + d) & m, e - d}
	}
	// b starts after a's end; it may reach a from behind
	if d > m-b.sz {
		k := b.sz - (m - d) - 1 // covers a.lo .. a.lo+k
		if k >= a.sz {
			return a
		}
		return iv{a.lo, k}
	}
	return a // disjoint: infeasible, leave that to others
}

func satAdd(a, b uint64) uint64 {
	if a+b < a {
		return ^uint64(0)
	}
	return a + b
}

func (in *Interp) rangeOf(t *Term) iv {
	in.rngBudget = 600
	return in.rng(t)
}

func (in *Interp) rng(t *Term) iv {
	if t.op == OConst {
		return iv{t.n, 0}
	}
	if t.rngEpoch == in.epoch {
		return t.rng
	}
	if in.rngBudget <= 0 {
		if t.w == 0 {
			return iv{0, 1}
		}
		return fullIV(t.w)
	}
	in.rngBudget--
	r := in.rng1(t)
	if b, ok := in.bnd[t.id]; ok {
		r = meet(r, b, t.w)
	}
	if in.rngBudget > 0 {
		t.rng, t.rngEpoch = r, in.epoch
	}
	return r
}

func (in *Interp) rng1(t *Term) iv {
	w := t.w
	full := fullIV(w)
	if w == 0 {
		full = iv{0, 1}
	}
	m := mask(w)
	switch t.op {
	case OVar:
		if w == 8 && int(t.n) < len(in.dom) && in.dom[t.n] != nil {
			d := in.dom[t.n]
			lo, hi := -1, -1
			for i := 0; i < 256; i++ {
				if d[i>>6]&(1<<(i&63)) != 0 {
					if lo < 0 {
						lo = i
					}
					hi = i
				}
			}
			if lo >= 0 {
				return iv{uint64(lo), uint64(hi - lo)}
			}
		}
		return full
	case ONot:
		a := in.rng(t.a)
		if a.sz == 0 {
			return iv{1 - a.lo, 0}
		}
		return full
	case OAnd:
		a, b := in.rng(t.a), in.rng(t.b)
		if a == (iv{0, 0}) || b == (iv{0, 0}) {
			return iv{0, 0}
		}
		if a.sz == 0 && b.sz == 0 {
			return iv{1, 0}
		}
		return full
	case OOr:
		a, b := in.rng(t.a), in.rng(t.b)
		if a == (iv{1, 0}) || b == (iv{1, 0}) {
			return iv{1, 0}
		}
		if a.sz == 0 && b.sz == 0 {
			return iv{0, 0}
		}
		return full
	case OIte:
		c := in.rng(t.a)
		if c.sz == 0 {
			if c.lo != 0 {
				return in.rng(t.b)
			}
			return in.rng(t.c)
		}
		if w == 0 {
			a, b := in.rng(t.b), in.rng(t.c)
			if a == b {
				return a
			}
			return full
		}
		return hull(in.rng(t.b), in.rng(t.c), w)
	case OEq:
		a, b := in.rng(t.a), in.rng(t.b)
		if a.sz == 0 && b.sz == 0 {
			return boolIV(a.lo == b.lo, a.lo != b.lo)
		}
		if t.a.w > 0 {
			m := mask(t.a.w)
			if (b.lo-a.lo)&m > a.sz && (a.lo-b.lo)&m > b.sz {
				return iv{0, 0}
			}
		}
		return full
	case OUlt, OUle:
		al, ah, _ := in.rng(t.a).urange(t.a.w)
		bl, bh, _ := in.rng(t.b).urange(t.a.w)
		if t.op == OUlt {
			return boolIV(al < bh, ah >= bl)
		}
		return boolIV(al <= bh, ah > bl)
	case OSlt, OSle:
		al, ah, _ := in.rng(t.a).srange(t.a.w)
		bl, bh, _ := in.rng(t.b).srange(t.a.w)
		if t.op == OSlt {
			return boolIV(al < bh, ah >= bl)
		}
		return boolIV(al <= bh, ah > bl)
	case OAdd:
		a, b := in.rng(t.a), in.rng(t.b)
		if sz := a.sz + b.sz; sz >= a.sz && sz < m {
			return iv{(a.lo + b.lo) & m, sz}
		}
	case OSub:
		a, b := in.rng(t.a), in.rng(t.b)
		if sz := a.sz + b.sz; sz >= a.sz && sz < m {
			return iv{(a.lo - b.lo - b.sz) & m, sz}
		}
	case OBNot:
		a := in.rng(t.a)
		return iv{^(a.lo + a.sz) & m, a.sz}
	case OMul:
		a, b := in.rng(t.a), in.rng(t.b)
		if b.sz == 0 {
			if b.lo == 0 {
				return iv{0, 0}
			}
			if a.sz <= (m-1)/b.lo {
				return iv{(a.lo * b.lo) & m, a.sz * b.lo}
			}
			if nb := -b.lo & m; a.sz <= (m-1)/nb { // negative factor
				return iv{((a.lo + a.sz) * b.lo) & m, a.sz * nb}
			}
			return full
		}
		_, ah, oka := a.urange(w)
		_, bh, okb := b.urange(w)
		if oka && okb && (ah == 0 || bh <= m/ah) {
			return iv{a.lo * b.lo, ah*bh - a.lo*b.lo}
		}
	case OUDiv:
		a, b := in.rng(t.a), in.rng(t.b)
		al, ah, ok := a.urange(w)
		if b.sz == 0 && b.lo != 0 {
			if !ok {
				return iv{0, m / b.lo}
			}
			return iv{al / b.lo, ah/b.lo - al/b.lo}
		}
	case OURem:
		a, b := in.rng(t.a), in.rng(t.b)
		al, ah, ok := a.urange(w)
		if b.sz == 0 && b.lo != 0 {
			if ok && al/b.lo == ah/b.lo {
				return iv{al % b.lo, ah - al}
			}
			return iv{0, b.lo - 1}
		}
	case OSDiv, OSRem:
		a, b := in.rng(t.a), in.rng(t.b)
		al, ah, ok := a.srange(w)
		c := sext(b.lo, w)
		if b.sz != 0 || c <= 0 {
			return full
		}
		if t.op == OSDiv {
			return fromS(al/c, ah/c, w)
		}
		if ok && al/c == ah/c && (al >= 0 || ah <= 0) {
			return fromS(al%c, ah%c, w)
		}
		lo, hi := -(c - 1), c-1
		if al >= 0 {
			lo = 0
		}
		if ah <= 0 {
			hi = 0
		}
		return fromS(lo, hi, w)
	case OBAnd:
		a, b := in.rng(t.a), in.rng(t.b)
		_, ah, _ := a.urange(w)
		_, bh, _ := b.urange(w)
		return iv{0, min(ah, bh)}
	case OBOr, OBXor:
		a, b := in.rng(t.a), in.rng(t.b)
		_, ah, _ := a.urange(w)
		_, bh, _ := b.urange(w)
		h := ah | bh
		h |= h >> 1
		h |= h >> 2
		h |= h >> 4
		h |= h >> 8
		h |= h >> 16
		h |= h >> 32
		return iv{0, h & m}
	case OShl:
		a, b := in.rng(t.a), in.rng(t.b)
		if b.sz == 0 && b.lo < uint64(w) {
			if a.sz <= (m-1)>>b.lo {
				return iv{(a.lo << b.lo) & m, a.sz << b.lo}
			}
		}
	case OLShr:
		a, b := in.rng(t.a), in.rng(t.b)
		al, ah, _ := a.urange(w)
		if b.sz == 0 && b.lo < uint64(w) {
			return iv{al >> b.lo, ah>>b.lo - al>>b.lo}
		}
	case OAShr:
		a, b := in.rng(t.a), in.rng(t.b)
		al, ah, _ := a.srange(w)
		if b.sz == 0 && b.lo < uint64(w) {
			return fromS(al>>b.lo, ah>>b.lo, w)
		}
	case OZExt:
		al, ah, _ := in.rng(t.a).urange(t.a.w)
		return iv{al, ah - al}
	case OSExt:
		al, ah, _ := in.rng(t.a).srange(t.a.w)
		return fromS(al, ah, w)
	case OExtract:
		a := in.rng(t.a)
		if t.n == 0 {
			if a.sz < m {
				return iv{a.lo & m, a.sz}
			}
		} else if al, ah, ok := a.urange(t.a.w); ok {
			al, ah = al>>t.n, ah>>t.n
			if ah-al < m {
				return iv{al & m, ah - al}
			}
		}
	}
	return full
}

// known tells whether the path condition already settles c.
func (in *Interp) settled(c *Term) (val, ok bool) {
	if c.isConst() {
		return c.n != 0, true
	}
	r := in.rangeOf(c)
	return r.lo != 0, r.sz == 0
}

// learn records what c, now part of the path condition, says about ranges.
func (in *Interp) learn(c *Term, depth int) {
	if depth > 40 {
		return
	}
	switch c.op {
	case OAnd:
		in.learn(c.a, depth+1)
		in.learn(c.b, depth+1)
	case OOr:
		if v, ok := in.settled(c.a); ok && !v {
			in.learn(c.b, depth+1)
		} else if v, ok := in.settled(c.b); ok && !v {
			in.learn(c.a, depth+1)
		}
	case OIte:
		if v, ok := in.settled(c.a); ok && v {
			in.learn(c.b, depth+1)
		} else if ok {
			in.learn(c.c, depth+1)
		}
	case OEq:
		if c.a.w == 0 {
			return
		}
		b, a := in.rangeOf(c.b), in.rangeOf(c.a)
		in.bound(c.a, b, 0)
		in.bound(c.b, a, 0)
	case OUlt, OUle, OSlt, OSle:
		in.learnCmp(c.op, c.a, c.b)
	case ONot:
		x := c.a
		switch x.op {
		case OOr:
			in.learn(in.p.Not(x.a), depth+1)
			in.learn(in.p.Not(x.b), depth+1)
		case OAnd:
			if v, ok := in.settled(x.a); ok && v {
				in.learn(in.p.Not(x.b), depth+1)
			} else if v, ok := in.settled(x.b); ok && v {
				in.learn(in.p.Not(x.a), depth+1)
			}
		case OUlt:
			in.learnCmp(OUle, x.b, x.a)
		case OUle:
			in.learnCmp(OUlt, x.b, x.a)
		case OSlt:
			in.learnCmp(OSle, x.b, x.a)
		case OSle:
			in.learnCmp(OSlt, x.b, x.a)
		case OEq:
			if x.a.w > 0 && x.b.isConst() {
				r := in.rangeOf(x.a)
				if r.sz > 0 && r.lo == x.b.n {
					in.bound(x.a, iv{(r.lo + 1) & mask(x.a.w), r.sz - 1}, 0)
				} else if r.sz > 0 && (r.lo+r.sz)&mask(x.a.w) == x.b.n {
					in.bound(x.a, iv{r.lo, r.sz - 1}, 0)
				}
			}
		}
	}
}

func (in *Interp) learnCmp(op Op, a, b *Term) {
	w := a.w
	if op == OUlt || op == OUle {
		al, _, _ := in.rangeOf(a).urange(w)
		_, bh, _ := in.rangeOf(b).urange(w)
		if op == OUlt {
			if bh == 0 || al == mask(w) {
				return
			}
			bh--
			al++
		}
		in.bound(a, iv{0, bh}, 0)
		in.bound(b, iv{al, mask(w) - al}, 0)
		return
	}
	al, _, _ := in.rangeOf(a).srange(w)
	_, bh, _ := in.rangeOf(b).srange(w)
	smin, smax := sext(uint64(1)<<(w-1), w), int64(mask(w)>>1)
	if op == OSlt {
		if bh == smin || al == smax {
			return
		}
		bh--
		al++
	}
	in.bound(a, fromS(smin, bh, w), 0)
	in.bound(b, fromS(al, smax, w), 0)
}

// bound narrows t to r, and the terms t is made of where that is exact.
func (in *Interp) bound(t *Term, r iv, depth int) {
	if t.isConst() || r.sz == mask(t.w) || depth > 4 {
		return
	}
	old, ok := in.bnd[t.id]
	if ok {
		r = meet(old, r, t.w)
		if r == old {
			return
		}
	}
	in.bnd[t.id] = r
	in.epoch++
	switch t.op {
	case OAdd:
		if t.b.isConst() {
			in.bound(t.a, iv{(r.lo - t.b.n) & mask(t.w), r.sz}, depth+1)
		}
	case OZExt:
		if lo, hi, ok := meet(in.rangeOf(t), r, t.w).urange(t.w); ok {
			m := mask(t.a.w)
			if lo <= m {
				in.bound(t.a, iv{lo, min(hi, m) - lo}, depth+1)
			}
		}
	case OSExt:
		if lo, hi, ok := meet(in.rangeOf(t), r, t.w).srange(t.w); ok {
			smin, smax := sext(uint64(1)<<(t.a.w-1), t.a.w), int64(mask(t.a.w)>>1)
			lo, hi = max(lo, smin), min(hi, smax)
			if lo <= hi {
				in.bound(t.a, fromS(lo, hi, t.a.w), depth+1)
			}
		}
	}
}
