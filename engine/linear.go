package main

import (
	"math/bits"
	"sort"
)

// Linear normal forms modulo 2^w, used by Eq to cancel what both sides share.

type lin struct {
	coef  map[*Term]uint64
	k     uint64
	nodes int
	p     *TermPool // set: also see through remainders
}

func (l *lin) add(t *Term, c uint64, w uint8) bool {
	if l.nodes++; l.nodes > 200 {
		return false
	}
	c &= mask(w)
	if c == 0 {
		return true
	}
	switch t.op {
	case OConst:
		l.k += c * t.n
		return true
	case OAdd:
		return l.add(t.a, c, w) && l.add(t.b, c, w)
	case OSub:
		return l.add(t.a, c, w) && l.add(t.b, -c, w)
	case OMul:
		if t.b.isConst() {
			return l.add(t.a, c*t.b.n, w)
		}
	case OShl:
		if t.b.isConst() && t.b.n < uint64(w) {
			return l.add(t.a, c<<t.b.n, w)
		}
	case OBNot:
		l.k -= c
		return l.add(t.a, -c, w)
	case OURem:
		// x % d = x - d*(x/d)
		if t.b.isConst() && t.b.n != 0 && l.p != nil {
			return l.add(t.a, c, w) && l.add(l.p.Bin(OUDiv, t.a, t.b), -c*t.b.n, w)
		}
	case OZExt:
		if x := t.a; x.op == OURem && x.b.isConst() && x.b.n != 0 && l.p != nil {
			return l.add(l.p.ZExt(x.a, w), c, w) && l.add(l.p.ZExt(l.p.Bin(OUDiv, x.a, x.b), w), -c*x.b.n, w)
		}
	}
	l.coef[t] = (l.coef[t] + c) & mask(w)
	return true
}

func arith(t *Term) bool {
	return t.op == OAdd || t.op == OSub || t.op == OMul && t.b.isConst() || t.op == OShl && t.b.isConst() || t.op == OBNot || t.op == OURem && t.b.isConst() || t.op == OZExt && t.a.op == OURem
}

// linDiff is a-b as sum + k, provided something cancelled.
func (p *TermPool) linDiff(a, b *Term) (sum *Term, k uint64, ok bool) {
	w := a.w
	if w < 8 || !(arith(a) || arith(b)) {
		return
	}
	l := lin{coef: map[*Term]uint64{}, p: p}
	if !l.add(a, 1, w) {
		return
	}
	na := len(l.coef)
	r := lin{coef: map[*Term]uint64{}, p: p}
	if !r.add(b, 1, w) {
		return
	}
	nb := len(r.coef)
	for t, c := range r.coef {
		l.coef[t] = (l.coef[t] - c) & mask(w)
	}
	l.k = (l.k - r.k) & mask(w)
	var ts []*Term
	for t, c := range l.coef {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) >= na+nb {
		return // nothing cancelled
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	sum = p.Const(w, 0)
	for _, t := range ts {
		c := l.coef[t]
		if c > mask(w)>>1 {
			sum = p.Bin(OSub, sum, p.Bin(OMul, t, p.Const(w, -c)))
		} else {
			sum = p.Bin(OAdd, sum, p.Bin(OMul, t, p.Const(w, c)))
		}
	}
	return sum, l.k, true
}

// linEq simplifies a = b by cancellation; nil when there is nothing to gain.
func (p *TermPool) linEq(a, b *Term) *Term {
	sum, k, ok := p.linDiff(a, b)
	if !ok {
		return nil
	}
	w := a.w
	if sum.isConst() {
		return p.Bool((sum.n+k)&mask(w) == 0)
	}
	return p.mk(OEq, 0, sum, p.Const(w, -k), nil, 0)
}

// linCmp simplifies a < b (a <= b) to 0 < b-a when the known ranges exclude
// that b-a, added to a, overflows.
func (p *TermPool) linCmp(op Op, a, b *Term) *Term {
	sum, k, ok := p.linDiff(b, a)
	if !ok {
		return nil
	}
	w := a.w
	d := p.Bin(OAdd, sum, p.Const(w, k))
	dl, dh, ok := p.rng(d).srange(w)
	if !ok {
		return nil
	}
	if op == OSlt || op == OSle {
		al, ah, ok := p.rng(a).srange(w)
		smin, smax := sext(uint64(1)<<(w-1), w), int64(mask(w)>>1)
		if !ok || dl < 0 && al < smin-dl || dh > 0 && ah > smax-dh {
			return nil
		}
	} else {
		al, ah, ok := p.rng(a).urange(w)
		if !ok || dl < 0 && al < uint64(-dl) || dh > 0 && ah > mask(w)-uint64(dh) {
			return nil
		}
	}
	if op == OUlt {
		op = OSlt
	} else if op == OUle {
		op = OSle
	}
	return p.Cmp(op, p.Const(w, 0), d)
}

// split writes a as c*x + r with 0 <= r (and r as small as the ranges show),
// without overflow; ok is false when that does not simplify anything.
func (p *TermPool) split(a *Term, c uint64) (x, r *Term, ok bool) {
	w := a.w
	if !arith(a) || w < 16 || c < 2 || c > 1<<40 {
		return
	}
	l := lin{coef: map[*Term]uint64{}}
	if !l.add(a, 1, w) {
		return
	}
	var ts []*Term
	hit := false
	for t, k := range l.coef {
		if k != 0 {
			ts = append(ts, t)
			hit = hit || k%c == 0
		}
	}
	if !hit {
		return
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	k := l.k & mask(w)
	x, r = p.Const(w, k/c), p.Const(w, k%c)
	for _, t := range ts {
		f := l.coef[t]
		switch neg := -f & mask(w); {
		case f%c == 0:
			x = p.Bin(OAdd, x, p.Bin(OMul, t, p.Const(w, f/c)))
		case f <= mask(w)>>1:
			r = p.Bin(OAdd, r, p.Bin(OMul, t, p.Const(w, f)))
		default:
			r = p.Bin(OSub, r, p.Bin(OMul, t, p.Const(w, neg)))
		}
	}
	rl, rh, okr := p.rng(r).srange(w)
	if !okr || rl < -1<<50 || rh > 1<<50 {
		return
	}
	// move whole multiples of c from r to x, so that r starts within [0, c)
	q := rl / int64(c)
	if rl < 0 && q*int64(c) != rl {
		q--
	}
	if q != 0 {
		r = p.Bin(OSub, r, p.Const(w, uint64(q)*c))
		x = p.Bin(OAdd, x, p.Const(w, uint64(q)))
		rl -= q * int64(c)
		rh -= q * int64(c)
	}
	_, xh, okx := p.rng(x).urange(w)
	if !okx || xh > (mask(w)-uint64(rh))/c {
		return
	}
	return x, r, true
}

// divRem simplifies unsigned division and remainder of a by the constant c;
// nil when there is nothing to gain.
func (p *TermPool) divRem(op Op, a *Term, c uint64) *Term {
	w := a.w
	if x, r, ok := p.split(a, c); ok {
		if op == OURem {
			return p.Bin(OURem, r, p.Const(w, c))
		}
		return p.Bin(OAdd, x, p.Bin(OUDiv, r, p.Const(w, c)))
	}
	lo, hi, ok := p.rng(a).urange(w)
	if !ok {
		return nil
	}
	if lo/c == hi/c {
		q := lo / c
		if op == OUDiv {
			return p.Const(w, q)
		}
		return p.Bin(OSub, a, p.Const(w, q*c))
	}
	n := max(bits.Len64(hi), bits.Len64(c), 8)
	if n+8 <= int(w) {
		return p.ZExt(p.mk(op, uint8(n), p.narrow(a, uint8(n)), p.Const(uint8(n), c), nil, 0), w)
	}
	return nil
}

// narrow is a cut to n bits, for a known to fit.
func (p *TermPool) narrow(a *Term, n uint8) *Term {
	if a.op == OZExt && a.a.w <= n {
		return p.ZExt(a.a, n)
	}
	return p.mk(OExtract, n, a, nil, nil, 0)
}
