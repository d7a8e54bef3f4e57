package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed bit-vector / boolean terms. Width 0 means Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract // n = lo, width = w
	OConcat
	// IEEE floating point over bit patterns (w = 32 or 64)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromS // signed int (a) -> float width w
	OFFromU
	OFToS // float a -> signed int width w, round toward zero
	OFToU
	OFCvt // float a -> float width w
)

var smtName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

type Term struct {
	op      Op
	w       uint8
	isF     bool
	a, b, c *Term
	n       uint64
	id      int32
	sv      int32 // support: -1 none, -2 several, else the only variable id
	emitted uint32
	set     *[4]uint64 // truth set for single-byte-variable boolean terms
	memo    uint64
	memoGen uint32

	rng      iv // see range.go
	rngEpoch uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	n       uint64
}

type Var struct {
	name string
	w    uint8
	t    *Term
}

type TermPool struct {
	tab    map[tkey]*Term
	bytes  [256]*Term
	True   *Term
	False  *Term
	nextID int32
	vars   []Var
	gen    uint32
	rng    func(*Term) iv // ranges under the current path condition, if known
}

func NewPool() *TermPool {
	p := &TermPool{tab: map[tkey]*Term{}}
	p.True = &Term{op: OConst, n: 1, id: 1, sv: -1}
	p.False = &Term{op: OConst, n: 0, id: 2, sv: -1}
	p.nextID = 3
	for i := range p.bytes {
		p.bytes[i] = &Term{op: OConst, w: 8, n: uint64(i), id: p.nextID, sv: -1}
		p.nextID++
	}
	return p
}

// Reset forgets every non-constant term (start of a new path).
func (p *TermPool) Reset() {
	clear(p.tab)
	p.vars = p.vars[:0]
	p.nextID = 300
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (p *TermPool) Const(w uint8, n uint64) *Term {
	if w == 0 {
		if n != 0 {
			return p.True
		}
		return p.False
	}
	n &= mask(w)
	if w == 8 {
		return p.bytes[n]
	}
	return p.mk(OConst, w, nil, nil, nil, n)
}

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.True
	}
	return p.False
}

func (p *TermPool) NewVar(name string, w uint8) *Term {
	id := len(p.vars)
	t := p.mk(OVar, w, nil, nil, nil, uint64(id))
	t.sv = int32(id)
	p.vars = append(p.vars, Var{name, w, t})
	return t
}

func joinSV(a, b int32) int32 {
	if a == -1 {
		return b
	}
	if b == -1 || a == b {
		return a
	}
	return -2
}

func (p *TermPool) mk(op Op, w uint8, a, b, c *Term, n uint64) *Term {
	k := tkey{op, w, a, b, c, n}
	if t, ok := p.tab[k]; ok {
		return t
	}
	sv := int32(-1)
	if a != nil {
		sv = a.sv
		if b != nil {
			sv = joinSV(sv, b.sv)
		}
		if c != nil {
			sv = joinSV(sv, c.sv)
		}
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, n: n, id: p.nextID, sv: sv}
	p.nextID++
	p.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (p *TermPool) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return p.Bool(a.n == 0)
	case ONot:
		return a.a
	}
	return p.mk(ONot, 0, a, nil, nil, 0)
}

func (p *TermPool) And(a, b *Term) *Term {
	if a.isConst() {
		if a.n == 0 {
			return p.False
		}
		return b
	}
	if b.isConst() {
		if b.n == 0 {
			return p.False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return p.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OAnd, 0, a, b, nil, 0)
}

func (p *TermPool) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.n != 0 {
			return p.True
		}
		return b
	}
	if b.isConst() {
		if b.n != 0 {
			return p.True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return p.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OOr, 0, a, b, nil, 0)
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.n != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.n != 0 {
				return c
			}
			return p.Not(c)
		}
		if a.isConst() {
			if a.n != 0 {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.isConst() {
			if b.n != 0 {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	if c.op == ONot {
		return p.Ite(c.a, b, a)
	}
	// ite(c, x, ite(c, y, z)) = ite(c, x, z)
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return p.mk(OIte, a.w, c, a, b, 0)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.True
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.n == b.n)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.n != 0 {
				return a
			}
			return p.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return p.False
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.n > mask(a.a.w) {
				return p.False
			}
			return p.Eq(a.a, p.Const(a.a.w, b.n))
		case OSExt:
			lo := b.n & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.n {
				return p.False
			}
			return p.Eq(a.a, p.Const(a.a.w, lo))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return p.Ite(a.a, p.Eq(a.b, b), p.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(a.w, b.n-a.b.n))
			}
		case OSub:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(a.w, b.n+a.b.n))
			}
		case OBXor:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(a.w, b.n^a.b.n))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if !b.isConst() {
		if t := p.linEq(a, b); t != nil {
			return t
		}
	}
	return p.mk(OEq, 0, a, b, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func commut(op Op) bool {
	return op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor
}

func (p *TermPool) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return p.Const(w, evalBin(op, w, a.n, b.n))
	}
	if commut(op) && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if b.n == 0 {
				return a
			}
			if (op == OShl || op == OLShr) && b.n >= uint64(w) {
				return p.Const(w, 0)
			}
			if op == OBOr && b.n == mask(w) {
				return b
			}
		case OMul:
			if b.n == 0 {
				return b
			}
			if b.n == 1 {
				return a
			}
		case OBAnd:
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
			if a.op == OZExt && b.n&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OUDiv, OSDiv:
			if b.n == 1 {
				return a
			}
		}
		if op == OSub {
			op, b = OAdd, p.Const(w, -b.n)
		}
		if op == OAdd && a.op == OAdd && a.b.isConst() {
			return p.Bin(OAdd, a.a, p.Const(w, a.b.n+b.n))
		}
		if op == OBAnd && a.op == OBAnd && a.b.isConst() {
			return p.Bin(OBAnd, a.a, p.Const(w, a.b.n&b.n))
		}
		// push through ite with constant arms
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return p.Ite(a.a, p.Bin(op, a.b, b), p.Bin(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return p.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if a.isConst() && a.n == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	// constants of sums and products go outside
	if op == OAdd && !b.isConst() {
		if b.op == OAdd && b.b.isConst() {
			return p.Bin(OAdd, p.Bin(OAdd, a, b.a), b.b)
		}
		if a.op == OAdd && a.b.isConst() {
			return p.Bin(OAdd, p.Bin(OAdd, a.a, b), a.b)
		}
	}
	if op == OSub && b.op == OAdd && b.b.isConst() {
		return p.Bin(OAdd, p.Bin(OSub, a, b.a), p.Const(w, -b.b.n))
	}
	if op == OSub && a.op == OAdd && a.b.isConst() {
		return p.Bin(OAdd, p.Bin(OSub, a.a, b), a.b)
	}
	if op == OMul && b.isConst() && a.op == OAdd && a.b.isConst() {
		return p.Bin(OAdd, p.Bin(OMul, a.a, b), p.Const(w, a.b.n*b.n))
	}
	if p.rng != nil && b.isConst() && b.n != 0 {
		switch op {
		case OLShr:
			if t := p.divRem(OUDiv, a, uint64(1)<<b.n); t != nil {
				return t
			}
		case OUDiv, OURem:
			if t := p.divRem(op, a, b.n); t != nil {
				return t
			}
		case OSDiv, OSRem, OAShr:
			c := b.n
			if op == OAShr {
				c = uint64(1) << c
			}
			if lo, _, ok := p.rng(a).srange(w); ok && lo >= 0 && sext(c, w) > 0 {
				u := OUDiv
				if op == OSRem {
					u = OURem
				}
				return p.Bin(u, a, p.Const(w, c))
			}
		}
	}
	return p.mk(op, w, a, b, nil, 0)
}

func (p *TermPool) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(evalCmp(op, a.w, a.n, b.n))
	}
	if a == b {
		return p.Bool(op == OUle || op == OSle)
	}
	// narrow comparisons of zero-extended values against constants
	if a.op == OZExt && b.isConst() {
		m := mask(a.a.w)
		signedNeg := (op == OSlt || op == OSle) && sext(b.n, b.w) < 0
		if signedNeg {
			return p.False
		}
		if b.n > m {
			return p.True
		}
		if op == OSlt || op == OUlt {
			return p.Cmp(OUlt, a.a, p.Const(a.a.w, b.n))
		}
		return p.Cmp(OUle, a.a, p.Const(a.a.w, b.n))
	}
	if b.op == OZExt && a.isConst() {
		m := mask(b.a.w)
		if (op == OSlt || op == OSle) && sext(a.n, a.w) < 0 {
			return p.True
		}
		if a.n > m {
			return p.False
		}
		if op == OSlt || op == OUlt {
			return p.Cmp(OUlt, p.Const(b.a.w, a.n), b.a)
		}
		return p.Cmp(OUle, p.Const(b.a.w, a.n), b.a)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w && a.w > a.a.w {
		if op == OSlt || op == OUlt {
			return p.Cmp(OUlt, a.a, b.a)
		}
		return p.Cmp(OUle, a.a, b.a)
	}
	if b.isConst() {
		if op == OUlt && b.n == 0 {
			return p.False
		}
		if op == OUle && b.n == mask(b.w) {
			return p.True
		}
	}
	if a.isConst() {
		if op == OUle && a.n == 0 {
			return p.True
		}
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() && b.isConst() || b.op == OIte && b.b.isConst() && b.c.isConst() && a.isConst() {
		if a.op == OIte {
			return p.Ite(a.a, p.Cmp(op, a.b, b), p.Cmp(op, a.c, b))
		}
		return p.Ite(b.a, p.Cmp(op, a, b.b), p.Cmp(op, a, b.c))
	}
	if p.rng != nil && (arith(a) && !a.isConst() && !b.isConst() || arith(b) && !a.isConst()) {
		if t := p.linCmp(op, a, b); t != nil {
			return t
		}
	}
	return p.mk(op, 0, a, b, nil, 0)
}

func (p *TermPool) BNot(a *Term) *Term {
	if a.isConst() {
		return p.Const(a.w, ^a.n)
	}
	if a.op == OBNot {
		return a.a
	}
	return p.mk(OBNot, a.w, a, nil, nil, 0)
}

func (p *TermPool) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return p.Const(w, a.n>>lo)
	}
	switch a.op {
	case OZExt:
		if lo == 0 && w <= a.a.w {
			return p.Extract(a.a, 0, w)
		}
		if lo == 0 {
			return p.ZExt(a.a, w)
		}
		if lo >= a.a.w {
			return p.Const(w, 0)
		}
	case OSExt:
		if lo == 0 && w <= a.a.w {
			return p.Extract(a.a, 0, w)
		}
		if lo == 0 {
			return p.SExt(a.a, w)
		}
	case OExtract:
		return p.Extract(a.a, uint8(a.n)+lo, w)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return p.Ite(a.a, p.Extract(a.b, lo, w), p.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		if lo == 0 && a.b.isConst() {
			return p.Bin(a.op, p.Extract(a.a, 0, w), p.Extract(a.b, 0, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return p.Bin(a.op, p.Extract(a.a, 0, w), p.Extract(a.b, 0, w))
		}
	}
	return p.mk(OExtract, w, a, nil, nil, uint64(lo))
}

func (p *TermPool) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return p.Extract(a, 0, w)
	}
	if a.isConst() {
		return p.Const(w, a.n)
	}
	if a.op == OZExt {
		return p.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return p.Ite(a.a, p.ZExt(a.b, w), p.ZExt(a.c, w))
	}
	if a.op == OExtract && a.n == 0 && a.a.w == w && p.rng != nil {
		if _, hi, ok := p.rng(a.a).urange(w); ok && hi <= mask(a.w) {
			return a.a
		}
	}
	if a.op == OAdd && a.b.isConst() && p.rng != nil {
		// widen the sum when it is known not to wrap around
		c := sext(a.b.n, a.w)
		if lo, hi, ok := p.rng(a.a).urange(a.a.w); ok && hi < 1<<62 && (c < 0 && lo >= uint64(-c) || c >= 0 && hi+uint64(c) <= mask(a.w)) {
			return p.Bin(OAdd, p.ZExt(a.a, w), p.Const(w, uint64(c)))
		}
	}
	return p.mk(OZExt, w, a, nil, nil, 0)
}

func (p *TermPool) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return p.Extract(a, 0, w)
	}
	if a.isConst() {
		return p.Const(w, uint64(sext(a.n, a.w)))
	}
	if a.op == OZExt {
		return p.ZExt(a.a, w)
	}
	if a.op == OSExt {
		return p.SExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return p.Ite(a.a, p.SExt(a.b, w), p.SExt(a.c, w))
	}
	return p.mk(OSExt, w, a, nil, nil, 0)
}

// F builds a floating-point operation (evaluated when constant).
func (p *TermPool) F(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var y uint64
		if b != nil {
			y = b.n
		}
		return p.Const(w, evalF(op, w, a.w, a.n, y))
	}
	return p.mk(op, w, a, b, nil, 0)
}

// Eval evaluates t under the assignment m (values by variable id).
func (p *TermPool) Eval(t *Term, m []uint64) uint64 {
	p.gen++
	return p.eval(t, m)
}

func (p *TermPool) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.n
	case OVar:
		if int(t.n) < len(m) {
			return m[t.n]
		}
		return 0
	}
	if t.memoGen == p.gen {
		return t.memo
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - p.eval(t.a, m)
	case OAnd:
		r = p.eval(t.a, m)
		if r != 0 {
			r = p.eval(t.b, m)
		}
	case OOr:
		r = p.eval(t.a, m)
		if r == 0 {
			r = p.eval(t.b, m)
		}
	case OIte:
		if p.eval(t.a, m) != 0 {
			r = p.eval(t.b, m)
		} else {
			r = p.eval(t.c, m)
		}
	case OEq:
		if p.eval(t.a, m) == p.eval(t.b, m) {
			r = 1
		}
	case OUlt, OUle, OSlt, OSle:
		if evalCmp(t.op, t.a.w, p.eval(t.a, m), p.eval(t.b, m)) {
			r = 1
		}
	case OBNot:
		r = ^p.eval(t.a, m) & mask(t.w)
	case OZExt:
		r = p.eval(t.a, m)
	case OSExt:
		r = uint64(sext(p.eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (p.eval(t.a, m) >> t.n) & mask(t.w)
	case OConcat:
		r = p.eval(t.a, m)<<t.b.w | p.eval(t.b, m)
	default:
		if t.op >= OFAdd {
			var y uint64
			if t.b != nil {
				y = p.eval(t.b, m)
			}
			r = evalF(t.op, t.w, t.a.w, p.eval(t.a, m), y)
		} else {
			r = evalBin(t.op, t.w, p.eval(t.a, m), p.eval(t.b, m))
		}
	}
	t.memo, t.memoGen = r, p.gen
	return r
}

// TruthSet returns, for a boolean term over one 8-bit variable, the set of
// values of that variable that make it true.
func (p *TermPool) TruthSet(t *Term) *[4]uint64 {
	if t.set != nil {
		return t.set
	}
	var s [4]uint64
	switch t.op {
	case ONot:
		a := p.TruthSet(t.a)
		for i := range s {
			s[i] = ^a[i]
		}
	case OAnd:
		a, b := p.TruthSet(t.a), p.TruthSet(t.b)
		for i := range s {
			s[i] = a[i] & b[i]
		}
	case OOr:
		a, b := p.TruthSet(t.a), p.TruthSet(t.b)
		for i := range s {
			s[i] = a[i] | b[i]
		}
	default:
		id := t.sv
		m := make([]uint64, id+1)
		for v := 0; v < 256; v++ {
			m[id] = uint64(v)
			p.gen++
			if p.eval(t, m) != 0 {
				s[v>>6] |= 1 << (v & 63)
			}
		}
	}
	t.set = &s
	return t.set
}

func popcount(s *[4]uint64) int {
	n := 0
	for _, x := range s {
		n += bits.OnesCount64(x)
	}
	return n
}

// Vars collects the variables of t.
func (p *TermPool) Vars(t *Term, f func(id int32)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.sv == -1 || seen[t] {
			return
		}
		if t.sv >= 0 {
			f(t.sv)
			return
		}
		seen[t] = true
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.n != 0)
		} else {
			fmt.Fprintf(sb, "%d", t.n)
		}
		return
	case OVar:
		fmt.Fprintf(sb, "v%d", t.n)
		return
	}
	if d == 0 {
		sb.WriteString("..")
		return
	}
	fmt.Fprintf(sb, "(%s", opName(t.op))
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}

func opName(o Op) string {
	if s, ok := smtName[o]; ok {
		return s
	}
	return fmt.Sprintf("op%d", o)
}
