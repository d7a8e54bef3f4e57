package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) binop(op token.Token, xt, yt types.Type) func(x, y V) V {
	p := in.p
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// comparisons against nil carry the other operand's type
		t := xt
		if b, ok := xt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			t = yt
		}
		b, isB := t.Underlying().(*types.Basic)
		if isB && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			w := width(b)
			return func(x, y V) V {
				if x.o == nil && y.o == nil {
					return cbool((x.n == y.n) != neg)
				}
				r := p.Eq(in.term2(x, w), in.term2(y, w))
				if neg {
					r = p.Not(r)
				}
				return tv(r)
			}
		}
		return func(x, y V) V {
			r := in.eqVal(x, y, t)
			if neg {
				r = p.Not(r)
			}
			return tv(r)
		}
	}
	b, ok := xt.Underlying().(*types.Basic)
	if !ok {
		return func(x, y V) V { in.abort("binop on " + xt.String()); return V{} }
	}
	info := b.Info()
	w := width(b)
	switch {
	case info&types.IsString != 0:
		switch op {
		case token.ADD:
			return func(x, y V) V { return in.concat(x, y) }
		case token.LSS:
			return func(x, y V) V { return tv(in.strLess(x, y, false)) }
		case token.LEQ:
			return func(x, y V) V { return tv(in.strLess(x, y, true)) }
		case token.GTR:
			return func(x, y V) V { return tv(in.strLess(y, x, false)) }
		case token.GEQ:
			return func(x, y V) V { return tv(in.strLess(y, x, true)) }
		}
	case info&types.IsFloat != 0:
		var o Op
		swap := false
		switch op {
		case token.ADD:
			o = OFAdd
		case token.SUB:
			o = OFSub
		case token.MUL:
			o = OFMul
		case token.QUO:
			o = OFDiv
		case token.LSS:
			o = OFLt
		case token.LEQ:
			o = OFLe
		case token.GTR:
			o, swap = OFLt, true
		case token.GEQ:
			o, swap = OFLe, true
		}
		rw := w
		if o == OFLt || o == OFLe {
			rw = 0
		}
		return func(x, y V) V {
			if swap {
				x, y = y, x
			}
			if x.o == nil && y.o == nil {
				return V{n: evalF(o, rw, w, x.n, y.n)}
			}
			return tv(p.F(o, rw, in.term(x, w), in.term(y, w)))
		}
	case info&types.IsComplex != 0:
		return func(x, y V) V {
			a, c := x.o.(complex128), y.o.(complex128)
			switch op {
			case token.ADD:
				return V{o: a + c}
			case token.SUB:
				return V{o: a - c}
			case token.MUL:
				return V{o: a * c}
			case token.QUO:
				return V{o: a / c}
			}
			in.abort("complex op")
			return V{}
		}
	case info&types.IsInteger != 0:
		sg := isSigned(b)
		switch op {
		case token.SHL, token.SHR:
			yb := yt.Underlying().(*types.Basic)
			yw := width(yb)
			ysg := isSigned(yb)
			o := OShl
			if op == token.SHR {
				o = OLShr
				if sg {
					o = OAShr
				}
			}
			return func(x, y V) V {
				if x.o == nil && y.o == nil {
					k := y.n
					if ysg {
						s := sext(y.n, yw)
						if s < 0 {
							in.rtPanic("negative shift amount")
						}
						k = uint64(s)
					}
					return V{n: evalBin(o, w, x.n, k)}
				}
				ty := in.term(y, yw)
				if ysg && !ty.isConst() {
					if in.decide(p.Cmp(OSlt, ty, p.Const(yw, 0))) {
						in.rtPanic("negative shift amount")
					}
				}
				tx := in.term(x, w)
				if yw > w {
					big := p.Cmp(OUle, p.Const(yw, uint64(w)), ty)
					var ov *Term
					if o == OAShr {
						ov = p.Bin(o, tx, p.Const(w, uint64(w-1)))
					} else {
						ov = p.Const(w, 0)
					}
					return tv(p.Ite(big, ov, p.Bin(o, tx, p.Extract(ty, 0, w))))
				}
				return tv(p.Bin(o, tx, p.ZExt(ty, w)))
			}
		case token.QUO, token.REM:
			var o Op
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case sg:
				o = OSRem
			default:
				o = OURem
			}
			return func(x, y V) V {
				if y.o == nil {
					if y.n == 0 {
						in.rtPanic("integer divide by zero")
					}
					if x.o == nil {
						return V{n: evalBin(o, w, x.n, y.n)}
					}
				} else {
					ty := in.term(y, w)
					if in.decide(p.Eq(ty, p.Const(w, 0))) {
						in.rtPanic("integer divide by zero")
					}
				}
				return tv(in.divTerm(o, in.term(x, w), in.term(y, w)))
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			o := OUlt
			if sg {
				o = OSlt
			}
			if op == token.LEQ || op == token.GEQ {
				o++
			}
			swap := op == token.GTR || op == token.GEQ
			return func(x, y V) V {
				if swap {
					x, y = y, x
				}
				if x.o == nil && y.o == nil {
					return cbool(evalCmp(o, w, x.n, y.n))
				}
				return tv(p.Cmp(o, in.term(x, w), in.term(y, w)))
			}
		case token.AND_NOT:
			return func(x, y V) V {
				if x.o == nil && y.o == nil {
					return V{n: x.n &^ y.n}
				}
				return tv(p.Bin(OBAnd, in.term(x, w), p.BNot(in.term(y, w))))
			}
		}
		var o Op
		switch op {
		case token.ADD:
			o = OAdd
		case token.SUB:
			o = OSub
		case token.MUL:
			o = OMul
		case token.AND:
			o = OBAnd
		case token.OR:
			o = OBOr
		case token.XOR:
			o = OBXor
		}
		uptr := b.Kind() == types.Uintptr
		return func(x, y V) V {
			if x.o == nil && y.o == nil {
				return V{n: evalBin(o, w, x.n, y.n)}
			}
			if uptr && !isSym(x) && y.o == nil && y.n == 0 {
				return x
			}
			return tv(p.Bin(o, in.term(x, w), in.term(y, w)))
		}
	case info&types.IsBoolean != 0:
		return func(x, y V) V {
			a, c := in.term(x, 0), in.term(y, 0)
			if op == token.AND || op == token.LAND {
				return tv(p.And(a, c))
			}
			return tv(p.Or(a, c))
		}
	}
	return func(x, y V) V { in.abort("binop " + op.String() + " on " + xt.String()); return V{} }
}

// divTerm encodes a division by a constant through a quotient variable where
// that is cheaper for the solver; the plain operator otherwise.
func (in *Interp) divTerm(o Op, x, y *Term) *Term {
	return in.p.Bin(o, x, y)
}

// term2 tolerates opaque non-term scalars (pointers in uintptrs).
func (in *Interp) term2(v V, w uint8) *Term { return in.term(v, w) }

func (in *Interp) convert(from, to types.Type) func(v V) V {
	p := in.p
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := from.(*types.TypeParam); ok {
		_ = tp
		return func(v V) V { in.abort("type parameter conversion"); return v }
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return func(v V) V { return v }
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return func(v V) V {
				if v.o == nil {
					r := sext(v.n, width(fb))
					if !isSigned(fb) {
						r = int64(v.n)
						if v.n > 1<<32 {
							r = -1
						}
					}
					if r > 0x10ffff || r < 0 {
						r = 0xfffd
					}
					return cstr(string(rune(r)))
				}
				t := in.term(v, width(fb))
				if t.w < 32 {
					if isSigned(fb) {
						t = p.SExt(t, 32)
					} else {
						t = p.ZExt(t, 32)
					}
				} else if t.w > 32 {
					t = p.Extract(t, 0, 32)
				}
				if in.decide(p.Cmp(OUlt, t, p.Const(32, 0x80))) {
					return mkStr([]*Term{p.Extract(t, 0, 8)})
				}
				s := in.callFn(in.pkgFunc("unicode/utf8", "AppendRune"), []V{{}, tv(t)})
				return in.sliceToStr(s)
			}
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			fw, tw := width(fb), width(tb)
			sg := isSigned(fb)
			return func(v V) V {
				if v.o == nil {
					n := v.n
					if sg && tw > fw {
						n = uint64(sext(n, fw))
					}
					return V{n: n & mask(tw)}
				}
				t, ok := v.o.(*Term)
				if !ok {
					return v
				}
				if sg {
					return tv(p.SExt(t, tw))
				}
				return tv(p.ZExt(t, tw))
			}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			fw, tw := width(fb), width(tb)
			o := OFFromU
			if isSigned(fb) {
				o = OFFromS
			}
			return func(v V) V { return tv(p.F(o, tw, in.term(v, fw), nil)) }
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			fw, tw := width(fb), width(tb)
			o := OFToU
			if isSigned(tb) {
				o = OFToS
			}
			return func(v V) V {
				t := in.term(v, fw)
				if !t.isConst() && tw < 64 {
					r := p.F(o, 64, t, nil)
					return tv(p.Extract(r, 0, tw))
				}
				if t.isConst() && tw < 64 {
					return V{n: evalF(OFToS, 64, fw, t.n, 0) & mask(tw)}
				}
				return tv(p.F(o, tw, t, nil))
			}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			fw, tw := width(fb), width(tb)
			return func(v V) V {
				if fw == tw {
					return v
				}
				return tv(p.F(OFCvt, tw, in.term(v, fw), nil))
			}
		case fi&types.IsComplex != 0 || fi&types.IsBoolean != 0:
			return func(v V) V { return v }
		}
		// uintptr <-> unsafe.Pointer
		return func(v V) V { return v }
	}
	if fok && fb.Info()&types.IsString != 0 {
		if ts, ok := tu.(*types.Slice); ok {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte {
				return func(v V) V { return in.strToSlice(v) }
			}
			return func(v V) V {
				var rs []V
				n := strLen(v)
				for i := 0; i < n; {
					r, sz := in.decodeRune(v, i)
					rs = append(rs, r)
					i += sz
				}
				return in.sliceOf(rs)
			}
		}
	}
	if fs, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		eb := fs.Elem().Underlying().(*types.Basic)
		if eb.Kind() == types.Byte {
			return func(v V) V { return in.sliceToStr(v) }
		}
		one := in.convert(types.Typ[types.Rune], types.Typ[types.String])
		return func(v V) V {
			r := V{o: ""}
			s, _ := v.o.(*Slice)
			if s == nil {
				return r
			}
			for i := 0; i < s.len; i++ {
				r = in.concat(r, one(s.a.e[s.off+i]))
			}
			return r
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if ta, ok := tu.(*types.Array); ok {
			_ = fs
			n := int(ta.Len())
			return func(v V) V {
				if sliceLen(v) < n {
					in.rtPanic("cannot convert slice to array")
				}
				a := in.newAgg(n)
				s, _ := v.o.(*Slice)
				for i := 0; i < n; i++ {
					a.e[i] = in.copyVal(s.a.e[s.off+i])
				}
				return V{o: AV{a}}
			}
		}
	}
	return func(v V) V { return v }
}

func (cc *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon) func(fr *frame, as []V) V {
	in := cc.in
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return func(fr *frame, as []V) V { return cint(strLen(as[0])) }
		case *types.Slice:
			return func(fr *frame, as []V) V {
				s, _ := as[0].o.(*Slice)
				if s == nil {
					return V{}
				}
				if isCap {
					return cint(s.cap)
				}
				return cint(s.len)
			}
		case *types.Map:
			return func(fr *frame, as []V) V {
				m, _ := as[0].o.(*Map)
				if m == nil {
					return V{}
				}
				return cint(m.n)
			}
		case *types.Chan:
			return func(fr *frame, as []V) V {
				m, _ := as[0].o.(*Chan)
				if m == nil {
					return V{}
				}
				if isCap {
					return cint(m.cap)
				}
				return cint(len(m.buf))
			}
		case *types.Array:
			n := int(u.Len())
			return func(fr *frame, as []V) V { return cint(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *frame, as []V) V { return cint(n) }
		}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		strArg := false
		if len(c.Args) > 1 {
			if bb, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
				strArg = true
			}
		}
		return func(fr *frame, as []V) V {
			if len(as) < 2 {
				return as[0]
			}
			add := as[1]
			if strArg {
				if strLen(add) == 0 {
					return as[0]
				}
				add = in.strToSlice(add)
			}
			return in.appendSlice(as[0], add, st.Elem())
		}
	case "copy":
		return func(fr *frame, as []V) V {
			d, _ := as[0].o.(*Slice)
			if d == nil {
				return V{}
			}
			src := as[1]
			if _, ok := src.o.(*Slice); !ok && src.o != nil {
				src = in.strToSlice(src)
			}
			s, _ := src.o.(*Slice)
			if s == nil {
				return V{}
			}
			n := min(d.len, s.len)
			in.copyCells(d.a, d.off, s.a, s.off, n)
			return cint(n)
		}
	case "delete":
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *frame, as []V) V {
			m, _ := as[0].o.(*Map)
			in.mapDelete(m, as[1], kt)
			return V{}
		}
	case "clear":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return func(fr *frame, as []V) V {
				m, _ := as[0].o.(*Map)
				in.mapClear(m)
				return V{}
			}
		case *types.Slice:
			return func(fr *frame, as []V) V {
				if s, _ := as[0].o.(*Slice); s != nil {
					for i := 0; i < s.len; i++ {
						in.assignInto(s.a, s.off+i, in.zero(u.Elem()))
					}
				}
				return V{}
			}
		}
	case "close":
		return func(fr *frame, as []V) V {
			ch, _ := as[0].o.(*Chan)
			if ch == nil || ch.closed {
				in.rtPanic("close of closed channel")
			}
			in.touchChan(ch)
			ch.closed = true
			return V{}
		}
	case "panic":
		return func(fr *frame, as []V) V {
			if in.spec {
				panic(specFail{})
			}
			panic(&targetPanic{as[0], in.panicMsg(as[0]), in.here()})
		}
	case "recover":
		return func(fr *frame, as []V) V {
			if fr.deferOf != nil && fr.deferOf.panicking != nil {
				tp := fr.deferOf.panicking
				fr.deferOf.panicking = nil
				return tp.v
			}
			return V{}
		}
	case "print", "println":
		return func(fr *frame, as []V) V { return V{} }
	case "min", "max":
		t := c.Args[0].Type()
		isMin := b.Name() == "min"
		less := in.binop(token.LSS, t, t)
		return func(fr *frame, as []V) V {
			r := as[0]
			for _, a := range as[1:] {
				l := less(a, r)
				if bb, ok := t.Underlying().(*types.Basic); ok && l.o != nil && bb.Info()&types.IsInteger != 0 {
					w := width(bb)
					x, y := in.term(a, w), in.term(r, w)
					if isMin {
						r = tv(in.p.Ite(l.o.(*Term), x, y))
					} else {
						r = tv(in.p.Ite(l.o.(*Term), y, x))
					}
					continue
				}
				lt := l.n != 0
				if l.o != nil {
					lt = in.decide(l.o.(*Term))
				}
				if lt == isMin {
					if isMin || lt {
						r = a
					}
				} else if !isMin && !lt {
					// max: a >= r
					r = a
				}
			}
			return r
		}
	case "real", "imag", "complex":
		nm := b.Name()
		return func(fr *frame, as []V) V {
			switch nm {
			case "real":
				return V{n: math.Float64bits(real(as[0].o.(complex128)))}
			case "imag":
				return V{n: math.Float64bits(imag(as[0].o.(complex128)))}
			}
			return V{o: complex(math.Float64frombits(as[0].n), math.Float64frombits(as[1].n))}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, as []V) V {
			if as[0].o == nil {
				in.rtPanic("value method called using nil pointer")
			}
			return as[0]
		}
	case "String": // unsafe.String
		return func(fr *frame, as []V) V {
			n := int(in.concreteInt(as[1]))
			if n == 0 {
				return V{o: ""}
			}
			a, ok := as[0].o.(*Agg)
			if !ok {
				in.abort("unsafe.String")
			}
			return in.sliceToStr(V{o: &Slice{a, int(as[0].n), n, n}})
		}
	case "StringData":
		return func(fr *frame, as []V) V {
			if strLen(as[0]) == 0 {
				return V{}
			}
			return V{o: in.strToSlice(as[0]).o.(*Slice).a}
		}
	case "SliceData":
		return func(fr *frame, as []V) V {
			s, _ := as[0].o.(*Slice)
			if s == nil {
				return V{}
			}
			return V{n: uint64(s.off), o: s.a}
		}
	case "Slice": // unsafe.Slice
		return func(fr *frame, as []V) V {
			n := int(in.concreteInt(as[1]))
			a, ok := as[0].o.(*Agg)
			if !ok {
				if n == 0 {
					return V{}
				}
				in.abort("unsafe.Slice")
			}
			return V{o: &Slice{a, int(as[0].n), n, n}}
		}
	}
	nm := b.Name()
	return func(fr *frame, as []V) V { in.abort("builtin " + nm); return V{} }
}

func (in *Interp) copyCells(da *Agg, doff int, sa *Agg, soff, n int) {
	if n == 0 {
		return
	}
	if da.ep == in.ep {
		simple := true
		for i := 0; i < n; i++ {
			if _, ok := sa.e[soff+i].o.(AV); ok {
				simple = false
				break
			}
		}
		if simple {
			copy(da.e[doff:doff+n], sa.e[soff:soff+n])
			return
		}
	}
	if da == sa && doff > soff {
		for i := n - 1; i >= 0; i-- {
			in.assignInto(da, doff+i, sa.e[soff+i])
		}
		return
	}
	for i := 0; i < n; i++ {
		in.assignInto(da, doff+i, sa.e[soff+i])
	}
}

func (in *Interp) appendSlice(x, add V, et types.Type) V {
	s, _ := x.o.(*Slice)
	t, _ := add.o.(*Slice)
	if t == nil || t.len == 0 {
		return x
	}
	ln, cp := 0, 0
	if s != nil {
		ln, cp = s.len, s.cap
	}
	n := ln + t.len
	if n <= cp {
		in.copyCells(s.a, s.off+ln, t.a, t.off, t.len)
		return V{o: &Slice{s.a, s.off, n, cp}}
	}
	// Go growth: double, exact when larger (size classes approximated)
	nc := growCap(cp, n, in.elemSize(et))
	a := in.newAgg(nc)
	if s != nil {
		for i := 0; i < ln; i++ {
			a.e[i] = in.copyVal(s.a.e[s.off+i])
		}
	}
	for i := 0; i < t.len; i++ {
		a.e[ln+i] = in.copyVal(t.a.e[t.off+i])
	}
	z := in.zero(et)
	if _, ok := z.o.(AV); ok {
		for i := n; i < nc; i++ {
			a.e[i] = in.zero(et)
		}
	} else if z.o != nil {
		for i := n; i < nc; i++ {
			a.e[i] = z
		}
	}
	return V{o: &Slice{a, 0, n, nc}}
}

func (in *Interp) elemSize(t types.Type) int {
	defer func() { recover() }()
	return int(in.sizes.Sizeof(t))
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, es int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es <= 0 {
		return nc
	}
	sz := nc * es
	if sz <= 32768 {
		for _, c := range sizeClasses {
			if c >= sz {
				return c / es
			}
		}
	}
	return (sz + 8191) / 8192 * 8192 / es
}

// ---- merging of branches (veritesting-style if-conversion)

type mergeIf struct{ join int }

// specRun executes block code without side effects; false if impossible.
func (in *Interp) specRun(fr *frame, b *cblock) (ok bool) {
	if b.pure == 0 {
		b.pure = 1
		if len(b.code) > 12 || b.term == nil {
			b.pure = -1
		}
		for _, ins := range b.sb.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.DebugRef, *ssa.Extract:
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW {
					b.pure = -1
				}
			case *ssa.Lookup:
				if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
					b.pure = -1
				}
			case *ssa.Call:
				bi, isB := x.Call.Value.(*ssa.Builtin)
				if !isB || bi.Name() != "len" && bi.Name() != "cap" {
					b.pure = -1
				}
			default:
				b.pure = -1
			}
		}
	}
	if b.pure < 0 {
		return false
	}
	if len(b.code) == 0 {
		return true
	}
	in.spec = true
	defer func() {
		in.spec = false
		if !ok {
			if r := recover(); r != nil {
				if _, is := r.(specFail); is {
					b.nspec++
					if b.nspec > 50 {
						b.pure = -1
					}
					return
				}
				panic(r)
			}
		}
	}()
	for _, f := range b.code {
		f(fr)
	}
	return true
}

type medge struct {
	from int
	cond *Term
}

// tryMerge explores the acyclic side-effect-free region below a symbolic
// branch. When all its exits reach at most one block per... see below: it
// succeeds when the region has a single exit (values merged by ite), or two
// exits that agree on their phi inputs or can be merged per exit (then one
// fork decides between the exits).
func (in *Interp) tryMerge(fr *frame, b *cblock, cond *Term) (int, bool) {
	if in.noMerge || in.spec {
		return 0, false
	}
	t, f := b.sb.Succs[0].Index, b.sb.Succs[1].Index
	blocks := fr.fn.blocks
	in.edges = in.edges[:0]
	exits := map[int][]medge{}
	order := []int{}
	n := 0
	var walk func(from, to int, c *Term, d int) bool
	inc := map[int][]medge{}
	inRegion := map[int]bool{b.sb.Index: true}
	expand := map[int]bool{}
	_ = expand
	walk = func(from, to int, c *Term, d int) bool {
		nb := blocks[to]
		// a block joins the region when all its predecessors are in it
		inc[to] = append(inc[to], medge{from, c})
		all := len(nb.preds) > 0 && to != b.sb.Index
		for _, p := range nb.preds {
			if !inRegion[p] {
				all = false
			}
		}
		if all {
			// every predecessor edge has arrived?
			if len(inc[to]) < len(nb.preds) {
				return true
			}
		}
		if !all || d > 8 || n > 10 || !in.canSpec(nb) {
			return true
		}
		// values of phis
		es := inc[to]
		bc := in.p.False
		for _, e := range es {
			bc = in.p.Or(bc, e.cond)
		}
		if len(nb.phis) > 0 {
			vals, ok := in.mergePhis(fr, nb, es)
			if !ok {
				return true
			}
			for i := range nb.phis {
				fr.regs[nb.phis[i].dst] = vals[i]
			}
		}
		if !in.specRun(fr, nb) {
			return true
		}
		n++
		inRegion[to] = true
		delete(inc, to)
		order = append(order, to)
		if nb.isIf {
			cv := nb.cond.get(fr)
			ct := in.term(cv, 0)
			tt, ff := nb.sb.Succs[0].Index, nb.sb.Succs[1].Index
			if ct.isConst() {
				// only one side is taken; the other edge has a false condition
				if ct.n != 0 {
					return walk(to, tt, bc, d+1) && walk(to, ff, in.p.False, d+1)
				}
				return walk(to, ff, bc, d+1) && walk(to, tt, in.p.False, d+1)
			}
			return walk(to, tt, in.p.And(bc, ct), d+1) && walk(to, ff, in.p.And(bc, in.p.Not(ct)), d+1)
		}
		return walk(to, nb.sb.Succs[0].Index, bc, d+1)
	}
	walk(b.sb.Index, t, cond, 0)
	walk(b.sb.Index, f, in.p.Not(cond), 0)
	_ = exits
	_ = order
	if n == 0 && t != f && len(inc) == 2 {
		return 0, false
	}
	// drop impossible edges
	type ex struct {
		to int
		es []medge
		c  *Term
	}
	var xs []ex
	for to, es := range inc {
		x := ex{to: to, c: in.p.False}
		for _, e := range es {
			if e.cond.isConst() && e.cond.n == 0 {
				continue
			}
			x.es = append(x.es, e)
			x.c = in.p.Or(x.c, e.cond)
		}
		if len(x.es) > 0 {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 || len(xs) > 4 {
		return 0, false
	}
	for i := range xs {
		for j := i + 1; j < len(xs); j++ {
			if xs[j].to < xs[i].to {
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
	}
	// every exit's phis must be mergeable
	merged := make([][]V, len(xs))
	for i, x := range xs {
		vals, ok := in.mergePhis(fr, blocks[x.to], x.es)
		if !ok {
			return 0, false
		}
		merged[i] = vals
	}
	k := 0
	for k < len(xs)-1 {
		if in.decide(xs[k].c) {
			break
		}
		k++
	}
	if len(blocks[xs[k].to].phis) > 0 {
		in.merged = merged[k]
	} else {
		in.merged = nil
	}
	in.nMerges++
	return xs[k].to, true
}

func (in *Interp) canSpec(b *cblock) bool { return b.pure >= 0 && len(b.code) <= 12 }

func (in *Interp) mergePhis(fr *frame, nb *cblock, es []medge) ([]V, bool) {
	if len(nb.phis) == 0 {
		return nil, true
	}
	out := make([]V, len(nb.phis))
	for i := range nb.phis {
		ph := &nb.phis[i]
		var w uint8
		scalar := false
		if b, ok := ph.t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 {
			w, scalar = width(b), true
		}
		var acc V
		for j := len(es) - 1; j >= 0; j-- {
			pi := -1
			for q, p := range nb.preds {
				if p == es[j].from {
					pi = q
				}
			}
			if pi < 0 {
				return nil, false
			}
			v := ph.edges[pi].get(fr)
			if j == len(es)-1 {
				acc = v
				continue
			}
			if sameV(acc, v) {
				continue
			}
			if !scalar {
				if sa, oka := concStr(acc); oka {
					if sb, okb := concStr(v); okb && sa == sb {
						continue
					}
				}
				return nil, false
			}
			if v.o != nil && !isSym(v) || acc.o != nil && !isSym(acc) {
				return nil, false
			}
			acc = tv(in.p.Ite(es[j].cond, in.term(v, w), in.term(acc, w)))
		}
		out[i] = acc
	}
	return out, true
}

func sameV(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.o.(type) {
	case nil:
		return b.o == nil
	case string:
		y, ok := b.o.(string)
		return ok && x == y
	case *Term:
		return b.o == a.o
	case *Agg:
		y, ok := b.o.(*Agg)
		return ok && x == y
	case *SStr:
		y, ok := b.o.(*SStr)
		return ok && x == y
	case *Slice:
		y, ok := b.o.(*Slice)
		return ok && *x == *y
	case *Iface:
		y, ok := b.o.(*Iface)
		return ok && (x == y || x.t == y.t && sameV(x.v, y.v))
	case *Map:
		y, ok := b.o.(*Map)
		return ok && x == y
	case []V:
		return false
	case AV:
		y, ok := b.o.(AV)
		return ok && x.a == y.a
	}
	return false
}

var _ = fmt.Sprint
