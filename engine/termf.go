package main

import "math"

func evalF(op Op, w, aw uint8, x, y uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	if op == OFFromS || op == OFFromU {
		if w == 32 {
			if op == OFFromS {
				return uint64(math.Float32bits(float32(sext(x, aw))))
			}
			return uint64(math.Float32bits(float32(x)))
		}
		if op == OFFromS {
			return math.Float64bits(float64(sext(x, aw)))
		}
		return math.Float64bits(float64(x))
	}
	if aw == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		f := func(r float32) uint64 { return uint64(math.Float32bits(r)) }
		switch op {
		case OFAdd:
			return f(a + b)
		case OFSub:
			return f(a - b)
		case OFMul:
			return f(a * b)
		case OFDiv:
			return f(a / b)
		case OFNeg:
			return x ^ 1<<31
		case OFEq:
			return b2u(a == b)
		case OFLt:
			return b2u(a < b)
		case OFLe:
			return b2u(a <= b)
		case OFToS:
			return uint64(f2s(float64(a))) & mask(w)
		case OFToU:
			return f2u(float64(a)) & mask(w)
		case OFCvt:
			if w == 64 {
				return math.Float64bits(float64(a))
			}
			return x
		}
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	f := math.Float64bits
	switch op {
	case OFAdd:
		return f(a + b)
	case OFSub:
		return f(a - b)
	case OFMul:
		return f(a * b)
	case OFDiv:
		return f(a / b)
	case OFNeg:
		return x ^ 1<<63
	case OFEq:
		return b2u(a == b)
	case OFLt:
		return b2u(a < b)
	case OFLe:
		return b2u(a <= b)
	case OFToS:
		return uint64(f2s(a)) & mask(w)
	case OFToU:
		return f2u(a) & mask(w)
	case OFCvt:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return x
	}
	panic("evalF")
}

// amd64 conversion semantics
func f2s(a float64) int64  { return int64(a) }
func f2u(a float64) uint64 { return uint64(a) }
