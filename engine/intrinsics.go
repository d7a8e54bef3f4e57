package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(in *Interp, fr *frame, a []V) (V, bool)

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

const symPkg = "verif/harness/sym."

func nop(in *Interp, fr *frame, a []V) (V, bool) { return V{}, true }

func (in *Interp) symInput(kind string, w uint8) *Term {
	t := in.newVar("i", w)
	in.inputs = append(in.inputs, Input{kind: kind, t: t, w: w})
	return t
}

func (in *Interp) allConc(a []V) bool {
	for _, v := range a {
		if !conc(v) {
			return false
		}
	}
	return true
}

func conc(v V) bool {
	switch o := v.o.(type) {
	case *Term, *SStr:
		return false
	case *Slice:
		for i := 0; i < o.len; i++ {
			if !conc(o.a.e[o.off+i]) {
				return false
			}
		}
	}
	return true
}

func (in *Interp) concBytes(v V) ([]byte, bool) {
	s, _ := v.o.(*Slice)
	if s == nil {
		return nil, true
	}
	b := make([]byte, s.len)
	for i := range b {
		c := s.a.e[s.off+i]
		if c.o != nil {
			return nil, false
		}
		b[i] = byte(c.n)
	}
	return b, true
}

// bytes of a string or byte slice
func (in *Interp) byteTerms(v V) []*Term {
	switch v.o.(type) {
	case string, *SStr:
		return in.strTerms(v)
	}
	return in.sliceTerms(v)
}

func (in *Interp) indexTerms(h, n []*Term) int {
	if len(n) == 0 {
		return 0
	}
	for i := 0; i+len(n) <= len(h); i++ {
		c := in.p.True
		for j := range n {
			c = in.p.And(c, in.p.Eq(h[i+j], n[j]))
			if c.isConst() && c.n == 0 {
				break
			}
		}
		if in.decide(c) {
			return i
		}
	}
	return -1
}

func init() {
	// ---- the harness interface
	for name, k := range map[string]struct {
		kind string
		w    uint8
	}{"Byte": {"u8", 8}, "Int8": {"u8", 8}, "Int16": {"u16", 16}, "Uint16": {"u16", 16}, "Int32": {"u32", 32}, "Uint32": {"u32", 32}, "Int64": {"u64", 64}, "Uint64": {"u64", 64}, "Int": {"u64", 64}, "Bool": {"bool", 0}} {
		k := k
		reg(func(in *Interp, fr *frame, a []V) (V, bool) { return tv(in.symInput(k.kind, k.w)), true }, symPkg+name)
	}
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		t := in.symInput("u64", 64)
		in.assumeT(in.p.And(in.p.Cmp(OSle, in.p.Const(64, a[0].n), t), in.p.Cmp(OSle, t, in.p.Const(64, a[1].n))))
		return tv(t), true
	}, symPkg+"IntIn")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		i := in.choose(int(a[0].n))
		in.inputs = append(in.inputs, Input{kind: "choose", n: uint64(i)})
		return cint(i), true
	}, symPkg+"Choose")
	symStr := func(in *Interp, n int, set string) []*Term {
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.symInput("u8", 8)
			if set != "" {
				c := in.p.False
				for j := 0; j < len(set); j++ {
					c = in.p.Or(c, in.p.Eq(b[i], in.p.bytes[set[j]]))
				}
				in.assumeT(c)
			}
		}
		return b
	}
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return mkStr(symStr(in, int(a[0].n), "")), true }, symPkg+"String")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return mkStr(symStr(in, int(a[0].n), in.mustStr(a[1]))), true
	}, symPkg+"StringIn")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return in.bytesToSlice(symStr(in, int(a[0].n), "")), true
	}, symPkg+"Bytes")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.assumeT(in.term(a[0], 0)); return V{}, true }, symPkg+"Assume")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		in.assertT(in.term(a[0], 0), in.mustStr(a[1]))
		return V{}, true
	}, symPkg+"Assert")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.reach[in.mustStr(a[0])] = true; return V{}, true }, symPkg+"Reach")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if in.tier == 0 {
			return a[0], true
		}
		return a[1], true
	}, symPkg+"Bound")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return V{}, true }, symPkg+"Concrete")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if debugAbort {
			fmt.Println("NOTE", in.show(a[0], 6))
		}
		return V{}, true
	}, symPkg+"Note")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.noMerge = true; return V{}, true }, symPkg+"NoMerge")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		in.mapRev, in.usedMapRev = a[0].n != 0, true
		return V{}, true
	}, symPkg+"MapReverse")

	// position of a symbolic rune in a fixed ASCII set
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		set, ok := concStr(a[0])
		if !ok || !isSym(a[1]) {
			return V{}, false
		}
		p := in.p
		r := in.term(a[1], 32)
		res := p.Const(64, ^uint64(0))
		for i := len(set) - 1; i >= 0; i-- {
			if set[i] >= 0x80 {
				return V{}, false
			}
			res = p.Ite(p.Eq(r, p.Const(32, uint64(set[i]))), p.Const(64, uint64(i)), res)
		}
		return tv(res), true
	}, "fmt.indexRune")

	// ---- low level
	id := func(in *Interp, fr *frame, a []V) (V, bool) { return a[0], true }
	reg(id, "internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone")
	reg(nop, "(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "internal/godebug.setUpdate",
		"(*sync.Pool).Put", "(*sync.Pool).pin", "sync.runtime_registerPoolCleanup", "time.initLocalNone",
		"runtime/debug.SetGCPercent", "os.runtime_args", "log.init")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return V{o: ""}, true }, "(*internal/godebug.Setting).Value", "os.Getenv", "(*internal/godebug.Setting).Name", "runtime.GOROOT")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return V{o: []V{{o: ""}, {}}}, true }, "os.LookupEnv", "syscall.Getenv")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return V{}, true }, "runtime.Callers")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return V{o: []V{{}, {o: ""}, {}, {}}}, true }, "runtime.Caller")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return cint(1), true }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	held := func(w, r int, names ...string) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.lock(w, r); return V{}, true }, names...)
	}
	held(1, 0, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	held(-1, 0, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	held(0, 1, "(*sync.RWMutex).RLock")
	held(0, -1, "(*sync.RWMutex).RUnlock")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.parallel(fr, a[0]); return V{}, true }, symPkg+"Parallel")
	// sync.Pool.Get: always a new object
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		pool := a[0].o.(*Agg).e[a[0].n].o.(AV).a
		nf := pool.e[len(pool.e)-1]
		if nf.o == nil {
			return V{}, true
		}
		return in.callFuncVal(fr, nf, nil), true
	}, "(*sync.Pool).Get")

	// ---- sync.Map as an ordinary map
	smap := func(in *Interp, recv V, create bool) *Map {
		st := recv.o.(*Agg).e[recv.n].o.(AV).a
		if m, ok := st.e[0].o.(*Map); ok {
			return m
		}
		if !create {
			return nil
		}
		m := in.newMap()
		in.setCell(st, 0, V{o: m})
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		m := smap(in, a[0], false)
		i := in.mapFind(m, a[1], anyT)
		if i < 0 {
			return V{o: []V{{}, {}}}, true
		}
		return V{o: []V{m.ents[i].v, cbool(true)}}, true
	}, "(*sync.Map).Load")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		in.mapSet(smap(in, a[0], true), a[1], a[2], anyT)
		return V{}, true
	}, "(*sync.Map).Store")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		m := smap(in, a[0], true)
		i := in.mapFind(m, a[1], anyT)
		if i >= 0 {
			return V{o: []V{m.ents[i].v, cbool(true)}}, true
		}
		in.mapSet(m, a[1], a[2], anyT)
		return V{o: []V{a[2], {}}}, true
	}, "(*sync.Map).LoadOrStore")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		in.mapDelete(smap(in, a[0], true), a[1], anyT)
		return V{}, true
	}, "(*sync.Map).Delete")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		m := smap(in, a[0], false)
		if m != nil {
			for i := 0; i < len(m.ents); i++ {
				if e := m.ents[i]; e.live {
					r := in.callFuncVal(fr, a[1], []V{e.k, e.v})
					if !in.decide(in.term(r, 0)) {
						break
					}
				}
			}
		}
		return V{}, true
	}, "(*sync.Map).Range")

	// ---- atomics
	for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "", "64", "p", "Acq", "uintptr"} {
			w := uint8(64)
			if strings.HasSuffix(ty, "32") || ty == "" || ty == "Acq" {
				w = 32
			}
			reg(func(in *Interp, fr *frame, a []V) (V, bool) { return in.load(a[0]), true }, pre+"Load"+ty)
			reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.store(a[0], a[1]); return V{}, true }, pre+"Store"+ty)
			reg(func(in *Interp, fr *frame, a []V) (V, bool) {
				o := in.load(a[0])
				in.store(a[0], a[1])
				return o, true
			}, pre+"Swap"+ty)
			reg(func(in *Interp, fr *frame, a []V) (V, bool) {
				o := in.load(a[0])
				eq := o.n == a[1].n && o.o == a[1].o
				if isSym(o) || isSym(a[1]) {
					eq = in.decide(in.p.Eq(in.term(o, w), in.term(a[1], w)))
				}
				if eq {
					in.store(a[0], a[2])
				}
				return cbool(eq), true
			}, pre+"CompareAndSwap"+ty)
			reg(func(in *Interp, fr *frame, a []V) (V, bool) {
				r := tv(in.p.Bin(OAdd, in.term(in.load(a[0]), w), in.term(a[1], w)))
				in.store(a[0], r)
				return r, true
			}, pre+"Add"+ty)
		}
	}
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return in.load(in.fieldAddr(a[0], 0)), true }, "(*sync/atomic.Value).Load")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { in.store(in.fieldAddr(a[0], 0), a[1]); return V{}, true }, "(*sync/atomic.Value).Store")

	// ---- byte search
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return cint(in.indexTerms(in.byteTerms(a[0]), []*Term{in.term(a[1], 8)})), true
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if s, ok := concStr(a[0]); ok {
			if n, ok := concStr(a[1]); ok {
				return cint(strings.Index(s, n)), true
			}
		}
		return cint(in.indexTerms(in.byteTerms(a[0]), in.byteTerms(a[1]))), true
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return cint(in.indexTerms(in.byteTerms(a[0]), in.byteTerms(a[1]))), true
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		h, c := in.byteTerms(a[0]), in.term(a[1], 8)
		for i := len(h) - 1; i >= 0; i-- {
			if in.decide(in.p.Eq(h[i], c)) {
				return cint(i), true
			}
		}
		return cint(-1), true
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		h, c := in.byteTerms(a[0]), in.term(a[1], 8)
		n := in.p.Const(64, 0)
		for _, b := range h {
			n = in.p.Bin(OAdd, n, in.p.Ite(in.p.Eq(b, c), in.p.Const(64, 1), in.p.Const(64, 0)))
		}
		if !n.isConst() {
			return cint(int(in.concretize(n))), true
		}
		return tv(n), true
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return tv(in.strEq(in.sliceToStr(a[0]), in.sliceToStr(a[1]))), true
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		x, y := a[0], a[1]
		if _, ok := x.o.(*Slice); ok || x.o == nil {
			x = in.sliceToStr(x)
		}
		if _, ok := y.o.(*Slice); ok || y.o == nil {
			y = in.sliceToStr(y)
		}
		lt, eq := in.strLess(x, y, false), in.strEq(x, y)
		return tv(in.p.Ite(lt, in.p.Const(64, ^uint64(0)), in.p.Ite(eq, in.p.Const(64, 0), in.p.Const(64, 1)))), true
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare", "runtime.cmpstring")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return in.makeSlice(types.Typ[types.Byte], int(a[0].n), int(a[0].n)), true
	}, "internal/bytealg.MakeNoZero")

	// ---- case mapping of ASCII text without per-byte forks
	caseMap := func(lo, hi byte, up bool) intrinsic {
		return func(in *Interp, fr *frame, a []V) (V, bool) {
			if s, ok := concStr(a[0]); ok {
				if up {
					return cstr(strings.ToUpper(s)), true
				}
				return cstr(strings.ToLower(s)), true
			}
			b := in.strTerms(a[0])
			asc := in.p.True
			for _, t := range b {
				asc = in.p.And(asc, in.p.Cmp(OUlt, t, in.p.bytes[0x80]))
			}
			if !in.decide(asc) {
				return V{}, false
			}
			r := make([]*Term, len(b))
			for i, t := range b {
				c := in.p.And(in.p.Cmp(OUle, in.p.bytes[lo], t), in.p.Cmp(OUle, t, in.p.bytes[hi]))
				r[i] = in.p.Ite(c, in.p.Bin(OBXor, t, in.p.bytes[0x20]), t)
			}
			return mkStr(r), true
		}
	}
	reg(caseMap('A', 'Z', false), "strings.ToLower")
	reg(caseMap('a', 'z', true), "strings.ToUpper")

	// ---- math
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return a[0], true }, "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits")
	f1 := func(f func(float64) float64, names ...string) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) {
			if isSym(a[0]) {
				if fr != nil && strings.HasPrefix(names[0], "math.arch") {
					in.abort("symbolic " + names[0])
				}
				v := in.concretize(in.term(a[0], 64))
				return V{n: math.Float64bits(f(math.Float64frombits(v)))}, true
			}
			return V{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}, true
		}, names...)
	}
	f1(math.Floor, "math.Floor", "math.floor", "math.archFloor")
	f1(math.Ceil, "math.Ceil", "math.ceil", "math.archCeil")
	f1(math.Trunc, "math.Trunc", "math.trunc", "math.archTrunc")
	f1(math.Sqrt, "math.Sqrt", "math.sqrt", "math.archSqrt")
	f1(math.Log, "math.Log", "math.archLog")
	f1(math.Log2, "math.Log2")
	f1(math.Log10, "math.Log10")
	f1(math.Exp, "math.Exp", "math.archExp")
	f1(math.Round, "math.Round")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		x, y := in.cf(a[0]), in.cf(a[1])
		return V{n: math.Float64bits(math.Pow(x, y))}, true
	}, "math.Pow")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		i, f := math.Modf(in.cf(a[0]))
		return V{o: []V{{n: math.Float64bits(i)}, {n: math.Float64bits(f)}}}, true
	}, "math.Modf")

	b1 := func(name string, w uint8, f func(uint64) int) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) {
			if isSym(a[0]) {
				return V{}, false
			}
			return cint(f(a[0].n)), true
		}, "math/bits."+name)
	}
	b1("Len64", 64, bits.Len64)
	b1("Len", 64, bits.Len64)
	b1("Len32", 32, bits.Len64)
	b1("LeadingZeros64", 64, bits.LeadingZeros64)
	b1("TrailingZeros64", 64, bits.TrailingZeros64)
	b1("TrailingZeros", 64, bits.TrailingZeros64)
	b1("OnesCount64", 64, bits.OnesCount64)

	// ---- strconv on symbolic integers: digits become variables
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if !isSym(a[0]) {
			if isSym(a[1]) {
				return V{}, false
			}
			return cstr(strconv.FormatInt(int64(a[0].n), int(a[1].n))), true
		}
		if a[1].o != nil || a[1].n != 10 {
			return V{}, false
		}
		return in.fmtSym(in.term(a[0], 64), true), true
	}, "strconv.FormatInt")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if !isSym(a[0]) {
			return cstr(strconv.Itoa(int(a[0].n))), true
		}
		return in.fmtSym(in.term(a[0], 64), true), true
	}, "strconv.Itoa")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if !isSym(a[0]) || a[1].o != nil || a[1].n != 10 {
			if !isSym(a[0]) && !isSym(a[1]) {
				return cstr(strconv.FormatUint(a[0].n, int(a[1].n))), true
			}
			return V{}, false
		}
		return in.fmtSym(in.term(a[0], 64), false), true
	}, "strconv.FormatUint")
	parse := func(signed, atoi bool) intrinsic {
		return func(in *Interp, fr *frame, a []V) (V, bool) {
			bits := uint64(64)
			if !atoi {
				if a[1].o != nil || a[1].n != 10 || a[2].o != nil || a[2].n > 64 {
					return V{}, false
				}
				if a[2].n != 0 {
					bits = a[2].n
				}
			}
			if _, ok := concStr(a[0]); ok {
				return V{}, false
			}
			if len(in.rendered) == 0 {
				return V{}, false
			}
			s := in.strTerms(a[0])
			t, neg, ok := in.parsed(s)
			if !ok || !signed && (s[0].isConst() && (s[0].n == '-' || s[0].n == '+')) {
				return V{}, false
			}
			max := ^uint64(0) >> (64 - bits)
			if signed {
				max >>= 1
				if neg {
					max++
				}
			}
			p := in.p
			if !in.decide(p.Cmp(OUle, t, p.Const(64, max))) {
				pk := in.prog.ImportedPackage("internal/strconv")
				lim := max
				if neg {
					lim = -max
				}
				rng := pk.Members["ErrRange"].(*ssa.NamedConst).Value
				return V{o: []V{{n: lim}, {o: &Iface{in.rtype(pk.Type("Error").Type()), V{n: uint64(rng.Int64())}}}}}, true
			}
			if neg {
				t = p.Bin(OSub, p.Const(64, 0), t)
			}
			return V{o: []V{tv(t), {}}}, true
		}
	}
	reg(parse(true, false), "internal/strconv.ParseInt")
	reg(parse(false, false), "internal/strconv.ParseUint")
	reg(parse(true, true), "internal/strconv.Atoi")
	app := func(signed bool) intrinsic {
		return func(in *Interp, fr *frame, a []V) (V, bool) {
			if !isSym(a[1]) || a[2].o != nil || a[2].n != 10 {
				return V{}, false
			}
			s := in.fmtSym(in.term(a[1], 64), signed)
			return in.appendSlice(a[0], in.strToSlice(s), types.Typ[types.Byte]), true
		}
	}
	reg(app(true), "strconv.AppendInt")
	reg(app(false), "strconv.AppendUint")
	// fmt's %d without width, precision or flags
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		// (f *fmt) fmtInteger(u uint64, base int, isSigned bool, verb rune, digits string)
		if !isSym(a[1]) {
			return V{}, false
		}
		st := a[0].o.(*Agg).e[a[0].n].o.(AV).a
		// struct fmt { buf *buffer; fmtFlags; wid, prec int; intbuf }
		fl := st.e[1].o.(AV).a
		for i, f := range fl.e {
			if f.n != 0 || f.o != nil {
				_ = i
				// zero-padded fixed width %0Nd
				return in.fmtPadded(st, fl, a)
			}
		}
		if a[2].n != 10 {
			return V{}, false
		}
		s := in.fmtSym(in.term(a[1], 64), a[3].n != 0)
		bp := st.e[0]
		in.store(bp, in.appendSlice(in.load(bp), in.strToSlice(s), types.Typ[types.Byte]))
		return V{}, true
	}, "(*fmt.fmt).fmtInteger")
	// floats from or to text: one concrete value per path
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if _, ok := concStr(a[0]); ok {
			return V{}, false
		}
		// only strings that can be numbers need enumeration of their bytes
		b := in.strTerms(a[0])
		if len(b) > 0 {
			c := in.p.True
			for _, t := range b {
				x := in.p.False
				for _, ch := range []byte("0123456789+-.eEpPxX_nNaAiIfFtTyYbBcCdD") {
					x = in.p.Or(x, in.p.Eq(t, in.p.bytes[ch]))
				}
				c = in.p.And(c, x)
			}
			if !in.decide(c) {
				// cannot be a number
				s := mkStr(b)
				bad := cstr("x y")
				_ = s
				return in.callFn(in.pkgFunc("strconv", "ParseFloat"), []V{bad, a[1]}), true
			}
		}
		buf := make([]byte, len(b))
		for i, t := range b {
			buf[i] = byte(in.concretize(t))
		}
		return in.callFn(in.pkgFunc("strconv", "ParseFloat"), []V{cstr(string(buf)), a[1]}), true
	}, "strconv.ParseFloat")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		if in.allConc(a) {
			return cstr(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(a[2].n), int(a[3].n))), true
		}
		v := in.concretize(in.term(a[0], 64))
		return cstr(strconv.FormatFloat(math.Float64frombits(v), byte(a[1].n), int(a[2].n), int(a[3].n))), true
	}, "strconv.FormatFloat")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		v := in.concretize(in.term(a[1], 64))
		s := strconv.FormatFloat(math.Float64frombits(v), byte(a[2].n), int(a[3].n), int(a[4].n))
		return in.appendSlice(a[0], in.strToSlice(cstr(s)), types.Typ[types.Byte]), true
	}, "strconv.AppendFloat")

	// ---- error texts are not part of any property: keep wrapping, drop symbolic text
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		args, _ := a[1].o.(*Slice)
		f := in.mustStr(a[0])
		var wrapped V
		symbolic := false
		if args != nil {
			for i := 0; i < args.len; i++ {
				iv, _ := args.a.e[args.off+i].o.(*Iface)
				if iv == nil {
					continue
				}
				if !conc(iv.v) {
					symbolic = true
				}
				if _, ok := iv.v.o.(*Agg); ok {
					symbolic = true
				}
				if _, ok := iv.v.o.(AV); ok {
					symbolic = true
				}
				if strings.Contains(f, "%w") && in.method(iv.t, nil, "Error") != nil {
					wrapped = V{o: iv}
				}
			}
		}
		if !symbolic && wrapped.o == nil {
			return V{}, false
		}
		pk := in.prog.ImportedPackage("fmt")
		if wrapped.o != nil {
			t := pk.Type("wrapError").Type()
			ag := in.newAgg(2)
			ag.e[0], ag.e[1] = cstr("error: "+f), wrapped
			cell := in.newAgg(1)
			cell.e[0] = V{o: AV{ag}}
			return V{o: &Iface{in.rtype(types.NewPointer(t)), V{o: cell}}}, true
		}
		t := in.prog.ImportedPackage("errors").Type("errorString").Type()
		ag := in.newAgg(1)
		ag.e[0] = cstr("error: " + f)
		cell := in.newAgg(1)
		cell.e[0] = V{o: AV{ag}}
		return V{o: &Iface{in.rtype(types.NewPointer(t)), V{o: cell}}}, true
	}, "fmt.Errorf")

	// ---- time
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return V{o: []V{cint(1700000000), V{n: 0}, cint(1 << 40)}}, true
	}, "time.now", "time.runtimeNow")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return cint(1 << 40), true }, "time.runtimeNano")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		g := in.prog.ImportedPackage("time").Var("localLoc")
		in.setCell(in.global(g).e[0].o.(AV).a, 0, cstr("UTC"))
		return V{}, true
	}, "time.initLocal")
	synced()
}

func (in *Interp) cf(v V) float64 {
	if v.o == nil {
		return math.Float64frombits(v.n)
	}
	return math.Float64frombits(in.concretize(in.term(v, 64)))
}

// fmtSym renders a symbolic integer in base 10: it forks on sign and digit
// count and introduces the digits as variables constrained by
// value = sum d_i * 10^i, which is exact.
func (in *Interp) fmtSym(t *Term, signed bool) V {
	p := in.p
	neg := false
	if signed {
		if in.decide(p.Cmp(OSlt, t, p.Const(t.w, 0))) {
			neg = true
			t = p.Bin(OSub, p.Const(t.w, 0), t)
		}
	}
	b := in.digits(t)
	if neg {
		b = append([]*Term{p.bytes['-']}, b...)
	}
	return mkStr(b)
}

func (in *Interp) digits(t *Term) []*Term {
	p := in.p
	// digit count
	n := 1
	lim := uint64(10)
	for n < 20 {
		if in.decide(p.Cmp(OUlt, t, p.Const(64, lim))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		lim *= 10
	}
	return in.fixedDigits(t, n)
}

func (in *Interp) fixedDigits(t *Term, n int) []*Term {
	p := in.p
	if b := in.rendered[t]; b != nil {
		return b
	}
	var b []*Term
	g := &digitGroup{t: t}
	if n == 1 {
		b = []*Term{p.Bin(OAdd, p.Extract(t, 0, 8), p.bytes['0'])}
		g.b, g.one = b, true
		in.groups = append(in.groups, g)
	} else {
		b = make([]*Term, n)
		if in.digitOf == nil {
			in.digitOf = map[int32]*digitGroup{}
		}
		for i := 0; i < n; i++ {
			d := in.newVar("d", 8)
			lo, hi := byte('0'), byte('9')
			if i == 0 {
				lo = '1'
				if n == 20 {
					hi = '1'
				}
			}
			dom := [4]uint64{}
			for c := lo; c <= hi; c++ {
				dom[c>>6] |= 1 << (c & 63)
			}
			in.dom[d.n] = &dom
			in.impure[d.n] = true
			in.digitOf[int32(d.n)] = g
			b[i] = d
		}
		p.Vars(t, func(id int32) { in.impure[id] = true })
		g.b = b
		in.groups = append(in.groups, g)
		if in.modelOK {
			in.setGroup(g, in.model)
		}
	}
	if in.rendered == nil {
		in.rendered = map[*Term][]*Term{}
	}
	in.rendered[t] = b
	return b
}

// parsed recognises the decimal rendering of a term: sign, leading zeros and
// the digits fixedDigits made of it.
func (in *Interp) parsed(s []*Term) (t *Term, neg, ok bool) {
	if len(in.rendered) == 0 || len(s) == 0 {
		return nil, false, false
	}
	if s[0].isConst() && (s[0].n == '-' || s[0].n == '+') {
		neg = s[0].n == '-'
		s = s[1:]
	}
	for len(s) > 0 && s[0].isConst() && s[0].n == '0' {
		s = s[1:]
	}
	if len(s) == 0 || s[0].isConst() {
		return nil, false, false
	}
	for _, g := range in.groups {
		t, b := g.t, g.b
		if len(b) != len(s) {
			continue
		}
		same := true
		for i := range b {
			if b[i] != s[i] {
				same = false
				break
			}
		}
		if same {
			return t, neg, true
		}
	}
	return nil, false, false
}

func (in *Interp) impureVars(b []*Term) {
	for _, t := range b {
		if t.op == OVar {
			in.impure[t.n] = true
		}
	}
}

// fmtPadded handles %0Nd and %Nd with a symbolic operand.
func (in *Interp) fmtPadded(st, fl *Agg, a []V) (V, bool) {
	// fmtFlags: widPresent precPresent minus plus sharp space zero plusV sharpV
	wid := int(st.e[2].n)
	ok := fl.e[0].n != 0
	for i := 1; i < len(fl.e); i++ {
		if i != 6 && fl.e[i].n != 0 {
			ok = false
		}
	}
	if !ok || a[2].n != 10 {
		return V{}, false
	}
	zero := fl.e[6].n != 0
	s := in.fmtSym(in.term(a[1], 64), a[3].n != 0)
	b := in.strTerms(s)
	if len(b) < wid {
		pad := wid - len(b)
		var nb []*Term
		sign := 0
		if zero && len(b) > 0 && b[0].isConst() && b[0].n == '-' {
			nb = append(nb, b[0])
			sign = 1
		}
		for i := 0; i < pad; i++ {
			if zero {
				nb = append(nb, in.p.bytes['0'])
			} else {
				nb = append(nb, in.p.bytes[' '])
			}
		}
		b = append(nb, b[sign:]...)
	}
	bp := st.e[0]
	in.store(bp, in.appendSlice(in.load(bp), in.bytesToSlice(b), types.Typ[types.Byte]))
	return V{}, true
}
