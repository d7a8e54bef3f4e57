package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Interp struct {
	prog   *ssa.Program
	p      *TermPool
	sol    *Solver
	ep     uint32
	trail  []trailEnt
	rtypes typeutil.Map
	nRT    int
	fns    map[*ssa.Function]*cfn
	globs  map[*ssa.Global]*Agg
	sizes  types.Sizes

	// path state
	prefix      []Dec
	decs        []Dec
	dom         []*[4]uint64
	impure      []bool
	pend        []*Term
	model       []uint64
	modelOK     bool
	curF        *frame
	steps       int64
	mon         *monitor
	onRace      func(label, detail string)
	maxSteps    int64
	depth       int
	fork        func(prefix []Dec)
	inputs      []Input
	ownPC       []*Term
	sampled     bool
	spec        bool
	merged      []V
	solBegun    bool
	deadline    time.Time
	bnd         map[int32]iv // learnt ranges by term id
	epoch       uint64       // changes whenever a range may have narrowed
	rngBudget   int
	altModel    []uint64
	groups      []*digitGroup
	digitOf     map[int32]*digitGroup
	rendered    map[*Term][]*Term
	lastAlt     []Dec
	noMerge     bool
	mapRev      bool // maps are ranged over in reverse insertion order
	usedMapRev  bool
	edges       []medge
	nMerges     int
	deferTarget *frame
	fresh       uint64
	known       map[string]bool

	tier     int
	params   map[string]int
	onAssert func(label string, cond *Term)
	reach    map[string]bool
	covered  map[*ssa.Function]bool
	stats    *Stats
	initing  bool
	inexact  map[string]int // reasons for under-approximation on this path
	w        *Worker
	syms     map[string]types.Type
	initTop  *ssa.Function
}

// Input is one nondeterministic value asked for by the harness.
type Input struct {
	kind string
	t    *Term
	n    uint64 // concrete choice
	w    uint8
}

type Dec struct {
	taken bool
	val   uint64
}

type opnd struct {
	r int
	c V
}

type cfn struct {
	fn      *ssa.Function
	nregs   int
	blocks  []*cblock
	params  []int
	free    []int
	hasDef  bool
	recov   int
	intr    func(in *Interp, fr *frame, args []V) (V, bool)
	noBody  bool
	name    string
	resZero func() V
}

type cblock struct {
	code  []func(fr *frame)
	phis  []phi
	term  func(fr *frame) int
	preds []int
	sb    *ssa.BasicBlock
	mif   *mergeIf
	pure  int8
	cond  opnd
	isIf  bool
	nspec int
}

type phi struct {
	dst   int
	edges []opnd
	t     types.Type
}

type deferred struct {
	call func()
}

type frame struct {
	in        *Interp
	fn        *cfn
	regs      []V
	result    V
	defers    []func()
	panicking *targetPanic
	deferOf   *frame
	block     int
	prev      int
	recovered bool
	caller    *frame
	pos       token.Pos
}

func (in *Interp) abort(reason string) {
	panic(pathAbort{reason})
}

func (in *Interp) here() string {
	var sb strings.Builder
	n := 0
	for f := in.curF; f != nil && n < 6; f = f.caller {
		fmt.Fprintf(&sb, " < %s", f.fn.name)
		n++
	}
	return sb.String()
}

// rtPanic raises a Go run-time error in the interpreted program.
func (in *Interp) rtPanic(msg string) {
	if in.spec {
		panic(specFail{})
	}
	v := V{o: "runtime error: " + msg}
	if pk := in.prog.ImportedPackage("runtime"); pk != nil {
		if tn := pk.Type("errorString"); tn != nil {
			v = V{o: &Iface{in.rtype(tn.Type()), V{o: msg}}}
			panic(&targetPanic{v, "runtime error: " + msg, in.here()})
		}
	}
	panic(&targetPanic{V{o: &Iface{in.rtype(types.Typ[types.String]), v}}, "runtime error: " + msg, in.here()})
}

type specFail struct{}

func (in *Interp) rtype(t types.Type) *RType {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if r := in.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	in.nRT++
	r := &RType{t: t, u: t.Underlying(), id: in.nRT, str: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	in.rtypes.Set(t, r)
	return r
}

func (in *Interp) method(r *RType, pkg *types.Package, name string) *ssa.Function {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	if f, ok := r.methods[key]; ok {
		return f
	}
	if r.methods == nil {
		r.methods = map[string]*ssa.Function{}
	}
	var f *ssa.Function
	ms := in.prog.MethodSets.MethodSet(r.t)
	if sel := ms.Lookup(pkg, name); sel != nil {
		f = in.prog.MethodValue(sel)
	}
	r.methods[key] = f
	return f
}

// ---- compiling

func (in *Interp) compile(fn *ssa.Function) *cfn {
	if c, ok := in.fns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, recov: -1, name: fn.String()}
	in.fns[fn] = c
	nm := c.name
	if o := fn.Origin(); o != nil {
		nm = o.String()
	}
	if f, ok := intrinsics[nm]; ok {
		c.intr = f
	}
	if nm == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		rt := in.rtype(fn.TypeArgs()[0])
		c.intr = func(in *Interp, fr *frame, args []V) (V, bool) { return in.rtypeIface(rt), true }
	}
	if nm == "reflect.TypeAssert" && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		rt := in.rtype(t)
		_, isIf := t.Underlying().(*types.Interface)
		c.intr = func(in *Interp, fr *frame, args []V) (V, bool) {
			v := in.toIface(in.rvMust(args[0], "TypeAssert"))
			i, _ := v.o.(*Iface)
			if i != nil {
				if isIf && in.implements(i.t, rt) {
					return V{o: []V{v, cbool(true)}}, true
				}
				if !isIf && i.t == rt {
					return V{o: []V{i.v, cbool(true)}}, true
				}
			}
			return V{o: []V{in.zero(t), cbool(false)}}, true
		}
	}
	if nm == "internal/abi.TypeFor" && len(fn.TypeArgs()) == 1 {
		rt := in.rtype(fn.TypeArgs()[0])
		c.intr = func(in *Interp, fr *frame, args []V) (V, bool) { return V{o: rt}, true }
	}
	if fn.Synthetic == "package initializer" {
		// dependencies are initialised by runInit, each exactly once
		c.intr = func(in *Interp, fr *frame, args []V) (V, bool) {
			if in.initTop == fn {
				in.initTop = nil
				return V{}, false
			}
			return V{}, true
		}
	}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return c
	}
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		slots[v] = c.nregs
		c.nregs++
		return c.nregs - 1
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, alloc(p))
	}
	cc := &compiler{in: in, c: c, alloc: alloc}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		c.blocks = append(c.blocks, &cblock{sb: b})
	}
	for i, b := range fn.Blocks {
		cb := c.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, ins := range b.Instrs {
			cc.instr(cb, ins)
		}
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	return c
}

type compiler struct {
	in    *Interp
	c     *cfn
	alloc func(ssa.Value) int
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, cc.in.constVal(x)}
	case *ssa.Global:
		return opnd{-1, V{o: cc.in.global(x)}}
	case *ssa.Function:
		return opnd{-1, V{o: &Func{fn: x}}}
	case *ssa.Builtin:
		return opnd{-1, V{}}
	}
	return opnd{r: cc.alloc(v)}
}

func (in *Interp) global(g *ssa.Global) *Agg {
	if a, ok := in.globs[g]; ok {
		return a
	}
	save := in.ep
	in.ep = 0
	a := in.newAgg(1)
	a.e[0] = in.zero(g.Type().(*types.Pointer).Elem())
	in.ep = save
	in.globs[g] = a
	return a
}

func (in *Interp) constVal(c *ssa.Const) V {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return cbool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return cstr(constant.StringVal(c.Value))
			}
			return cstr(string(rune(c.Int64())))
		case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return V{n: uint64(i) & mask(width(b))}
			}
			u, _ := constant.Uint64Val(v)
			return V{n: u & mask(width(b))}
		case b.Info()&types.IsFloat != 0:
			if b.Kind() == types.Float32 {
				f, _ := constant.Float32Val(c.Value)
				return V{n: uint64(math.Float32bits(f))}
			}
			f, _ := constant.Float64Val(c.Value)
			return V{n: math.Float64bits(f)}
		case b.Info()&types.IsComplex != 0:
			return V{o: c.Complex128()}
		}
	}
	panic(fmt.Sprintf("constVal %v", c))
}

func (o *opnd) get(fr *frame) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

func (cc *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = cc.op(v)
	}
	return r
}

func (cc *compiler) instr(cb *cblock, ins ssa.Instruction) {
	in := cc.in
	emit := func(f func(fr *frame)) { cb.code = append(cb.code, f) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		cb.phis = append(cb.phis, phi{cc.alloc(x), cc.ops(x.Edges), x.Type()})
	case *ssa.Alloc:
		d := cc.alloc(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		emit(func(fr *frame) {
			a := in.newAgg(1)
			a.e[0] = in.zero(t)
			fr.regs[d] = V{o: a}
		})
	case *ssa.BinOp:
		d, a, b := cc.alloc(x), cc.op(x.X), cc.op(x.Y)
		f := in.binop(x.Op, x.X.Type(), x.Y.Type())
		emit(func(fr *frame) { fr.regs[d] = f(a.get(fr), b.get(fr)) })
	case *ssa.UnOp:
		d, a := cc.alloc(x), cc.op(x.X)
		switch x.Op {
		case token.MUL:
			sw := uint8(0)
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 {
				sw = width(b)
				if sw == 0 {
					sw = 255
				}
			}
			emit(func(fr *frame) {
				p := a.get(fr)
				if sp, ok := p.o.(*symPtr); ok {
					fr.regs[d] = in.symLoad(sp, sw)
					return
				}
				fr.regs[d] = in.load(p)
			})
		case token.NOT:
			emit(func(fr *frame) {
				v := a.get(fr)
				if v.o == nil {
					fr.regs[d] = V{n: v.n ^ 1}
				} else {
					fr.regs[d] = tv(in.p.Not(v.o.(*Term)))
				}
			})
		case token.SUB:
			b := x.Type().Underlying().(*types.Basic)
			w := width(b)
			if b.Info()&types.IsFloat != 0 {
				emit(func(fr *frame) { fr.regs[d] = tv(in.p.F(OFNeg, w, in.term(a.get(fr), w), nil)) })
			} else if b.Info()&types.IsComplex != 0 {
				emit(func(fr *frame) { fr.regs[d] = V{o: -a.get(fr).o.(complex128)} })
			} else {
				emit(func(fr *frame) {
					v := a.get(fr)
					if v.o == nil {
						fr.regs[d] = V{n: -v.n & mask(w)}
					} else {
						fr.regs[d] = tv(in.p.Bin(OSub, in.p.Const(w, 0), v.o.(*Term)))
					}
				})
			}
		case token.XOR:
			w := width(x.Type().Underlying().(*types.Basic))
			emit(func(fr *frame) { fr.regs[d] = tv(in.p.BNot(in.term(a.get(fr), w))) })
		case token.ARROW:
			ok := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			emit(func(fr *frame) {
				ch, _ := a.get(fr).o.(*Chan)
				if ch == nil {
					in.abort("receive on nil channel")
				}
				v, got := in.chanRecv(ch, et, true)
				if ok {
					fr.regs[d] = V{o: []V{v, cbool(got)}}
				} else {
					fr.regs[d] = v
				}
			})
		}
	case *ssa.ChangeInterface:
		d, a := cc.alloc(x), cc.op(x.X)
		emit(func(fr *frame) { fr.regs[d] = a.get(fr) })
	case *ssa.ChangeType:
		d, a := cc.alloc(x), cc.op(x.X)
		emit(func(fr *frame) { fr.regs[d] = a.get(fr) })
	case *ssa.Convert:
		d, a := cc.alloc(x), cc.op(x.X)
		f := in.convert(x.X.Type(), x.Type())
		emit(func(fr *frame) { fr.regs[d] = f(a.get(fr)) })
	case *ssa.MultiConvert:
		d, a := cc.alloc(x), cc.op(x.X)
		f := in.convert(x.X.Type(), x.Type())
		emit(func(fr *frame) { fr.regs[d] = f(a.get(fr)) })
	case *ssa.MakeInterface:
		d, a := cc.alloc(x), cc.op(x.X)
		rt := in.rtype(x.X.Type())
		emit(func(fr *frame) { fr.regs[d] = V{o: &Iface{rt, a.get(fr)}} })
	case *ssa.MakeClosure:
		d, bs := cc.alloc(x), cc.ops(x.Bindings)
		fn := x.Fn.(*ssa.Function)
		emit(func(fr *frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = V{o: &Func{fn: fn, env: env}}
		})
	case *ssa.MakeMap:
		d := cc.alloc(x)
		emit(func(fr *frame) { fr.regs[d] = V{o: in.newMap()} })
	case *ssa.MakeChan:
		d, s := cc.alloc(x), cc.op(x.Size)
		emit(func(fr *frame) { fr.regs[d] = V{o: &Chan{cap: int(s.get(fr).n), ep: in.ep}} })
	case *ssa.MakeSlice:
		d, l, c := cc.alloc(x), cc.op(x.Len), cc.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lt := x.Len.Type()
		ct := x.Cap.Type()
		emit(func(fr *frame) {
			n := in.sizeVal(l.get(fr), lt, "makeslice: len out of range")
			m := in.sizeVal(c.get(fr), ct, "makeslice: cap out of range")
			if m < n {
				in.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = in.makeSlice(et, n, m)
		})
	case *ssa.FieldAddr:
		d, a, i := cc.alloc(x), cc.op(x.X), x.Field
		emit(func(fr *frame) { fr.regs[d] = in.fieldAddr(a.get(fr), i) })
	case *ssa.Field:
		d, a, i := cc.alloc(x), cc.op(x.X), x.Field
		emit(func(fr *frame) { fr.regs[d] = a.get(fr).o.(AV).a.e[i] })
	case *ssa.IndexAddr:
		d, a, i := cc.alloc(x), cc.op(x.X), cc.op(x.Index)
		it := x.Index.Type().Underlying().(*types.Basic)
		pos := x
		_ = pos
		switch x.X.Type().Underlying().(type) {
		case *types.Slice:
			emit(func(fr *frame) {
				s, _ := a.get(fr).o.(*Slice)
				n := 0
				if s != nil {
					n = s.len
				}
				iv := i.get(fr)
				if iv.o != nil {
					k := in.symIndexAddr(iv, it, n)
					fr.regs[d] = V{o: &symPtr{s.a, s.off, n, k}}
					if in.spec {
						return
					}
					return
				}
				k := sext(iv.n, width(it))
				if !isSigned(it) {
					k = int64(iv.n)
				}
				if k < 0 || k >= int64(n) {
					in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
				}
				fr.regs[d] = V{n: uint64(s.off + int(k)), o: s.a}
			})
		default: // *array
			n := int(deref(x.X.Type()).Underlying().(*types.Array).Len())
			emit(func(fr *frame) {
				p := a.get(fr)
				if p.o == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				ag, ok := p.o.(*Agg)
				if !ok {
					in.abort("index through opaque pointer")
				}
				arr, ok := ag.e[p.n].o.(AV)
				if !ok {
					in.abort("array expected")
				}
				iv := i.get(fr)
				if iv.o != nil {
					k := in.symIndexAddr(iv, it, n)
					fr.regs[d] = V{o: &symPtr{arr.a, 0, n, k}}
					return
				}
				k := sext(iv.n, width(it))
				if !isSigned(it) {
					k = int64(iv.n)
				}
				if k < 0 || k >= int64(n) {
					in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
				}
				fr.regs[d] = V{n: uint64(k), o: arr.a}
			})
		}
		// the loads and stores through symbolic indices
	case *ssa.Index:
		d, a, i := cc.alloc(x), cc.op(x.X), cc.op(x.Index)
		it := x.Index.Type().Underlying().(*types.Basic)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			emit(func(fr *frame) { fr.regs[d] = in.strIndex(a.get(fr), i.get(fr), it) })
		} else {
			emit(func(fr *frame) {
				arr := a.get(fr).o.(AV).a
				iv := i.get(fr)
				if iv.o != nil {
					k := in.symIndexAddr(iv, it, len(arr.e))
					fr.regs[d] = in.load2(V{o: &symPtr{arr, 0, len(arr.e), k}})
					return
				}
				if iv.n >= uint64(len(arr.e)) {
					in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), len(arr.e)))
				}
				fr.regs[d] = arr.e[iv.n]
			})
		}
	case *ssa.Lookup:
		d, a, i := cc.alloc(x), cc.op(x.X), cc.op(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			commaOk := x.CommaOk
			emit(func(fr *frame) {
				m, _ := a.get(fr).o.(*Map)
				k := i.get(fr)
				j := in.mapFind(m, k, mt.Key())
				var v V
				if j >= 0 {
					v = m.ents[j].v
				} else {
					v = in.zero(mt.Elem())
				}
				if commaOk {
					fr.regs[d] = V{o: []V{v, cbool(j >= 0)}}
				} else {
					fr.regs[d] = v
				}
			})
		} else {
			it := x.Index.Type().Underlying().(*types.Basic)
			emit(func(fr *frame) { fr.regs[d] = in.strIndex(a.get(fr), i.get(fr), it) })
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		emit(func(fr *frame) {
			mm, _ := m.get(fr).o.(*Map)
			if mm == nil {
				in.goPanicStr("assignment to entry in nil map")
			}
			in.mapSet(mm, k.get(fr), v.get(fr), kt)
		})
	case *ssa.Extract:
		d, a, i := cc.alloc(x), cc.op(x.Tuple), x.Index
		emit(func(fr *frame) { fr.regs[d] = a.get(fr).o.([]V)[i] })
	case *ssa.Slice:
		d, a := cc.alloc(x), cc.op(x.X)
		var lo, hi, mx *opnd
		var lot, hit, mxt types.Type
		mk := func(v ssa.Value) (*opnd, types.Type) {
			if v == nil {
				return nil, nil
			}
			o := cc.op(v)
			return &o, v.Type()
		}
		lo, lot = mk(x.Low)
		hi, hit = mk(x.High)
		mx, mxt = mk(x.Max)
		xt := x.X.Type()
		emit(func(fr *frame) {
			gv := func(o *opnd, t types.Type, def int) int {
				if o == nil {
					return def
				}
				return in.idxVal(o.get(fr), t)
			}
			fr.regs[d] = in.slice(a.get(fr), xt, func(def int) int { return gv(lo, lot, def) }, func(def int) int { return gv(hi, hit, def) }, func(def int) int { return gv(mx, mxt, def) })
		})
	case *ssa.Store:
		a, v := cc.op(x.Addr), cc.op(x.Val)
		emit(func(fr *frame) {
			p := a.get(fr)
			if sp, ok := p.o.(*symPtr); ok {
				in.symStore(sp, v.get(fr))
				return
			}
			in.store(p, v.get(fr))
		})
	case *ssa.TypeAssert:
		d, a := cc.alloc(x), cc.op(x.X)
		at := x.AssertedType
		commaOk := x.CommaOk
		rt := in.rtype(at)
		_, isIf := at.Underlying().(*types.Interface)
		emit(func(fr *frame) {
			v := a.get(fr)
			i, _ := v.o.(*Iface)
			ok := false
			var r V
			if i != nil {
				if isIf {
					ok = in.implements(i.t, rt)
					r = v
				} else {
					ok = i.t == rt
					r = i.v
				}
			}
			if commaOk {
				if !ok {
					r = in.zero(at)
				}
				fr.regs[d] = V{o: []V{r, cbool(ok)}}
				return
			}
			if !ok {
				s := "nil"
				if i != nil {
					s = i.t.str
				}
				in.rtPanicConv("interface conversion: interface is " + s + ", not " + rt.str)
			}
			fr.regs[d] = r
		})
	case *ssa.Range:
		d, a := cc.alloc(x), cc.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			emit(func(fr *frame) {
				m, _ := a.get(fr).o.(*Map)
				fr.regs[d] = V{o: in.newMapIter(m)}
			})
		} else {
			emit(func(fr *frame) { fr.regs[d] = V{o: &strIter{a.get(fr), 0}} })
		}
	case *ssa.Next:
		d, a := cc.alloc(x), cc.op(x.Iter)
		kt := x.Type().(*types.Tuple)
		emit(func(fr *frame) { fr.regs[d] = in.next(a.get(fr), kt) })
	case *ssa.Select:
		d := cc.alloc(x)
		type st struct {
			ch, send opnd
			isSend   bool
			et       types.Type
		}
		var sts []st
		for _, s := range x.States {
			e := st{ch: cc.op(s.Chan), isSend: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if e.isSend {
				e.send = cc.op(s.Send)
			}
			sts = append(sts, e)
		}
		blocking := x.Blocking
		emit(func(fr *frame) {
			res := []V{cint(-1), cbool(false)}
			for _, s := range sts {
				if !s.isSend {
					res = append(res, in.zero(s.et))
				}
			}
			ri := 2
			done := false
			for i, s := range sts {
				ch, _ := s.ch.get(fr).o.(*Chan)
				if s.isSend {
					if ch != nil && !done {
						if ch.closed {
							in.goPanicStr("send on closed channel")
						}
						if len(ch.buf) < ch.cap {
							in.touchChan(ch)
							ch.buf = append(ch.buf, in.sent(in.copyVal(s.send.get(fr))))
							res[0] = cint(i)
							done = true
						}
					}
				} else {
					if ch != nil && !done && (len(ch.buf) > 0 || ch.closed) {
						v, ok := in.chanRecv(ch, s.et, false)
						res[0], res[1], res[ri] = cint(i), cbool(ok), v
						done = true
					}
					ri++
				}
			}
			if !done && blocking {
				in.abort("blocking select")
			}
			fr.regs[d] = V{o: res}
		})
	case *ssa.Send:
		c, v := cc.op(x.Chan), cc.op(x.X)
		emit(func(fr *frame) {
			ch, _ := c.get(fr).o.(*Chan)
			if ch == nil || len(ch.buf) >= ch.cap {
				in.abort("blocking send")
			}
			in.touchChan(ch)
			ch.buf = append(ch.buf, in.sent(in.copyVal(v.get(fr))))
		})
	case *ssa.Call:
		d := cc.alloc(x)
		f := cc.call(&x.Call, x.Pos())
		emit(func(fr *frame) { fr.regs[d] = f(fr)() })
	case *ssa.Defer:
		cc.c.hasDef = true
		f := cc.call(&x.Call, x.Pos())
		emit(func(fr *frame) {
			g := f(fr)
			fr.defers = append(fr.defers, func() { g() })
		})
	case *ssa.Go:
		emit(func(fr *frame) { in.abort("go statement") })
	case *ssa.RunDefers:
		emit(func(fr *frame) { in.runDefers(fr) })
	case *ssa.Panic:
		a := cc.op(x.X)
		cb.term = func(fr *frame) int {
			v := a.get(fr)
			if in.spec {
				panic(specFail{})
			}
			if v.o == nil {
				in.rtPanic("panic called with nil argument")
			}
			panic(&targetPanic{v, in.panicMsg(v), in.here()})
		}
	case *ssa.Jump:
		n := cb.sb.Succs[0].Index
		cb.term = func(fr *frame) int { return n }
	case *ssa.If:
		c := cc.op(x.Cond)
		cb.cond = c
		cb.isIf = true
		t, f := cb.sb.Succs[0].Index, cb.sb.Succs[1].Index
		cb.term = func(fr *frame) int {
			v := c.get(fr)
			if v.o == nil {
				if v.n != 0 {
					return t
				}
				return f
			}
			if k, ok := in.settled(v.o.(*Term)); ok {
				if k {
					return t
				}
				return f
			}
			if b, ok := in.tryMerge(fr, cb, v.o.(*Term)); ok {
				return b
			}
			if in.decide(v.o.(*Term)) {
				return t
			}
			return f
		}
	case *ssa.Return:
		rs := cc.ops(x.Results)
		switch len(rs) {
		case 0:
			cb.term = func(fr *frame) int { return -1 }
		case 1:
			r := rs[0]
			cb.term = func(fr *frame) int { fr.result = r.get(fr); return -1 }
		default:
			cb.term = func(fr *frame) int {
				o := make([]V, len(rs))
				for i := range rs {
					o[i] = rs[i].get(fr)
				}
				fr.result = V{o: o}
				return -1
			}
		}
	case *ssa.SliceToArrayPointer:
		d, a := cc.alloc(x), cc.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		emit(func(fr *frame) {
			s, _ := a.get(fr).o.(*Slice)
			if s == nil {
				if n == 0 {
					fr.regs[d] = V{}
					return
				}
				in.rtPanic("cannot convert slice to array pointer")
			}
			if s.len < n {
				in.rtPanic("cannot convert slice to array pointer")
			}
			// sound for reads only: copies the window
			na := &Agg{e: s.a.e[s.off : s.off+n : s.off+n], ep: s.a.ep}
			c := in.newAgg(1)
			c.e[0] = V{o: AV{na}}
			fr.regs[d] = V{o: c}
		})
	default:
		s := fmt.Sprintf("instruction %T", ins)
		emit(func(fr *frame) { in.abort(s) })
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// symPtr points at element idx (symbolic) of a window of an aggregate.
type symPtr struct {
	a   *Agg
	off int
	n   int
	idx *Term
}

func (in *Interp) symIndexAddr(iv V, it *types.Basic, n int) *Term {
	w := width(it)
	t := in.term(iv, w)
	ok := in.p.True
	if w < 64 && uint64(n) > mask(w) && !isSigned(it) {
		ok = in.p.True
	} else if isSigned(it) && w < 64 {
		x := in.p.SExt(t, 64)
		ok = in.p.Cmp(OUlt, x, in.p.Const(64, uint64(n)))
	} else {
		ok = in.p.Cmp(OUlt, t, in.p.Const(w, uint64(n)))
	}
	if !in.decide(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t
}

func (in *Interp) strIndex(s V, iv V, it *types.Basic) V {
	n := strLen(s)
	if iv.o != nil {
		t := in.symIndexAddr(iv, it, n)
		if n > 600 {
			k := in.concretize(t)
			return tv(in.strByte(s, int(k)))
		}
		r := in.strByte(s, n-1)
		for i := n - 2; i >= 0; i-- {
			r = in.p.Ite(in.p.Eq(t, in.p.Const(t.w, uint64(i))), in.strByte(s, i), r)
		}
		return tv(r)
	}
	k := sext(iv.n, width(it))
	if !isSigned(it) {
		k = int64(iv.n)
	}
	if k < 0 || k >= int64(n) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	switch x := s.o.(type) {
	case string:
		return V{n: uint64(x[k])}
	case *SStr:
		return tv(x.b[k])
	}
	return V{}
}

func (in *Interp) load2(p V) V {
	sp, ok := p.o.(*symPtr)
	if !ok {
		return in.load(p)
	}
	return in.symLoad(sp, 0)
}

func (in *Interp) symLoad(sp *symPtr, w uint8) V {
	// all elements scalar?
	scalar := sp.n <= 600
	if scalar {
		for i := 0; i < sp.n; i++ {
			o := sp.a.e[sp.off+i].o
			if o != nil {
				if _, ok := o.(*Term); !ok {
					scalar = false
					break
				}
			}
		}
	}
	if w == 0 && scalar {
		// width unknown: pick it from any symbolic element, else 64
		scalar = false
	}
	if !scalar {
		k := in.concretize(sp.idx)
		return in.load(V{n: uint64(sp.off) + k, o: sp.a})
	}
	if w == 255 {
		w = 0
	}
	r := in.term(sp.a.e[sp.off+sp.n-1], w)
	for i := sp.n - 2; i >= 0; i-- {
		e := in.term(sp.a.e[sp.off+i], w)
		if e == r {
			continue
		}
		r = in.p.Ite(in.p.Eq(sp.idx, in.p.Const(sp.idx.w, uint64(i))), e, r)
	}
	return tv(r)
}

func (in *Interp) symStore(sp *symPtr, v V) {
	if in.spec {
		panic(specFail{})
	}
	k := in.concretize(sp.idx)
	in.store(V{n: uint64(sp.off) + k, o: sp.a}, v)
}

func (in *Interp) goPanicStr(msg string) {
	in.rtPanic(msg)
}

func (in *Interp) rtPanicConv(msg string) {
	if in.spec {
		panic(specFail{})
	}
	// *runtime.TypeAssertionError is an error; errorString is close enough
	in.rtPanic(msg)
}

func (in *Interp) panicMsg(v V) string {
	if i, ok := v.o.(*Iface); ok {
		return in.show(v, 5)[:min(200, len(in.show(v, 5)))] + " (" + i.t.str + ")"
	}
	return in.show(v, 3)
}

func (in *Interp) sizeVal(v V, t types.Type, msg string) int {
	b := t.Underlying().(*types.Basic)
	w := width(b)
	if v.o != nil {
		tm := in.term(v, w)
		if isSigned(b) {
			tm = in.p.SExt(tm, 64)
		} else {
			tm = in.p.ZExt(tm, 64)
		}
		if !in.decide(in.p.Cmp(OUlt, tm, in.p.Const(64, 1<<40))) {
			in.rtPanic(msg)
		}
		v = V{n: in.concretize(tm)}
		w = 64
	}
	k := sext(v.n, w)
	if !isSigned(b) {
		k = int64(v.n)
	}
	if k < 0 || k > 1<<40 {
		in.rtPanic(msg)
	}
	if k > 1<<24 {
		in.abort("huge allocation")
	}
	return int(k)
}

func (in *Interp) makeSlice(et types.Type, n, m int) V {
	a := in.newAgg(m)
	if m > 0 {
		z := in.zero(et)
		if _, ok := z.o.(AV); ok {
			a.e[0] = z
			for i := 1; i < m; i++ {
				a.e[i] = in.zero(et)
			}
		} else if z.o != nil {
			for i := range a.e {
				a.e[i] = z
			}
		}
	}
	return V{o: &Slice{a, 0, n, m}}
}

func (in *Interp) fieldAddr(p V, i int) V {
	a, ok := p.o.(*Agg)
	if !ok {
		if p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if sp, ok := p.o.(*symPtr); ok {
			k := in.concretize(sp.idx)
			a = sp.a
			p = V{n: uint64(sp.off) + k, o: a}
		} else {
			in.abort(fmt.Sprintf("field of %T", p.o))
		}
	}
	s, ok := a.e[p.n].o.(AV)
	if !ok {
		in.abort(fmt.Sprintf("struct expected, got %T", a.e[p.n].o))
	}
	return V{n: uint64(i), o: s.a}
}

func (in *Interp) idxVal(v V, t types.Type) int {
	b := t.Underlying().(*types.Basic)
	w := width(b)
	if v.o != nil {
		tm := in.term(v, w)
		if isSigned(b) {
			tm = in.p.SExt(tm, 64)
		} else {
			tm = in.p.ZExt(tm, 64)
		}
		// out of any range: one representative is enough
		if !in.decide(in.p.Cmp(OUlt, tm, in.p.Const(64, 1<<20))) {
			return -1
		}
		return int(in.concretize(tm))
	}
	if isSigned(b) {
		return int(sext(v.n, w))
	}
	if v.n > 1<<62 {
		return -1
	}
	return int(v.n)
}

func (in *Interp) slice(x V, xt types.Type, lo, hi, mx func(int) int) V {
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		n := strLen(x)
		h := hi(n)
		l := lo(0)
		if h < 0 || h > n {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return subStr(x, l, h)
	case *types.Pointer:
		if x.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := x.o.(*Agg).e[x.n].o.(AV).a
		n := len(arr.e)
		h := hi(n)
		l := lo(0)
		m := mx(n)
		if m < 0 || m > n || h < 0 || h > m || l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d]", l, h, m))
		}
		return V{o: &Slice{arr, l, h - l, m - l}}
	case *types.Slice:
		_ = u
		s, _ := x.o.(*Slice)
		ln, cp := 0, 0
		if s != nil {
			ln, cp = s.len, s.cap
		}
		h := hi(ln)
		l := lo(0)
		m := mx(cp)
		if m < 0 || m > cp || h < 0 || h > m || l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if s == nil {
			return x
		}
		return V{o: &Slice{s.a, s.off + l, h - l, m - l}}
	}
	in.abort("slice of " + xt.String())
	return V{}
}

func (in *Interp) implements(t, it *RType) bool {
	i := it.u.(*types.Interface)
	for k := 0; k < i.NumMethods(); k++ {
		m := i.Method(k)
		if in.method(t, m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

func (in *Interp) touchChan(c *Chan) {
	if c.ep == in.ep {
		return
	}
	save := *c
	save.buf = append([]V(nil), c.buf...)
	in.trail = append(in.trail, trailEnt{undo: func() { *c = save }})
	c.ep = in.ep
}

func (in *Interp) chanRecv(ch *Chan, et types.Type, block bool) (V, bool) {
	if len(ch.buf) > 0 {
		in.touchChan(ch)
		v := ch.buf[0]
		if in.mon != nil {
			in.claim(v, in.ep)
		}
		ch.buf = append([]V(nil), ch.buf[1:]...)
		return v, true
	}
	if ch.closed {
		return in.zero(et), false
	}
	in.abort("blocking receive")
	return V{}, false
}

func (in *Interp) next(it V, tt *types.Tuple) V {
	switch x := it.o.(type) {
	case *mapIter:
		if x.m != nil {
			for e, more := x.step(); more; e, more = x.step() {
				if e.live {
					return V{o: []V{cbool(true), e.k, e.v}}
				}
			}
		}
		return V{o: []V{cbool(false), in.zeroT(tt.At(1).Type()), in.zeroT(tt.At(2).Type())}}
	case *strIter:
		n := strLen(x.s)
		if x.pos >= n {
			return V{o: []V{cbool(false), V{}, V{}}}
		}
		p := x.pos
		r, sz := in.decodeRune(x.s, p)
		x.pos += sz
		return V{o: []V{cbool(true), cint(p), r}}
	}
	in.abort("next")
	return V{}
}

func (in *Interp) zeroT(t types.Type) V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return V{}
	}
	return in.zero(t)
}

// decodeRune decodes one rune at position p, forking on symbolic bytes.
func (in *Interp) decodeRune(s V, p int) (V, int) {
	b0 := in.strByte(s, p)
	if b0.isConst() && b0.n < 0x80 {
		return V{n: b0.n}, 1
	}
	if !b0.isConst() {
		if in.decide(in.p.Cmp(OUlt, b0, in.p.bytes[0x80])) {
			return tv(in.p.ZExt(b0, 32)), 1
		}
	}
	fn := in.pkgFunc("unicode/utf8", "DecodeRuneInString")
	r := in.callFn(fn, []V{subStr(s, p, strLen(s))}).o.([]V)
	return r[0], int(in.concreteInt(r[1]))
}

func (in *Interp) concreteInt(v V) int64 {
	if v.o == nil {
		return int64(v.n)
	}
	return int64(in.concretize(in.term(v, 64)))
}

func (in *Interp) pkgFunc(path, name string) *ssa.Function {
	pk := in.prog.ImportedPackage(path)
	if pk == nil {
		in.abort("package " + path + " not loaded")
	}
	f := pk.Func(name)
	if f == nil {
		in.abort("no function " + path + "." + name)
	}
	return f
}

// ---- calling

func (cc *compiler) call(c *ssa.CallCommon, pos token.Pos) func(fr *frame) func() V {
	in := cc.in
	args := cc.ops(c.Args)
	getArgs := func(fr *frame, extra int) []V {
		r := make([]V, len(args)+extra)
		for i := range args {
			r[i+extra] = args[i].get(fr)
		}
		return r
	}
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		name := c.Method.Name()
		pkg := c.Method.Pkg()
		return func(fr *frame) func() V {
			rv := recv.get(fr)
			i, _ := rv.o.(*Iface)
			as := getArgs(fr, 1)
			return func() V {
				fr.pos = pos
				if i == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				as[0] = i.v
				fn := in.method(i.t, pkg, name)
				if fn == nil {
					in.abort("no method " + name + " on " + i.t.str)
				}
				return in.invoke(fr, fn, as, nil)
			}
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		b := cc.builtin(f, c)
		return func(fr *frame) func() V {
			as := getArgs(fr, 0)
			return func() V { return b(fr, as) }
		}
	case *ssa.Function:
		var cf *cfn
		return func(fr *frame) func() V {
			as := getArgs(fr, 0)
			return func() V {
				fr.pos = pos
				if cf == nil {
					cf = in.compile(f)
				}
				return in.run(fr, cf, as, nil)
			}
		}
	}
	fv := cc.op(c.Value)
	return func(fr *frame) func() V {
		fn := fv.get(fr)
		as := getArgs(fr, 0)
		return func() V {
			fr.pos = pos
			return in.callFuncVal(fr, fn, as)
		}
	}
}

func (in *Interp) callFuncVal(fr *frame, fn V, as []V) V {
	f, _ := fn.o.(*Func)
	if f == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(in, as)
	}
	return in.invoke(fr, f.fn, as, f.env)
}

func (in *Interp) invoke(fr *frame, fn *ssa.Function, as, env []V) V {
	return in.run(fr, in.compile(fn), as, env)
}

func (in *Interp) callFn(fn *ssa.Function, as []V) V {
	return in.run(in.curF, in.compile(fn), as, nil)
}

const maxDepth = 40000

func (in *Interp) run(caller *frame, c *cfn, args, env []V) V {
	if in.spec {
		panic(specFail{})
	}
	if c.intr != nil {
		if r, ok := c.intr(in, caller, args); ok {
			return r
		}
	}
	if c.noBody {
		in.abort("function without body: " + c.name)
	}
	fr := &frame{in: in, fn: c, regs: make([]V, c.nregs), caller: caller}
	for i, s := range c.params {
		fr.regs[s] = args[i]
	}
	for i, s := range c.free {
		fr.regs[s] = env[i]
	}
	in.covered[c.fn] = true
	in.depth++
	if in.depth > maxDepth {
		in.abort("call depth")
	}
	save := in.curF
	in.curF = fr
	if in.deferTarget != nil {
		fr.deferOf = in.deferTarget
		in.deferTarget = nil
	}
	if !c.hasDef {
		in.exec(fr, 0)
	} else {
		in.execDefer(fr)
	}
	in.curF = save
	in.depth--
	return fr.result
}

func (in *Interp) exec(fr *frame, block int) {
	c := fr.fn
	b := c.blocks[block]
	for {
		in.steps += int64(len(b.code) + 1)
		if in.steps > in.maxSteps {
			panic(pathAbort{"step limit"})
		}
		for _, f := range b.code {
			f(fr)
		}
		fr.block = block
		n := b.term(fr)
		if n < 0 {
			return
		}
		nb := c.blocks[n]
		if len(nb.phis) > 0 {
			if in.merged != nil {
				m := in.merged
				in.merged = nil
				for i := range nb.phis {
					fr.regs[nb.phis[i].dst] = m[i]
				}
			} else {
				e := -1
				for i, p := range nb.preds {
					if p == fr.block {
						e = i
						break
					}
				}
				in.doPhis(fr, nb, e)
			}
		} else {
			in.merged = nil
		}
		block, b = n, nb
	}
}

func (in *Interp) doPhis(fr *frame, nb *cblock, e int) {
	if len(nb.phis) == 1 {
		fr.regs[nb.phis[0].dst] = nb.phis[0].edges[e].get(fr)
		return
	}
	var tmp [16]V
	t := tmp[:0]
	for i := range nb.phis {
		t = append(t, nb.phis[i].edges[e].get(fr))
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = t[i]
	}
}

func (in *Interp) execDefer(fr *frame) {
	depth := in.depth
	func() {
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				if re, isRE := r.(runtime.Error); isRE {
					panic(engineBug(re))
				}
				panic(r)
			}
			in.depth = depth
			in.curF = fr
			fr.panicking = tp
		}()
		in.exec(fr, 0)
		ok = true
	}()
	if fr.panicking != nil {
		in.runDefersNoThrow(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.recov >= 0 {
			in.exec(fr, fr.fn.recov)
		} else {
			res := fr.fn.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = in.zero(res.At(0).Type())
			default:
				fr.result = in.zero(res)
			}
		}
	}
}

func engineBug(e runtime.Error) pathAbort {
	buf := make([]byte, 4096)
	n := runtime.Stack(buf, false)
	return pathAbort{"engine: " + e.Error() + "\n" + string(buf[:n])}
}

func (in *Interp) runDefersNoThrow(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := in.depth
		func() {
			ok := false
			defer func() {
				in.deferTarget = nil
				if ok {
					return
				}
				r := recover()
				tp, is := r.(*targetPanic)
				if !is {
					panic(r)
				}
				in.depth = depth
				in.curF = fr
				fr.panicking = tp
			}()
			in.deferTarget = fr
			d()
			ok = true
		}()
	}
}

func (in *Interp) runDefers(fr *frame) {
	in.runDefersNoThrow(fr)
	if fr.panicking != nil {
		tp := fr.panicking
		fr.panicking = nil
		panic(tp)
	}
}
