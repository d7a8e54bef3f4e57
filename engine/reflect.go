package main

import (
	"go/token"
	"go/types"
	"math"
	"reflect"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// RV is the payload of an interpreted reflect.Value.
type RV struct {
	t    *RType
	addr bool
	ptr  V
	val  V
	ro   bool
}

type rMapIter struct {
	rv   *RV
	m    *Map
	pos  int
	k, v V
}

func (in *Interp) mkRV(r *RV) V {
	a := in.newAgg(3)
	if r != nil {
		a.e[0] = V{o: r.t}
		a.e[1] = V{o: r}
		a.e[2] = V{n: uint64(kindOf(r.t.t))}
	}
	return V{o: AV{a}}
}

func (in *Interp) rv(v V) *RV {
	av, ok := v.o.(AV)
	if !ok {
		in.abort("reflect.Value expected")
	}
	r, _ := av.a.e[1].o.(*RV)
	return r
}

func (in *Interp) rvMust(v V, what string) *RV {
	r := in.rv(v)
	if r == nil {
		in.reflPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

// reflPanic raises a *reflect.ValueError-like panic.
func (in *Interp) reflPanic(msg string) {
	if in.spec {
		panic(specFail{})
	}
	panic(&targetPanic{V{o: &Iface{in.rtype(types.Typ[types.String]), cstr(msg)}}, msg, in.here()})
}

func (in *Interp) get(r *RV) V {
	if r.addr {
		return in.load(r.ptr)
	}
	return r.val
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (in *Interp) rtypeIface(r *RType) V {
	if r.rt.o == nil {
		tn := in.prog.ImportedPackage("reflect").Type("rtype")
		r.rt = V{o: &Iface{in.rtype(types.NewPointer(tn.Type())), V{o: r}}}
	}
	return r.rt
}

func (in *Interp) liteIface(r *RType) V {
	tn := in.prog.ImportedPackage("internal/reflectlite").Type("rtype")
	return V{o: &Iface{in.rtype(tn.Type()), V{o: r}}}
}

func (in *Interp) rtOf(v V) *RType {
	switch x := v.o.(type) {
	case *RType:
		return x
	case *Iface:
		if r, ok := x.v.o.(*RType); ok {
			return r
		}
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.abort("reflect.Type expected")
	return nil
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			n += "["
			for i := 0; i < ta.Len(); i++ {
				if i > 0 {
					n += ","
				}
				n += types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() })
			}
			n += "]"
		}
		return n
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func typePkg(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (in *Interp) elemType(r *RType) *RType {
	if r.elem == nil {
		switch u := r.u.(type) {
		case *types.Pointer:
			r.elem = in.rtype(u.Elem())
		case *types.Slice:
			r.elem = in.rtype(u.Elem())
		case *types.Array:
			r.elem = in.rtype(u.Elem())
		case *types.Map:
			r.elem = in.rtype(u.Elem())
		case *types.Chan:
			r.elem = in.rtype(u.Elem())
		default:
			in.reflPanic("reflect: Elem of invalid type " + r.str)
		}
	}
	return r.elem
}

func (in *Interp) ptrTo(r *RType) *RType {
	if r.ptrTo == nil {
		r.ptrTo = in.rtype(types.NewPointer(r.t))
	}
	return r.ptrTo
}

func (in *Interp) structField(r *RType, i int) V {
	st := r.u.(*types.Struct)
	f := st.Field(i)
	a := in.newAgg(7)
	a.e[0] = cstr(f.Name())
	a.e[1] = cstr("")
	if !f.Exported() && f.Pkg() != nil {
		a.e[1] = cstr(f.Pkg().Path())
	}
	a.e[2] = in.rtypeIface(in.rtype(f.Type()))
	a.e[3] = cstr(st.Tag(i))
	a.e[4] = V{}
	a.e[5] = in.sliceOf([]V{cint(i)})
	a.e[6] = cbool(f.Embedded())
	return V{o: AV{a}}
}

// exported methods sorted by name
func (in *Interp) msetOf(r *RType) []*types.Selection {
	if r.mset == nil {
		ms := in.prog.MethodSets.MethodSet(r.t)
		out := []*types.Selection{}
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				out = append(out, ms.At(i))
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
		r.mset = out
	}
	return r.mset
}

func (in *Interp) assignConv(v V, from, to *RType) V {
	if from == to {
		return v
	}
	_, ti := to.u.(*types.Interface)
	_, fi := from.u.(*types.Interface)
	if ti && !fi {
		return V{o: &Iface{from, in.copyVal(v)}}
	}
	return v
}

func (in *Interp) toIface(r *RV) V {
	v := in.get(r)
	if _, ok := r.t.u.(*types.Interface); ok {
		return v
	}
	return V{o: &Iface{r.t, in.copyVal(v)}}
}

func (in *Interp) rvField(r *RV, i int) *RV {
	st, ok := r.t.u.(*types.Struct)
	if !ok {
		in.reflPanic("reflect: call of reflect.Value.Field on " + kindOf(r.t.t).String() + " Value")
	}
	if i < 0 || i >= st.NumFields() {
		in.reflPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	o := &RV{t: in.rtype(f.Type()), ro: r.ro || !f.Exported()}
	if r.addr {
		o.addr = true
		o.ptr = in.fieldAddr(r.ptr, i)
	} else {
		o.val = r.val.o.(AV).a.e[i]
	}
	return o
}

func (in *Interp) rvElem(r *RV) *RV {
	v := in.get(r)
	switch r.t.u.(type) {
	case *types.Interface:
		i, _ := v.o.(*Iface)
		if i == nil {
			return nil
		}
		return &RV{t: i.t, val: i.v, ro: r.ro}
	case *types.Pointer:
		if v.o == nil {
			return nil
		}
		return &RV{t: in.elemType(r.t), addr: true, ptr: v, ro: r.ro}
	}
	in.reflPanic("reflect: call of reflect.Value.Elem on " + kindOf(r.t.t).String() + " Value")
	return nil
}

func (in *Interp) rvLen(r *RV) int {
	v := in.get(r)
	switch x := v.o.(type) {
	case string, *SStr:
		return strLen(v)
	case *Slice:
		return x.len
	case *Map:
		return x.n
	case AV:
		if _, ok := r.t.u.(*types.Array); ok {
			return len(x.a.e)
		}
	case *Chan:
		return len(x.buf)
	case nil:
		switch r.t.u.(type) {
		case *types.Slice, *types.Map, *types.Chan:
			return 0
		}
	}
	in.reflPanic("reflect: call of reflect.Value.Len on " + kindOf(r.t.t).String() + " Value")
	return 0
}

func (in *Interp) rvIndex(r *RV, i int) *RV {
	switch u := r.t.u.(type) {
	case *types.Slice:
		s, _ := in.get(r).o.(*Slice)
		if s == nil || i < 0 || i >= s.len {
			in.reflPanic("reflect: slice index out of range")
		}
		return &RV{t: in.elemType(r.t), addr: true, ptr: V{n: uint64(s.off + i), o: s.a}, ro: r.ro}
	case *types.Array:
		if i < 0 || i >= int(u.Len()) {
			in.reflPanic("reflect: array index out of range")
		}
		if r.addr {
			arr := r.ptr.o.(*Agg).e[r.ptr.n].o.(AV).a
			return &RV{t: in.elemType(r.t), addr: true, ptr: V{n: uint64(i), o: arr}, ro: r.ro}
		}
		return &RV{t: in.elemType(r.t), val: r.val.o.(AV).a.e[i], ro: r.ro}
	case *types.Basic:
		v := in.get(r)
		if i < 0 || i >= strLen(v) {
			in.reflPanic("reflect: string index out of range")
		}
		return &RV{t: in.rtype(types.Typ[types.Uint8]), val: tv(in.strByte(v, i))}
	}
	in.reflPanic("reflect: call of reflect.Value.Index on " + kindOf(r.t.t).String() + " Value")
	return nil
}

func (in *Interp) rvSet(r *RV, v V) {
	if !r.addr || r.ro {
		in.reflPanic("reflect: reflect.Value.Set using unaddressable value or unexported field")
	}
	in.store(r.ptr, v)
}

func (in *Interp) rvIsNil(r *RV) bool {
	switch r.t.u.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return in.get(r).o == nil
	case *types.Basic:
		if kindOf(r.t.t) == reflect.UnsafePointer {
			return in.get(r).o == nil
		}
	}
	in.reflPanic("reflect: call of reflect.Value.IsNil on " + kindOf(r.t.t).String() + " Value")
	return false
}

func (in *Interp) isZero(v V, t types.Type) *Term {
	p := in.p
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.Bool(strLen(v) == 0)
		case u.Info()&types.IsComplex != 0:
			return p.Bool(v.o.(complex128) == 0)
		case u.Kind() == types.UnsafePointer:
			return p.Bool(v.o == nil)
		}
		w := width(u)
		return p.Eq(in.term(v, w), p.Const(w, 0))
	case *types.Struct:
		r := p.True
		a := v.o.(AV).a
		for i := range a.e {
			r = p.And(r, in.isZero(a.e[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := p.True
		a := v.o.(AV).a
		for i := range a.e {
			r = p.And(r, in.isZero(a.e[i], u.Elem()))
		}
		return r
	}
	return p.Bool(v.o == nil)
}

func (in *Interp) int64of(r *RV) V {
	b, ok := r.t.u.(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || !isSigned(b) {
		in.reflPanic("reflect: call of reflect.Value.Int on " + kindOf(r.t.t).String() + " Value")
	}
	return tv(in.p.SExt(in.term(in.get(r), width(b)), 64))
}

func (in *Interp) boundMethod(fr *frame, r *RV, sel *types.Selection) *RV {
	fn := in.prog.MethodValue(sel)
	recv := in.get(r)
	if r.addr {
		recv = in.copyVal(recv)
	}
	sig := sel.Type().(*types.Signature)
	f := &Func{fn: fn}
	f.nat = func(in *Interp, args []V) V {
		return in.run(in.curF, in.compile(fn), append([]V{recv}, args...), nil)
	}
	return &RV{t: in.rtype(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())), val: V{o: f}}
}

func init() {
	type tf = func(in *Interp, r *RType, a []V) V
	tmeth := func(name string, f tf) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) { return f(in, in.rtOf(a[0]), a), true }, "(*reflect.rtype)."+name)
		reg(func(in *Interp, fr *frame, a []V) (V, bool) {
			r := f(in, in.rtOf(a[0]), a)
			if i, ok := r.o.(*Iface); ok {
				if rt, ok := i.v.o.(*RType); ok {
					return in.liteIface(rt), true
				}
			}
			return r, true
		}, "(internal/reflectlite.rtype)."+name)
	}
	tmeth("Kind", func(in *Interp, r *RType, a []V) V { return cint(int(kindOf(r.t))) })
	tmeth("Elem", func(in *Interp, r *RType, a []V) V { return in.rtypeIface(in.elemType(r)) })
	tmeth("Key", func(in *Interp, r *RType, a []V) V { return in.rtypeIface(in.rtype(r.u.(*types.Map).Key())) })
	tmeth("Name", func(in *Interp, r *RType, a []V) V { return cstr(typeName(r.t)) })
	tmeth("PkgPath", func(in *Interp, r *RType, a []V) V { return cstr(typePkg(r.t)) })
	tmeth("String", func(in *Interp, r *RType, a []V) V { return cstr(r.str) })
	tmeth("Len", func(in *Interp, r *RType, a []V) V { return cint(int(r.u.(*types.Array).Len())) })
	tmeth("Size", func(in *Interp, r *RType, a []V) V { return cint(in.elemSize(r.t)) })
	tmeth("Bits", func(in *Interp, r *RType, a []V) V { return cint(in.elemSize(r.t) * 8) })
	tmeth("NumField", func(in *Interp, r *RType, a []V) V {
		s, ok := r.u.(*types.Struct)
		if !ok {
			in.reflPanic("reflect: NumField of non-struct type " + r.str)
		}
		return cint(s.NumFields())
	})
	tmeth("Field", func(in *Interp, r *RType, a []V) V { return in.structField(r, int(a[1].n)) })
	tmeth("FieldByName", func(in *Interp, r *RType, a []V) V {
		st := r.u.(*types.Struct)
		nm := in.mustStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return V{o: []V{in.structField(r, i), cbool(true)}}
			}
		}
		sf := in.prog.ImportedPackage("reflect").Type("StructField").Type()
		return V{o: []V{in.zero(sf), cbool(false)}}
	})
	tmeth("NumMethod", func(in *Interp, r *RType, a []V) V {
		if i, ok := r.u.(*types.Interface); ok {
			return cint(i.NumMethods())
		}
		return cint(len(in.msetOf(r)))
	})
	tmeth("Implements", func(in *Interp, r *RType, a []V) V { return cbool(in.implements(r, in.rtOf(a[1]))) })
	tmeth("AssignableTo", func(in *Interp, r *RType, a []V) V { return cbool(types.AssignableTo(r.t, in.rtOf(a[1]).t)) })
	tmeth("ConvertibleTo", func(in *Interp, r *RType, a []V) V { return cbool(types.ConvertibleTo(r.t, in.rtOf(a[1]).t)) })
	tmeth("Comparable", func(in *Interp, r *RType, a []V) V { return cbool(types.Comparable(r.t)) })
	tmeth("IsVariadic", func(in *Interp, r *RType, a []V) V { return cbool(r.u.(*types.Signature).Variadic()) })
	tmeth("NumIn", func(in *Interp, r *RType, a []V) V { return cint(r.u.(*types.Signature).Params().Len()) })
	tmeth("NumOut", func(in *Interp, r *RType, a []V) V { return cint(r.u.(*types.Signature).Results().Len()) })
	tmeth("In", func(in *Interp, r *RType, a []V) V {
		return in.rtypeIface(in.rtype(r.u.(*types.Signature).Params().At(int(a[1].n)).Type()))
	})
	tmeth("Out", func(in *Interp, r *RType, a []V) V {
		return in.rtypeIface(in.rtype(r.u.(*types.Signature).Results().At(int(a[1].n)).Type()))
	})
	tmeth("OverflowInt", func(in *Interp, r *RType, a []V) V { return overflow(in, r, a[1], true) })
	tmeth("OverflowUint", func(in *Interp, r *RType, a []V) V { return overflow(in, r, a[1], false) })

	fn := func(name string, f func(in *Interp, fr *frame, a []V) V) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) { return f(in, fr, a), true }, "reflect."+name)
	}
	fn("TypeOf", func(in *Interp, fr *frame, a []V) V {
		i, _ := a[0].o.(*Iface)
		if i == nil {
			return V{}
		}
		return in.rtypeIface(i.t)
	})
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		i, _ := a[0].o.(*Iface)
		if i == nil {
			return V{}, true
		}
		return in.liteIface(i.t), true
	}, "internal/reflectlite.TypeOf")
	valueOf := func(in *Interp, fr *frame, a []V) V {
		i, _ := a[0].o.(*Iface)
		if i == nil {
			return in.mkRV(nil)
		}
		return in.mkRV(&RV{t: i.t, val: i.v})
	}
	fn("ValueOf", valueOf)
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return valueOf(in, fr, a), true }, "internal/reflectlite.ValueOf")
	fn("New", func(in *Interp, fr *frame, a []V) V {
		r := in.rtOf(a[0])
		c := in.newAgg(1)
		c.e[0] = in.zero(r.t)
		return in.mkRV(&RV{t: in.ptrTo(r), val: V{o: c}})
	})
	fn("NewAt", func(in *Interp, fr *frame, a []V) V {
		return in.mkRV(&RV{t: in.ptrTo(in.rtOf(a[0])), val: a[1]})
	})
	fn("Zero", func(in *Interp, fr *frame, a []V) V {
		r := in.rtOf(a[0])
		return in.mkRV(&RV{t: r, val: in.zero(r.t)})
	})
	fn("Indirect", func(in *Interp, fr *frame, a []V) V {
		r := in.rv(a[0])
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.u.(*types.Pointer); ok {
			return in.mkRV(in.rvElem(r))
		}
		return a[0]
	})
	mkSlice := func(in *Interp, fr *frame, a []V) V {
		r := in.rtOf(a[0])
		n, m := int64(in.concreteInt(a[1])), int64(in.concreteInt(a[2]))
		switch {
		case n < 0:
			in.reflPanic("reflect.MakeSlice: negative len")
		case m < 0:
			in.reflPanic("reflect.MakeSlice: negative cap")
		case n > m:
			in.reflPanic("reflect.MakeSlice: len > cap")
		case m > 1<<40:
			in.reflPanic("reflect.MakeSlice: cap out of range")
		case m > 1<<24:
			in.abort("huge allocation")
		}
		return in.mkRV(&RV{t: r, val: in.makeSlice(in.elemType(r).t, int(n), int(m))})
	}
	fn("MakeSlice", mkSlice)
	fn("MakeMap", func(in *Interp, fr *frame, a []V) V {
		return in.mkRV(&RV{t: in.rtOf(a[0]), val: V{o: in.newMap()}})
	})
	fn("MakeMapWithSize", func(in *Interp, fr *frame, a []V) V {
		return in.mkRV(&RV{t: in.rtOf(a[0]), val: V{o: in.newMap()}})
	})
	fn("Append", func(in *Interp, fr *frame, a []V) V {
		r := in.rvMust(a[0], "Append")
		et := in.elemType(r.t)
		v := in.get(r)
		if xs, _ := a[1].o.(*Slice); xs != nil {
			vals := make([]V, xs.len)
			for i := range vals {
				x := in.rvMust(xs.a.e[xs.off+i], "Append")
				vals[i] = in.assignConv(in.get(x), x.t, et)
			}
			v = in.appendSlice(v, in.sliceOf(vals), et.t)
		}
		return in.mkRV(&RV{t: r.t, val: v})
	})
	fn("AppendSlice", func(in *Interp, fr *frame, a []V) V {
		r := in.rvMust(a[0], "AppendSlice")
		return in.mkRV(&RV{t: r.t, val: in.appendSlice(in.get(r), in.get(in.rvMust(a[1], "AppendSlice")), in.elemType(r.t).t)})
	})
	fn("Copy", func(in *Interp, fr *frame, a []V) V {
		d, s := in.rvMust(a[0], "Copy"), in.rvMust(a[1], "Copy")
		var ds *Slice
		if _, ok := d.t.u.(*types.Array); ok {
			arr := d.ptr.o.(*Agg).e[d.ptr.n].o.(AV).a
			ds = &Slice{arr, 0, len(arr.e), len(arr.e)}
		} else {
			ds, _ = in.get(d).o.(*Slice)
		}
		sv := in.get(s)
		if _, ok := sv.o.(*Slice); !ok && sv.o != nil {
			if av, ok := sv.o.(AV); ok {
				sv = V{o: &Slice{av.a, 0, len(av.a.e), len(av.a.e)}}
			} else {
				sv = in.strToSlice(sv)
			}
		}
		ss, _ := sv.o.(*Slice)
		if ds == nil || ss == nil {
			return V{}
		}
		n := min(ds.len, ss.len)
		in.copyCells(ds.a, ds.off, ss.a, ss.off, n)
		return cint(n)
	})
	ptrTo := func(in *Interp, fr *frame, a []V) V { return in.rtypeIface(in.ptrTo(in.rtOf(a[0]))) }
	fn("PointerTo", ptrTo)
	fn("PtrTo", ptrTo)
	fn("SliceOf", func(in *Interp, fr *frame, a []V) V {
		return in.rtypeIface(in.rtype(types.NewSlice(in.rtOf(a[0]).t)))
	})
	fn("MapOf", func(in *Interp, fr *frame, a []V) V {
		return in.rtypeIface(in.rtype(types.NewMap(in.rtOf(a[0]).t, in.rtOf(a[1]).t)))
	})
	swapper := func(in *Interp, fr *frame, a []V) (V, bool) {
		i := a[0].o.(*Iface)
		s, _ := i.v.o.(*Slice)
		return V{o: &Func{nat: func(in *Interp, b []V) V {
			x, y := int(in.concreteInt(b[0])), int(in.concreteInt(b[1]))
			if s == nil || x >= s.len || y >= s.len {
				in.rtPanic("index out of range")
			}
			va, vb := in.copyVal(s.a.e[s.off+x]), in.copyVal(s.a.e[s.off+y])
			in.assignInto(s.a, s.off+x, vb)
			in.assignInto(s.a, s.off+y, va)
			return V{}
		}}}, true
	}
	reg(swapper, "internal/reflectlite.Swapper", "reflect.Swapper")
	fn("DeepEqual", func(in *Interp, fr *frame, a []V) V {
		x, _ := a[0].o.(*Iface)
		y, _ := a[1].o.(*Iface)
		if x == nil || y == nil {
			return cbool(x == nil && y == nil)
		}
		if x.t != y.t {
			return cbool(false)
		}
		return tv(in.deepEq(x.v, y.v, x.t.t, 0))
	})

	type vf = func(in *Interp, fr *frame, r *RV, a []V) V
	vmeth := func(name string, f vf) {
		reg(func(in *Interp, fr *frame, a []V) (V, bool) { return f(in, fr, in.rvMust(a[0], name), a), true }, "(reflect.Value)."+name, "(internal/reflectlite.Value)."+name)
	}
	reg(func(in *Interp, fr *frame, a []V) (V, bool) { return cbool(in.rv(a[0]) != nil), true }, "(reflect.Value).IsValid", "(internal/reflectlite.Value).IsValid")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		r := in.rv(a[0])
		if r == nil {
			return V{}, true
		}
		return cint(int(kindOf(r.t.t))), true
	}, "(reflect.Value).Kind", "(internal/reflectlite.Value).Kind")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		r := in.rv(a[0])
		if r == nil {
			return cstr("<invalid Value>"), true
		}
		if b, ok := r.t.u.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return in.get(r), true
		}
		return cstr("<" + r.t.str + " Value>"), true
	}, "(reflect.Value).String")
	vmeth("Type", func(in *Interp, fr *frame, r *RV, a []V) V { return in.rtypeIface(r.t) })
	vmeth("CanAddr", func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(r.addr) })
	vmeth("CanSet", func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(r.addr && !r.ro) })
	vmeth("CanInterface", func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(!r.ro) })
	vmeth("Addr", func(in *Interp, fr *frame, r *RV, a []V) V {
		if !r.addr {
			in.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return in.mkRV(&RV{t: in.ptrTo(r.t), val: r.ptr, ro: r.ro})
	})
	vmeth("UnsafeAddr", func(in *Interp, fr *frame, r *RV, a []V) V { return r.ptr })
	vmeth("Elem", func(in *Interp, fr *frame, r *RV, a []V) V { return in.mkRV(in.rvElem(r)) })
	vmeth("Field", func(in *Interp, fr *frame, r *RV, a []V) V { return in.mkRV(in.rvField(r, int(in.concreteInt(a[1])))) })
	vmeth("FieldByName", func(in *Interp, fr *frame, r *RV, a []V) V {
		st, ok := r.t.u.(*types.Struct)
		if !ok {
			in.reflPanic("reflect: call of FieldByName on non-struct")
		}
		nm := in.mustStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return in.mkRV(in.rvField(r, i))
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				in.abort("reflect FieldByName through embedding")
			}
		}
		return in.mkRV(nil)
	})
	fbi := func(in *Interp, fr *frame, r *RV, a []V) *RV {
		s, _ := a[1].o.(*Slice)
		for i := 0; s != nil && i < s.len; i++ {
			if i > 0 {
				if _, ok := r.t.u.(*types.Pointer); ok {
					if r = in.rvElem(r); r == nil {
						in.reflPanic("reflect: indirection through nil pointer to embedded struct")
					}
				}
			}
			r = in.rvField(r, int(s.a.e[s.off+i].n))
		}
		return r
	}
	vmeth("FieldByIndex", func(in *Interp, fr *frame, r *RV, a []V) V { return in.mkRV(fbi(in, fr, r, a)) })
	vmeth("FieldByIndexErr", func(in *Interp, fr *frame, r *RV, a []V) V {
		return V{o: []V{in.mkRV(fbi(in, fr, r, a)), {}}}
	})
	vmeth("NumField", func(in *Interp, fr *frame, r *RV, a []V) V {
		st, ok := r.t.u.(*types.Struct)
		if !ok {
			in.reflPanic("reflect: call of reflect.Value.NumField on non-struct")
		}
		return cint(st.NumFields())
	})
	vmeth("Index", func(in *Interp, fr *frame, r *RV, a []V) V { return in.mkRV(in.rvIndex(r, int(in.concreteInt(a[1])))) })
	vmeth("Len", func(in *Interp, fr *frame, r *RV, a []V) V { return cint(in.rvLen(r)) })
	vmeth("Cap", func(in *Interp, fr *frame, r *RV, a []V) V {
		if s, ok := in.get(r).o.(*Slice); ok {
			return cint(s.cap)
		}
		return cint(in.rvLen(r))
	})
	vmeth("IsNil", func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(in.rvIsNil(r)) })
	vmeth("IsZero", func(in *Interp, fr *frame, r *RV, a []V) V { return tv(in.isZero(in.get(r), r.t.t)) })
	vmeth("Interface", func(in *Interp, fr *frame, r *RV, a []V) V {
		if r.ro {
			in.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return in.toIface(r)
	})
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		return in.toIface(in.rvMust(a[0], "Interface")), true
	}, "reflect.valueInterface", "reflect.packEface")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		r := in.rv(a[0])
		i := in.toIface(r)
		x, _ := i.o.(*Iface)
		t := in.rtOf(a[1])
		if x == nil || x.t != t {
			return V{o: []V{in.zero(t.t), cbool(false)}}, true
		}
		return V{o: []V{x.v, cbool(true)}}, true
	}, "reflect.typeAssertUnused")
	vmeth("Bool", func(in *Interp, fr *frame, r *RV, a []V) V {
		if kindOf(r.t.t) != reflect.Bool {
			in.reflPanic("reflect: call of reflect.Value.Bool on " + kindOf(r.t.t).String() + " Value")
		}
		return in.get(r)
	})
	vmeth("Int", func(in *Interp, fr *frame, r *RV, a []V) V { return in.int64of(r) })
	vmeth("Uint", func(in *Interp, fr *frame, r *RV, a []V) V {
		b, ok := r.t.u.(*types.Basic)
		if !ok || b.Info()&types.IsUnsigned == 0 {
			in.reflPanic("reflect: call of reflect.Value.Uint on " + kindOf(r.t.t).String() + " Value")
		}
		return tv(in.p.ZExt(in.term(in.get(r), width(b)), 64))
	})
	vmeth("Float", func(in *Interp, fr *frame, r *RV, a []V) V {
		v := in.get(r)
		switch kindOf(r.t.t) {
		case reflect.Float64:
			return v
		case reflect.Float32:
			return tv(in.p.F(OFCvt, 64, in.term(v, 32), nil))
		}
		in.reflPanic("reflect: call of reflect.Value.Float on " + kindOf(r.t.t).String() + " Value")
		return V{}
	})
	vmeth("Complex", func(in *Interp, fr *frame, r *RV, a []V) V { return in.get(r) })
	vmeth("Bytes", func(in *Interp, fr *frame, r *RV, a []V) V {
		if _, ok := r.t.u.(*types.Array); ok {
			arr := r.ptr.o.(*Agg).e[r.ptr.n].o.(AV).a
			return V{o: &Slice{arr, 0, len(arr.e), len(arr.e)}}
		}
		return in.get(r)
	})
	vmeth("Pointer", func(in *Interp, fr *frame, r *RV, a []V) V {
		v := in.get(r)
		if s, ok := v.o.(*Slice); ok {
			return V{n: uint64(s.off), o: s.a}
		}
		return v
	})
	vmeth("UnsafePointer", func(in *Interp, fr *frame, r *RV, a []V) V {
		v := in.get(r)
		if s, ok := v.o.(*Slice); ok {
			return V{n: uint64(s.off), o: s.a}
		}
		return v
	})
	vmeth("Set", func(in *Interp, fr *frame, r *RV, a []V) V {
		x := in.rvMust(a[1], "Set")
		if !types.AssignableTo(x.t.t, r.t.t) {
			in.reflPanic("reflect.Set: value of type " + x.t.str + " is not assignable to type " + r.t.str)
		}
		in.rvSet(r, in.assignConv(in.get(x), x.t, r.t))
		return V{}
	})
	vmeth("SetZero", func(in *Interp, fr *frame, r *RV, a []V) V { in.rvSet(r, in.zero(r.t.t)); return V{} })
	setKind := func(name string, ok func(b *types.Basic) bool, conv func(in *Interp, b *types.Basic, v V) V) {
		vmeth(name, func(in *Interp, fr *frame, r *RV, a []V) V {
			b, is := r.t.u.(*types.Basic)
			if !is || !ok(b) {
				in.reflPanic("reflect: call of reflect.Value." + name + " on " + kindOf(r.t.t).String() + " Value")
			}
			in.rvSet(r, conv(in, b, a[1]))
			return V{}
		})
	}
	same := func(in *Interp, b *types.Basic, v V) V { return v }
	trunc := func(in *Interp, b *types.Basic, v V) V { return tv(in.p.Extract(in.term(v, 64), 0, width(b))) }
	setKind("SetBool", func(b *types.Basic) bool { return b.Info()&types.IsBoolean != 0 }, same)
	setKind("SetString", func(b *types.Basic) bool { return b.Info()&types.IsString != 0 }, same)
	setKind("SetInt", func(b *types.Basic) bool { return isSigned(b) }, trunc)
	setKind("SetUint", func(b *types.Basic) bool { return b.Info()&types.IsUnsigned != 0 }, trunc)
	setKind("SetFloat", func(b *types.Basic) bool { return b.Info()&types.IsFloat != 0 }, func(in *Interp, b *types.Basic, v V) V {
		if b.Kind() == types.Float32 {
			return tv(in.p.F(OFCvt, 32, in.term(v, 64), nil))
		}
		return v
	})
	vmeth("SetBytes", func(in *Interp, fr *frame, r *RV, a []V) V { in.rvSet(r, a[1]); return V{} })
	vmeth("SetLen", func(in *Interp, fr *frame, r *RV, a []V) V {
		s, _ := in.get(r).o.(*Slice)
		n := int(in.concreteInt(a[1]))
		if s == nil {
			if n != 0 {
				in.reflPanic("reflect: slice length out of range in SetLen")
			}
			return V{}
		}
		if n < 0 || n > s.cap {
			in.reflPanic("reflect: slice length out of range in SetLen")
		}
		in.rvSet(r, V{o: &Slice{s.a, s.off, n, s.cap}})
		return V{}
	})
	vmeth("SetCap", func(in *Interp, fr *frame, r *RV, a []V) V {
		s, _ := in.get(r).o.(*Slice)
		if s != nil {
			in.rvSet(r, V{o: &Slice{s.a, s.off, s.len, int(in.concreteInt(a[1]))}})
		}
		return V{}
	})
	vmeth("Grow", func(in *Interp, fr *frame, r *RV, a []V) V {
		s, _ := in.get(r).o.(*Slice)
		n := int(in.concreteInt(a[1]))
		ln, cp := 0, 0
		if s != nil {
			ln, cp = s.len, s.cap
		}
		if ln+n > cp {
			et := in.elemType(r.t).t
			nv := in.makeSlice(et, ln, growCap(cp, ln+n, in.elemSize(et)))
			if ln > 0 {
				in.copyCells(nv.o.(*Slice).a, 0, s.a, s.off, ln)
			}
			in.rvSet(r, nv)
		}
		return V{}
	})
	vmeth("Slice", func(in *Interp, fr *frame, r *RV, a []V) V {
		i, j := int(in.concreteInt(a[1])), int(in.concreteInt(a[2]))
		var t types.Type = r.t.t
		v := in.get(r)
		if _, ok := r.t.u.(*types.Array); ok {
			v = r.ptr
			t = types.NewPointer(r.t.t)
		}
		o := in.slice(v, t, func(int) int { return i }, func(int) int { return j }, func(d int) int { return d })
		rt := r.t
		if arr, ok := r.t.u.(*types.Array); ok {
			rt = in.rtype(types.NewSlice(arr.Elem()))
		}
		return in.mkRV(&RV{t: rt, val: o})
	})
	vmeth("Slice3", func(in *Interp, fr *frame, r *RV, a []V) V {
		i, j, k := int(in.concreteInt(a[1])), int(in.concreteInt(a[2])), int(in.concreteInt(a[3]))
		s, _ := in.get(r).o.(*Slice)
		if s == nil {
			s = &Slice{}
		}
		if i < 0 || j < i || k < j || k > s.cap {
			in.reflPanic("reflect.Value.Slice3: slice index out of bounds")
		}
		if s.a == nil {
			return in.mkRV(&RV{t: r.t, val: in.get(r)})
		}
		return in.mkRV(&RV{t: r.t, val: V{o: &Slice{s.a, s.off + i, j - i, k - i}}})
	})
	vmeth("MapIndex", func(in *Interp, fr *frame, r *RV, a []V) V {
		mt := r.t.u.(*types.Map)
		m, _ := in.get(r).o.(*Map)
		k := in.rvMust(a[1], "MapIndex")
		i := in.mapFind(m, in.assignConv(in.get(k), k.t, in.rtype(mt.Key())), mt.Key())
		if i < 0 {
			return in.mkRV(nil)
		}
		return in.mkRV(&RV{t: in.elemType(r.t), val: m.ents[i].v})
	})
	vmeth("SetMapIndex", func(in *Interp, fr *frame, r *RV, a []V) V {
		mt := r.t.u.(*types.Map)
		m, _ := in.get(r).o.(*Map)
		k := in.rvMust(a[1], "SetMapIndex")
		kv := in.assignConv(in.get(k), k.t, in.rtype(mt.Key()))
		e := in.rv(a[2])
		if e == nil {
			in.mapDelete(m, kv, mt.Key())
			return V{}
		}
		if m == nil {
			in.goPanicStr("assignment to entry in nil map")
		}
		in.mapSet(m, kv, in.assignConv(in.get(e), e.t, in.elemType(r.t)), mt.Key())
		return V{}
	})
	vmeth("MapKeys", func(in *Interp, fr *frame, r *RV, a []V) V {
		m, _ := in.get(r).o.(*Map)
		kt := in.rtype(r.t.u.(*types.Map).Key())
		vals := []V{}
		if m != nil {
			for _, e := range m.ents {
				if e.live {
					vals = append(vals, in.mkRV(&RV{t: kt, val: e.k}))
				}
			}
		}
		if in.mapRev {
			slices.Reverse(vals)
		}
		return in.sliceOf(vals)
	})
	vmeth("MapRange", func(in *Interp, fr *frame, r *RV, a []V) V {
		m, _ := in.get(r).o.(*Map)
		return V{o: &rMapIter{rv: r, m: m}}
	})
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		it := a[0].o.(*rMapIter)
		for it.m != nil && it.pos < len(it.m.ents) {
			e := it.m.ents[it.pos]
			it.pos++
			if e.live {
				it.k, it.v = e.k, e.v
				return cbool(true), true
			}
		}
		return cbool(false), true
	}, "(*reflect.MapIter).Next")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		it := a[0].o.(*rMapIter)
		return in.mkRV(&RV{t: in.rtype(it.rv.t.u.(*types.Map).Key()), val: it.k}), true
	}, "(*reflect.MapIter).Key")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		it := a[0].o.(*rMapIter)
		return in.mkRV(&RV{t: in.elemType(it.rv.t), val: it.v}), true
	}, "(*reflect.MapIter).Value")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		it := a[1].o.(*rMapIter)
		r := in.rvMust(a[0], "SetIterKey")
		in.rvSet(r, in.assignConv(it.k, in.rtype(it.rv.t.u.(*types.Map).Key()), r.t))
		return V{}, true
	}, "(reflect.Value).SetIterKey")
	reg(func(in *Interp, fr *frame, a []V) (V, bool) {
		it := a[1].o.(*rMapIter)
		r := in.rvMust(a[0], "SetIterValue")
		in.rvSet(r, in.assignConv(it.v, in.elemType(it.rv.t), r.t))
		return V{}, true
	}, "(reflect.Value).SetIterValue")
	vmeth("NumMethod", func(in *Interp, fr *frame, r *RV, a []V) V {
		if i, ok := r.t.u.(*types.Interface); ok {
			return cint(i.NumMethods())
		}
		return cint(len(in.msetOf(r.t)))
	})
	vmeth("Method", func(in *Interp, fr *frame, r *RV, a []V) V {
		return in.mkRV(in.boundMethod(fr, r, in.msetOf(r.t)[int(a[1].n)]))
	})
	vmeth("MethodByName", func(in *Interp, fr *frame, r *RV, a []V) V {
		nm := in.mustStr(a[1])
		for _, s := range in.msetOf(r.t) {
			if s.Obj().Name() == nm {
				return in.mkRV(in.boundMethod(fr, r, s))
			}
		}
		return in.mkRV(nil)
	})
	vmeth("Call", func(in *Interp, fr *frame, r *RV, a []V) V {
		sig := r.t.u.(*types.Signature)
		s, _ := a[1].o.(*Slice)
		var args []V
		n := 0
		if s != nil {
			n = s.len
		}
		if sig.Variadic() {
			in.abort("reflect variadic call")
		}
		for i := 0; i < n; i++ {
			x := in.rvMust(s.a.e[s.off+i], "Call")
			args = append(args, in.assignConv(in.get(x), x.t, in.rtype(sig.Params().At(i).Type())))
		}
		res := in.callFuncVal(fr, in.get(r), args)
		var out []V
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = []V{in.mkRV(&RV{t: in.rtype(sig.Results().At(0).Type()), val: res})}
		default:
			for i, x := range res.o.([]V) {
				out = append(out, in.mkRV(&RV{t: in.rtype(sig.Results().At(i).Type()), val: x}))
			}
		}
		return in.sliceOf(out)
	})
	vmeth("Convert", func(in *Interp, fr *frame, r *RV, a []V) V {
		t := in.rtOf(a[1])
		v := in.get(r)
		if !types.ConvertibleTo(r.t.t, t.t) {
			in.reflPanic("reflect.Value.Convert: cannot convert")
		}
		if _, ok := t.u.(*types.Interface); ok {
			return in.mkRV(&RV{t: t, val: in.assignConv(v, r.t, t)})
		}
		return in.mkRV(&RV{t: t, val: in.convert(r.t.t, t.t)(v)})
	})
	vmeth("CanConvert", func(in *Interp, fr *frame, r *RV, a []V) V {
		return cbool(types.ConvertibleTo(r.t.t, in.rtOf(a[1]).t))
	})
	vmeth("Comparable", func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(types.Comparable(r.t.t)) })
	vmeth("Equal", func(in *Interp, fr *frame, r *RV, a []V) V {
		x := in.rv(a[1])
		if x == nil || x.t != r.t {
			return cbool(false)
		}
		return tv(in.eqVal(in.get(r), in.get(x), r.t.t))
	})
	vmeth("OverflowInt", func(in *Interp, fr *frame, r *RV, a []V) V { return overflow(in, r.t, a[1], true) })
	vmeth("OverflowUint", func(in *Interp, fr *frame, r *RV, a []V) V { return overflow(in, r.t, a[1], false) })
	vmeth("OverflowFloat", func(in *Interp, fr *frame, r *RV, a []V) V {
		if kindOf(r.t.t) == reflect.Float64 {
			return cbool(false)
		}
		f := math.Abs(in.cf(a[1]))
		return cbool(f > math.MaxFloat32 && f <= math.MaxFloat64)
	})
	for _, n := range []struct {
		name string
		f    func(k reflect.Kind) bool
	}{
		{"CanInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }},
		{"CanUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }},
		{"CanFloat", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }},
	} {
		n := n
		vmeth(n.name, func(in *Interp, fr *frame, r *RV, a []V) V { return cbool(n.f(kindOf(r.t.t))) })
	}
}

func overflow(in *Interp, r *RType, v V, signed bool) V {
	b := r.u.(*types.Basic)
	w := width(b)
	x := in.term(v, 64)
	y := in.p.Extract(x, 0, w)
	if signed {
		y = in.p.SExt(y, 64)
	} else {
		y = in.p.ZExt(y, 64)
	}
	return tv(in.p.Not(in.p.Eq(x, y)))
}

func (in *Interp) deepEq(x, y V, t types.Type, d int) *Term {
	p := in.p
	if d > 60 {
		in.abort("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.o.(AV).a, y.o.(AV).a
		r := p.True
		for i := 0; i < u.NumFields(); i++ {
			r = p.And(r, in.deepEq(a.e[i], b.e[i], u.Field(i).Type(), d+1))
			if r == p.False {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.o.(AV).a, y.o.(AV).a
		r := p.True
		for i := range a.e {
			r = p.And(r, in.deepEq(a.e[i], b.e[i], u.Elem(), d+1))
		}
		return r
	case *types.Slice:
		a, _ := x.o.(*Slice)
		b, _ := y.o.(*Slice)
		if a == nil || b == nil {
			return p.Bool(a == nil && b == nil)
		}
		if a.len != b.len {
			return p.False
		}
		r := p.True
		for i := 0; i < a.len; i++ {
			r = p.And(r, in.deepEq(a.a.e[a.off+i], b.a.e[b.off+i], u.Elem(), d+1))
			if r == p.False {
				return r
			}
		}
		return r
	case *types.Pointer:
		if x.o == y.o && x.n == y.n {
			return p.True
		}
		if x.o == nil || y.o == nil {
			return p.False
		}
		if _, ok := x.o.(*Agg); !ok {
			return p.False
		}
		return in.deepEq(in.load(x), in.load(y), u.Elem(), d+1)
	case *types.Interface:
		a, _ := x.o.(*Iface)
		b, _ := y.o.(*Iface)
		if a == nil || b == nil {
			return p.Bool(a == nil && b == nil)
		}
		if a.t != b.t {
			return p.False
		}
		return in.deepEq(a.v, b.v, a.t.t, d+1)
	case *types.Map:
		a, _ := x.o.(*Map)
		b, _ := y.o.(*Map)
		if a == nil || b == nil {
			return p.Bool(a == nil && b == nil)
		}
		if a.n != b.n {
			return p.False
		}
		r := p.True
		for _, e := range a.ents {
			if !e.live {
				continue
			}
			i := in.mapFind(b, e.k, u.Key())
			if i < 0 {
				return p.False
			}
			r = p.And(r, in.deepEq(e.v, b.ents[i].v, u.Elem(), d+1))
		}
		return r
	}
	return in.eqVal(x, y, t)
}

var _ = token.ADD
var _ *ssa.Function
