package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a Go value of the interpreted program. Concrete scalars live in n
// (zero-extended bit pattern; floats as IEEE bits); o holds, by kind:
//
//	symbolic scalar   *Term
//	string            string or *SStr
//	slice             *Slice (nil: o == nil)
//	pointer           *Agg (n = cell index), nil: o == nil; or opaque objects
//	struct, array     AV
//	map               *Map
//	interface         *Iface
//	func              *Func
//	chan              *Chan
//	tuple             []V
type V struct {
	n uint64
	o any
}

type SStr struct{ b []*Term }

type Agg struct {
	e  []V
	ep uint32
}

// AV wraps an aggregate stored inline (struct or array value).
type AV struct{ a *Agg }

type Slice struct {
	a        *Agg
	off      int
	len, cap int
}

type Iface struct {
	t *RType
	v V
}

type Func struct {
	fn  *ssa.Function
	env []V
	nat func(in *Interp, args []V) V // native closure
}

type Chan struct {
	buf    []V
	cap    int
	closed bool
	ep     uint32
}

type Map struct {
	idx  map[any]int
	ents []ment
	n    int
	nsym int
	ep   uint32
	// made by another thread, or before there were threads
	shared bool
}

type ment struct {
	k, v V
	live bool
	sym  bool
}

type strIter struct {
	s   V
	pos int
}
type mapIter struct {
	m   *Map
	pos int
	rev bool
}

func (x *mapIter) step() (ment, bool) {
	if x.rev {
		if x.pos--; x.pos < 0 {
			return ment{}, false
		}
		return x.m.ents[x.pos], true
	}
	if x.pos >= len(x.m.ents) {
		return ment{}, false
	}
	x.pos++
	return x.m.ents[x.pos-1], true
}

func (in *Interp) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if in.mon != nil && m != nil && (m.ep != in.ep || m.shared) {
		in.monRead(m)
	}
	if in.mapRev && m != nil {
		it.rev, it.pos = true, len(m.ents)
	}
	return it
}

// RType is the canonical representation of a type.
type RType struct {
	t          types.Type
	u          types.Type
	id         int
	str        string
	methods    map[string]*ssa.Function
	elem       *RType
	ptrTo      *RType
	rt         V // the reflect.Type pointer value
	fields     []V
	mset       []*types.Selection
	comparable int8
}

type pathAbort struct{ reason string }

type targetPanic struct {
	v   V // interface value
	msg string
	loc string
}

func isNil(v V) bool { return v.o == nil }

func cint(i int) V { return V{n: uint64(int64(i))} }
func cbool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func cstr(s string) V { return V{o: s} }

func tv(t *Term) V {
	if t.op == OConst {
		return V{n: t.n}
	}
	return V{o: t}
}

func (in *Interp) term(v V, w uint8) *Term {
	if v.o == nil {
		return in.p.Const(w, v.n)
	}
	if t, ok := v.o.(*Term); ok {
		return t
	}
	in.abort(fmt.Sprintf("scalar expected, got %T", v.o))
	return nil
}

func isSym(v V) bool {
	_, ok := v.o.(*Term)
	return ok
}

// ---- strings

func strLen(v V) int {
	switch s := v.o.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(pathAbort{fmt.Sprintf("string expected, got %T", v.o)})
}

func (in *Interp) strByte(v V, i int) *Term {
	switch s := v.o.(type) {
	case string:
		return in.p.bytes[s[i]]
	case *SStr:
		return s.b[i]
	}
	panic(pathAbort{"string expected"})
}

func (in *Interp) strTerms(v V) []*Term {
	switch s := v.o.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = in.p.bytes[s[i]]
		}
		return b
	case *SStr:
		return s.b
	}
	return nil
}

func mkStr(b []*Term) V {
	for _, t := range b {
		if t.op != OConst {
			return V{o: &SStr{b}}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.n)
	}
	return V{o: string(buf)}
}

func concStr(v V) (string, bool) {
	switch s := v.o.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

func (in *Interp) mustStr(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	in.abort("symbolic string where a concrete one is needed")
	return ""
}

func subStr(v V, lo, hi int) V {
	switch s := v.o.(type) {
	case string:
		return V{o: s[lo:hi]}
	case *SStr:
		b := s.b[lo:hi]
		for _, t := range b {
			if t.op != OConst {
				return V{o: &SStr{b}}
			}
		}
		return mkStr(b)
	}
	return V{o: ""}
}

func (in *Interp) concat(a, b V) V {
	sa, oka := a.o.(string)
	sb, okb := b.o.(string)
	if oka && okb {
		return V{o: sa + sb}
	}
	x, y := in.strTerms(a), in.strTerms(b)
	if len(x) == 0 {
		return b
	}
	if len(y) == 0 {
		return a
	}
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return V{o: &SStr{r}}
}

func (in *Interp) strEq(a, b V) *Term {
	sa, oka := a.o.(string)
	sb, okb := b.o.(string)
	if oka && okb {
		return in.p.Bool(sa == sb)
	}
	n := strLen(a)
	if n != strLen(b) {
		return in.p.False
	}
	r := in.p.True
	for i := 0; i < n; i++ {
		r = in.p.And(r, in.p.Eq(in.strByte(a, i), in.strByte(b, i)))
		if r.isConst() && r.n == 0 {
			break
		}
	}
	return r
}

// strLess builds a < b (or a <= b when orEq).
func (in *Interp) strLess(a, b V, orEq bool) *Term {
	sa, oka := a.o.(string)
	sb, okb := b.o.(string)
	if oka && okb {
		if orEq {
			return in.p.Bool(sa <= sb)
		}
		return in.p.Bool(sa < sb)
	}
	la, lb := strLen(a), strLen(b)
	m := min(la, lb)
	r := in.p.Bool(la < lb || orEq && la == lb)
	for i := m - 1; i >= 0; i-- {
		x, y := in.strByte(a, i), in.strByte(b, i)
		r = in.p.Or(in.p.Cmp(OUlt, x, y), in.p.And(in.p.Eq(x, y), r))
	}
	return r
}

// ---- aggregates

func (in *Interp) newAgg(n int) *Agg { return &Agg{e: make([]V, n), ep: in.ep} }

func (in *Interp) copyVal(v V) V {
	if av, ok := v.o.(AV); ok {
		return V{o: AV{in.copyAgg(av.a)}}
	}
	return v
}

func (in *Interp) copyAgg(a *Agg) *Agg {
	r := &Agg{e: make([]V, len(a.e)), ep: in.ep}
	for i, v := range a.e {
		if av, ok := v.o.(AV); ok {
			v = V{o: AV{in.copyAgg(av.a)}}
		}
		r.e[i] = v
	}
	return r
}

type trailEnt struct {
	a    *Agg
	i    int
	old  V
	undo func()
}

func (in *Interp) setCell(a *Agg, i int, v V) {
	if a.ep != in.ep {
		if in.mon != nil {
			in.monUse(a)
			in.monWrite(cellKey{a, i})
			if in.mon.wl > 0 || in.mon.sync > 0 {
				in.publish(v, nobody)
			}
		}
		in.trail = append(in.trail, trailEnt{a: a, i: i, old: a.e[i]})
	}
	a.e[i] = v
}

func (in *Interp) assignInto(a *Agg, i int, v V) {
	if src, ok := v.o.(AV); ok {
		if dst, ok := a.e[i].o.(AV); ok {
			if dst.a == src.a {
				return
			}
			for j := range src.a.e {
				in.assignInto(dst.a, j, src.a.e[j])
			}
			return
		}
		v = V{o: AV{in.copyAgg(src.a)}}
	}
	in.setCell(a, i, v)
}

func (in *Interp) load(p V) V {
	a, ok := p.o.(*Agg)
	if !ok {
		if p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if sp, ok := p.o.(*symPtr); ok {
			return in.load(V{n: uint64(sp.off) + in.concretize(sp.idx), o: sp.a})
		}
		in.abort(fmt.Sprintf("load through %T", p.o))
	}
	if p.n >= uint64(len(a.e)) {
		in.abort("load out of object")
	}
	if in.mon != nil && a.ep != in.ep {
		in.monUse(a)
		in.monRead(cellKey{a, int(p.n)})
	}
	v := a.e[p.n]
	if av, ok := v.o.(AV); ok {
		return V{o: AV{in.copyAgg(av.a)}}
	}
	return v
}

func (in *Interp) store(p V, v V) {
	a, ok := p.o.(*Agg)
	if !ok {
		if p.o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if sp, ok := p.o.(*symPtr); ok {
			in.symStore(sp, v)
			return
		}
		in.abort(fmt.Sprintf("store through %T", p.o))
	}
	if p.n >= uint64(len(a.e)) {
		in.abort("store out of object")
	}
	in.assignInto(a, int(p.n), v)
}

func (in *Interp) rollback() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		t := in.trail[i]
		if t.undo != nil {
			t.undo()
		} else {
			t.a.e[t.i] = t.old
		}
	}
	in.trail = in.trail[:0]
}

// zero value of a type
func (in *Interp) zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return V{o: ""}
		}
		if u.Info()&types.IsComplex != 0 {
			return V{o: complex128(0)}
		}
		return V{}
	case *types.Struct:
		a := in.newAgg(u.NumFields())
		for i := range a.e {
			a.e[i] = in.zero(u.Field(i).Type())
		}
		return V{o: AV{a}}
	case *types.Array:
		n := int(u.Len())
		a := in.newAgg(n)
		et := u.Elem()
		if n > 0 {
			z := in.zero(et)
			if _, ok := z.o.(AV); ok {
				a.e[0] = z
				for i := 1; i < n; i++ {
					a.e[i] = in.zero(et)
				}
			} else if z.o != nil || z.n != 0 {
				for i := range a.e {
					a.e[i] = z
				}
			}
		}
		return V{o: AV{a}}
	case *types.Tuple:
		r := make([]V, u.Len())
		for i := range r {
			r[i] = in.zero(u.At(i).Type())
		}
		return V{o: r}
	}
	return V{}
}

func (in *Interp) newPtr(v V) V {
	a := in.newAgg(1)
	a.e[0] = in.copyVal(v)
	return V{o: a}
}

// ---- slices

func (in *Interp) sliceOf(vals []V) V {
	a := &Agg{e: vals, ep: in.ep}
	return V{o: &Slice{a, 0, len(vals), len(vals)}}
}

func (in *Interp) bytesToSlice(b []*Term) V {
	e := make([]V, len(b))
	for i, t := range b {
		e[i] = tv(t)
	}
	return in.sliceOf(e)
}

func (in *Interp) sliceTerms(v V) []*Term {
	s, ok := v.o.(*Slice)
	if !ok {
		return nil
	}
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = in.term(s.a.e[s.off+i], 8)
	}
	return r
}

func (in *Interp) sliceToStr(v V) V {
	s, ok := v.o.(*Slice)
	if !ok {
		return V{o: ""}
	}
	buf := make([]byte, s.len)
	for i := 0; i < s.len; i++ {
		c := s.a.e[s.off+i]
		if c.o != nil {
			return V{o: &SStr{in.sliceTerms(v)}}
		}
		buf[i] = byte(c.n)
	}
	return V{o: string(buf)}
}

func sliceLen(v V) int {
	if s, ok := v.o.(*Slice); ok {
		return s.len
	}
	return 0
}

func (in *Interp) strToSlice(v V) V {
	return in.bytesToSlice(in.strTerms(v))
}

// ---- maps

type consKey struct{ a, b any }
type ptrKey struct {
	o any
	n uint64
}
type ifKey struct {
	t *RType
	k any
}

// mapKey returns a comparable Go value for a concrete key.
func (in *Interp) mapKey(v V) (any, bool) {
	switch o := v.o.(type) {
	case nil:
		return v.n, true
	case string:
		return o, true
	case *Term, *SStr:
		return nil, false
	case AV:
		var k any = "struct"
		for _, e := range o.a.e {
			ek, ok := in.mapKey(e)
			if !ok {
				return nil, false
			}
			k = consKey{k, ek}
		}
		return k, true
	case *Iface:
		if _, isStr := o.v.o.(string); !isStr {
			if _, isAgg := o.v.o.(AV); !isAgg && o.v.o != nil {
				switch o.v.o.(type) {
				case *Slice, *Map, *Func:
					in.rtPanic("hash of unhashable type " + o.t.str)
				}
			}
		}
		k, ok := in.mapKey(o.v)
		return ifKey{o.t, k}, ok
	case *Slice, *Map, *Func:
		in.rtPanic("hash of unhashable type")
	case complex128:
		return o, true
	}
	return ptrKey{v.o, v.n}, true
}

func (in *Interp) newMap() *Map { return &Map{idx: map[any]int{}, ep: in.ep} }

func (in *Interp) touchMap(m *Map) {
	if in.mon != nil && (m.ep != in.ep || m.shared) {
		in.monWrite(m)
	}
	if m.ep == in.ep {
		return
	}
	idx := make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		idx[k] = v
	}
	ents := append([]ment(nil), m.ents...)
	save := *m
	save.idx, save.ents = idx, ents
	in.trail = append(in.trail, trailEnt{undo: func() { *m = save }})
	m.ep = in.ep
	m.shared = true
}

// find returns the entry index or -1; forks on symbolic keys.
func (in *Interp) mapFind(m *Map, k V, kt types.Type) int {
	if m == nil {
		return -1
	}
	if in.mon != nil && (m.ep != in.ep || m.shared) {
		in.monRead(m)
	}
	ck, conc := in.mapKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	type cand struct {
		i int
		t *Term
	}
	var cands []cand
	any := in.p.False
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live || conc && !e.sym {
			continue
		}
		t := in.eqVal(k, e.k, kt)
		if t.isConst() && t.n == 0 {
			continue
		}
		if t.isConst() {
			return i
		}
		if t.sv >= 0 && in.p.vars[t.sv].w == 8 && in.domEmpty(t) {
			continue
		}
		cands = append(cands, cand{i, t})
		any = in.p.Or(any, t)
	}
	if len(cands) == 0 {
		return -1
	}
	if !in.decide(any) {
		return -1
	}
	for j, c := range cands {
		if j == len(cands)-1 {
			in.assumeT(c.t)
			return c.i
		}
		if in.decide(c.t) {
			return c.i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *Map, k, v V, kt types.Type) {
	i := in.mapFind(m, k, kt)
	in.touchMap(m)
	v = in.copyVal(v)
	if in.mon != nil && m.shared {
		in.publish(k, nobody)
		in.publish(v, nobody)
	}
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	ck, conc := in.mapKey(k)
	m.ents = append(m.ents, ment{k: k, v: v, live: true, sym: !conc})
	if conc {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
	m.n++
}

func (in *Interp) mapDelete(m *Map, k V, kt types.Type) {
	if m == nil {
		return
	}
	i := in.mapFind(m, k, kt)
	if i < 0 {
		return
	}
	in.touchMap(m)
	e := &m.ents[i]
	if e.sym {
		m.nsym--
	} else {
		ck, _ := in.mapKey(e.k)
		delete(m.idx, ck)
	}
	e.live = false
	e.k, e.v = V{}, V{}
	m.n--
}

func (in *Interp) mapClear(m *Map) {
	if m == nil {
		return
	}
	in.touchMap(m)
	m.idx = map[any]int{}
	for i := range m.ents {
		m.ents[i] = ment{}
	}
	m.n, m.nsym = 0, 0
}

// ---- equality

func (in *Interp) eqVal(x, y V, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.strEq(x, y)
		case u.Info()&types.IsFloat != 0:
			if x.o == nil && y.o == nil {
				if u.Kind() == types.Float32 {
					return in.p.Bool(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
				}
				return in.p.Bool(math.Float64frombits(x.n) == math.Float64frombits(y.n))
			}
			w := width(u)
			return in.p.F(OFEq, 0, in.term(x, w), in.term(y, w))
		case u.Info()&types.IsComplex != 0:
			return in.p.Bool(x.o.(complex128) == y.o.(complex128))
		case u.Kind() == types.UnsafePointer:
			return in.p.Bool(x.o == y.o && x.n == y.n)
		}
		if !isSym(x) && !isSym(y) {
			return in.p.Bool(x.n == y.n && x.o == y.o)
		}
		w := width(u)
		return in.p.Eq(in.term(x, w), in.term(y, w))
	case *types.Interface:
		if x.o == nil || y.o == nil {
			return in.p.Bool(x.o == nil && y.o == nil)
		}
		a, aok := x.o.(*Iface)
		b, bok := y.o.(*Iface)
		if !aok || !bok {
			return in.p.Bool(x.o == y.o)
		}
		if a.t != b.t {
			return in.p.False
		}
		if !types.Comparable(a.t.t) {
			in.rtPanic("comparing uncomparable type " + a.t.str)
		}
		return in.eqVal(a.v, b.v, a.t.t)
	case *types.Struct:
		if _, ok := x.o.(AV); !ok {
			return in.p.Bool(x.o == y.o && x.n == y.n)
		}
		r := in.p.True
		a, b := x.o.(AV).a, y.o.(AV).a
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.p.And(r, in.eqVal(a.e[i], b.e[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := in.p.True
		a, b := x.o.(AV).a, y.o.(AV).a
		for i := range a.e {
			r = in.p.And(r, in.eqVal(a.e[i], b.e[i], u.Elem()))
		}
		return r
	case *types.Signature, *types.Slice, *types.Map:
		return in.p.Bool(x.o == nil && y.o == nil)
	}
	return in.p.Bool(x.o == y.o && x.n == y.n)
}

func width(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32
	}
	return 64
}

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// render for diagnostics
func (in *Interp) show(v V, d int) string {
	if d == 0 {
		return ".."
	}
	switch o := v.o.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case string:
		return fmt.Sprintf("%q", o)
	case *SStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, t := range o.b {
			if t.isConst() {
				sb.WriteByte(byte(t.n))
			} else {
				sb.WriteString("{" + t.String() + "}")
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case *Iface:
		return o.t.str + "(" + in.show(o.v, d-1) + ")"
	case AV:
		var p []string
		for _, e := range o.a.e {
			p = append(p, in.show(e, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Slice:
		var p []string
		for i := 0; i < o.len; i++ {
			p = append(p, in.show(o.a.e[o.off+i], d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Term:
		return o.String()
	case *Agg:
		if int(v.n) < len(o.e) {
			return "&" + in.show(o.e[v.n], d-1)
		}
		return "&?"
	}
	return fmt.Sprintf("%T", v.o)
}
