package h

import (
	"verif/harness/sym"

	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// strs is a list of up to max arbitrary non-empty strings of up to slen bytes.
func strs(max, slen int) []string {
	n := sym.Choose(max + 1)
	r := make([]string, 0, n+2)
	for i := 0; i < n; i++ {
		r = append(r, sym.String(1+sym.Choose(slen)))
	}
	return r
}

func idxOf(l []string, v string) int {
	for i, x := range l {
		if x == v {
			return i
		}
	}
	return -1
}

func without(l []string, i int) []string {
	r := make([]string, 0, len(l))
	for j, x := range l {
		if j != i {
			r = append(r, x)
		}
	}
	return r
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type strListOps struct {
	add, addu func(string)
	remove    func(string)
	index     func(string) int
	contains  func(string) bool
	get       func() []string
}

// listSteps runs one or two operations against the reference model.
func listSteps(o strListOps, ref []string, emptyOK bool) {
	steps := 1 + sym.Choose(sym.Bound(2, 3))
	for s := 0; s < steps; s++ {
		v := sym.String(sym.Choose(2))
		op := sym.Choose(4)
		if op < 3 || s == steps-1 {
			switch op {
			case 0:
				o.add(v)
				if v != "" || emptyOK {
					ref = append(append([]string{}, ref...), v)
				}
				sym.Assert(sameStrs(o.get(), ref), "add appends exactly one element")
			case 1:
				o.addu(v)
				if (v != "" || emptyOK) && idxOf(ref, v) < 0 {
					ref = append(append([]string{}, ref...), v)
				}
				sym.Assert(sameStrs(o.get(), ref), "unique add only adds absent values")
			case 2:
				o.remove(v)
				if i := idxOf(ref, v); i >= 0 {
					ref = without(ref, i)
				}
				sym.Assert(sameStrs(o.get(), ref), "remove drops exactly the first occurrence")
			case 3:
				sym.Assert(o.index(v) == idxOf(ref, v), "index is the first position")
				sym.Assert(o.contains(v) == (idxOf(ref, v) >= 0), "contains")
				sym.Assert(sameStrs(o.get(), ref), "lookup changes nothing")
			}
		}
	}
	sym.Reach("list")
}

func C09_stringlist() {
	ref := strs(3, 1)
	x := xmp.NewStringList(ref...)
	listSteps(strListOps{func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) },
		func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func() []string { return x }}, ref, false)
	sym.Assert(x.IsZero() == (len(x) == 0), "IsZero")
}

func C09_stringarray() {
	ref := strs(3, 1)
	x := xmp.NewStringArray(ref...)
	listSteps(strListOps{func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) },
		func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func() []string { return x }}, ref, false)
	sym.Assert(x.IsZero() == (len(x) == 0), "IsZero")
}

func C09_identifiers() {
	ref := strs(3, 1)
	var x xmpbase.IdentifierArray
	for _, v := range ref {
		x.Add(v)
	}
	listSteps(strListOps{func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) },
		func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }, func() []string {
			r := make([]string, len(x))
			for i := range x {
				r[i] = x[i].ID
				sym.Assert(x[i].Scheme == "", "no scheme appears")
			}
			return r
		}}, ref, true)
	sym.Assert(x.IsZero() == (len(x) == 0), "IsZero")
}

// C09_refs: resource lists, delete by any integer index.
func C09_refs() {
	n := sym.Choose(sym.Bound(4, 6))
	var x xmpmm.ResourceRefArray
	var ids []string
	for i := 0; i < n; i++ {
		id := sym.String(1)
		ids = append(ids, id)
		x = append(x, &xmpmm.ResourceRef{DocumentID: xmp.GUID(id)})
	}
	old := append(xmpmm.ResourceRefArray{}, x...)
	probe := sym.String(1)
	sym.Assert(x.Index(xmp.GUID(probe)) == idxOf(ids, probe), "index is the first position")
	i := sym.Int()
	x.DeleteIndex(i)
	if i >= 0 && i < n {
		sym.Assert(len(x) == n-1, "one element removed")
		for k := range x {
			j := k
			if k >= i {
				j++
			}
			sym.Assert(x[k] == old[j], "others keep their order")
		}
		sym.Reach("removed")
	} else {
		sym.Assert(len(x) == n, "out of range index is ignored")
		for k := range x {
			sym.Assert(x[k] == old[k], "unchanged")
		}
		sym.Reach("ignored")
	}
}

// C09_numbers: integer lists append and print.
func C09_numbers() {
	a, b := sym.Int(), sym.Int()
	l := xmp.NewIntList(a)
	l.Add(b)
	sym.Assert(len(l) == 2 && l[0] == a && l[1] == b, "IntList.Add")
	k := xmp.NewIntArray(a)
	k.Add(b)
	sym.Assert(len(k) == 2 && k[0] == a && k[1] == b, "IntArray.Add")
	sym.Reach("numbers")
}

// C09_construct: constructors keep the non-empty values in order.
func C09_construct() {
	n := sym.Choose(4)
	var vs, ref []string
	for i := 0; i < n; i++ {
		s := sym.String(sym.Choose(2))
		vs = append(vs, s)
		if s != "" {
			ref = append(ref, s)
		}
	}
	sym.Assert(sameStrs(xmp.NewStringList(vs...), ref), "NewStringList")
	sym.Assert(sameStrs(xmp.NewStringArray(vs...), ref), "NewStringArray")
	sym.Reach("construct")
}
