package h

import (
	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

func altInvariant(a xmp.AltString) {
	n := 0
	for i, v := range a {
		if v.IsDefault {
			n++
			sym.Assert(i == 0, "default entry is first")
		}
		for j := 0; j < i; j++ {
			sym.Assert(a[j].GetLang() != v.GetLang(), "no language twice")
		}
		sym.Assert(v.Lang != "" || v.IsDefault, "only the default has no language")
	}
	sym.Assert(len(a) == 0 || n == 1, "exactly one default entry")
}

// langs: the empty tag, the default tag, or an arbitrary one byte tag.
func anyLang() string {
	switch sym.Choose(3) {
	case 0:
		return ""
	case 1:
		return "x-default"
	}
	return sym.String(1)
}

// without language lang (the default keeps its text when lang is only a tag on it)
func altOthers(before, after xmp.AltString, lang string) {
	for _, v := range before {
		if v.Lang == lang || (v.Lang == "" && (lang == "" || lang == "x-default")) {
			continue
		}
		if v.Lang == "" {
			continue
		}
		sym.Assert(after.Get(v.Lang) == v.Value, "other languages keep their text")
	}
}

func altOp(a *xmp.AltString) {
	before := append(xmp.AltString{}, *a...)
	switch sym.Choose(6) {
	case 0:
		l, v := anyLang(), sym.String(1)
		a.Add(l, v)
		sym.Assert(a.Get(l) == v, "lookup after add")
		altOthers(before, *a, l)
	case 1:
		l, v := anyLang(), sym.String(1)
		a.Set(l, v)
		sym.Assert(a.Get(l) == v, "lookup after set")
		altOthers(before, *a, l)
	case 2:
		l, v := anyLang(), sym.String(1)
		a.AddDefault(l, v)
		sym.Assert(a.Get(l) == v, "lookup after default")
		sym.Assert(a.Default() == v, "default is the added text")
		altOthers(before, *a, l)
	case 3:
		l, v := anyLang(), sym.String(1)
		i := before.Index(l)
		added := a.AddUnique(l, v)
		sym.Assert(added == !(i >= 0 && before[i].Value == v), "unique add reports what it did")
		sym.Assert(a.Get(l) == v, "lookup after unique add")
		altOthers(before, *a, l)
	case 4:
		l := anyLang()
		i := before.Index(l)
		a.RemoveLang(l)
		sym.Assert(a.Index(l) < 0, "removed language is gone")
		if i >= 0 {
			sym.Assert(len(*a) == len(before)-1, "one entry removed")
		} else {
			sym.Assert(len(*a) == len(before), "nothing removed")
		}
		altOthers(before, *a, l)
	case 5:
		l := anyLang()
		a.Add(l, "")
		a.Set(l, "")
		a.AddDefault(l, "")
		sym.Assert(!a.AddUnique(l, ""), "empty text is never added")
		sym.Assert(len(*a) == len(before), "empty text changes nothing")
	}
	altInvariant(*a)
}

// C08_ops: operation sequences from the empty alternative.
func C08_ops() {
	var a xmp.AltString
	for i, n := 0, sym.Bound(3, 5); i < n; i++ {
		altOp(&a)
	}
	sym.Reach("ops")
}

// C08_construct: any items with any default marks.
func C08_construct() {
	n := 1 + sym.Choose(3)
	var it []interface{}
	var vals []string
	lang := 0
	for i := 0; i < n; i++ {
		v := sym.String(1)
		vals = append(vals, v)
		if sym.Choose(2) == 0 {
			it = append(it, v)
		} else {
			it = append(it, xmp.AltItem{Value: v, Lang: string(rune('a' + lang)), IsDefault: sym.Bool()})
			lang++
		}
	}
	a := xmp.NewAltString(it...)
	sym.Assert(len(a) == n, "all items kept")
	d := 0
	for i, v := range a {
		if v.IsDefault {
			d++
			sym.Assert(i == 0, "default entry is first")
		}
	}
	sym.Assert(d == 1, "exactly one default entry")
	for _, v := range vals {
		f := false
		for _, x := range a {
			if x.Value == v {
				f = true
			}
		}
		sym.Assert(f, "every text is kept")
	}
	sym.Assert(a.Default() == a[0].Value, "Default is the first text")
	// entries without a language are accepted here; removing keeps a default
	l := anyLang()
	i := a.Index(l)
	a.RemoveLang(l)
	m := n
	if i >= 0 {
		m--
	}
	sym.Assert(len(a) == m, "one entry removed")
	sym.Assert(len(a) == 0 || a[0].IsDefault, "default after removing")
	sym.Reach("construct")
}

// C08_from3: one operation from every well-formed alternative of three
// entries.
func C08_from3() {
	a := xmp.AltString{
		{Value: sym.String(1), Lang: sym.String(sym.Choose(2)), IsDefault: true},
		{Value: sym.String(1), Lang: sym.String(1)},
		{Value: sym.String(1), Lang: sym.String(1)},
	}
	sym.Assume(a[0].Lang != a[1].Lang && a[0].Lang != a[2].Lang && a[1].Lang != a[2].Lang)
	altOp(&a)
	sym.Reach("from3")
}
