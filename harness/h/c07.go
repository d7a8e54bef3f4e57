package h

import (
	"encoding"
	"reflect"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

var unknownNs = map[string]string{"ex": "http://ex.org/a/", "ey": "http://ex.org/b/"}

// listed: every listed path reads back its value.
func listed(d *xmp.Document, name string) xmp.PathValueList {
	l := listing(d)
	for i, x := range l {
		v, err := d.GetPath(x.Path)
		if err != nil || v != x.Value {
			sym.Note(x.Path, x.Value, v, err)
		}
		sym.Assert(err == nil, name+": listed path is valid")
		sym.Assert(v == x.Value, name+": listed path reads back its value")
		sym.Assert(x.Value != "", name+": no empty value is listed")
		sym.Assert(i == 0 || l[i-1].Path < x.Path, name+": paths are ordered and unique")
	}
	return l
}

func replay(l xmp.PathValueList, name string) *xmp.Document {
	e := xmp.NewDocument()
	for _, x := range l {
		x.Namespace = unknownNs[x.Path.NamespacePrefix()]
		err := e.SetPath(x)
		if err != nil {
			sym.Note(x.Path, x.Value, err)
		}
		sym.Assert(err == nil, name+": listed path can be set")
	}
	return e
}

// sameListing: the documents list the same paths and values. A default text
// equal to the text of another language is the same entry, which answers for
// both.
func sameListing(d, e *xmp.Document, a, b xmp.PathValueList, name string) {
	holds(d, e, a, b, name+": replayed")
	holds(e, d, b, a, name+": replayed back")
	count := func(l xmp.PathValueList) (n int) {
		for _, x := range l {
			if !strings.HasSuffix(string(x.Path), "[x-default]") {
				n++
			}
		}
		return
	}
	if count(a) != count(b) {
		sym.Note(a, b)
	}
	sym.Assert(count(a) == count(b), name+": same number of paths")
}

// texts collects the plain texts stored in a model.
func texts(v reflect.Value, out *[]string) {
	if _, ok := v.Interface().(encoding.TextMarshaler); ok {
		return
	}
	if v.CanAddr() {
		if _, ok := v.Addr().Interface().(encoding.TextMarshaler); ok {
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			texts(v.Elem(), out)
		}
	case reflect.Struct:
		if a, ok := v.Interface().(xmp.AltItem); ok {
			*out = append(*out, a.Value)
			return
		}
		for _, i := range fields(v.Type()) {
			if v.Field(i).CanSet() {
				texts(v.Field(i), out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			texts(v.Index(i), out)
		}
	case reflect.String:
		if s := v.String(); s != "" {
			*out = append(*out, s)
		}
	}
}

// complete: every text is listed as often as it is stored.
func complete(l xmp.PathValueList, want []string, name string) {
	used := make([]bool, len(l))
	for _, w := range want {
		ok := false
		for i, x := range l {
			if !used[i] && x.Value == w {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			sym.Note(w, l)
		}
		sym.Assert(ok, name+": every stored text is listed")
	}
}

// C07_fields: any field of any bundled model.
func C07_fields() {
	fields07(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields07(ns *xmp.Namespace) {
	g := newGen()
	d, m := genDoc(g, ns)
	if g.skip {
		return
	}
	l := listed(d, g.name)
	sym.Assert(len(l) > 0, g.name+": something is listed")
	var want []string
	texts(reflect.ValueOf(m).Elem(), &want)
	complete(l, want, g.name)
	e := replay(l, g.name)
	sameListing(d, e, l, listed(e, g.name), g.name)
}

// C07_shapes: any kind of property with any text.
func C07_shapes() {
	i := sym.Choose(len(shapes))
	name := shapes[i].name
	a, b := xmlText(sym.Bound(2, 3)), xmlText(1)
	d := shapeDoc(i, a, b)
	l := listed(d, name)
	complete(l, []string{a, b}, name)
	e := replay(l, name)
	sameListing(d, e, l, listed(e, name), name)
	sym.Reach("shapes")
}

// C07_cleared: documents with cleared or added properties.
func C07_cleared() {
	k := sym.Choose(len(shapes))
	d := shapeDoc(k, sym.StringIn(1, lower), "s")
	for i := 0; i < 2; i++ {
		l := listing(d)
		if len(l) == 0 {
			break
		}
		x := l[sym.Choose(len(l))]
		err := d.SetPath(xmp.PathValue{Path: x.Path, Flags: xmp.DELETE})
		sym.Assert(err == nil, shapes[k].name+": clear")
		listed(d, shapes[k].name+" cleared")
	}
	sym.Reach("cleared")
}

// C07_gaps: lists with unset elements.
func C07_gaps() {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	g.gap = true
	d, _ := genDoc(g, modelNs[sym.Choose(len(modelNs))])
	if g.skip || !g.gapped.IsValid() {
		return
	}
	l := listing(d)
	for _, x := range l {
		v, err := d.GetPath(x.Path)
		sym.Assert(err == nil && v == x.Value, g.name+": listed path of a list with an unset element reads back its value")
	}
	// without the unset element nothing else is listed
	v := g.gapped
	v.Set(reflect.Append(reflect.Zero(v.Type()), v.Index(0), v.Index(2)))
	m := listing(d)
	used := make([]bool, len(l))
	for _, y := range m {
		ok := false
		for i, x := range l {
			if !used[i] && x.Value == y.Value {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			sym.Note(y, l)
		}
		sym.Assert(ok, g.name+": the elements of a list around an unset one are listed")
	}
	sym.Reach("gaps")
}

// C07_stored: documents made from a listing are written and read like any
// other. The namespaces inside of properties have to be known.
func C07_stored() {
	if sym.Choose(2) == 0 {
		g := newGen()
		g.kinds = sym.Bound(1, 0) == 1
		d, _ := genDoc(g, modelNs[sym.Choose(len(modelNs))])
		if g.skip {
			return
		}
		keeps(replay(listed(d, g.name), g.name), g.name+" replayed")
	} else {
		i := sym.Choose(len(shapes))
		d := shapeDoc(i, sym.StringIn(1, "ab"), "b")
		l := listed(d, shapes[i].name)
		for _, ns := range []string{"ex", "ey"} {
			for _, v := range l {
				if strings.Contains(string(v.Path), "/"+ns+":") {
					l = append(xmp.PathValueList{{Path: xmp.Path(ns + ":known"), Value: "x"}}, l...)
					break
				}
			}
		}
		keeps(replay(l, shapes[i].name), shapes[i].name+" replayed")
	}
	sym.Reach("stored")
}

// keeps: the document is written as XML or JSON and read back.
func keeps(d *xmp.Document, name string) {
	if sym.Choose(2) == 0 {
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, name+": marshal")
		e := xmp.NewDocument()
		sym.Assert(xmp.Unmarshal(b, e) == nil, name+": unmarshal")
		sym.Note(string(b))
		sameDocs(d, e, name)
	} else {
		jsonTrip(d, name)
	}
}
