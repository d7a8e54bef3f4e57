package h

import (
	"encoding/json"
	"reflect"

	"verif/harness/sym"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// collect adds the nodes reachable from v.
func collect(v reflect.Value, l *[]*xmp.Node, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			collect(v.Elem(), l, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *xmp.Extension:
			collectNode((*xmp.Node)(x), l, depth+1)
		case *xmp.Node:
			collectNode(x, l, depth+1)
		default:
			collect(v.Elem(), l, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				collect(f, l, depth+1)
			}
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Struct, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				collect(v.Index(i), l, depth+1)
			}
		}
	}
}

func collectNode(x *xmp.Node, l *[]*xmp.Node, depth int) {
	if x == nil {
		return
	}
	*l = append(*l, x)
	if x.Model != nil {
		collect(reflect.ValueOf(x.Model), l, depth)
	}
	for _, y := range x.Nodes {
		collectNode(y, l, depth)
	}
}

// world is a set of live documents with the paths they must list.
type world struct {
	docs  []*xmp.Document
	lists []xmp.PathValueList
}

func (w *world) add(d *xmp.Document) {
	w.docs = append(w.docs, d)
	w.lists = append(w.lists, listing(d))
}

// check: every document lists what it must, and no node belongs to two places.
func (w *world) check(name string) {
	seen := map[*xmp.Node]bool{}
	for i, d := range w.docs {
		same(w.lists[i], listing(d), name+": a document is not changed by others")
		var l []*xmp.Node
		for _, x := range d.Nodes() {
			collectNode(x, &l, 0)
		}
		for _, x := range l {
			sym.Assert(!seen[x], name+": nodes belong to one document")
			seen[x] = true
		}
	}
}

// C18_history: operations on one document next to another one; documents
// created afterwards are empty first.
func C18_history() {
	i := sym.Choose(len(shapes))
	j := (i + sym.Choose(sym.Bound(1, 2))) % len(shapes)
	name := shapes[i].name
	w := &world{}
	a := shapeDoc(i, sym.StringIn(1, lower), "s")
	b := shapeDoc(j, sym.StringIn(1, lower), "t")
	w.add(b)
	live := true
	for n := 0; n < sym.Bound(2, 3); n++ {
		what := name
		switch sym.Choose(9) {
		case 0:
			what += " closed"
			a.Close()
			// closing again does nothing, even while others use the nodes
			w.add(shapeDoc((i+1)%len(shapes), "x", "y"))
			a.Close()
			sym.Assert(len(a.Nodes()) == 0 && len(listing(a)) == 0, what+": a closed document is empty")
			live = false
		case 1:
			what += " pruned"
			for _, x := range a.Nodes() {
				sym.Assert(a.RemoveNamespaceByName(x.Name()), what)
				break
			}
		case 2:
			what += " filtered"
			xmp.ParseFilter("dc,ex").Apply(a)
		case 3:
			what += " cleared"
			if l := listing(a); len(l) > 0 {
				x := l[sym.Choose(sym.Bound(1, len(l)))]
				a.SetPath(xmp.PathValue{Path: x.Path, Flags: xmp.DELETE})
			}
		case 4:
			what += " merged into another"
			c := xmp.NewDocument()
			sym.Assert(len(c.Nodes()) == 0 && len(listing(c)) == 0, what+": a new document is empty")
			sym.Assert(c.Merge(a, xmp.MERGE) == nil, what)
			w.add(c)
		case 5:
			what += " written"
			_, err := xmp.Marshal(a)
			sym.Assert(err == nil, what)
			_, err = json.Marshal(a)
			sym.Assert(err == nil, what)
		case 6:
			what += " and a failed decode"
			body := []string{`<dc:format>x</dc:format><dc:title`, `</rdf:Description><dc:format>x</dc:format></rdf:RDF></x:xmpmeta>`, `<exif:ExposureTime xmlns:exif="http://ns.adobe.com/exif/1.0/">x</exif:ExposureTime>` + rdfTail}
			sym.Assert(xmp.Unmarshal([]byte(rdfHead+">"+body[sym.Choose(len(body))]), xmp.NewDocument()) != nil, what)
		case 7:
			what += " set"
			p := []xmp.Path{"dc:creator[1]", "ex:n[0]", "ex:l", "dc:title[fr]"}[sym.Choose(4)]
			a.SetPath(xmp.PathValue{Path: p, Namespace: "http://ex.org/a/", Value: "v"})
		default:
			what += " copied to a pantry"
			c := xmp.NewDocument()
			m, err := xmpmm.MakeModel(c)
			sym.Assert(err == nil, what)
			m.AddPantry(a)
			w.add(c)
		}
		w.check(what)
		// a new document, filled
		c := shapeDoc((i+3)%len(shapes), "x", "y")
		w.add(c)
		w.check(what + " and a new document")
		if !live {
			a = xmp.NewDocument()
			sym.Assert(len(a.Nodes()) == 0 && len(listing(a)) == 0, what+": a new document is empty")
			live = true
		}
	}
	// what the other document lists is what it was
	m, err := xmp.Marshal(b)
	sym.Assert(err == nil, name+": marshal")
	c := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(m, c) == nil, name+": unmarshal")
	sameDocs(b, c, name+": written")
	sym.Reach("history")
}

// C18_fields: a document with any field of a bundled model, next to others.
func C18_fields() {
	fields18(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields18(ns *xmp.Namespace) {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	d, _ := genDoc(g, ns)
	if g.skip {
		return
	}
	o := xmp.NewDocument()
	o.MakeModel(ns)
	empty := listing(o)
	w := &world{}
	e, _ := genDoc(g.again(), ns)
	w.add(e)
	switch sym.Choose(4) {
	case 0:
		d.Close()
		d.Close()
	case 1:
		sym.Assert(d.RemoveNamespace(ns), g.name+": removed")
	case 2:
		c := xmp.NewDocument()
		sym.Assert(c.Merge(d, xmp.MERGE) == nil, g.name+": merged")
		w.add(c)
		d.Close()
	default:
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, g.name+": written")
		d.Close()
		c := xmp.NewDocument()
		sym.Assert(xmp.Unmarshal(b, c) == nil, g.name+": read")
		w.add(c)
	}
	w.check(g.name)
	c := xmp.NewDocument()
	sym.Assert(len(listing(c)) == 0, g.name+": a new document is empty")
	_, err := c.MakeModel(ns)
	sym.Assert(err == nil, g.name+": new model")
	same(empty, listing(c), g.name+": a new model is empty")
	w.check(g.name + " and a new model")
}
