package h

import (
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// mergedValue is the rule of a merge for one path: v is the value in the
// target, w the one in the source.
func mergedValue(v, w string, f xmp.SyncFlags) (allowed, must bool) {
	switch {
	case v == "":
		return f&(xmp.CREATE|xmp.APPEND|xmp.UNIQUE) != 0, f&xmp.CREATE != 0 && w != "0" && w != "False"
	case v == "0" || v == "False":
		// numbers that are always listed may count as absent
		return f&(xmp.REPLACE|xmp.CREATE|xmp.APPEND|xmp.UNIQUE) != 0, f&xmp.REPLACE != 0
	}
	return f&xmp.REPLACE != 0, f&xmp.REPLACE != 0
}

// merged checks the result of merging a document with the paths src into one
// with the paths before.
func merged(d *xmp.Document, before, src, after xmp.PathValueList, f xmp.SyncFlags, err error, all bool, name string) {
	value := func(l xmp.PathValueList, p xmp.Path) string {
		if x := l.Find(p); x != nil {
			return x.Value
		}
		return ""
	}
	now := func(p xmp.Path) string {
		if v := value(after, p); v != "" {
			return v
		}
		v, _ := d.GetPath(p)
		return v
	}
	refused, change := false, false
	for _, x := range src {
		v, w := value(before, x.Path), x.Value
		a := now(x.Path)
		if v == "" && otherLanguage(before, x.Path) {
			change = true // an entry of the target is its default
			continue
		}
		if v == w {
			sym.Assert(a == w, name+": equal values stay")
			continue
		}
		allowed, must := mergedValue(v, w, f)
		refused = refused || !allowed
		change = change || !must
		if a != w && a != v || !allowed && a != v || must && err == nil && a != w {
			sym.Note(x.Path, v, w, a, f, err)
		}
		sym.Assert(a == v || a == w, name+": the value is the one of source or target")
		if !allowed {
			sym.Assert(a == v, name+": a change that is not permitted is not made")
		}
		if must && err == nil {
			sym.Assert(a == w, name+": a permitted change is made")
		}
	}
	for _, x := range before {
		if value(src, x.Path) != "" {
			continue
		}
		a := now(x.Path)
		if a != x.Value {
			if strings.HasSuffix(string(x.Path), "[x-default]") {
				continue // the default entry has another language as well
			}
			sym.Note(x, a, f)
		}
		sym.Assert(a == x.Value, name+": properties the source does not have stay")
	}
	for _, x := range after {
		if value(before, x.Path) == "" && value(src, x.Path) == "" && !strings.HasSuffix(string(x.Path), "[x-default]") && x.Value != "0" && x.Value != "False" {
			sym.Note(x, f)
			sym.Assert(false, name+": nothing else appears")
		}
	}
	if !all {
		return // properties of other models change as well
	}
	if f&xmp.NOFAIL != 0 || !change {
		if err != nil {
			sym.Note(err, f)
		}
		sym.Assert(err == nil, name+": no error")
	} else if refused {
		sym.Assert(err != nil, name+": a change that is not permitted is reported")
	}
}

// otherLanguage: p is a default entry and l has another language next to it.
func otherLanguage(l xmp.PathValueList, p xmp.Path) bool {
	s, ok := strings.CutSuffix(string(p), "x-default]")
	for _, x := range l {
		if ok && strings.HasPrefix(string(x.Path), s) {
			return true
		}
	}
	return false
}

// C15_shapes: any kind of property in the source, with the same or other
// properties in the target.
func C15_shapes() {
	k := sym.Choose(len(shapes))
	j := k
	if sym.Choose(2) == 1 {
		j = (k + 1 + sym.Choose(sym.Bound(2, len(shapes)-1))) % len(shapes)
		if strings.HasPrefix(shapes[k].body, "<ex:l") && strings.HasPrefix(shapes[j].body, "<ex:l") {
			return // lists of one kind and of another one
		}
	}
	d := shapeDoc(j, sym.StringIn(1, "ab"), "s")
	e := shapeDoc(k, "a", sym.StringIn(1, lower))
	before, src := listing(d), listing(e)
	f := symFlags()
	err := d.Merge(e, f)
	merged(d, before, src, listing(d), f, err, true, shapes[j].name+" < "+shapes[k].name)
	same(src, listing(e), shapes[k].name+": the source does not change")
	sym.Reach("shapes")
}

// C15_parts: source and target have different parts of the same property.
func C15_parts() {
	k := sym.Choose(len(shapes))
	d, e := shapeDoc(k, "a", "b"), shapeDoc(k, "a", "c")
	cut := func(d *xmp.Document) xmp.PathValueList {
		l := listing(d)
		i := sym.Choose(len(l) + 1)
		if i < len(l) {
			sym.Assert(d.SetPath(xmp.PathValue{Path: l[i].Path, Flags: xmp.DELETE}) == nil, shapes[k].name+": clear")
		}
		return listing(d)
	}
	before, src := cut(d), cut(e)
	f := symFlags()
	err := d.Merge(e, f)
	merged(d, before, src, listing(d), f, err, true, shapes[k].name)
	sym.Reach("parts")
}

// C15_fields: any field of any bundled model.
func C15_fields() {
	fields15(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields15(ns *xmp.Namespace) {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	e, me := genDoc(g, ns)
	if g.skip {
		return
	}
	var d *xmp.Document
	var md xmp.Model
	flags := []xmp.SyncFlags{xmp.MERGE, xmp.REPLACE | xmp.NOFAIL, xmp.DEFAULT, xmp.EXTEND, xmp.CREATE, xmp.DELETE | xmp.NOFAIL}
	n := sym.Bound(2, len(flags))
	switch sym.Choose(3) {
	case 0:
		d = xmp.NewDocument()
		md, _ = d.MakeModel(ns)
	case 1:
		d, md = genDoc(g.again(), ns)
		n = sym.Bound(3, len(flags))
	default:
		h := g.again()
		h.other = false
		d, md = genDoc(h, ns)
		n = sym.Bound(1, len(flags))
	}
	before, src := ownListing(d, md), ownListing(e, me)
	f := flags[sym.Choose(n)]
	err := d.Merge(e, f)
	merged(d, before, src, ownListing(d, md), f, err, len(src) == len(listing(e)), g.name)
	same(src, ownListing(e, me), g.name+": the source does not change")
}

// C15_diff: the difference of two listings.
func C15_diff() {
	paths := []xmp.Path{"a:a", "a:b", "a:c", "b:a"}
	list := func() (l xmp.PathValueList) {
		for _, p := range paths {
			if sym.Choose(2) == 1 {
				l = append(l, xmp.PathValue{Path: p, Value: sym.StringIn(1, lower)})
			}
		}
		return
	}
	x, y := list(), list()
	diff := x.Diff(y)
	n := 0
	for _, p := range paths {
		a, b, c := x.Find(p), y.Find(p), diff.Find(p)
		if c != nil {
			n++
		}
		switch {
		case a == nil && b == nil, a != nil && b != nil && a.Value == b.Value:
			sym.Assert(c == nil, "equal paths are no difference")
		case a == nil:
			sym.Assert(c != nil && c.Flags == xmp.CREATE && c.Value == b.Value, "paths of the second list only")
		case b == nil:
			sym.Assert(c != nil && c.Flags == xmp.DELETE && c.Value == a.Value, "paths of the first list only")
		default:
			sym.Assert(c != nil && c.Flags == xmp.REPLACE && (c.Value == a.Value || c.Value == b.Value), "paths with different values")
		}
	}
	sym.Assert(len(diff) == n, "one entry for each difference")
	sym.Reach("diff")
}

// C15_stored: merged documents are written and read like any other.
// C15_namespaces: documents with different unknown namespaces.
func C15_namespaces() {
	d, e := nsDoc(), nsDoc()
	if d == nil || e == nil {
		return
	}
	l, ns := listing(e), e.Namespaces()
	before := listing(d)
	sym.Assert(d.Merge(e, xmp.MERGE) == nil, "merge")
	for i := 0; i < 2; i++ {
		for _, v := range l {
			if before.Find(v.Path) != nil {
				continue // merging does not replace
			}
			s, err := d.GetPath(v.Path)
			sym.Assert(err == nil && s == v.Value, "merged value")
		}
		for _, v := range before {
			s, err := d.GetPath(v.Path)
			sym.Assert(err == nil && s == v.Value, "kept value")
		}
		// merge another document and write and read the result
		if g := nsDoc(); i == 0 && g != nil {
			sym.Assert(d.Merge(g, xmp.MERGE) == nil, "merge again")
		}
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, "write")
		d = xmp.NewDocument()
		sym.Assert(xmp.Unmarshal(b, d) == nil, "read")
	}
	same(l, listing(e), "the source does not change")
	for i, v := range e.Namespaces() {
		sym.Assert(i < len(ns) && v == ns[i], "the namespaces of the source do not change")
	}
	b, err := xmp.Marshal(e)
	sym.Assert(err == nil, "write source")
	sym.Assert(strings.Count(string(b), "xmlns:") == 2+len(l), "the source is written with its own namespaces")
	sym.Reach("namespaces")
}

// nsDoc has a property in each of some unknown namespaces.
func nsDoc() *xmp.Document {
	ds, body := "", ""
	for _, p := range []string{"na", "nb"} {
		if sym.Choose(2) == 1 {
			ds += ` xmlns:` + p + `="urn:` + p + `"`
			body += `<` + p + `:a>` + sym.StringIn(1, lower) + `</` + p + `:a>`
		}
	}
	if ds == "" {
		return nil
	}
	d := xmp.NewDocument()
	in := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description` + ds + `>` + body + `</rdf:Description></rdf:RDF>`
	sym.Assert(xmp.Unmarshal([]byte(in), d) == nil, "read")
	return d
}

func C15_stored() {
	k := sym.Choose(len(shapes))
	name := shapes[k].name
	e := shapeDoc(k, "a", sym.StringIn(1, "ac"))
	var d *xmp.Document
	switch sym.Choose(sym.Bound(3, 4)) {
	case 0:
		d = xmp.NewDocument()
	case 1:
		d = shapeDoc(k, "a", "b")
	case 2:
		d = shapeDoc((k+7)%len(shapes), "a", "b")
		if strings.HasPrefix(shapes[k].body, "<ex:l") && strings.HasPrefix(shapes[(k+7)%len(shapes)].body, "<ex:l") {
			return // lists of one kind and of another one
		}
	default:
		d = shapeDoc((k+1)%len(shapes), "a", "b")
		if strings.HasPrefix(shapes[k].body, "<ex:l") && strings.HasPrefix(shapes[(k+1)%len(shapes)].body, "<ex:l") {
			return
		}
	}
	f := []xmp.SyncFlags{xmp.MERGE, xmp.DEFAULT}[sym.Choose(2)]
	sym.Assert(d.Merge(e, f) == nil, name+": merge")
	keeps(d, name+" merged")
	sym.Reach("stored")
}
