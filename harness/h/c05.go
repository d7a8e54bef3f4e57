package h

import (
	"encoding/json"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	"github.com/trimmer-io/go-xmp/xmp"
)

func get(d *xmp.Document, p xmp.Path, what string) string {
	v, err := d.GetPath(p)
	if err != nil {
		sym.Note(p, err)
	}
	sym.Assert(err == nil, what)
	return v
}

// sameLanguage: a default text equal to the text of another language is the
// same entry, so that both change together.
func sameLanguage(p, q xmp.Path, v, w string) bool {
	cut := func(s xmp.Path) string {
		if i := strings.LastIndex(string(s), "["); i > 0 {
			return string(s[:i])
		}
		return string(s)
	}
	return cut(p) == cut(q) && (strings.HasSuffix(string(p), "[x-default]") || strings.HasSuffix(string(q), "[x-default]")) && v == w
}

// setOne sets path i of l, a listing of d, to w, and clears it.
func setOne(d *xmp.Document, l xmp.PathValueList, i int, w string, name string) {
	p := l[i].Path
	err := d.SetPath(xmp.PathValue{Path: p, Value: w})
	if err != nil {
		sym.Note(p, w, err)
	}
	sym.Assert(err == nil, name+": set")
	if v, err := d.GetPath(p); v != w {
		sym.Note(p, w, v, err)
	}
	sym.Assert(get(d, p, name+": set path is valid") == w, name+": the value set is read back")
	for j, x := range l {
		if j != i && !sameLanguage(p, x.Path, l[i].Value, x.Value) {
			v, err := d.GetPath(x.Path)
			if v != x.Value {
				sym.Note(p, w, x, v, err)
			}
			sym.Assert(v == x.Value, name+": other paths keep their value")
		}
	}
	k := len(listing(d))
	err = d.SetPath(xmp.PathValue{Path: p, Flags: xmp.DELETE})
	if err != nil {
		sym.Note(p, w, err)
	}
	sym.Assert(err == nil, name+": clear")
	after := listing(d)
	// later elements of a list move up
	list, from := isIndex(p)
	// properties that are always present have their zero value then
	if !list {
		v, err := d.GetPath(p)
		if v != "" && v != "0" && v != "False" && !strings.HasSuffix(string(p), "[x-default]") {
			sym.Note(p, v, err)
			sym.Assert(false, name+": the cleared path is empty")
		}
	}
	for j, x := range l {
		if j == i || sameLanguage(p, x.Path, w, x.Value) {
			continue
		}
		q := x.Path
		if list && strings.HasPrefix(string(q), from) {
			m, ok := moved(string(q), from, string(p))
			if !ok {
				continue
			}
			q = xmp.Path(m)
		}
		v, err := d.GetPath(q)
		if v == "" && (x.Value == "False" || x.Value == "0") {
			continue // members without value of a structure without value
		}
		if v != x.Value {
			sym.Note("cleared", p, q, x, v, err, after)
		}
		sym.Assert(v == x.Value, name+": clearing keeps the other values")
	}
	if len(after) > k {
		sym.Note(p, after)
	}
	sym.Assert(len(after) <= k, name+": clearing adds nothing")
}

// isIndex: the last segment of the path is a list element; returns the path up
// to the index.
func isIndex(p xmp.Path) (bool, string) {
	s := string(p)
	i := strings.LastIndex(s, "[")
	if i < 0 || s[len(s)-1] != ']' || s[i+1] < '0' || s[i+1] > '9' {
		return false, ""
	}
	return true, s[:i+1]
}

// moved returns the path of a list element after element p was removed.
func moved(q, from, p string) (string, bool) {
	num := func(s string) (int, string) {
		i := strings.Index(s, "]")
		n := 0
		for _, c := range s[:i] {
			n = n*10 + int(c-'0')
		}
		return n, s[i:]
	}
	a, rest := num(q[len(from):])
	b, _ := num(p[len(from):])
	if a == b {
		return "", false
	}
	if a > b {
		a--
	}
	return from + itoa(a) + rest, true
}

// ownPaths lists the positions of the paths an empty model does not have.
func ownPaths(l xmp.PathValueList, ns *xmp.Namespace) (own []int) {
	d := xmp.NewDocument()
	d.MakeModel(ns)
	e := listing(d)
	for i, x := range l {
		if y := e.Find(x.Path); y == nil || y.Value != x.Value {
			own = append(own, i)
		}
	}
	return
}

// ownListing lists the paths of one model, without those of models created by
// its sync.
func ownListing(d *xmp.Document, m xmp.Model) (l xmp.PathValueList) {
	for _, x := range listing(d) {
		ns, err := x.Path.Namespace(d)
		if err == nil {
			if o := d.FindModel(ns); o == nil || o == m {
				l = append(l, x)
			}
		}
	}
	return
}

// C05_fields: any path of any field of the bundled models.
func C05_fields() {
	fields05(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields05(ns *xmp.Namespace) {
	g := newGen()
	d, md := genDoc(g, ns)
	if g.skip {
		return
	}
	g2 := g.again()
	e, me := genDoc(g2, ns)
	l, m := ownListing(d, md), ownListing(e, me)
	if len(l) == 0 {
		return
	}
	own := ownPaths(l, ns)
	if len(own) == 0 {
		return
	}
	i := own[sym.Choose(len(own))]
	x := m.Find(l[i].Path)
	if x == nil {
		return
	}
	setOne(d, l, i, x.Value, g.name)
}

// C05_shapes: any path of any kind of property.
func C05_shapes() {
	k := sym.Choose(len(shapes))
	d := shapeDoc(k, xmlText(1), "s")
	l := listing(d)
	i := sym.Choose(len(l))
	w := xmlText(sym.Bound(2, 3))
	setOne(d, l, i, w, shapes[k].name)
	sym.Reach("shapes")
}

// wellFormed: every segment has a name and at most one index or language.
func wellFormed(p xmp.Path) bool {
	s := string(p)
	if i := strings.Index(s, ":"); i > 0 {
		s = s[i+1:]
	}
	if strings.HasPrefix(s, "Pantry") || strings.HasPrefix(s, "extension") {
		return false // extensions have no value themselves
	}
	for _, x := range strings.Split(s, "/") {
		i := strings.IndexAny(x, "[]")
		if x == "" || i == 0 {
			return false
		}
		if i > 0 && (x[i] == ']' || !strings.HasSuffix(x, "]") || strings.IndexAny(x[i+1:len(x)-1], "[]") >= 0 || len(x)-i < 3) {
			return false
		}
	}
	return true
}

var anyPaths = []xmp.Path{
	"dc:format", "dc:title", "dc:creator", "dc:subject", "xmpMM:History", "xmpMM:DerivedFrom", "xmpMM:Pantry", "xmp:extension",
	"xmp:Thumbnails", "crs:zz", "ex:a", "ex:l", "ex:s", "zz:a", "dc:", "ex:", "",
}

// C05_any: any path text and value, on documents with properties of each kind.
func C05_any() {
	k := sym.Choose(len(shapes))
	if sym.Bound(0, 1) == 0 {
		switch shapes[k].name {
		case "ordered list", "languages", "list of structures", "unknown list", "unknown languages", "unknown structure", "extension":
		default:
			return
		}
	}
	d := shapeDoc(k, "a", "b")
	p := anyPaths[sym.Choose(len(anyPaths))]
	// names without text are not properties, only failures are excluded then
	named := sym.Choose(2) == 1
	if named {
		p += xmp.Path(sym.StringIn(sym.Bound(2, 3), "[]/-0a"))
	} else {
		p += xmp.Path(sym.StringIn(sym.Bound(2, 3), "[]/:-0a"))
	}
	v := []string{"", "c"}[sym.Choose(2)]
	f := []xmp.SyncFlags{xmp.CREATE | xmp.REPLACE, xmp.DEFAULT, xmp.APPEND | xmp.CREATE | xmp.NOFAIL, xmp.DELETE}[sym.Choose(4)]
	before := listing(d)
	err := d.SetPath(xmp.PathValue{Path: p, Namespace: unknownNs[p.NamespacePrefix()], Value: v, Flags: f})
	after := listing(d)
	if err != nil {
		sameListing(d, d, before, after, shapes[k].name+": failed write")
	} else if v != "" && f == xmp.CREATE|xmp.REPLACE && named && wellFormed(p) {
		w, err := d.GetPath(p)
		if w != v {
			sym.Note(p, v, w, err)
		}
		sym.Assert(w == v, shapes[k].name+": any path set is read back")
	}
	sym.Reach("any")
}

// C05_index: any index.
func C05_index() {
	k := sym.Choose(len(shapes))
	d := shapeDoc(k, "a", "b")
	l := listing(d)
	x := l[sym.Choose(len(l))]
	i := sym.Choose(2)
	p := xmp.Path(strings.Split(string(x.Path), "[")[0])
	s := string(p)
	if i == 1 {
		s = string(x.Path)
		if strings.HasSuffix(s, "]") {
			return
		}
	}
	idx := []string{"2147483648", "9223372036854775807", "-1", "-2", "-9223372036854775808", "99999999999999999999", "1000000", "4611686018427387904", "7", "130"}
	s += "[" + idx[sym.Choose(len(idx))] + "]" + []string{"", "/ex:f"}[sym.Choose(2)]
	p = xmp.Path(s)
	_, _ = d.GetPath(p)
	err := d.SetPath(xmp.PathValue{Path: p, Value: "c", Flags: []xmp.SyncFlags{xmp.CREATE | xmp.REPLACE, xmp.DEFAULT}[sym.Choose(2)]})
	if err == nil && wellFormed(p) {
		w, _ := d.GetPath(p)
		sym.Note(p, w)
		sym.Assert(w == "c", shapes[k].name+": index read back")
	}
	for _, y := range l {
		if y.Path != p && !strings.HasPrefix(string(p), string(y.Path)) && err == nil {
			continue
		}
		if err != nil {
			v, _ := d.GetPath(y.Path)
			sym.Assert(v == y.Value, shapes[k].name+": failed write keeps values")
		}
	}
	sym.Reach("index")
}

// C05_copies: properties that two models hold are those of the model of their
// namespace, in every output form.
func C05_copies() {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	ns := []*xmp.Namespace{exif.NsExif, tiff.NsTiff, pdf.NsPDF, riff.NsRiff}[sym.Choose(4)]
	d, md := genDoc(g, ns)
	if g.skip {
		return
	}
	e, me := genDoc(g.again(), ns)
	l, m := ownListing(d, md), ownListing(e, me)
	own := ownPaths(l, ns)
	if len(own) == 0 {
		return
	}
	i := own[sym.Choose(len(own))]
	p := l[i].Path
	x := m.Find(p)
	owner, err := p.Namespace(d)
	if err != nil || x == nil || md.Can(owner.GetName()) || strings.Contains(string(p), "/") {
		return
	}
	w := x.Value
	// now the owner has the property as well
	_, err = d.MakeModel(owner)
	sym.Assert(err == nil, g.name+": owner")
	switch sym.Choose(2) {
	case 0:
		sym.Assert(d.SetPath(xmp.PathValue{Path: p, Value: w}) == nil, g.name+": set")
	default:
		sym.Assert(xmp.SetModelPath(d.FindModel(owner), p, w, xmp.DEFAULT) == nil, g.name+": set in the owner")
		d.SetDirty()
	}
	check := func(d *xmp.Document, what string) {
		sym.Assert(get(d, p, g.name+what) == w, g.name+what+": value of the owner")
		y := listing(d).Find(p)
		// (entries with the text of the default are the same entry)
		if lang := strings.HasSuffix(string(p), "]") && !strings.HasSuffix(string(p), "[0]"); y != nil || !lang {
			sym.Assert(y != nil && y.Value == w, g.name+what+": listed value of the owner")
		}
	}
	check(d, "")
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, g.name+": marshal")
	f := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, f) == nil, g.name+": unmarshal")
	check(f, " from XML")
	b, err = json.Marshal(d)
	sym.Assert(err == nil, g.name+": marshal JSON")
	f = xmp.NewDocument()
	sym.Assert(json.Unmarshal(b, f) == nil, g.name+": unmarshal JSON")
	check(f, " from JSON")
	if ns == exif.NsExif && owner.GetName() == "dc" {
		// the exif model fills these from its native tags again
		sym.Reach("copies")
		return
	}
	// documents that were read
	if k := strings.LastIndex(string(p), "["); k >= 0 {
		p = p[:k]
	}
	sym.Assert(f.SetPath(xmp.PathValue{Path: p, Flags: xmp.DELETE}) == nil, g.name+": clear")
	v, _ := f.GetPath(p)
	sym.Assert(v == "", g.name+": cleared")
	// (the exif model writes its native EXIF tags to XMP again)
	if ns != exif.NsExif {
		listing(f)
		v, _ = f.GetPath(p)
		sym.Assert(v == "", g.name+": stays cleared")
	}
	sym.Reach("copies")
}
