package h

import (
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/xmp"
)

// namespaces of the groups
var groups = map[string][]string{
	"xmp":    {"dc", "digiKam", "pdf", "xmp", "xmpBJ", "xmpDM", "xmpMM", "xmpRights", "xmpTPg"},
	"image":  {"crs", "exif", "exifEX", "aux", "photomechanic", "photoshop", "tiff"},
	"music":  {"id3", "iTunes"},
	"movie":  {"mp4", "qt"},
	"sound":  {"iXML", "riffinfo"},
	"camera": {"drone-dji", "qt"},
	"rights": {"cc", "xmpRights"},
	"vfx":    {},
}

// filtered: the names of one filter item.
func filtered(s string) []string {
	if g, ok := groups[s]; ok {
		return g
	}
	return []string{s}
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// admitted is the meaning of a filter text.
func admitted(text, ns string) bool {
	var inc, exc []string
	plus := false
	for _, s := range strings.Split(text, ",") {
		switch {
		case s == "":
		case s[0] == '-':
			exc = append(exc, filtered(s[1:])...)
		case s[0] == '+' || s[0] == ' ':
			inc = append(inc, filtered(s[1:])...)
			plus = true
		default:
			inc = append(inc, filtered(s)...)
			plus = true
		}
	}
	return (!plus || in(ns, inc)) && !in(ns, exc)
}

const manyBody = `<dc:format>@0</dc:format><dc:title><rdf:Alt><rdf:li xml:lang="x-default">t</rdf:li></rdf:Alt></dc:title><xmp:Label>l</xmp:Label><xmpMM:DerivedFrom stRef:documentID="i"/><crs:Version>7.0</crs:Version><xmpDM:artist>a</xmpDM:artist><ex:a>1</ex:a><ex:l><rdf:Seq><rdf:li>@1</rdf:li></rdf:Seq></ex:l><ey:b>2</ey:b><dc:zz>3</dc:zz>`

func manyDoc(a, b string) *xmp.Document {
	d := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(rdfHead+` xmp:Nickname="n" ex:q="q">`+manyBody+rdfTail), d)
	sym.Assert(err == nil, "template")
	n := 0
	plugNodes(d.Nodes(), []string{a, b}, &n)
	sym.Assert(n == 2, "template values")
	return d
}

// apply: the filter removes what it does not admit and nothing else.
func apply(d *xmp.Document, f func(*xmp.Document) bool, text, name string) {
	before := listing(d)
	r := f(d)
	after := listing(d)
	n, gone := 0, false
	for _, x := range before {
		ns := x.Path.NamespacePrefix()
		y := after.Find(x.Path)
		if admitted(text, ns) {
			n++
			sym.Assert(y != nil && y.Value == x.Value, name+": an admitted property stays")
		} else {
			gone = true
			if y != nil {
				sym.Note(text, x)
			}
			sym.Assert(y == nil, name+": an excluded property goes away")
		}
	}
	if len(after) != n {
		sym.Note(text, after)
	}
	sym.Assert(len(after) == n, name+": nothing else appears")
	sym.Assert(!gone || r, name+": removal is reported")
	sym.Assert(gone || !r, name+": nothing is reported without removal")
	for _, x := range d.Nodes() {
		sym.Assert(admitted(text, x.Name()), name+": no node of an excluded namespace")
	}
}

// C17_apply: filters of one or two items on a document with many namespaces.
func C17_apply() {
	items := []string{"", "dc", "-dc", "+ex", "-ey", "xmp", "-xmp", " ey", "image", "-rights", "vfx", "+xmpMM", "-crs", "zz", "-zz", "-vfx", "xmpDM", "-ex", "+dc", "-xmpMM", "-image"}
	n := sym.Bound(14, len(items))
	text := items[sym.Choose(n)]
	if sym.Choose(2) == 1 {
		text += "," + items[sym.Choose(len(items))]
	}
	d := manyDoc(sym.StringIn(1, lower), sym.StringIn(1, lower))
	switch sym.Choose(4) {
	case 0:
		apply(d, xmp.ParseFilter(text).Apply, text, "filter")
	case 3:
		f := xmp.ConvertFilter(text).Interface().(xmp.Filter)
		apply(d, xmp.ParseFilter(f.String()).Apply, text, "filter from its text")
	case 1:
		var f xmp.Filter
		sym.Assert(f.UnmarshalText([]byte(text)) == nil, "text")
		apply(d, f.Apply, text, "filter from text")
	default:
		f, err := xmp.ParseFilterStrict(text)
		if err != nil {
			return
		}
		apply(d, f.Apply, text, "strict filter")
	}
	sym.Reach("apply")
}

// C17_text: any filter text.
func C17_text() {
	text := sym.StringIn(1+sym.Choose(sym.Bound(5, 6)), "+-, cdexypmvfz")
	known := func(s string) bool {
		_, err := xmp.GetNamespace(s)
		_, ok := groups[s]
		return ok || err == nil
	}
	d := manyDoc("a", "b")
	f := xmp.ParseFilter(text)
	if sym.Bound(0, 1) == 1 && sym.Choose(2) == 1 {
		f = xmp.ParseFilter(f.String())
	}
	apply(d, f.Apply, text, "any filter")
	ok := true
	for _, s := range strings.Split(text, ",") {
		if s != "" && (s[0] == '-' || s[0] == '+') {
			s = s[1:]
		} else if s == "" {
			continue
		}
		ok = ok && known(s)
	}
	_, err := xmp.ParseFilterStrict(text)
	if (err == nil) != ok {
		sym.Note(text, err, ok)
	}
	sym.Assert((err == nil) == ok, "strict filters name registered namespaces")
	sym.Reach("text")
}

// C17_models: removing and keeping each bundled model.
func C17_models() {
	ns := append([]*xmp.Namespace{exif.NsExifEX, exif.NsExifAux}, modelNs...)[sym.Choose(len(modelNs)+2)]
	g := newGen()
	g.kinds = true
	d, _ := genDoc(g, ns)
	if g.skip {
		return
	}
	listing(d)
	name := ns.GetName()
	var group []string
	for k, l := range groups {
		if in(name, l) {
			group = append(group, k)
		}
	}
	sym.Assert(len(group) > 0, name+": namespace group")
	e := d
	has := func() bool {
		for _, x := range e.Nodes() {
			if x.Name() == name {
				return true
			}
		}
		return false
	}
	sym.Assert(has(), name+": model present")
	n := len(d.Nodes())
	switch sym.Choose(6) {
	case 0:
		sym.Assert(xmp.ParseFilter("-"+name).Apply(d), name+": removed")
		sym.Assert(!has() && len(d.Nodes()) == n-1, name+": no node stays")
	case 1:
		r := xmp.ParseFilter("+" + name).Apply(d)
		sym.Assert(has() && len(d.Nodes()) == 1 && r == (n > 1), name+": kept")
	case 2:
		r := xmp.ParseFilter(" zz," + name).Apply(d)
		sym.Assert(has() && len(d.Nodes()) == 1 && r == (n > 1), name+": kept with others")
	case 3:
		sym.Assert(xmp.ParseFilter("zz").Apply(d) && len(d.Nodes()) == 0, name+": nothing kept")
	case 4:
		for _, k := range group {
			sym.Assert(!has() || xmp.ParseFilter("-"+k).Apply(d), name+": removed with its group")
		}
		sym.Assert(!has(), name+": removed with its group")
	default:
		for _, k := range group {
			xmp.ParseFilter(k).Apply(d)
			sym.Assert(has(), name+": kept with its group")
		}
	}
	sym.Reach("models")
}
