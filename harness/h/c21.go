package h

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"io"
	"sort"
	"strings"

	"verif/harness/sym"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

const rdfURI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"

// expanded lists the values of a packet under the expanded names (URI and
// local name) of the elements and attributes they belong to, as far as unknown
// namespaces (with URIs that start with urn:) take part.
func expanded(b []byte, what string) []string {
	var out []string
	add := func(path, value string) {
		if strings.Contains(path, "{urn:") && value != "" {
			out = append(out, path+"="+value)
		}
	}
	d := xml.NewDecoder(bytes.NewReader(b))
	var path []string
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			sym.Note(err)
		}
		sym.Assert(err == nil, what+": XML")
		switch t := t.(type) {
		case xml.StartElement:
			at := ""
			if len(path) > 0 {
				at = path[len(path)-1]
			}
			switch {
			case t.Name.Space == "adobe:ns:meta/", t.Name.Space == rdfURI && (t.Name.Local == "RDF" || t.Name.Local == "Description"):
			default:
				at += "{" + t.Name.Space + "}" + t.Name.Local + "/"
			}
			path = append(path, at)
			for _, a := range t.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					add(at+"@{"+a.Name.Space+"}"+a.Name.Local, a.Value)
				}
			}
		case xml.EndElement:
			path = path[:len(path)-1]
		case xml.CharData:
			if len(path) > 0 {
				add(path[len(path)-1], strings.TrimSpace(string(t)))
			}
		}
	}
	sort.Strings(out)
	return out
}

func sameNames(a, b []string, what string) {
	if len(a) != len(b) {
		sym.Note(a, b)
	}
	sym.Assert(len(a) == len(b), what+": all properties of unknown namespaces are kept")
	for i := range a {
		if a[i] != b[i] {
			sym.Note(a[i], b[i])
		}
		sym.Assert(a[i] == b[i], what+": under their name in their namespace")
	}
}

// lookups: prefixes and URIs of a document and of the registry belong together.
func lookups(d *xmp.Document, what string) {
	l := d.Namespaces()
	for i, x := range l {
		for _, y := range l[:i] {
			sym.Assert(x.GetName() != y.GetName() && x.GetURI() != y.GetURI(), what+": prefixes and URIs are unique")
		}
		y := d.FindNs("", x.GetURI())
		sym.Assert(y != nil && y.GetName() == x.GetName() && y.GetURI() == x.GetURI(), what+": namespace found by URI")
		y = d.FindNs(x.GetName()+":a", "")
		sym.Assert(y != nil && y.GetURI() == x.GetURI(), what+": namespace found by prefix")
		if ns, err := xmp.GetNamespace(x.GetName()); err == nil {
			sym.Assert(ns.GetURI() == x.GetURI(), what+": registered prefixes are not used for other URIs")
		}
	}
	registered(what)
}

func registered(what string) {
	for _, x := range xmp.NsRegistry.Namespaces() {
		sym.Assert(xmp.NsRegistry.GetPrefix(x.GetURI()) == x.GetName(), what+": registered prefix")
		y, err := xmp.GetNamespace(x.GetName())
		sym.Assert(err == nil && y.GetURI() == x.GetURI(), what+": registered namespace")
	}
	for _, p := range xmp.NsRegistry.Prefixes() {
		y, err := xmp.GetNamespace(p)
		sym.Assert(err == nil && y.GetName() == p && xmp.NsRegistry.GetPrefix(y.GetURI()) == p, what+": registered names")
	}
}

// kept: what a packet holds in unknown namespaces survives.
func kept(in string, what string) *xmp.Document {
	want := expanded([]byte(in), what+" input")
	sym.Assert(len(want) > 0, what+": template")
	d := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(in), d)
	if err != nil {
		sym.Note(in, err)
	}
	sym.Assert(err == nil, what+": decoded")
	lookups(d, what)
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, what+": encoded")
	sameNames(want, expanded(b, what+" output"), what)
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, what+": decoded again")
	lookups(e, what+" again")
	sameDocs(d, e, what+" again")
	b, err = xmp.Marshal(e)
	sym.Assert(err == nil, what+": encoded again")
	sameNames(want, expanded(b, what+" output"), what+" again")
	b, err = json.Marshal(d)
	sym.Assert(err == nil, what+": JSON")
	f := xmp.NewDocument()
	err = json.Unmarshal(b, f)
	if err != nil {
		sym.Note(err)
	}
	sym.Assert(err == nil, what+": JSON decoded")
	lookups(f, what+" JSON")
	for i, l := 0, d.Namespaces(); i < len(l); i++ {
		if strings.HasPrefix(l[i].GetURI(), "urn:") {
			y := f.FindNs("", l[i].GetURI())
			sym.Assert(y != nil && y.GetName() == l[i].GetName(), what+": JSON namespaces")
		}
	}
	sameDocs(d, f, what+" JSON")
	return d
}

var unknownShapes = []struct{ name, attr, body string }{
	{"text", "", `<P:a D>v</P:a>`},
	{"attribute", ` P:a="v"`, ``},
	{"list", "", `<P:l D><rdf:Seq><rdf:li>v</rdf:li><rdf:li>w</rdf:li></rdf:Seq></P:l>`},
	{"structure", "", `<P:s D rdf:parseType="Resource"><P:f>v</P:f><P:g P:h="x">w</P:g></P:s>`},
	{"other namespace inside", "", `<P:s D rdf:parseType="Resource"><Q:f xmlns:Q="urn:q">v</Q:f><P:f>w</P:f></P:s>`},
	{"qualifier of a known property", "", `<dc:yy xmlns:dc="http://purl.org/dc/elements/1.1/"><P:q D>v</P:q></dc:yy>`},
	{"two namespaces", "", `<P:a D>v</P:a><Q:a xmlns:Q="urn:q">w</Q:a>`},
	{"languages", "", `<P:a D><rdf:Alt><rdf:li xml:lang="x-default">v</rdf:li><rdf:li xml:lang="de">w</rdf:li></rdf:Alt></P:a>`},
}

// unknownPacket puts a shape into a packet. The namespace is declared at one
// of the outer elements (0 to 2) or at the element itself (3).
func unknownPacket(shape int, p, q, uri string, place int) string {
	decl := ` xmlns:` + p + `="` + uri + `"`
	at := func(i int) string {
		if i == place {
			return decl
		}
		return ""
	}
	s := unknownShapes[shape]
	fill := func(s string) string {
		s = strings.ReplaceAll(s, "P:", p+":")
		s = strings.ReplaceAll(s, "xmlns:Q=", "xmlns:"+q+"=")
		s = strings.ReplaceAll(s, "Q:", q+":")
		return strings.Replace(s, " D", at(3), 1)
	}
	return `<x:xmpmeta xmlns:x="adobe:ns:meta/"` + at(0) + `><rdf:RDF xmlns:rdf="` + rdfURI + `"` + at(1) + `>` +
		`<rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:format>f</dc:format></rdf:Description>` +
		`<rdf:Description rdf:about=""` + at(2) + fill(s.attr) + `>` + fill(s.body) + `</rdf:Description></rdf:RDF></x:xmpmeta>`
}

// C21_prefix: any prefix for an unknown namespace, declared at any element.
func C21_prefix() {
	shape := sym.Choose(len(unknownShapes))
	place := sym.Choose(4)
	if place == 3 && unknownShapes[shape].body == "" {
		return
	}
	var p string
	switch sym.Choose(3) {
	case 0:
		p = sym.StringIn(2, "cdme4")
		sym.Assume(p[0] > '9')
	case 1:
		p = []string{"xmp", "stRef", "xap", "ns1", "stArea", "exifEX"}[sym.Choose(6)]
	default:
		p = []string{"ex", "rdfs"}[sym.Choose(2)]
	}
	q := []string{"dc", "ex", p}[sym.Choose(3)]
	switch unknownShapes[shape].name {
	case "other namespace inside":
		if p == q {
			return // the rest of the structure belongs to the outer one
		}
	case "two namespaces":
	default:
		if q != "ex" {
			return
		}
	}
	if p == "dc" && place < 3 && unknownShapes[shape].name == "qualifier of a known property" {
		return // declared again
	}
	d := kept(unknownPacket(shape, p, q, "urn:p", place), unknownShapes[shape].name)
	v, err := d.GetPath("dc:format")
	sym.Assert(err == nil && v == "f", unknownShapes[shape].name+": properties of known namespaces stay")
	sym.Reach("prefix")
}

// C21_uri: any URI.
func C21_uri() {
	shape := sym.Choose(len(unknownShapes))
	uri := "urn:" + sym.StringIn(sym.Bound(3, 5), "/#:-._~%?=+1az")
	p := []string{"ex", "dc"}[sym.Choose(2)]
	if p == "dc" && unknownShapes[shape].name == "qualifier of a known property" {
		return // declared again
	}
	kept(unknownPacket(shape, p, "ey", uri, 2), unknownShapes[shape].name)
	sym.Reach("uri")
}

// C21_special: default namespaces, core prefixes for other namespaces, one
// prefix for several namespaces, other prefixes for known namespaces.
func C21_special() {
	v := sym.StringIn(1, lower)
	wrap := func(s string) string {
		return `<x:xmpmeta xmlns:x="adobe:ns:meta/"><r:RDF xmlns:r="` + rdfURI + `">` + s + `</r:RDF></x:xmpmeta>`
	}
	desc := func(attr, s string) string { return `<r:Description r:about=""` + attr + `>` + s + `</r:Description>` }
	var in, what string
	switch sym.Choose(9) {
	case 0:
		what = "default namespace"
		in = wrap(desc("", `<a xmlns="urn:p">`+v+`</a>`))
	case 1:
		what = "default namespace of a structure"
		in = wrap(desc("", `<s xmlns="urn:p" r:parseType="Resource"><f>`+v+`</f><g>w</g></s>`))
	case 2:
		what = "default namespace and another one"
		in = wrap(desc(` xmlns:ns1="urn:q"`, `<a xmlns="urn:p">`+v+`</a><ns1:a>w</ns1:a>`))
	case 3:
		what = "core prefix"
		p := []string{"rdf", "x", "stArea"}[sym.Choose(3)]
		in = wrap(desc("", `<`+p+`:a xmlns:`+p+`="urn:p">`+v+`</`+p+`:a>`))
	case 4:
		what = "one prefix for several namespaces"
		p := []string{"ex", "dc"}[sym.Choose(2)]
		in = wrap(desc(` xmlns:`+p+`="urn:p"`, `<`+p+`:a>`+v+`</`+p+`:a>`) + desc(` xmlns:`+p+`="urn:q"`, `<`+p+`:a>`+v+`x</`+p+`:a>`) + desc(` xmlns:`+p+`="urn:r"`, `<`+p+`:a>`+v+`y</`+p+`:a>`))
	case 5:
		what = "several prefixes for one namespace"
		in = wrap(desc(` xmlns:ex="urn:p"`, `<ex:a>`+v+`</ex:a>`) + desc(` xmlns:ey="urn:p"`, `<ey:b>`+v+`x</ey:b>`))
	case 6:
		what = "swapped prefixes"
		in = wrap(desc(` xmlns:xmp="http://purl.org/dc/elements/1.1/" xmlns:dc="http://ns.adobe.com/xap/1.0/" xmlns:ex="urn:p"`, `<xmp:format>f`+v+`</xmp:format><dc:Label>l</dc:Label><ex:a>`+v+`</ex:a>`))
	case 7:
		what = "unknown properties of known namespaces"
		in = wrap(desc(` xmlns:xap="http://ns.adobe.com/xap/1.0/" xmlns:ex="urn:p"`, `<xap:Label>l</xap:Label><xap:zz><ex:a>`+v+`</ex:a></xap:zz>`))
	default:
		what = "known prefix for an unknown namespace inside of its model"
		in = wrap(desc(` xmlns:d="http://purl.org/dc/elements/1.1/"`, `<d:zz r:parseType="Resource"><dc:a xmlns:dc="urn:p">`+v+`</dc:a><d:b>w</d:b></d:zz>`))
	}
	d := kept(in, what)
	check := func(p xmp.Path, w string) {
		x, err := d.GetPath(p)
		sym.Assert(err == nil && x == w, what+": known properties by their standard prefix")
	}
	switch what {
	case "swapped prefixes":
		check("dc:format", "f"+v)
		check("xmp:Label", "l")
	case "unknown properties of known namespaces":
		check("xmp:Label", "l")
	case "known prefix for an unknown namespace inside of its model":
		check("dc:zz/b", "w")
	}
	sym.Reach("special")
}

// C21_set: properties of unknown namespaces set through paths.
func C21_set() {
	p := sym.StringIn(sym.Bound(2, 3), "cdxe1")
	sym.Assume(p[0] > '9')
	uris := []string{"urn:p", "urn:q", "http://purl.org/dc/elements/1.1/"}
	d, e := xmp.NewDocument(), xmp.NewDocument()
	if sym.Choose(2) == 1 {
		d, e = manyDoc("a", "b"), manyDoc("a", "b")
	}
	set := func(d *xmp.Document, p, name, uri, v string) {
		before := listing(d)
		path := xmp.NewPath(p, name)
		err := d.SetPath(xmp.PathValue{Path: path, Namespace: uri, Value: v})
		lookups(d, "set")
		if err != nil {
			same(before, listing(d), "failed")
			return
		}
		w, err := d.GetPath(path)
		sym.Assert(err == nil && w == v, "set: read back")
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, "set: encoded")
		// a prefix which is known keeps its URI
		ns := d.FindNs(p+":a", "")
		sym.Assert(ns != nil, "set: namespace")
		if r, err := xmp.GetNamespace(p); err == nil {
			sym.Assert(ns.GetURI() == r.GetURI(), "set: registered prefixes keep their URI")
		} else if p != "ex" && p != "ey" {
			sym.Assert(ns.GetURI() == uri, "set: namespace of the property")
			n := 0
			for _, x := range expanded(b, "set") {
				if strings.HasPrefix(x, "{"+uri+"}"+name+"/=") || strings.HasPrefix(x, "@{"+uri+"}"+name+"=") {
					n++
				}
			}
			sym.Assert(n == 1 || !strings.HasPrefix(uri, "urn:"), "set: written under the URI")
		}
	}
	u := sym.Choose(len(uris))
	set(d, p, "a", uris[u], "v")
	registered("set")
	// the same prefix in another document, and another prefix in the same one
	set(e, p, "a", uris[1], "w")
	set(d, "zz", "b", uris[sym.Choose(len(uris))], "z")
	registered("set twice")
	sym.Reach("set")
}

// C21_registry: names and URIs registered again.
func C21_registry() {
	uris := []string{"urn:0", "urn:1", "urn:2", "http://purl.org/dc/elements/1.1/"}
	names := []string{"r0", "r1", "dc"}
	last := map[string]string{}
	for i := 0; i < sym.Bound(3, 4); i++ {
		n, u := names[sym.Choose(len(names))], uris[sym.Choose(len(uris))]
		ns := xmp.NewNamespace(n, u, nil)
		xmp.Register(ns)
		for k, v := range last {
			if v == u {
				delete(last, k)
			}
		}
		last[n] = u
		registered("registry")
		for k, v := range last {
			ns, err := xmp.GetNamespace(k)
			sym.Assert(err == nil && ns.GetURI() == v && xmp.NsRegistry.GetPrefix(v) == k, "registry: last registration")
		}
	}
	xmp.Register(xmp.NewNamespace("none", "urn:none", nil))
	_, err := xmp.GetNamespace("nothing")
	sym.Assert(err != nil && xmp.NsRegistry.GetPrefix("urn:nothing") == "", "registry: unknown")
	sym.Reach("registry")
}

// C21_separate: documents that were combined keep their own namespaces.
func C21_separate() {
	d, e := xmp.NewDocument(), xmp.NewDocument()
	d.SetPath(xmp.PathValue{Path: "dc:format", Value: "f"})
	if sym.Choose(2) == 1 {
		d.SetPath(xmp.PathValue{Path: "own:a", Namespace: "urn:own", Value: "f"})
	}
	e.SetPath(xmp.PathValue{Path: "dc:source", Value: "s"})
	v := sym.StringIn(1, lower)
	if sym.Choose(2) == 1 {
		e.SetPath(xmp.PathValue{Path: "ex:a", Namespace: "urn:e", Value: v})
	}
	switch sym.Choose(4) {
	case 0:
		sym.Assert(d.Merge(e, xmp.MERGE) == nil, "separate: merge")
	case 1:
		m, err := xmpmm.MakeModel(d)
		sym.Assert(err == nil, "separate: model")
		m.AddPantry(e)
	case 2:
		b, err := xmp.Marshal(e)
		sym.Assert(err == nil, "separate: write")
		sym.Assert(xmp.Unmarshal(b, d) == nil, "separate: read")
	default:
		b, err := json.Marshal(e)
		sym.Assert(err == nil, "separate: write")
		sym.Assert(json.Unmarshal(b, d) == nil, "separate: read")
	}
	if sym.Choose(2) == 1 {
		d, e = e, d
	}
	before := len(e.Namespaces())
	p := "z" + sym.StringIn(1, lower)
	if _, err := xmp.GetNamespace(p); err == nil {
		return
	}
	sym.Assert(d.SetPath(xmp.PathValue{Path: xmp.NewPath(p, "b"), Namespace: "urn:z", Value: "w"}) == nil, "separate: set")
	sym.Assert(d.FindNs(p+":b", "") != nil && d.FindNs("", "urn:z") != nil, "separate: new namespace")
	sym.Assert(e.FindNs(p+":b", "") == nil && e.FindNs("", "urn:z") == nil, "separate: new namespace is not found in another document")
	sym.Assert(len(e.Namespaces()) == before, "separate: namespaces of another document")
	_, err := xmp.GetNamespace(p)
	sym.Assert(err != nil, "separate: new namespace is not registered")
	lookups(d, "separate")
	lookups(e, "separate")
	sym.Reach("separate")
}
