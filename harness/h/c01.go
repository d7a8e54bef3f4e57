package h

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

func listing(d *xmp.Document) xmp.PathValueList {
	l, err := d.ListPaths()
	if err != nil {
		sym.Note(err)
	}
	sym.Assert(err == nil, "listing")
	return l
}

// holds: every path listed by a has the same value in b. A language
// alternative whose default text equals that of another language is stored as
// one entry, which still answers for both.
func holds(a, b *xmp.Document, la, lb xmp.PathValueList, what string) {
	for _, x := range la {
		if y := lb.Find(x.Path); y != nil {
			sym.Assert(y.Value == x.Value, what+": value kept")
			continue
		}
		v, err := b.GetPath(x.Path)
		if err != nil || v != x.Value {
			sym.Note(x, v, err)
		}
		sym.Assert(err == nil && v == x.Value, what+": path kept")
	}
}

func sameDocs(a, b *xmp.Document, what string) {
	la, lb := listing(a), listing(b)
	sym.Assert(len(la) > 0, what+": something is listed")
	holds(a, b, la, lb, what)
	holds(b, a, lb, la, what+" read back")
}

func roundTrip(d *xmp.Document, name string) {
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, name+": marshal")
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, name+": unmarshal")
	sameDocs(d, e, name)
	sym.MapReverse(true)
	c, err := xmp.Marshal(e)
	sym.MapReverse(false)
	sym.Assert(err == nil, name+": marshal again")
	sym.Assert(bytes.Equal(b, c), name+": same bytes again")
}

// C01_fields: any field of any bundled model.
func C01_fields() {
	g := newGen()
	d, _ := genDoc(g, modelNs[sym.Choose(len(modelNs))])
	if g.skip {
		return
	}
	roundTrip(d, g.name)
	sym.Reach("fields")
}

func marshalAs(d *xmp.Document, mode int) []byte {
	var b []byte
	var err error
	switch mode {
	case 0:
		b, err = xmp.Marshal(d)
	case 1:
		b, err = xmp.MarshalIndent(d, " ", "\t")
	default:
		var buf bytes.Buffer
		e := xmp.NewEncoder(&buf)
		e.SetFlags(0)
		err = e.Encode(d)
		b = buf.Bytes()
	}
	sym.Assert(err == nil, "marshal")
	return b
}

// C01_shapes: every kind of property with any text, in every output form.
func C01_shapes() {
	i := sym.Choose(len(shapes))
	mode := sym.Choose(3)
	name := shapes[i].name
	n := sym.Bound(2, 3)
	if mode > 0 {
		n--
	}
	d := shapeDoc(i, xmlText(n), xmlText(1))
	b := marshalAs(d, mode)
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, name+": unmarshal")
	sameDocs(d, e, name)
	sym.MapReverse(true)
	c := marshalAs(e, mode)
	sym.MapReverse(false)
	sym.Assert(bytes.Equal(b, c), name+": same bytes again")
	sym.Reach("shapes")
}

// C01_pieces: text that is written in pieces, with comments, CDATA sections
// and references between them.
func C01_pieces() {
	text, want := "", ""
	for i := 0; i < 3; i++ {
		switch sym.Choose(6) {
		case 0:
			s := sym.StringIn(1+sym.Choose(sym.Bound(1, 2)), "ab >\n'")
			text += s
			want += s
		case 1:
			s := sym.StringIn(1+sym.Choose(sym.Bound(1, 2)), "a<& ;\"")
			text += "<![CDATA[" + s + "]]>"
			want += s
		case 2:
			text += []string{"&lt;", "&#60;", "&#x3c;"}[i]
			want += "<"
		case 3:
			text += []string{"<!-- c -->", "<!---->", "<!--<a>-->"}[i]
		case 4:
			text += "<?p q?>"
		}
	}
	want = strings.TrimSpace(want)
	place := sym.Choose(4)
	path := xmp.Path([]string{"dc:source", "ex:a", "dc:creator[0]", "ex:s/b"}[place])
	body := []string{"<dc:source>@</dc:source>", "<ex:a>@</ex:a>", "<dc:creator><rdf:Seq><rdf:li>@</rdf:li></rdf:Seq></dc:creator>", `<ex:s rdf:parseType="Resource"><ex:b>@</ex:b></ex:s>`}[place]
	d := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal([]byte(rdfHead+">"+strings.Replace(body, "@", text, 1)+rdfTail), d) == nil, "pieces: unmarshal")
	v, _ := d.GetPath(path)
	if v != want {
		sym.Note(text, v)
	}
	sym.Assert(v == want, "pieces: text")
	sym.Reach("pieces")
}

// C01_header: the toolkit and the resource a document is about.
func C01_header() {
	tk, about := xmlText(sym.Bound(1, 2)), xmlText(sym.Bound(1, 2))
	if sym.Choose(2) == 1 {
		about = ""
	}
	in, err := json.Marshal(map[string]any{
		"toolkit": tk, "about": about,
		"namespaces": map[string]string{"dc": "http://purl.org/dc/elements/1.1/"},
		"models":     map[string]any{"dc": map[string]any{"dc:format": "f"}},
	})
	sym.Assert(err == nil, "header: input")
	d := xmp.NewDocument()
	sym.Assert(json.Unmarshal(in, d) == nil, "header: unmarshal")
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, "header: marshal")
	var x struct {
		Toolkit string `xml:"adobe:ns:meta/ xmptk,attr"`
		Desc    []struct {
			About string `xml:"http://www.w3.org/1999/02/22-rdf-syntax-ns# about,attr"`
		} `xml:"RDF>Description"`
	}
	sym.Assert(xml.Unmarshal(b, &x) == nil, "header: XML")
	sym.Assert(x.Toolkit == tk, "header: toolkit written")
	sym.Assert(len(x.Desc) == 1 && x.Desc[0].About == about, "header: about written")
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, "header: unmarshal XML")
	c, err := xmp.Marshal(e)
	sym.Assert(err == nil && bytes.Equal(b, c), "header: same bytes again")
	j, err := json.Marshal(e)
	sym.Assert(err == nil, "header: JSON")
	var y struct{ Toolkit, About string }
	sym.Assert(json.Unmarshal(j, &y) == nil, "header: read JSON")
	sym.Assert(y.Toolkit == tk && y.About == about, "header: kept in JSON")
	sym.Reach("header")
}

// C01_unicode: characters of two to four bytes in every kind of property.
func C01_unicode() {
	i := sym.Choose(len(shapes))
	s := wideChar()
	d := shapeDoc(i, "<"+s+">", "x"+s+"y")
	roundTrip(d, shapes[i].name)
	sym.Reach("unicode")
}

// C01_mixed: properties a model knows and ones it does not know share a
// namespace, as attributes and as elements.
func C01_mixed() {
	d, name := mixedDoc()
	if d == nil {
		return
	}
	roundTrip(d, name)
	sym.Reach("mixed")
}
