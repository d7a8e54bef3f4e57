package h

import (
	"encoding/json"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

func jsonTrip(d *xmp.Document, name string) {
	b, err := json.Marshal(d)
	if err != nil {
		sym.Note(err)
	}
	sym.Assert(err == nil, name+": marshal")
	sym.Assert(json.Valid(b), name+": valid JSON")
	e := xmp.NewDocument()
	err = json.Unmarshal(b, e)
	if err != nil {
		sym.Note(err)
	}
	sym.Note(string(b))
	sym.Assert(err == nil, name+": unmarshal")
	sameDocs(d, e, name)
}

// C02_fields: any field of any bundled model.
func C02_fields() {
	g := newGen()
	if sym.Bound(0, 1) == 0 {
		g.str = func() string { return "v" + sym.StringIn(1, "abcdef") }
	}
	d, _ := genDoc(g, modelNs[sym.Choose(len(modelNs))])
	if g.skip {
		return
	}
	jsonTrip(d, g.name)
	sym.Reach("fields")
}

// C02_shapes: every kind of property with any text.
func C02_shapes() {
	i := sym.Choose(len(shapes))
	r := sym.Choose(2)
	d := shapeDoc(i, xmlText(sym.Bound(2, 3)-r), xmlText(1))
	sym.MapReverse(r == 1)
	jsonTrip(d, shapes[i].name)
	sym.Reach("shapes")
}

// C02_unicode: characters of two to four bytes and control characters in every
// kind of property.
func C02_unicode() {
	i := sym.Choose(len(shapes))
	s := ""
	if sym.Choose(2) == 0 {
		s = wideChar()
	} else {
		b := sym.Byte()
		sym.Assume(b < 0x80)
		s = string([]byte{b})
	}
	d := shapeDoc(i, "<"+s+">", "x"+s+"y")
	jsonTrip(d, shapes[i].name)
	sym.Reach("unicode")
}

// C02_mixed: properties a model knows and ones it does not know share a
// namespace, as attributes and as elements.
func C02_mixed() {
	d, name := mixedDoc()
	if d == nil {
		return
	}
	jsonTrip(d, name)
	sym.Reach("mixed")
}

// mixedDoc has known and unknown properties of one namespace.
func mixedDoc() (*xmp.Document, string) {
	ns := [][3]string{
		{"xmpTPg", "http://ns.adobe.com/xap/1.0/t/pg/", "NPages"},
		{"xmp", "http://ns.adobe.com/xap/1.0/", "Rating"},
		{"photoshop", "http://ns.adobe.com/photoshop/1.0/", "City"},
	}[sym.Choose(3)]
	attrs, elems, name := "", "", ns[0]
	one := func(local, val string) {
		switch sym.Choose(3) {
		case 0:
			attrs += ` ` + ns[0] + `:` + local + `="` + val + `"`
			name += " " + local + "=attr"
		case 1:
			elems += `<` + ns[0] + `:` + local + `>` + val + `</` + ns[0] + `:` + local + `>`
			name += " " + local + "=element"
		}
	}
	one(ns[2], sym.StringIn(1, "12345"))
	one("Zfoo", "y"+sym.StringIn(1, lower))
	one("Abar", "z"+sym.StringIn(1, lower))
	if attrs+elems == "" {
		return nil, ""
	}
	d := xmp.NewDocument()
	in := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description xmlns:` + ns[0] + `="` + ns[1] + `"` + attrs + `>` + elems + `</rdf:Description></rdf:RDF>`
	sym.Assert(xmp.Unmarshal([]byte(in), d) == nil, name+": read")
	return d, name
}

// C02_foreign: JSON that was not written by this library, lists of texts and
// structures whose fields look like the ones of language alternatives.
func C02_foreign() {
	var texts []string
	text := func() string {
		s := "t" + itoa(len(texts)) + sym.StringIn(1, lower)
		texts = append(texts, s)
		return s
	}
	alt := false
	item := func(first bool) string {
		if sym.Choose(3) == 0 {
			return `"` + text() + `"`
		}
		s, n := "", 0
		add := func(k, v string) {
			if s != "" {
				s += ","
			}
			s += `"` + k + `":` + v
			n++
		}
		if sym.Choose(2) == 1 {
			add("value", `"`+text()+`"`)
		}
		if sym.Choose(2) == 1 {
			add("lang", `"`+text()+`"`)
		}
		if sym.Choose(2) == 1 {
			add("isDefault", []string{"true", "false"}[sym.Choose(2)])
		}
		k := n
		if sym.Choose(2) == 1 {
			add("un:z", `"`+text()+`"`)
		}
		if first {
			alt = k == 3 && n == 3
		}
		return `{` + s + `}`
	}
	l := item(true)
	if alt {
		return // language alternatives
	}
	for i, n := 0, sym.Choose(2); i < n; i++ {
		l += "," + item(false)
	}
	in := `{"namespaces":{"un":"urn:un"},"models":{"un":{"un:a":[` + l + `]}}}`
	d := xmp.NewDocument()
	err := json.Unmarshal([]byte(in), d)
	sym.Note(in, err)
	sym.Assert(err == nil, "read")
	b, err := json.Marshal(d)
	sym.Note(string(b), err)
	sym.Assert(err == nil, "write")
	sym.Assert(!strings.Contains(string(b), "isDefault") || strings.Contains(l, "isDefault"), "lists are no alternatives")
	for _, s := range texts {
		sym.Assert(strings.Count(string(b), `"`+s+`"`) == 1, "every text is kept")
	}
	sym.Reach("foreign")
}
