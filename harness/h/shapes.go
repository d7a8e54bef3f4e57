package h

import (
	"reflect"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

const rdfHead = `<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="T"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:xmp="http://ns.adobe.com/xap/1.0/" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:stEvt="http://ns.adobe.com/xap/1.0/sType/ResourceEvent#" xmlns:xmpDM="http://ns.adobe.com/xmp/1.0/DynamicMedia/" xmlns:crs="http://ns.adobe.com/camera-raw-settings/1.0/" xmlns:xmpGImg="http://ns.adobe.com/xap/1.0/g/img/" xmlns:iXML="http://ns.adobe.com/ixml/1.0/" xmlns:ex="http://ex.org/a/" xmlns:ey="http://ex.org/b/"`
const rdfTail = `</rdf:Description></rdf:RDF></x:xmpmeta>`

// shapes are the properties a document can have, one or a few of each kind;
// @0 and @1 stand for the text values.
var shapes = []struct{ name, attr, body string }{
	{"text element", ``, `<dc:format>@0</dc:format><dc:source>@1</dc:source>`},
	{"text attribute", ` xmp:Nickname="@0"`, `<xmp:Label>@1</xmp:Label>`},
	{"ordered list", ``, `<dc:creator><rdf:Seq><rdf:li>@0</rdf:li><rdf:li>@1</rdf:li></rdf:Seq></dc:creator>`},
	{"unordered list", ``, `<dc:subject><rdf:Bag><rdf:li>@0</rdf:li><rdf:li>x</rdf:li><rdf:li>@1</rdf:li></rdf:Bag></dc:subject>`},
	{"languages", ``, `<dc:title><rdf:Alt><rdf:li xml:lang="x-default">@0</rdf:li><rdf:li xml:lang="de-DE">@1</rdf:li></rdf:Alt></dc:title>`},
	{"structure", ``, `<xmpMM:DerivedFrom rdf:parseType="Resource" stRef:documentID="@0" stRef:partMapping="@1"/>`},
	{"list of structures", ``, `<xmpMM:History><rdf:Seq><rdf:li stEvt:action="@0" stEvt:parameters="p"/><rdf:li stEvt:parameters="@1"/></rdf:Seq></xmpMM:History>`},
	{"nested structure", ``, `<xmpDM:resampleParams xmpDM:quality="@0"/><xmpDM:projectRef xmpDM:type="movie"><xmpDM:path>@1</xmpDM:path></xmpDM:projectRef>`},
	{"unknown text", ``, `<ex:a>@0</ex:a><ey:a>@1</ey:a>`},
	{"unknown attribute", ` ex:a="@0" ey:b="@1"`, `<ex:c>c</ex:c>`},
	{"unknown list", ``, `<ex:l><rdf:Seq><rdf:li>@0</rdf:li><rdf:li>@1</rdf:li></rdf:Seq></ex:l>`},
	{"unknown languages", ``, `<ex:l><rdf:Alt><rdf:li xml:lang="x-default">@0</rdf:li><rdf:li xml:lang="de">@1</rdf:li></rdf:Alt></ex:l>`},
	{"unknown alternatives", ``, `<ex:l><rdf:Alt><rdf:li>@0</rdf:li><rdf:li>@1</rdf:li></rdf:Alt></ex:l>`},
	{"unknown list of lists", ``, `<ex:l><rdf:Seq><rdf:li><rdf:Bag><rdf:li>@0</rdf:li></rdf:Bag></rdf:li><rdf:li>@1</rdf:li></rdf:Seq></ex:l>`},
	{"unknown qualified", ``, `<ex:l ey:q="@0">@1</ex:l>`},
	{"same names", ``, `<ex:s rdf:parseType="Resource"><ex:f>@0</ex:f><ey:f>@1</ey:f></ex:s>`},
	{"nested namespaces", ``, `<ex:s rdf:parseType="Resource"><ey:f rdf:parseType="Resource"><ex:g>@0</ex:g><ey:g>@1</ey:g></ey:f></ex:s>`},
	{"alternatives of structures", ``, `<xmp:Thumbnails><rdf:Alt><rdf:li rdf:parseType="Resource"><xmpGImg:format>@0</xmpGImg:format></rdf:li></rdf:Alt></xmp:Thumbnails><xmp:Label>@1</xmp:Label>`},
	{"named extensions", ``, `<xmp:extension><ex:n rdf:parseType="Resource"><ex:f>@0</ex:f><ex:g>@1</ex:g></ex:n></xmp:extension>`},
	{"unknown structure", ``, `<ex:s rdf:parseType="Resource"><ex:f>@0</ex:f><ey:g>@1</ey:g></ex:s>`},
	{"unknown nested", ``, `<ex:s ex:q="q"><ex:f ey:h="@0"><ex:i>@1</ex:i></ex:f></ex:s>`},
	{"unknown list of structures", ``, `<ex:l><rdf:Bag><rdf:li rdf:parseType="Resource"><ex:f>@0</ex:f></rdf:li><rdf:li rdf:parseType="Resource"><ex:f>@1</ex:f></rdf:li></rdf:Bag></ex:l>`},
	{"unknown property of a model", ` dc:zz="@0"`, `<dc:yy>@1</dc:yy>`},
	{"extension", ``, `<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description><dc:format>@0</dc:format><xmp:Label>@1</xmp:Label></rdf:Description></rdf:li></rdf:Bag></xmpMM:Pantry>`},
	{"extension of unknown", ``, `<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description><ex:f>@0</ex:f><ex:g>@1</ex:g></rdf:Description></rdf:li></rdf:Bag></xmpMM:Pantry>`},
	{"extension attributes", ``, `<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description xmp:Nickname="@0" ex:g="@1"/></rdf:li></rdf:Bag></xmpMM:Pantry>`},
	{"simple extensions", ``, `<xmp:extension><ex:n>@0</ex:n><ey:m>@1</ey:m></xmp:extension>`},
	{"extension lists", ``, `<xmp:extension><ex:n rdf:parseType="Resource"><ex:f><rdf:Seq><rdf:li>@0</rdf:li><rdf:li>@1</rdf:li></rdf:Seq></ex:f></ex:n></xmp:extension>`},
	{"unknown property of iXML", ` iXML:ZZ="@0"`, `<iXML:YY>@1</iXML:YY>`},
}

// shapeDoc parses shape i and puts the values in.
func shapeDoc(i int, vals ...string) *xmp.Document {
	s := shapes[i]
	d := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(rdfHead+s.attr+">"+s.body+rdfTail), d)
	if err != nil {
		sym.Note(err)
	}
	sym.Assert(err == nil, s.name+": template")
	n := 0
	plugNodes(d.Nodes(), vals, &n)
	sym.Assert(n == len(vals), s.name+": template values")
	return d
}

func plugStr(s string, vals []string, n *int) string {
	if len(s) == 2 && s[0] == '@' {
		*n++
		return vals[int(s[1]-'0')]
	}
	return s
}

func plugNodes(l xmp.NodeList, vals []string, n *int) {
	for _, x := range l {
		plugNode(x, vals, n)
	}
}

func plugNode(x *xmp.Node, vals []string, n *int) {
	x.Value = plugStr(x.Value, vals, n)
	for i := range x.Attr {
		x.Attr[i].Value = plugStr(x.Attr[i].Value, vals, n)
	}
	if x.Model != nil {
		plugValue(reflect.ValueOf(x.Model), vals, n)
	}
	plugNodes(x.Nodes, vals, n)
}

func plugValue(v reflect.Value, vals []string, n *int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if x, ok := v.Interface().(*xmp.Extension); ok {
			plugNode((*xmp.Node)(x), vals, n)
			return
		}
		plugValue(v.Elem(), vals, n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				plugValue(f, vals, n)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			plugValue(v.Index(i), vals, n)
		}
	case reflect.String:
		if s := v.String(); len(s) == 2 && s[0] == '@' {
			v.SetString(plugStr(s, vals, n))
		}
	}
}

// xmlText is an arbitrary text of legal XML characters without white space at
// its ends.
func xmlText(n int) string {
	s := sym.StringIn(n, xmlChars)
	sym.Assume(s[0] > ' ' && s[n-1] > ' ')
	return s
}
