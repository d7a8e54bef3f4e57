package h

import (
	"encoding"
	"encoding/json"
	"reflect"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/xmp"
)

// use reads, lists and writes a document that was decoded from hostile input.
func use(d *xmp.Document) {
	l, err := d.ListPaths()
	if err == nil && len(l) > 0 {
		d.GetPath(l[len(l)-1].Path)
	}
	d.SetDirty()
	if b, err := xmp.Marshal(d); err == nil {
		xmp.Unmarshal(b, xmp.NewDocument())
	}
	json.Marshal(d)
}

// hostileText are values no property expects in every place.
var hostileText = []string{
	"", "x", "0", "-1", "1/0", "0/0", "1/2/3", "/", ",", ":", ";", "+", "-", ".", "1e400", "-1e400", "NaN", "Inf", "99999999999999999999", "-9223372036854775808",
	"1,2,3", "1:2:3", ":::", "1;2;3;4", "(1)(2)", "()", "(", "f1s0", "fs", "0f0s0", "1d2r3", "duration:", "time:", "time:0d0r0", "|", "|||", "{}", "[]", "a=b", "=", "{{}}",
	"2001-02-30", "2001", "T", "Z", "00:00", "25:61:61", "2001:01:01 00:00:00", "01:02:03:04", "01;02;03;04", "ab", "0x10", "1 2", " ", "\t", "a\nb", "\u00e9", "\u4e2d",
	"1,2.3N", "N", "1,2,3", "400,0N", ",N", "uuid:", "AA==", "====", "A", "1,1,", "2 2 a b c d", "-1 -1", "1 1 1/0", "maxF", "minI", "1/0f", "True", "on",
}

// hostileChars are the characters texts of one character may have.
const hostileChars = "1x/9,;=:"

type hostileShape struct{ attr, body string }

// hostileShapes are element contents of all kinds; @ stands for a text.
var hostileShapes = []hostileShape{
	{``, `@`},
	{``, ``},
	{``, `<rdf:Seq><rdf:li>@</rdf:li><rdf:li/></rdf:Seq>`},
	{``, `<rdf:Bag><rdf:li>@</rdf:li></rdf:Bag>`},
	{``, `<rdf:Alt><rdf:li>@</rdf:li></rdf:Alt>`},
	{``, `<rdf:Alt><rdf:li xml:lang="x-default">@</rdf:li><rdf:li xml:lang="x-default">b</rdf:li><rdf:li xml:lang="">c</rdf:li></rdf:Alt>`},
	{``, `<rdf:Alt><rdf:li xml:lang="de"/></rdf:Alt>`},
	{``, `<rdf:Seq/>`},
	{``, `<rdf:Alt/>`},
	{``, `<rdf:Bag>@</rdf:Bag>`},
	{``, `<rdf:Seq><ex:a>@</ex:a></rdf:Seq>`},
	{``, `<rdf:Seq><rdf:li><rdf:Bag><rdf:li>@</rdf:li></rdf:Bag></rdf:li></rdf:Seq>`},
	{``, `<rdf:Alt><rdf:li><rdf:Alt><rdf:li>@</rdf:li></rdf:Alt></rdf:li></rdf:Alt>`},
	{``, `<rdf:Seq><rdf:li rdf:parseType="Resource"/></rdf:Seq>`},
	{``, `<rdf:Seq><rdf:li rdf:parseType="Resource"><ex:a>@</ex:a></rdf:li></rdf:Seq>`},
	{``, `<rdf:Bag><rdf:li ex:a="@"/></rdf:Bag>`},
	{``, `<rdf:Bag><rdf:li><rdf:Description ex:a="@"/></rdf:li></rdf:Bag>`},
	{``, `<rdf:Bag><rdf:li/><rdf:li><rdf:Description/></rdf:li></rdf:Bag>`},
	{``, `<rdf:Bag/><rdf:Seq><rdf:li>@</rdf:li></rdf:Seq>`},
	{``, `<rdf:li>@</rdf:li>`},
	{``, `<rdf:Description/>`},
	{``, `<rdf:Description>@</rdf:Description>`},
	{``, `<rdf:Description><ex:a>@</ex:a></rdf:Description>`},
	{``, `<rdf:Description ex:a="@"><rdf:Description/></rdf:Description>`},
	{``, `<ex:a>@</ex:a>`},
	{``, `<ex:a><ex:b>@</ex:b></ex:a><ex:a/>`},
	{``, `<dc:format>@</dc:format><xmp:Label><rdf:Seq/></xmp:Label>`},
	{` rdf:parseType="Resource"`, `<ex:a>@</ex:a>`},
	{` rdf:parseType="Resource"`, ``},
	{` rdf:parseType="Resource"`, `<rdf:value>@</rdf:value>`},
	{` rdf:parseType="Resource"`, `<rdf:value><rdf:Seq><rdf:li>@</rdf:li></rdf:Seq></rdf:value><ex:q>x</ex:q>`},
	{` rdf:parseType="Literal"`, `<b>@</b>`},
	{` rdf:resource="@"`, ``},
	{` rdf:value="@"`, `t`},
	{` ex:q="@"`, `t`},
	{` xml:lang="@"`, `t`},
	{` xml:lang="x-default"`, `<rdf:Alt><rdf:li>@</rdf:li></rdf:Alt>`},
	{` ex:q="1" ex:r="@"`, ``},
	{` rdf:about="@" rdf:ID="a"`, ``},
	{` q="@"`, ``},
	{``, `<b>@</b>`},
	{``, `a<ex:a/>@`},
}

// element builds the text of an element that holds the shape.
func (s hostileShape) element(name, text string) string {
	return "<" + name + strings.Replace(s.attr, "@", text, 1) + ">" + strings.Replace(s.body, "@", text, 1) + "</" + name + ">"
}

// structOf returns the structure a property holds, if any.
func structOf(t reflect.Type) (reflect.Type, bool) {
	list := false
	for i := 0; i < 4; i++ {
		switch t.Kind() {
		case reflect.Ptr:
			t = t.Elem()
		case reflect.Slice:
			t = t.Elem()
			list = true
		case reflect.Struct:
			return t, list
		}
	}
	return nil, list
}

// candidate is a property of a model, or of a structure in one.
type candidate struct {
	ns   *xmp.Namespace
	name string
	typ  string
	wrap func(string) string
}

// candidates are the properties of all models; with distinct set only one for
// each type and place.
func candidates(distinct bool) (l []candidate) {
	seen := map[string]bool{}
	var walk func(ns *xmp.Namespace, t reflect.Type, place string, wrap func(string) string, depth int)
	walk = func(ns *xmp.Namespace, t reflect.Type, place string, wrap func(string) string, depth int) {
		for _, i := range fields(t) {
			f := t.Field(i)
			tag := f.Tag.Get("xmp")
			name := tag
			if k := strings.Index(tag, ","); k >= 0 {
				name = tag[:k]
			}
			st, list := structOf(f.Type)
			if name == "" || strings.Index(name, ":") < 0 {
				if st != nil && depth > 0 && f.Anonymous {
					walk(ns, st, place, wrap, depth)
				}
				continue
			}
			k := place + f.Type.String()
			if strings.Contains(tag, ",attr") {
				k += ",attr"
			}
			if distinct && seen[k] {
				continue
			}
			seen[k] = true
			l = append(l, candidate{ns, name, k, wrap})
			if st == nil || depth == 0 {
				continue
			}
			outer := name
			if list {
				walk(ns, st, "list ", func(s string) string {
					return "<" + outer + `><rdf:Seq><rdf:li rdf:parseType="Resource">` + s + "</rdf:li></rdf:Seq></" + outer + ">"
				}, depth-1)
			} else {
				walk(ns, st, "struct ", func(s string) string {
					return "<" + outer + ` rdf:parseType="Resource">` + s + "</" + outer + ">"
				}, depth-1)
			}
		}
	}
	for _, ns := range allNs {
		if m := ns.NewModel(); m != nil {
			walk(ns, reflect.TypeOf(m).Elem(), "", func(s string) string { return s }, 1)
		}
	}
	return
}

var (
	allCandidates  = candidates(false)
	someCandidates = candidates(true)
)

// property chooses a property.
func property(distinct bool) candidate {
	l := allCandidates
	if distinct {
		l = someCandidates
	}
	sym.Assert(len(l) > 100, "properties")
	return l[sym.Choose(len(l))]
}

var allNs = append(append([]*xmp.Namespace{}, modelNs...), exif.NsExifEX, exif.NsExifAux)

// hostilePacket puts the elements and attributes into a packet that declares
// all namespaces.
func hostilePacket(names []string, attr, body string) string {
	decl := ` xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:ex="http://ex.org/a/" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:xmp="http://ns.adobe.com/xap/1.0/"`
	seen := map[string]bool{"rdf": true, "ex": true, "dc": true, "xmp": true, "xml": true, "x": true}
	for _, n := range names {
		i := strings.Index(n, ":")
		if i < 0 || seen[n[:i]] {
			continue
		}
		seen[n[:i]] = true
		uri := "http://unknown/" + n[:i] + "/"
		if ns, err := xmp.NsRegistry.GetNamespace(n[:i]); err == nil {
			uri = ns.GetURI()
		}
		decl += " xmlns:" + n[:i] + `="` + uri + `"`
	}
	return `<rdf:RDF` + decl + `><rdf:Description rdf:about=""` + attr + `>` + body + `</rdf:Description></rdf:RDF>`
}

// names lists the qualified names used in the text of elements.
func elementNames(s string) (l []string) {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == '<' || r == '>' || r == ' ' || r == '/' || r == '=' }) {
		if i := strings.Index(f, ":"); i > 0 && !strings.Contains(f, `"`) {
			l = append(l, f)
		}
	}
	return
}

func readHostile(s string) {
	d := xmp.NewDocument()
	if err := xmp.Unmarshal([]byte(s), d); err == nil {
		use(d)
	}
}

// C10_shapes: every property with contents of the wrong shape.
func C10_shapes() {
	c := property(sym.Bound(1, 0) == 1)
	name, wrap := c.name, c.wrap
	s := hostileShapes[sym.Choose(len(hostileShapes))]
	body := wrap(s.element(name, sym.StringIn(1, hostileChars[:sym.Bound(3, len(hostileChars))])))
	readHostile(hostilePacket(elementNames(body), "", body))
	sym.Reach("shapes")
}

// C10_values: every property with text that is hostile to its type, as
// element, in lists and as attribute.
func C10_values() {
	c := property(sym.Bound(1, 0) == 1)
	name, wrap := c.name, c.wrap
	t := hostileText[sym.Choose(sym.Bound(36, len(hostileText)))]
	attr, body := "", ""
	switch sym.Choose(sym.Bound(2, 4)) {
	case 0:
		body = wrap("<" + name + ">" + t + "</" + name + ">")
	case 1:
		attr = " " + name + `="` + t + `"`
		if b := wrap(""); b != "" {
			// attribute of a structure
			attr, body = "", strings.Replace(b, ` rdf:parseType="Resource">`, attr+`>`, 1)
		}
	case 2:
		body = wrap("<" + name + "><rdf:Seq><rdf:li>" + t + "</rdf:li></rdf:Seq></" + name + ">")
	default:
		body = wrap("<" + name + `><rdf:Alt><rdf:li xml:lang="x-default">` + t + "</rdf:li></rdf:Alt></" + name + ">")
	}
	readHostile(hostilePacket(append(elementNames(body), name), attr, body))
	sym.Reach("values")
}

// hostileJSON are JSON values of all kinds; @ stands for a text.
var hostileJSON = []string{
	`"@"`, `""`, `1`, `-1.5e300`, `1e-300`, `true`, `null`, `[]`, `{}`, `[[]]`, `[{}]`, `[null]`, `["@",1,null,{}]`, `[["@"],[["x"]]]`,
	`{"a":"@"}`, `{"ex:a":"@"}`, `{"ex:a":{"ex:b":["@"]}}`, `{"rdf:value":"@","ex:q":1}`, `{"rdf:value":{},"ex:q":[]}`, `{"":"@"}`, `{"rdf:Bag":{"rdf:li":"@"}}`, `{"rdf:Seq":["@"]}`,
	`[{"value":"@","lang":"en","isDefault":true},{"value":"b","lang":"de","isDefault":false}]`,
	`[{"value":1,"lang":2,"isDefault":"x"}]`, `[{"value":null,"lang":null,"isDefault":null},7,"x",null,[]]`, `{"value":"@","lang":"en","isDefault":true}`, `[{"value":{},"lang":"","isDefault":false}]`,
	`[{"ex:a":"@"},{"ex:a":[]}]`, `[{"rdf:Description":{"ex:a":"@"}}]`, `{"rdf:Description":{"rdf:Description":"@"}}`, `{"rdf:parseType":"Resource","xml:lang":"@"}`, `{"xmlns":"@","xmlns:a":"b"}`,
}

// C10_json: every property with JSON values of the wrong type.
func C10_json() {
	c := property(sym.Bound(1, 0) == 1)
	ns, name, wrap := c.ns, c.name, c.wrap
	v := hostileJSON[sym.Choose(len(hostileJSON))]
	v = strings.Replace(v, "@", sym.StringIn(1, hostileChars), 1)
	body := `"` + name + `":` + v
	if w := wrap("#"); w != "#" {
		outer := w[1:strings.IndexAny(w, " >")]
		if strings.Contains(w, "rdf:li") {
			body = `"` + outer + `":[{` + body + `}]`
		} else {
			body = `"` + outer + `":{` + body + `}`
		}
	}
	spaces := `"ex":"http://ex.org/a/","` + ns.GetName() + `":"` + ns.GetURI() + `"`
	for _, n := range []string{"dc", "xmp", "stRef", "stEvt", "xmpDM", "tiff", "photoshop"} {
		if x, err := xmp.NsRegistry.GetNamespace(n); err == nil && n != ns.GetName() {
			spaces += `,"` + n + `":"` + x.GetURI() + `"`
		}
	}
	d := xmp.NewDocument()
	if err := json.Unmarshal([]byte(`{"about":"","namespaces":{`+spaces+`},"models":{"`+ns.GetName()+`":{`+body+`}}}`), d); err == nil {
		use(d)
	}
	sym.Reach("json")
}

// C10_jsondoc: JSON documents of the wrong shape.
func C10_jsondoc() {
	parts := []string{`null`, `{}`, `[]`, `""`, `1`, `{"dc":null}`, `{"dc":"x"}`, `{"dc":{"dc:title":"x"}}`, `{"dc":{"dc:title":[]}}`, `{"":{"":""}}`, `{"":""}`, `{"zz":{"zz:a":"1"}}`, `{"dc":{"a":"1"}}`, `{"dc":{"zz:a":"1"}}`, `{"dc":"http://purl.org/dc/elements/1.1/"}`, `{"zz":"http://zz/"}`, `{"dc":"http://zz/"}`, `{"zz":"http://purl.org/dc/elements/1.1/"}`, `{"rdf":{"rdf:value":"1"}}`, `{"xml":{"xml:lang":"1"}}`}
	s := parts[sym.Choose(len(parts))]
	m := parts[sym.Choose(len(parts))]
	about := []string{`""`, `null`, `1`, `{}`}[sym.Choose(4)]
	d := xmp.NewDocument()
	if err := json.Unmarshal([]byte(`{"about":`+about+`,"toolkit":`+about+`,"namespaces":`+s+`,"models":`+m+`}`), d); err == nil {
		use(d)
	}
	sym.Reach("jsondoc")
}

var mutated = []string{
	`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="a"><dc:title><rdf:Alt><rdf:li xml:lang="x-default">t</rdf:li></rdf:Alt></dc:title><!-- c --></rdf:Description></rdf:RDF></x:xmpmeta>`,
	`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stEvt="http://ns.adobe.com/xap/1.0/sType/ResourceEvent#"><rdf:Description xmlns:e="http://e/"><xmpMM:History><rdf:Seq><rdf:li stEvt:action="s"/></rdf:Seq></xmpMM:History><e:a e:b="c"/></rdf:Description></rdf:RDF>`,
}

// C10_truncated: packets that end anywhere.
func C10_truncated() {
	s := mutated[sym.Choose(len(mutated))]
	n := sym.Choose(len(s))
	readHostile(s[:n] + []string{"", ">", `"/>`, "</rdf:RDF>"}[sym.Choose(4)])
	sym.Reach("truncated")
}

// C10_mutated: packets in which any byte has any value.
func C10_mutated() {
	s := mutated[sym.Choose(len(mutated))]
	n := sym.Choose(len(s))
	b := []byte(s)
	b[n] = sym.Byte()
	d := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d); err == nil {
		use(d)
	}
	sym.Reach("mutated")
}

var mutatedJSON = `{"about":"","namespaces":{"dc":"http://purl.org/dc/elements/1.1/","e":"http://e/"},"models":{"dc":{"dc:format":"f","dc:title":[{"value":"t","lang":"","isDefault":true}],"e:a":{"e:b":[1]}}}}`

// C10_mutatedjson: JSON in which any byte has any value, or that ends anywhere.
func C10_mutatedjson() {
	n := sym.Choose(len(mutatedJSON))
	b := []byte(mutatedJSON)
	if sym.Choose(2) == 1 {
		b = b[:n]
	} else {
		b[n] = sym.Byte()
	}
	d := xmp.NewDocument()
	if err := json.Unmarshal(b, d); err == nil {
		use(d)
	}
	sym.Reach("mutatedjson")
}

// C10_structure: packets of the wrong structure.
func C10_structure() {
	r := ` xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"`
	x := ` xmlns:x="adobe:ns:meta/"`
	dc := ` xmlns:dc="http://purl.org/dc/elements/1.1/"`
	packets := []string{
		``, ` `, `x`, `<`, `<a/>`, `<?xml version="1.0"?>`, `<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>`, `<x:xmpmeta/>`, `<x:xmpmeta` + x + `/>`,
		`<x:xmpmeta` + x + `><rdf:RDF` + r + `/></x:xmpmeta>`, `<x:xmpmeta` + x + `><rdf:RDF` + r + `/><rdf:RDF` + r + `/></x:xmpmeta>`, `<x:xmpmeta` + x + `><a/></x:xmpmeta>`,
		`<rdf:RDF/>`, `<rdf:RDF` + r + `>text</rdf:RDF>`, `<RDF/>`, `<rdf:RDF` + r + `><a/></rdf:RDF>`, `<rdf:RDF` + r + `><rdf:RDF/></rdf:RDF>`,
		`<rdf:RDF` + r + `><rdf:Description/><rdf:Description/></rdf:RDF>`, `<rdf:RDF` + r + `><rdf:Description a="b"/></rdf:RDF>`, `<rdf:RDF` + r + `><rdf:Description a:b="c"/></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description dc:="c" dc:title="x"/></rdf:RDF>`, `<rdf:RDF` + r + dc + `><rdf:Description :dc="c"/></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description><dc:title/><dc:title>a</dc:title><dc:title><rdf:Alt/></dc:title></rdf:Description></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description><title/><rdf:li/><rdf:Description/><rdf:value>x</rdf:value></rdf:Description></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description xmlns="http://a/"><b>c</b><d e="f"/></rdf:Description></rdf:RDF>`, `<rdf:RDF` + r + ` xmlns:dc=""><rdf:Description dc:title="x"/></rdf:RDF>`,
		`<rdf:RDF` + r + dc + ` xmlns:dc="http://b/"><rdf:Description dc:title="x"/></rdf:RDF>`, `<rdf:RDF` + r + ` xmlns:xmlns="http://b/"><rdf:Description xmlns:a="b" a:b="x"/></rdf:RDF>`,
		`<rdf:RDF` + r + ` xmlns:rdf2="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf2:Description rdf2:about="a"><rdf2:Bag/></rdf2:Description></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description dc:title="&#0;" /></rdf:RDF>`, `<rdf:RDF` + r + dc + `><rdf:Description dc:title="&x;" /></rdf:RDF>`, `<rdf:RDF` + r + dc + `><rdf:Description><dc:title>&lt;<![CDATA[<a>]]>&amp;</dc:title></rdf:Description></rdf:RDF>`,
		`<rdf:RDF` + r + dc + `><rdf:Description dc:a="x" dc:b="y" dc:a="z"><dc:a>1</dc:a></rdf:Description></rdf:RDF>`, `<a:b xmlns:a="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>`,
	}
	p := packets[sym.Choose(len(packets))]
	switch sym.Choose(4) {
	case 1:
		p = "\xef\xbb\xbf" + p
	case 2:
		p = `<?xpacket begin="` + "\ufeff" + `" id="W5M0MpCehiHzreSzNTczkc9d"?>` + p + `<?xpacket end="w"?>`
	case 3:
		p += "\xff<"
	}
	readHostile(p)
	if l, err := xmp.ScanPackets(strings.NewReader(p)); err == nil {
		for _, b := range l {
			readHostile(string(b))
		}
	}
	sym.Reach("structure")
}

// C10_deep: documents that are nested deeply are refused, they do not exhaust
// the stack.
func C10_deep() {
	n := []int{5, 100, 11000}[sym.Choose(3)]
	deepShapes := 4
	if n >= 11000 {
		deepShapes = 1
	}
	r := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:e="http://e/"><rdf:Description>`
	up := []string{"<e:a>", "<xmpMM:Pantry>", "<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description>", "<e:a><rdf:Seq><rdf:li>"}[sym.Choose(deepShapes)]
	down := ""
	for _, s := range strings.Split(up, "<")[1:] {
		down = "</" + s + down
	}
	d := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(r+strings.Repeat(up, n)+"x"+strings.Repeat(down, n)+"</rdf:Description></rdf:RDF>"), d)
	if n >= 11000 {
		sym.Assert(err != nil, "deep documents are refused")
	} else if err == nil {
		use(d)
	}
	sym.Reach("deep")
}

// textTypes are the types of properties that read text.
func textTypes() (l []reflect.Type) {
	seen := map[reflect.Type]bool{}
	want := reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	var walk func(t reflect.Type, depth int)
	walk = func(t reflect.Type, depth int) {
		if seen[t] || depth > 8 {
			return
		}
		seen[t] = true
		if t.PkgPath() != "time" && t.Name() != "" && reflect.PtrTo(t).Implements(want) {
			l = append(l, t)
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(t.Elem(), depth+1)
		case reflect.Struct:
			if strings.HasPrefix(t.PkgPath(), "github.com/trimmer-io/go-xmp/") && t.Name() != "Node" && t.Name() != "Document" {
				for i := 0; i < t.NumField(); i++ {
					walk(t.Field(i).Type, depth+1)
				}
			}
		}
	}
	for _, ns := range allNs {
		if m := ns.NewModel(); m != nil {
			walk(reflect.TypeOf(m).Elem(), 0)
		}
	}
	return
}

// C10_text: the text decoders of all property types.
func C10_text() {
	l := textTypes()
	sym.Assert(len(l) > 50, "types that read text")
	t := l[sym.Choose(len(l))]
	p := reflect.New(t)
	var s string
	switch sym.Choose(3) {
	case 0:
		s = hostileText[sym.Choose(len(hostileText))]
	case 1:
		s = hostileText[sym.Choose(sym.Bound(12, len(hostileText)))] + sym.StringIn(1, ",/:;.-+ 09Tx")
	default:
		s = sym.StringIn(sym.Choose(sym.Bound(2, 3))+1, "0,/:;.-T ")
	}
	if err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s)); err == nil {
		if m, ok := p.Interface().(encoding.TextMarshaler); ok {
			m.MarshalText()
		}
		if m, ok := p.Elem().Interface().(encoding.TextMarshaler); ok {
			m.MarshalText()
		}
		if m, ok := p.Elem().Interface().(interface{ String() string }); ok {
			_ = m.String()
		}
	}
	sym.Reach("text")
}
