package h

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// C24_fields: any field of an application's model, in XML and JSON, listed,
// set, merged and recycled.
func C24_fields() {
	xmp.Register(nsZoa)
	switch sym.Choose(8) {
	case 0, 1:
		g := newGen()
		d, _ := genDoc(g, nsZoa)
		if g.skip {
			return
		}
		if sym.Choose(2) == 0 {
			roundTrip(d, g.name)
		} else {
			jsonTrip(d, g.name)
		}
	case 2:
		fields05(nsZoa)
	case 3:
		fields06(nsZoa)
	case 4:
		create06(nsZoa)
	case 5:
		fields07(nsZoa)
	case 6:
		fields15(nsZoa)
	case 7:
		fields18(nsZoa)
	}
	sym.Reach("fields")
}

// a number field of the model
type zooNumber struct {
	name string
	bits uint
	neg  bool
	set  func(x *zooAll, n int64)
	get  func(x *zooAll) int64
}

var zooNumbers = []zooNumber{
	{"I8", 8, true, func(x *zooAll, n int64) { x.I8 = int8(n) }, func(x *zooAll) int64 { return int64(x.I8) }},
	{"U8", 8, false, func(x *zooAll, n int64) { x.U8 = uint8(n) }, func(x *zooAll) int64 { return int64(x.U8) }},
	{"AI", 8, true, func(x *zooAll, n int64) { x.AI = int8(n) }, func(x *zooAll) int64 { return int64(x.AI) }},
	{"I16", 16, true, func(x *zooAll, n int64) { x.I16 = int16(n) }, func(x *zooAll) int64 { return int64(x.I16) }},
	{"U16", 16, false, func(x *zooAll, n int64) { x.U16 = uint16(n) }, func(x *zooAll) int64 { return int64(x.U16) }},
	{"AU", 16, false, func(x *zooAll, n int64) { x.AU = uint16(n) }, func(x *zooAll) int64 { return int64(x.AU) }},
	{"I32", 32, true, func(x *zooAll, n int64) { x.I32 = int32(n) }, func(x *zooAll) int64 { return int64(x.I32) }},
	{"U32", 32, false, func(x *zooAll, n int64) { x.U32 = uint32(n) }, func(x *zooAll) int64 { return int64(x.U32) }},
	{"I64", 64, true, func(x *zooAll, n int64) { x.I64 = n }, func(x *zooAll) int64 { return x.I64 }},
	{"U64", 64, false, func(x *zooAll, n int64) { x.U64 = uint64(n) }, func(x *zooAll) int64 { return int64(x.U64) }},
	{"U", 64, false, func(x *zooAll, n int64) { x.U = uint(n) }, func(x *zooAll) int64 { return int64(x.U) }},
	{"E", 64, true, func(x *zooAll, n int64) { x.E = int(n) }, func(x *zooAll) int64 { return int64(x.E) }},
	{"PI", 64, true, func(x *zooAll, n int64) { k := int(n); x.PI = &k }, func(x *zooAll) int64 {
		if x.PI == nil {
			return 0
		}
		return int64(*x.PI)
	}},
	{"rank", 64, true, func(x *zooAll, n int64) { x.Rank = int(n) }, func(x *zooAll) int64 { return int64(x.Rank) }},
}

func zooDoc(x *zooAll) *xmp.Document {
	d := xmp.NewDocument()
	_, err := d.AddModel(x)
	sym.Assert(err == nil, "add model")
	return d
}

func zooOf(d *xmp.Document) *zooAll {
	if m := d.FindModel(nsZoa); m != nil {
		return m.(*zooAll)
	}
	return &zooAll{}
}

// C24_numbers: numbers of every width keep their value.
func C24_numbers() {
	xmp.Register(nsZoa)
	f := zooNumbers[sym.Choose(len(zooNumbers))]
	x := &zooAll{}
	f.set(x, sym.Int64())
	n := f.get(x)
	d := zooDoc(x)
	e := xmp.NewDocument()
	switch sym.Choose(3) {
	case 0:
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, "write")
		sym.Assert(xmp.Unmarshal(b, e) == nil, "read")
	case 1:
		b, err := json.Marshal(d)
		sym.Assert(err == nil, "write JSON")
		sym.Assert(json.Unmarshal(b, e) == nil, "read JSON")
	case 2:
		p := xmp.Path("zoa:" + f.name)
		v, err := d.GetPath(p)
		sym.Assert(err == nil, "path")
		if n == 0 {
			break
		}
		_, err = e.MakeModel(nsZoa)
		sym.Assert(err == nil, "model")
		sym.Assert(e.SetPath(xmp.PathValue{Path: p, Value: v}) == nil, "set path")
	}
	sym.Assert(f.get(zooOf(e)) == n, f.name+": number kept")
	sym.Reach("numbers")
}

// C24_range: a number is read exactly when it fits its field, and otherwise
// the field keeps its value.
func C24_range() {
	xmp.Register(nsZoa)
	f := zooNumbers[sym.Choose(sym.Bound(4, 6))]
	s := sym.StringIn(1+sym.Choose(sym.Bound(4, 6)), "0123456789-+")
	// the number it spells
	v, ok, neg := int64(0), true, false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			v = v*10 + int64(s[i]-'0')
		case i == 0 && f.neg && len(s) > 1:
			neg = s[i] == '-'
		default:
			ok = false
		}
	}
	if neg {
		v = -v
	}
	lo, hi := int64(0), int64(1)<<f.bits-1
	if f.neg {
		lo, hi = -(1 << (f.bits - 1)), 1<<(f.bits-1)-1
	}
	ok = ok && v >= lo && v <= hi
	x := &zooAll{}
	f.set(x, 7)
	d := zooDoc(x)
	switch sym.Choose(3) {
	case 0:
		err := d.SetPath(xmp.PathValue{Path: xmp.Path("zoa:" + f.name), Value: s})
		sym.Assert((err == nil) == ok, f.name+": exactly the numbers in range can be set")
		sym.Assert(ok && f.get(x) == v || !ok && f.get(x) == 7, f.name+": the number set")
	case 1:
		e := xmp.NewDocument()
		in := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:zoa="http://ns.example.com/zoa/1.0/"><rdf:Description><zoa:` + f.name + `>` + s + `</zoa:` + f.name + `></rdf:Description></rdf:RDF>`
		err := xmp.Unmarshal([]byte(in), e)
		sym.Assert((err == nil) == ok, f.name+": exactly the numbers in range can be read")
		sym.Assert(!ok || f.get(zooOf(e)) == v, f.name+": the number read")
	case 2:
		e := xmp.NewDocument()
		in := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:zoa="http://ns.example.com/zoa/1.0/"><rdf:Description zoa:` + f.name + `="` + s + `"/></rdf:RDF>`
		err := xmp.Unmarshal([]byte(in), e)
		sym.Assert((err == nil) == ok, f.name+": exactly the numbers in range can be read as attribute")
		sym.Assert(!ok || f.get(zooOf(e)) == v, f.name+": the number read as attribute")
	}
	sym.Reach("range")
}

// written24 finds the elements and attributes of the namespace in a packet.
func written24(b []byte) (elems, attrs map[string]string) {
	const uri = "http://ns.example.com/zoa/1.0/"
	elems, attrs = map[string]string{}, map[string]string{}
	dec := xml.NewDecoder(bytes.NewReader(b))
	open := ""
	for {
		t, err := dec.Token()
		if err != nil {
			return
		}
		switch t := t.(type) {
		case xml.StartElement:
			open = ""
			for _, a := range t.Attr {
				if a.Name.Space == uri && t.Name.Local == "Description" {
					attrs[a.Name.Local] = a.Value
				}
			}
			if t.Name.Space == uri {
				open = t.Name.Local
				elems[open] = ""
			}
		case xml.CharData:
			if open != "" {
				elems[open] += string(t)
			}
		case xml.EndElement:
			open = ""
		}
	}
}

// C24_tags: fields are written as their struct tags say.
func C24_tags() {
	xmp.Register(nsZoa)
	s := sym.StringIn(2, lower)
	n := int(sym.Int8())
	x := &zooAll{S: s, AS: s, O: s, N: s, VO: s, VN: s, E: n, AI: int8(n), I8: int8(n), ZooBase: ZooBase{Base: s, Rank: n}}
	if sym.Choose(2) == 1 {
		x.EA = s
	}
	d := zooDoc(x)
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, "write")
	elems, attrs := written24(b)
	num := itoa(n)
	is := func(m map[string]string, k, want string, there bool) {
		v, ok := m[k]
		if ok != there || there && v != want {
			sym.Note(k, v, ok, string(b))
		}
		sym.Assert(ok == there && (!there || v == want), k+": written as its tag says")
	}
	is(elems, "S", s, true)
	is(elems, "VO", s, true)
	is(elems, "VN", s, true)
	is(elems, "base", s, true)
	is(elems, "I8", num, n != 0)
	is(elems, "E", num, true)
	is(attrs, "AS", s, true)
	is(attrs, "AI", num, n != 0)
	is(attrs, "rank", num, n != 0)
	is(attrs, "EA", x.EA, true)
	for _, k := range []string{"O", "N", "B", "PI", "PS", "PP", "C", "LP", "Y"} {
		is(elems, k, "", false)
		is(attrs, k, "", false)
	}
	for _, k := range []string{"AB", "AU", "PA", "CA"} {
		is(attrs, k, "", false)
	}
	sym.Assert(strings.Count(string(b), ">"+s+"<") == 4, "texts are written once")
	j, err := json.Marshal(d)
	sym.Assert(err == nil, "write JSON")
	var y struct {
		Models map[string]map[string]any `json:"models"`
	}
	sym.Assert(json.Unmarshal(j, &y) == nil, "read JSON")
	_, o := y.Models["zoa"]["zoa:O"]
	_, k := y.Models["zoa"]["zoa:S"]
	sym.Assert(!o && k, "JSON")
	// omitted fields keep their value, hidden fields have none
	sym.Assert(x.O == s && x.N == s, "omitted fields")
	v, _ := d.GetPath("zoa:N")
	sym.Assert(v == "", "hidden fields have no path")
	sym.Reach("tags")
}

// C24_versions: a decoder for a version fills the fields of this version and
// keeps the other properties as they are.
func C24_versions() {
	xmp.Register(nsZoa)
	v := xmp.Version{Major: int(sym.Int8()), Minor: int(sym.Int8()), Patch: int(sym.Int8())}
	sym.Assume(v.Major >= 0 && v.Minor >= 0 && v.Patch >= 0)
	s := sym.StringIn(1, lower)
	in := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:zoa="http://ns.example.com/zoa/1.0/"><rdf:Description>` +
		`<zoa:VO>` + s + `</zoa:VO><zoa:VN>` + s + `</zoa:VN><zoa:VB>` + s + `</zoa:VB><zoa:VX>` + s + `</zoa:VX><zoa:S>` + s + `</zoa:S></rdf:Description></rdf:RDF>`
	d := xmp.NewDocument()
	dec := xmp.NewDecoder(strings.NewReader(in))
	dec.SetVersion(v)
	sym.Assert(dec.Decode(d) == nil, "read")
	x := zooOf(d)
	at := func(a, b int) int { return cmpVersion(v, xmp.Version{Major: a, Minor: b}) }
	any := v == xmp.Version{}
	sym.Assert((x.VO == s) == (any || at(1, 0) <= 0), "up to version 1.0")
	sym.Assert((x.VN == s) == (any || at(1, 2) >= 0), "from version 1.2")
	sym.Assert((x.VB == s) == (any || at(1, 0) >= 0 && at(1, 2) <= 0), "from version 1.0 to 1.2")
	sym.Assert((x.VX == s) == (any || at(1, 1) == 0), "version 1.1")
	sym.Assert(x.S == s, "any version")
	for _, p := range []xmp.Path{"zoa:VO", "zoa:VN", "zoa:VB", "zoa:VX", "zoa:S"} {
		w, err := d.GetPath(p)
		sym.Assert(err == nil && w == s, string(p)+": has a value in any version")
	}
	d.SetDirty()
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil && strings.Count(string(b), ">"+s+"<") == 5, "every property is written again")
	sym.Reach("versions")
}
