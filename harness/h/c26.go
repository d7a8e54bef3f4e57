package h

import (
	"encoding/xml"
	"reflect"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/xmp"
)

// ixmlDoc is a document with one iXML model.
func ixmlDoc(x *ixml.IXML) *xmp.Document {
	d := xmp.NewDocument()
	_, err := d.AddModel(x)
	sym.Assert(err == nil, "add model")
	return d
}

// C26_fields: any field of the model, written as native iXML and read back,
// also after it was stored as XMP.
func C26_fields() {
	g := newGen()
	x := &ixml.IXML{Version: "2.0", XMLName: xml.Name{Local: "BWFXML"}}
	g.fill(reflect.ValueOf(x).Elem(), 0)
	if g.skip {
		return
	}
	if sym.Choose(2) == 1 {
		b, err := xmp.Marshal(ixmlDoc(x))
		sym.Assert(err == nil, g.name+": write XMP")
		d := xmp.NewDocument()
		sym.Assert(xmp.Unmarshal(b, d) == nil, g.name+": read XMP")
		m := ixml.FindModel(d)
		sym.Assert(m != nil, g.name+": model")
		before := listing(ixmlDoc(x))
		x = m
		same(before, listing(d), g.name+": kept in XMP")
	}
	before := listing(ixmlDoc(x))
	b, err := xml.Marshal(x)
	if err != nil {
		sym.Note(g.name, err)
	}
	sym.Assert(err == nil, g.name+": write iXML")
	y := &ixml.IXML{Note: "old"}
	err = y.ParseXML(b)
	if err != nil {
		sym.Note(g.name, err, string(b))
	}
	sym.Assert(err == nil, g.name+": read iXML")
	after := listing(ixmlDoc(y))
	if len(after) != len(before) {
		sym.Note(string(b))
	}
	same(before, after, g.name+": kept in iXML")
	c, err := xml.Marshal(y)
	sym.Assert(err == nil && string(b) == string(c), g.name+": same bytes again")
	sym.Reach("fields")
}

const ixmlHead = `<?xml version="1.0" encoding="UTF-8"?>` + "\n<BWFXML>\n<IXML_VERSION>1.3</IXML_VERSION>\n"

// C26_upgrade: files of older versions say the same in the current one.
func C26_upgrade() {
	word := func() (string, bool) {
		switch sym.Choose(4) {
		case 0:
			return "", false
		case 1:
			return "TRUE", true
		case 2:
			return "FALSE", false
		default:
			b := []byte("true")
			b[sym.Choose(4)] -= 32
			return string(b), true
		}
	}
	elem := func(name, s string) string {
		if s == "" {
			return ""
		}
		return "<" + name + ">" + s + "</" + name + ">\n"
	}
	a, ng := word()
	b, fs := "", false
	if sym.Choose(2) == 1 {
		b, fs = "TRUE", true
	}
	c, wt := "", false
	if sym.Choose(2) == 1 {
		c, wt = "TRUE", true
	}
	types := []string{"", "DEFAULT", "NO_GOOD", "PICKUP,NO_GOOD"}[sym.Choose(4)]
	s := sym.StringIn(2, lower)
	in := ixmlHead + elem("NOTE", s) + elem("NO_GOOD", a) + elem("FALSE_START", b) + elem("TAKE_TYPE", types) + elem("WILD_TRACK", c)
	// the number of samples recorded before
	n := int(sym.Int32())
	old := sym.Choose(2) == 1
	if old {
		in += elem("PRE_RECORD_SAMPLECOUNT", itoa(n))
	}
	sp := sym.Choose(3)
	m := int(sym.Int8())
	sym.Assume(m > 0 && m < 10)
	if sp > 0 {
		in += "<SYNC_POINT_LIST><SYNC_POINT_COUNT>1</SYNC_POINT_COUNT><SYNC_POINT><SYNC_POINT_TYPE>RELATIVE</SYNC_POINT_TYPE><SYNC_POINT_FUNCTION>" +
			[]string{"", "PRE_RECORD_SAMPLECOUNT", "SLATE_GENERIC"}[sp] + "</SYNC_POINT_FUNCTION><SYNC_POINT_LOW>" + itoa(m) + "</SYNC_POINT_LOW></SYNC_POINT></SYNC_POINT_LIST>"
	}
	in += "<USER>\n user " + s + " \n<FULL_TITLE>" + s + "</FULL_TITLE></USER></BWFXML>"
	x := &ixml.IXML{}
	sym.Assert(x.ParseXML([]byte(in)) == nil, "read")
	sym.Assert(x.Note == s && x.UserData != nil && x.UserData.FullTitle == s, "other properties")
	sym.Assert(x.UserData.Comment == "user "+s, "comment")
	was := func(t string) bool { return strings.Contains(types, t) }
	sym.Assert(x.TakeType.Contains(ixml.TakeTypeNoGood) == (ng || was("NO_GOOD")), "no good take")
	sym.Assert(x.TakeType.Contains(ixml.TakeTypeFalseStart) == fs, "false start")
	sym.Assert(x.TakeType.Contains(ixml.TakeTypeWildTrack) == wt, "wild track")
	sym.Assert(x.TakeType.Contains(ixml.TakeTypePickup) == was("PICKUP"), "pickup")
	k := 0
	for _, t := range []bool{ng || was("NO_GOOD"), fs, wt, was("PICKUP"), was("DEFAULT")} {
		if t {
			k++
		}
	}
	sym.Assert(len(x.TakeType) == k, "each type once")
	sym.Assert(!bool(x.IsNotGood) && !bool(x.IsFalseStart) && !bool(x.IsWildTrack) && x.PreRecordSamplecount <= 0, "old properties")
	i, ok := x.SyncPoints.ContainsFunc(ixml.SyncPointPreRecordSamplecount)
	sym.Assert(ok == (sp == 1 || old && n > 0), "sync point for the recording before")
	if ok {
		want := m
		if old && n > 0 {
			want = n
		}
		sym.Assert(x.SyncPoints[i].Low == want, "samples recorded before")
	}
	if sp == 2 {
		i, ok := x.SyncPoints.ContainsFunc(ixml.SyncPointSlateGeneric)
		sym.Assert(ok && x.SyncPoints[i].Low == m, "other sync points")
	}
	sym.Reach("upgrade")
}

// ixmlSample has elements of each kind.
const ixmlSample = `<BWFXML><IXML_VERSION>2.0</IXML_VERSION><TAKE>3</TAKE><CIRCLED>TRUE</CIRCLED><ZZ a="1"><Y>z</Y></ZZ>` +
	`<SYNC_POINT_LIST><SYNC_POINT_COUNT>1</SYNC_POINT_COUNT><SYNC_POINT><SYNC_POINT_FUNCTION>F</SYNC_POINT_FUNCTION><SYNC_POINT_LOW>1</SYNC_POINT_LOW></SYNC_POINT></SYNC_POINT_LIST>` +
	`<SPEED><MASTER_SPEED>25/1</MASTER_SPEED><TIMECODE_FLAG>DF</TIMECODE_FLAG></SPEED>` +
	`<TRACK_LIST><TRACK_COUNT>2</TRACK_COUNT><TRACK><NAME>A</NAME></TRACK><TRACK><NAME>B</NAME><DEFAULT_MIX><LEVEL>OFF</LEVEL></DEFAULT_MIX></TRACK></TRACK_LIST>` +
	`<USER>u<FULL_TITLE>t</FULL_TITLE></USER><LOCATION><LOCATION_TYPE>INT</LOCATION_TYPE></LOCATION></BWFXML>`

// C26_hostile: native iXML in which a byte has any value, or that ends anywhere,
// is read or rejected; what was read can be listed and written.
func C26_hostile() {
	step := sym.Bound(4, 1)
	i := sym.Choose(len(ixmlSample)/step) * step
	b := []byte(ixmlSample)
	switch sym.Choose(2) {
	case 0:
		b[i] = sym.Byte()
	case 1:
		b = b[:i]
	}
	x := &ixml.IXML{Note: "old"}
	if err := x.ParseXML(b); err != nil {
		sym.Assert(x.Note == "old", "unchanged on error")
		return
	}
	d := ixmlDoc(x)
	_, err := d.ListPaths()
	sym.Assert(err == nil, "listing")
	_, err = xmp.Marshal(d)
	sym.Assert(err == nil, "write XMP")
	_, err = xml.Marshal(x)
	sym.Assert(err == nil, "write iXML")
	sym.Reach("hostile")
}

// C26_structure: elements in the wrong place.
func C26_structure() {
	outer := []string{"BWFXML", "SYNC_POINT_LIST", "TRACK_LIST", "SPEED", "USER", "LOCATION", "TRACK", "TAKE", "ZZ", "DEFAULT_MIX", "BWFXML"}
	n := 1 + sym.Choose(3)
	s := sym.StringIn(1, "a1-/")
	for i := 0; i < n; i++ {
		e := outer[sym.Choose(len(outer))]
		a := ""
		if i == 0 && sym.Choose(2) == 1 {
			a = ` a="` + s + `"`
		}
		s = "<" + e + a + ">" + s + "</" + e + ">"
	}
	x := &ixml.IXML{}
	if x.ParseXML([]byte("<BWFXML>"+s+"</BWFXML>")) != nil {
		return
	}
	d := ixmlDoc(x)
	_, err := d.ListPaths()
	sym.Assert(err == nil, "listing")
	_, err = xmp.Marshal(d)
	sym.Assert(err == nil, "write XMP")
	_, err = xml.Marshal(x)
	sym.Assert(err == nil, "write iXML")
	sym.Reach("structure")
}

// C26_unknown: elements the model does not know are kept.
func C26_unknown() {
	s, t := xmlText(1), sym.StringIn(1, lower)
	var q strings.Builder
	xml.EscapeText(&q, []byte(s))
	in := "<BWFXML><IXML_VERSION>2.0</IXML_VERSION><NOTE>n</NOTE>" + []string{
		"<ZZ>" + q.String() + "</ZZ>",
		"<ZZ><YY>" + q.String() + "</YY></ZZ>",
		"<ZZ><YY>a</YY><XX>" + q.String() + "</XX></ZZ>",
		"<ZZ><YY><XX>" + q.String() + "</XX></YY></ZZ><TAKE>4</TAKE>",
		`<ZZ a="` + t + `"><XX>` + q.String() + `</XX></ZZ>`,
	}[sym.Choose(5)] + "</BWFXML>"
	x := &ixml.IXML{}
	sym.Assert(x.ParseXML([]byte(in)) == nil, "read")
	a := listing(ixmlDoc(x))
	n := 0
	for _, v := range a {
		if v.Value == s {
			n++
		}
	}
	if n < 1 {
		sym.Note(a)
	}
	sym.Assert(n >= 1, "unknown element is listed")
	b, err := xml.Marshal(x)
	sym.Assert(err == nil, "write iXML")
	sym.Note(string(b))
	y := &ixml.IXML{}
	sym.Assert(y.ParseXML(b) == nil, "read again")
	same(a, listing(ixmlDoc(y)), "kept in iXML")
	b, err = xmp.Marshal(ixmlDoc(x))
	sym.Assert(err == nil, "write XMP")
	sym.Note(string(b))
	d := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, d) == nil, "read XMP")
	same(a, listing(d), "kept in XMP")
	sym.Reach("unknown")
}
