package h

import (
	"encoding/json"
	"reflect"
	"sort"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/xmp"
)

type tagger interface {
	xmp.Model
	CanTag(tag string) bool
	GetTag(tag string) (string, error)
	SetTag(tag, value string) error
}

// a property of a model that can be reached by a tag name
type nativeTag struct {
	name string
	typ  reflect.Type
	idx  int
}

// nativeTags lists the tags of a model as declared by its struct tags.
func nativeTags(m xmp.Model) []nativeTag {
	t := reflect.TypeOf(m).Elem()
	ns := m.Namespaces()[0].GetName()
	var l []nativeTag
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		s := f.Tag.Get(ns)
		if f.PkgPath != "" || s == "-" || strings.Contains(s, "any") {
			continue
		}
		if k := strings.Index(s, ","); k >= 0 {
			s = s[:k]
		}
		if s == "" {
			if ns == "exif" {
				continue // tags are hexadecimal numbers
			}
			s = f.Name
		}
		l = append(l, nativeTag{s, f.Type, i})
	}
	return l
}

// models whose tags are set and read
var tagModels = []func() tagger{
	func() tagger { return &id3.ID3{} },
	func() tagger { return &itunes.ITunesMetadata{} },
	func() tagger { return &riff.RiffInfo{} },
	func() tagger { return &qt.QtUserdata{} },
	func() tagger { return &qt.QtMetadata{} },
	func() tagger { return &qt.QtPlayer{} },
	func() tagger { return &qt.QtProApps{} },
	func() tagger { return tagModel("mp4") },
	func() tagger { return &exif.ExifInfo{} },
	func() tagger { return &exif.ExifEXInfo{} },
	func() tagger { return &exif.ExifAuxInfo{} },
	func() tagger { return tagModel("dc") },
	func() tagger { return tagModel("iXML") },
	func() tagger { return tagModel("photomechanic") },
	func() tagger { return tagModel("photoshop") },
	func() tagger { return tagModel("xmpTPg") },
	func() tagger { return tagModel("xmpBJ") },
	func() tagger { return tagModel("xmpRights") },
	func() tagger { return tagModel("xmpDM") },
	func() tagger { return tagModel("xmpMM") },
	func() tagger { return tagModel("xmp") },
	func() tagger { return tagModel("crs") },
	func() tagger { return tagModel("tiff") },
	func() tagger { return tagModel("cc") },
	func() tagger { return tagModel("digiKam") },
	func() tagger { return tagModel("pdf") },
	func() tagger { return tagModel("drone-dji") },
}

func tagModel(name string) tagger {
	ns, err := xmp.NsRegistry.GetNamespace(name)
	if err != nil {
		panic(err)
	}
	return ns.NewModel().(tagger)
}

// tagValue chooses a text for a value of type t. Exact reports that the text
// is what has to be read back, odd that the value may be refused.
func tagValue(t reflect.Type) (s string, exact, odd bool) {
	p := reflect.PtrTo(t)
	_, tm := reflect.Zero(p).Interface().(interface{ UnmarshalText([]byte) error })
	if tm || t.Kind() == reflect.Ptr {
		l := []string{"5", "1/2", "True", "2020-01-02T03:04:05Z", "2020:01:02 03:04:05", "12:34:56", "a", "25 (a)"}
		return l[sym.Choose(len(l))], false, true
	}
	switch t.Kind() {
	case reflect.String:
		return sym.StringIn(2, printable[1:]), true, false
	case reflect.Bool:
		return []string{"true", "false"}[sym.Choose(2)], true, false
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Int8:
		return sym.StringIn(1, "123456789") + sym.StringIn(1, "0123456789"), true, false
	case reflect.Float32, reflect.Float64:
		return []string{"0.5", "3", "1e+09"}[sym.Choose(3)], true, false
	}
	return "5", false, true
}

// C23_fields: a tag that is set is read back and listed, others are not
// touched.
func C23_fields() {
	mk := tagModels[sym.Choose(len(tagModels))]
	m := mk()
	l := nativeTags(m)
	k := sym.Choose(len(l))
	f := l[k]
	v, exact, odd := tagValue(f.typ)

	// a neighbour that holds text
	other := ""
	for i := range l {
		if n := l[(k+1+i)%len(l)]; n.typ.Kind() == reflect.String && n.name != f.name {
			if _, ok := reflect.Zero(reflect.PtrTo(n.typ)).Interface().(interface{ UnmarshalText([]byte) error }); !ok {
				other = n.name
				break
			}
		}
	}
	if other != "" {
		sym.Assert(m.SetTag(other, "z") == nil, "set neighbour")
	}
	if !odd {
		sym.Assert(m.CanTag(f.name), f.name+" is a tag")
	}
	before, lerr := xmp.ListNativeFields(m)
	old, err := m.GetTag(f.name)
	if !odd {
		sym.Assert(err == nil, f.name+": read empty tag")
	}
	if err := m.SetTag(f.name, v); err != nil {
		sym.Assert(odd, f.name+" set")
		sym.Reach("refused")
		return
	}
	got, err := m.GetTag(f.name)
	if odd && (err != nil || got == "") {
		// types without text form, zero values
		return
	}
	sym.Assert(err == nil, f.name+" read")
	if exact {
		if v == "false" {
			v = ""
		}
		sym.Assert(got == v, f.name+" reads the value set")
		sym.Reach("exact")
	}
	if f.typ.Kind() != reflect.Slice && f.typ.Kind() != reflect.Ptr {
		// setting what was read changes nothing
		n := mk()
		sym.Assert(n.SetTag(f.name, got) == nil || got == "", f.name+" takes the text read")
		again, err := n.GetTag(f.name)
		sym.Assert(err == nil && again == got, f.name+" reads the text set")
	}
	if other != "" {
		s, err := m.GetTag(other)
		sym.Assert(err == nil && s == "z", f.name+" leaves the others alone")
	}
	if lerr != nil {
		return
	}
	after, err := xmp.ListNativeFields(m)
	sym.Assert(err == nil, f.name+" listed")
	want := 0
	for _, t := range after {
		if t.Key == f.name && t.Lang == "" {
			sym.Assert(t.Value == got, f.name+" listed with its value")
			want++
		} else if t.Lang != "" {
			want = 1
		}
	}
	if got != "" {
		sym.Assert(want == 1, f.name+" listed once")
		if f.typ.Kind() != reflect.Slice && old == "" {
			sym.Assert(len(after) == len(before)+1, f.name+" listed in addition")
		}
	}
	sym.Reach("listed")
}

// C23_locale: texts in several languages.
func C23_locale() {
	mk := tagModels[sym.Choose(len(tagModels))]
	m := mk()
	var l []nativeTag
	for _, t := range nativeTags(m) {
		if t.typ.ConvertibleTo(reflect.TypeOf(xmp.AltString{})) || t.typ.Kind() == reflect.String {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return
	}
	k := sym.Choose(len(l))
	f := l[k]
	if f.typ.Kind() == reflect.String {
		if k > 0 && l[k-1].typ == f.typ {
			return
		}
		_, err := xmp.GetLocaleField(m, "de", f.name)
		sym.Assert(err != nil, f.name+" has no languages")
		sym.Assert(xmp.SetLocaleField(m, "de", f.name, "a") != nil, f.name+" takes no languages")
		sym.Reach("plain")
		return
	}
	var ref xmp.AltString
	langs := []string{"", "de", "fr"}
	for i := 0; i < sym.Bound(2, 3); i++ {
		g, v := langs[sym.Choose(3)], sym.StringIn(1, lower)
		sym.Assert(xmp.SetLocaleField(m, g, f.name, v) == nil, f.name+" set")
		ref.Set(g, v)
		s, err := xmp.GetLocaleField(m, g, f.name)
		sym.Assert(err == nil && s == v, f.name+" reads the text of the language")
	}
	for _, g := range langs {
		s, err := xmp.GetLocaleField(m, g, f.name)
		sym.Assert(err == nil && s == ref.Get(g), f.name+" keeps the other languages")
	}
	if tags, err := xmp.ListNativeFields(m); err == nil {
		n := 0
		for _, t := range tags {
			if t.Key == f.name {
				n++
			}
		}
		sym.Assert(n >= 1, f.name+" listed")
	}
	sym.Reach("locale")
}

// C23_taglist: the list of unknown tags survives XML and JSON.
func C23_taglist() {
	x := &id3.ID3{}
	n := 1 + sym.Choose(2)
	langs := []string{"", "de", "en-US", "zh-Hant-TW"}
	for i := 0; i < n; i++ {
		k := []string{"ZZZZ", "ZYX_1"}[i]
		x.Extension = append(x.Extension, xmp.Tag{Key: k, Value: []string{sym.StringIn(sym.Bound(1, 2), printable[1:]), "v w"}[i], Lang: langs[sym.Choose(len(langs))]})
	}
	want := append(xmp.TagList{}, x.Extension...)
	d := xmp.NewDocument()
	_, err := d.AddModel(x)
	sym.Assert(err == nil, "model")
	e := xmp.NewDocument()
	if sym.Choose(2) == 0 {
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, "write")
		sym.Assert(xmp.Unmarshal(b, e) == nil, "read")
	} else {
		b, err := json.Marshal(d)
		sym.Assert(err == nil, "write json")
		sym.Assert(json.Unmarshal(b, e) == nil, "read json")
	}
	y := id3.FindModel(e)
	sym.Assert(y != nil && len(y.Extension) == n, "number of tags")
	for i, t := range want {
		if n > 1 && y.Extension[i].Key != t.Key {
			i = 1 - i // JSON has no order
		}
		sym.Assert(y.Extension[i].Key == t.Key, "key")
		sym.Assert(y.Extension[i].Value == t.Value, "value")
		sym.Assert(y.Extension[i].Lang == t.Lang, "language")
		sym.Assert(y.Extension.Get(t.Key) == t.Value, "lookup")
	}
	sym.Reach("taglist")
}

// C23_unknown: names that are no tags of a model.
func C23_unknown() {
	i := sym.Choose(len(tagModels))
	m := tagModels[i]()
	v := sym.StringIn(1, lower)
	tag := []string{"zzzz", "com.zz", "zz:a", "Zz-y", ""}[sym.Choose(5)]
	before, lerr := xmp.ListNativeFields(m)
	can := m.CanTag(tag)
	s, err := m.GetTag(tag)
	sym.Assert((err == nil) == can, "can read a tag it knows, cannot one it does not")
	sym.Assert(s == "", "no value")
	err = m.SetTag(tag, v)
	sym.Assert((err == nil) == can, "can set a tag it knows, cannot one it does not")
	if err == nil {
		s, err = m.GetTag(tag)
		sym.Assert(err == nil && s == v, "reads the value of an extension")
		sym.Reach("extension")
	}
	if lerr == nil {
		after, err := xmp.ListNativeFields(m)
		sym.Assert(err == nil, "list")
		if can {
			sym.Assert(len(after) == len(before)+1 && after[len(after)-1] == xmp.Tag{Key: tag, Value: v}, "extension listed")
		} else {
			sym.Assert(len(after) == len(before), "unknown tag changes nothing")
		}
	}
	sym.Reach("unknown")
}

// C23_versions: names of ID3 v2.2 mean the same as those of v2.4.
func C23_versions() {
	var old []string
	for _, t := range nativeTags(&id3.ID3{}) {
		for k, v := range id3.V22_TO_V24_TAGS {
			if v == t.name && t.typ.Kind() == reflect.String {
				old = append(old, k)
			}
		}
	}
	sort.Strings(old)
	sym.Assert(len(old) > 20, "names of v2.2")
	k := old[sym.Choose(len(old))]
	v := sym.StringIn(1, lower)
	x := &id3.ID3{}
	sym.Assert(x.CanTag(k), k+" is a tag")
	sym.Assert(x.SetTag(k, v) == nil, k+" set")
	s, err := x.GetTag(id3.V22_TO_V24_TAGS[k])
	sym.Assert(err == nil && s == v, k+" read by its v2.4 name")
	s, err = x.GetTag(k)
	sym.Assert(err == nil && s == v, k+" read")
	sym.Assert(len(x.Extension) == 0, k+" is no extension")
	sym.Reach("versions")
}

// C23_quicktime: tags of the parts of the QuickTime model.
func C23_quicktime() {
	x := &qt.QtInfo{}
	parts := []tagger{&qt.QtUserdata{}, &qt.QtMetadata{}, &qt.QtPlayer{}, &qt.QtProApps{}}
	p := parts[sym.Choose(len(parts))]
	l := nativeTags(p)
	f := l[sym.Choose(len(l))]
	v, exact, odd := tagValue(f.typ)
	if odd {
		return
	}
	sym.Assert(x.CanTag(f.name), f.name+" is a tag")
	sym.Assert(x.SetTag(f.name, v) == nil, f.name+" set")
	s, err := x.GetTag(f.name)
	sym.Assert(err == nil, f.name+" read")
	if exact && v != "false" {
		sym.Assert(s == v, f.name+" reads the value set")
		tags, err := x.ListTags()
		sym.Assert(err == nil && len(tags) == 1 && tags[0].Key == f.name && tags[0].Value == v, f.name+" listed")
	}
	sym.Reach("quicktime")
}

// C23_names: tags can be given with and without prefix.
func C23_names() {
	m := &dc.DublinCore{}
	v := sym.StringIn(1, lower)
	sym.Assert(m.SetTag("Format", v) == nil, "set")
	s, err := m.GetTag("Format")
	sym.Assert(err == nil && s == v, "read")
	x := &exif.ExifInfo{}
	up, low := "0xA420", "0xa420"
	sym.Assert(x.CanTag(up) && x.CanTag(low), "case of hexadecimal tags")
	sym.Assert(x.SetTag(up, v) == nil, "set hexadecimal tag")
	s, err = x.GetTag(low)
	sym.Assert(err == nil && s == v, "read hexadecimal tag")
	sym.Reach("names")
}
