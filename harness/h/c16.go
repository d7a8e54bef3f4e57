package h

import (
	"strings"
	"time"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/ps"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmprights "github.com/trimmer-io/go-xmp/models/xmp_rights"
	"github.com/trimmer-io/go-xmp/xmp"
)

func symSyncFlags() xmp.SyncFlags {
	f := sym.Byte()
	sym.Assume(f < anyFlags)
	return xmp.SyncFlags(f)
}

func effective(f xmp.SyncFlags) xmp.SyncFlags {
	if f == 0 {
		return xmp.CREATE | xmp.REPLACE | xmp.DELETE | xmp.UNIQUE
	}
	return f
}

// unchangedBut: a and b list the same values, other than at path p and below.
func unchangedBut(a, b xmp.PathValueList, p xmp.Path, what string) {
	at := func(x xmp.PathValue) bool {
		return p != "" && (x.Path == p || strings.HasPrefix(string(x.Path), string(p)+"["))
	}
	for _, x := range a {
		if !at(x) {
			y := b.Find(x.Path)
			if y == nil || y.Value != x.Value {
				sym.Note("-", x, y)
			}
			sym.Assert(y != nil && y.Value == x.Value, what)
		}
	}
	for _, x := range b {
		if !at(x) {
			if a.Find(x.Path) == nil {
				sym.Note("+", x)
			}
			sym.Assert(a.Find(x.Path) != nil, what)
		}
	}
}

// syncDoc has values at the source and destination paths of C16.
func syncDoc(s string, scalar string, list []string, alt string) *xmp.Document {
	d := xmp.NewDocument()
	m, _ := d.MakeModel(xmpdm.NsXmpDM)
	dm := m.(*xmpdm.XmpDM)
	dm.Artist = s
	dm.Album = "al"
	m, _ = d.MakeModel(dc.NsDc)
	x := m.(*dc.DublinCore)
	x.Format = scalar
	x.Source = "so"
	x.Creator = append(xmp.StringList{}, list...)
	x.Subject = xmp.StringArray{"su"}
	if alt != "" {
		x.Description = xmp.NewAltString(alt)
	}
	x.Title = xmp.NewAltString("ti")
	return d
}

func opt(s func() string) string {
	if sym.Choose(2) == 0 {
		return ""
	}
	return s()
}

func abc() string { return sym.StringIn(1, "abc") }

// C16_scalar: one value to one value, with and without a converter.
func C16_scalar() {
	s, v := opt(abc), opt(abc)
	dests := []xmp.Path{"dc:format", "dc:description[x-default]", "xmpMM:DerivedFrom/stRef:documentID", "xmpDM:videoFrameSize/stDim:unit", "xmp:Label"}
	k := sym.Choose(len(dests))
	p := dests[k]
	d := syncDoc(s, "f", nil, "")
	switch {
	case v == "":
		if k == 0 {
			dc.FindModel(d).Format = ""
		}
	case k == 0:
		dc.FindModel(d).Format = v
	case k == 1:
		dc.FindModel(d).Description = xmp.NewAltString(v)
	default:
		err := d.SetPath(xmp.PathValue{Path: p, Value: v, Flags: xmp.CREATE})
		sym.Assert(err == nil, string(p)+": set up")
	}
	before := listing(d)
	var conv xmp.ConverterFunc
	w := s
	if sym.Choose(2) == 1 {
		conv = func(v string) string { return "c" + v }
		if s != "" {
			w = "c" + s
		}
	}
	f := symSyncFlags()
	var m xmp.Model
	if k < 2 && sym.Choose(2) == 1 {
		m = dc.FindModel(d)
	}
	err := d.Sync("xmpDM:artist", p, f, m, conv)
	e := effective(f)
	want := v
	switch {
	case w == "":
		if e&xmp.DELETE != 0 {
			want = ""
		}
	case v == "":
		if e&xmp.CREATE != 0 {
			want = w
		}
	default:
		if e&xmp.REPLACE != 0 {
			want = w
		}
	}
	got, _ := d.GetPath(p)
	if got != want {
		sym.Note(p, s, v, got, want, f, err)
	}
	sym.Assert(got == want, string(p)+": the value after a sync is what the flags permit")
	sym.Assert(want == v || err == nil, string(p)+": a permitted sync succeeds")
	after := listing(d)
	unchangedBut(before, after, p, string(p)+": a sync changes nothing else")
	d.Sync("xmpDM:artist", p, f, m, conv)
	same(after, listing(d), string(p)+": a second sync changes nothing")
	sym.Reach("scalar")
}

// C16_list: one value to a list.
func C16_list() {
	s := opt(abc)
	var have []string
	for i := sym.Choose(3); i > 0; i-- {
		have = append(have, abc())
	}
	d := syncDoc(s, "f", have, "d")
	before := listing(d)
	f := symSyncFlags()
	var m xmp.Model
	if sym.Choose(2) == 1 {
		m = dc.FindModel(d)
	}
	w := s
	var conv xmp.ConverterFunc
	if sym.Choose(2) == 1 {
		conv = func(v string) string { return "c" }
		if s != "" {
			w = "c"
		}
	}
	err := d.Sync("xmpDM:artist", "dc:creator", f, m, conv)
	e := effective(f)
	want := have
	in := false
	for _, h := range have {
		in = in || h == w
	}
	switch {
	case w == "":
		if e&xmp.DELETE != 0 {
			want = nil
		}
	case len(have) == 0:
		if e&xmp.CREATE != 0 {
			want = []string{w}
		}
	case e&xmp.UNIQUE != 0:
		if !in {
			want = append(append([]string{}, have...), w)
		}
	case have[0] == w:
		// nothing to do
	case e&xmp.APPEND != 0:
		want = append(append([]string{}, have...), w)
	case e&xmp.REPLACE != 0:
		want = []string{w}
	}
	got := dc.FindModel(d).Creator
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		sym.Note(s, have, got, want, f, err)
	}
	sym.Assert(ok, "list: the elements after a sync are what the flags permit")
	after := listing(d)
	unchangedBut(before, after, "dc:creator", "list: a sync changes nothing else")
	if e&xmp.APPEND == 0 || e&xmp.UNIQUE != 0 {
		d.Sync("xmpDM:artist", "dc:creator", f, m, conv)
		same(after, listing(d), "list: a second sync changes nothing")
	}
	sym.Reach("list")
}

// C16_missing: paths and models that do not exist.
func C16_missing() {
	paths := []xmp.Path{
		"xmpDM:artist", "xmpDM:zy", "zz:a", "trim:Asset/UUID", "dc:format", "dc:creator", "dc:zy", "dc:creator[4]", "dc:description[de]",
		"pdf:Keywords", "qt:udta/Copyright", "qt:zy/zy", "http://a/b", "", "dc:", "artist", "iTunes:StoreFrontID", "ex:n",
	}
	i, j := sym.Choose(len(paths)), sym.Choose(len(paths))
	d := syncDoc("s", "", nil, "")
	if sym.Choose(2) == 1 {
		err := d.SetPath(xmp.PathValue{Path: "ex:n", Value: "n", Namespace: unknownNs["ex"], Flags: xmp.CREATE})
		sym.Assert(err == nil, "set up")
	}
	before := listing(d)
	f := symSyncFlags()
	var m xmp.Model
	if sym.Choose(2) == 1 {
		m = dc.FindModel(d)
	}
	v, _ := d.GetPath(paths[i])
	err := d.Sync(paths[i], paths[j], f, m, nil)
	sym.Assert(err == nil || f&xmp.NOFAIL == 0, "missing: no error with the flag nofail")
	after := listing(d)
	if len(after) > len(before) {
		sym.Assert(effective(f)&xmp.CREATE != 0 && v != "", "missing: values are only created with the flag create")
	}
	p := paths[j]
	if k := strings.Index(string(p), "["); k > 0 {
		p = p[:k]
	}
	unchangedBut(before, after, p, "missing: nothing else changes")
	sym.Reach("missing")
}

// C16_multi: several descriptions one after the other.
func C16_multi() {
	s, v := opt(abc), opt(abc)
	f := symSyncFlags()
	l := xmp.SyncDescList{
		{Source: "xmpDM:artist", Dest: "dc:format", Flags: f},
		{Source: "dc:format", Dest: "dc:creator", Flags: xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL, Convert: func(s string) string { return "x" + s }},
		{Source: "xmpDM:artist", Dest: "xmp:Label", Flags: xmp.CREATE | xmp.NOFAIL},
	}
	mk := func() *xmp.Document {
		d := syncDoc(s, v, []string{"a"}, "")
		d.MakeModel(xmpbase.NsXmp)
		return d
	}
	a, b := mk(), mk()
	var m, n xmp.Model
	if sym.Choose(2) == 1 {
		m, n = dc.FindModel(a), dc.FindModel(b)
	}
	err := a.SyncMulti(l, m)
	var e error
	for _, x := range l {
		if e = b.Sync(x.Source, x.Dest, x.Flags, n, x.Convert); e != nil {
			break
		}
	}
	sym.Assert((err == nil) == (e == nil), "multi: same error")
	same(listing(a), listing(b), "multi: like single syncs")
	if m != nil {
		sym.Assert(xmpbase.FindModel(a).Label == "", "multi: other models are left alone")
	}
	sym.Reach("multi")
}

// C16_identifiers: SyncModels collects the identifiers of other models.
func C16_identifiers() {
	id := abc()
	var want string
	d := xmp.NewDocument()
	m, _ := d.MakeModel(xmpbase.NsXmp)
	base := m.(*xmpbase.XmpBase)
	base.Label = "la"
	switch sym.Choose(5) {
	case 0:
		m, _ := d.MakeModel(exif.NsExif)
		m.(*exif.ExifInfo).ImageUniqueID = id
		want = "uuid:exif:" + id
	case 1:
		m, _ := d.MakeModel(ixml.NsIXML)
		m.(*ixml.IXML).FileUID = id
		want = "uuid:ixml:" + id
	case 2:
		m, _ := d.MakeModel(qt.NsQuicktime)
		m.(*qt.QtInfo).ProApps = &qt.QtProApps{ClipID: id}
		want = "uuid:clipid:" + id
	case 3:
		m, _ := d.MakeModel(itunes.NsITunes)
		m.(*itunes.ITunesMetadata).StoreFrontID = id
		want = "uuid:sfid:" + id
	case 4:
		m, _ := d.MakeModel(exif.NsExif)
		m.(*exif.ExifInfo).GPSStatus = id
	}
	var have []string
	switch sym.Choose(3) {
	case 1:
		have = append(have, sym.StringIn(1, "xyz"))
	case 2:
		have = append(have, want, "x")
		if want == "" {
			return
		}
	}
	for _, x := range have {
		base.AddID(x)
	}
	sym.Assert(d.SyncModels() == nil, "identifiers: sync succeeds")
	in := false
	for _, x := range have {
		in = in || x == want
	}
	if want != "" && !in {
		have = append(have, want)
	}
	got := base.Identifier
	if len(got) != len(have) {
		sym.Note(got, have)
	}
	sym.Assert(len(got) == len(have), "identifiers: number")
	for i := range have {
		sym.Assert(got[i].ID == have[i], "identifiers: the identifier is added once")
	}
	sym.Assert(base.Label == "la", "identifiers: other properties are left alone")
	sym.Assert(d.SyncModels() == nil && len(base.Identifier) == len(have), "identifiers: a second sync changes nothing")
	sym.Reach("identifiers")
}

// modelValues lists the values a model has in its own namespace, without a sync.
func modelValues(d *xmp.Document, ns *xmp.Namespace) (l xmp.PathValueList) {
	m := d.FindModel(ns)
	if m == nil {
		return nil
	}
	all, err := xmp.ListModelPaths(m)
	sym.Assert(err == nil, "listing of a model")
	for _, x := range all {
		if x.Path.NamespacePrefix() == ns.GetName() {
			l = append(l, x)
		}
	}
	return
}

// changes: values of a that b does not have may only be at the given paths.
func changes(a, b xmp.PathValueList, allowed string, name, what string) {
	for _, x := range a {
		y := b.Find(x.Path)
		if y != nil && y.Value == x.Value {
			continue
		}
		one := false // stored as one entry
		for _, z := range a {
			one = one || z.Path != x.Path && sameLanguage(z.Path, x.Path, z.Value, x.Value)
		}
		if one {
			continue
		}
		p := string(x.Path)
		if i := strings.IndexAny(p, "[/"); i > 0 {
			p = p[:i]
		}
		ok := strings.Contains(" "+allowed+" ", " "+p+" ")
		if !ok {
			sym.Note(name, x, y)
		}
		sym.Assert(ok, name+": "+what)
	}
}

// syncModel is a model that exchanges values with the standard models.
type syncModel struct {
	ns   *xmp.Namespace
	fill func(d *xmp.Document) // set all properties that are copied to standard ones
	from string                // own properties that are replaced by standard ones
	to   string                // standard properties that are replaced by own ones
}

var syncDate = xmp.NewDate(genDates[0])

var syncModels = []syncModel{
	{
		ns: id3.NsID3,
		fill: func(d *xmp.Document) {
			x, _ := id3.MakeModel(d)
			x.TitleDescription, x.Copyright, x.RecordingTime, x.Comments, x.AlbumTitle = "m1", "m2", syncDate, "m3", "m4"
			x.Composer, x.ContentType, x.LeadPerformer, x.ModifiedBy, x.IsCompilation = "m5", id3.Genre{"17"}, "m6", "m7", id3.True
			x.PartOfASet, x.TrackNumber, x.UnsynchronizedLyrics, x.CopyrightInformation = id3.TrackNum{Track: 2, Total: 3}, id3.TrackNum{Track: 4}, xmp.StringList{"l1", "l2"}, "m8"
		},
		from: "id3:titleDescription id3:copyright id3:recordingTime id3:leadPerformer id3:albumTitle id3:comments id3:contentType id3:trackNumber id3:isCompilation id3:composer id3:modifiedBy id3:partOfASet id3:unsynchronizedLyrics id3:copyrightInformation",
		to:   "xmp:CreateDate xmpDM:logComment xmpDM:album xmpDM:partOfCompilation xmpDM:composer xmpDM:genre xmpDM:artist xmpDM:engineer xmpDM:discNumber xmpDM:trackNumber xmpDM:lyrics xmpRights:WebStatement",
	},
	{
		ns: ixml.NsIXML,
		fill: func(d *xmp.Document) {
			m, _ := d.MakeModel(ixml.NsIXML)
			x := m.(*ixml.IXML)
			x.SoundRoll, x.SceneName, x.Take, x.Note, x.Project, x.IsCircled = "m1", "m2", 3, "m4", "m5", true
		},
		to: "xmpDM:tapeName xmpDM:scene xmpDM:trackNumber xmpDM:logComment xmpDM:projectName xmpDM:good xmpDM:startTimecode xmpDM:audioSampleRate",
	},
	{
		ns: riff.NsRiff,
		fill: func(d *xmp.Document) {
			x, _ := riff.MakeModel(d)
			x.Title = riff.AltString(xmp.NewAltString("m1"))
		},
		from: "riffinfo:name",
	},
	{
		ns: pdf.NsPDF,
		fill: func(d *xmp.Document) {
			x, _ := pdf.MakeModel(d)
			x.Title, x.Author, x.Subject, x.Copyright = xmp.NewAltString("m1"), xmp.StringList{"m2", "m3"}, xmp.NewAltString("m4"), "m5"
			x.Creator, x.CreationDate, x.ModifyDate = "m6", syncDate, syncDate
		},
		from: "pdf:Copyright",
	},
	{
		ns: tiff.NsTiff,
		fill: func(d *xmp.Document) {
			x, _ := tiff.MakeModel(d)
			x.Artist, x.ImageDescription, x.Copyright, x.DateTime, x.Software = xmp.StringList{"m1"}, xmp.NewAltString("m2"), xmp.NewAltString("m3"), syncDate, "m4"
		},
	},
	{
		ns: exif.NsExif,
		fill: func(d *xmp.Document) {
			m, _ := d.MakeModel(exif.NsExif)
			x := m.(*exif.ExifInfo)
			x.Artist, x.ImageDescription, x.Copyright, x.Software, x.DateTime = "m1", "m2", "m3", "m4", exif.Date(genDates[0])
			x.ISOSpeedRatings = xmp.IntList{7}
		},
	},
	{
		ns: qt.NsQuicktime,
		fill: func(d *xmp.Document) {
			m, _ := d.MakeModel(qt.NsQuicktime)
			m.(*qt.QtInfo).Mdta = &qt.QtMetadata{LocationISO6709: "43.5968+005.4797+362.904/", LocationName: "m1"}
		},
	},
}

// fillStandard sets the standard properties that are copied to models, or
// others.
func fillStandard(d *xmp.Document, mapped bool) {
	x, _ := dc.MakeModel(d)
	base, _ := xmpbase.MakeModel(d)
	dm, _ := xmpdm.MakeModel(d)
	rights, _ := xmprights.MakeModel(d)
	m, _ := d.MakeModel(ps.NsPhotoshop)
	p := m.(*ps.PhotoshopInfo)
	if !mapped {
		x.Format, base.Label, dm.Scene, rights.Certificate, p.City = "s1", "s2", "s3", "s4", "s5"
		return
	}
	x.Title, x.Rights, x.Creator, x.Description = xmp.NewAltString("s1"), xmp.NewAltString("s2"), xmp.StringList{"s3"}, xmp.NewAltString("s4")
	x.Subject, x.Type, x.Source = xmp.StringArray{"s5"}, xmp.StringArray{"s6"}, "s7"
	base.CreateDate, base.ModifyDate, base.CreatorTool = xmp.NewDate(genDates[1]), xmp.NewDate(genDates[1]), "s8"
	dm.Artist, dm.Album, dm.LogComment, dm.Genre, dm.TrackNumber, dm.PartOfCompilation = "s9", "sa", "sb", "Rock", 8, true
	dm.Composer, dm.Engineer, dm.DiscNumber, dm.Lyrics = "sc", "sd", 9, "v1\nv2"
	dm.TapeName, dm.Scene, dm.ProjectName, dm.Good = "se", "sf", "sg", true
	rights.WebStatement = "sh"
	p.DateCreated = xmp.NewDate(genDates[1])
}

// stored writes the document and reads it back.
func stored(d *xmp.Document, name string) *xmp.Document {
	b, err := xmp.Marshal(d)
	if err != nil {
		sym.Note(name, err)
	}
	sym.Assert(err == nil, name+": writing succeeds")
	e := xmp.NewDocument()
	err = xmp.Unmarshal(b, e)
	if err != nil {
		sym.Note(name, err, string(b))
	}
	sym.Assert(err == nil, name+": reading succeeds")
	return e
}

var standardNs = []*xmp.Namespace{dc.NsDc, xmpbase.NsXmp, xmpdm.NsXmpDM, xmprights.NsXmpRights, ps.NsPhotoshop}

// C16_own: the properties of a model when it is synced with standard ones.
func C16_own() {
	s := syncModels[sym.Choose(len(syncModels))]
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	d, _ := genDoc(g, s.ns)
	if g.skip {
		return
	}
	from := ""
	switch sym.Choose(3) {
	case 1:
		fillStandard(d, false)
	case 2:
		fillStandard(d, true)
		from = s.from
	}
	own := modelValues(d, s.ns)
	if sym.Choose(2) == 1 {
		d.SetDirty()
	}
	e := stored(d, g.name)
	changes(own, modelValues(d, s.ns), "", g.name, "writing keeps the properties of the model")
	changes(own, modelValues(e, s.ns), from, g.name, "reading keeps the properties of the model")
	sym.Reach("own")
}

// C16_standard: standard properties when models are synced with them.
func C16_standard() {
	s := syncModels[sym.Choose(len(syncModels))]
	ns := standardNs[sym.Choose(len(standardNs))]
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	d, _ := genDoc(g, ns)
	if g.skip {
		return
	}
	to := ""
	if sym.Choose(2) == 1 {
		s.fill(d)
		to = s.to
	} else {
		d.MakeModel(s.ns)
	}
	own := modelValues(d, ns)
	if sym.Choose(2) == 1 {
		d.SetDirty()
	}
	e := stored(d, g.name)
	changes(own, modelValues(d, ns), to, s.ns.GetName()+" "+g.name, "writing keeps standard properties")
	changes(own, modelValues(e, ns), to, s.ns.GetName()+" "+g.name, "reading keeps standard properties")
	sym.Reach("standard")
}

// C16_twice: what was synced once is not changed by another sync.
func C16_twice() {
	s := syncModels[sym.Choose(len(syncModels))]
	d := xmp.NewDocument()
	if sym.Choose(2) == 1 {
		fillStandard(d, sym.Choose(2) == 1)
	}
	s.fill(d)
	d.SetDirty()
	e := stored(d, s.ns.GetName())
	same(listing(d), listing(d), s.ns.GetName()+": listing twice")
	e.SetDirty()
	l := listing(e)
	f := stored(e, s.ns.GetName())
	f.SetDirty()
	same(l, listing(f), s.ns.GetName()+": a second sync changes nothing")
	sym.Reach("twice")
}

// values copied to standard properties when a document is written
var syncTo = []struct {
	name string
	set  func(d *xmp.Document, v string)
	path xmp.Path
	wins bool // replaces the value of the standard property
}{
	{"id3:titleDescription", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.TitleDescription = v }, "dc:title[x-default]", false},
	{"id3:copyright", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.Copyright = v }, "dc:rights[x-default]", false},
	{"id3:comments", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.Comments = v }, "xmpDM:logComment", true},
	{"id3:albumTitle", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.AlbumTitle = v }, "xmpDM:album", true},
	{"id3:composer", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.Composer = v }, "xmpDM:composer", true},
	{"id3:leadPerformer", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.LeadPerformer = v }, "xmpDM:artist", true},
	{"id3:modifiedBy", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.ModifiedBy = v }, "xmpDM:engineer", true},
	{"id3:copyrightInformation", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.CopyrightInformation = xmp.Url(v) }, "xmpRights:WebStatement", true},
	{"id3:unsynchronizedLyrics", func(d *xmp.Document, v string) { x, _ := id3.MakeModel(d); x.UnsynchronizedLyrics = xmp.StringList{v} }, "xmpDM:lyrics", true},
	{"iXML:soundRoll", func(d *xmp.Document, v string) { makeIXML(d).SoundRoll = v }, "xmpDM:tapeName", true},
	{"iXML:sceneName", func(d *xmp.Document, v string) { makeIXML(d).SceneName = v }, "xmpDM:scene", true},
	{"iXML:note", func(d *xmp.Document, v string) { makeIXML(d).Note = v }, "xmpDM:logComment", true},
	{"iXML:project", func(d *xmp.Document, v string) { makeIXML(d).Project = v }, "xmpDM:projectName", true},
	{"riffinfo:name", func(d *xmp.Document, v string) {
		x, _ := riff.MakeModel(d)
		x.Title = riff.AltString(xmp.NewAltString(v))
	}, "dc:title[x-default]", false},
	{"pdf title", func(d *xmp.Document, v string) { x, _ := pdf.MakeModel(d); x.Title = xmp.NewAltString(v) }, "dc:title[x-default]", false},
	{"pdf author", func(d *xmp.Document, v string) { x, _ := pdf.MakeModel(d); x.Author = xmp.StringList{v} }, "dc:creator[0]", false},
	{"pdf subject", func(d *xmp.Document, v string) { x, _ := pdf.MakeModel(d); x.Subject = xmp.NewAltString(v) }, "dc:description[x-default]", false},
	{"pdf:Copyright", func(d *xmp.Document, v string) { x, _ := pdf.MakeModel(d); x.Copyright = v }, "dc:rights[x-default]", false},
	{"pdf creator", func(d *xmp.Document, v string) { x, _ := pdf.MakeModel(d); x.Creator = xmp.AgentName(v) }, "xmp:CreatorTool", false},
	{"tiff artist", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.Artist = xmp.StringList{v} }, "dc:creator[0]", false},
	{"tiff:Artist", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.X_Artist = v }, "dc:creator[0]", false},
	{"tiff description", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.ImageDescription = xmp.NewAltString(v) }, "dc:description[x-default]", false},
	{"tiff:ImageDescription", func(d *xmp.Document, v string) {
		x, _ := tiff.MakeModel(d)
		x.X_ImageDescription = xmp.NewAltString(v)
	}, "dc:description[x-default]", false},
	{"tiff copyright", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.Copyright = xmp.NewAltString(v) }, "dc:rights[x-default]", false},
	{"tiff:Copyright", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.X_Copyright = xmp.NewAltString(v) }, "dc:rights[x-default]", false},
	{"tiff software", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.Software = v }, "xmp:CreatorTool", false},
	{"tiff:Software", func(d *xmp.Document, v string) { x, _ := tiff.MakeModel(d); x.X_Software = v }, "xmp:CreatorTool", false},
	{"exif artist", func(d *xmp.Document, v string) { makeExif(d).Artist = v }, "dc:creator[0]", false},
	{"exif artists", func(d *xmp.Document, v string) { makeExif(d).Artist = "p;" + v }, "dc:creator[1]", false},
	{"exif description", func(d *xmp.Document, v string) { makeExif(d).ImageDescription = v }, "dc:description[x-default]", false},
	{"exif copyright", func(d *xmp.Document, v string) { makeExif(d).Copyright = v }, "dc:rights[x-default]", false},
	{"exif software", func(d *xmp.Document, v string) { makeExif(d).Software = v }, "xmp:CreatorTool", false},
}

func makeIXML(d *xmp.Document) *ixml.IXML {
	m, _ := d.MakeModel(ixml.NsIXML)
	return m.(*ixml.IXML)
}

func makeExif(d *xmp.Document) *exif.ExifInfo {
	m, _ := d.MakeModel(exif.NsExif)
	return m.(*exif.ExifInfo)
}

// C16_to: writing a document copies values to standard properties.
func C16_to() {
	s := syncTo[sym.Choose(len(syncTo))]
	d := xmp.NewDocument()
	v := sym.StringIn(2, lower)
	have := ""
	if sym.Choose(2) == 1 {
		have = sym.StringIn(1, lower)
		err := d.SetPath(xmp.PathValue{Path: s.path, Value: have, Flags: xmp.CREATE})
		if err != nil {
			return // the list has one element only
		}
	}
	s.set(d, v)
	d.SetDirty()
	e := stored(d, s.name)
	want := v
	if have != "" && !s.wins {
		want = have
	}
	got, err := e.GetPath(s.path)
	if got != want {
		sym.Note(s.name, s.path, got, want, err)
	}
	sym.Assert(got == want, s.name+" is copied to "+string(s.path))
	sym.Reach("to")
}

// values copied from standard properties when a document is read
var syncFrom = []struct {
	name string
	path xmp.Path
	get  func(d *xmp.Document) string
	mark func(d *xmp.Document) // adds the model
}{
	{"id3:titleDescription", "dc:title[x-default]", func(d *xmp.Document) string { return id3.FindModel(d).TitleDescription }, markID3},
	{"id3:copyright", "dc:rights[x-default]", func(d *xmp.Document) string { return id3.FindModel(d).Copyright }, markID3},
	{"id3:comments", "xmpDM:logComment", func(d *xmp.Document) string { return id3.FindModel(d).Comments }, markID3},
	{"id3:albumTitle", "xmpDM:album", func(d *xmp.Document) string { return id3.FindModel(d).AlbumTitle }, markID3},
	{"id3:composer", "xmpDM:composer", func(d *xmp.Document) string { return id3.FindModel(d).Composer }, markID3},
	{"id3:leadPerformer", "xmpDM:artist", func(d *xmp.Document) string { return id3.FindModel(d).LeadPerformer }, markID3},
	{"id3:modifiedBy", "xmpDM:engineer", func(d *xmp.Document) string { return id3.FindModel(d).ModifiedBy }, markID3},
	{"id3:copyrightInformation", "xmpRights:WebStatement", func(d *xmp.Document) string { return string(id3.FindModel(d).CopyrightInformation) }, markID3},
	{"id3:unsynchronizedLyrics", "xmpDM:lyrics", func(d *xmp.Document) string { return strings.Join(id3.FindModel(d).UnsynchronizedLyrics, "\n") }, markID3},
	{"riff title", "dc:title[x-default]", func(d *xmp.Document) string { return xmp.AltString(riff.FindModel(d).Title).Default() }, markRiff},
	{"riff copyright", "dc:rights[x-default]", func(d *xmp.Document) string { return xmp.AltString(riff.FindModel(d).Copyright).Default() }, markRiff},
	{"riff keywords", "dc:subject[0]", func(d *xmp.Document) string { return strings.Join(riff.FindModel(d).Keywords, ";") }, markRiff},
	{"riff type", "dc:type[0]", func(d *xmp.Document) string { return strings.Join(riff.FindModel(d).SourceType, ";") }, markRiff},
	{"riff description", "dc:description[x-default]", func(d *xmp.Document) string { return xmp.AltString(riff.FindModel(d).Description).Default() }, markRiff},
	{"riff medium", "dc:source", func(d *xmp.Document) string { return riff.FindModel(d).SourceMedium }, markRiff},
	{"riff software", "xmp:CreatorTool", func(d *xmp.Document) string { return string(riff.FindModel(d).Software) }, markRiff},
	{"riff artist", "xmpDM:artist", func(d *xmp.Document) string { return riff.FindModel(d).Artist }, markRiff},
	{"riff comments", "xmpDM:logComment", func(d *xmp.Document) string { return riff.FindModel(d).Comments }, markRiff},
	{"riff genre", "xmpDM:genre", func(d *xmp.Document) string { return riff.FindModel(d).Genre }, markRiff},
	{"riff engineer", "xmpDM:engineer", func(d *xmp.Document) string { return riff.FindModel(d).Engineeer }, markRiff},
	{"pdf title", "dc:title[x-default]", func(d *xmp.Document) string { return pdf.FindModel(d).Title.Default() }, markPDF},
	{"pdf author", "dc:creator[0]", func(d *xmp.Document) string { return strings.Join(pdf.FindModel(d).Author, ";") }, markPDF},
	{"pdf subject", "dc:description[x-default]", func(d *xmp.Document) string { return pdf.FindModel(d).Subject.Default() }, markPDF},
	{"pdf:Copyright", "dc:rights[x-default]", func(d *xmp.Document) string { return pdf.FindModel(d).Copyright }, markPDF},
	{"pdf creator", "xmp:CreatorTool", func(d *xmp.Document) string { return string(pdf.FindModel(d).Creator) }, markPDF},
	{"tiff artist", "dc:creator[0]", func(d *xmp.Document) string { return strings.Join(tiff.FindModel(d).Artist, ";") }, markTiff},
	{"tiff description", "dc:description[x-default]", func(d *xmp.Document) string { return tiff.FindModel(d).ImageDescription.Default() }, markTiff},
	{"tiff copyright", "dc:rights[x-default]", func(d *xmp.Document) string { return tiff.FindModel(d).Copyright.Default() }, markTiff},
	{"tiff software", "xmp:CreatorTool", func(d *xmp.Document) string { return tiff.FindModel(d).Software }, markTiff},
	{"exif artist", "dc:creator[0]", func(d *xmp.Document) string { return makeExif(d).Artist }, markExif},
	{"exif description", "dc:description[x-default]", func(d *xmp.Document) string { return makeExif(d).ImageDescription }, markExif},
	{"exif copyright", "dc:rights[x-default]", func(d *xmp.Document) string { return makeExif(d).Copyright }, markExif},
	{"exif software", "xmp:CreatorTool", func(d *xmp.Document) string { return makeExif(d).Software }, markExif},
	{"exif make", "tiff:Make", func(d *xmp.Document) string { return makeExif(d).Make }, markExif},
	{"exif model", "tiff:Model", func(d *xmp.Document) string { return makeExif(d).Model }, markExif},
}

func markID3(d *xmp.Document)  { x, _ := id3.MakeModel(d); x.Lyricist = "t" }
func markRiff(d *xmp.Document) { x, _ := riff.MakeModel(d); x.Product = "t" }
func markPDF(d *xmp.Document)  { x, _ := pdf.MakeModel(d); x.Keywords = "t" }
func markTiff(d *xmp.Document) { x, _ := tiff.MakeModel(d); x.ImageWidth = 3 }
func markExif(d *xmp.Document) { makeExif(d).GPSStatus = "t" }

// C16_from: reading a document copies values from standard properties.
func C16_from() {
	s := syncFrom[sym.Choose(len(syncFrom))]
	d := xmp.NewDocument()
	v := sym.StringIn(2, lower)
	if sym.Choose(2) == 1 {
		s.mark(d)
	}
	err := d.SetPath(xmp.PathValue{Path: s.path, Value: v, Flags: xmp.CREATE})
	sym.Assert(err == nil, s.name+": set up")
	s.mark(d)
	e := stored(d, s.name)
	got := s.get(e)
	if got != v {
		sym.Note(s.name, s.path, got, v)
	}
	sym.Assert(got == v, s.name+" is copied from "+string(s.path))
	sym.Reach("from")
}

// C16_edit: a path set in a document that was read is there when it is written.
func C16_edit() {
	s := syncModels[sym.Choose(len(syncModels))]
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	d, _ := genDoc(g, s.ns)
	if g.skip {
		return
	}
	f, _ := genDoc(g.again(), s.ns)
	l, m := modelValues(d, s.ns), modelValues(f, s.ns)
	if len(l) == 0 {
		return
	}
	x := m.Find(l[sym.Choose(len(l))].Path)
	if x == nil {
		return
	}
	if sym.Choose(sym.Bound(1, 2)) == 1 {
		fillStandard(d, false)
	}
	e := stored(d, g.name)
	v, _ := e.GetPath(x.Path)
	err := e.SetPath(xmp.PathValue{Path: x.Path, Value: x.Value})
	if v != x.Value && err != nil {
		sym.Note(*x, v, err)
	}
	sym.Assert(err == nil || v == x.Value, g.name+": a path is set after reading")
	e.SetDirty()
	e = stored(e, g.name)
	got, err := e.GetPath(x.Path)
	if got != x.Value {
		sym.Note(*x, v, got, err)
	}
	sym.Assert(got == x.Value, g.name+": a path that was set after reading is written")
	sym.Reach("edit")
}

// C16_subseconds: the time of exif dates, which are stored in two parts.
func C16_subseconds() {
	ns := []int{0, 500000000, 5000000, 123456789, 100}[sym.Choose(5)]
	t := genDates[sym.Choose(2)].Add(time.Duration(ns))
	d := xmp.NewDocument()
	x := makeExif(d)
	get := func(x *exif.ExifInfo) (exif.Date, string) { return x.DateTimeDigitized, x.SubSecTimeDigitized }
	switch sym.Choose(3) {
	case 0:
		x.DateTimeDigitizedXMP = xmp.NewDate(t)
	case 1:
		x.GPSStatus = "t"
		b, _ := xmpbase.MakeModel(d)
		b.ModifyDate = xmp.NewDate(t)
		get = func(x *exif.ExifInfo) (exif.Date, string) { return x.DateTime, x.SubSecTime }
	default:
		x.GPSStatus = "t"
		m, _ := d.MakeModel(ps.NsPhotoshop)
		m.(*ps.PhotoshopInfo).DateCreated = xmp.NewDate(t)
		get = func(x *exif.ExifInfo) (exif.Date, string) { return x.DateTimeOriginal, x.SubSecTimeOriginal }
	}
	e := stored(d, "exif dates")
	date, sub := get(makeExif(e))
	sym.Assert(date.Value().Unix() == t.Unix(), "exif dates: the date is copied")
	n := 0
	for i := 0; i < 9; i++ {
		n *= 10
		if i < len(sub) {
			n += int(sub[i] - '0')
		}
	}
	if n != ns {
		sym.Note(sub, ns)
	}
	sym.Assert(n == ns, "exif dates: the fraction of the second is copied")
	e.SetDirty()
	l := listing(e)
	same(l, listing(d), "exif dates: the dates are kept")
	sym.Reach("subseconds")
}

// C16_gpstime: the native date and time of a position.
func C16_gpstime() {
	h, m := []int{1, 12, 23}[sym.Choose(3)], []int{0, 7, 59}[sym.Choose(3)]
	num := []int64{0, 33, 59, 5, 133, 11, 479, 1}[sym.Choose(8)]
	den := []int64{1, 2, 4, 8}[sym.Choose(4)]
	d := xmp.NewDocument()
	x := makeExif(d)
	sym.Assert(x.GPSDateStamp.UnmarshalText([]byte("2019:07:04")) == nil, "gps time: date")
	x.GPSTimeStamp = xmp.RationalArray{{Num: int64(h), Den: 1}, {Num: int64(m) * 2, Den: 2}, {Num: num, Den: den}}
	want := time.Date(2019, 7, 4, h, m, 0, 0, time.UTC).Add(time.Duration(num) * time.Second / time.Duration(den))
	d.SetDirty()
	e := stored(d, "gps time")
	got := makeExif(e).GPSTimeStampXMP.Value()
	if !got.Equal(want) {
		sym.Note(got.String(), want.String())
	}
	sym.Assert(got.Equal(want), "gps time: the time of the position is copied")
	sym.Reach("gpstime")
}

// C16_exifdate: a date that is set in a document that was read is written.
func C16_exifdate() {
	d := xmp.NewDocument()
	makeExif(d).DateTimeDigitizedXMP = xmp.NewDate(genDates[0])
	e := stored(d, "exif date")
	p := xmp.Path("exif:DateTimeDigitized")
	w := "2001-02-0" + sym.StringIn(1, "123456789") + "T04:05:06Z"
	if sym.Choose(2) == 1 {
		err := e.SetPath(xmp.PathValue{Path: p, Value: w})
		sym.Assert(err == nil, "exif date: set")
	} else {
		var v xmp.Date
		sym.Assert(v.UnmarshalText([]byte(w)) == nil, "exif date: date")
		x := makeExif(e)
		x.DateTimeDigitized, x.SubSecTimeDigitized = exif.Date(v.Value()), ""
	}
	e.SetDirty()
	e = stored(e, "exif date")
	got, _ := e.GetPath(p)
	sym.Assert(got == w, "exif date: a date that was set after reading is written")
	sym.Reach("exifdate")
}

// C16_id3date: the date and time of older versions of ID3.
func C16_id3date() {
	d := xmp.NewDocument()
	x, _ := id3.MakeModel(d)
	dd, mm, h, m := 1+sym.Choose(28), 1+sym.Choose(12), 7, 8
	x.Year_v23 = 1999
	has := sym.Choose(2) == 1
	err := x.Date_v23.UnmarshalText([]byte{byte('0' + dd/10), byte('0' + dd%10), byte('0' + mm/10), byte('0' + mm%10)})
	sym.Assert(err == nil, "id3 date: date")
	if has {
		err = x.Time_v23.UnmarshalText([]byte("0708"))
		sym.Assert(err == nil, "id3 date: time")
	}
	d.SetDirty()
	e := stored(d, "id3 date")
	base := xmpbase.FindModel(e)
	if has {
		sym.Assert(base != nil && base.CreateDate.Value().Equal(time.Date(1999, time.Month(mm), dd, h, m, 0, 0, time.UTC)), "id3 date: the date is copied")
	} else {
		sym.Assert(base == nil || base.CreateDate.IsZero(), "id3 date: no date without time")
	}
	sym.Reach("id3date")
}

// C16_location: the parts of a location are copied.
func C16_location() {
	part := func(n int) (string, string) {
		s := sym.StringIn(n, "0123456789") + "." + sym.StringIn(1, "0123456789")
		if sym.Choose(2) == 1 {
			return "-" + s, "-" + s
		}
		return "+" + s, s
	}
	a, lat := part(2)
	b, long := part(3)
	c := []string{"+362.904", "-12", "+0"}[sym.Choose(3)]
	d := xmp.NewDocument()
	m, _ := d.MakeModel(qt.NsQuicktime)
	x := &qt.QtMetadata{LocationISO6709: a + b + c + "/", LocationName: "n", LocationNote: "t"}
	m.(*qt.QtInfo).Mdta = x
	d.SetDirty()
	e := stored(d, "location")
	l := x.Location
	sym.Assert(l != nil && l.Name == "n" && l.Note == "t", "location: the location is copied")
	sym.Assert(string(l.Latitude) == lat, "location: latitude")
	sym.Assert(string(l.Longitude) == long, "location: longitude")
	sym.Assert(l.Altitude == map[string]float64{"+362.904": 362.904, "-12": -12, "+0": 0}[c], "location: altitude")
	y := e.FindModel(qt.NsQuicktime).(*qt.QtInfo).Mdta
	sym.Assert(y != nil && y.LocationISO6709 == x.LocationISO6709 && y.LocationName == "n", "location: reading copies the location back")
	sym.Reach("location")
}
