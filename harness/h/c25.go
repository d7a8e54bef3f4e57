package h

import (
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/ixml"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
)

func mmDoc() (*xmp.Document, *xmpmm.XmpMM) {
	d := xmp.NewDocument()
	m, err := xmpmm.MakeModel(d)
	sym.Assert(err == nil && m != nil, "model")
	return d, m
}

// reread writes the document, reads it again and returns its model.
func reread(d *xmp.Document, what string) *xmpmm.XmpMM {
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, what+": write")
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, what+": read")
	m := xmpmm.FindModel(e)
	sym.Assert(m != nil, what+": model read")
	return m
}

// mmEntry is what was added.
type mmEntry struct{ kind, name, id, part string }

// C25_history: events and versions are kept in the order they were added.
func C25_history() {
	d, m := mmDoc()
	sym.Assert(m.GetLastEvent() == nil && m.GetLastVersion() == nil && m.GetPreviousVersion() == nil &&
		m.GetLastVersionId() == "" && m.GetPreviousVersionId() == "", "empty")
	m.SetPreviousVersionId("x")
	sym.Assert(len(m.Versions) == 0 && len(m.History) == 0, "still empty")
	var ev, vs []mmEntry
	check := func(m *xmpmm.XmpMM, what string) {
		sym.Assert(len(m.History) == len(ev) && len(m.Versions) == len(vs), what+": number of entries")
		for i, v := range ev {
			x := m.History[i]
			sym.Assert(string(x.Action) == v.name && string(x.InstanceID) == v.id && x.Changed.String() == v.part, what+": event")
		}
		for i, v := range vs {
			x := m.Versions[i]
			sym.Assert(x.Version == v.name && x.Modifier == v.id && x.Event.Changed.String() == v.part, what+": version")
		}
		if n := len(ev); n > 0 {
			sym.Assert(m.GetLastEvent() == m.History[n-1], what+": last event")
		}
		n := len(vs)
		if n > 0 {
			sym.Assert(m.GetLastVersion() == m.Versions[n-1] && m.GetLastVersionId() == vs[n-1].name, what+": last version")
		}
		if n > 1 {
			sym.Assert(m.GetPreviousVersion() == m.Versions[n-2] && m.GetPreviousVersionId() == vs[n-2].name, what+": previous version")
		} else {
			sym.Assert(m.GetPreviousVersion() == nil && m.GetPreviousVersionId() == "", what+": no previous version")
		}
	}
	for i, n := 0, sym.Choose(sym.Bound(4, 6)); i < n; i++ {
		e := mmEntry{name: sym.StringIn(1, "abc"), id: sym.StringIn(1, "xy")}
		switch sym.Choose(2) {
		case 0:
			e.part = "/" + e.id
			if sym.Choose(2) == 1 {
				e.part += "/"
				m.AddHistory(&xmpmm.ResourceEvent{Action: xmpmm.ActionType(e.name), InstanceID: xmp.GUID(e.id), Changed: xmpdm.NewPartList(e.id)})
			} else {
				e.part += "/"
				m.AddHistory(&xmpmm.ResourceEvent{Action: xmpmm.ActionType(e.name), InstanceID: xmp.GUID(e.id), Changed: xmpdm.NewPartList("/" + e.id)})
			}
			ev = append(ev, e)
		default:
			m.AddVersion(&xmpmm.StVersion{Version: e.name, Modifier: e.id})
			vs = append(vs, e)
		}
	}
	check(m, "added")
	if len(ev)+len(vs) > 0 {
		check(reread(d, "added"), "read")
	}
	sym.Reach("history")
}

// C25_versions: changes are recorded with the version they were made in.
func C25_versions() {
	d, m := mmDoc()
	type entry struct {
		version, modifier, id, parts, action string
		date                                 xmp.Date
	}
	var want []entry
	dates := make([]xmp.Date, 3)
	for i := range dates {
		x, err := xmp.ParseDate("201" + itoa(i) + "-02-03T04:05:06Z")
		sym.Assert(err == nil, "date")
		dates[i] = x
	}
	if sym.Choose(2) == 1 {
		m.AddVersion(&xmpmm.StVersion{Version: "a", Modifier: "m"})
		want = append(want, entry{version: "a", modifier: "m"})
	}
	for i, n := 0, 1+sym.Choose(sym.Bound(3, 4)); i < n; i++ {
		m.VersionID = sym.StringIn(1, "ab")
		m.InstanceID = xmp.GUID("i" + itoa(i))
		part := "/p" + itoa(i) + "/"
		text := part[1:3]
		if sym.Choose(2) == 1 {
			text = part[:3]
		}
		mod, act := "m"+itoa(i), "t"+itoa(i)
		m.AppendVersionHistory(xmpmm.ActionType(act), mod, text, dates[i%3])
		if l := len(want); l > 0 && want[l-1].version == m.VersionID {
			if want[l-1].parts != "" {
				want[l-1].parts += ";"
			}
			want[l-1].parts += part
		} else {
			want = append(want, entry{m.VersionID, mod, string(m.InstanceID), part, act, dates[i%3]})
		}
		sym.Assert(m.GetLastVersionId() == m.VersionID, "last version is the current one")
	}
	check := func(m *xmpmm.XmpMM, what string) {
		sym.Assert(len(m.Versions) == len(want), what+": number of versions")
		for i, v := range want {
			x := m.Versions[i]
			sym.Assert(x.Version == v.version && x.Modifier == v.modifier, what+": version")
			sym.Assert(x.Event.Changed.String() == v.parts, what+": parts")
			sym.Assert(string(x.Event.InstanceID) == v.id && string(x.Event.Action) == v.action, what+": event")
			sym.Assert(x.ModifyDate.Value().Equal(v.date.Value()) && x.Event.When.Value().Equal(v.date.Value()), what+": dates")
			if v.id != "" {
				sym.Assert(x.Event.SoftwareAgent == xmp.Agent, what+": agent")
			}
		}
	}
	check(m, "added")
	check(reread(d, "added"), "read")
	sym.Reach("versions")
}

// C25_selfref: a reference to the document says what the document says.
func C25_selfref() {
	d, m := mmDoc()
	n := sym.Bound(1, 2)
	m.OriginalDocumentID = xmp.GUID("xmp.did:" + sym.StringIn(n, "abc"))
	m.DocumentID = xmp.GUID(sym.StringIn(n, "abc"))
	m.InstanceID = xmp.GUID("xmp.iid:" + sym.StringIn(n, "abc"))
	m.VersionID = "0"
	m.Manager = xmp.AgentName("m" + sym.StringIn(n, "abc"))
	m.ManagerVariant = "v" + sym.StringIn(n, "abc")
	m.ManageTo = xmp.Uri("t" + sym.StringIn(n, "abc"))
	m.ManageUI = xmp.Uri("u" + sym.StringIn(n, "abc"))
	m.RenditionParams = "p" + sym.StringIn(n, "abc")
	m.RenditionClass = xmpdm.RenditionClass("proof")
	ver := sym.StringIn(1, "01a")
	var date xmp.Date
	for i, k := 0, sym.Choose(3); i < k; i++ {
		x, err := xmp.ParseDate("201" + itoa(i) + "-02-03T04:05:06Z")
		sym.Assert(err == nil, "date")
		date = x
		m.AddHistory(&xmpmm.ResourceEvent{Action: "edited", When: date})
	}
	before := listing(d)
	r := m.SelfResourceRef(ver)
	sym.Assert(r != nil && !r.IsZero(), "reference")
	same(before, listing(d), "document unchanged")
	check := func(r *xmpmm.ResourceRef, what string) {
		sym.Assert(r.OriginalDocumentID == m.OriginalDocumentID, what+": original document")
		sym.Assert(r.DocumentID == m.DocumentID, what+": document")
		sym.Assert(r.InstanceID == m.InstanceID, what+": instance")
		sym.Assert(r.VersionID == ver, what+": version")
		sym.Assert(r.Manager == m.Manager && r.ManagerVariant == m.ManagerVariant, what+": manager")
		sym.Assert(r.ManageTo == m.ManageTo && r.ManageUI == m.ManageUI, what+": manage")
		sym.Assert(r.RenditionClass == m.RenditionClass && r.RenditionParams == m.RenditionParams, what+": rendition")
		sym.Assert(r.MaskMarkers == xmpdm.MaskNone, what+": markers")
		sym.Assert(r.LastModifyDate.Value().Equal(date.Value()), what+": last change")
		sym.Assert(r.FilePath == "" && r.PartMapping == "" && len(r.AlternatePaths) == 0 && (r.FromPart == nil || r.FromPart.IsZero()) && (r.ToPart == nil || r.ToPart.IsZero()), what+": nothing else")
	}
	check(r, "reference")
	// changing the reference does not change the document
	r.DocumentID = "z"
	same(before, listing(d), "document unchanged")
	r.DocumentID = m.DocumentID
	// used as origin and as ingredient of another document
	e, o := mmDoc()
	o.DerivedFrom = r
	o.Ingredients = append(o.Ingredients, &xmpmm.ResourceRef{DocumentID: "first"}, m.SelfResourceRef(ver))
	o = reread(e, "used")
	sym.Assert(o.DerivedFrom != nil && len(o.Ingredients) == 2, "kept")
	check(o.DerivedFrom, "origin")
	check(o.Ingredients[1], "ingredient")
	sym.Assert(o.Ingredients[0].DocumentID == "first" && o.Ingredients.Index(m.DocumentID) == 1, "found")
	sym.Reach("selfref")
}

// longPath writes the prefix of every segment.
func longPath(p xmp.Path) xmp.Path {
	f := strings.Split(string(p), "/")
	pre := ""
	for i, v := range f {
		if n := strings.IndexByte(v, ':'); n >= 0 {
			pre = v[:n+1]
		} else {
			f[i] = pre + v
		}
	}
	return xmp.Path(strings.Join(f, "/"))
}

// C25_pantry: the pantry holds copies of documents.
func C25_pantry() {
	d, m := mmDoc()
	var want []xmp.PathValueList
	for i, n := 0, 1+sym.Choose(2); i < n; i++ {
		few := []int{0, 3, 7, 11, 19}
		k := 0
		if n == 1 || i == 0 && sym.Bound(0, 1) == 1 {
			k = sym.Choose(len(shapes))
		} else {
			k = few[sym.Choose(len(few))] % len(shapes)
		}
		e := shapeDoc(k, "q"+itoa(i), "r")
		l := listing(e)
		for _, v := range l {
			if v.Path.NamespacePrefix() == "xmpMM" {
				return // a pantry inside
			}
		}
		m.AddPantry(e)
		want = append(want, l)
		same(l, listing(e), "copied document unchanged")
		// changing the copied document does not change the pantry
		switch sym.Choose(3) {
		case 0:
			e.Close()
		case 1:
			for _, v := range l {
				e.SetPath(xmp.PathValue{Path: v.Path, Namespace: v.Namespace, Flags: xmp.DELETE})
			}
			x, err := dc.MakeModel(e)
			sym.Assert(err == nil, "model")
			x.Format = "changed"
		}
	}
	sym.Assert(len(m.Pantry) == len(want), "number of documents")
	check := func(d *xmp.Document, what string) {
		l := listing(d)
		for i := range l {
			l[i].Path = longPath(l[i].Path)
		}
		n := 0
		for i, w := range want {
			for _, v := range w {
				if v.Path == "dc:yy" || v.Path == "dc:zz" || v.Path == "iXML:YY" || v.Path == "iXML:ZZ" {
					// kept, not listed
					b, err := xmp.Marshal(d)
					sym.Assert(err == nil && (strings.Contains(string(b), ">"+v.Value+"</"+string(v.Path)+">") || strings.Contains(string(b), " "+string(v.Path)+"=\""+v.Value+"\"")), what+": unknown property of a copied document")
					continue
				}
				n++
				x := l.Find(longPath(xmp.Path("xmpMM:Pantry[" + itoa(i) + "]/" + v.Path.String())))
				if x == nil {
					sym.Note(what, v, l)
				}
				sym.Assert(x != nil && x.Value == v.Value, what+": value of a copied document")
			}
		}
		if n != len(l) {
			sym.Note(l)
		}
		sym.Assert(n == len(l), what+": nothing else")
	}
	check(d, "added")
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, "write")
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, "read")
	check(e, "read")
	sym.Reach("pantry")
}

// C25_markers: filtering and sorting keep exactly the matching markers.
func C25_markers() {
	n := sym.Choose(sym.Bound(4, 5))
	kinds := []xmpdm.MarkerType{xmpdm.MarkerTypeTrack, xmpdm.MarkerTypeCue, xmpdm.MarkerTypeSpeech}
	var l xmpdm.MarkerList
	for i := 0; i < n; i++ {
		x := xmpdm.Marker{Name: "m" + itoa(i)}
		x.StartTime.Count = int64(sym.Int32())
		sym.Assume(x.StartTime.Count >= -1)
		switch sym.Choose(3) {
		case 0:
			x.Types = xmpdm.MarkerTypeList{kinds[i%3]}
		case 1:
			x.Types = xmpdm.MarkerTypeList{kinds[(i+1)%3], kinds[i%3]}
		}
		l = append(l, x)
	}
	var f xmpdm.MarkerTypeList
	has := make(map[xmpdm.MarkerType]bool)
	for _, k := range kinds {
		if sym.Bool() {
			f = append(f, k)
			has[k] = true
		}
	}
	var want []string
	for _, v := range l {
		in := f.Intersect(v.Types)
		k := 0
		for _, t := range v.Types {
			sym.Assert(f.Contains(t) == has[t], "contains")
			sym.Assert(in.Contains(t) == has[t], "common types")
			if has[t] {
				k++
			}
		}
		sym.Assert(len(in) == k, "only common types")
		if k > 0 {
			want = append(want, v.Name)
		}
	}
	r := l.Filter(f)
	sym.Assert(len(r) == len(want), "number of markers")
	for i, v := range r {
		sym.Assert(v.Name == want[i], "filtered marker")
	}
	sym.Assert(len(l) == n, "list unchanged")
	for i, v := range l {
		sym.Assert(v.Name == "m"+itoa(i), "list unchanged")
	}
	// sorted by start, the same markers
	start := make(map[string]int64)
	for _, v := range l {
		start[v.Name] = v.StartTime.Count
	}
	l.Sort()
	sym.Assert(len(l) == n, "sorted: number")
	seen := make(map[string]bool)
	for i, v := range l {
		c, ok := start[v.Name]
		sym.Assert(ok && !seen[v.Name] && v.StartTime.Count == c, "sorted: the same markers")
		seen[v.Name] = true
		if i > 0 {
			p := l[i-1].StartTime.Count
			sym.Assert(c == -1 || p != -1 && p <= c, "sorted: order")
		}
	}
	sym.Reach("markers")
}

// C25_parts: parts are added as text or value.
func C25_parts() {
	var l xmpdm.PartList
	var text []string
	var names []string
	for i, n := 0, sym.Choose(sym.Bound(3, 4)); i < n; i++ {
		p := sym.StringIn(sym.Bound(1, 2), "ab")
		slash := sym.Bool()
		s := p
		if slash {
			s = "/" + p
		}
		names = append(names, s)
		w := "/" + p
		if p != "" {
			w += "/"
		}
		switch sym.Choose(3) {
		case 0:
			l.Add(s)
		case 1:
			x := xmpdm.NewPart(s)
			sym.Assert(x.Path == "/"+p, "path of a part")
			sym.Assert(!x.IsZero(), "part")
			l.AddPart(x)
		default:
			x := xmpdm.NewPart(s)
			rate := xmpdm.FrameRate{Rate: 25, Base: 1}
			x.Duration = xmpdm.FrameCount{Count: int64(sym.Byte()), Rate: rate}
			if sym.Bool() {
				x.Start = xmpdm.FrameCount{Count: int64(sym.Byte()), Rate: rate}
				w += "time:" + ltoa(x.Start.Count) + "f25d" + ltoa(x.Duration.Count) + "f25"
			} else {
				w += "time:" + ltoa(x.Duration.Count) + "f25"
			}
			l.AddPart(x)
		}
		text = append(text, w)
	}
	want := ""
	for i, v := range text {
		if i > 0 {
			want += ";"
		}
		want += v
	}
	sym.Assert(len(l) == len(text), "number of parts")
	sym.Assert(l.String() == want, "text")
	var r xmpdm.PartList
	sym.Assert(r.UnmarshalText([]byte(want)) == nil && len(r) == len(l), "read")
	for i := range r {
		a, err := r[i].MarshalText()
		if string(a) != text[i] {
			sym.Note(string(a), text[i], want)
		}
		sym.Assert(err == nil && string(a) == text[i], "part read")
		sym.Assert(r[i].Start == l[i].Start && r[i].Duration == l[i].Duration, "times read")
	}
	q := xmpdm.NewPartList(names...)
	sym.Assert(len(q) == len(names), "number of new parts")
	for i, v := range q {
		sym.Assert(v == xmpdm.NewPart(names[i]), "new part")
	}
	sym.Reach("parts")
}

// C25_refs: references are found and removed by document and position.
func C25_refs() {
	d, m := mmDoc()
	var want []string
	for i, n := 0, sym.Choose(sym.Bound(4, 5)); i < n; i++ {
		id := "d" + sym.StringIn(1, "abc")
		m.Ingredients = append(m.Ingredients, &xmpmm.ResourceRef{DocumentID: xmp.GUID(id), VersionID: itoa(i)})
		want = append(want, id+itoa(i))
	}
	did := "d" + sym.StringIn(1, "abc")
	first := -1
	for i := len(want) - 1; i >= 0; i-- {
		if want[i][:len(want[i])-1] == did {
			first = i
		}
	}
	sym.Assert(m.Ingredients.Index(xmp.GUID(did)) == first, "found")
	idx := sym.IntIn(-2, 6)
	m.Ingredients.DeleteIndex(idx)
	if idx >= 0 && idx < len(want) {
		want = append(append([]string{}, want[:idx]...), want[idx+1:]...)
	}
	check := func(m *xmpmm.XmpMM, what string) {
		sym.Assert(len(m.Ingredients) == len(want), what+": number")
		for i, v := range m.Ingredients {
			sym.Assert(string(v.DocumentID)+v.VersionID == want[i], what+": reference")
		}
	}
	check(m, "removed")
	if len(want) > 0 {
		check(reread(d, "removed"), "read")
	}
	sym.Reach("refs")
}

// C25_identifiers: identifiers are added with or without their scheme.
func C25_identifiers() {
	d := xmp.NewDocument()
	x, err := xmpbase.MakeModel(d)
	sym.Assert(err == nil, "model")
	type entry struct{ id, scheme string }
	var want []entry
	index := func(s string) int {
		for i, v := range want {
			if v.id == s {
				return i
			}
		}
		return -1
	}
	for i, n := 0, 1+sym.Choose(sym.Bound(3, 4)); i < n; i++ {
		s := "i" + sym.StringIn(1, "ab")
		at := index(s)
		sym.Assert(x.Identifier.Index(s) == at && x.Identifier.Contains(s) == (at >= 0), "found")
		switch sym.Choose(5) {
		case 0:
			x.AddID(s)
			want = append(want, entry{s, ""})
		case 1:
			sc := "s" + sym.StringIn(1, "ab")
			x.AddIDWithScheme(s, sc)
			want = append(want, entry{s, sc})
		case 2:
			x.Identifier.Add(s)
			want = append(want, entry{s, ""})
		case 3:
			sym.Assert(x.Identifier.AddUnique(s) == nil, "add")
			if at < 0 {
				want = append(want, entry{s, ""})
			}
		default:
			x.Identifier.Remove(s)
			if at >= 0 {
				want = append(append([]entry{}, want[:at]...), want[at+1:]...)
			}
		}
	}
	check := func(x *xmpbase.XmpBase, what string) {
		if len(want) == 0 {
			sym.Assert(x == nil || x.Identifier.IsZero(), what+": empty")
			return
		}
		sym.Assert(x != nil && len(x.Identifier) == len(want), what+": number")
		for i, v := range x.Identifier {
			sym.Assert(v.ID == want[i].id && v.Scheme == want[i].scheme, what+": identifier")
		}
	}
	check(x, "added")
	b, err := xmp.Marshal(d)
	sym.Assert(err == nil, "write")
	e := xmp.NewDocument()
	sym.Assert(xmp.Unmarshal(b, e) == nil, "read")
	check(xmpbase.FindModel(e), "read")
	var ids []interface{}
	for _, v := range want {
		ids = append(ids, v.id)
	}
	a := xmpbase.NewIdentifierArray(ids...)
	sym.Assert(len(a) == len(want), "new: number")
	for i, v := range a {
		sym.Assert(v.ID == want[i].id && v.Scheme == "", "new: identifier")
	}
	sym.Reach("identifiers")
}

// stringSet is a list of the iXML model.
type stringSet interface {
	add(s string)
	del(s string)
	has(s string) bool
	all() []string
	text() (string, error)
	read(s string) error
}

type takeSet struct{ l ixml.TakeTypeList }

func (x *takeSet) add(s string)      { x.l.Add(ixml.TakeType(s)) }
func (x *takeSet) del(s string)      { x.l.Del(ixml.TakeType(s)) }
func (x *takeSet) has(s string) bool { return x.l.Contains(ixml.TakeType(s)) }
func (x *takeSet) all() (r []string) {
	for _, v := range x.l {
		r = append(r, string(v))
	}
	return
}
func (x *takeSet) text() (string, error) { b, err := x.l.MarshalText(); return string(b), err }
func (x *takeSet) read(s string) error   { return x.l.UnmarshalText([]byte(s)) }

type placeSet struct{ l ixml.LocationTypeList }

func (x *placeSet) add(s string)      { x.l.Add(ixml.LocationType(s)) }
func (x *placeSet) del(s string)      { x.l.Del(ixml.LocationType(s)) }
func (x *placeSet) has(s string) bool { return x.l.Contains(ixml.LocationType(s)) }
func (x *placeSet) all() (r []string) {
	for _, v := range x.l {
		r = append(r, string(v))
	}
	return
}
func (x *placeSet) text() (string, error) { b, err := x.l.MarshalText(); return string(b), err }
func (x *placeSet) read(s string) error   { return x.l.UnmarshalText([]byte(s)) }

type timeSet struct{ l ixml.LocationTimeList }

func (x *timeSet) add(s string)      { x.l.Add(ixml.LocationTime(s)) }
func (x *timeSet) del(s string)      { x.l.Del(ixml.LocationTime(s)) }
func (x *timeSet) has(s string) bool { return x.l.Contains(ixml.LocationTime(s)) }
func (x *timeSet) all() (r []string) {
	for _, v := range x.l {
		r = append(r, string(v))
	}
	return
}
func (x *timeSet) text() (string, error) { b, err := x.l.MarshalText(); return string(b), err }
func (x *timeSet) read(s string) error   { return x.l.UnmarshalText([]byte(s)) }

type trackSet struct{ l ixml.FunctionSet }

func (x *trackSet) add(s string)      { x.l.Add(ixml.FunctionType(s)) }
func (x *trackSet) del(s string)      { x.l.Del(ixml.FunctionType(s)) }
func (x *trackSet) has(s string) bool { return x.l.Contains(ixml.FunctionType(s)) }
func (x *trackSet) all() (r []string) {
	for _, v := range x.l {
		r = append(r, string(v))
	}
	return
}
func (x *trackSet) text() (string, error) { return "", nil }
func (x *trackSet) read(s string) error   { return nil }

var setWords = [][]string{
	{"DEFAULT", "NO_GOOD", "FALSE_START", "WILD_TRACK", "PICKUP", "REHEARSAL", "ANNOUNCEMENT", "SOUND_GUIDE", "OTHER"},
	{"INT", "EXT", "OTHER"},
	{"SUNRISE", "MORNING", "MIDDAY", "DAY", "AFTERNOON", "EVENING", "SUNSET", "NIGHT", "OTHER"},
	{"M-MID_SIDE", "S-MID_SIDE", "MIX", "VIDEO"},
}

// C25_sets: lists of the iXML model hold each word once, in the order added.
func C25_sets() {
	k := sym.Choose(4)
	x := []stringSet{&takeSet{}, &placeSet{}, &timeSet{}, &trackSet{}}[k]
	words := setWords[k]
	var want []string
	for i, n := 0, sym.Choose(sym.Bound(4, 5)); i < n; i++ {
		w := words[sym.Choose(len(words))]
		at := -1
		for j, v := range want {
			if v == w {
				at = j
			}
		}
		sym.Assert(x.has(w) == (at >= 0), "contains")
		if sym.Bool() {
			x.add(w)
			if at < 0 {
				want = append(want, w)
			}
		} else {
			x.del(w)
			if at >= 0 {
				want = append(append([]string{}, want[:at]...), want[at+1:]...)
			}
		}
	}
	got := x.all()
	sym.Assert(len(got) == len(want), "number")
	text := ""
	for i, v := range got {
		sym.Assert(v == want[i], "word")
		if i > 0 {
			text += ","
		}
		text += v
	}
	if t, ok := x.(*takeSet); ok {
		sym.Assert(t.l.IsDefault() == (len(want) == 0 || t.has("DEFAULT")), "default take")
	}
	if k < 3 {
		s, err := x.text()
		sym.Assert(err == nil && s == text, "text")
		sym.Assert(x.read("X,Y") == nil && x.read(s) == nil, "read")
		got = x.all()
		sym.Assert(len(got) == len(want), "read: number")
		for i, v := range got {
			sym.Assert(v == want[i], "read: word")
		}
	}
	sym.Reach("sets")
}

// C25_functions: working with sets of track functions never changes the
// predefined sets.
func C25_functions() {
	pre := []ixml.FunctionSet{ixml.FunctionSetMS, ixml.FunctionSetXY, ixml.FunctionSetMonoDownmix, ixml.FunctionSetDMS, ixml.FunctionSetLCRS, ixml.FunctionSet51, ixml.FunctionSet71}
	var keep [][]ixml.FunctionType
	for _, v := range pre {
		keep = append(keep, append([]ixml.FunctionType{}, v...))
	}
	a := pre[sym.Choose(len(pre))]
	b := pre[sym.Choose(len(pre))]
	var in, out []ixml.FunctionType
	in = append(in, a...)
	for i, n := 0, 1+sym.Choose(sym.Bound(2, 3)); i < n; i++ {
		switch sym.Choose(4) {
		case 0:
			a.Merge(b)
			for _, v := range b {
				if !ixml.FunctionSet(in).Contains(v) {
					in = append(in, v)
				}
			}
		case 1:
			a.Sub(b)
			out = nil
			for _, v := range in {
				if !ixml.FunctionSet(b).Contains(v) {
					out = append(out, v)
				}
			}
			in = out
		case 2:
			if len(in) == 0 {
				return
			}
			v := in[sym.Choose(len(in))]
			a.Del(v)
			out = nil
			for _, w := range in {
				if w != v {
					out = append(out, w)
				}
			}
			in = out
		default:
			a.Add(ixml.FunctionVideo)
			if !ixml.FunctionSet(in).Contains(ixml.FunctionVideo) {
				in = append(in, ixml.FunctionVideo)
			}
		}
		sym.Assert(len(a) == len(in), "number")
		for i, v := range in {
			sym.Assert(a[i] == v, "function")
		}
	}
	for i, v := range pre {
		sym.Assert(len(v) == len(keep[i]), "predefined set")
		for j, w := range v {
			sym.Assert(w == keep[i][j], "predefined set unchanged")
		}
	}
	sym.Reach("functions")
}
