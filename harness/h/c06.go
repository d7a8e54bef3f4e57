package h

import (
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

const anyFlags = 64

func symFlags() xmp.SyncFlags {
	f := sym.Byte()
	sym.Assume(f > 0 && f < anyFlags)
	return xmp.SyncFlags(f)
}

func same(a, b xmp.PathValueList, what string) {
	if len(a) != len(b) {
		sym.Note(len(a), len(b))
		for _, x := range a {
			if b.Find(x.Path) == nil {
				sym.Note("-", x)
			}
		}
		for _, x := range b {
			if a.Find(x.Path) == nil {
				sym.Note("+", x)
			}
		}
	}
	sym.Assert(len(a) == len(b), what)
	for i := range a {
		sym.Assert(a[i].Path == b[i].Path && a[i].Value == b[i].Value, what)
	}
}

// written checks a write of w to path p, which holds v, against its flags.
func written(d *xmp.Document, list func(*xmp.Document) xmp.PathValueList, before xmp.PathValueList, p xmp.Path, v, w string, f xmp.SyncFlags, err error, name string) {
	after := list(d)
	if v == w {
		sym.Assert(err == nil || w == "", name+": writing the same value is no error")
		same(before, after, name+": writing the same value changes nothing")
		return
	}
	allowed, must := false, false
	switch {
	case w == "":
		allowed = f&xmp.DELETE != 0
		must = allowed
	case v == "":
		allowed = f&(xmp.CREATE|xmp.APPEND|xmp.UNIQUE) != 0
		must = f&xmp.CREATE != 0 && w != "0" && w != "False"
	default:
		allowed = f&xmp.REPLACE != 0
		must = allowed
		if v == "0" || v == "False" {
			// numbers that are always listed may count as absent
			allowed = allowed || f&(xmp.CREATE|xmp.APPEND|xmp.UNIQUE) != 0
		}
	}
	got, _ := d.GetPath(p)
	switch {
	case !allowed:
		sym.Assert(err != nil || f&xmp.NOFAIL != 0, name+": a write that is not permitted is reported")
		same(before, after, name+": a write that is not permitted changes nothing")
	case err != nil || must && f&xmp.NOFAIL != 0 && got != w && w != "":
		if must {
			sym.Note(p, v, w, f, err)
		}
		sym.Assert(!must, name+": a permitted write succeeds")
		same(before, after, name+": a failed write changes nothing")
	default:
		if got != w && w != "" {
			sym.Note(p, v, w, got, f)
		}
		zero := got == "" && (w == "0" || w == "False") // a structure without values is absent
		sym.Assert(got == w || w == "" || got == v && !must || zero, name+": a permitted write is made")
	}
}

// C06_fields: replacing and clearing any path of any field with any flags.
func C06_fields() {
	fields06(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields06(ns *xmp.Namespace) {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	d, md := genDoc(g, ns)
	if g.skip {
		return
	}
	g2 := g.again()
	e, me := genDoc(g2, ns)
	l, m := ownListing(d, md), ownListing(e, me)
	if len(l) == 0 {
		return
	}
	own := ownPaths(l, ns)
	if len(own) == 0 {
		return
	}
	i := own[sym.Choose(len(own))]
	x := m.Find(l[i].Path)
	if x == nil {
		return
	}
	w := x.Value
	if sym.Choose(2) == 1 {
		w = ""
	}
	f := symFlags()
	err := d.SetPath(xmp.PathValue{Path: x.Path, Value: w, Flags: f})
	written(d, func(d *xmp.Document) xmp.PathValueList { return ownListing(d, md) }, l, x.Path, l[i].Value, w, f, err, g.name)
}

// C06_create: creating any path of any field in an empty model, with any flags.
func C06_create() {
	create06(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("create")
}

func create06(ns *xmp.Namespace) {
	g := newGen()
	g.kinds = sym.Bound(1, 0) == 1
	e, me := genDoc(g, ns)
	if g.skip {
		return
	}
	m := ownListing(e, me)
	if len(m) == 0 {
		return
	}
	own := ownPaths(m, ns)
	if len(own) == 0 {
		return
	}
	x := m[own[sym.Choose(len(own))]]
	d := xmp.NewDocument()
	md, _ := d.MakeModel(ns)
	l := ownListing(d, md)
	v, _ := d.GetPath(x.Path)
	f := symFlags()
	err := d.SetPath(xmp.PathValue{Path: x.Path, Value: x.Value, Flags: f})
	written(d, func(d *xmp.Document) xmp.PathValueList { return ownListing(d, md) }, l, x.Path, v, x.Value, f, err, g.name)
}

// C06_shapes: replacing and clearing any path of any kind of property.
func C06_shapes() {
	k := sym.Choose(len(shapes))
	d := shapeDoc(k, sym.StringIn(1, lower), "s")
	l := listing(d)
	x := l[sym.Choose(len(l))]
	w := ""
	if sym.Choose(2) == 1 {
		w = sym.StringIn(1, lower)
	}
	f := symFlags()
	err := d.SetPath(xmp.PathValue{Path: x.Path, Value: w, Flags: f})
	written(d, listing, l, x.Path, x.Value, w, f, err, shapes[k].name)
	sym.Reach("shapes")
}

// C06_absent: paths that do not exist, next to all kinds of properties.
func C06_absent() {
	k := sym.Choose(len(shapes))
	d := shapeDoc(k, "a", "b")
	l := listing(d)
	paths := []xmp.Path{
		"dc:format", "dc:publisher[0]", "dc:description[x-default]", "dc:description[de]", "dc:title[fr]", "dc:zy", "xmp:BaseURL", "xmp:Identifier[0]/xmpidq:Scheme",
		"xmpMM:RenditionOf/documentID", "xmpMM:History[0]/softwareAgent", "xmpMM:Ingredients[1]/stRef:documentID", "xmpDM:videoFrameSize/stDim:w",
		"ex:n", "ex:n/ex:m", "ex:n[0]", "ex:n[de]", "ex:s/ex:z", "ex:l[2]", "zz:a",
	}
	p := paths[sym.Choose(len(paths))]
	v, _ := d.GetPath(p)
	w := ""
	if sym.Choose(2) == 1 {
		w = sym.StringIn(1, lower)
		if strings.HasSuffix(string(p), "stDim:w") {
			w = "3"
		}
	}
	f := symFlags()
	ns := p.NamespacePrefix()
	uri := unknownNs[ns]
	if ns == "zz" {
		uri = "http://ex.org/z/"
	}
	err := d.SetPath(xmp.PathValue{Path: p, Value: w, Namespace: uri, Flags: f})
	written(d, listing, l, p, v, w, f, err, shapes[k].name+": "+string(p))
	sym.Reach("absent")
}

// lists to write to without index
var listPaths = []struct {
	path xmp.Path
	vals []string
}{
	{"dc:creator", nil}, {"dc:subject", nil}, {"dc:relation", nil}, {"ex:l", nil},
	{"tiff:BitsPerSample", []string{"1", "2", "3"}}, {"tiff:WhitePoint", []string{"1/2", "3/5", "7/3"}},
	{"dc:date", []string{"2001-02-03T04:05:06Z", "2002-02-03T04:05:06Z", "2003-02-03T04:05:06Z"}},
}

// C06_lists: writes to lists without index.
func C06_lists() {
	lp := listPaths[sym.Choose(len(listPaths))]
	p := lp.path
	d := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(rdfHead+"><dc:format>f</dc:format>"+rdfTail), d)
	sym.Assert(err == nil, "template")
	n := sym.Choose(3)
	if n == 0 && p == "ex:l" {
		return // not a list yet
	}
	value := func(i int) string {
		if lp.vals != nil {
			return lp.vals[sym.Choose(len(lp.vals))]
		}
		return sym.StringIn(1, "abc")
	}
	var have []string
	for i := 0; i < n; i++ {
		v := value(i)
		have = append(have, v)
		err := d.SetPath(xmp.PathValue{Path: p.AppendIndex(i), Value: v, Namespace: unknownNs[p.NamespacePrefix()], Flags: xmp.CREATE})
		sym.Assert(err == nil, string(p)+": element set by index")
	}
	before := listing(d)
	w := value(n)
	if sym.Choose(4) == 0 {
		w = ""
	}
	f := symFlags()
	err = d.SetPath(xmp.PathValue{Path: p, Value: w, Flags: f, Namespace: unknownNs[p.NamespacePrefix()]})
	var want []string
	unchanged := false
	switch {
	case n == 0 && w == "", n > 0 && have[0] == w:
		// no change
		unchanged = true
	case w == "":
		if unchanged = f&xmp.DELETE == 0; !unchanged {
			want = []string{}
		}
	case f&xmp.UNIQUE != 0:
		for _, h := range have {
			unchanged = unchanged || h == w
		}
		if !unchanged {
			want = append(have, w)
		}
	case f&xmp.APPEND != 0:
		want = append(have, w)
	case f&xmp.REPLACE != 0 && n > 0, f&xmp.CREATE != 0 && n == 0:
		want = []string{w}
	default:
		unchanged = true
		sym.Assert(err != nil || f&xmp.NOFAIL != 0, string(p)+": a list write that is not permitted is reported")
	}
	after := listing(d)
	if unchanged {
		same(before, after, string(p)+": the list is unchanged")
		sym.Reach("unchanged")
		return
	}
	if n == 0 && f&xmp.CREATE == 0 && (err != nil || f&xmp.NOFAIL != 0 && len(after) == len(before)) {
		// lists may require the permission to create
		same(before, after, string(p)+": failed write")
		return
	}
	if err != nil {
		sym.Note(p, have, w, f, err)
	}
	sym.Assert(err == nil, string(p)+": a permitted list write succeeds")
	var got []string
	others := 0
	for _, x := range after {
		if strings.HasPrefix(string(x.Path), string(p)+"[") {
			got = append(got, x.Value)
		} else {
			others++
		}
	}
	if len(got) != len(want) {
		sym.Note(p, have, w, f, got)
	}
	sym.Assert(len(got) == len(want), string(p)+": elements after the write")
	for i := range got {
		sym.Assert(got[i] == want[i], string(p)+": values after the write")
	}
	sym.Assert(others == len(before)-n, string(p)+": nothing else changes")
	sym.Reach("lists")
}

// C06_flagtext: the text form of flags names exactly these flags.
func C06_flagtext() {
	names := []string{"create", "replace", "delete", "append", "unique", "nofail", "default", "merge", "extend", "add"}
	flags := []xmp.SyncFlags{xmp.CREATE, xmp.REPLACE, xmp.DELETE, xmp.APPEND, xmp.UNIQUE, xmp.NOFAIL,
		xmp.CREATE | xmp.REPLACE | xmp.DELETE | xmp.UNIQUE, xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL, xmp.CREATE | xmp.REPLACE | xmp.UNIQUE | xmp.NOFAIL, xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL}
	s, want := "", xmp.SyncFlags(0)
	for i := 0; i < 1+sym.Choose(sym.Bound(1, 2)); i++ {
		k := sym.Choose(len(names))
		if i > 0 {
			s += ","
		}
		s += names[k]
		want |= flags[k]
	}
	// in any case
	b := []byte(s)
	k := sym.Choose(len(b))
	if b[k] != ',' && sym.Bool() {
		b[k] -= 32
	}
	f, err := xmp.ParseSyncFlags(string(b))
	sym.Assert(err == nil && f == want, "flags of a text")
	f = 0
	sym.Assert(f.UnmarshalText(b) == nil && f == want, "flags from text")
	// other names
	b[k] = sym.Byte()
	t := strings.ToLower(string(b))
	all := true
	for _, x := range strings.Split(t, ",") {
		ok := false
		for _, y := range names {
			ok = ok || x == y
		}
		all = all && ok
	}
	f = 64
	err = f.UnmarshalText(b)
	sym.Assert((err == nil) == all, "exactly the names of flags are accepted")
	sym.Assert(err == nil || f == 64, "flags unchanged on error")
	sym.Reach("flagtext")
}
