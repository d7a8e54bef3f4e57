package h

import (
	"encoding/json"
	"io"
	"strings"
	"sync"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// together does the same work in several goroutines at once, first with the
// shared tables as they are after start-up, then again; all must get the
// result of the work done alone.
func together(name string, work func() string) {
	var mu sync.Mutex
	var got []string
	sym.Parallel(func(i int) {
		s := work()
		mu.Lock()
		got = append(got, s)
		mu.Unlock()
	})
	want := work()
	for _, s := range got {
		sym.Assert(s == want, name+": same result as alone")
	}
}

func listText(d *xmp.Document) string {
	l, err := d.ListPaths()
	if err != nil {
		return "error"
	}
	s := ""
	for _, v := range l {
		s += string(v.Path) + "=" + v.Value + "\n"
	}
	return s
}

// C22_shapes: documents are read, listed, changed, written and closed.
func C22_shapes() {
	i := sym.Choose(len(shapes))
	name := shapes[i].name
	a, b := sym.StringIn(1, lower), sym.StringIn(1, lower)
	asJSON := sym.Choose(2) == 1
	clear := sym.Choose(2) == 1
	together(name, func() string {
		d := shapeDoc(i, a, b)
		s := listText(d)
		if l, err := d.ListPaths(); err == nil && clear && len(l) > 0 {
			d.SetPath(xmp.PathValue{Path: l[0].Path, Flags: xmp.DELETE})
		}
		var data []byte
		var err error
		e := xmp.NewDocument()
		d.SetDirty()
		if asJSON {
			if data, err = json.Marshal(d); err == nil {
				err = json.Unmarshal(data, e)
			}
		} else {
			if data, err = xmp.Marshal(d); err == nil {
				err = xmp.Unmarshal(data, e)
			}
		}
		if err != nil {
			return "error"
		}
		s += string(data) + listText(e)
		d.Close()
		e.Close()
		return s
	})
	sym.Reach("shapes")
}

// C22_fields: documents with any property of a model.
func C22_fields() {
	fields22(modelNs[sym.Choose(len(modelNs))])
	sym.Reach("fields")
}

func fields22(ns *xmp.Namespace) {
	g := newGen()
	d, m := genDoc(g, ns)
	if g.skip || m == nil {
		return
	}
	data, err := xmp.Marshal(d)
	if err != nil {
		return
	}
	together(g.name, func() string {
		d := xmp.NewDocument()
		if err := xmp.Unmarshal(data, d); err != nil {
			return "error"
		}
		s := listText(d)
		d.SetDirty()
		out, err := xmp.Marshal(d)
		if err != nil {
			return "error"
		}
		j, err := json.Marshal(d)
		if err != nil {
			return "error"
		}
		d.Close()
		return s + string(out) + string(j)
	})
}

// C22_ops: operations on documents and the tables they use.
func C22_ops() {
	v := sym.StringIn(1, lower)
	i := sym.Choose(sym.Bound(8, len(shapes)))
	k := sym.Choose(12)
	f := symFlags()
	together("operations", func() string {
		d := shapeDoc(i, v, "s")
		s := ""
		note := func(err error) {
			if err != nil {
				s += "error\n"
			}
		}
		switch k {
		case 0:
			for _, p := range []xmp.Path{"dc:creator[1]", "dc:title[de]", "xmpMM:History[1]/stEvt:action", "ex:n/b", "ex:l[1]", "xmp:CreateDate", "iXML:FOO"} {
				note(d.SetPath(xmp.PathValue{Path: p, Value: v, Flags: f}))
			}
		case 1:
			note(d.SetPath(xmp.PathValue{Path: "zz:a", Namespace: "http://zz/", Value: v}))
			note(d.SetPath(xmp.PathValue{Path: "zz:b", Value: v}))
		case 2:
			note(d.Merge(shapeDoc((i+1)%len(shapes), "t", "u"), f))
		case 3:
			if xmp.ParseFilter("dc,-xmp,+rights").Apply(d) {
				s += "filtered\n"
			}
		case 4:
			note(d.SyncModels())
		case 5:
			for _, s := range syncModels {
				s.fill(d)
			}
			note(d.SyncModels())
		case 6:
			if _, err := xmp.GetNamespace("cxx"); err != nil {
				xmp.Register(&xmp.Namespace{Name: "cxx", URI: "http://cxx/"}, xmp.NamespaceGroup("cxx"))
			}
			if l, err := xmp.GetGroupNamespaces(xmp.MovieMetadata); err == nil {
				s += l[0].GetName()
			}
			for _, n := range []string{"dc", "xmp", "zz", "exif", "cxx"} {
				ns, err := xmp.NsRegistry.GetNamespace(n)
				note(err)
				if err == nil {
					s += xmp.NsRegistry.GetPrefix(ns.GetURI()) + xmp.NsRegistry.Short(ns.GetURI(), v)
				}
			}
			for _, n := range xmp.NsRegistry.Namespaces() {
				if n.GetName() == "cxx" {
					s += n.GetURI()
				}
			}
			s += itoa(len(xmp.NsRegistry.Prefixes()))
		case 7:
			b, err := xmp.Marshal(d)
			note(err)
			l, err := xmp.ScanPackets(strings.NewReader("junk" + string(b) + "junk"))
			note(err)
			for _, b := range l {
				note(xmp.Unmarshal(b, d))
			}
		case 8:
			for _, ns := range modelNs {
				if m := d.FindModel(ns); m != nil {
					l, err := xmp.ListNativeFields(m)
					note(err)
					for _, t := range l {
						s += t.Key + t.Value
						note(xmp.SetNativeField(m, t.Key, t.Value))
					}
				}
			}
		case 9:
			d.RemoveNamespaceByName("dc")
			d.RemoveNamespaceByName("ex")
			for _, ns := range d.Namespaces() {
				s += ns.GetName()
			}
		case 10:
			e := xmp.NewEncoder(io.Discard)
			e.SetFlags(xmp.Xpadding)
			note(e.Encode(d))
		case 11:
			d.Close()
			d = shapeDoc((i+1)%len(shapes), v, "t")
		}
		s += listText(d)
		d.SetDirty()
		b, err := xmp.Marshal(d)
		note(err)
		d.Close()
		return s + string(b)
	})
	sym.Reach("ops")
}
