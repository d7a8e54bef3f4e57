package h

import (
	"encoding/xml"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// pathChars are the characters that matter in a path, and letters.
const pathChars = ":/[]-.0123456789abcx@ "

// C20_text: any text taken as a path.
func C20_text() {
	n := sym.Choose(sym.Bound(6, 8))
	s := sym.String(n)
	p := xmp.Path(s)
	f := p.Fields()
	sym.Assert(p.Len() == len(f), "length is the number of fields")
	sym.Assert(p.IsXmpPath() == strings.Contains(s, ":"), "a path has a colon")
	var u xmp.Path
	err := u.UnmarshalText([]byte(s))
	sym.Assert((err == nil) == p.IsXmpPath(), "paths without namespace are rejected")
	last, head := p.Pop()
	first, tail := p.PopFront()
	if len(f) == 0 {
		sym.Assert(last == "" && head == p && first == "" && tail == p, "nothing to pop")
		sym.Reach("empty")
		return
	}
	i := strings.Index(s, ":")
	sym.Assert(p.NamespacePrefix() == s[:i], "prefix is the text before the colon")
	if s[i+1] != '/' {
		sym.Assert(xmp.NewPath(p.NamespacePrefix(), f...) == p, "fields joined give the path")
	}
	sym.Assert(xmp.NewPath(p.NamespacePrefix(), f...).String() == s[:i+1]+strings.Join(f, "/"), "joining separates by slashes")
	sym.Assert(u == p, "text is kept")
	sym.Assert(last == f[len(f)-1], "pop takes the last field")
	sym.Assert(head == xmp.NewPath(p.NamespacePrefix(), f[:len(f)-1]...), "pop keeps the other fields")
	if j := strings.Index(f[0], ":"); j <= 0 {
		sym.Assert(first == f[0] && tail == xmp.NewPath(p.NamespacePrefix(), f[1:]...), "pop front takes the first field")
		sym.Assert(p.PeekNamespacePrefix() == p.NamespacePrefix(), "peek: inherited prefix")
		sym.Reach("plain")
	} else if strings.Count(f[0], ":") == 1 {
		sym.Assert(first == f[0][j+1:] && tail == xmp.NewPath(f[0][:j], f[1:]...), "pop front moves to the prefix of the field")
		sym.Assert(p.PeekNamespacePrefix() == f[0][:j], "peek: own prefix")
		sym.Reach("prefixed")
	}
}

// C20_push: pushing fields, then popping them.
func C20_push() {
	pre := "n" + sym.StringIn(1, "abc019_-.")
	k := sym.Choose(4)
	var fs []string
	p := xmp.NewPath(pre)
	for i := 0; i < k; i++ {
		f := sym.StringIn(1+sym.Choose(sym.Bound(2, 3)), ":[]-.0123456789abcx@ ")
		fs = append(fs, f)
		q := p.Push(f)
		sym.Assert(q.Len() == i+1, "push adds one field")
		l, r := q.Pop()
		sym.Assert(l == f && r == p, "pop undoes push")
		p = q
	}
	sym.Assert(p == xmp.NewPath(pre, fs...), "pushes build the path")
	sym.Assert(xmp.NewPath(pre).Push(fs...) == p, "many fields pushed at once")
	g := p.Fields()
	sym.Assert(len(g) == k, "fields")
	for i := range g {
		sym.Assert(g[i] == fs[i], "each field is kept")
	}
	sym.Assert(p.NamespacePrefix() == pre, "prefix is kept")
	// a path value stays itself
	o := p
	_ = p.Push("zz")
	_, _ = p.Pop()
	sym.Assert(o == p, "operations leave the path alone")
	sym.Reach("push")
}

// C20_index: an index written in a component addresses that element.
func C20_index() {
	d := xmp.NewDocument()
	var p xmp.Path
	if sym.Choose(2) == 0 {
		p = xmp.Path("dc:subject")
	} else {
		p = xmp.Path("ex:l")
	}
	k := sym.Bound(12, 105)
	for i := 0; i < k; i++ {
		err := d.SetPath(xmp.PathValue{Path: p.AppendIndex(i), Namespace: "http://ex.org/a/", Value: "v" + itoa(i), Flags: xmp.CREATE | xmp.REPLACE})
		sym.Assert(err == nil, "set by index")
	}
	i := sym.IntIn(-3, k+3)
	q := p.AppendIndex(i)
	sym.Assert(q.Len() == 1, "an index adds no field")
	l, _ := q.Pop()
	sym.Assert(strings.HasSuffix(l, "["+itoa(i)+"]"), "index is part of the component")
	v, err := d.GetPath(q)
	if i >= 0 && i < k {
		sym.Assert(err == nil && v == "v"+itoa(i), "element of the index")
		sym.Reach("inside")
	} else if i != -1 {
		sym.Assert(err != nil || v == "", "no element")
		sym.Reach("outside")
	}
	// indices behind an index are components of their own
	sym.Assert(q.AppendIndex(2).Len() == 2, "second index")
	m, r := q.AppendIndex(2).Pop()
	sym.Assert(m == "[2]" && r == q, "second index popped")
}

// C20_lang: a language written in a component addresses that entry.
func C20_lang() {
	d := xmp.NewDocument()
	var p xmp.Path
	if sym.Choose(2) == 0 {
		p = xmp.Path("dc:title")
	} else {
		p = xmp.Path("ex:l")
	}
	lang := sym.StringIn(1+sym.Choose(sym.Bound(4, 5)), "abcdefghijklmnopqrstuvwxyz-0123456789")
	sym.Assume(lang[0] >= 'a')
	set := func(l, v string) {
		err := d.SetPath(xmp.PathValue{Path: p.AppendIndexString(l), Namespace: "http://ex.org/a/", Value: v, Flags: xmp.CREATE | xmp.APPEND})
		sym.Assert(err == nil, "set by language")
	}
	set("qqq", "first")
	sym.Assume(lang != "qqq")
	set(lang, "second")
	q := p.AppendIndexString(lang)
	sym.Assert(q.Len() == 1 && string(q) == string(p)+"["+lang+"]", "a language adds no field")
	v, err := d.GetPath(q)
	sym.Assert(err == nil && v == "second", "entry of the language")
	v, err = d.GetPath(p.AppendIndexString("qqq"))
	sym.Assert(err == nil && v == "first", "entry of the other language")
	sym.Reach("lang")
}

// C20_use: no path text panics when used on a document.
func C20_use() {
	d := xmp.NewDocument()
	for _, x := range []xmp.PathValue{
		{Path: "dc:subject[0]", Value: "s"}, {Path: "dc:title[de]", Value: "t"}, {Path: "ex:l[0]", Value: "l"}, {Path: "ex:s/a", Value: "b"},
		{Path: "xmpMM:Pantry[0]/dc:format", Value: "f"},
	} {
		x.Namespace = "http://ex.org/a/"
		x.Flags = xmp.CREATE | xmp.APPEND
		sym.Assert(d.SetPath(x) == nil, "set up")
	}
	pre := []string{"dc:subject", "dc:title", "ex:l", "ex:s", "ex:", "dc:", "xmpMM:Pantry", "xmpMM:Pantry/dc:subject", "xmpMM:DerivedFrom", ""}[sym.Choose(10)]
	n := sym.Choose(sym.Bound(4, 6))
	p := xmp.Path(pre + sym.StringIn(n, "[]/-:019ax"))
	d.GetPath(p)
	sym.Reach("get")
}

// C20_names: qualified names and their namespace.
func C20_names() {
	name := sym.StringIn(1+sym.Choose(sym.Bound(2, 3)), "abx-")
	local := sym.String(sym.Choose(sym.Bound(3, 5)))
	uri := "urn:" + sym.StringIn(1, "xy")
	ns := xmp.NewNamespace(name, uri, nil)
	other := xmp.NewNamespace(sym.StringIn(1+sym.Choose(sym.Bound(2, 3)), "abx-"), "urn:"+sym.StringIn(1, "xy"), nil)
	full := ns.Expand(local)
	if local == "" {
		sym.Assert(full == name && ns.Split(full) == name, "the name of a namespace")
	} else {
		sym.Assert(full == name+":"+local && ns.Split(full) == local, "split again")
	}
	sym.Assert(ns.XMLName(local) == xml.Name{Local: full} && ns.RootName() == xml.Name{Local: name}, "XML names")
	for _, x := range []*xmp.Namespace{ns, other} {
		byName, byURI := x.GetName() == name, x.GetURI() == uri
		sym.Assert(x.MatchAttrName(full) == byName, "match attribute")
		sym.Assert(x.MatchXMLName(xml.Name{Local: full}) == byName, "match by prefix")
		sym.Assert(x.MatchXMLName(xml.Name{Space: uri, Local: local}) == byURI, "match by URI")
		l := xmp.NamespaceList{other}
		sym.Assert(l.Contains(ns) == (other.GetName() == name) && l.ContainsName(name) == (other.GetName() == name), "contains")
	}
	sym.Assert(!xmp.NamespaceList{ns}.Contains(nil) && !xmp.NamespaceList{ns}.ContainsName(""), "contains nothing")
	third := xmp.NewNamespace("third", uri, nil)
	l := xmp.NamespaceList{ns, other, third}
	l = l.RemoveDups()
	if other.GetURI() == uri {
		sym.Assert(len(l) == 1 && l[0] == ns, "the first of each URI")
	} else {
		sym.Assert(len(l) == 2 && l[0] == ns && l[1] == other, "one of each URI")
	}
	sym.Reach("names")
}
