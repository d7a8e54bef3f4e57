package h

import (
	"bytes"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/dc"
	_ "github.com/trimmer-io/go-xmp/models/xmp_base"
	"github.com/trimmer-io/go-xmp/xmp"
)

// doc04 is one of a few documents with symbolic text.
func doc04() *xmp.Document {
	d := xmp.NewDocument()
	v := sym.StringIn(sym.Choose(sym.Bound(3, 4)), "a<&\"\n\u007f")
	switch sym.Choose(3) {
	case 0:
		m, err := dc.MakeModel(d)
		sym.Assert(err == nil, "model")
		m.Format = v
		m.Subject.Add("b" + v)
		m.Title.AddDefault("", "t"+v)
	case 1:
		sym.Assert(d.SetPath(xmp.PathValue{Path: "xmp:Label", Value: "x" + v, Flags: xmp.CREATE}) == nil, "set")
	}
	return d
}

func encode04(d *xmp.Document, flags int, limit int64, indent bool) ([]byte, error) {
	var b bytes.Buffer
	e := xmp.NewEncoder(&b)
	e.SetFlags(flags)
	e.SetMaxSize(limit)
	if indent {
		e.Indent("", " ")
	}
	err := e.Encode(d)
	return b.Bytes(), err
}

// C04_limit: every limit up to more than the size of the document.
func C04_limit() {
	d := doc04()
	flags := []int{0, xmp.Xpacket, xmp.Xpadding, xmp.Xpacket | xmp.Xpadding}[sym.Choose(4)]
	indent := sym.Choose(2) == 1
	full, err := encode04(d, flags, 0, indent)
	sym.Assert(err == nil, "encode without limit")
	n := len(full)
	// every limit near an edge, coarser between
	var limit int
	switch sym.Choose(3) {
	case 0:
		limit = 1 + sym.Choose(sym.Bound(30, 120))
	case 1:
		limit = n - sym.Bound(40, 120) + sym.Choose(sym.Bound(160, 700))
	default:
		limit = 1 + sym.Choose(n/sym.Bound(31, 7)+1)*sym.Bound(31, 7)
	}
	out, err := encode04(d, flags, int64(limit), indent)
	sym.Assert(len(out) <= limit, "no more bytes than the limit")
	if n > limit {
		sym.Assert(err == xmp.ErrOverflow, "a document that does not fit is reported")
		return
	}
	sym.Assert(err == nil, "a document that fits is written")
	if flags != xmp.Xpacket|xmp.Xpadding {
		sym.Assert(string(out) == string(full), "same bytes as without limit")
		return
	}
	sym.Assert(len(out) == limit, "padded to the limit")
	sym.Assert(string(out[:n-20]) == string(full[:n-20]), "document is written first")
	sym.Assert(string(out[limit-20:]) == string(full[n-20:]), "trailer is written last")
	for _, c := range out[n-20 : limit-20] {
		sym.Assert(c == ' ' || c == '\n', "padding is white space")
	}
	sym.Reach("limit")
}

// C04_parse: the padded packet is found and parsed like the document itself.
func C04_parse() {
	d := doc04()
	full, err := encode04(d, xmp.Xpacket, 0, false)
	sym.Assert(err == nil, "encode without limit")
	limit := int64(len(full) + []int{0, 1, 2, 79, 80, 81, 82, 500, 5000}[sym.Choose(9)])
	out, err := encode04(d, xmp.Xpacket|xmp.Xpadding, limit, false)
	sym.Assert(err == nil && int64(len(out)) == limit, "encode")
	p, err := xmp.ScanPackets(bytes.NewReader(append([]byte("xx"), out...)))
	sym.Assert(err == nil && len(p) == 1, "packet is found")
	sym.Assert(bytes.Contains(out, p[0]) && len(p[0]) >= int(limit)-1, "whole packet is found")
	a, b := &xmp.Document{}, &xmp.Document{}
	sym.Assert(xmp.Unmarshal(full, a) == nil, "unmarshal")
	sym.Assert(xmp.Unmarshal(out, b) == nil, "unmarshal padded")
	la, err := a.ListPaths()
	sym.Assert(err == nil, "list")
	lb, err := b.ListPaths()
	sym.Assert(err == nil && len(la) == len(lb), "list padded")
	for i := range la {
		sym.Assert(la[i].Path == lb[i].Path && la[i].Value == lb[i].Value, "same paths and values")
	}
	sym.Reach("parse")
}

// C04_again: the limit is for one document, also when an encoder is used again.
func C04_again() {
	d := doc04()
	full, err := encode04(d, xmp.Xpacket, 0, false)
	sym.Assert(err == nil, "encode without limit")
	var b bytes.Buffer
	e := xmp.NewEncoder(&b)
	flags := []int{xmp.Xpacket, xmp.Xpacket | xmp.Xpadding}[sym.Choose(2)]
	e.SetFlags(flags)
	limit := len(full) + []int{0, 1, 100}[sym.Choose(3)]
	e.SetMaxSize(int64(limit))
	sym.Assert(e.Encode(d) == nil, "first")
	n := b.Len()
	sym.Assert(e.Encode(d) == nil, "second")
	sym.Assert(b.Len() == 2*n, "same length")
	out := b.Bytes()
	sym.Assert(string(out[:n]) == string(out[n:]), "same bytes")
	if flags&xmp.Xpadding != 0 {
		sym.Assert(n == limit, "padded to the limit")
	}
	sym.Reach("again")
}
