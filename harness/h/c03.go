package h

import (
	"bytes"
	"io"
	"strings"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// chunks03 hands out data in pieces.
type chunks03 struct {
	data []byte
	step []int // sizes of reads, the last one is repeated
	eof  bool  // report the end together with the last bytes
}

func (r *chunks03) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.step[0]
	if len(r.step) > 1 {
		r.step = r.step[1:]
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.eof && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func reader03(data []byte) io.Reader {
	steps := [][]int{{1}, {2}, {7}, {1 << 20}, {3, 14, 1, 40, 5}, {16, 0, 15}}
	return &chunks03{data: data, step: steps[sym.Choose(len(steps))], eof: sym.Choose(2) == 1}
}

func same03(got [][]byte, err error, want []string) {
	if len(want) == 0 {
		sym.Assert(err == io.EOF && len(got) == 0, "no packet is reported as such")
		return
	}
	sym.Assert(err == nil, "scan succeeds")
	sym.Assert(len(got) == len(want), "number of packets")
	for i := range want {
		sym.Assert(string(got[i]) == want[i], "packet is found byte for byte")
	}
}

const (
	head03  = "<?xpacket begin=\"\ufeff\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>"
	trail03 = `<?xpacket end="w"?>`
)

// C03_tokens: every sequence of complete, truncated and wrong packet parts.
func C03_tokens() {
	// kind: B begin, E end, x other
	tokens := []string{
		head03, trail03, "a<b>",
		`<?xpacket begin="" id="other"?>`,
		`<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'`,
		`<?xpacket end="w"`, "<?xpacket ",
	}
	n := 1 + sym.Choose(sym.Bound(5, 6))
	var data []byte
	begin := -1
	var want []string
	for i := 0; i < n; i++ {
		k := sym.Choose(len(tokens))
		pos := len(data)
		data = append(data, tokens[k]...)
		switch k {
		case 0:
			begin = pos
		case 1:
			if begin > -1 {
				want = append(want, string(data[begin:]))
			}
			begin = -1
		}
	}
	got, err := xmp.ScanPackets(&chunks03{data: data, step: [][]int{{1}, {1 << 20}, {17}}[sym.Choose(3)]})
	same03(got, err, want)
	sym.Reach("tokens")
}

// C03_bytes: any bytes around and within packets, any reader.
func C03_bytes() {
	n := sym.Bound(6, 9)
	junk := func() string { return sym.String(sym.Choose(n)) }
	a, b, c := "", "", ""
	in := "<a/>"
	switch sym.Choose(4) {
	case 0:
		a = junk()
	case 1:
		b = junk()
	case 2:
		c = junk()
	default:
		in = "<a>" + sym.String(sym.Bound(5, 8)) + "</a>"
	}
	p := head03 + in + trail03
	q := "<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><?xpacket end='r'?>"
	data := a + p + b + q + c
	got, err := xmp.ScanPackets(reader03([]byte(data)))
	same03(got, err, []string{p, q})
	sym.Reach("bytes")
}

// C03_header: attributes and quoting of header and trailer.
func C03_header() {
	quotes := []string{`"`, `'`}
	q, r := quotes[sym.Choose(2)], quotes[sym.Choose(2)]
	bom := []string{"", "\ufeff", sym.StringIn(3, "ab\xef\xbb\xbf ")}[sym.Choose(3)]
	extra := []string{"", " bytes=" + r + "1024" + r, " encoding=" + q + sym.StringIn(4, "UTF-816"+"=") + q, " x=" + r + "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" + r}
	e, f := extra[sym.Choose(len(extra))], extra[sym.Choose(2)]
	id := " id=" + r + "W5M0MpCehiHzreSzNTczkc9d" + r
	p := "<?xpacket begin=" + q + bom + q
	if sym.Choose(2) == 0 {
		p += id + e
	} else {
		p += e + id
	}
	p += f + []string{"", " "}[sym.Choose(2)] + "?>"
	p += "<x/>"
	p += "<?xpacket end=" + q + sym.StringIn(1, "wr") + q + []string{"", " "}[sym.Choose(2)] + "?>"
	got, err := xmp.ScanPackets(bytes.NewReader([]byte("xx" + p + "yy")))
	same03(got, err, []string{p})
	sym.Reach("header")
}

// C03_noise: streams of any bytes have no packet and do not panic.
func C03_noise() {
	pre := []string{"", "<?xpacket begi", "<?xpacket begin", "<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?><?xpacket en"}[sym.Choose(4)]
	post := []string{"", trail03, "<?xpacket end"}[sym.Choose(3)]
	data := pre + sym.String(sym.Choose(sym.Bound(7, 10))) + post
	got, err := xmp.ScanPackets(reader03([]byte(data)))
	if err == nil {
		for _, p := range got {
			sym.Assert(len(p) > 50 && string(p[:15]) == "<?xpacket begin" && string(p[len(p)-2:]) == "?>", "only packets are found")
		}
	} else {
		sym.Assert(err == io.EOF && len(got) == 0, "no packet is reported as such")
	}
	sym.Reach("noise")
}

// C03_cut: streams that end anywhere.
func C03_cut() {
	p := head03 + "<x/>" + trail03
	data := "ab" + p + "c" + p
	n := sym.Choose(len(data) + 1)
	var want []string
	if n >= 2+len(p) {
		want = append(want, p)
	}
	if n >= 3+2*len(p) {
		want = append(want, p)
	}
	got, err := xmp.ScanPackets(reader03([]byte(data[:n])))
	same03(got, err, want)
	sym.Reach("cut")
}

// C03_long: packets longer than any buffer.
func C03_long() {
	sizes := []int{4000, 4096, 8192, 65536, 70000, 300000}
	n := sizes[sym.Choose(sym.Bound(5, len(sizes)))] + sym.Choose(3) - 1
	body := bytes.Repeat([]byte("<ab/>"), n/5+1)[:n]
	p := head03 + string(body) + trail03
	before := bytes.Repeat([]byte{'x'}, []int{0, 4090, 65530}[sym.Choose(3)]+sym.Choose(2))
	data := append(append(before, p...), "junk"...)
	got, err := xmp.ScanPackets(&chunks03{data: data, step: [][]int{{4096}, {1 << 20}, {1000}}[sym.Choose(3)]})
	same03(got, err, []string{p})
	sym.Reach("long")
}

// C03_scan: the document of the first packet.
func C03_scan() {
	v := sym.StringIn(sym.Choose(3), "ab&;<")
	var esc []byte
	for i := 0; i < len(v); i++ {
		switch v[i] {
		case '<':
			esc = append(esc, "&lt;"...)
		case '&':
			esc = append(esc, "&amp;"...)
		default:
			esc = append(esc, v[i])
		}
	}
	doc := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:photoshop="http://ns.adobe.com/photoshop/1.0/"><photoshop:City>` + string(esc) + `</photoshop:City></rdf:Description></rdf:RDF></x:xmpmeta>`
	other := `<x:xmpmeta xmlns:x="adobe:ns:meta/"/>`
	data := "JFIF" + head03 + doc + trail03 + "data" + head03 + other + trail03
	d, err := xmp.Scan(reader03([]byte(data)))
	sym.Assert(err == nil, "scan")
	got, err := d.GetPath("photoshop:City")
	sym.Assert(err == nil && got == v, "value of the first packet")
	d, err = xmp.Read(strings.NewReader(head03 + doc + trail03))
	sym.Assert(err == nil, "read")
	got, err = d.GetPath("photoshop:City")
	sym.Assert(err == nil && got == v, "value of the document read")
	_, err = xmp.Scan(reader03([]byte("JFIF" + doc)))
	sym.Assert(err == io.EOF, "no packet is reported as such")
	sym.Reach("scan")
}
