package h

import (
	"encoding/json"
	"encoding/xml"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// rate12 is a frame rate: none, or a positive rate on a positive base.
func rate12() xmpdm.FrameRate {
	switch sym.Choose(4) {
	case 0:
		return xmpdm.FrameRate{}
	case 1:
		r := sym.Int64()
		sym.Assume(r > 0)
		return xmpdm.FrameRate{Rate: r, Base: 1}
	case 2:
		b := sym.Int64()
		sym.Assume(b > 0)
		return xmpdm.FrameRate{Rate: 30000, Base: b}
	default:
		r := sym.Int64()
		sym.Assume(r > 0)
		return xmpdm.FrameRate{Rate: r, Base: 1001}
	}
}

// sameRate: no rate means seconds.
func sameRate(a, b xmpdm.FrameRate) bool {
	if a.IsZero() {
		a = xmpdm.FrameRate{Rate: 1, Base: 1}
	}
	if b.IsZero() {
		b = xmpdm.FrameRate{Rate: 1, Base: 1}
	}
	return a == b
}

func sameCount(a, b xmpdm.FrameCount) bool {
	if a.Count != b.Count {
		return false
	}
	return a.Count == -1 || sameRate(a.Rate, b.Rate) // -1 is the maximum in any rate
}

func C12_rate() {
	r := rate12()
	b, err := r.MarshalText()
	sym.Assert(err == nil, "marshal")
	if !r.IsZero() {
		x := xmpdm.FrameRate{Rate: 3, Base: 3}
		sym.Assert(x.UnmarshalText(b) == nil, "printed rate is accepted")
		sym.Assert(x == r, "text round trip")
		sym.Assert(string(b) == r.String(), "string")
	}
	var tr xmpdm.Track
	tr.FrameRate = r
	j, err := json.Marshal(tr)
	sym.Assert(err == nil, "marshal track")
	var t2 xmpdm.Track
	sym.Assert(json.Unmarshal(j, &t2) == nil, "unmarshal track")
	sym.Assert(sameRate(t2.FrameRate, r) || r.IsZero() && t2.FrameRate.IsZero(), "json round trip")
	sym.Reach("rate")
}

// C12_ratetext: texts of up to six characters are either rejected or denote
// the numbers they spell.
func C12_ratetext() {
	n := sym.Choose(sym.Bound(6, 8))
	s := "f" + sym.StringIn(n, "0123456789sf-+d")
	var x xmpdm.FrameRate
	err := x.UnmarshalText([]byte(s))
	i, ns := 1, 0
	ok := true
	for k := 1; k < len(s); k++ {
		if s[k] == 's' {
			ns++
		}
	}
	var nums [2]int64
	for k := 0; k <= ns && k < 2; k++ {
		var v int64
		v, i, ok = num12(s, i)
		if !ok {
			break
		}
		nums[k] = v
		i++
	}
	if !ok || ns > 1 {
		sym.Assert(err != nil, "malformed rate is rejected")
		return
	}
	if ns == 1 && nums[1] == 0 || ns == 0 {
		nums[1] = 1
	}
	sym.Assert(err == nil, "rate is accepted")
	sym.Assert(x.Rate == nums[0] && x.Base == nums[1], "rate value")
	sym.Reach("ratetext")
}

// num12 reads a decimal integer ending at an 's' or at the end of the text.
func num12(s string, i int) (int64, int, bool) {
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	var v int64
	n := 0
	for i < len(s) && s[i] != 's' {
		if s[i] < '0' || s[i] > '9' {
			return 0, i, false
		}
		v = v*10 + int64(s[i]-'0')
		i++
		n++
	}
	if neg {
		v = -v
	}
	return v, i, n > 0
}

// count12 is a frame count: maximum, or any other number of frames.
func count12() xmpdm.FrameCount {
	if sym.Choose(2) == 0 {
		return xmpdm.FrameCount{Count: sym.Int64(), Rate: smallRate()}
	}
	return xmpdm.FrameCount{Count: int64(sym.Choose(4)-1) * 12345, Rate: rate12()}
}

func smallRate() xmpdm.FrameRate {
	switch sym.Choose(3) {
	case 0:
		return xmpdm.FrameRate{}
	case 1:
		return xmpdm.FrameRate{Rate: 25, Base: 1}
	}
	return xmpdm.FrameRate{Rate: 30000, Base: 1001}
}

// small count: every shape of text with a one digit number.
func smallCount() xmpdm.FrameCount {
	return xmpdm.FrameCount{Count: int64(sym.IntIn(-1, 9)), Rate: smallRate()}
}

func C12_count() {
	full := sym.Choose(2) == 0
	c := smallCount()
	if full {
		c = count12()
	}
	b, err := c.MarshalText()
	sym.Assert(err == nil, "marshal")
	x := xmpdm.FrameCount{Count: 3, Rate: xmpdm.FrameRate{Rate: 3, Base: 3}}
	sym.Assert(x.UnmarshalText(b) == nil, "printed count is accepted")
	sym.Assert(sameCount(x, c), "text round trip")
	sym.Assert(string(b) == c.String(), "string")
	if !full {
		b2, _ := x.MarshalText()
		sym.Assert(string(b2) == string(b) || c.Rate.IsZero(), "canonical text is kept")
	}
	sym.Reach("count")
}

// C12_order: counts in one rate are ordered by their number, maximum is last;
// counts in different rates are ordered by time.
func C12_order() {
	a, b := sym.Int64(), sym.Int64()
	sym.Assume(a >= -1 && b >= -1)
	r := smallRate()
	x, y := xmpdm.FrameCount{Count: a, Rate: r}, xmpdm.FrameCount{Count: b, Rate: r}
	var want bool
	switch {
	case a == -1:
		want = false
	case b == -1:
		want = true
	default:
		want = a < b
	}
	sym.Assert(x.IsSmaller(y) == want, "order in one rate")
	sym.Reach("order")
}

func C12_orderrates() {
	rs := []xmpdm.FrameRate{{Rate: 25, Base: 1}, {Rate: 50, Base: 1}, {Rate: 30000, Base: 1001}, {Rate: 1, Base: 1}, {}}
	// the order is computed in floating point: counts next to each other in time
	counts := []int64{-1, 0, 1, 2, 25, 30, 50, 1001, 30000, 60000, 1 << 28}
	a, b := counts[sym.Choose(len(counts))], counts[sym.Choose(len(counts))]
	p, q := rs[sym.Choose(len(rs))], rs[sym.Choose(len(rs))]
	x, y := xmpdm.FrameCount{Count: a, Rate: p}, xmpdm.FrameCount{Count: b, Rate: q}
	if p.IsZero() {
		p = xmpdm.FrameRate{Rate: 1, Base: 1}
	}
	if q.IsZero() {
		q = xmpdm.FrameRate{Rate: 1, Base: 1}
	}
	want := a*p.Base*q.Rate < b*q.Base*p.Rate
	if a == -1 {
		want = false
	} else if b == -1 {
		want = true
	}
	sym.Assert(x.IsSmaller(y) == want, "order by time")
	sym.Reach("orderrates")
}

func path12() string {
	switch sym.Choose(5) {
	case 0:
		return ""
	case 1:
		return "/"
	case 2:
		return "/" + sym.StringIn(2, "a/dr:.")
	case 3:
		return "/time:" + sym.StringIn(1, "5d/") + "/v"
	}
	return "/content/" + sym.StringIn(1, "tdrf") + "ime"
}

// samePath: a slash at either end does not matter.
func cleanPath(s string) string {
	for len(s) > 0 && s[0] == '/' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	return s
}

func samePart(a, b xmpdm.Part) bool {
	return cleanPath(a.Path) == cleanPath(b.Path) && sameCount(a.Start, b.Start) && sameCount(a.Duration, b.Duration)
}

func C12_part() {
	p := xmpdm.Part{Path: path12()}
	if sym.Choose(2) == 1 {
		p.Start = smallCount()
	}
	if sym.Choose(2) == 1 {
		p.Duration = smallCount()
	}
	b, err := p.MarshalText()
	sym.Assert(err == nil, "marshal")
	sym.Note("text", string(b))
	var x xmpdm.Part
	sym.Assert(x.UnmarshalText(b) == nil, "printed part is accepted")
	sym.Assert(samePart(x, p), "text round trip")
	b2, err := x.MarshalText()
	sym.Assert(err == nil, "marshal again")
	sym.Assert(string(b2) == string(b) || p.Start.Rate.IsZero() || p.Duration.Rate.IsZero(), "canonical text is kept")
	sym.Reach("part")
}

// C12_partcounts: full width numbers in a part.
func C12_partcounts() {
	p := xmpdm.Part{Path: "/a"}
	switch sym.Choose(3) {
	case 0:
		p.Start = count12()
	case 1:
		p.Duration = count12()
	default:
		p.Start = xmpdm.FrameCount{Count: sym.Int64(), Rate: xmpdm.FrameRate{Rate: 24, Base: 1}}
		p.Duration = xmpdm.FrameCount{Count: sym.Int64(), Rate: xmpdm.FrameRate{Rate: 24, Base: 1}}
	}
	b, err := p.MarshalText()
	sym.Assert(err == nil, "marshal")
	var x xmpdm.Part
	sym.Assert(x.UnmarshalText(b) == nil, "printed part is accepted")
	sym.Assert(samePart(x, p), "text round trip")
	sym.Reach("partcounts")
}

// C12_range: a range denotes the time between its ends or is rejected.
func C12_range() {
	w := sym.Bound(12, 20)
	a, b := sym.Int64(), sym.Int64()
	sym.Assume(a >= 0 && a < 1<<w && b >= 0 && b < 1<<w)
	rates := []xmpdm.FrameRate{{Rate: 1, Base: 1}, {Rate: 25, Base: 1}, {Rate: 30000, Base: 1001}}
	texts := []string{"", "f25", "f30000s1001"}
	i, k := sym.Choose(len(rates)), sym.Choose(len(rates))
	p, q := rates[i], rates[k]
	var x xmpdm.Part
	err := x.UnmarshalText([]byte("/a/time:" + ltoa(a) + texts[i] + "r" + ltoa(b) + texts[k]))
	d := b*q.Base*p.Rate - a*p.Base*q.Rate // over p.Rate*q.Rate
	if d < 0 {
		sym.Assert(err != nil, "a range that ends before its start is rejected")
		return
	}
	sym.Assert(err == nil, "range is accepted")
	sym.Assert(cleanPath(x.Path) == "a", "path")
	sym.Assert(x.Start.Count == a && x.Start.Rate == p, "start")
	r := x.Duration.Rate
	sym.Assert(r.Rate > 0 && r.Base > 0, "duration has a rate")
	sym.Assert(x.Duration.Count*r.Base*(p.Rate*q.Rate) == d*r.Rate, "duration is the time between the ends")
	sym.Reach("range")
}

func C12_rangefull() {
	a, b := sym.Int64(), sym.Int64()
	sym.Assume(a >= 0 && b >= 0)
	var x xmpdm.Part
	err := x.UnmarshalText([]byte("/a/time:" + ltoa(a) + "f24r" + ltoa(b) + "f24"))
	if b < a {
		sym.Assert(err != nil, "a range that ends before its start is rejected")
		return
	}
	sym.Assert(err == nil, "range is accepted")
	sym.Assert(x.Start.Count == a && x.Duration.Count == b-a && x.Duration.Rate == x.Start.Rate, "duration")
	sym.Reach("rangefull")
}

func C12_rangemax() {
	a := sym.Int64()
	sym.Assume(a >= 0)
	var x xmpdm.Part
	err := x.UnmarshalText([]byte("/a/time:" + ltoa(a) + "f24rmaximum"))
	sym.Assert(err == nil && x.Start.Count == a && x.Duration.Count == -1, "a range to the end has maximum duration")
	sym.Reach("rangemax")
}

// C12_parttext: hostile texts are rejected or denote something printable.
func C12_parttext() {
	s := "/" + sym.StringIn(sym.Choose(sym.Bound(3, 4)), "t:/;") + "time:" + sym.StringIn(sym.Choose(sym.Bound(5, 6)), "059fsdr-")
	var x xmpdm.Part
	if x.UnmarshalText([]byte(s)) != nil {
		return
	}
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	var y xmpdm.Part
	sym.Note("text", s)
	sym.Assert(y.UnmarshalText(b) == nil, "accepted part prints acceptable text")
	sym.Assert(samePart(x, y), "and keeps its meaning")
	sym.Reach("parttext")
}

func C12_partlist() {
	n := sym.Choose(sym.Bound(3, 4))
	l := make(xmpdm.PartList, 0)
	for i := 0; i < n; i++ {
		p := xmpdm.Part{Path: "/" + sym.StringIn(1, "ab")}
		switch sym.Choose(3) {
		case 0:
			p.Duration = xmpdm.FrameCount{Count: int64(sym.IntIn(-1, 9)), Rate: xmpdm.FrameRate{Rate: 25, Base: 1}}
		case 1:
			p.Path = "b"
			p.Start = xmpdm.FrameCount{Count: int64(sym.IntIn(-1, 9)), Rate: xmpdm.FrameRate{Rate: 25, Base: 1}}
		}
		if sym.Choose(2) == 0 {
			l.AddPart(p)
		} else {
			l = append(l, p)
		}
	}
	b, err := l.MarshalText()
	sym.Assert(err == nil && string(b) == l.String(), "marshal")
	x := xmpdm.PartList{{Path: "old"}}
	sym.Assert(x.UnmarshalText(b) == nil, "printed list is accepted")
	sym.Assert(len(x) == len(l), "same number of parts")
	for i := range l {
		sym.Assert(samePart(x[i], l[i]), "same part")
	}
	b2, _ := x.MarshalText()
	sym.Assert(string(b2) == string(b), "canonical text is kept")
	sym.Reach("partlist")
}

// C12_mediatime: times written as attribute denote h:m:s and a fraction.
func C12_mediatime() {
	var b []byte
	var sec int64
	n := 1 + sym.Choose(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ':')
		}
		var v int
		b, v = digits(b, 1+sym.Choose(2))
		sec = sec*60 + int64(v)
	}
	fr := sym.Choose(sym.Bound(6, 12))
	var f int64
	if fr > 0 {
		b = append(b, '.')
		for i := 0; i < fr; i++ {
			if i < fr-2 {
				b = append(b, '0')
				f *= 10
				continue
			}
			c := sym.Byte()
			sym.Assume(c >= '0' && c <= '9')
			b = append(b, c)
			f = f*10 + int64(c-'0')
		}
	}
	var x xmpdm.MediaTime
	err := x.UnmarshalXMPAttr(nil, xmp.Attr{Value: string(b)})
	if err != nil {
		sym.Assert(fr > 9, "time is accepted")
		return
	}
	den := int64(1)
	for i := 0; i < fr; i++ {
		den *= 10
	}
	// x.Value * Num/Den == sec + f/den
	sym.Assert(x.Scale.Num == 1 && x.Scale.Den > 0, "scale")
	if den > x.Scale.Den {
		k := den / x.Scale.Den
		sym.Assert(x.Value*k == sec*den+f, "value")
	} else {
		k := x.Scale.Den / den
		sym.Assert(x.Value == (sec*den+f)*k, "value")
	}
	sym.Reach("mediatime")
}

func C12_mediatext() {
	s := sym.StringIn(sym.Choose(sym.Bound(4, 5)), "059:.-;a")
	var x xmpdm.MediaTime
	err := x.UnmarshalXMPAttr(nil, xmp.Attr{Value: s})
	ok := s != ""
	for i := 0; i < len(s); i++ {
		if s[i] == 'a' || s[i] == ';' || s[i] == '-' && i > 0 {
			ok = false
		}
	}
	if !ok && s != "" {
		sym.Assert(err != nil, "text that is no time is rejected")
	}
	if err == nil && s != "" && s[0] == '-' {
		sym.Assert(x.Value <= 0, "sign")
	}
	if err == nil && s != "" && s[0] != '-' {
		sym.Assert(x.Value >= 0, "sign")
	}
	sym.Reach("mediatext")
}

var formats12 = []xmpdm.TimecodeFormat{
	xmpdm.TimecodeFormat24, xmpdm.TimecodeFormat25, xmpdm.TimecodeFormat2997, xmpdm.TimecodeFormat2997ND,
	xmpdm.TimecodeFormat30, xmpdm.TimecodeFormat50, xmpdm.TimecodeFormat5994, xmpdm.TimecodeFormat5994ND,
	xmpdm.TimecodeFormat60, xmpdm.TimecodeFormat23976,
}

// tc12 is a timecode with one number of any value.
func tc12() xmpdm.Timecode {
	t := xmpdm.Timecode{Format: xmpdm.TimecodeFormat25, H: 1, M: 2, S: 30, F: 4, IsDropFrame: sym.Choose(2) == 1}
	v := sym.Int()
	sym.Assume(v >= 0)
	switch sym.Choose(5) {
	case 0:
		t.H = v
	case 1:
		t.M = v
	case 2:
		t.S = v
	case 3:
		t.F = v
	default:
		sym.Assume(v < 2)
		t.Format = formats12[sym.Choose(len(formats12))]
		t.H, t.M, t.S, t.F = 0, 0, 0, v
	}
	return t
}

func sameTc(a, b xmpdm.Timecode) bool {
	return a.Format == b.Format && a.H == b.H && a.M == b.M && a.S == b.S && a.F == b.F && a.IsDropFrame == b.IsDropFrame
}

func C12_timecode() {
	t := tc12()
	x := xmpdm.Timecode{Value: t.String(), Format: t.Format, IsDropFrame: t.IsDropFrame}
	sym.Assert(x.Unpack() == nil, "printed timecode is accepted")
	sym.Assert(sameTc(x, t), "text round trip")
	sym.Assert(x.String() == t.String(), "canonical text is kept")
	sym.Reach("timecode")
}

func C12_timecodejson() {
	t := tc12()
	old := sym.Choose(3)
	switch old {
	case 1:
		t.Value = t.String()
	case 2:
		t.Value = "01:02:03:04" // out of date
		sym.Assume(t.H != 0 || t.M != 0 || t.S != 0 || t.F != 0)
	}
	j, err := json.Marshal(t)
	sym.Assert(err == nil, "marshal")
	x := xmpdm.Timecode{Value: "07:07:07:07", H: 7, M: 7, S: 7, F: 7}
	sym.Assert(json.Unmarshal(j, &x) == nil, "unmarshal")
	sym.Assert(sameTc(x, t), "json round trip")
	sym.Assert(x.Value == t.String(), "value is the text")
	sym.Reach("timecodejson")
}

// C12_timecodetext: a timecode given as text only keeps that text.
func C12_timecodetext() {
	var b []byte
	sep := []byte{':', ';'}[sym.Choose(2)]
	for i := 0; i < 4; i++ {
		if i > 0 {
			b = append(b, sep)
		}
		b, _ = digits(b, 2)
	}
	t := xmpdm.Timecode{Format: xmpdm.TimecodeFormat25, Value: string(b)}
	if sym.Choose(2) == 1 {
		j, err := json.Marshal(t)
		sym.Assert(err == nil, "marshal json")
		var x xmpdm.Timecode
		sym.Assert(json.Unmarshal(j, &x) == nil, "unmarshal json")
		sym.Assert(x.Value == string(b) && x.Format == t.Format && x.IsDropFrame == (sep == ';'), "json round trip")
		sym.Assert(x.String() == string(b), "fields")
	} else {
		d := xmp.NewDocument()
		m, err := xmpdm.MakeModel(d)
		sym.Assert(err == nil, "model")
		m.StartTimecode = t
		data, err := xmp.Marshal(d)
		sym.Assert(err == nil, "marshal xml")
		d2 := &xmp.Document{}
		sym.Assert(xmp.Unmarshal(data, d2) == nil, "unmarshal xml")
		m2 := xmpdm.FindModel(d2)
		sym.Assert(m2 != nil, "model is there")
		x := m2.StartTimecode
		sym.Assert(x.Value == string(b) && x.Format == t.Format && x.IsDropFrame == (sep == ';'), "xml round trip")
		sym.Assert(x.String() == string(b), "fields")
	}
	sym.Reach("timecodetext")
}

// C12_samples: the timecode of a sample position is its time of day.
func C12_samples() {
	rates := []int{44100, 48000, 96000, 192000}
	fps := []xmp.Rational{{Num: 24, Den: 1}, {Num: 25, Den: 1}, {Num: 30, Den: 1}, {Num: 50, Den: 1}, {Num: 60, Den: 1}}
	want := []xmpdm.TimecodeFormat{xmpdm.TimecodeFormat24, xmpdm.TimecodeFormat25, xmpdm.TimecodeFormat30, xmpdm.TimecodeFormat50, xmpdm.TimecodeFormat60}
	rate := rates[sym.Choose(len(rates))]
	k := sym.Choose(len(fps))
	// any position within some seconds, or the start of any second
	var sec, rest, pos int
	hi := 0
	if sym.Choose(2) == 0 {
		secs := []int{0, 1, 59, 60, 3599, 3600, 36061, 43199, 86399}
		sec = secs[sym.Choose(len(secs))]
		rest = sym.IntIn(0, rate-1)
		base := sec * rate
		hi = base >> 32
		pos = base - hi<<32 + rest
		sym.Assume(pos < 1<<32)
	} else {
		first := []int{0, 3590, 35950, 86340}[sym.Choose(4)]
		sec = sym.IntIn(first, first+sym.Bound(19, 59))
		hi = first * rate >> 32
		pos = sec*rate - hi<<32
		sym.Assume(pos >= 0 && pos < 1<<32)
	}
	s := ixml.Speed{TimecodeRate: fps[k], TimestampSampleRate: rate, TimestampSamplesSinceMidnightHI: hi, TimestampSamplesSinceMidnightLO: pos}
	t := s.XmpTimecode()
	sym.Assert(t.Format == want[k], "format")
	sym.Assert(t.H*3600+t.M*60+t.S == sec, "time of day")
	sym.Assert(t.M >= 0 && t.M < 60 && t.S >= 0 && t.S < 60, "fields in range")
	f := int(fps[k].Num)
	sym.Assert(t.F >= 0 && t.F < f, "frame in range")
	// frame F starts at F/f seconds
	sym.Assert(t.F*rate <= rest*f && rest*f < (t.F+1)*rate, "frame")
	sym.Assert(t.Value == t.String(), "text")
	sym.Reach("samples")
}

// C12_tcformat: timecode formats of the named rates, with and without drop frames.
func C12_tcformat() {
	rates := []xmp.Rational{{Num: 24000, Den: 1001}, {Num: 24, Den: 1}, {Num: 25, Den: 1}, {Num: 30000, Den: 1001}, {Num: 30, Den: 1}, {Num: 50, Den: 1}, {Num: 60000, Den: 1001}, {Num: 60, Den: 1}, {Num: 7, Den: 0}, {Num: 0, Den: 7}}
	nd := []xmpdm.TimecodeFormat{xmpdm.TimecodeFormat23976, xmpdm.TimecodeFormat24, xmpdm.TimecodeFormat25, xmpdm.TimecodeFormat2997ND, xmpdm.TimecodeFormat30, xmpdm.TimecodeFormat50, xmpdm.TimecodeFormat5994ND, xmpdm.TimecodeFormat60, "", ""}
	i := sym.Choose(len(rates))
	drop := sym.Choose(2) == 1
	want := nd[i]
	if drop {
		switch i {
		case 3:
			want = xmpdm.TimecodeFormat2997
		case 6:
			want = xmpdm.TimecodeFormat5994
		}
	}
	sym.Assert(xmpdm.ParseTimecodeFormat(rates[i].Value(), drop) == want, "format")
	sym.Reach("tcformat")
}

// C12_nodiv: no speed section divides by zero.
func C12_nodiv() {
	s := ixml.Speed{TimecodeFlag: ixml.TimecodeFlagDF}
	s.TimecodeRate = []xmp.Rational{{}, {Num: 25, Den: 1}, {Num: -25, Den: 1}, {Num: 1, Den: 10000}, {Num: 5, Den: 0}}[sym.Choose(5)]
	s.TimestampSampleRate = []int{0, 1, -1, 48000}[sym.Choose(4)]
	s.TimestampSamplesSinceMidnightHI = sym.Choose(4) - 1
	s.TimestampSamplesSinceMidnightLO = []int{-1, 0, 1, 100, 1 << 32}[sym.Choose(5)]
	t := s.XmpTimecode()
	sym.Assert(t.Value == "" || t.Value == t.String(), "text")
	sym.Reach("nodiv")
}

// C12_framerate: video frame rates given as text.
func C12_framerate() {
	n := sym.IntIn(1, sym.Bound(30, 120))
	texts := []string{itoa(n), itoa(n) + "/1", itoa(2*n) + "/2", itoa(n) + "fps", itoa(n) + " fps", itoa(n) + "p", itoa(n) + "i", itoa(n) + ".0"}
	var x xmpdm.VideoFrameRate
	sym.Assert(x.UnmarshalText([]byte(texts[sym.Choose(len(texts))])) == nil, "rate is accepted")
	sym.Assert(x == xmpdm.VideoFrameRate(n), "rate")
	sym.Reach("framerate")
}

func C12_frameratetext() {
	s := sym.StringIn(sym.Choose(sym.Bound(3, 5)), "05/.p ")
	x := xmpdm.VideoFrameRate(3)
	err := x.UnmarshalText([]byte(s))
	sym.Assert(err == nil || x == 3, "value unchanged on error")
	sym.Assert(x == x, "a number")
	sym.Assert(x-x == 0, "a finite number")
	sym.Reach("frameratetext")
}

func C12_sort() {
	n := sym.Bound(3, 4)
	l := make(xmpdm.MarkerList, n)
	for i := range l {
		c := sym.Int64()
		sym.Assume(c >= -1)
		l[i] = xmpdm.Marker{Name: string(rune('a' + i)), StartTime: xmpdm.FrameCount{Count: c, Rate: xmpdm.FrameRate{Rate: 25, Base: 1}}}
	}
	before := append(xmpdm.MarkerList{}, l...)
	l.Sort()
	for i := 1; i < n; i++ {
		sym.Assert(!l[i].StartTime.IsSmaller(l[i-1].StartTime), "markers are in order of time")
	}
	for i := range before {
		k := 0
		for j := range l {
			if l[j].Name == before[i].Name && l[j].StartTime == before[i].StartTime {
				k++
			}
		}
		sym.Assert(k == 1, "every marker is kept once")
	}
	sym.Reach("sort")
}

// C12_types: marker types as attribute text.
func C12_types() {
	ts := []xmpdm.MarkerType{"Chapter", "Cue", "Index", "Speech", "Track"}
	n := 1 + sym.Choose(3)
	l := make(xmpdm.MarkerTypeList, n)
	for i := range l {
		l[i] = ts[sym.Choose(len(ts))]
	}
	a, err := l.MarshalXMPAttr(nil, xmlName(), nil)
	sym.Assert(err == nil, "marshal")
	x := xmpdm.MarkerTypeList{}
	if sym.Choose(2) == 1 {
		x = append(x, "Old")
	}
	sym.Assert(x.UnmarshalXMPAttr(nil, a) == nil, "unmarshal")
	sym.Assert(len(x) == len(l), "number of types")
	for i := range l {
		sym.Assert(x[i] == l[i], "type")
	}
	for _, t := range ts {
		in := false
		for _, v := range l {
			if v == t {
				in = true
			}
		}
		sym.Assert(l.Contains(t) == in, "contains")
	}
	sym.Reach("types")
}

func xmlName() xml.Name { return xml.Name{Local: "xmpDM:type"} }
