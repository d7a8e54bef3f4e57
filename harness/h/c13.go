package h

import (
	"strings"
	"time"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	"github.com/trimmer-io/go-xmp/xmp"
)

// C13_bytearray: every array of bytes.
func C13_bytearray() {
	n := 1 + sym.Choose(sym.Bound(3, 4))
	x := make(exif.ByteArray, n)
	for i := range x {
		x[i] = sym.Byte()
	}
	b, err := x.MarshalText()
	sym.Assert(err == nil && string(b) == x.String(), "marshal")
	y := exif.ByteArray{1, 2, 3, 4, 5, 6, 7, 8, 9}
	sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(len(y) == n, "length")
	for i := range x {
		sym.Assert(y[i] == x[i], "byte")
	}
	sym.Reach("bytearray")
}

// C13_bytetext: numbers that are no bytes are rejected.
func C13_bytetext() {
	v := sym.Int64()
	var y exif.ByteArray
	err := y.UnmarshalText([]byte("1 " + ltoa(v)))
	if v < 0 || v > 255 {
		sym.Assert(err != nil, "a number that is no byte is rejected")
	} else {
		sym.Assert(err == nil && len(y) == 2 && y[0] == 1 && int64(y[1]) == v, "a byte is kept")
	}
	sym.Reach("bytetext")
}

// words joins words with white space.
func join13(l []string) string {
	return strings.Join(l, []string{" ", "  ", "\n"}[sym.Choose(3)])
}

// C13_oecf: columns, rows, column names, values.
func C13_oecf() {
	c, r := sym.IntIn(0, 2), sym.IntIn(0, 2)
	l := []string{itoa(c), itoa(r)}
	var names []string
	for i := 0; i < c; i++ {
		names = append(names, sym.StringIn(1, "aZ7/"))
	}
	l = append(l, names...)
	var vals []int64
	for i := 0; i < c*r; i++ {
		v := int64(sym.IntIn(-9, 9))
		vals = append(vals, v)
		l = append(l, ltoa(v)+"/"+itoa(i+1))
	}
	var x exif.OECF
	sym.Assert(x.UnmarshalText([]byte(join13(l))) == nil, "table is accepted")
	sym.Assert(x.Columns == c && x.Rows == r, "size")
	sym.Assert(len(x.Names) == len(names), "number of names")
	for i := range names {
		sym.Assert(x.Names[i] == names[i], "name")
	}
	sym.Assert(len(x.Values) == len(vals), "number of values")
	for i := range vals {
		sym.Assert(x.Values[i].Num == vals[i] && x.Values[i].Den == int64(i+1), "value")
	}
	sym.Reach("oecf")
}

// C13_tablesize: any claimed size is rejected or kept, never a panic.
func C13_tablesize() {
	c, r := sym.Int64(), int64(1)
	if sym.Choose(2) == 1 {
		c, r = r, c
	}
	t := []byte(ltoa(c) + " " + ltoa(r))
	neg := c < 0 || r < 0
	switch sym.Choose(3) {
	case 0:
		var x exif.OECF
		err := x.UnmarshalText(t)
		sym.Assert((err != nil) == neg, "negative sizes are rejected")
		sym.Assert(neg || int64(x.Columns) == c && int64(x.Rows) == r, "size")
	case 1:
		var x exif.CFAPattern
		err := x.UnmarshalText(t)
		sym.Assert((err != nil) == neg, "negative sizes are rejected")
		sym.Assert(neg || int64(x.Columns) == c && int64(x.Rows) == r, "size")
	default:
		var x exif.DeviceSettings
		err := x.UnmarshalText(t)
		sym.Assert((err != nil) == neg, "negative sizes are rejected")
		sym.Assert(neg || int64(x.Columns) == c && int64(x.Rows) == r, "size")
	}
	sym.Reach("tablesize")
}

// C13_cfa: columns, rows, bytes.
func C13_cfa() {
	n := sym.Choose(4)
	l := []string{"2", itoa(n)}
	var vals []byte
	for i := 0; i < n; i++ {
		v := sym.Byte()
		vals = append(vals, v)
		l = append(l, itoa(int(v)))
	}
	x := exif.CFAPattern{Values: exif.ByteArray{7}}
	sym.Assert(x.UnmarshalText([]byte(join13(l))) == nil, "pattern is accepted")
	sym.Assert(x.Columns == 2 && x.Rows == n && len(x.Values) == n, "size")
	for i := range vals {
		sym.Assert(x.Values[i] == vals[i], "value")
	}
	sym.Reach("cfa")
}

func C13_devicesettings() {
	n := sym.Choose(4)
	l := []string{itoa(n), "1"}
	var vals []string
	for i := 0; i < n; i++ {
		v := sym.StringIn(1+sym.Choose(2), printable[1:])
		vals = append(vals, v)
		l = append(l, v)
	}
	x := exif.DeviceSettings{Values: xmp.StringArray{"old"}}
	sym.Assert(x.UnmarshalText([]byte(join13(l))) == nil, "settings are accepted")
	sym.Assert(x.Columns == n && x.Rows == 1 && len(x.Values) == n, "size")
	for i := range vals {
		sym.Assert(x.Values[i] == vals[i], "value")
	}
	sym.Reach("devicesettings")
}

// C13_flash: the bits of the flash number, and back through XML and JSON.
func C13_flash() {
	n := sym.IntIn(0, 127)
	x := exif.Flash{Mode: 1, Fired: true}
	sym.Assert(x.UnmarshalText([]byte(itoa(n))) == nil, "flash is accepted")
	sym.Assert(x.Fired.Value() == (n%2 == 1), "fired")
	sym.Assert(int(x.Return) == n/2%4, "return")
	sym.Assert(int(x.Mode) == n/8%4, "mode")
	sym.Assert(x.Function.Value() == (n/32%2 == 1), "function")
	sym.Assert(x.RedEyeMode.Value() == (n/64%2 == 1), "red eye mode")
	sym.Assert(x.IsZero() == (n == 0), "zero")
	sym.Reach("flash")
}

// C13_point: points of both kinds.
func C13_point() {
	x, y := sym.Int64(), sym.Int64()
	if sym.Choose(2) == 0 {
		y = int64(sym.Choose(3)-1) * 1234
	} else {
		x = int64(sym.Choose(3)-1) * 1234
	}
	if sym.Choose(2) == 0 {
		p := crs.Point{X: x, Y: y}
		b, err := p.MarshalText()
		sym.Assert(err == nil, "marshal")
		q := crs.Point{X: 5, Y: 5}
		sym.Assert(q.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(q == p, "round trip")
	} else {
		p := qt.Point{X: int(x), Y: int(y)}
		b, err := p.MarshalText()
		sym.Assert(err == nil, "marshal")
		if p.IsZero() {
			return // not written
		}
		q := qt.Point{X: 5, Y: 5}
		sym.Assert(q.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(q == p, "round trip")
	}
	sym.Reach("point")
}

// C13_pointtext: every separator.
func C13_pointtext() {
	x, y := sym.IntIn(-99, 99), sym.IntIn(-99, 99)
	sep := []string{",", "/", ":", " ", ";"}[sym.Choose(5)]
	var q qt.Point
	sym.Assert(q.UnmarshalText([]byte(itoa(x)+sep+itoa(y))) == nil, "point is accepted")
	sym.Assert(q == qt.Point{X: x, Y: y}, "value")
	b, err := q.MarshalText()
	sym.Assert(err == nil && (q.IsZero() || string(b) == itoa(x)+","+itoa(y)), "text")
	sym.Reach("pointtext")
}

func C13_tracknum() {
	t := id3.TrackNum{Track: sym.Int(), Total: sym.Choose(3) * 77}
	if sym.Choose(2) == 0 {
		t.Track, t.Total = t.Total, t.Track
	}
	b, err := t.MarshalText()
	sym.Assert(err == nil, "marshal")
	x := id3.TrackNum{Track: 5, Total: 5}
	sym.Assert(x.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(x == t, "round trip")
	sym.Reach("tracknum")
}

// C13_tracktext: other texts are rejected.
func C13_tracktext() {
	s := sym.StringIn(sym.Choose(sym.Bound(5, 6)), "059/-a")
	x := id3.TrackNum{Track: 5, Total: 5}
	err := x.UnmarshalText([]byte(s))
	if err != nil {
		sym.Assert(x == id3.TrackNum{Track: 5, Total: 5}, "value unchanged on error")
		return
	}
	// number [/ number]
	i, a, ok := int13(s, 0)
	b := 0
	if ok && i < len(s) && s[i] == '/' {
		i, b, ok = int13(s, i+1)
	}
	sym.Assert(ok && i == len(s), "text that is no track number is rejected")
	sym.Assert(x == id3.TrackNum{Track: a, Total: b}, "value")
	sym.Reach("tracktext")
}

func int13(s string, i int) (int, int, bool) {
	neg := i < len(s) && s[i] == '-'
	if neg {
		i++
	}
	n, v := 0, 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		v = v*10 + int(s[i]-'0')
		n++
		i++
	}
	if neg {
		v = -v
	}
	return i, v, n > 0
}

// C13_genrev1: every genre number has a text that is read as this number.
func C13_genrev1() {
	g := id3.GenreV1(sym.Byte())
	b, err := g.MarshalText()
	sym.Assert(err == nil && string(b) == g.String(), "marshal")
	h := id3.GenreV1(3)
	sym.Assert(h.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(h == g, "round trip")
	sym.Reach("genrev1")
}

func C13_genretext() {
	v := sym.Int64()
	g := id3.GenreV1(3)
	err := g.UnmarshalText([]byte(ltoa(v)))
	if v < 0 || v > 255 {
		sym.Assert(err != nil && g == 3, "a number that is no genre is rejected")
	} else {
		sym.Assert(err == nil && int64(g) == v, "a genre number is kept")
	}
	sym.Reach("genretext")
}

// C13_genre: lists of genre names.
func C13_genre() {
	n := sym.Choose(sym.Bound(3, 4))
	x := make(id3.Genre, 0)
	for i := 0; i < n; i++ {
		switch sym.Choose(4) {
		case 0:
			x = append(x, id3.GenreV1(sym.Choose(sym.Bound(20, 148))).String())
		case 1:
			s := sym.StringIn(2, "aR+-.")
			x = append(x, "g"+s)
		case 2:
			x = append(x, "Remix")
		default:
			x = append(x, "Cover")
		}
	}
	b, err := x.MarshalText()
	sym.Assert(err == nil && string(b) == x.String(), "marshal")
	y := id3.Genre{"Old"}
	sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(len(y) == len(x), "number of genres")
	for i := range x {
		sym.Assert(y[i] == x[i], "genre")
	}
	sym.Reach("genre")
}

// C13_rating: content ratings of both kinds.
func C13_rating() {
	const cs = "a(); "
	f := [4]string{"mpaa", "", "", ""}
	for i := 0; i < 3; i++ {
		if sym.Choose(2) == 1 {
			f[i] = sym.StringIn(sym.Choose(3), cs)
		}
	}
	f[3] = sym.StringIn(sym.Choose(3), cs+"|")
	if sym.Choose(2) == 0 {
		x := itunes.ContentRating{Standard: f[0], Rating: f[1], Score: f[2], Reasons: f[3]}
		b, err := x.MarshalText()
		sym.Assert(err == nil, "marshal")
		y := itunes.ContentRating{Standard: "q", Rating: "q", Score: "q", Reasons: "q"}
		sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(y == x, "round trip")
	} else {
		x := qt.ContentRating{Standard: f[0], Rating: f[1], Score: f[2], Reasons: f[3]}
		b, err := x.MarshalText()
		sym.Assert(err == nil, "marshal")
		y := qt.ContentRating{Standard: "q", Rating: "q", Score: "q", Reasons: "q"}
		sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(y == x, "round trip")
	}
	sym.Reach("rating")
}

// C13_ratingtext: ratings without parentheses or with fewer fields.
func C13_ratingtext() {
	n := 1 + sym.Choose(4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, sym.StringIn(1, "ab"))
	}
	t := strings.Join(l, "|")
	if sym.Choose(2) == 1 {
		t = "(" + t + ")"
	}
	if sym.Choose(2) == 1 {
		t = " " + t + "\n"
	}
	for len(l) < 4 {
		l = append(l, "")
	}
	var x itunes.ContentRating
	sym.Assert(x.UnmarshalText([]byte(t)) == nil, "accepted")
	sym.Assert(x == itunes.ContentRating{Standard: l[0], Rating: l[1], Score: l[2], Reasons: l[3]}, "fields")
	var y qt.ContentRating
	sym.Assert(y.UnmarshalText([]byte(t)) == nil, "accepted")
	sym.Assert(y == qt.ContentRating{Standard: l[0], Rating: l[1], Score: l[2], Reasons: l[3]}, "fields")
	sym.Reach("ratingtext")
}

const hex13 = "0123456789ABCDEF"

// C13_smpb: gapless playback information.
func C13_smpb() {
	v := uint64(0)
	var b []byte
	k := sym.Choose(4)
	n := 8
	if k >= 2 {
		n = 16
	}
	for i := 0; i < n; i++ {
		c := sym.Byte()
		if i < n-4 {
			sym.Assume(c == '0')
		}
		sym.Assume(c >= '0' && c <= '9' || c >= 'A' && c <= 'F')
		b = append(b, c)
		d := uint64(c - '0')
		if c >= 'A' {
			d = uint64(c-'A') + 10
		}
		v = v<<4 | d
	}
	f := []string{"00000000", "00000840", "000001CA", "00000000003F31F6", "00000000", "0000000000000011", "00000000", "00000000", "00000000", "00000000", "00000000", "00000000"}
	want := itunes.SMPB{EncoderDelay: 0x840, EndPadding: 0x1ca, OriginalSampleCount: 0x3f31f6, EndOffset: 0x11}
	switch k {
	case 0:
		f[1], want.EncoderDelay = string(b), int64(v)
	case 1:
		f[2], want.EndPadding = string(b), int64(v)
	case 2:
		f[3], want.OriginalSampleCount = string(b), int64(v)
	default:
		f[5], want.EndOffset = string(b), int64(v)
	}
	x := itunes.SMPB{EndOffset: 7}
	sym.Assert(x.UnmarshalText([]byte(" "+strings.Join(f, " "))) == nil, "accepted")
	sym.Assert(x == want, "fields")
	sym.Reach("smpb")
}

// C13_prefs: photo mechanic preferences.
func C13_prefs() {
	var v [4]int
	for i := range v {
		v[i] = i
	}
	v[sym.Choose(4)] = sym.Int()
	x := pm.Preferences{TagStatus: v[0], ColorClass: v[1], Rating: v[2], Frame: v[3]}
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	y := pm.Preferences{TagStatus: 9, ColorClass: 9, Rating: 9, Frame: 9}
	sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(y == x, "round trip")
	sym.Reach("prefs")
}

func C13_prefstext() {
	s := "1:" + sym.StringIn(sym.Choose(sym.Bound(5, 6)), "05:-a ") + ":3"
	y := pm.Preferences{TagStatus: 9, ColorClass: 9, Rating: 9, Frame: 9}
	err := y.UnmarshalText([]byte(s))
	if err != nil {
		sym.Assert(y == pm.Preferences{TagStatus: 9, ColorClass: 9, Rating: 9, Frame: 9}, "value unchanged on error")
		return
	}
	i, a, ok := int13(s, 2)
	sym.Assert(ok && s[i] == ':', "malformed preferences are rejected")
	j, b, ok := int13(s, i+1)
	sym.Assert(ok && s[j] == ':', "malformed preferences are rejected")
	sym.Assert(j+2 == len(s), "no more than four fields")
	sym.Assert(y == pm.Preferences{TagStatus: 1, ColorClass: a, Rating: b, Frame: 3}, "value")
	sym.Reach("prefstext")
}

// C13_pmtime: clock and zone of photo mechanic times.
func C13_pmtime() {
	f := [4]int{13, 7, 59, 0}
	switch sym.Choose(4) {
	case 0:
		f[0] = sym.IntIn(0, 23)
	case 1:
		f[1] = sym.IntIn(0, 59)
	case 2:
		f[2] = sym.IntIn(0, 59)
	default:
		f[3] = sym.IntIn(-12*60+1, 12*60-1)
	}
	t := time.Date(0, 1, 1, f[0], f[1], f[2], 0, time.FixedZone("", f[3]*60))
	x := pm.Time(t)
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	var y pm.Time
	sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(time.Time(y).Equal(t), "round trip")
	b2, err := y.MarshalText()
	sym.Assert(err == nil && string(b2) == string(b), "canonical text is kept")
	sym.Reach("pmtime")
}

// C13_ixmllists: take types, location types and times.
func C13_ixmllists() {
	n := sym.Choose(sym.Bound(4, 5))
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, []string{"NO_GOOD", "INT", "NIGHT", "x" + sym.StringIn(1, "ab ")}[sym.Choose(4)])
	}
	switch sym.Choose(3) {
	case 0:
		var x ixml.TakeTypeList
		for _, v := range l {
			x = append(x, ixml.TakeType(v))
		}
		b, err := x.MarshalText()
		sym.Assert(err == nil, "marshal")
		y := ixml.TakeTypeList{"OLD"}
		sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(len(y) == len(l), "length")
		for i := range l {
			sym.Assert(y[i] == x[i], "element")
			sym.Assert(y.Contains(x[i]), "contains")
		}
	case 1:
		var x ixml.LocationTypeList
		for _, v := range l {
			x = append(x, ixml.LocationType(v))
		}
		b, err := x.MarshalText()
		sym.Assert(err == nil, "marshal")
		y := ixml.LocationTypeList{"OLD"}
		sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(len(y) == len(l), "length")
		for i := range l {
			sym.Assert(y[i] == x[i], "element")
			sym.Assert(y.Contains(x[i]), "contains")
		}
	default:
		var x ixml.LocationTimeList
		for _, v := range l {
			x = append(x, ixml.LocationTime(v))
		}
		b, err := x.MarshalText()
		sym.Assert(err == nil, "marshal")
		y := ixml.LocationTimeList{"OLD"}
		sym.Assert(y.UnmarshalText(b) == nil, "unmarshal")
		sym.Assert(len(y) == len(l), "length")
		for i := range l {
			sym.Assert(y[i] == x[i], "element")
			sym.Assert(y.Contains(x[i]), "contains")
		}
	}
	sym.Reach("ixmllists")
}

// C13_functions: sets of track functions; predefined sets stay as they are.
func C13_functions() {
	all := ixml.FunctionSetLCRS
	before := append(ixml.FunctionSet{}, all...)
	x := all
	switch sym.Choose(4) {
	case 0:
		x.Sub(ixml.FunctionSetLCR)
	case 1:
		x.Add(ixml.FunctionVideo)
		x.Del(ixml.FunctionVideo)
		sym.Assert(len(x) == len(before), "added and removed")
	case 2:
		f := before[sym.Choose(len(before))]
		x.Del(f)
		sym.Assert(len(x) == len(before)-1 && !x.Contains(f), "one less")
		for _, v := range before {
			sym.Assert(v == f || x.Contains(v), "others stay")
		}
	default:
		x.Merge(before)
		sym.Assert(len(x) == len(before), "nothing new")
		x.Sub(before)
		sym.Assert(len(x) == 0, "nothing left")
	}
	sym.Assert(len(all) == len(before), "predefined set")
	for i := range before {
		sym.Assert(ixml.FunctionSetLCRS[i] == before[i], "predefined set")
	}
	sym.Reach("functions")
}

// C13_ixmlbool: iXML booleans and timecode flags.
func C13_ixmlbool() {
	x := ixml.Bool(sym.Choose(2) == 1)
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	y := !x
	sym.Assert(y.UnmarshalText(b) == nil && y == x, "round trip")
	s := []byte(sym.StringIn(4, "tTrRuUeE"))
	y = false
	err = y.UnmarshalText(s)
	ok := (s[0]|32) == 't' && (s[1]|32) == 'r' && (s[2]|32) == 'u' && (s[3]|32) == 'e'
	sym.Assert((err == nil) == ok && bool(y) == ok, "any case")
	f := []ixml.TimecodeFlag{ixml.TimecodeFlagDF, ixml.TimecodeFlagNDF}[sym.Choose(2)]
	var g ixml.TimecodeFlag
	sym.Assert(g.UnmarshalText([]byte(f)) == nil && g == f, "flag")
	t := sym.StringIn(sym.Choose(4), "NDFdf ")
	g = f
	err = g.UnmarshalText([]byte(t))
	sym.Assert((err == nil) == (t == "DF" || t == "NDF"), "flag text")
	sym.Assert(err == nil || g == f, "value unchanged on error")
	sym.Reach("ixmlbool")
}

// C13_rifflist: lists separated by semicolons.
func C13_rifflist() {
	n := 1 + sym.Choose(sym.Bound(3, 4))
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "v"+sym.StringIn(sym.Choose(3), "a;,"))
	}
	x := riff.StringArray{"old"}
	sym.Assert(x.UnmarshalText([]byte(strings.Join(l, "; "))) == nil, "accepted")
	sym.Assert(len(x) == n, "length")
	for i := range l {
		sym.Assert(x[i] == l[i], "element")
	}
	sym.Reach("rifflist")
}

// C13_identifier: an identifier without scheme.
func C13_identifier() {
	x := xmpbase.Identifier{ID: sym.StringIn(1+sym.Choose(4), printable)}
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	y := xmpbase.Identifier{ID: "old"}
	sym.Assert(y.UnmarshalText(b) == nil && y == x, "round trip")
	sym.Reach("identifier")
}

// C13_gpscoord: whole minutes of decimal degrees.
func C13_gpscoord() {
	d := sym.IntIn(0, sym.Bound(9, 90))
	q := sym.Choose(4) // quarters of a degree
	s := itoa(d) + []string{"", ".25", ".5", ".75"}[q]
	if sym.Choose(2) == 1 {
		s = "-" + s
	}
	var x exif.GPSCoord
	sym.Assert(x.UnmarshalText([]byte(s)) == nil, "accepted")
	sym.Assert(x[0].Den > 0 && x[0].Num == int64(d)*x[0].Den, "degrees")
	sym.Assert(x[1].Den > 0 && x[1].Num == int64(q*15)*x[1].Den, "minutes")
	sym.Assert(x[2].Num == 0, "seconds")
	sym.Reach("gpscoord")
}
