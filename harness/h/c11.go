package h

import (
	"encoding/json"
	"math"
	"time"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

// C11_nullint: every integer survives text and JSON.
func C11_nullint() {
	v := xmp.NullInt(sym.Int())
	b, err := v.MarshalText()
	sym.Assert(err == nil, "marshal text")
	w := xmp.NullInt(7)
	sym.Assert(w.UnmarshalText(b) == nil, "unmarshal text")
	sym.Assert(w == v, "text round trip")
	j, err := v.MarshalJSON()
	sym.Assert(err == nil, "marshal json")
	w = 7
	sym.Assert(w.UnmarshalJSON(j) == nil, "unmarshal json")
	sym.Assert(w == v, "json round trip")
	sym.Assert(v.Int() == int(v) && v.Value() == int(v), "accessors")
	sym.Reach("nullint")
}

// C11_splitint: four byte values joined with colons, or one decimal number.
func C11_splitint() {
	a, b, c, d := sym.Byte(), sym.Byte(), sym.Byte(), sym.Byte()
	var x xmp.SplitInt
	err := x.UnmarshalText([]byte(itoa(int(a)) + ":" + itoa(int(b)) + ":" + itoa(int(c)) + ":" + itoa(int(d))))
	sym.Assert(err == nil, "split text is accepted")
	sym.Assert(x.Value() == uint32(a)<<24|uint32(b)<<16|uint32(c)<<8|uint32(d), "split value")
	sym.Assert(x.Uint32() == x.Value(), "accessors")
	sym.Reach("split")
}

func C11_splitint_number() {
	v := sym.Uint32()
	var x xmp.SplitInt
	err := x.UnmarshalText([]byte(utoa(uint64(v))))
	sym.Assert(err == nil, "number is accepted")
	sym.Assert(x.Value() == v, "number value")
	sym.Reach("number")
}

func C11_splitint_range() {
	v := sym.Int64()
	sym.Assume(v < 0 || v > math.MaxUint32)
	x := xmp.SplitInt(3)
	err := x.UnmarshalText([]byte(ltoa(v)))
	sym.Assert(err != nil, "number out of range is rejected")
	sym.Assert(x == 3, "value unchanged on error")
	sym.Reach("range")
}

// C11_splitint_parts: every part is a byte, and there are four of them.
func C11_splitint_parts() {
	k := sym.Choose(4)
	v := []int64{256, 65536, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 56, math.MaxInt64, -1, math.MinInt64}[sym.Choose(9)]
	if sym.Choose(2) == 0 {
		v = int64(sym.Uint16())
		sym.Assume(v > 255)
	}
	t := ""
	for i := 0; i < 4; i++ {
		if i > 0 {
			t += ":"
		}
		if i == k {
			t += ltoa(v)
		} else {
			t += sym.StringIn(1, "0123456789")
		}
	}
	x := xmp.SplitInt(3)
	sym.Assert(x.UnmarshalText([]byte(t)) != nil, "part out of range is rejected")
	sym.Assert(x == 3, "value unchanged on error")
	// other numbers of parts
	t = "1"
	for i := 0; i < []int{1, 2, 4, 5}[k]; i++ {
		t += ":" + sym.StringIn(1, "0123456789")
	}
	sym.Assert(x.UnmarshalText([]byte(t)) != nil, "other numbers of parts are rejected")
	sym.Reach("parts")
}

// C11_nullstring: trimmed text is kept, null words leave the value alone.
func C11_nullstring() {
	n := sym.Choose(sym.Bound(4, 6))
	s := sym.StringIn(n, printable)
	var x xmp.NullString
	sym.Assert(x.UnmarshalText([]byte(s)) == nil, "unmarshal")
	t := trimSpaces(s)
	if t == "" || t == "-" || t == "--" || t == "unknown" {
		sym.Assert(x == "", "null words are empty")
	} else {
		sym.Assert(string(x) == t, "value is the trimmed text")
	}
	b, err := x.MarshalText()
	sym.Assert(err == nil, "marshal")
	var y xmp.NullString
	sym.Assert(y.UnmarshalText(b) == nil && y == x, "round trip")
	sym.Reach("nullstring")
}

// C11_bool: both boolean types, text and JSON.
func C11_bool() {
	v := xmp.Bool(sym.Bool())
	b, err := v.MarshalText()
	sym.Assert(err == nil, "marshal")
	w := !v
	sym.Assert(w.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(w == v, "Bool text round trip")
	j, err := json.Marshal(v)
	sym.Assert(err == nil, "marshal json")
	w = !v
	sym.Assert(json.Unmarshal(j, &w) == nil, "unmarshal json")
	sym.Assert(w == v, "Bool json round trip")

	nv := xmp.NullBool(v)
	b, err = nv.MarshalText()
	sym.Assert(err == nil, "marshal null bool")
	nw := !nv
	sym.Assert(nw.UnmarshalText(b) == nil, "unmarshal null bool")
	sym.Assert(nw == nv, "NullBool text round trip")
	j, err = nv.MarshalJSON()
	sym.Assert(err == nil, "marshal null bool json")
	nw = !nv
	sym.Assert(nw.UnmarshalJSON(j) == nil, "unmarshal null bool json")
	sym.Assert(nw == nv, "NullBool json round trip")
	sym.Reach("bool")
}

// C11_booltext: only the six spellings are accepted.
func C11_booltext() {
	n := sym.Choose(sym.Bound(6, 7))
	s := sym.String(n)
	x := xmp.Bool(sym.Bool())
	old := x
	err := x.UnmarshalText([]byte(s))
	switch {
	case s == "True" || s == "true" || s == "TRUE":
		sym.Assert(err == nil && bool(x), "true spellings")
	case s == "False" || s == "false" || s == "FALSE":
		sym.Assert(err == nil && !bool(x), "false spellings")
	default:
		sym.Assert(err != nil && x == old, "anything else is rejected")
	}
	sym.Reach("booltext")
}

// C11_floatjson: NaN and the infinities keep their identity in JSON.
func C11_floatjson() {
	v := xmp.NullFloat64(math.Float64frombits(sym.Uint64()))
	f := float64(v)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		j, err := v.MarshalJSON()
		sym.Assert(err == nil, "marshal")
		var w xmp.NullFloat64
		sym.Assert(w.UnmarshalJSON(j) == nil, "unmarshal")
		g := float64(w)
		sym.Assert(math.IsNaN(f) == math.IsNaN(g) && math.IsInf(f, 1) == math.IsInf(g, 1) && math.IsInf(f, -1) == math.IsInf(g, -1), "float64 special values")
		sym.Reach("special64")
	}
}

func C11_float32json() {
	v := xmp.NullFloat(math.Float32frombits(sym.Uint32()))
	f := float64(v)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		j, err := v.MarshalJSON()
		sym.Assert(err == nil, "marshal")
		var w xmp.NullFloat
		sym.Assert(w.UnmarshalJSON(j) == nil, "unmarshal")
		g := float64(w)
		sym.Assert(math.IsNaN(f) == math.IsNaN(g) && math.IsInf(f, 1) == math.IsInf(g, 1) && math.IsInf(f, -1) == math.IsInf(g, -1), "float32 special values")
		sym.Reach("special32")
	}
}

// C11_rational: every fraction survives text.
func C11_rational() {
	r := xmp.Rational{Num: sym.Int64(), Den: int64(sym.Int32())}
	b, err := r.MarshalText()
	sym.Assert(err == nil, "marshal")
	var q xmp.Rational
	sym.Assert(q.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(q == r, "fraction round trip")
	sym.Reach("rational")
}

// C11_rational_decimal: decimals keep their value.
func C11_rational_decimal() {
	n := sym.Bound(2, 3)
	neg := sym.Bool()
	i := int(sym.Byte())
	frac := 0
	t := itoa(i) + "."
	sc := 1
	for k := 0; k < n; k++ {
		d := sym.Byte()
		sym.Assume(d < 10)
		t += string([]byte{'0' + d})
		frac = frac*10 + int(d)
		sc *= 10
	}
	sym.Assume(i < sym.Bound(3, 12))
	if neg {
		t = "-" + t
	}
	var q xmp.Rational
	sym.Assert(q.UnmarshalText([]byte(t)) == nil, "decimal is accepted")
	v := int64(i*sc + frac)
	if neg {
		v = -v
	}
	sym.Assert(q.Num*int64(sc) == v*q.Den && q.Den != 0, "decimal keeps its value")
	sym.Reach("decimal")
}

func C11_rational_int() {
	n := sym.Int64()
	var q xmp.Rational
	sym.Assert(q.UnmarshalText([]byte(ltoa(n))) == nil, "unmarshal")
	sym.Assert(q.Num == n && q.Den == 1, "integer becomes n/1")
	sym.Reach("int")
}

// C11_duration: durations of any unit survive text.
func C11_duration() {
	k := time.Duration(sym.Int8())
	var d xmp.Duration
	switch sym.Choose(6) {
	case 0:
		d = xmp.Duration(k * time.Nanosecond)
	case 1:
		d = xmp.Duration(k * time.Microsecond)
	case 2:
		d = xmp.Duration(k * time.Millisecond)
	case 3:
		d = xmp.Duration(k * time.Second)
	case 4:
		d = xmp.Duration(k * time.Minute)
	default:
		d = xmp.Duration(k * time.Hour)
	}
	b, err := d.MarshalText()
	sym.Assert(err == nil, "marshal")
	var e xmp.Duration
	sym.Assert(e.UnmarshalText(b) == nil, "unmarshal")
	sym.Assert(e == d, "duration round trip")
	sym.Reach("duration")
}

// C11_duration_seconds: a bare number is that many seconds, or rejected.
func C11_duration_seconds() {
	n := sym.Int64()
	fits := n <= math.MaxInt64/int64(time.Second) && n >= math.MinInt64/int64(time.Second)
	d, err := xmp.ParseDuration(ltoa(n))
	sym.Assert((err == nil) == fits, "exactly the seconds that fit are accepted")
	sym.Assert(!fits || int64(d) == n*int64(time.Second), "seconds value")
	d = 5
	err = d.UnmarshalJSON([]byte(ltoa(n)))
	sym.Assert((err == nil) == fits, "json: exactly the seconds that fit are accepted")
	sym.Assert(!fits && d == 5 || fits && int64(d) == n*int64(time.Second), "json seconds value")
	sym.Reach("seconds")
}

// C11_guid: identifiers and agents keep any text.
func C11_guid() {
	s := sym.String(sym.Choose(sym.Bound(5, 7)))
	g := xmp.GUID(s)
	b, err := g.MarshalText()
	sym.Assert(err == nil, "marshal")
	var h xmp.GUID
	sym.Assert(h.UnmarshalText(b) == nil && h == g, "guid round trip")
	sym.Assert(g.IsZero() == (s == ""), "zero")
	// the issuer is everything before the last colon
	last := -1
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			last = i
		}
	}
	if last < 0 {
		sym.Assert(g.Issuer() == "", "no issuer")
	} else {
		sym.Assert(g.Issuer() == s[:last], "issuer")
	}
	sym.Reach("guid")
}

// C11_floattext: floats of both widths, in their text form and in JSON.
func C11_floattext() {
	l := []float64{0, 0.1, -3.5, 1e9, 1e-7, 16777216, 123456.78, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.30000000000000004, math.MaxFloat64, -math.SmallestNonzeroFloat64, 1e21, math.Inf(1), math.Inf(-1)}
	f := l[sym.Choose(len(l))]
	a, b := xmp.NullFloat(f), xmp.NullFloat64(f)
	sym.Assert(float64(a) == a.Value() && a.Float32() == float32(f) && b.Value() == f && b.Float64() == f, "accessors")
	t, err := a.MarshalText()
	sym.Assert(err == nil, "marshal")
	var x xmp.NullFloat
	sym.Assert(x.UnmarshalText(t) == nil && x == a, "float32 text round trip")
	t, err = b.MarshalText()
	sym.Assert(err == nil, "marshal")
	var y xmp.NullFloat64
	sym.Assert(y.UnmarshalText(t) == nil && y == b, "float64 text round trip")
	t, err = json.Marshal(a)
	sym.Assert(err == nil, "marshal json")
	x = 7
	sym.Assert(json.Unmarshal(t, &x) == nil && x == a, "float32 json round trip")
	t, err = json.Marshal(b)
	sym.Assert(err == nil, "marshal json")
	y = 7
	sym.Assert(json.Unmarshal(t, &y) == nil && y == b, "float64 json round trip")
	// null words leave the value alone
	w := []string{"", "-", "--", "---", "unknown", "Unknown"}[sym.Choose(6)]
	sym.Assert(x.UnmarshalText([]byte(w)) == nil && x == a && y.UnmarshalText([]byte(w)) == nil && y == b, "null words")
	sym.Reach("floattext")
}

// C11_lists: the lists of scalar types keep number and order of their values.
func C11_lists() {
	d := xmp.NewDocument()
	e := xmp.NewDocument()
	n := sym.Choose(3)
	var g xmp.GUIDList
	var u xmp.UrlArray
	var v xmp.UrlList
	var w xmp.UriList
	var k xmp.UriArray
	var q xmp.IntArray
	var p xmp.IntList
	var r xmp.AltStringArray
	var dl xmp.DateList
	for i := 0; i < n; i++ {
		s := sym.StringIn(1, lower)
		g = append(g, xmp.GUID(s))
		u = append(u, xmp.Url("u"+s))
		v = append(v, xmp.Url("v"+s))
		w = append(w, xmp.NewUri("w"+s))
		k = append(k, xmp.NewUri("k"+s))
		q = append(q, i-1)
		p = append(p, 5-i)
		a := xmp.NewAltString(s)
		r = append(r, &a)
		dl = append(dl, xmp.NewDate(genDates[i%2]))
	}
	sym.Assert((len(w) == 0) == w.IsZero() && (len(k) == 0) == k.IsZero(), "empty lists")
	x := &zooLists{G: g, U: u, V: v, W: w, K: k, Q: q, P: p, R: r, D: dl}
	xmp.Register(nsZoo)
	_, err := d.AddModel(x)
	sym.Assert(err == nil, "model")
	if sym.Choose(2) == 0 {
		b, err := xmp.Marshal(d)
		sym.Assert(err == nil, "write")
		sym.Assert(xmp.Unmarshal(b, e) == nil, "read")
	} else {
		b, err := json.Marshal(d)
		sym.Assert(err == nil, "write json")
		sym.Assert(json.Unmarshal(b, e) == nil, "read json")
	}
	y := &zooLists{}
	if m := e.FindModel(nsZoo); m != nil {
		y = m.(*zooLists)
	} else {
		sym.Assert(n == 0, "model read")
	}
	sym.Assert(len(y.G) == n && len(y.U) == n && len(y.V) == n && len(y.W) == n && len(y.K) == n && len(y.Q) == n && len(y.P) == n && len(y.R) == n && len(y.D) == n, "number of elements")
	for i := 0; i < n; i++ {
		sym.Assert(y.G[i] == g[i], "GUID")
		sym.Assert(y.U[i] == u[i], "unordered URL")
		sym.Assert(y.V[i] == v[i], "ordered URL")
		sym.Assert(y.W[i].Value() == w[i].Value(), "ordered URI")
		sym.Assert(y.K[i].Value() == k[i].Value(), "unordered URI")
		sym.Assert(y.Q[i] == q[i] && y.P[i] == p[i], "number")
		sym.Assert(y.R[i].Default() == r[i].Default(), "alternatives")
		sym.Assert(y.D[i].Value().Equal(dl[i].Value()), "date")
	}
	sym.Reach("lists")
}
