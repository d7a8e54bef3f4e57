package h

import (
	"strings"
	"time"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/xmp"
)

// digits appends n symbolic decimal digits to b and returns their value.
func digits(b []byte, n int) ([]byte, int) {
	// two digits and longer numbers are computed the way package time does, which
	// lets the solver recognise the same number
	v, w := 0, uint64(0)
	for i := 0; i < n; i++ {
		c := sym.Byte()
		sym.Assume(c >= '0' && c <= '9')
		b = append(b, c)
		v = v*10 + int(c-'0')
		w = w*10 + uint64(c) - '0'
	}
	if n > 2 {
		return b, int(w)
	}
	return b, v
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysIn(m, y int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// layout letters: Y year(4) y year(2) M D h m s (2 digits each), f fraction
// (as many digits as f's), zone: z = sign hh:mm, t = sign hhmm, u = sign h:mm,
// v = sign h, w = sign 00hmm-style three digit hour ("+0HHMM")
var layouts19 = []string{
	"Y-M-DTh:m:s", "Y-M-DTh:m:s.f", "Y-M-DTh:m:s.ffffff", "Y-M-DTh:m:s.fffffffff",
	"Y-M-DTh:m:sZ", "Y-M-DTh:m:sz", "Y-M-DTh:m:s.fZ", "Y-M-DTh:m:s.fffz", "Y-M-DTh:m:s.fffffffffz",
	"Y-M-DTh:mz", "Y-M-D", "Y-M-D h:m:s", "Y-M-DTh:m:st", "Y:M:D h:m:s.fff", "Y:M:D h:m:s",
	"Y/M/DTh:m:sz", "y/M/DTh:m:sz", "YMDThHmMsz", "YMDThHmMsSz",
	"Y-M-DTh:mZ", "Y-M-DTh:m", "Y-M-D h:m", "Y:M:D", "Y-M", "Y",
	"h:m:sz", "h:m:s", "hmst",
	// repaired zones
	"Y-M-DTh:m:su", "Y-M-DTh:m:sv", "Y-M-DTh:m:sw", "Y-M-DTh:m:s.fffu", "Y/M/DTh:m:su",
}

type fields19 struct {
	y, mo, d, h, mi, s, ns, off int
	ok, zoneOK                  bool
}

func (f fields19) instant() time.Time {
	return time.Date(f.y, time.Month(f.mo), f.d, f.h, f.mi, f.s, f.ns, time.FixedZone("", f.off*60))
}

// date19 builds a text in the given layout with symbolic digits.
func date19(layout string) (string, fields19) {
	var b []byte
	f := fields19{mo: 1, d: 1}
	for i := 0; i < len(layout); i++ {
		c := layout[i]
		switch {
		case c == 'Y':
			b, f.y = digits(b, 4)
		case c == 'y':
			b, f.y = digits(b, 2)
			if sym.Choose(2) == 0 {
				sym.Assume(f.y >= 69)
				f.y += 1900
			} else {
				sym.Assume(f.y < 69)
				f.y += 2000
			}
		case c == 'M' && !(i > 0 && layout[i-1] == 'm'):
			b, f.mo = digits(b, 2)
		case c == 'M':
			b = append(b, 'm')
		case c == 'H':
			b = append(b, 'h')
		case c == 'S':
			b = append(b, 's')
		case c == 'D':
			b, f.d = digits(b, 2)
		case c == 'h':
			b, f.h = digits(b, 2)
		case c == 'm':
			b, f.mi = digits(b, 2)
		case c == 's':
			b, f.s = digits(b, 2)
		case c == 'f':
			n := 0
			for i+n < len(layout) && layout[i+n] == 'f' {
				n++
			}
			b, f.ns = digits(b, n)
			for k := n; k < 9; k++ {
				f.ns *= 10
			}
			i += n - 1
		case c == 'z' || c == 't' || c == 'u' || c == 'v' || c == 'w':
			neg := sym.Choose(2) == 1
			if neg {
				b = append(b, '-')
			} else {
				b = append(b, '+')
			}
			var hh, mm int
			switch c {
			case 'z':
				b, hh = digits(b, 2)
				b = append(b, ':')
				b, mm = digits(b, 2)
			case 't':
				b, hh = digits(b, 2)
				b, mm = digits(b, 2)
			case 'u':
				b, hh = digits(b, 1)
				b = append(b, ':')
				b, mm = digits(b, 2)
			case 'v':
				b, hh = digits(b, 1)
			case 'w':
				b = append(b, '0')
				b, hh = digits(b, 2)
				b, mm = digits(b, 2)
			}
			// the standard library tolerates hour 24 and minute 60 in offsets
			sym.Assume(hh <= 23 && mm <= 59)
			f.off = hh*60 + mm
			if neg {
				f.off = -f.off
			}
		default:
			b = append(b, c)
		}
	}
	f.ok = f.mo >= 1 && f.mo <= 12 && f.d >= 1 && f.d <= daysIn(f.mo, f.y) && f.h < 24 && f.mi < 60 && f.s < 60
	return string(b), f
}

// C19_layouts: every accepted layout with any digits gives the denoted
// instant, or an error when the fields denote none.
func C19_layouts() {
	l := layouts19[sym.Choose(len(layouts19))]
	s, f := date19(l)
	// ARRI zero time and the zero fillers (a day or month of 00 for unknown) stand for dates of their own
	sym.Assume(f.d != 0 && f.mo != 0)
	if sym.Bound(0, 1) == 0 {
		// quick: at most one field out of its range, none in layouts with an offset
		bad := 0
		if !strings.ContainsAny(l, "ztuvw") {
			bad = sym.Choose(6)
		}
		sym.Assume((bad == 1) == (f.mo > 12) && (bad == 3) == (f.h > 23) && (bad == 4) == (f.mi > 59) && (bad == 5) == (f.s > 59))
		if bad != 1 {
			sym.Assume((bad == 2) == (f.d > daysIn(f.mo, f.y)))
		}
	}
	d, err := xmp.ParseDate(s)
	sym.Assert((err == nil) == f.ok, l+": accepted iff valid")
	if err == nil {
		sym.Assert(d.Value().Equal(f.instant()), l+": instant")
	}
	sym.Reach(l)
}

// C19_print: printing a date or time and parsing it again gives the same instant.
func C19_print() {
	ym := [][2]int{{0, 1}, {1, 1}, {1900, 2}, {1969, 12}, {1970, 1}, {2000, 2}, {2023, 2}, {2024, 2}, {2024, 3}, {2024, 12}, {9999, 12}}
	k := sym.Choose(len(ym))
	y, mo := ym[k][0], ym[k][1]
	d, h, mi, s, ns, off := daysIn(mo, y), 23, 59, 59, 0, 0
	if k%2 == 0 {
		d, h, mi, s = 1, 0, 0, 0
	}
	// one part at a time is symbolic
	switch sym.Choose(5) {
	case 0:
		d = sym.IntIn(1, daysIn(mo, y))
	case 1:
		h, mi, s = sym.IntIn(0, 23), sym.IntIn(0, 59), sym.IntIn(0, 59)
	case 2: // the fraction does not depend on the date
		sym.Assume(k == 7)
		ns = sym.IntIn(1, 999) * 1000000
	case 3:
		sym.Assume(k == 8)
		ns = 120304000 + sym.IntIn(1, sym.Bound(999, 800000000))
	case 4:
		sym.Assume(sym.Bound(0, 1) == 1 || k%3 == 0)
		off = sym.IntIn(-14*60, 14*60)
		mi, s = 30, 7
	}
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off*60)
	}
	t := time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
	x := xmp.NewDate(t)
	txt, err := x.MarshalText()
	sym.Assert(err == nil, "prints")
	if x.IsZero() {
		return
	}
	var r xmp.Date
	sym.Assert(r.UnmarshalText(txt) == nil, "parses")
	sym.Assert(r.Value().Equal(t), "same instant")
	sym.Reach("date")
}

// C19_time: the same for times of day.
func C19_time() {
	h, mi, s, ns, off := sym.IntIn(0, 23), sym.IntIn(0, 59), sym.IntIn(0, 59), 0, 0
	switch sym.Choose(3) {
	case 1:
		ns = sym.IntIn(1, 999) * 1000000
	case 2:
		h, mi, s = 23, 5, 59
		off = sym.IntIn(-14*60, 14*60)
	}
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off*60)
	}
	t := time.Date(0, 1, 1, h, mi, s, ns, loc)
	txt, err := xmp.NewTime(t).MarshalText()
	sym.Assert(err == nil, "prints")
	var r xmp.Time
	sym.Assert(r.UnmarshalText(txt) == nil, "parses")
	sym.Assert(r.Value().Equal(t), "same instant")
	sym.Reach("time")
}

// C19_exif: exif dates keep their instant to the second, in every layout; the
// subsecond text adds the fraction when it is synced to an XMP date.
func C19_exif() {
	forms := []string{"Y-M-DTh:m:s", "Y-M-DTh:m:sZ", "Y-M-DTh:m:sz", "Y-M-DTh:m", "Y:M:D h:m:s.fffz", "Y:M:D h:m:sz", "Y:M:D h:m:s", "Y:M:D h:m", "Y:M:D", "Y:M", "Y"}
	l := forms[sym.Choose(len(forms))]
	s, f := date19(l)
	sym.Assume(f.d != 0 && f.mo != 0 && f.ok)
	var d exif.Date
	sym.Assert(d.UnmarshalText([]byte(s)) == nil, l+": parses")
	sym.Assert(d.Value().Equal(f.instant()), l+": instant")
	sym.Reach(l)
}

// C19_exifprint: exif dates read back what they print.
func C19_exifprint() {
	k := sym.Choose(3)
	y, mo := []int{1970, 2024, 2023}[k], []int{1, 2, 12}[k]
	d, h, mi, s, off, ns := 1, 23, 59, 59, 0, 0
	switch sym.Choose(4) {
	case 0:
		d = sym.IntIn(1, daysIn(mo, y))
	case 1:
		h, mi, s = sym.IntIn(0, 23), sym.IntIn(0, 59), sym.IntIn(0, 59)
	case 2:
		off = sym.IntIn(-14*60, 14*60)
	case 3:
		sym.Assume(k == 1)
		ns = sym.IntIn(1, 999) * 1000000
	}
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off*60)
	}
	t := time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
	txt, err := exif.Date(t).MarshalText()
	sym.Assert(err == nil, "prints")
	var r exif.Date
	sym.Assert(r.UnmarshalText(txt) == nil, "parses")
	sym.Assert(r.Value().Equal(t), "same instant")
	sym.Reach("exif")
}

// C19_id3: id3 v2.3 dates (DDMM) and times (HHMM).
func C19_id3() {
	var b []byte
	b, x := digits(b, 2)
	if sym.Choose(2) == 0 {
		y := sym.Choose(14)
		b = append(b, byte('0'+y/10), byte('0'+y%10))
		var d id3.Date23
		err := d.UnmarshalText(b)
		ok := y >= 1 && y <= 12 && x >= 1 && x <= daysIn(y, 0)
		sym.Assert((err == nil) == ok, "date accepted iff valid")
		if err == nil {
			sym.Assert(d.Value().Day() == x && int(d.Value().Month()) == y, "day and month")
			t, err := d.MarshalText()
			sym.Assert(err == nil && string(t) == string(b), "prints the same date")
			sym.Reach("date")
		}
		return
	}
	b, y := digits(b, 2)
	var d id3.Time23
	err := d.UnmarshalText(b)
	sym.Assert((err == nil) == (x < 24 && y < 60), "time accepted iff valid")
	if err == nil {
		sym.Assert(d.Value().Hour() == x && d.Value().Minute() == y, "hour and minute")
		t, err := d.MarshalText()
		sym.Assert(err == nil && string(t) == string(b), "prints the same time")
		sym.Reach("time")
	}
}

