package h

import (
	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/xmp"
)

func anyVersion() xmp.Version {
	return xmp.Version{Major: sym.Int(), Minor: sym.Int(), Patch: sym.Int()}
}

func cmpVersion(a, b xmp.Version) int {
	switch {
	case a.Major < b.Major:
		return -1
	case a.Major > b.Major:
		return 1
	case a.Minor < b.Minor:
		return -1
	case a.Minor > b.Minor:
		return 1
	case a.Patch < b.Patch:
		return -1
	case a.Patch > b.Patch:
		return 1
	}
	return 0
}

// C14_order: Before/After/Equal agree with lexicographic order (hence total).
func C14_order() {
	a, b := anyVersion(), anyVersion()
	c := cmpVersion(a, b)
	sym.Assert(a.Before(b) == (c < 0), "Before")
	sym.Assert(a.After(b) == (c > 0), "After")
	sym.Assert(a.Equal(b) == (c == 0), "Equal")
	zero := a.Major == 0 && a.Minor == 0 && a.Patch == 0
	sym.Assert(a.IsZero() == zero, "IsZero")
	sym.Reach("order")
}

// C14_transitive: the three relations form a total order.
func C14_transitive() {
	a, b, c := anyVersion(), anyVersion(), anyVersion()
	n := 0
	if a.Before(b) {
		n++
	}
	if a.Equal(b) {
		n++
	}
	if a.After(b) {
		n++
	}
	sym.Assert(n == 1, "trichotomy")
	if a.Before(b) && b.Before(c) {
		sym.Assert(a.Before(c), "transitive")
	}
	sym.Assert(a.Before(b) == b.After(a), "converse")
	sym.Reach("transitive")
}

// C14_between: range tests accept exactly what the ordering says; a zero
// bound is open, a zero (unspecified) version is always inside.
func C14_between() {
	v, a, b := anyVersion(), anyVersion(), anyVersion()
	var z xmp.Version
	want := true
	if !v.Equal(z) {
		if !a.Equal(z) && cmpVersion(v, a) < 0 {
			want = false
		}
		if !b.Equal(z) && cmpVersion(v, b) > 0 {
			want = false
		}
	}
	if !a.Equal(z) && !b.Equal(z) {
		sym.Assume(cmpVersion(a, b) <= 0)
	}
	if a.Equal(z) && b.Equal(z) {
		sym.Assume(false)
	}
	sym.Assert(v.Between(a, b) == want, "Between")
	sym.Reach("between")
}

// C14_text: a version is read back from its text.
func C14_text() {
	n := [3]int{sym.Int(), int(sym.Int8()), 3}
	k := sym.Choose(3)
	v := xmp.Version{Major: n[k], Minor: n[(k+1)%3], Patch: n[(k+2)%3]}
	s := v.String()
	sym.Assert(s == itoa(v.Major)+"."+itoa(v.Minor)+"."+itoa(v.Patch), "text of a version")
	w, err := xmp.ParseVersion(s)
	sym.Assert(err == nil && w == v, "version read back")
	sym.Reach("text")
}

// C14_parse: any text is a version exactly when it is one to three decimal
// numbers with dots between them.
func C14_parse() {
	s := sym.StringIn(sym.Choose(sym.Bound(6, 7)), "0179.-+ x_")
	want, ok := xmp.Version{}, true
	part, val, digits, neg := 0, 0, 0, false
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if digits == 0 {
				ok = false
			}
			if neg {
				val = -val
			}
			switch part {
			case 0:
				want.Major = val
			case 1:
				want.Minor = val
			case 2:
				want.Patch = val
			default:
				ok = false
			}
			part, val, digits, neg = part+1, 0, 0, false
			continue
		}
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			val, digits = val*10+int(c-'0'), digits+1
		case (c == '-' || c == '+') && (i == 0 || s[i-1] == '.'):
			neg = c == '-'
		default:
			ok = false
		}
	}
	v, err := xmp.ParseVersion(s)
	sym.Assert((err == nil) == ok, "exactly the versions are accepted")
	sym.Assert(!ok || v == want, "parsed value")
	sym.Reach("parse")
}
