package h

import (
	"strconv"

	"verif/harness/sym"
)

// xmlChars is the set of ASCII characters legal in XML text.
var xmlChars = "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\x7f"

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

const lower = "abcdefghijklmnopqrstuvwxyz"

func itoa(n int) string     { return strconv.Itoa(n) }
func ltoa(n int64) string   { return strconv.FormatInt(n, 10) }
func utoa(n uint64) string  { return strconv.FormatUint(n, 10) }

func trimSpaces(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

// wideChar is any character of two, three or four bytes that XML admits.
func wideChar() string {
	a, b, c, d := sym.Byte(), sym.Byte(), sym.Byte(), sym.Byte()
	sym.Assume(b&0xc0 == 0x80)
	switch sym.Choose(3) {
	case 0:
		sym.Assume(a >= 0xc2 && a <= 0xdf)
		return string([]byte{a, b})
	case 1:
		sym.Assume(c&0xc0 == 0x80)
		sym.Assume(a&0xf0 == 0xe0)
		switch sym.Choose(4) {
		case 0:
			sym.Assume(a == 0xe0 && b >= 0xa0)
		case 1:
			sym.Assume(a == 0xed && b <= 0x9f)
		case 2:
			sym.Assume(a == 0xef && !(b == 0xbf && c >= 0xbe))
		default:
			sym.Assume(a != 0xe0 && a != 0xed && a != 0xef)
		}
		return string([]byte{a, b, c})
	default:
		sym.Assume(c&0xc0 == 0x80)
		sym.Assume(d&0xc0 == 0x80)
		switch sym.Choose(3) {
		case 0:
			sym.Assume(a == 0xf0 && b >= 0x90)
		case 1:
			sym.Assume(a == 0xf4 && b <= 0x8f)
		default:
			sym.Assume(a >= 0xf1 && a <= 0xf3)
		}
		return string([]byte{a, b, c, d})
	}
}
