package h

import (
	"encoding"
	"reflect"
	"strings"
	"time"

	"verif/harness/sym"

	"github.com/trimmer-io/go-xmp/models/cc"
	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/digikam"
	"github.com/trimmer-io/go-xmp/models/dji"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/mp4"
	"github.com/trimmer-io/go-xmp/models/pdf"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/ps"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpbj "github.com/trimmer-io/go-xmp/models/xmp_bj"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	xmprights "github.com/trimmer-io/go-xmp/models/xmp_rights"
	xmptpg "github.com/trimmer-io/go-xmp/models/xmp_tpg"
	"github.com/trimmer-io/go-xmp/xmp"
)

// bundled models
var modelNs = []*xmp.Namespace{
	dc.NsDc, xmpbase.NsXmp, xmpmm.NsXmpMM, xmprights.NsXmpRights, xmptpg.NsXmpTPg, xmpbj.NsXmpBJ, xmpdm.NsXmpDM,
	tiff.NsTiff, exif.NsExif, ps.NsPhotoshop, pdf.NsPDF, crs.NsCrs, cc.NsCC, digikam.NsDk, dji.NsDJI, id3.NsID3,
	itunes.NsITunes, ixml.NsIXML, mp4.NsMP4, pm.NsPm, qt.NsQuicktime, riff.NsRiff,
}

// gen fills one field of a model, chosen by sym.Choose at every level.
type gen struct {
	str  func() string // payload of text values
	num  func() int64  // payload of numbers, 1..127
	name string        // field filled, for reports
	skip bool          // the choice has no value to set

	kinds bool // one field of each type only

	gap    bool          // lists get an unset element in the middle
	gapped reflect.Value // the list with such an element

	trace  []int // choices made
	replay []int // choices to repeat, set by again
	other  bool  // made by again
}

func (g *gen) choose(n int) int {
	if len(g.replay) > 0 {
		k := g.replay[0]
		g.replay = g.replay[1:]
		return k
	}
	k := sym.Choose(n)
	g.trace = append(g.trace, k)
	return k
}

// alt chooses one of several values, another one the second time.
func (g *gen) alt(n int) int {
	k := g.choose(n)
	if g.other {
		k = (k + 1) % n
	}
	return k
}

// again makes a generator that fills the same fields with other values.
func (g *gen) again() *gen {
	n := 0
	return &gen{
		str: func() string { return sym.StringIn(2, lower) },
		num: func() int64 {
			n = n%7 + 1
			return []int64{25, 4, 6, 9, 14, 15, 29}[n-1]
		},
		replay: g.trace,
		kinds:  g.kinds,
		other:  true,
	}
}

func newGen() *gen {
	numCount := 0
	return &gen{
		str: func() string { return sym.StringIn(2, lower) },
		num: func() int64 {
			if sym.Bound(0, 1) == 0 {
				numCount = numCount%7 + 1
				return []int64{24, 2, 3, 5, 7, 11, 13}[numCount-1]
			}
			v := int64(sym.Byte())
			sym.Assume(v > 0 && v < 100)
			return v
		},
	}
}

var genDates = []time.Time{
	time.Date(2019, 7, 4, 11, 22, 33, 0, time.UTC),
	time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("", -8*3600)),
}

// fill sets v, which must be settable, to a non-empty value.
func (g *gen) fill(v reflect.Value, depth int) {
	if depth > 5 {
		g.skip = true
		return
	}
	switch p := v.Addr().Interface().(type) {
	case *xmp.Date:
		*p = xmp.NewDate(genDates[g.alt(len(genDates))])
		return
	case *xmp.Time:
		*p = xmp.NewTime(time.Date(0, 1, 1, 9, 8, 7, 0, time.UTC))
		return
	case *time.Time:
		*p = genDates[0]
		return
	case *xmp.Rational:
		*p = xmp.Rational{Num: g.num(), Den: g.num()}
		return
	case *xmp.AltString:
		switch g.choose(3) {
		case 0:
			*p = xmp.NewAltString(g.str())
		case 1:
			*p = xmp.NewAltString(xmp.AltItem{Value: g.str(), Lang: "de", IsDefault: true}, xmp.AltItem{Value: g.str(), Lang: "fr"})
		default:
			*p = xmp.NewAltString(xmp.AltItem{Value: g.str(), IsDefault: true}, xmp.AltItem{Value: g.str(), Lang: "fr"})
		}
		return
	case *riff.AltString:
		*p = riff.AltString(xmp.NewAltString(xmp.AltItem{Value: g.str(), Lang: "de", IsDefault: true}, xmp.AltItem{Value: g.str(), Lang: "fr"}))
		return
	case *tiff.YCbCrSubSampling:
		*p = tiff.YCbCrSubSampling{int(g.num()), int(g.num())}
		return
	case *xmpdm.FrameRate:
		*p = xmpdm.FrameRate{Rate: g.num(), Base: g.num()}
		return
	case *xmpdm.FrameCount:
		*p = xmpdm.FrameCount{Count: g.num(), Rate: xmpdm.FrameRate{Rate: g.num(), Base: g.num()}}
		return
	case *xmpdm.MediaTime:
		*p = xmpdm.MediaTime{Value: g.num(), Scale: xmp.Rational{Num: g.num(), Den: g.num()}}
		return
	case *xmpdm.Timecode:
		*p = xmpdm.Timecode{Format: xmpdm.TimecodeFormat25, Value: "01:02:03:04"}
		if g.alt(2) == 1 {
			p.Value = "11;12;13;14"
		}
		return
	case *xmpdm.Part:
		*p = xmpdm.Part{Path: "/a/"}
		switch g.choose(3) {
		case 1:
			p.Start = xmpdm.FrameCount{Count: g.num(), Rate: xmpdm.FrameRate{Rate: g.num(), Base: g.num()}}
		case 2:
			p.Duration = xmpdm.FrameCount{Count: g.num(), Rate: xmpdm.FrameRate{Rate: g.num(), Base: g.num()}}
		}
		return
	case *zooColor:
		*p = zooColor{uint8(g.num()), uint8(g.num()), uint8(g.num())}
		return
	case *ixml.TimecodeFlag:
		*p = []ixml.TimecodeFlag{ixml.TimecodeFlagDF, ixml.TimecodeFlagNDF}[g.alt(2)]
		return
	case *xmp.ExtensionArray, *xmp.NamedExtensionArray, *xmp.Extension:
		g.skip = true
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), depth)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.num())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.num()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0.5, -3, 1e9}[g.alt(3)])
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.str()))
			return
		}
		if _, ok := v.Addr().Interface().(encoding.TextMarshaler); g.gap && !g.gapped.IsValid() && !ok {
			a, b := reflect.New(v.Type().Elem()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.fill(a, depth+1)
			if simpleKind(b) {
				g.fill(b, depth+1)
			} else {
				g.fillFirst(b, depth+1)
			}
			v.Set(reflect.Append(v, a, reflect.Zero(v.Type().Elem()), b))
			g.gapped = v
			return
		}
		n := 1 + g.choose(2)
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(e, depth+1)
			v.Set(reflect.Append(v, e))
			if i == 0 && n > 1 && !simpleKind(e) {
				// the second element of a list of structures repeats no choice
				e := reflect.New(v.Type().Elem()).Elem()
				g.fillFirst(e, depth+1)
				v.Set(reflect.Append(v, e))
				break
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		fs := fields(v.Type())
		if g.kinds {
			seen := map[string]bool{}
			var l []int
			for _, i := range fs {
				f := v.Type().Field(i)
				k := f.Type.String()
				if strings.Contains(f.Tag.Get("xmp"), ",attr") {
					k += ",attr"
				}
				if strings.Contains(f.Tag.Get("xmp"), ",empty") {
					k += ",empty"
				}
				if !seen[k] {
					seen[k] = true
					l = append(l, i)
				}
			}
			fs = l
		}
		if len(fs) == 0 {
			g.skip = true
			return
		}
		i := fs[g.choose(len(fs))]
		g.name += "." + v.Type().Field(i).Name
		g.fill(v.Field(i), depth+1)
	default:
		g.skip = true
	}
}

func simpleKind(v reflect.Value) bool {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v.Kind() != reflect.Struct || v.Type() == reflect.TypeOf(zooColor{})
}

// fillFirst fills the first text or number field it finds.
func (g *gen) fillFirst(v reflect.Value, depth int) {
	for v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		g.fill(v, depth)
		return
	}
	for _, i := range fields(v.Type()) {
		switch f := v.Field(i); f.Kind() {
		case reflect.String, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint32:
			g.fill(f, depth)
			return
		}
	}
}

// fields lists the fields of a struct that are stored in XMP.
func fields(t reflect.Type) []int {
	var l []int
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xmp")
		if f.PkgPath != "" && !f.Anonymous || tag == "-" || strings.Contains(tag, ",omit") && !strings.Contains(tag, ",omitempty") || strings.Contains(tag, ",any") {
			continue
		}
		l = append(l, i)
	}
	return l
}

// genDoc makes a document with one model in which one field is set.
func genDoc(g *gen, ns *xmp.Namespace) (*xmp.Document, xmp.Model) {
	d := xmp.NewDocument()
	m, err := d.MakeModel(ns)
	if err != nil {
		g.skip = true
		return d, nil
	}
	g.name = ns.GetName()
	g.fill(reflect.ValueOf(m).Elem(), 0)
	return d, m
}
