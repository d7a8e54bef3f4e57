package h

import (
	"errors"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// User-defined models, as an application would write them: one of lists and
// one with a field of every kind Go has and every struct tag the library
// knows.

var nsZoo = xmp.NewNamespace("zoo", "http://ns.example.com/zoo/1.0/", func(name string) xmp.Model { return &zooLists{} })

type zooLists struct {
	G xmp.GUIDList       `xmp:"zoo:G"`
	U xmp.UrlArray       `xmp:"zoo:U"`
	V xmp.UrlList        `xmp:"zoo:V"`
	W xmp.UriList        `xmp:"zoo:W"`
	K xmp.UriArray       `xmp:"zoo:K"`
	Q xmp.IntArray       `xmp:"zoo:Q"`
	P xmp.IntList        `xmp:"zoo:P"`
	R xmp.AltStringArray `xmp:"zoo:R"`
	D xmp.DateList       `xmp:"zoo:D"`
}

func (x zooLists) Can(name string) bool               { return name == "zoo" }
func (x zooLists) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsZoo} }
func (x *zooLists) SyncModel(d *xmp.Document) error   { return nil }
func (x *zooLists) SyncFromXMP(d *xmp.Document) error { return nil }
func (x zooLists) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *zooLists) CanTag(tag string) bool            { _, err := xmp.GetNativeField(x, tag); return err == nil }
func (x *zooLists) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *zooLists) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }

var nsZoa = xmp.NewNamespace("zoa", "http://ns.example.com/zoa/1.0/", func(name string) xmp.Model { return &zooAll{} })

type zooPart struct {
	Name  string    `xmp:"zoa:name"`
	Size  int16     `xmp:"zoa:size,attr"`
	Inner *zooInner `xmp:"zoa:inner"`
}

type zooInner struct {
	Label string         `xmp:"zoa:label"`
	Tags  xmp.StringList `xmp:"zoa:tags"`
}

type ZooBase struct {
	Base string `xmp:"zoa:base"`
	Rank int    `xmp:"zoa:rank,attr"`
}

type zooColor struct{ r, g, b uint8 }

func (c zooColor) MarshalText() ([]byte, error) {
	if c == (zooColor{}) {
		return nil, nil
	}
	return []byte(itoa(int(c.r)) + "/" + itoa(int(c.g)) + "/" + itoa(int(c.b))), nil
}

func (c *zooColor) UnmarshalText(t []byte) error {
	var n [3]uint8
	k := 0
	for _, s := range strings.Split(string(t), "/") {
		v, err := strconv.ParseUint(s, 10, 8)
		if err != nil || k > 2 {
			return errors.New("bad color")
		}
		n[k] = uint8(v)
		k++
	}
	*c = zooColor{n[0], n[1], n[2]}
	return nil
}

func (c zooColor) IsZero() bool { return c == zooColor{} }

type zooAll struct {
	I8  int8    `xmp:"zoa:I8"`
	I16 int16   `xmp:"zoa:I16"`
	I32 int32   `xmp:"zoa:I32"`
	I64 int64   `xmp:"zoa:I64"`
	U   uint    `xmp:"zoa:U"`
	U8  uint8   `xmp:"zoa:U8"`
	U16 uint16  `xmp:"zoa:U16"`
	U32 uint32  `xmp:"zoa:U32"`
	U64 uint64  `xmp:"zoa:U64"`
	F32 float32 `xmp:"zoa:F32"`
	F64 float64 `xmp:"zoa:F64"`
	B   bool    `xmp:"zoa:B"`
	S   string  `xmp:"zoa:S"`
	Y   []byte  `xmp:"zoa:Y"`

	AI int8   `xmp:"zoa:AI,attr"`
	AU uint16 `xmp:"zoa:AU,attr"`
	AS string `xmp:"zoa:AS,attr"`
	AB bool   `xmp:"zoa:AB,attr"`
	AY []byte `xmp:"zoa:AY,attr"`

	PI *int      `xmp:"zoa:PI"`
	PS *string   `xmp:"zoa:PS"`
	PA *string   `xmp:"zoa:PA,attr"`
	PP *zooPart  `xmp:"zoa:PP"`
	C  zooColor  `xmp:"zoa:C"`
	CA zooColor  `xmp:"zoa:CA,attr"`
	PC *zooColor `xmp:"zoa:PC"`
	P  zooPart   `xmp:"zoa:P"`

	LP zooParts  `xmp:"zoa:LP"`
	LQ zooRefs   `xmp:"zoa:LQ"`
	LC zooColors `xmp:"zoa:LC"`

	LG xmp.GUIDList `xmp:"zoa:LG"`
	LU xmp.UrlArray `xmp:"zoa:LU"`
	LV xmp.UrlList  `xmp:"zoa:LV"`
	LR xmp.UriList  `xmp:"zoa:LR"`
	LI xmp.IntArray `xmp:"zoa:LI"`

	ZooBase

	E  int    `xmp:"zoa:E,empty"`
	EA string `xmp:"zoa:EA,attr,empty"`
	O  string `xmp:"zoa:O,omit"`
	N  string `xmp:"-"`
	VO string `xmp:"zoa:VO,v1.0-"`
	VN string `xmp:"zoa:VN,v1.2+"`
	VB string `xmp:"zoa:VB,v1.0<1.2"`
	VX string `xmp:"zoa:VX,v1.1"`
}

func (x zooAll) Can(name string) bool               { return name == "zoa" }
func (x zooAll) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsZoa} }
func (x *zooAll) SyncModel(d *xmp.Document) error   { return nil }
func (x *zooAll) SyncFromXMP(d *xmp.Document) error { return nil }
func (x zooAll) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *zooAll) CanTag(tag string) bool            { _, err := xmp.GetNativeField(x, tag); return err == nil }
func (x *zooAll) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *zooAll) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }

type zooParts []zooPart

func (x zooParts) Typ() xmp.ArrayType { return xmp.ArrayTypeOrdered }
func (x zooParts) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *zooParts) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type zooRefs []*zooPart

func (x zooRefs) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x zooRefs) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *zooRefs) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type zooColors []zooColor

func (x zooColors) Typ() xmp.ArrayType { return xmp.ArrayTypeAlternative }
func (x zooColors) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *zooColors) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}
