From 9cbe665ab7e16390ea1fd9b432205e4e67b1d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 001/107] fix: version ranges with an open lower bound accept
 the upper bound; zero test cannot overflow

---
 xmp/semver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 01fda9e..7ab5fc6 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -61,15 +61,17 @@ func (v Version) String() string {
 }
 
 func (v Version) IsZero() bool {
-	return v.Major+v.Minor+v.Patch == 0
+	return v.Major == 0 && v.Minor == 0 && v.Patch == 0
 }
 
 func (v Version) Between(a, b Version) bool {
 	switch {
 	case v.IsZero():
 		return true
+	case a.IsZero() && b.IsZero():
+		return true
 	case a.IsZero():
-		return v.Before(b) || v.Equal(a)
+		return v.Before(b) || v.Equal(b)
 	case b.IsZero():
 		return v.After(a) || v.Equal(a)
 	default:
-- 
2.43.0


From e54acff6adc9a778dbdd0308a835956a11b2481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 002/107] fix: removing a value from a list keeps the elements
 after it

---
 models/xmp_base/types.go | 2 +-
 xmp/array.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index e939097..f26ae5e 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -150,7 +150,7 @@ func (x *IdentifierArray) Index(val string) int {
 
 func (x *IdentifierArray) Remove(v string) {
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..c848417 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -395,7 +395,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -499,7 +499,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 5412cfce75f63e7cdaaf2a8cb2544a0275ddfded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 003/107] fix: deleting the index one past a resource list does
 not panic

---
 models/xmp_mm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index 0cf33b1..b1f2aac 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -80,7 +80,7 @@ func (x ResourceRefArray) Index(did xmp.GUID) int {
 }
 
 func (x *ResourceRefArray) DeleteIndex(idx int) {
-	if idx < 0 || idx > len(*x) {
+	if idx < 0 || idx >= len(*x) {
 		return
 	}
 	*x = append((*x)[:idx], ((*x)[idx+1:])...)
-- 
2.43.0


From b74083c8bb7916034f09262569368d94af8f8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 004/107] fix: language alternatives keep one entry per
 language and one default, x-default names the default

---
 xmp/array.go | 68 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index c848417..b466125 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -56,9 +56,12 @@ func (x *AltItem) UnmarshalText(data []byte) error {
 	return nil
 }
 
+// language tag that names the default item
+const altDefaultLang = "x-default"
+
 func (x AltItem) GetLang() string {
 	if x.Lang == "" && x.IsDefault {
-		return "x-default"
+		return altDefaultLang
 	}
 	return x.Lang
 }
@@ -108,7 +111,10 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
-		if idx != 0 {
+		switch {
+		case idx < 0:
+			(*a)[0].IsDefault = true
+		case idx > 0:
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
 	} else if l == 1 {
@@ -126,6 +132,9 @@ func (a AltString) Default() string {
 }
 
 func (a AltString) Index(lang string) int {
+	if lang == altDefaultLang {
+		lang = ""
+	}
 	for i, v := range a {
 		if v.Lang == lang {
 			return i
@@ -135,7 +144,7 @@ func (a AltString) Index(lang string) int {
 }
 
 func (a AltString) Get(lang string) string {
-	if lang == "" {
+	if lang == "" || lang == altDefaultLang {
 		return a.Default()
 	}
 	for _, v := range a {
@@ -150,19 +159,26 @@ func (a *AltString) AddDefault(lang string, value string) {
 	if value == "" {
 		return
 	}
-	i := AltItem{
+	if lang == altDefaultLang {
+		lang = ""
+	}
+
+	// add new default as first element
+	l := append(make(AltString, 0, len(*a)+1), AltItem{
 		Value:     value,
 		Lang:      lang,
 		IsDefault: true,
-	}
+	})
 
-	// clear any previous default
-	for i, l := 0, len(*a); i < l; i++ {
-		(*a)[i].IsDefault = false
+	// clear any previous default and drop items the new default replaces
+	for _, v := range *a {
+		if v.Lang == lang || v.Lang == "" {
+			continue
+		}
+		v.IsDefault = false
+		l = append(l, v)
 	}
-
-	// add new default as first element
-	*a = append(AltString{i}, (*a)...)
+	*a = l
 }
 
 func (a *AltString) AddUnique(lang string, value string) bool {
@@ -176,10 +192,20 @@ func (a *AltString) AddUnique(lang string, value string) bool {
 	return true
 }
 
+// there is at most one item per language, so adding a language that
+// already exists replaces its value
 func (a *AltString) Add(lang string, value string) {
 	if value == "" {
 		return
 	}
+	if i := a.Index(lang); i > -1 {
+		(*a)[i].Value = value
+		return
+	}
+	if lang == "" || lang == altDefaultLang {
+		a.AddDefault("", value)
+		return
+	}
 	*a = append(*a, AltItem{
 		Value:     value,
 		Lang:      lang,
@@ -192,22 +218,11 @@ func (a *AltString) Set(lang string, value string) {
 	if value == "" {
 		return
 	}
-	if i := a.Index(lang); i > -1 {
-		(*a)[i].Value = value
-	} else {
-		a.Add(lang, value)
-	}
+	a.Add(lang, value)
 }
 
 func (a *AltString) RemoveLang(lang string) {
-	idx := -1
-	for i, v := range *a {
-		if v.Lang == lang {
-			idx = i
-			break
-		}
-	}
-	if idx > -1 {
+	if idx := a.Index(lang); idx > -1 {
 		*a = append((*a)[:idx], (*a)[idx+1:]...)
 		a.EnsureDefault()
 	}
@@ -246,6 +261,7 @@ func (x *AltString) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 		*x = append((*x)[:dup], (*x)[dup+1:]...)
 	}
 
+	x.EnsureDefault()
 	return nil
 }
 
@@ -557,7 +573,7 @@ func MarshalArray(e *Encoder, node *Node, typ ArrayType, items interface{}) erro
 			ai := v.(AltItem)
 			if typ == ArrayTypeAlternative {
 				if ai.IsDefault || val.Len() == 1 {
-					elem.AddStringAttr("xml:lang", "x-default")
+					elem.AddStringAttr("xml:lang", altDefaultLang)
 					if err := e.EncodeElement(ai.Value, elem); err != nil {
 						return err
 					}
@@ -632,7 +648,7 @@ func UnmarshalArray(d *Decoder, node *Node, typ ArrayType, out interface{}) erro
 			if typ == ArrayTypeAlternative {
 				for _, v := range n.GetAttr("", "lang") {
 					switch v.Value {
-					case "x-default":
+					case altDefaultLang:
 						i.IsDefault = true
 					default:
 						i.Lang = v.Value
-- 
2.43.0


From 2e20fc59f89b662140234f0568e2ee8fd5a5607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 005/107] fix: split integers accept the full range of bytes
 and of 32 bit numbers

---
 xmp/units.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..00fcda0 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From a9533c32ba16268f07d533dc3d03e316da617fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 006/107] fix: infinities keep their sign in JSON

---
 xmp/units.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 00fcda0..18ae66c 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -361,9 +361,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -432,9 +432,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
-- 
2.43.0


From 786722865889b3a060eb5a29a789153b04e5b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 007/107] fix: durations of more seconds than fit are rejected
 instead of wrapped

---
 xmp/units.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 18ae66c..a4dddc4 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -232,6 +232,9 @@ func (d Duration) String() string {
 func ParseDuration(d string) (Duration, error) {
 	// parse integer values as seconds
 	if i, err := strconv.ParseInt(d, 10, 64); err == nil {
+		if i > math.MaxInt64/int64(time.Second) || i < math.MinInt64/int64(time.Second) {
+			return 0, fmt.Errorf("xmp: parsing duration '%s': value out of range", d)
+		}
 		return Duration(time.Duration(i) * time.Second), nil
 	}
 	// parse as duration string (note: no whitespace allowed)
@@ -271,9 +274,8 @@ func (d *Duration) UnmarshalJSON(data []byte) error {
 	if data[0] == '"' {
 		return d.UnmarshalText(bytes.Trim(data, "\""))
 	}
-	if i, err := strconv.ParseInt(string(data), 10, 64); err == nil {
-		*d = Duration(time.Duration(i) * time.Second)
-		return nil
+	if _, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		return d.UnmarshalText(data)
 	}
 	return fmt.Errorf("xmp: parsing duration '%s': invalid syntax", string(data))
 }
-- 
2.43.0


From 975746f0bcb19932ccf6ddca634cec0bb258b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 008/107] fix: booleans can be read back from JSON

---
 xmp/xmp_types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..b6bc33a 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -85,6 +85,13 @@ func (x Bool) MarshalJSON() ([]byte, error) {
 	return json.Marshal(x.Value())
 }
 
+func (x *Bool) UnmarshalJSON(data []byte) error {
+	if len(data) == 0 || string(data) == "null" {
+		return nil
+	}
+	return x.UnmarshalText(bytes.Trim(data, "\""))
+}
+
 // 8.2.1.2 Date
 type Date time.Time
 
-- 
2.43.0


From c3a22a2e4b05392963be046634fa89bcb0d627eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 009/107] fix: decimal rationals below one and negative ones
 keep their value

---
 xmp/xmp_types.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index b6bc33a..e69da60 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -40,6 +40,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -584,9 +585,13 @@ func (x *Rational) UnmarshalText(data []byte) error {
 		var f float64
 		f, err = strconv.ParseFloat(v, 32)
 		if err == nil {
-			if f < 1 {
-				r = Rational{1, int64(1000/f+50) / 1000}
-			} else {
+			den := math.Round(1 / f)
+			switch {
+			case math.IsNaN(f) || f >= math.MaxInt64/10000 || f <= math.MinInt64/1000000:
+				err = strconv.ErrRange
+			case f > 0 && f < 1 && den < math.MaxInt64 && math.Abs(1/den-f) < 0.5e-6:
+				r = Rational{1, int64(den)}
+			default:
 				r = FloatToRational(float32(f))
 			}
 			// fmt.Printf("Float %f in Rational %d/%d\n", f, r.Num, r.Den)
-- 
2.43.0


From 7a568356f8c59d350200eec4e3131f7b1e6c0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 010/107] fix: namespace declarations are written in a stable
 order

---
 xmp/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..813664d 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -240,7 +240,13 @@ func (n *Node) Namespaces(d *Document) NamespaceList {
 		l = append(l, v.Namespaces(d)...)
 	}
 
-	for name, _ := range m {
+	// use a stable order
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		ns := d.findNsByPrefix(name)
 		if ns != nil && ns != nsRDF && ns != nsXML {
 			l = append(l, ns)
-- 
2.43.0


From 0c3a43c775f5c392fc7a617e4cb6edae80fb0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 011/107] fix: structures whose types also accept text are read
 back from XML

---
 xmp/unmarshal.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index e64d069..9189f62 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -232,7 +232,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	}
 
 	// Text
-	if val.CanAddr() {
+	if val.CanAddr() && !isStructNode(val, src) {
 		pv := val.Addr()
 		if pv.CanInterface() && (finfo != nil && finfo.flags&fTextUnmarshal > 0 || pv.Type().Implements(textUnmarshalerType)) {
 			return pv.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(src.Value))
@@ -288,6 +288,23 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	return nil
 }
 
+// isStructNode reports whether a node must be read field by field although its
+// type accepts text. This is true for structs that are written field by field.
+func isStructNode(val reflect.Value, src *Node) bool {
+	if val.Kind() != reflect.Struct || src.Value != "" || val.Addr().Type().Implements(textMarshalerType) {
+		return false
+	}
+	if len(src.Nodes) > 0 {
+		return true
+	}
+	for _, v := range src.Attr {
+		if !skipField(v.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) error {
 	// Load value from interface
 	val = derefValue(val)
-- 
2.43.0


From 25dd23d0498449f8b48e70ab9f7a5b3c32fb59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 012/107] fix: content ratings keep all their parts

---
 models/itunes/types.go | 11 ++++++-----
 models/qt/types.go     | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..bbd4136 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -75,7 +75,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -99,13 +100,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..11311eb 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -115,7 +115,7 @@ type ContentRating struct {
 }
 
 func (x ContentRating) IsZero() bool {
-	return x.Standard == "" && x.Rating == ""
+	return x.Standard == "" && x.Rating == "" && x.Score == "" && x.Reasons == ""
 }
 
 func (x ContentRating) String() string {
@@ -128,6 +128,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -139,13 +140,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From a40077631602b9f88b91447896194c933fcd6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 013/107] fix: movie asset information is written as an
 element, it cannot be an attribute

---
 models/itunes/movieinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/itunes/movieinfo.go b/models/itunes/movieinfo.go
index 90dca48..d679b5d 100644
--- a/models/itunes/movieinfo.go
+++ b/models/itunes/movieinfo.go
@@ -20,7 +20,7 @@ import (
 )
 
 type MovieInfo struct {
-	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo,attr"`
+	AssetInfo     *AssetInfo  `plist:"asset-info"    xmp:"iTunes:AssetInfo"`
 	Studio        string      `plist:"studio"        xmp:"iTunes:Studio,attr"`
 	Cast          PersonArray `plist:"cast"          xmp:"iTunes:Cast"`
 	Directors     PersonArray `plist:"directors"     xmp:"iTunes:Directors"`
-- 
2.43.0


From 26729b37614cc8a36dd3673a66f9b22a1d72c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 014/107] fix: timed lyrics are written as an element, a list
 cannot be an attribute

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..f8e2460 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -259,7 +259,7 @@ type TimedLyrics struct {
 	Lang   string        `xmp:"id3:lang,attr"`
 	Type   LyricsType    `xmp:"id3:type,attr"`
 	Unit   PositionType  `xmp:"id3:unit,attr"`
-	Lyrics TimedTextList `xmp:"id3:lyrics,attr"`
+	Lyrics TimedTextList `xmp:"id3:lyrics"`
 }
 
 type TimedLyricsArray []TimedLyrics
-- 
2.43.0


From 31a1981e10c3765a64ad0accec8f84cdf668577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 015/107] fix: each genre of a genre list keeps its own name

---
 models/id3/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index f8e2460..b995da3 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -151,13 +151,13 @@ func (x *Genre) UnmarshalText(data []byte) error {
 			*x = append(*x, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
 			*x = append(*x, "Remix")
 		case "CR":
 			*x = append(*x, "Cover")
 		default:
-			*x = append(*x, value)
+			*x = append(*x, v)
 		}
 	}
 	return nil
-- 
2.43.0


From d3c52e8cae6ab8fa9682c6b0345f8c9723c6eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 016/107] fix: a resource reference with only a manage UI is
 not empty

---
 models/xmp_mm/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/xmp_mm/types.go b/models/xmp_mm/types.go
index b1f2aac..dd19b01 100644
--- a/models/xmp_mm/types.go
+++ b/models/xmp_mm/types.go
@@ -52,6 +52,7 @@ func (x ResourceRef) IsZero() bool {
 		x.Manager.IsZero() &&
 		x.ManagerVariant == "" &&
 		x.ManageTo == "" &&
+		x.ManageUI == "" &&
 		x.MaskMarkers == "" &&
 		x.PartMapping == "" &&
 		x.RenditionClass == "" &&
-- 
2.43.0


From a4876028d717668d1a1c95fd078f5b23fa806443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 017/107] fix: a part with a start and no duration keeps its
 start

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..178474c 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -114,7 +114,7 @@ func (x Part) MarshalText() ([]byte, error) {
 	if len(x.Path) > 0 && !strings.HasSuffix(x.Path, "/") {
 		buf.WriteByte('/')
 	}
-	if x.Duration.IsZero() {
+	if x.Start.IsZero() && x.Duration.IsZero() {
 		return buf.Bytes(), nil
 	}
 	buf.WriteString("time:")
-- 
2.43.0


From 7a56ed9a4a821e1eb6ee7d0f4e35b97fa9b5919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 018/107] fix: a timecode given by its text value is written as
 such

---
 models/xmp_dm/types.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 178474c..5b0e179 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -643,8 +643,19 @@ func (x Timecode) IsZero() bool {
 	return x.Value == "" && x.Format == ""
 }
 
-func (x Timecode) MarshalJSON() ([]byte, error) {
+// use fields H, M, S and F, or a value that has not been unpacked into them
+func (x *Timecode) pack() {
+	if x.Value != "" && x.H == 0 && x.M == 0 && x.S == 0 && x.F == 0 {
+		t := Timecode{Value: x.Value, IsDropFrame: strings.Contains(x.Value, ";")}
+		if err := t.Unpack(); err == nil {
+			x.H, x.M, x.S, x.F, x.IsDropFrame = t.H, t.M, t.S, t.F, t.IsDropFrame
+		}
+	}
 	x.Value = x.String()
+}
+
+func (x Timecode) MarshalJSON() ([]byte, error) {
+	x.pack()
 	type _t Timecode
 	return json.Marshal(_t(x))
 }
@@ -673,7 +684,7 @@ func (x *Timecode) UnmarshalJSON(data []byte) error {
 }
 
 func (x Timecode) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	x.Value = x.String()
+	x.pack()
 	type _t Timecode
 	return e.EncodeElement(_t(x), node)
 }
-- 
2.43.0


From b7037683360c032dba1fca5d254d3cce67c47c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 019/107] fix: an identifier written with its scheme is read
 back

---
 models/xmp_base/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_base/types.go b/models/xmp_base/types.go
index f26ae5e..33691ff 100644
--- a/models/xmp_base/types.go
+++ b/models/xmp_base/types.go
@@ -83,7 +83,7 @@ func (x *Identifier) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) e
 		err = d.DecodeElement(&id.ID, node) // value from node.Value
 		err = d.DecodeElement(&id, node)    // scheme from attr
 	} else {
-		err = d.DecodeElement(&id, node.Nodes[0]) // both from child nodes
+		err = d.DecodeElement(&id, node) // both from child nodes
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 58de59f430edaa7c87195fb7990142fc5feabacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 020/107] fix: language alternatives of the riff model merge
 the default as others do

---
 models/riff/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/riff/types.go b/models/riff/types.go
index e888026..168d471 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -58,5 +58,5 @@ func (x AltString) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error
 }
 
 func (x *AltString) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
-	return xmp.UnmarshalArray(d, node, xmp.AltString(*x).Typ(), (*xmp.AltString)(x))
+	return (*xmp.AltString)(x).UnmarshalXMP(d, node, m)
 }
-- 
2.43.0


From 737eb4cc7a8ed993516e9667e2679f6c073180c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 021/107] fix: track types can be written

---
 models/xmp_dm/types.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 5b0e179..7ef9feb 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -18,6 +18,7 @@ package xmpdm
 import (
 	"bytes"
 	"encoding/json"
+	"encoding/xml"
 	"fmt"
 	"math"
 	"sort"
@@ -446,6 +447,27 @@ func (x MarkerTypeList) Intersect(y MarkerTypeList) MarkerTypeList {
 	return r
 }
 
+// as attribute the list is separated by comma
+func (x MarkerTypeList) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
+	if len(x) == 0 {
+		return xmp.Attr{}, nil
+	}
+	s := make([]string, len(x))
+	for i, v := range x {
+		s[i] = string(v)
+	}
+	return xmp.Attr{Name: name, Value: strings.Join(s, ",")}, nil
+}
+
+func (x *MarkerTypeList) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
+	for _, v := range strings.Split(a.Value, ",") {
+		if v = strings.TrimSpace(v); v != "" {
+			*x = append(*x, MarkerType(v))
+		}
+	}
+	return nil
+}
+
 func (x MarkerTypeList) Contains(t MarkerType) bool {
 	for _, v := range x {
 		if v == t {
-- 
2.43.0


From 46097c6c2421b3b3c6910dfe72c0b1b897f44cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 022/107] fix: a value without text does not hide all other
 paths of a model

---
 xmp/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..6c6dada 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1148,7 +1148,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 					if isText {
 						b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-						if err != nil || b == nil {
+						if err != nil {
 							return nil, err
 						}
 						pvl.Add(path.Push(fname).AppendIndex(i), string(b))
@@ -1192,7 +1192,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 
 		if isText {
 			b, err := av.Interface().(encoding.TextMarshaler).MarshalText()
-			if err != nil || b == nil {
+			if err != nil {
 				return nil, err
 			}
 			pvl.Add(path.Push(fname), string(b))
-- 
2.43.0


From 5d508ce7530ee723e6692de0c7e41a8cbe14a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 023/107] fix: documents with marker types can be listed and
 addressed by path

---
 models/xmp_dm/types.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 7ef9feb..ea56ec4 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -447,6 +447,18 @@ func (x MarkerTypeList) Intersect(y MarkerTypeList) MarkerTypeList {
 	return r
 }
 
+func (x MarkerTypeList) Typ() xmp.ArrayType {
+	return xmp.ArrayTypeOrdered
+}
+
+func (x MarkerTypeList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
+	return xmp.MarshalArray(e, node, x.Typ(), x)
+}
+
+func (x *MarkerTypeList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	return xmp.UnmarshalArray(d, node, x.Typ(), x)
+}
+
 // as attribute the list is separated by comma
 func (x MarkerTypeList) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
 	if len(x) == 0 {
-- 
2.43.0


From 21cbdc14b163462c81a2a9146931923bbcc01541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 024/107] fix: reading a genre replaces the previous one,
 syncing it does not repeat it

---
 models/id3/types.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index b995da3..b6866d6 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -145,21 +145,23 @@ type Genre []string
 
 func (x *Genre) UnmarshalText(data []byte) error {
 	value := string(data)
+	l := make(Genre, 0)
 	for _, v := range strings.Split(value, ",") {
 		v = strings.TrimSpace(v)
 		if g, err := ParseGenreV1(v); err == nil {
-			*x = append(*x, g.String())
+			l = append(l, g.String())
 			continue
 		}
 		switch v {
 		case "RX":
-			*x = append(*x, "Remix")
+			l = append(l, "Remix")
 		case "CR":
-			*x = append(*x, "Cover")
+			l = append(l, "Cover")
 		default:
-			*x = append(*x, v)
+			l = append(l, v)
 		}
 	}
+	*x = l
 	return nil
 }
 
-- 
2.43.0


From 8980a58f4b34dd2c819d463b04e6e15b985de664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 025/107] fix: paths address language alternatives of all
 models by language

---
 xmp/path.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 6c6dada..6794588 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -333,7 +333,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case ExtensionArray:
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
@@ -650,7 +650,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			av = fv.Addr()
 		}
 		if av.CanInterface() && (finfo != nil && finfo.flags&fArray > 0 || av.Type().Implements(arrayType)) {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case *ExtensionArray:
 				// unwrap extension namespace and keep path remainder
 				name = walker.PeekNamespacePrefix()
@@ -1077,7 +1077,7 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 		}
 
 		if isArray {
-			switch arr := av.Interface().(type) {
+			switch arr := arrayInterface(av).(type) {
 			case ExtensionArray:
 				for i, v := range arr {
 					subpath := path.Push(fname).AppendIndex(i)
@@ -1270,6 +1270,23 @@ func parsePathSegment(name string) (string, int, string) {
 	return name, idx, lang
 }
 
+var (
+	altStringType    = reflect.TypeOf(AltString{})
+	altStringPtrType = reflect.TypeOf((*AltString)(nil))
+)
+
+// arrayInterface returns an array value, types derived from AltString are
+// converted because they are addressed by language as well
+func arrayInterface(v reflect.Value) interface{} {
+	switch t := v.Type(); {
+	case t.Kind() == reflect.Slice && t.ConvertibleTo(altStringType):
+		v = v.Convert(altStringType)
+	case t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Slice && t.ConvertibleTo(altStringPtrType):
+		v = v.Convert(altStringPtrType)
+	}
+	return v.Interface()
+}
+
 func growSlice(v reflect.Value, n int) {
 	if v.Kind() != reflect.Slice {
 		return
-- 
2.43.0


From 80d93b869fa2f77cbf51e9c556d44e14b0fe0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 026/107] fix: a speed section without any rate does not divide
 by zero

---
 models/ixml/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index b0b69ba..476aa4e 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -151,6 +151,9 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	if rate == 0 {
 		rate = int64(x.TimecodeRate.Value() * 1000)
 	}
+	if rate <= 0 {
+		return xmpdm.Timecode{}
+	}
 	sec := samples / rate
 	h := sec / 3600
 	m := (sec - h*3600) / 60
-- 
2.43.0


From 8f553d73ac7c6bb1dfb0a166164c7ff08d4e8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 027/107] fix: timecodes made from a sample position have their
 frame number and text value

---
 models/ixml/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/models/ixml/types.go b/models/ixml/types.go
index 476aa4e..bc8b6c2 100644
--- a/models/ixml/types.go
+++ b/models/ixml/types.go
@@ -17,6 +17,7 @@ package ixml
 import (
 	"encoding/xml"
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/xmp_dm"
@@ -158,9 +159,10 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 	h := sec / 3600
 	m := (sec - h*3600) / 60
 	s := sec - h*3600 - m*60
-	f := int((samples % rate) * x.TimecodeRate.Num / rate / 1000)
+	fps := int64(math.Round(x.TimecodeRate.Value())) // timecode counts whole frames
+	f := int((samples % rate) * fps / rate)
 	isDrop := x.TimecodeFlag == TimecodeFlagDF
-	return xmpdm.Timecode{
+	tc := xmpdm.Timecode{
 		Format:      xmpdm.ParseTimecodeFormat(x.TimecodeRate.Value(), isDrop),
 		H:           int(h),
 		M:           int(m),
@@ -168,6 +170,8 @@ func (x Speed) XmpTimecode() xmpdm.Timecode {
 		F:           f,
 		IsDropFrame: isDrop,
 	}
+	tc.Value = tc.String()
+	return tc
 }
 
 type History struct {
-- 
2.43.0


From 54d353d87ba20717ee116d17575b8eaab3055ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 028/107] fix: looking up extensions by path without index does
 not panic, named extensions are found

---
 xmp/path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 6794588..6ad9291 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -335,6 +335,10 @@ func GetModelPath(v Model, path Path) (string, error) {
 		if isArray {
 			switch arr := arrayInterface(av).(type) {
 			case ExtensionArray:
+				// sanitize array index
+				if idx < 0 {
+					idx = 0
+				}
 				if walker.Len() == 0 || fv.Len() <= idx {
 					return "", errNotFound
 				}
@@ -351,6 +355,8 @@ func GetModelPath(v Model, path Path) (string, error) {
 				return node.GetPath(walker)
 
 			case NamedExtensionArray:
+				// the first segment below is the name of the extension
+				name, walker = walker.PopFront()
 				node := arr.FindNodeByName(name)
 				if node == nil {
 					return "", errNotFound
-- 
2.43.0


From 91de36aab694d3603e28811e211487c699383166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 029/107] fix: paths of unknown properties address one node,
 follow the flags and are listed completely

---
 xmp/node.go | 224 +++++++++++++++++++++++++++++-----------------------
 xmp/path.go |   2 +-
 2 files changed, 127 insertions(+), 99 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index 813664d..e8a54ca 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -410,8 +410,12 @@ func (n *Node) GetPath(path Path) (string, error) {
 		return n.GetPath(path)
 	}
 
-	// lookup name in node list or attributes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
+	// lookup name in node list or attributes, a segment without name
+	// addresses an entry of the array in this node
+	node := n
+	if name != "" {
+		node = n.findChild(path.NamespacePrefix(), name)
+	}
 	if node != nil {
 		switch {
 		case idx > -1:
@@ -422,17 +426,11 @@ func (n *Node) GetPath(path Path) (string, error) {
 			return node.Nodes[0].Nodes[idx].GetPath(path)
 		case lang != "":
 			// drill two levels deep into alt-array nodes alt+li
-			if len(node.Nodes) == 0 || len(node.Nodes[0].Nodes) == 0 {
+			if len(node.Nodes) == 0 {
 				return "", nil
 			}
-			for _, v := range node.Nodes[0].Nodes {
-				attr := v.GetAttr("", "lang")
-				if len(attr) == 0 {
-					continue
-				}
-				if attr[0].Value == string(lang) {
-					return v.Value, nil
-				}
+			if li := node.Nodes[0].findLang(lang); li != nil {
+				return li.Value, nil
 			}
 			return "", nil
 		default:
@@ -440,12 +438,46 @@ func (n *Node) GetPath(path Path) (string, error) {
 		}
 	}
 
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		return attr[0].Value, nil
+	if i := n.findAttr(path.NamespacePrefix(), name); i > -1 {
+		return n.Attr[i].Value, nil
 	}
 	return "", nil
 }
 
+// findChild returns the child node a path segment addresses. Nodes without
+// namespace are addressed by their plain name.
+func (n *Node) findChild(prefix, name string) *Node {
+	for _, v := range n.Nodes {
+		if full := v.FullName(); full == prefix+":"+name || full == name {
+			return v
+		}
+	}
+	return nil
+}
+
+// findAttr returns the position of the attribute a path segment addresses.
+func (n *Node) findAttr(prefix, name string) int {
+	for i, v := range n.Attr {
+		if skipField(v.Name) {
+			continue
+		}
+		if full := v.Name.Local; full == prefix+":"+name || full == name {
+			return i
+		}
+	}
+	return -1
+}
+
+// findLang returns the list item of a language alternative.
+func (n *Node) findLang(lang string) *Node {
+	for _, v := range n.Nodes {
+		if attr := v.GetAttr("", "lang"); len(attr) > 0 && attr[0].Value == lang {
+			return v
+		}
+	}
+	return nil
+}
+
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
@@ -455,33 +487,44 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 	// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name, path, idx, lang)
 	if name == "" && idx == -1 && lang == "" {
-		if path.Len() == 0 {
-			n.Value = value
+		if path.Len() > 0 {
+			// ignore empty path segments and recurse
+			return n.SetPath(path, value, flags)
+		}
+		if value != "" && n.Value != "" && n.Value != value && flags&REPLACE == 0 {
+			return fmt.Errorf("REPLACE flag required to change value of '%s'", n.FullName())
 		}
+		n.Value = value
 		return nil
 	}
 
+	// handle nodes, a segment without name addresses an entry of the array in
+	// this node
+	node := n
+	if name != "" {
+		node = n.findChild(path.NamespacePrefix(), name)
+	}
+
 	// handle attribute
-	if attr := n.GetAttr("", stripPrefix(name)); len(attr) > 0 {
-		switch {
-		case flags&REPLACE > 0 && value != "":
-			attr[0].Value = value
-			return nil
-		case flags&DELETE > 0 && value == "":
-			attr[0].Value = value
-			// will be ignored on next marshal
+	if node == nil && idx == -1 && lang == "" && path.Len() == 0 {
+		if i := n.findAttr(path.NamespacePrefix(), name); i > -1 {
+			switch {
+			case value == "" && flags&DELETE > 0:
+				// will be ignored on next marshal
+			case value != "" && flags&REPLACE > 0:
+			case value != "" && flags&CREATE > 0 && n.Attr[i].Value == "":
+			default:
+				return fmt.Errorf("unsupported flag combination %v for attribute %s", flags, name)
+			}
+			n.Attr[i].Value = value
 			return nil
 		}
 	}
 
-	// handle nodes
-	node := n.Nodes.FindNodeByName(stripPrefix(name))
 	if node == nil {
 		if flags&CREATE > 0 && value != "" {
-			if name != "" && !hasPrefix(name) {
-				name = path.NamespacePrefix() + ":" + name
-			}
-			node = n.AddNode(NewNode(NewName(name)))
+			name = path.NamespacePrefix() + ":" + name
+			node = n.AppendNode(NewNode(NewName(name)))
 		} else {
 			return fmt.Errorf("CREATE flag required to make node '%s'", name)
 		}
@@ -492,6 +535,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		if arr == nil {
 			arr = node.Nodes.FindNodeByName("Bag")
 		}
+		if arr == nil {
+			arr = node.Nodes.FindNodeByName("Alt")
+		}
 		if arr == nil && flags&CREATE == 0 {
 			return fmt.Errorf("CREATE flag required to make array '%s'", name)
 		}
@@ -534,6 +580,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 		case flags&(REPLACE|CREATE) > 0 && value != "" && idx == -1:
 			// replace the entire xmp array
+			if len(arr.Nodes) > 0 && flags&REPLACE == 0 {
+				return fmt.Errorf("REPLACE flag required to replace array '%s'", name)
+			}
 			arr.Clear()
 			li := arr.AppendNode(NewNode(NewName("rdf:li")))
 			li.Value = value
@@ -545,6 +594,9 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 					arr.AppendNode(NewNode(NewName("rdf:li")))
 				}
 			}
+			if arr.Nodes[idx].Value != "" && flags&REPLACE == 0 {
+				return fmt.Errorf("REPLACE flag required to replace item %d of '%s'", idx, name)
+			}
 			arr.Nodes[idx].Value = value
 
 		case flags&DELETE > 0 && value == "" && idx == -1:
@@ -563,67 +615,35 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	// AltString array
 	case lang != "":
 		arr := node.Nodes.FindNodeByName("Alt")
-		if arr == nil && flags&(CREATE|APPEND) == 0 {
-			return fmt.Errorf("CREATE flag required to extend array '%s'", name)
-		}
-		if arr == nil {
-			arr = node.AddNode(NewNode(NewName("rdf:Alt")))
+		var li *Node
+		if arr != nil {
+			li = arr.findLang(lang)
 		}
 		switch {
-		case flags&UNIQUE > 0 && value != "":
-			// append source when not exist
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang && v.Value == value {
-						return nil
-					}
-				}
+		case value == "" && flags&DELETE > 0:
+			// delete a specific language
+			if li != nil {
+				arr.RemoveNode(li).Close()
 			}
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
-			li.Value = value
 
-		case flags&APPEND > 0 && value != "":
-			// append source value
-			li := arr.AppendNode(NewNode(NewName("rdf:li")))
-			li.AddStringAttr("xml:lang", lang)
+		case value != "" && li != nil:
+			// replace single entry, languages are unique
+			if li.Value != value && li.Value != "" && flags&REPLACE == 0 {
+				return fmt.Errorf("REPLACE flag required to replace language '%s' of '%s'", lang, name)
+			}
 			li.Value = value
 
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang != "":
-			// replace single entry
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						v.Value = value
-						return nil
-					}
-				}
+		case value != "" && flags&(CREATE|APPEND|UNIQUE) > 0:
+			// add an entry for the language
+			if arr == nil {
+				arr = node.AddNode(NewNode(NewName("rdf:Alt")))
 			}
-
-		case flags&(REPLACE|CREATE) > 0 && value != "" && lang == "":
-			// replace entire AltString with a new version
-			arr.Clear()
-			li := NewNode(NewName("rdf:li"))
+			li = arr.AppendNode(NewNode(NewName("rdf:li")))
 			li.AddStringAttr("xml:lang", lang)
 			li.Value = value
-			arr.Nodes = NodeList{li}
-
-		case flags&DELETE > 0 && value == "" && lang != "":
-			// delete a specific language
-			for _, v := range arr.Nodes {
-				if attr := v.GetAttr("", "lang"); len(attr) > 0 {
-					if attr[0].Value == lang {
-						arr.RemoveNode(v).Close()
-						return nil
-					}
-				}
-			}
 
-		case flags&DELETE > 0 && value == "" && lang == "":
-			// remove and close the entire array
-			node.RemoveNode(arr).Close()
 		default:
-			return fmt.Errorf("unsupported flag combination %v", flags)
+			return fmt.Errorf("unsupported flag combination %v for %s", flags, name)
 		}
 
 	default:
@@ -632,7 +652,7 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 		}
 		// fmt.Printf("Set Node path ns=%s len=%d, path=%s, name=%s\n", path.NamespacePrefix(), path.Len(), path.String(), name)
 		switch {
-		case flags&(REPLACE|CREATE) > 0 && value != "":
+		case value != "" && (flags&REPLACE > 0 || flags&CREATE > 0 && node.Value == ""):
 			node.Value = value
 			return nil
 		case flags&DELETE > 0 && value == "":
@@ -650,31 +670,39 @@ func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 
 func (n *Node) ListPaths(path Path) (PathValueList, error) {
 	l := make(PathValueList, 0)
+
+	// segments inherit the namespace of the last segment that has a prefix
+	prefix := path.NamespacePrefix()
+	for _, v := range path.Fields() {
+		if hasPrefix(v) {
+			prefix = getPrefix(v)
+		}
+	}
+
 	switch n.FullName() {
 	case "rdf:Seq", "rdf:Bag":
 		for i, li := range n.Nodes {
 			_, walker := path.Pop()
-			walker = walker.AppendIndex(i)
-			for _, v := range li.Nodes {
-				name := v.Name()
-				if v.Namespace() != path.NamespacePrefix() {
-					name = v.FullName()
-				}
-				r, err := v.ListPaths(walker.Push(name))
+			r, err := li.ListPaths(walker.AppendIndex(i))
+			if err != nil {
+				return nil, err
+			}
+			l = append(l, r...)
+		}
+	case "rdf:Alt":
+		for i, li := range n.Nodes {
+			_, walker := path.Pop()
+			attr := li.GetAttr("", "lang")
+			if len(attr) == 0 || attr[0].Value == "" {
+				// alternatives other than languages are addressed by position
+				r, err := li.ListPaths(walker.AppendIndex(i))
 				if err != nil {
 					return nil, err
 				}
 				l = append(l, r...)
+				continue
 			}
-		}
-	case "rdf:Alt":
-		for _, li := range n.Nodes {
-			lang := "x-default"
-			if attr := li.GetAttr("", "lang"); len(attr) > 0 {
-				lang = attr[0].Value
-			}
-			_, walker := path.Pop()
-			walker = walker.AppendIndexString(lang)
+			walker = walker.AppendIndexString(attr[0].Value)
 			l = append(l, PathValue{
 				Path:  walker,
 				Value: li.Value,
@@ -686,7 +714,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := a.Name.Local
-			if hasPrefix(name) && getPrefix(name) == path.NamespacePrefix() {
+			if hasPrefix(name) && getPrefix(name) == prefix {
 				name = stripPrefix(name)
 			}
 			l = append(l, PathValue{
@@ -699,7 +727,7 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			name := v.Name()
-			if v.Namespace() != path.NamespacePrefix() {
+			if v.Namespace() != prefix {
 				name = v.FullName()
 			}
 			r, err := v.ListPaths(path.Push(name))
diff --git a/xmp/path.go b/xmp/path.go
index 6ad9291..26e70d2 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1262,7 +1262,7 @@ func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
 	// split lang or array index from name, be safe with slice indexes
-	if k := strings.Index(name, "["); k > 0 && len(name) > k+1 {
+	if k := strings.Index(name, "["); k > -1 && len(name) > k+1 {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
-- 
2.43.0


From b712a9ff8c69759431649a9d179260c55ba81421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 030/107] fix: writes through paths replace existing values
 only when permitted, map entries can be deleted

---
 xmp/path.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 26e70d2..5ccc103 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -608,9 +608,12 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			switch {
 			case flags&DELETE > 0 && value == "":
 				// remove map value
-				fv.SetMapIndex(reflect.ValueOf(name), reflect.Zero(t.Elem()))
+				fv.SetMapIndex(reflect.ValueOf(name), reflect.Value{})
 				return nil
 			case flags&(REPLACE|CREATE) > 0 && value != "":
+				if v := fv.MapIndex(reflect.ValueOf(name)); v.IsValid() && !isEmptyValue(v) && flags&REPLACE == 0 {
+					return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+				}
 				// set map value
 				switch t.Elem().Kind() {
 				case reflect.String:
@@ -647,7 +650,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					return nil
 				}
 			}
-			continue
+			return fmt.Errorf("unsupported flag combination %v", flags)
 		}
 
 		// handle Slice/Array type fields as pointers to make them settable
@@ -686,6 +689,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					// Type 1: model and nodes on top-level (name not empty)
 					node = ext.FindNodeByName(name)
 					if node == nil {
+						node = (*Node)(ext).AddNode(NewNode(NewName(name)))
 						if ns, err := GetNamespace(name); err == nil {
 							node.Model = ns.NewModel()
 						}
@@ -739,6 +743,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 				return node.SetPath(walker, value, flags)
 
 			case *AltString:
+				if old := arr.Get(lang); value != "" && old != "" && old != value && flags&REPLACE == 0 {
+					return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+				}
 				switch {
 				case flags&UNIQUE > 0 && value != "":
 					// append source when not exist
@@ -762,6 +769,8 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else {
 						fv.Set(reflect.Zero(fv.Type()))
 					}
+				default:
+					return fmt.Errorf("unsupported flag combination %v", flags)
 				}
 				return nil
 
@@ -918,6 +927,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else if err := setValue(v, value); err != nil {
 						return err
 					}
+					if idx < fv.Len() && !isEmptyValue(fv.Index(idx)) && flags&REPLACE == 0 {
+						return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
+					}
 					// optionally growing the slice
 					growSlice(fv, idx)
 					// overwrite current entry,
@@ -933,6 +945,9 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 					} else if err := setValue(v, value); err != nil {
 						return err
 					}
+					if fv.Len() > 0 && flags&REPLACE == 0 {
+						return fmt.Errorf("REPLACE flag required for replacing list %s on path %s", name, path)
+					}
 					fv.Set(reflect.Zero(fv.Type()))
 					fv.Set(reflect.Append(fv, v.Elem()))
 
-- 
2.43.0


From 40c27e8a142a3cca08b1782116672bcbcdfcf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 031/107] fix: setting a namespace path to a value does not
 remove the namespace

---
 xmp/path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 5ccc103..2d0d76f 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -492,8 +492,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	}
 
 	// delete model when only namespace is set
-	if path.Len() == 0 && flags&DELETE > 0 {
+	if path.Len() == 0 && flags&DELETE > 0 && value == "" {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-- 
2.43.0


From 710856d3a8abf8eb4c9098fdd79f6784e8ab4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 032/107] fix: growing a list by path does not bring back
 deleted elements

---
 xmp/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index 2d0d76f..a001c44 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -1321,5 +1321,9 @@ func growSlice(v reflect.Value, n int) {
 			v.Set(nv)
 		}
 		v.SetLen(n + 1)
+		// spare capacity may hold deleted elements
+		for ; l <= n; l++ {
+			v.Index(l).Set(reflect.Zero(v.Type().Elem()))
+		}
 	}
 }
-- 
2.43.0


From 6d47e435116044d2dd9b78e190eed6d477f080e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 033/107] fix: values of any type can be deleted by path

---
 xmp/path.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index a001c44..633a7d0 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -982,6 +982,14 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		// clear the value, not all types can be set from an empty text
+		if value == "" {
+			if p := finfo.value(val); p.CanSet() {
+				p.Set(reflect.Zero(p.Type()))
+				return nil
+			}
+		}
+
 		// Text
 		if fv.CanAddr() {
 			pv := fv.Addr()
-- 
2.43.0


From 3fc04eed9c24070fa11c1ecd175ce7d00ba3c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 034/107] fix: an element without text does not prevent adding
 to a list

---
 xmp/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 633a7d0..f337601 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -874,7 +874,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 						if isText {
 							b, err := vv.Interface().(encoding.TextMarshaler).MarshalText()
-							if err != nil || b == nil {
+							if err != nil {
 								return err
 							}
 							if value == string(b) {
-- 
2.43.0


From 5ab41aa4b4de544820a1f111b477e626c34e6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 035/107] fix: unknown attributes of extensions are written

---
 xmp/xmp_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 88a513b..06f4f9f 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -57,6 +57,9 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 
 		// unwrap one extra layer that we keep for identifying extensions
 		if x.XMLName.Local == "" {
+			for _, attr := range ext.Attr {
+				node.AddAttr(attr)
+			}
 			for _, child := range ext.Nodes {
 				if child.Model != nil {
 					if err := e.EncodeElement(child.Model, node); err != nil {
-- 
2.43.0


From aa5a4daf402103cbb7ee1e3fdaefa4bd13353b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 036/107] fix: language alternatives keep their default in
 JSON, alternatives of the wrong shape do not panic

---
 xmp/json.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 59931ce..6162e01 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -195,17 +195,16 @@ func nodeToJson(n *Node) (interface{}, error) {
 					}
 					a = append(a, ai)
 				}
-				// mark the default item
-				if defLangContent != "" && len(a) > 1 {
+				// mark the item that repeats the default and remove the
+				// duplicate default element
+				if defLangContent != "" {
 					for i, l := 0, len(a); i < l; i++ {
-						if a[i].Value == defLangContent {
+						if i != defLangIndex && a[i].Value == defLangContent {
 							a[i].IsDefault = true
+							a = append(a[:defLangIndex], a[defLangIndex+1:]...)
+							break
 						}
 					}
-					// remove the duplicate default element
-					if defLangIndex > -1 {
-						a = append(a[:defLangIndex], a[defLangIndex+1:]...)
-					}
 				}
 				return a, nil
 			}
@@ -328,10 +327,19 @@ func jsonToNode(name string, v interface{}, node *Node) {
 			linode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 			anode.Nodes = append(anode.Nodes, linode)
 			if typ == ArrayTypeAlternative {
-				item := av.(map[string]interface{})
-				def := item["isDefault"].(bool)
-				lang := item["lang"].(string)
-				val := item["value"].(string)
+				item, ok := av.(map[string]interface{})
+				if !ok {
+					jsonToNode("", av, linode)
+					continue
+				}
+				def, _ := item["isDefault"].(bool)
+				lang, _ := item["lang"].(string)
+				val, _ := item["value"].(string)
+
+				// alternatives other than languages
+				if !def && lang == "" {
+					linode.Value = val
+				}
 
 				// add single node when default || !default && lang != ""
 				if def || !def && lang != "" {
@@ -351,7 +359,7 @@ func jsonToNode(name string, v interface{}, node *Node) {
 				}
 
 				// add second node for default && lang != ""
-				if def && lang != "" {
+				if def && lang != "" && lang != "x-default" {
 					linode = NewNode(xml.Name{Space: nsRDF.GetURI(), Local: "li"})
 					anode.Nodes = append(anode.Nodes, linode)
 					linode.Attr = append(linode.Attr, Attr{
-- 
2.43.0


From 1c500e49d3a2ee2d564caa3ead9872912e3d8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 037/107] fix: track types can be read from JSON

---
 models/xmp_dm/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index ea56ec4..b9e61dc 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -456,6 +456,10 @@ func (x MarkerTypeList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model)
 }
 
 func (x *MarkerTypeList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
+	// attributes are nodes in JSON
+	if len(node.Nodes) == 0 {
+		return x.UnmarshalXMPAttr(d, xmp.Attr{Name: node.XMLName, Value: node.Value})
+	}
 	return xmp.UnmarshalArray(d, node, x.Typ(), x)
 }
 
-- 
2.43.0


From 8313bfed4b108448f0afa5b6aa189ef5d86c7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 038/107] fix: attributes of named extensions are written once

---
 xmp/xmp_ext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 06f4f9f..516ef34 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -186,7 +186,9 @@ func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		ext := NewNode(NewName(v.XMLName.Local))
 		ext.AddAttr(rdfResourceAttr)
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
-		ext.Attr = append(ext.Attr, v.Attr...)
+		for _, attr := range v.Attr {
+			ext.AddAttr(attr)
+		}
 		node.AddNode(ext)
 	}
 	return nil
-- 
2.43.0


From c31d2dad0b42a9b837a3ab8d1b384757fdc9c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 039/107] fix: values of unknown properties with qualifiers are
 written to JSON together with them

---
 xmp/json.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 6162e01..8cee2b1 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -122,12 +122,21 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 
 func nodeToJson(n *Node) (interface{}, error) {
 	// process value leaf nodes (Note: value and model are mutually exclusive)
-	if n.Value != "" {
+	qualified := len(n.Nodes) > 0
+	for _, v := range n.Attr {
+		qualified = qualified || !skipField(v.Name)
+	}
+	if n.Value != "" && !qualified {
 		return &n.Value, nil
 	}
 
 	out := make(map[string]interface{})
 
+	// add the value of nodes with attributes or children
+	if n.Value != "" {
+		out["rdf:value"] = n.Value
+	}
+
 	// add node attributes
 	for _, v := range n.Attr {
 		name := v.Name.Local
@@ -146,17 +155,11 @@ func nodeToJson(n *Node) (interface{}, error) {
 			// skip outer node and unwrap inner li nodes as array elements
 			a := make([]interface{}, 0)
 			for _, vv := range v.Nodes {
-				if vv.Value != "" {
-					// simple lists (i.e. string lists or numbers etc)
-					a = append(a, &vv.Value)
+				// simple lists (i.e. string lists or numbers etc) or object lists
+				if m, err := nodeToJson(vv); err != nil {
+					return nil, err
 				} else {
-					// object lists
-					// m := make(map[string]interface{})
-					if m, err := nodeToJson(vv); err != nil {
-						return nil, err
-					} else {
-						a = append(a, m)
-					}
+					a = append(a, m)
 				}
 			}
 			return a, nil
-- 
2.43.0


From 380d9726a2c76947fecf790fce9b0f735b13af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 040/107] fix: arrays in arrays of unknown properties are read
 from JSON

---
 xmp/json.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xmp/json.go b/xmp/json.go
index 8cee2b1..4ab74a7 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -314,14 +314,13 @@ func jsonToNode(name string, v interface{}, node *Node) {
 		}
 
 	case isArrayValue(v):
-		// arrays of arrays are not supported in XMP
-		if name == "" {
-			return
+		// add arrays as Seq/li or Alt/li child nodes, arrays in arrays have
+		// no name
+		containerNode := node
+		if name != "" {
+			containerNode = NewNode(xml.Name{Local: name})
+			node.Nodes = append(node.Nodes, containerNode)
 		}
-
-		// add arrays as Seq/li or Alt/li child nodes
-		containerNode := NewNode(xml.Name{Local: name})
-		node.Nodes = append(node.Nodes, containerNode)
 		typ := getArrayType(v)
 		anode := NewNode(xml.Name{Space: nsRDF.GetURI(), Local: string(typ)})
 		containerNode.Nodes = append(containerNode.Nodes, anode)
-- 
2.43.0


From 99a2194c30ba55a8303fe8585c3061e033194eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 041/107] fix: dates and times keep their fractions of a second

---
 xmp/xmp_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index e69da60..fb44671 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -113,7 +113,7 @@ func (x Date) Value() time.Time {
 }
 
 func (x Date) String() string {
-	return time.Time(x).Format(time.RFC3339)
+	return time.Time(x).Format(time.RFC3339Nano)
 }
 
 func (x Date) IsZero() bool {
@@ -256,7 +256,7 @@ func (x Time) Value() time.Time {
 }
 
 func (x Time) String() string {
-	return time.Time(x).Format("15:04:05-07:00")
+	return time.Time(x).Format("15:04:05.999999999-07:00")
 }
 
 func (x Time) IsZero() bool {
-- 
2.43.0


From b06a9f619437424ef8fad25c7feba82431e9c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 042/107] fix: dates with a time zone offset without colon are
 accepted

---
 xmp/xmp_types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index fb44671..020c284 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -181,7 +181,10 @@ func repairTZ(value string) string {
 	a, b, c := value[l-5], value[l-2], value[l-6]
 	switch a {
 	case '+', '-', 'Z':
-		return value[:l-4] + "0" + value[l-4:]
+		// leave "-0700" alone
+		if value[l-3] == ':' {
+			return value[:l-4] + "0" + value[l-4:]
+		}
 	}
 	switch b {
 	case '+', '-', 'Z':
-- 
2.43.0


From 3ae0432258c1e6234a275b786323ff248bb1ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 043/107] fix: id3 dates are day and month, in this order

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index b6866d6..46100f2 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -35,7 +35,7 @@ import (
 
 const (
 	TIME_FORMAT_23 = "1504" // HHMM
-	DATE_FORMAT_23 = "0102" // DDMM
+	DATE_FORMAT_23 = "0201" // DDMM
 )
 
 type Bool int // 0 no, 1 yes
-- 
2.43.0


From 6d6a3365f0f425a3bb5da6f5b232cfb5681ed546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 044/107] fix: exif subseconds are added to synced dates

---
 models/exif/types.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..453b06e 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,15 +121,19 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
-	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
+	// nanoseconds are as precise as it gets
+	if len(s) > 9 {
+		s = s[:9]
+	}
+	if i, err := strconv.ParseUint(s, 10, 32); err != nil {
 		return xd, fmt.Errorf("exif: invalid subsecond format '%s': %v", s, err)
 	} else {
-		sec := d.Value().Unix()
-		nsec := i * int64(math.Pow10(9-len(s)))
-		xd = xmp.Date(time.Unix(sec, nsec))
+		t := d.Value()
+		nsec := int64(i) * int64(math.Pow10(9-len(s)))
+		xd = xmp.Date(t.Add(time.Duration(nsec - int64(t.Nanosecond()))))
 	}
 	return xd, nil
 }
-- 
2.43.0


From ef997935a9a20b37612056f4de09489818d41b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 045/107] fix: exif dates with a time zone or fractions keep
 them

---
 models/exif/types.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 453b06e..b44faed 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -74,15 +74,25 @@ func (x Date) Value() time.Time {
 	return time.Time(x)
 }
 
+// String uses the native format. Time zone and fractions which it cannot
+// represent are appended.
+func (x Date) String() string {
+	t := time.Time(x)
+	if _, off := t.Zone(); off != 0 || t.Nanosecond() != 0 {
+		return t.Format("2006:01:02 15:04:05.999999999-07:00")
+	}
+	return t.Format(EXIF_DATE_FORMAT)
+}
+
 func (x Date) MarshalText() ([]byte, error) {
 	if x.IsZero() {
 		return nil, nil
 	}
-	return []byte(time.Time(x).Format(EXIF_DATE_FORMAT)), nil
+	return []byte(x.String()), nil
 }
 
 func (x Date) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
-	return e.EncodeElement(time.Time(x).Format(EXIF_DATE_FORMAT), node)
+	return e.EncodeElement(x.String(), node)
 }
 
 var timeFormats []string = []string{
-- 
2.43.0


From 4aef70471f298796cd9ca9689eeb3030ca0ee3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 046/107] fix: frame counts keep the rate of a zero count and
 do not get a zero rate

---
 models/xmp_dm/types.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index b9e61dc..64d5362 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -227,17 +227,16 @@ func (x *FrameCount) UnmarshalText(data []byte) error {
 }
 
 func (x FrameCount) String() string {
-	switch x.Count {
-	case 0:
-		return "0"
-	case -1:
+	if x.Count == -1 {
 		return "maximum"
-	default:
-		buf := bytes.Buffer{}
-		buf.WriteString(strconv.FormatInt(x.Count, 10))
+	}
+	buf := bytes.Buffer{}
+	buf.WriteString(strconv.FormatInt(x.Count, 10))
+	// a count without rate is in seconds
+	if !x.Rate.IsZero() && (x.Count != 0 || x.Rate != FrameRate{1, 1}) {
 		buf.WriteString(x.Rate.String())
-		return buf.String()
 	}
+	return buf.String()
 }
 
 func (x FrameCount) MarshalText() ([]byte, error) {
-- 
2.43.0


From 91c2c0faf3005254637e21ae38bc9f3d9704fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 047/107] fix: frame counts are ordered by time

---
 models/xmp_dm/types.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 64d5362..2911ace 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -196,7 +196,24 @@ func (x FrameCount) Sub(y FrameCount) FrameCount {
 }
 
 func (x FrameCount) IsSmaller(y FrameCount) bool {
-	return float64(x.Count)*x.Rate.Value() < float64(y.Count)*y.Rate.Value()
+	switch {
+	case x.Count == -1: // maximum
+		return false
+	case y.Count == -1:
+		return true
+	case x.Rate == y.Rate:
+		return x.Count < y.Count
+	default:
+		return x.seconds() < y.seconds()
+	}
+}
+
+// a count without rate is in seconds
+func (x FrameCount) seconds() float64 {
+	if x.Rate.IsZero() {
+		return float64(x.Count)
+	}
+	return float64(x.Count) * float64(x.Rate.Base) / float64(x.Rate.Rate)
 }
 
 func (x *FrameCount) UnmarshalText(data []byte) error {
-- 
2.43.0


From 102d4020894ad62b67ba4db832bcc3cbc95a0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 048/107] fix: part ranges in different frame rates or up to
 the maximum keep their duration

---
 models/xmp_dm/types.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 2911ace..654c8fa 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -98,6 +98,9 @@ func (x *Part) UnmarshalText(data []byte) error {
 				return fmt.Errorf("xmp: invalid part range end: %v", err)
 			}
 			p.Duration = end.Sub(p.Start)
+			if end.IsSmaller(p.Start) || end.Count != -1 && p.Duration.Count < 0 {
+				return fmt.Errorf("xmp: invalid part range '%s': ends before its start", t)
+			}
 		} else {
 			// duration with zero node
 			if err := p.Duration.UnmarshalText([]byte(t)); err != nil {
@@ -188,10 +191,27 @@ func (x FrameCount) IsZero() bool {
 	return x.Count == 0 && x.Rate.IsZero()
 }
 
+// Sub returns the frames between y and x. The result is in the common rate
+// of both when their rates differ. Nothing can be subtracted from maximum.
 func (x FrameCount) Sub(y FrameCount) FrameCount {
+	if x.Count == -1 {
+		return x
+	}
+	if x.Rate == y.Rate {
+		return FrameCount{
+			Count: x.Count - y.Count,
+			Rate:  x.Rate,
+		}
+	}
+	if x.Rate.IsZero() {
+		x.Rate = FrameRate{1, 1}
+	}
+	if y.Rate.IsZero() {
+		y.Rate = FrameRate{1, 1}
+	}
 	return FrameCount{
-		Count: x.Count - y.Count,
-		Rate:  x.Rate,
+		Count: x.Count*x.Rate.Base*y.Rate.Rate - y.Count*y.Rate.Base*x.Rate.Rate,
+		Rate:  FrameRate{x.Rate.Rate * y.Rate.Rate, 1},
 	}
 }
 
-- 
2.43.0


From 5aa9ef8e1a62f287a62976eb4f7fbe2c0fbd1311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 049/107] fix: part paths may contain the text time:

---
 models/xmp_dm/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 654c8fa..9a578b9 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -76,10 +76,11 @@ func (x Part) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
 func (x *Part) UnmarshalText(data []byte) error {
 	p := Part{}
 	v := string(data)
-	tokens := strings.Split(v, "time:")
-	p.Path = tokens[0]
-	if len(tokens) > 1 {
-		t := tokens[1]
+	p.Path = v
+	// a time is the last path segment
+	if pos := strings.LastIndexByte(v, '/') + 1; strings.HasPrefix(v[pos:], "time:") {
+		p.Path = v[:pos]
+		t := v[pos+len("time:"):]
 		if i := strings.Index(t, "d"); i > -1 {
 			// node + duration
 			if err := p.Start.UnmarshalText([]byte(t[:i])); err != nil {
-- 
2.43.0


From e8fc4c49f482ac31f0e416f2eb38e4022f35d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 050/107] fix: an empty part list has no parts

---
 models/xmp_dm/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 9a578b9..9fcaded 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -150,6 +150,10 @@ func (x *PartList) AddPart(p Part) {
 
 func (x *PartList) UnmarshalText(data []byte) error {
 	l := make(PartList, 0)
+	if len(data) == 0 {
+		*x = l
+		return nil
+	}
 	for _, v := range bytes.Split(data, []byte(";")) {
 		p := Part{}
 		if err := p.UnmarshalText(v); err != nil {
-- 
2.43.0


From e9e89d795efe9009abb5ed45529b28c2b35827c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 051/107] fix: frame rates with more than one base are rejected

---
 models/xmp_dm/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 9fcaded..9edaaa3 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -389,6 +389,9 @@ func (x *FrameRate) UnmarshalText(data []byte) error {
 	v := data[1:]
 	r := FrameRate{}
 	tokens := bytes.Split(v, []byte("s"))
+	if len(tokens) > 2 {
+		return fmt.Errorf("xmp: invalid frame rate value '%s'", string(data))
+	}
 	var err error
 	r.Rate, err = strconv.ParseInt(string(tokens[0]), 10, 64)
 	if err != nil {
-- 
2.43.0


From 56e7feb2f1de42f0e38956b96badc3773a78d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 052/107] fix: 59.94 timecodes without drop frames have their
 own format

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 9edaaa3..be2a0b8 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -649,7 +649,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0


From 21ca9213040d99ca5e0f8ad7375aa06793ae5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 053/107] fix: decoding marker types replaces the old types

---
 models/xmp_dm/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index be2a0b8..d24d9e2 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -520,11 +520,13 @@ func (x MarkerTypeList) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Nod
 }
 
 func (x *MarkerTypeList) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
+	var l MarkerTypeList
 	for _, v := range strings.Split(a.Value, ",") {
 		if v = strings.TrimSpace(v); v != "" {
-			*x = append(*x, MarkerType(v))
+			l = append(l, MarkerType(v))
 		}
 	}
+	*x = l
 	return nil
 }
 
-- 
2.43.0


From 39ce56d2e112303b9a49a401279bd29b30da9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 054/107] fix: media times given as attribute keep their value
 or are rejected

---
 models/xmp_dm/types.go | 79 ++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index d24d9e2..0b3d731 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -595,35 +595,62 @@ func (x MediaTime) IsZero() bool {
 // Parse when used as attribute (not standard-conform)
 // xmpDM:duration="0:07.680"
 func (x *MediaTime) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
-	v := string(a.Value)
-	var dur time.Duration
-	fields := strings.Split(v, ".")
-	if len(fields) > 1 {
-		if i, err := strconv.ParseInt(fields[1], 10, 64); err == nil {
-			dur = time.Duration(i * int64(math.Pow10(9-len(fields[1]))))
+	v := strings.TrimSpace(a.Value)
+	if v == "" {
+		*x = MediaTime{}
+		return nil
+	}
+	invalid := fmt.Errorf("xmp: invalid media time '%s'", a.Value)
+	neg := strings.HasPrefix(v, "-")
+	v = strings.TrimPrefix(v, "-")
+	var frac uint64
+	var err error
+	if i := strings.IndexByte(v, '.'); i > -1 {
+		s := strings.TrimRight(v[i+1:], "0")
+		v = v[:i]
+		if len(s) > 9 {
+			return invalid // less than a nanosecond
+		}
+		if s != "" {
+			if frac, err = strconv.ParseUint(s+"000000000"[len(s):], 10, 64); err != nil {
+				return invalid
+			}
+		}
+	}
+	fields := strings.Split(v, ":")
+	if len(fields) > 3 {
+		return invalid
+	}
+	const max = uint64(math.MaxInt64 / time.Second)
+	var sec uint64
+	for _, v := range fields {
+		if v == "" {
+			v = "0"
+		}
+		n, err := strconv.ParseUint(v, 10, 64)
+		if err != nil || n > max {
+			return invalid
+		}
+		if sec = sec*60 + n; sec > max {
+			return invalid
+		}
+	}
+	// count milliseconds, or nanoseconds if milliseconds are not enough
+	t := MediaTime{
+		Value: int64(sec*1000 + frac/1000000),
+		Scale: xmp.Rational{Num: 1, Den: 1000},
+	}
+	if frac%1000000 != 0 {
+		if sec >= max {
+			return invalid
 		}
+		t.Value = int64(sec*1000000000 + frac)
+		t.Scale.Den = 1000000000
 	}
-	fields = strings.Split(fields[0], ":")
-	var h, m, s int
-	switch len(fields) {
-	case 3:
-		h, _ = strconv.Atoi(fields[0])
-		m, _ = strconv.Atoi(fields[1])
-		s, _ = strconv.Atoi(fields[2])
-	case 2:
-		m, _ = strconv.Atoi(fields[0])
-		s, _ = strconv.Atoi(fields[1])
-	case 1:
-		s, _ = strconv.Atoi(fields[0])
-	}
-	dur += time.Hour*time.Duration(h) + time.Minute*time.Duration(m) + time.Second*time.Duration(s)
-	*x = MediaTime{
-		Value: int64(dur / time.Millisecond),
-		Scale: xmp.Rational{
-			Num: 1,
-			Den: 1000,
-		},
+	if neg {
+		t.Value = -t.Value
 	}
+	*x = t
 	return nil
 }
 
-- 
2.43.0


From eb23730726fed8ff0c115ffff0cf8491721b5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 055/107] fix: the ends of part ranges are compared without
 rounding

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index 0b3d731..5a4262e 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -99,7 +99,7 @@ func (x *Part) UnmarshalText(data []byte) error {
 				return fmt.Errorf("xmp: invalid part range end: %v", err)
 			}
 			p.Duration = end.Sub(p.Start)
-			if end.IsSmaller(p.Start) || end.Count != -1 && p.Duration.Count < 0 {
+			if end.Count != -1 && (p.Start.Count == -1 || p.Duration.Count < 0) {
 				return fmt.Errorf("xmp: invalid part range '%s': ends before its start", t)
 			}
 		} else {
-- 
2.43.0


From 82594513b7e175c6c4a0d286f9372525273d4359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 056/107] fix: exif tables of any claimed size do not panic,
 OECF tables keep all their column names

---
 models/exif/types.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index b44faed..46c29f5 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -197,13 +197,17 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
+			if o.Columns < 0 {
+				return fmt.Errorf("exif: invalid OECF columns value '%s'", v)
+			}
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
-		case i > 1 && i < o.Columns+1:
+			if o.Rows < 0 {
+				return fmt.Errorf("exif: invalid OECF rows value '%s'", v)
+			}
+		case i-2 < o.Columns:
 			o.Names = append(o.Names, v)
 		default:
 			r := xmp.Rational{}
@@ -252,7 +256,9 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
+			if c.Columns < 0 || c.Rows < 0 {
+				return fmt.Errorf("exif: invalid CFA size '%d %d'", c.Columns, c.Rows)
+			}
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -303,7 +309,9 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
+			if s.Columns < 0 || s.Rows < 0 {
+				return fmt.Errorf("exif: invalid device settings size '%d %d'", s.Columns, s.Rows)
+			}
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 8b272dbc1410b2472fc7d21192df12640e922e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 057/107] fix: genre numbers that do not fit into a byte are
 not turned into another genre

---
 models/id3/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 46100f2..9418e12 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -135,7 +135,7 @@ func ParseGenreV1(s string) (GenreV1, error) {
 			return i, nil
 		}
 	}
-	if t, err := strconv.Atoi(s); err == nil {
+	if t, err := strconv.ParseUint(s, 10, 8); err == nil {
 		return GenreV1(t), nil
 	}
 	return 0xff, fmt.Errorf("id3: invalid genre '%s'", s)
-- 
2.43.0


From 8b7725dc506b748d9a7322cef4b06ead9d0ac75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 058/107] fix: empty genre names are not added to the list of
 genres

---
 models/id3/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/id3/types.go b/models/id3/types.go
index 9418e12..a996e65 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -148,6 +148,9 @@ func (x *Genre) UnmarshalText(data []byte) error {
 	l := make(Genre, 0)
 	for _, v := range strings.Split(value, ",") {
 		v = strings.TrimSpace(v)
+		if v == "" {
+			continue
+		}
 		if g, err := ParseGenreV1(v); err == nil {
 			l = append(l, g.String())
 			continue
-- 
2.43.0


From ad52d0c6c165e24ca9a11350fadfd1e59636f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 059/107] fix: the X-X_Y function has no trailing space

---
 models/ixml/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index f36ccc9..c8c4973 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -287,7 +287,7 @@ type FunctionType string
 const (
 	FunctionMS_M         FunctionType = "M-MID_SIDE"
 	FunctionMS_S         FunctionType = "S-MID_SIDE"
-	FunctionXY_X         FunctionType = "X-X_Y "
+	FunctionXY_X         FunctionType = "X-X_Y"
 	FunctionXY_Y         FunctionType = "Y-X_Y"
 	FunctionMix_L        FunctionType = "L-MIX"
 	FunctionMix_R        FunctionType = "R-MIX"
-- 
2.43.0


From 8cf6131602270441bc051b2351b9f8b5f6e65186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 060/107] fix: reasons of content ratings keep everything after
 a separator

---
 models/itunes/types.go | 2 +-
 models/qt/types.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index bbd4136..3c0860a 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -98,7 +98,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
diff --git a/models/qt/types.go b/models/qt/types.go
index 11311eb..be843f0 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -138,7 +138,7 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSpace(v)
 	v = strings.TrimPrefix(v, "(")
 	v = strings.TrimSuffix(v, ")")
-	for i, s := range strings.Split(v, "|") {
+	for i, s := range strings.SplitN(v, "|", 4) {
 		switch i {
 		case 0:
 			cr.Standard = s
-- 
2.43.0


From afa3e4b910319551551c2ac2f617427d36a27d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 061/107] fix: empty lists of take types and locations have no
 elements

---
 models/ixml/enum.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index c8c4973..ff37eae 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -104,10 +104,11 @@ func (x TakeTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *TakeTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(TakeTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseTakeType(v)
@@ -169,10 +170,11 @@ func (x LocationTypeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTypeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTypeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationType(v)
@@ -261,10 +263,11 @@ func (x LocationTimeList) MarshalText() ([]byte, error) {
 }
 
 func (x *LocationTimeList) UnmarshalText(data []byte) error {
-	fields := strings.Split(string(data), ",")
-	if len(fields) == 0 {
+	if len(data) == 0 {
+		*x = nil
 		return nil
 	}
+	fields := strings.Split(string(data), ",")
 	ttl := make(LocationTimeList, len(fields))
 	for i, v := range fields {
 		ttl[i] = ParseLocationTime(v)
-- 
2.43.0


From e47e5fe74304e88f4f7e76de777917f3e869626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 062/107] fix: removing functions from a set does not change
 the predefined sets

---
 models/ixml/enum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/ixml/enum.go b/models/ixml/enum.go
index ff37eae..75747a2 100644
--- a/models/ixml/enum.go
+++ b/models/ixml/enum.go
@@ -399,7 +399,8 @@ func (x *FunctionSet) Del(t FunctionType) {
 		}
 	}
 	if idx > -1 {
-		*x = append((*x)[:idx], (*x)[idx+1:]...)
+		// sets may share memory with predefined sets
+		*x = append((*x)[:idx:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 7019efec397353ddda17ce404f9b9f7c79eff337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 063/107] fix: track numbers with trailing text are rejected

---
 models/id3/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index a996e65..a0aa861 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -196,10 +196,10 @@ func (x *TrackNum) UnmarshalText(data []byte) error {
 	var err error
 	v := string(data)
 	n := TrackNum{}
-	if strings.Contains(v, "/") {
-		_, err = fmt.Sscanf(v, "%d/%d", &n.Track, &n.Total)
-	} else {
-		n.Track, err = strconv.Atoi(v)
+	fields := strings.SplitN(v, "/", 2)
+	n.Track, err = strconv.Atoi(fields[0])
+	if err == nil && len(fields) > 1 {
+		n.Total, err = strconv.Atoi(fields[1])
 	}
 	if err != nil {
 		return fmt.Errorf("id3: invalid track number '%s': %v", v, err)
-- 
2.43.0


From d38e7f394873e9a7a06889ead6e9f4c5082097a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 064/107] fix: packets of any length and header are found
 however the stream is read

---
 xmp/reader.go | 60 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..5d67f38 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -41,9 +41,13 @@ func Scan(r io.Reader) (*Document, error) {
 	return x, nil
 }
 
+// largest packet that is found in a stream
+const maxPacketSize = 1 << 30
+
 func ScanPackets(r io.Reader) ([][]byte, error) {
 	packets := make([][]byte, 0)
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, maxPacketSize)
 	s.Split(splitPacket)
 	for s.Scan() {
 		b := s.Bytes()
@@ -66,26 +70,64 @@ var packet_start = []byte("<?xpacket begin")
 var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
+// isXmpPacket reports if b starts with the header of a packet.
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	n := closeInstruction(b, len(packet_start))
+	return n > 0 && bytes.Contains(b[:n], magic)
+}
+
+// closeInstruction returns the position behind the processing instruction that
+// is open at ofs, 0 if data ends before and -1 if something else follows.
+func closeInstruction(data []byte, ofs int) int {
+	end := bytes.Index(data[ofs:], []byte("?>"))
+	next := bytes.IndexByte(data[ofs:], '<')
+	switch {
+	case next > -1 && (end == -1 || next < end):
+		return -1
+	case end == -1:
+		return 0
+	default:
+		return ofs + end + 2
+	}
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
 	if start == -1 {
-		ofs := len(data) - len(packet_start)
+		// keep what may be the first part of a packet
+		ofs := len(data) - len(packet_start) + 1
+		if atEOF {
+			ofs = len(data)
+		}
 		if ofs > 0 {
 			return ofs, nil, nil
 		}
-		return len(data), nil, nil
+		return 0, nil, nil
 	}
-	end := bytes.Index(data[start:], packet_end)
-	last := start + end + len(packet_end) + 6
-	if end == -1 || last > len(data) {
-		if atEOF {
-			return len(data), nil, nil
+	end, last := start, -1
+	for last == -1 {
+		i := bytes.Index(data[end:], packet_end)
+		if i > -1 {
+			end += i + len(packet_end)
+			last = closeInstruction(data, end)
 		}
-		return 0, nil, nil
+		if i == -1 || last == 0 {
+			if atEOF {
+				return len(data), nil, nil
+			}
+			return start, nil, nil
+		}
+	}
+	// skip packets without end
+	for i := start; i > -1; {
+		if isXmpPacket(data[i:last]) {
+			start = i
+		}
+		next := bytes.Index(data[i+1:last], packet_start)
+		if next == -1 {
+			break
+		}
+		i += next + 1
 	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From bded2eb909d2697ec9e7191fe0111155360209df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 065/107] fix: the size limit is for each document an encoder
 writes

---
 xmp/marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmp/marshal.go b/xmp/marshal.go
index 11fcda8..6136a63 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -147,7 +147,8 @@ func (e *Encoder) Encode(d *Document) error {
 		return err
 	}
 
-	// reset nodes and map
+	// reset nodes, map and size
+	e.cw.n = 0
 	e.root = NewNode(xml.Name{})
 	defer e.root.Close()
 	e.nsTagMap = make(map[string]string)
-- 
2.43.0


From f1cf66dff73acc6f2d8d1774ae661da3ff2bf2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 066/107] fix: keep incomplete tiff subsampling values

---
 models/tiff/types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/models/tiff/types.go b/models/tiff/types.go
index d727dd2..a22d537 100644
--- a/models/tiff/types.go
+++ b/models/tiff/types.go
@@ -48,7 +48,12 @@ func (x YCbCrSubSampling) String() string {
 }
 
 func (x YCbCrSubSampling) IsZero() bool {
-	return len(x) < 2 || (x[0] == 0 && x[1] == 0)
+	for _, v := range x {
+		if v != 0 {
+			return false
+		}
+	}
+	return true
 }
 
 func (x YCbCrSubSampling) Typ() xmp.ArrayType {
-- 
2.43.0


From 73364d23332bff4735fe5750d56a22c9214a025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 067/107] fix: reading an unknown list without index returns
 its first element

---
 xmp/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmp/node.go b/xmp/node.go
index e8a54ca..c53e97e 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -433,6 +433,12 @@ func (n *Node) GetPath(path Path) (string, error) {
 				return li.Value, nil
 			}
 			return "", nil
+		case node.IsArray():
+			// the first element stands for the array
+			if len(node.Nodes[0].Nodes) == 0 {
+				return "", nil
+			}
+			return node.Nodes[0].Nodes[0].GetPath(path)
 		default:
 			return node.GetPath(path)
 		}
-- 
2.43.0


From fae645d3032c027812cecf750b3e2bc3c185d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 068/107] fix: setting an absent simple value requires the
 create flag

---
 xmp/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/path.go b/xmp/path.go
index f337601..80ce6b4 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -982,6 +982,10 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 			return fmt.Errorf("REPLACE flag required for overwriting value at %s on path %s", name, path)
 		}
 
+		if flags&(CREATE|REPLACE|APPEND|UNIQUE) == 0 && value != "" {
+			return fmt.Errorf("CREATE flag required for setting value at %s on path %s", name, path)
+		}
+
 		// clear the value, not all types can be set from an empty text
 		if value == "" {
 			if p := finfo.value(val); p.CanSet() {
-- 
2.43.0


From 5313ebfab215e8f9ddaa7aef553713baae45a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 069/107] fix: reject negative and huge list indices in paths

---
 xmp/node.go |  4 ++--
 xmp/path.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index c53e97e..e948214 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -398,7 +398,7 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (n *Node) GetPath(path Path) (string, error) {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
-	if idx < -1 {
+	if idx < -1 || idx > maxPathIndex {
 		return "", fmt.Errorf("path field %s: invalid index", name)
 	}
 	// fmt.Printf("Get Node path ns=%s name=%s len=%d rest=%v idx=%d lang=%s\n", path.NamespacePrefix(), name, path.Len(), path, idx, lang)
@@ -487,7 +487,7 @@ func (n *Node) findLang(lang string) *Node {
 func (n *Node) SetPath(path Path, value string, flags SyncFlags) error {
 	name, path := path.PopFront()
 	name, idx, lang := parsePathSegment(name)
-	if idx < -1 {
+	if idx < -1 || idx > maxPathIndex {
 		return fmt.Errorf("path field %s: invalid index", name)
 	}
 
diff --git a/xmp/path.go b/xmp/path.go
index 80ce6b4..9ef0a11 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -284,7 +285,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
 		// fmt.Printf("%d name=%s walker=%s\n", l-walker.Len(), n, walker.String())
 		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
+		if idx < -1 || idx > maxPathIndex {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
@@ -560,7 +561,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 	l := path.Len()
 	for n, walker := path.PopFront(); n != ""; n, walker = walker.PopFront() {
 		name, idx, lang := parsePathSegment(n)
-		if idx < -1 {
+		if idx < -1 || idx > maxPathIndex {
 			return fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
@@ -1286,6 +1287,9 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+// largest list index accepted in paths, lists grow up to the index
+const maxPathIndex = 1<<16 - 1
+
 func parsePathSegment(name string) (string, int, string) {
 	var lang string
 	var idx int = -1
@@ -1294,8 +1298,10 @@ func parsePathSegment(name string) (string, int, string) {
 		s := strings.TrimSuffix(name[k+1:], "]")
 		if len(s) == 0 {
 			idx = 0
-		} else if j, err := strconv.Atoi(s); err == nil {
+		} else if j, err := strconv.Atoi(s); err == nil && j >= 0 {
 			idx = j
+		} else if err == nil || errors.Is(err, strconv.ErrRange) {
+			idx = -2 // not an index of a list
 		} else {
 			lang = s
 		}
-- 
2.43.0


From 5aa561e595d53b8b0f8361dbee7c868f727f6b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 070/107] fix: paths address the field of their own namespace

---
 xmp/path.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index 9ef0a11..0259add 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -289,7 +289,7 @@ func GetModelPath(v Model, path Path) (string, error) {
 			return "", fmt.Errorf("path field %d (%s): invalid index", l-walker.Len(), n)
 		}
 
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			return "", errNotFound
 			// return "", fmt.Errorf("path field %d (%s) not found: %v", i, name, err)
@@ -567,7 +567,7 @@ func SetModelPath(v Model, path Path, value string, flags SyncFlags) error {
 
 		// using the short-form of name here to find attribute names across namespaces
 		// (e.g. some models use different namespace structs internally)
-		finfo, err := findField(val, name, "xmp")
+		finfo, err := findPathField(val, walker.NamespacePrefix(), name)
 		if err != nil {
 			// special error is catched by caller to retry setting as raw node
 			return errNotFound
@@ -1287,6 +1287,15 @@ func listPaths(val reflect.Value, path Path) (PathValueList, error) {
 	return pvl, nil
 }
 
+// findPathField finds the field a path segment addresses. Segments use the
+// short form of names, a field in the namespace of the path takes precedence.
+func findPathField(val reflect.Value, prefix, name string) (*fieldInfo, error) {
+	if finfo, err := findField(val, prefix+":"+name, "xmp"); err == nil && finfo.flags&fAny == 0 {
+		return finfo, nil
+	}
+	return findField(val, name, "xmp")
+}
+
 // largest list index accepted in paths, lists grow up to the index
 const maxPathIndex = 1<<16 - 1
 
-- 
2.43.0


From f4b509a66d497c1ebc0b70d0753d41c94a98ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 071/107] fix: copies of properties in other models hid the
 properties set by path

---
 xmp/document.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 xmp/json.go     |  1 +
 xmp/marshal.go  | 13 +++++++++++++
 xmp/path.go     | 34 +++++++++++++++++++++++++++++++++-
 4 files changed, 93 insertions(+), 1 deletion(-)

diff --git a/xmp/document.go b/xmp/document.go
index 2c895b0..375aa06 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -257,6 +257,52 @@ func (x *DocumentArray) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	return UnmarshalArray(d, node, x.Typ(), x)
 }
 
+// ownerHas returns true when the document has another model for the namespace
+// of a property and that model has the property as well. Some models (exif,
+// tiff, pdf and riff) keep copies of properties which belong to other models.
+func (d *Document) ownerHas(m Model, name string) bool {
+	prefix := getPrefix(name)
+	if m.Can(prefix) {
+		return false
+	}
+	for _, n := range d.nodes {
+		if n.Model != nil && n.Model != m && n.Model.Can(prefix) {
+			return hasField(n.Model, name)
+		}
+	}
+	return false
+}
+
+func (d *Document) ownerHasPath(m Model, path Path) bool {
+	prefix, name := path.field()
+	return d.ownerHas(m, prefix+":"+name)
+}
+
+// findCopy returns the node of a model that keeps a copy of a property which
+// belongs to another model.
+func (d *Document) findCopy(path Path) *Node {
+	prefix, name := path.field()
+	if name == "" {
+		return nil
+	}
+	for _, n := range d.nodes {
+		if n.Model != nil && !n.Model.Can(prefix) && hasField(n.Model, prefix+":"+name) {
+			return n
+		}
+	}
+	return nil
+}
+
+// hasField returns true when a model has a non-empty field with this name.
+func hasField(m Model, name string) bool {
+	val := derefIndirect(m)
+	finfo, err := findField(val, name, "xmp")
+	if err != nil || finfo.flags&(fAny|fOmit) > 0 {
+		return false
+	}
+	return !isEmptyValue(finfo.value(val))
+}
+
 func (d Document) findNsByURI(uri string) *Namespace {
 	if v, ok := d.intNsMap[uri]; ok {
 		return v
diff --git a/xmp/json.go b/xmp/json.go
index 4ab74a7..05a3757 100644
--- a/xmp/json.go
+++ b/xmp/json.go
@@ -65,6 +65,7 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 		// 1.1  encode the model (Note: models typically use multiple XMP namespaces)
 		//      so we generate wrapper nodes on the fly
 		if n.Model != nil {
+			e.doc, e.model = d, n.Model
 			if err := e.marshalValue(reflect.ValueOf(n.Model), nil, e.root, true); err != nil {
 				return nil, err
 			}
diff --git a/xmp/marshal.go b/xmp/marshal.go
index 6136a63..451940a 100644
--- a/xmp/marshal.go
+++ b/xmp/marshal.go
@@ -49,6 +49,8 @@ type Encoder struct {
 	intNsMap map[string]*Namespace
 	extNsMap map[string]*Namespace
 	flags    int
+	doc      *Document // document and model written
+	model    Model
 }
 
 var ErrOverflow = errors.New("xmp: document exceeds size limit")
@@ -161,6 +163,7 @@ func (e *Encoder) Encode(d *Document) error {
 		// 1.1  encode the model (Note: models typically use multiple XMP namespaces)
 		//      so we generate wrapper nodes on the fly
 		if n.Model != nil {
+			e.doc, e.model = d, n.Model
 			if err := e.marshalValue(reflect.ValueOf(n.Model), nil, e.root, true); err != nil {
 				return err
 			}
@@ -407,6 +410,11 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
+		// skip copies of properties that belong to another model
+		if withWrapper && e.doc != nil && e.doc.ownerHas(e.model, finfo.name) {
+			continue
+		}
+
 		// find or create output node for storing the attribute/node contents
 		var dest *Node
 		if withWrapper || node == nil {
@@ -460,6 +468,11 @@ func (e *Encoder) marshalValue(val reflect.Value, finfo *fieldInfo, node *Node,
 			continue
 		}
 
+		// skip copies of properties that belong to another model
+		if withWrapper && e.doc != nil && e.doc.ownerHas(e.model, finfo.name) {
+			continue
+		}
+
 		// find or create output node for storing the attribute/node contents
 		var dest *Node
 		if withWrapper || node == nil {
diff --git a/xmp/path.go b/xmp/path.go
index 0259add..7e0a643 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -240,6 +240,13 @@ func (x Path) PeekNamespacePrefix() string {
 	}
 }
 
+// field returns the prefix and name of the property a path starts with
+func (x Path) field() (string, string) {
+	name, _ := x.PopFront()
+	name, _, _ = parsePathSegment(name)
+	return x.PeekNamespacePrefix(), name
+}
+
 func (x *Path) UnmarshalText(data []byte) error {
 	p := Path(string(data))
 	if !p.IsXmpPath() {
@@ -259,10 +266,18 @@ func (d *Document) GetPath(path Path) (string, error) {
 	}
 	n := d.FindNode(ns)
 	if n == nil {
+		if c := d.findCopy(path); c != nil {
+			if s, err := GetModelPath(c.Model, path); err == nil {
+				return s, nil
+			}
+		}
 		return "", fmt.Errorf("xmp: path '%s' not found", path.String())
 	}
 	if n.Model != nil {
 		if s, err := GetModelPath(n.Model, path); err == nil {
+			if c := d.findCopy(path); s == "" && c != nil && !d.ownerHasPath(c.Model, path) {
+				return GetModelPath(c.Model, path)
+			}
 			return s, nil
 		} else if err != errNotFound {
 			return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
@@ -468,6 +483,12 @@ func (d *Document) SetPath(desc PathValue) error {
 
 	m := d.FindModel(ns)
 	n := d.FindNode(ns)
+
+	// use the copy in another model unless the property exists
+	c := d.findCopy(path)
+	if c != nil && !d.ownerHasPath(c.Model, path) {
+		m, n, c = c.Model, c, nil
+	}
 	if m == nil && n == nil && flags&CREATE == 0 {
 		if flags&NOFAIL > 0 {
 			return nil
@@ -542,6 +563,12 @@ func (d *Document) SetPath(desc PathValue) error {
 		d.SetDirty()
 	}
 
+	// a copy does not replace a deleted property
+	if err == nil && c != nil && !d.ownerHasPath(c.Model, path) {
+		field, _, _ := parsePathSegment(path.Fields()[0])
+		err = SetModelPath(c.Model, NewPath(path.NamespacePrefix(), field), "", DELETE)
+	}
+
 	if flags&NOFAIL > 0 {
 		return nil
 	}
@@ -1020,7 +1047,12 @@ func (d *Document) ListPaths() (PathValueList, error) {
 			if pvl, err := ListModelPaths(v.Model); err != nil {
 				return nil, err
 			} else {
-				l = append(l, pvl...)
+				for _, p := range pvl {
+					// skip copies of properties that belong to another model
+					if !d.ownerHasPath(v.Model, p.Path) {
+						l = append(l, p)
+					}
+				}
 			}
 		}
 		r, err := v.ListPaths(NewPath(v.Name()))
-- 
2.43.0


From 15b2c50e83252ec5613722e4963c02750706d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 072/107] fix: parts of an empty structure kept as nodes could
 not be read back

---
 xmp/path.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 7e0a643..b8afc88 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -278,6 +278,12 @@ func (d *Document) GetPath(path Path) (string, error) {
 			if c := d.findCopy(path); s == "" && c != nil && !d.ownerHasPath(c.Model, path) {
 				return GetModelPath(c.Model, path)
 			}
+			if s == "" {
+				// the model may not have this part of an empty property
+				if v, err := n.GetPath(path); err == nil && v != "" {
+					return v, nil
+				}
+			}
 			return s, nil
 		} else if err != errNotFound {
 			return "", fmt.Errorf("xmp: path '%s' error: %v", path.String(), err)
@@ -524,7 +530,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	if m != nil {
 		dest, err = GetModelPath(m, path)
 	}
-	if m == nil || err == errNotFound {
+	if m == nil || err == errNotFound || err == nil && dest == "" {
 		dest, err = n.GetPath(path)
 	}
 	if err != nil {
-- 
2.43.0


From a7d52359512e798deb565278628a964df4d488af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 073/107] fix: differences to an empty path list carry flags

---
 xmp/path.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/xmp/path.go b/xmp/path.go
index b8afc88..63fe12b 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -72,12 +72,6 @@ func (x PathValueList) Unique() PathValueList {
 }
 
 func (x PathValueList) Diff(y PathValueList) PathValueList {
-	if len(x) == 0 {
-		return y
-	}
-	if len(y) == 0 {
-		return x
-	}
 	diff := make(PathValueList, 0, Max(len(x), len(y)))
 	for _, xv := range x {
 		yv := y.Find(xv.Path)
-- 
2.43.0


From 0669fa4272380954de5cdc691636ef7528370d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 074/107] fix: merging a language alternative keeps its default

---
 xmp/sync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..d90b512 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -60,6 +60,7 @@ package xmp
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -261,7 +262,12 @@ func (d *Document) Merge(b *Document, flags SyncFlags) error {
 		d.extNsMap[n] = v
 	}
 
-	// copy content
+	// copy content, default entries come first because the first entry which is
+	// added to a language alternative becomes the default
+	key := func(v PathValue) string {
+		return strings.TrimSuffix(v.Path.String(), "x-default]")
+	}
+	sort.SliceStable(p, func(i, j int) bool { return key(p[i]) < key(p[j]) })
 	for _, v := range p {
 		v.Flags = flags
 		if err := d.SetPath(v); err != nil {
-- 
2.43.0


From bdc4ec0091c53923062e8037df63e4a8cfeefee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 075/107] fix: do not list empty attributes and language
 entries

---
 xmp/node.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xmp/node.go b/xmp/node.go
index e948214..b67cdf8 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -709,14 +709,11 @@ func (n *Node) ListPaths(path Path) (PathValueList, error) {
 				continue
 			}
 			walker = walker.AppendIndexString(attr[0].Value)
-			l = append(l, PathValue{
-				Path:  walker,
-				Value: li.Value,
-			})
+			l.Add(walker, li.Value)
 		}
 	default:
 		for _, a := range n.Attr {
-			if skipField(a.Name) {
+			if skipField(a.Name) || a.Value == "" {
 				continue
 			}
 			name := a.Name.Local
-- 
2.43.0


From 69d910e78d94d2196a585f89f3069e108bd52e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 076/107] fix: filters which include a group without namespaces
 admit nothing

---
 xmp/filter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xmp/filter.go b/xmp/filter.go
index 7a1cd3a..93b3b59 100644
--- a/xmp/filter.go
+++ b/xmp/filter.go
@@ -32,6 +32,16 @@ func NewFilter(include, exclude NamespaceList) *Filter {
 	}
 }
 
+// includedNamespaces returns the namespaces a group admits. A group without
+// registered namespaces is handled like an unknown namespace and admits nothing.
+func includedNamespaces(g NamespaceGroup) NamespaceList {
+	l := g.Namespaces()
+	if len(l) == 0 {
+		l = append(l, &Namespace{Name: string(g)})
+	}
+	return l
+}
+
 func ParseFilterStrict(s string) (*Filter, error) {
 	f := NewFilter(nil, nil)
 	if len(s) == 0 {
@@ -61,7 +71,7 @@ func ParseFilterStrict(s string) (*Filter, error) {
 		default:
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.include = append(f.include, g.Namespaces()...)
+				f.include = append(f.include, includedNamespaces(g)...)
 				break
 			}
 			// 2nd try as namespace
@@ -104,7 +114,7 @@ func ParseFilter(s string) *Filter {
 		default:
 			// 1st try parsing as group
 			if g := ParseNamespaceGroup(v); g != NoMetadata {
-				f.include = append(f.include, g.Namespaces()...)
+				f.include = append(f.include, includedNamespaces(g)...)
 				break
 			}
 			// 2nd try as namespace
-- 
2.43.0


From 2c37451cc28882cd2d260a8f9cb00ccbb21004f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 077/107] fix: keep namespaces declared at inner elements or
 with a prefix used by another namespace

---
 xmp/unmarshal.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index 9189f62..dd5f7de 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -103,9 +103,10 @@ func (d *Decoder) Decode(x *Document) error {
 	// 3  extract document namespaces
 	for _, n := range root.Nodes {
 		for _, v := range n.GetAttr("xmlns", "") {
-			d.addNamespace(v.Name.Local, v.Value)
+			d.addNamespace(d.uniquePrefix(v.Name.Local, v.Value), v.Value)
 		}
 	}
+	d.addNamespaces(gc)
 
 	// 4  walk node tree and create model instances
 	for _, n := range root.Nodes {
@@ -379,6 +380,55 @@ func (d *Decoder) addNamespace(prefix, uri string) {
 	}
 }
 
+// Namespaces may be declared at any element. Declarations are no properties,
+// they are removed from the element.
+func (d *Decoder) addNamespaces(n *Node) {
+	var attr AttrList
+	for _, v := range n.Attr {
+		prefix := v.Name.Local
+		if v.Name.Space == "" && prefix == "xmlns" {
+			prefix = "" // default namespace
+		} else if v.Name.Space != "xmlns" {
+			attr = append(attr, v)
+			continue
+		}
+		switch v.Value {
+		case "", nsX.GetURI(), nsRDF.GetURI(), nsXML.GetURI():
+			// looked up in the registry
+		default:
+			d.addNamespace(d.uniquePrefix(prefix, v.Value), v.Value)
+		}
+	}
+	n.Attr = attr
+	for _, v := range n.Nodes {
+		d.addNamespaces(v)
+	}
+}
+
+// An unknown namespace needs another prefix when the one used in the document
+// belongs to a registered namespace or to another namespace of the document.
+func (d *Decoder) uniquePrefix(prefix, uri string) string {
+	used := func(name string) bool {
+		if ns, err := NsRegistry.GetNamespace(name); err == nil && ns.GetURI() != uri {
+			return true
+		}
+		for _, v := range d.extNsMap {
+			if v.GetName() == name && v.GetURI() != uri {
+				return true
+			}
+		}
+		return false
+	}
+	name := prefix
+	if name == "" {
+		prefix, name = "ns", "ns1"
+	}
+	for i := 1; used(name); i++ {
+		name = prefix + strconv.Itoa(i)
+	}
+	return name
+}
+
 func (d Decoder) _findNsByURI(uri string) *Namespace {
 	if v, ok := d.intNsMap[uri]; ok {
 		return v
-- 
2.43.0


From f58d81f2d87dd60f3b4bd1b3b11efbf87de3a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 078/107] fix: setting a path registered its namespace for all
 documents and could rebind known namespaces

---
 xmp/document.go | 14 ++++++++++++++
 xmp/path.go     |  5 +++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/xmp/document.go b/xmp/document.go
index 375aa06..bd9f43c 100644
--- a/xmp/document.go
+++ b/xmp/document.go
@@ -313,6 +313,20 @@ func (d Document) findNsByURI(uri string) *Namespace {
 	return nil
 }
 
+// addNamespace adds an unknown namespace to the document.
+func (d *Document) addNamespace(prefix, uri string) (*Namespace, error) {
+	name := NsRegistry.GetPrefix(uri)
+	if ns := d.findNsByURI(uri); ns != nil {
+		name = ns.GetName()
+	}
+	if name != "" && name != prefix {
+		return nil, fmt.Errorf("xmp: namespace '%s' has prefix '%s'", uri, name)
+	}
+	ns := &Namespace{prefix, uri, emptyFactory}
+	d.extNsMap[uri] = ns
+	return ns, nil
+}
+
 func (d Document) findNsByPrefix(pre string) *Namespace {
 	for _, v := range d.intNsMap {
 		if v.GetName() == pre {
diff --git a/xmp/path.go b/xmp/path.go
index 63fe12b..d9b142d 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -474,8 +474,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	ns, err := path.Namespace(d)
 	if ns == nil || err != nil {
 		if desc.Namespace != "" {
-			ns = &Namespace{path.NamespacePrefix(), desc.Namespace, nil}
-			Register(ns)
+			if ns, err = d.addNamespace(path.NamespacePrefix(), desc.Namespace); err != nil {
+				return err
+			}
 		} else {
 			return err
 		}
-- 
2.43.0


From 514facae6a9ab8ac77e83321ef7c8348eaf3ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 079/107] fix: keep prefix and URI lookups in sync when a
 namespace is registered again

---
 xmp/registry.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmp/registry.go b/xmp/registry.go
index ee93c51..eff50d1 100644
--- a/xmp/registry.go
+++ b/xmp/registry.go
@@ -66,6 +66,13 @@ func GetGroupNamespaces(group NamespaceGroup) (NamespaceList, error) {
 func (r *Registry) RegisterNamespace(ns *Namespace, groups NamespaceGroupList) {
 	r.m.Lock()
 	defer r.m.Unlock()
+	// keep both maps in sync when a name or URI is registered again
+	if v, ok := r.nsNameMap[ns.GetName()]; ok && v.GetURI() != ns.GetURI() {
+		delete(r.nsUriMap, v.GetURI())
+	}
+	if v, ok := r.nsUriMap[ns.GetURI()]; ok && v.GetName() != ns.GetName() {
+		delete(r.nsNameMap, v.GetName())
+	}
 	r.nsNameMap[ns.GetName()] = ns
 	r.nsUriMap[ns.GetURI()] = ns
 	for _, v := range groups {
-- 
2.43.0


From 22be40103792fdba4af042e364885d6c35326d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 080/107] fix: Sync converts values before it compares them and
 skips namespaces without a model

---
 xmp/sync.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xmp/sync.go b/xmp/sync.go
index d90b512..ec11f19 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -194,7 +194,10 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		if flags&CREATE == 0 {
 			return nil
 		}
-		dModel = dNs.NewModel()
+		// skip when the namespace has no model
+		if dModel = dNs.NewModel(); dModel == nil {
+			return nil
+		}
 		d.AddModel(dModel)
 	}
 
@@ -213,6 +216,11 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return err
 	}
 
+	// convert the source value if requested
+	if f != nil && sValue != "" {
+		sValue = f(sValue)
+	}
+
 	// skip when equal
 	if sValue == dValue {
 		return nil
@@ -233,11 +241,6 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 		return nil
 	}
 
-	// convert the source value if requested
-	if f != nil {
-		sValue = f(sValue)
-	}
-
 	if err = SetModelPath(dModel, dPath, sValue, flags); err != nil {
 		if flags&NOFAIL > 0 {
 			return nil
-- 
2.43.0


From cae8af008d45d40d56be16518099feb4544288a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 081/107] fix: loading or writing does not clear compilation
 flags and standard properties

---
 models/id3/model.go  |  6 +++---
 models/ixml/model.go | 32 ++++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 1621a9e..4e09c6b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -120,8 +120,6 @@ func (x *ID3) SyncFromXMP(d *xmp.Document) error {
 		}
 		if dm.PartOfCompilation.Value() {
 			x.IsCompilation = True
-		} else {
-			x.IsCompilation = False
 		}
 		if dm.Composer != "" {
 			x.Composer = dm.Composer
@@ -190,7 +188,9 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.AlbumTitle != "" {
 		dm.Album = x.AlbumTitle
 	}
-	dm.PartOfCompilation = xmp.Bool(x.IsCompilation.Value())
+	if x.IsCompilation.Value() {
+		dm.PartOfCompilation = xmp.True
+	}
 	if x.Composer != "" {
 		dm.Composer = x.Composer
 	}
diff --git a/models/ixml/model.go b/models/ixml/model.go
index 99a73f2..746aa05 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -115,15 +115,31 @@ func (x *IXML) SyncToXMP(d *xmp.Document) error {
 	if err != nil {
 		return err
 	}
-	dm.TapeName = x.SoundRoll
-	dm.Scene = x.SceneName
-	dm.TrackNumber = x.Take
-	dm.LogComment = x.Note
-	dm.ProjectName = x.Project
-	dm.Good = xmp.Bool(x.IsCircled.Value())
+	if x.SoundRoll != "" {
+		dm.TapeName = x.SoundRoll
+	}
+	if x.SceneName != "" {
+		dm.Scene = x.SceneName
+	}
+	if x.Take > 0 {
+		dm.TrackNumber = x.Take
+	}
+	if x.Note != "" {
+		dm.LogComment = x.Note
+	}
+	if x.Project != "" {
+		dm.ProjectName = x.Project
+	}
+	if x.IsCircled.Value() {
+		dm.Good = xmp.True
+	}
 	if x.Speed != nil {
-		dm.StartTimecode = x.Speed.XmpTimecode()
-		dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		if tc := x.Speed.XmpTimecode(); !tc.IsZero() {
+			dm.StartTimecode = tc
+		}
+		if !x.Speed.FileSampleRate.IsZero() {
+			dm.AudioSampleRate = x.Speed.FileSampleRate.Value()
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 47a589094af7339c65ed25ef4b4265e99b3c9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 082/107] fix: tiff and exif software, artists and fractions of
 seconds are copied correctly

---
 models/exif/model.go | 11 +++++------
 models/exif/types.go |  9 +++++++++
 models/tiff/model.go |  3 +++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index f1d5308..96b43e6 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -27,7 +27,6 @@ package exif
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/dc"
@@ -267,7 +266,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
-		x.SubSecTimeDigitized = strconv.Itoa(x.DateTimeDigitizedXMP.Value().Nanosecond())
+		x.SubSecTimeDigitized = convertSubSecFromXMP(x.DateTimeDigitizedXMP)
 	}
 
 	if len(x.ISOSpeedRatings) > 0 {
@@ -279,7 +278,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 
 	if m := dc.FindModel(d); m != nil {
 		x.ArtistXMP = m.Creator
-		x.Artist = strings.Join(m.Creator, ",")
+		x.Artist = strings.Join(m.Creator, ";")
 		x.ImageDescriptionXMP = m.Description
 		x.ImageDescription = m.Description.Default()
 		x.CopyrightXMP = m.Rights
@@ -289,9 +288,9 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !base.ModifyDate.IsZero() {
 			x.DateTimeXMP = base.ModifyDate
 			x.DateTime = Date(base.ModifyDate.Value())
-			x.SubSecTime = strconv.Itoa(base.ModifyDate.Value().Nanosecond())
+			x.SubSecTime = convertSubSecFromXMP(base.ModifyDate)
 		}
-		if base.CreatorTool.IsZero() {
+		if !base.CreatorTool.IsZero() {
 			x.SoftwareXMP = base.CreatorTool
 			x.Software = base.CreatorTool.String()
 		}
@@ -322,7 +321,7 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 		if !m.DateCreated.IsZero() {
 			x.DateTimeOriginalXMP = m.DateCreated
 			x.DateTimeOriginal = Date(m.DateCreated.Value())
-			x.SubSecTimeOriginal = strconv.Itoa(m.DateCreated.Value().Nanosecond())
+			x.SubSecTimeOriginal = convertSubSecFromXMP(m.DateCreated)
 		}
 	}
 	return nil
diff --git a/models/exif/types.go b/models/exif/types.go
index 46c29f5..6036d9a 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -148,6 +148,15 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	return xd, nil
 }
 
+// fractions of a second without trailing zeros
+func convertSubSecFromXMP(d xmp.Date) string {
+	s := strings.TrimRight(fmt.Sprintf("%09d", d.Value().Nanosecond()), "0")
+	if s == "" {
+		return "0"
+	}
+	return s
+}
+
 type ComponentArray []Component
 
 func (x ComponentArray) String() string {
diff --git a/models/tiff/model.go b/models/tiff/model.go
index 9e7d205..f1bc30b 100644
--- a/models/tiff/model.go
+++ b/models/tiff/model.go
@@ -157,6 +157,9 @@ func (x TiffInfo) SyncToXMP(d *xmp.Document) error {
 	if base.CreatorTool.IsZero() && x.Software != "" {
 		base.CreatorTool = xmp.AgentName(x.Software)
 	}
+	if base.CreatorTool.IsZero() && x.X_Software != "" {
+		base.CreatorTool = xmp.AgentName(x.X_Software)
+	}
 	return nil
 }
 
-- 
2.43.0


From 1b847aa5b72beb1575132934f5c36fcf6e28a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 083/107] fix: do not overwrite the sensitivity or a digitized
 date set in XMP

---
 models/exif/model.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/models/exif/model.go b/models/exif/model.go
index 96b43e6..6ab88c4 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -207,6 +207,9 @@ type ExifInfo struct {
 	GPSHPositioningError     xmp.Rational        `exif:"0x001f" xmp:"exif:GPSHPositioningError"`
 	NativeDigest             string              `exif:"-"      xmp:"exif:NativeDigest,omit"` // ingore according to spec
 
+	// DateTimeDigitizedXMP as of the last sync with DateTimeDigitized
+	syncedDigitized xmp.Date
+
 	// replaced by exifEX ExPhotographicSensitivity
 	ISOSpeedRatings xmp.IntList `exif:"-" xmp:"exif:ISOSpeedRatings,omit"`
 
@@ -267,9 +270,10 @@ func (x *ExifInfo) SyncFromXMP(d *xmp.Document) error {
 	if !x.DateTimeDigitizedXMP.IsZero() {
 		x.DateTimeDigitized = Date(x.DateTimeDigitizedXMP.Value())
 		x.SubSecTimeDigitized = convertSubSecFromXMP(x.DateTimeDigitizedXMP)
+		x.syncedDigitized = x.DateTimeDigitizedXMP
 	}
 
-	if len(x.ISOSpeedRatings) > 0 {
+	if len(x.ISOSpeedRatings) > 0 && x.ExPhotographicSensitivity == 0 {
 		x.ExPhotographicSensitivity = x.ISOSpeedRatings[0]
 	}
 
@@ -332,8 +336,10 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 	if !x.DateTimeOriginal.IsZero() {
 		x.DateTimeOriginalXMP, _ = convertDateToXMP(x.DateTimeOriginal, x.SubSecTimeOriginal)
 	}
-	if !x.DateTimeDigitized.IsZero() {
+	// keep a date that has been set in XMP after the last sync
+	if !x.DateTimeDigitized.IsZero() && x.DateTimeDigitizedXMP.String() == x.syncedDigitized.String() {
 		x.DateTimeDigitizedXMP, _ = convertDateToXMP(x.DateTimeDigitized, x.SubSecTimeDigitized)
+		x.syncedDigitized = x.DateTimeDigitizedXMP
 	}
 	if !x.DateTime.IsZero() {
 		x.DateTimeXMP, _ = convertDateToXMP(x.DateTime, x.SubSecTime)
@@ -351,7 +357,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 		x.SoftwareXMP = xmp.AgentName(x.Software)
 	}
 
-	if len(x.ISOSpeedRatings) > 0 {
+	if len(x.ISOSpeedRatings) > 0 && x.ExPhotographicSensitivity == 0 {
 		x.ExPhotographicSensitivity = x.ISOSpeedRatings[0]
 	}
 
-- 
2.43.0


From f2b4def4957895d547b1cb6a778583db20b0d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 084/107] fix: locations with negative coordinates are split
 and joined correctly

---
 models/qt/qt_metadata.go |  8 +++-----
 models/qt/types.go       | 28 ++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/models/qt/qt_metadata.go b/models/qt/qt_metadata.go
index ea385fc..11b9820 100644
--- a/models/qt/qt_metadata.go
+++ b/models/qt/qt_metadata.go
@@ -17,7 +17,6 @@ package qt
 import (
 	"fmt"
 	"strconv"
-	"strings"
 
 	"github.com/trimmer-io/go-xmp/models/tiff"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -126,11 +125,11 @@ func (x *QtMetadata) SyncFromXMP(d *xmp.Document) error {
 	if x.Location != nil {
 		x.LocationBody = x.Location.Body
 		x.LocationDate = x.Location.Date
-		x.LocationISO6709 = strings.Join([]string{
+		x.LocationISO6709 = joinISO6709(
 			string(x.Location.Latitude),
 			string(x.Location.Longitude),
 			strconv.FormatFloat(x.Location.Altitude, 'f', -1, 64),
-		}, "+")
+		)
 		x.LocationName = x.Location.Name
 		x.LocationNote = x.Location.Note
 		x.LocationRole = x.Location.Role
@@ -148,14 +147,13 @@ func (x *QtMetadata) SyncToXMP(d *xmp.Document) error {
 			Role: x.LocationRole,
 		}
 		// "+43.5968+005.4797+362.904/",
-		for i, v := range strings.Split(x.LocationISO6709, "+") {
+		for i, v := range splitISO6709(x.LocationISO6709) {
 			switch i {
 			case 0:
 				x.Location.Latitude = xmp.GPSCoord(v)
 			case 1:
 				x.Location.Longitude = xmp.GPSCoord(v)
 			case 2:
-				v = strings.TrimSuffix(v, "/")
 				x.Location.Altitude, _ = strconv.ParseFloat(v, 64)
 			}
 		}
diff --git a/models/qt/types.go b/models/qt/types.go
index be843f0..5e675bc 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -57,6 +57,34 @@ type Location struct {
 	Role      LocationRole `xmp:"qt:Role,attr"`
 }
 
+// splitISO6709 splits a location into latitude, longitude and altitude. Each
+// starts with a sign, positive signs are not part of the result.
+func splitISO6709(s string) []string {
+	l := make([]string, 0, 3)
+	s = strings.TrimSuffix(s, "/")
+	for s != "" {
+		end := len(s)
+		if i := strings.IndexAny(s[1:], "+-"); i > -1 {
+			end = i + 1
+		}
+		l = append(l, strings.TrimPrefix(s[:end], "+"))
+		s = s[end:]
+	}
+	return l
+}
+
+func joinISO6709(l ...string) string {
+	buf := bytes.Buffer{}
+	for _, v := range l {
+		if !strings.HasPrefix(v, "-") {
+			buf.WriteByte('+')
+		}
+		buf.WriteString(v)
+	}
+	buf.WriteByte('/')
+	return buf.String()
+}
+
 func (x *Location) UnmarshalText(data []byte) error {
 	// todo: need sample data
 	return nil
-- 
2.43.0


From e7f3c7694200fa8b851dab3f4732a6208d95b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 085/107] fix: ID3 v2.3 dates without a year 2.4 date panicked

---
 models/id3/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 4e09c6b..2765b5b 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -167,7 +167,7 @@ func (x ID3) SyncToXMP(d *xmp.Document) error {
 	if x.RecordingTime.IsZero() && !x.Date_v23.IsZero() && !x.Time_v23.IsZero() {
 		_, mm, dd := x.Date_v23.Value().Date()
 		h, m, s := x.Time_v23.Value().Clock()
-		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, nil))
+		x.RecordingTime = xmp.Date(time.Date(x.Year_v23, mm, dd, h, m, s, 0, time.UTC))
 	}
 	if !x.RecordingTime.IsZero() {
 		base, err := xmpbase.MakeModel(d)
-- 
2.43.0


From 2e970d7b3a29325a9e34eb2b746d8e069985a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 086/107] fix: list elements of the wrong type panicked in the
 error message

---
 xmp/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index dd5f7de..b0beb80 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -282,7 +282,7 @@ func (d *Decoder) unmarshal(val reflect.Value, finfo *fieldInfo, src *Node) erro
 	} else {
 		// otherwise set simple value directly
 		if err := setValue(val, src.Value); err != nil {
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.FullName(), err)
 		}
 	}
 
@@ -335,7 +335,7 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, finfo *fieldInfo, src Attr) e
 		// Recur to read element into slice.
 		if err := d.unmarshalAttr(val.Index(n), nil, src); err != nil {
 			val.SetLen(n)
-			return fmt.Errorf("xmp: unmarshal %s: %v", finfo.String(), err)
+			return fmt.Errorf("xmp: unmarshal %s: %v", src.Name.Local, err)
 		}
 		return nil
 	}
-- 
2.43.0


From fd8c08082aebc057c0519d772f03b900adaa663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 087/107] fix: refuse XML that is nested too deep

---
 xmp/node.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index b67cdf8..843a079 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -26,8 +26,12 @@ var (
 	nodePool                             = make(chan *Node, 5000)
 	npAllocs, npFrees, npHits, npReturns int64
 	errNotFound                          = errors.New("not found")
+	errNodeDepth                         = errors.New("xmp: exceeded max depth")
 )
 
+// limits the stack used for hostile documents, same as in encoding/xml
+const maxNodeDepth = 10000
+
 type Node struct {
 	XMLName xml.Name // node name and namespace
 	Attr    AttrList // captures all unbound attributes and XMP qualifiers
@@ -371,6 +375,13 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 }
 
 func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	return n.unmarshalXML(d, start, 0)
+}
+
+func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) error {
+	if depth >= maxNodeDepth {
+		return errNodeDepth
+	}
 	var nodes []*Node
 	var done bool
 	for !done {
@@ -383,7 +394,9 @@ func (n *Node) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			n.Value = strings.TrimSpace(string(t))
 		case xml.StartElement:
 			x := NewNode(emptyName)
-			x.UnmarshalXML(d, t)
+			if err := x.unmarshalXML(d, t, depth+1); err != nil {
+				return err
+			}
 			nodes = append(nodes, x)
 		case xml.EndElement:
 			done = true
-- 
2.43.0


From ce552a08121d9f77d721ba7e56656d5a905c902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 088/107] fix: keep text before and after comments and CDATA
 sections

---
 xmp/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 843a079..b3021e9 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -383,6 +383,7 @@ func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) e
 		return errNodeDepth
 	}
 	var nodes []*Node
+	var text []byte // may come in pieces, e.g. before and after a comment
 	var done bool
 	for !done {
 		t, err := d.Token()
@@ -391,8 +392,9 @@ func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) e
 		}
 		switch t := t.(type) {
 		case xml.CharData:
-			n.Value = strings.TrimSpace(string(t))
+			text = append(text, t...)
 		case xml.StartElement:
+			text = nil
 			x := NewNode(emptyName)
 			if err := x.unmarshalXML(d, t, depth+1); err != nil {
 				return err
@@ -403,6 +405,7 @@ func (n *Node) unmarshalXML(d *xml.Decoder, start xml.StartElement, depth int) e
 		}
 	}
 	n.XMLName = start.Name
+	n.Value = strings.TrimSpace(string(text))
 	n.Attr.From(start.Attr)
 	n.Nodes = nodes
 	return nil
-- 
2.43.0


From b4bfeebc85ea67e627622626121f5b35ab2972ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 089/107] fix: keep the value of simple extensions

---
 xmp/xmp_ext.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 516ef34..7c304d0 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -184,7 +184,10 @@ func (x *NamedExtensionArray) FindNodeByName(name string) *Node {
 func (x NamedExtensionArray) MarshalXMP(e *Encoder, node *Node, m Model) error {
 	for _, v := range x {
 		ext := NewNode(NewName(v.XMLName.Local))
-		ext.AddAttr(rdfResourceAttr)
+		if len(v.Nodes) > 0 || v.Value == "" {
+			ext.AddAttr(rdfResourceAttr)
+		}
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		for _, attr := range v.Attr {
 			ext.AddAttr(attr)
@@ -198,6 +201,7 @@ func (x *NamedExtensionArray) UnmarshalXMP(d *Decoder, node *Node, m Model) erro
 	for _, v := range node.Nodes {
 		v.translate(d)
 		ext := (*Extension)(NewNode(NewName(v.XMLName.Local)))
+		ext.Value = v.Value
 		ext.Nodes = append(ext.Nodes, copyNodes(v.Nodes)...)
 		ext.Attr = append(ext.Attr, v.Attr...)
 		*x = append(*x, ext)
-- 
2.43.0


From 2d7e731bf8a33d0c39ed8a1620873fc1b5a21649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 090/107] fix: unknown iXML properties were lost

---
 models/ixml/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/ixml/model.go b/models/ixml/model.go
index 746aa05..95fc3f3 100644
--- a/models/ixml/model.go
+++ b/models/ixml/model.go
@@ -91,7 +91,7 @@ type IXML struct {
 	TrackList            TrackList               `xml:"TRACK_LIST,omitempty"              xmp:"iXML:trackList"`
 	UserData             *UserData               `xml:"USER,omitempty"                    xmp:"iXML:userData"`
 	Location             *Location               `xml:"LOCATION,omitempty"                xmp:"iXML:location"`
-	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension,any"`
+	Extension            xmp.NamedExtensionArray `xml:",any"                              xmp:"iXML:extension"`
 }
 
 func (m *IXML) Namespaces() xmp.NamespaceList {
-- 
2.43.0


From 4305451929769e90ff334155c4682c03f730abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 091/107] fix: extensions given as attribute recursed endlessly

---
 xmp/xmp_ext.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 7c304d0..3599ab0 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -16,6 +16,7 @@ package xmp
 
 import (
 	"encoding/xml"
+	"fmt"
 )
 
 // Raw nodes are used to keep custom data models inside a container. This
@@ -77,7 +78,10 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 }
 
 func (x *Extension) UnmarshalXMPAttr(d *Decoder, a Attr) error {
-	return d.decodeAttribute(&x.Nodes, a)
+	if a.Value == "" {
+		return nil
+	}
+	return fmt.Errorf("xmp: extension %s must be a structure", a.Name.Local)
 }
 
 func (x *Extension) UnmarshalXMP(d *Decoder, src *Node, m Model) error {
-- 
2.43.0


From 5a128e5f55b18ebc77e4c095f8f568730f06a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:56 +0000
Subject: [PATCH 092/107] fix: node pool statistics were counted without
 synchronisation

---
 xmp/dump.go | 15 +++++++++------
 xmp/node.go |  9 +++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/xmp/dump.go b/xmp/dump.go
index 999c1a1..664d01b 100644
--- a/xmp/dump.go
+++ b/xmp/dump.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 )
 
 func (n Node) Dump(d int) {
@@ -59,10 +60,12 @@ func (d *Document) DumpNamespaces() {
 }
 
 func DumpStats() {
-	fmt.Println("xmp: Node Pool Allocs ", npAllocs)
-	fmt.Println("xmp: Node Pool Frees  ", npFrees)
-	fmt.Println("xmp: Node Pool Hits   ", npHits)
-	fmt.Println("xmp: Node Pool Returns", npReturns)
-	fmt.Println("xmp: Node Pool InUse  ", npAllocs+npHits-npReturns-npFrees)
-	fmt.Println("xmp: Node Pool InPool ", Max64(0, npReturns-npHits))
+	allocs, frees := atomic.LoadInt64(&npAllocs), atomic.LoadInt64(&npFrees)
+	hits, returns := atomic.LoadInt64(&npHits), atomic.LoadInt64(&npReturns)
+	fmt.Println("xmp: Node Pool Allocs ", allocs)
+	fmt.Println("xmp: Node Pool Frees  ", frees)
+	fmt.Println("xmp: Node Pool Hits   ", hits)
+	fmt.Println("xmp: Node Pool Returns", returns)
+	fmt.Println("xmp: Node Pool InUse  ", allocs+hits-returns-frees)
+	fmt.Println("xmp: Node Pool InPool ", Max64(0, returns-hits))
 }
diff --git a/xmp/node.go b/xmp/node.go
index b3021e9..5aac09b 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -84,14 +85,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -115,9 +116,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 11d2ce93da5666bfb5403d9f1555f804760dea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 093/107] fix: ListNativeFields panicked on every non-empty
 field

---
 xmp/native.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index b9c579d..c1a6fa4 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -285,7 +285,7 @@ func ListNativeFields(v Model) (TagList, error) {
 		}
 
 		// Check for text marshaler and marshal as node value
-		if fv.CanInterface() && typ.Implements(textMarshalerType) {
+		if fv.CanInterface() && fv.Type().Implements(textMarshalerType) {
 			b, err := fv.Interface().(encoding.TextMarshaler).MarshalText()
 			if err != nil {
 				return nil, err
@@ -332,7 +332,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// simple values are just fine, but any other type (slice, array, struct)
 		// without textmarshaler will fail here
-		if s, b, err := marshalSimple(typ, fv); err != nil {
+		if s, b, err := marshalSimple(fv.Type(), fv); err != nil {
 			return nil, err
 		} else {
 			if b != nil {
-- 
2.43.0


From 8aab5578845ca431fa00b6d1a392bb5ffdf91fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 094/107] fix: locale fields of types derived from AltString,
 panic on fields that are no list

---
 xmp/native.go | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/xmp/native.go b/xmp/native.go
index c1a6fa4..90af34f 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -203,14 +203,10 @@ func SetLocaleField(v Model, lang string, name, value string) error {
 		return fmt.Errorf("field '%s' must be of type xmp.AltString, found type '%s' kind '%s'", name, f.Type().String(), f.Kind())
 	}
 
-	// we need a pointer to AltString slices for appending
-	a, ok := f.Addr().Interface().(*AltString)
-	if !ok {
-		return fmt.Errorf("field '%s' must be of type xmp.AltString", name)
-	}
-
 	// use AltString interface to add value
+	a := f.Convert(altStringType).Interface().(AltString)
 	a.Set(lang, value)
+	f.Set(reflect.ValueOf(a).Convert(f.Type()))
 	return nil
 }
 
@@ -228,17 +224,12 @@ func GetLocaleField(v Model, lang string, name string) (string, error) {
 
 	f := finfo.value(val)
 
-	if f.Kind() != reflect.Slice && f.Type().Elem() != reflect.TypeOf(AltItem{}) {
+	if f.Kind() != reflect.Slice || f.Type().Elem() != reflect.TypeOf(AltItem{}) {
 		return "", fmt.Errorf("field '%s' must be of type AltString, found %s (%s)", name, f.Type().String(), f.Kind())
 	}
 
-	a, ok := f.Interface().(AltString)
-	if !ok {
-		return "", fmt.Errorf("field '%s' must be of type AltString", name)
-	}
-
 	// use AltString interface to get value
-	return a.Get(lang), nil
+	return f.Convert(altStringType).Interface().(AltString).Get(lang), nil
 }
 
 func ListNativeFields(v Model) (TagList, error) {
@@ -316,11 +307,7 @@ func ListNativeFields(v Model) (TagList, error) {
 
 		// handle multi-language arrays
 		if fv.Kind() == reflect.Slice && fv.Type().Elem() == reflect.TypeOf(AltItem{}) {
-			a, ok := fv.Interface().(AltString)
-			if !ok {
-				return nil, fmt.Errorf("field '%s' must be of type AltString", finfo.name)
-			}
-			for _, v := range a {
+			for _, v := range fv.Convert(altStringType).Interface().(AltString) {
 				tagList = append(tagList, Tag{
 					Key:   finfo.name,
 					Lang:  v.Lang,
-- 
2.43.0


From 62db9c557a3d08c1021247bb367242f93093b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 095/107] fix: SetNativeField dropped values it cannot store in
 a list

---
 xmp/native.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 90af34f..24d6ae1 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -173,6 +173,11 @@ func SetNativeField(v Model, name, value string) error {
 		return f.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(value))
 	}
 
+	// lists have no text form unless they implement an unmarshaler
+	if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
+		return fmt.Errorf("xmp: no method for unmarshalling type %s", f.Type().String())
+	}
+
 	// otherwise set simple field value directly or fail
 	return setValue(f, value)
 }
-- 
2.43.0


From 5259dcf0c01414bfbaeab6574467445f446a3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 096/107] fix: unknown native tags were accepted but their
 values lost

---
 xmp/native.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 24d6ae1..58f0a76 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -62,6 +62,27 @@ func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 	return nil
 }
 
+// Get returns the value of the first tag with this key.
+func (x TagList) Get(key string) string {
+	for _, v := range x {
+		if v.Key == key {
+			return v.Value
+		}
+	}
+	return ""
+}
+
+// Set changes the value of the first tag with this key or adds a new tag.
+func (x *TagList) Set(key, value string) {
+	for i := range *x {
+		if (*x)[i].Key == key {
+			(*x)[i].Value = value
+			return
+		}
+	}
+	*x = append(*x, Tag{Key: key, Value: value})
+}
+
 func GetNativeField(v Model, name string) (string, error) {
 	nsName, err := getNamespaceName(v)
 	if err != nil {
@@ -85,6 +106,13 @@ func GetNativeField(v Model, name string) (string, error) {
 		return "", nil
 	}
 
+	// unknown tags are kept in a list
+	if finfo.flags&fAny > 0 {
+		if l, ok := fv.Interface().(TagList); ok {
+			return l.Get(name), nil
+		}
+	}
+
 	if finfo.flags&fEmpty == 0 && isEmptyValue(fv) {
 		return "", nil
 	}
@@ -150,6 +178,14 @@ func SetNativeField(v Model, name, value string) error {
 	// load and potentially create value
 	f = derefValue(f)
 
+	// unknown tags are kept in a list
+	if finfo.flags&fAny > 0 && f.CanAddr() {
+		if l, ok := f.Addr().Interface().(*TagList); ok {
+			l.Set(name, value)
+			return nil
+		}
+	}
+
 	// try unmarshalers
 	if f.CanAddr() {
 		pv := f.Addr()
@@ -310,6 +346,12 @@ func ListNativeFields(v Model) (TagList, error) {
 			}
 		}
 
+		// handle unknown tags
+		if l, ok := fv.Interface().(TagList); ok {
+			tagList = append(tagList, l...)
+			continue
+		}
+
 		// handle multi-language arrays
 		if fv.Kind() == reflect.Slice && fv.Type().Elem() == reflect.TypeOf(AltItem{}) {
 			for _, v := range fv.Convert(altStringType).Interface().(AltString) {
-- 
2.43.0


From a1199e4d7d158455275d060bbae859685a6c3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:14 +0000
Subject: [PATCH 097/107] fix: no RIFF tag could be used because two tag names
 were declared twice

---
 models/riff/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/riff/model.go b/models/riff/model.go
index ef04520..24bc88e 100644
--- a/models/riff/model.go
+++ b/models/riff/model.go
@@ -79,7 +79,7 @@ type RiffInfo struct {
 	SoundSchemeTitle    string `riffinfo:"DISP" xmp:"riffinfo:SoundSchemeTitle"`
 	DateTimeOriginal    string `riffinfo:"DTIM" xmp:"riffinfo:DateTimeOriginal"`
 	Genre2              string `riffinfo:"GENR" xmp:"riffinfo:Genre"`
-	ArchivalLocation    string `riffinfo:"IARL" xmp:"riffinfo:ArchivalLocation"`
+	ArchivalLocation    string `riffinfo:"-" xmp:"riffinfo:ArchivalLocation"`
 	FirstLanguage       string `riffinfo:"IAS1" xmp:"riffinfo:FirstLanguage"`
 	SecondLanguage      string `riffinfo:"IAS2" xmp:"riffinfo:SecondLanguage"`
 	ThirdLanguage       string `riffinfo:"IAS3" xmp:"riffinfo:ThirdLanguage"`
@@ -92,7 +92,7 @@ type RiffInfo struct {
 	BaseURL             string `riffinfo:"IBSU" xmp:"riffinfo:BaseURL"`
 	DefaultAudioStream  string `riffinfo:"ICAS" xmp:"riffinfo:DefaultAudioStream"`
 	CostumeDesigner     string `riffinfo:"ICDS" xmp:"riffinfo:CostumeDesigner"`
-	Commissioned        string `riffinfo:"ICMS" xmp:"riffinfo:Commissioned"`
+	Commissioned        string `riffinfo:"-" xmp:"riffinfo:Commissioned"`
 	Cinematographer     string `riffinfo:"ICNM" xmp:"riffinfo:Cinematographer"`
 	Country             string `riffinfo:"ICNT" xmp:"riffinfo:Country"`
 	Cropped             string `riffinfo:"ICRP" xmp:"riffinfo:Cropped"`
-- 
2.43.0


From 65418f248b13767120b7405683f46f9066a284da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 098/107] fix: RIFF lists and titles could be set but not read,
 titles lost their parts

---
 models/riff/types.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/models/riff/types.go b/models/riff/types.go
index 168d471..2843498 100644
--- a/models/riff/types.go
+++ b/models/riff/types.go
@@ -25,6 +25,10 @@ func (a StringArray) Typ() xmp.ArrayType {
 	return xmp.ArrayTypeUnordered
 }
 
+func (x StringArray) MarshalText() ([]byte, error) {
+	return []byte(strings.Join(x, "; ")), nil
+}
+
 func (x *StringArray) UnmarshalText(data []byte) error {
 	*x = strings.Split(string(data), "; ")
 	return nil
@@ -40,11 +44,13 @@ func (x *StringArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model)
 
 type AltString xmp.AltString
 
+func (x AltString) MarshalText() ([]byte, error) {
+	return []byte(xmp.AltString(x).Default()), nil
+}
+
 func (x *AltString) UnmarshalText(data []byte) error {
 	as := xmp.AltString{}
-	for _, v := range strings.Split(string(data), "; ") {
-		as.Add("eng", v)
-	}
+	as.Add("eng", string(data))
 	*x = AltString(as)
 	return nil
 }
-- 
2.43.0


From c1d1e8d09ea597e0bac2752f956d16bcf7396d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 099/107] fix: QuickTime tags with reverse domain names were
 never recognised by CanTag, embedded XMP and iXML not by SetTag

---
 models/qt/model.go | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 76ebc1b..a3280fe 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -175,21 +175,21 @@ func (x QtInfo) SyncToXMP(d *xmp.Document) error {
 
 func (x *QtInfo) CanTag(tag string) bool {
 	switch {
+	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		return true
 	case len(tag) == 4:
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
-	case strings.HasPrefix("com.apple.quicktime.player", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime.player"):
 		v := &QtPlayer{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.quicktime", tag):
+	case strings.HasPrefix(tag, "com.apple.quicktime"):
 		v := &QtMetadata{}
 		return v.CanTag(tag)
-	case strings.HasPrefix("com.apple.proapps", tag):
+	case strings.HasPrefix(tag, "com.apple.proapps"):
 		v := &QtProApps{}
 		return v.CanTag(tag)
-	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		return true
 	}
 	return false
 }
@@ -238,6 +238,20 @@ func (x *QtInfo) GetTag(tag string) (string, error) {
 
 func (x *QtInfo) SetTag(tag, value string) error {
 	switch {
+	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
+		i := &ixml.IXML{}
+		if err := i.ParseXML([]byte(value)); err != nil {
+			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.IXML = i
+		}
+	case tag == "XMP_":
+		v := xmp.NewDocument()
+		if err := xmp.Unmarshal([]byte(value), v); err != nil {
+			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
+		} else {
+			x.XMP = v
+		}
 	case len(tag) == 4:
 		if x.Udta == nil {
 			x.Udta = &QtUserdata{}
@@ -266,20 +280,6 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		if err := xmp.SetNativeField(x.ProApps, tag, value); err != nil {
 			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
 		}
-	case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
-		i := &ixml.IXML{}
-		if err := i.ParseXML([]byte(value)); err != nil {
-			return fmt.Errorf("%s: parsing ixml: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.IXML = i
-		}
-	case tag == "XMP_":
-		v := xmp.NewDocument()
-		if err := xmp.Unmarshal([]byte(value), v); err != nil {
-			return fmt.Errorf("%s: parsing embedded xmp: %v", NsQuicktime.GetName(), err)
-		} else {
-			x.XMP = v
-		}
 	default:
 		// silently ignore all other sorts of tags
 	}
-- 
2.43.0


From d61509579723b5f1e3d6727558bee01a98ca5026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 100/107] fix: CanTag of EXIF tags depended on their case
 unlike GetTag and SetTag

---
 models/exif/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/models/exif/model.go b/models/exif/model.go
index 6ab88c4..6d1deed 100644
--- a/models/exif/model.go
+++ b/models/exif/model.go
@@ -381,6 +381,7 @@ func (x *ExifInfo) SyncToXMP(d *xmp.Document) error {
 }
 
 func (x *ExifInfo) CanTag(tag string) bool {
+	tag = strings.ToLower(tag)
 	_, err := xmp.GetNativeField(x, tag)
 	return err == nil
 }
-- 
2.43.0


From 8ad7a0ce3e8c16a10de0a8863c2abb5431cfaac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 101/107] fix: SetLocaleTag of ID3 tags did not know their v2.2
 names

---
 models/id3/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/id3/model.go b/models/id3/model.go
index 2765b5b..7cc540c 100644
--- a/models/id3/model.go
+++ b/models/id3/model.go
@@ -479,7 +479,11 @@ func (x *ID3) GetLocaleTag(lang string, tag string) (string, error) {
 }
 
 func (x *ID3) SetLocaleTag(lang string, tag, value string) error {
-	if err := xmp.SetLocaleField(x, lang, tag, value); err != nil {
+	t, err := mapTagToV24(tag)
+	if err != nil {
+		return err
+	}
+	if err := xmp.SetLocaleField(x, lang, t, value); err != nil {
 		return fmt.Errorf("%s: %v", NsID3.GetName(), err)
 	}
 	return nil
-- 
2.43.0


From 8ae738ab73d8bc79dcf12606d3a564409d8a9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 102/107] fix: ListTags of QuickTime files left out all tags

---
 models/qt/model.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index a3280fe..74d9f07 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -287,9 +287,34 @@ func (x *QtInfo) SetTag(tag, value string) error {
 }
 
 func (x *QtInfo) ListTags() (xmp.TagList, error) {
-	if l, err := xmp.ListNativeFields(x); err != nil {
-		return nil, fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
-	} else {
-		return l, nil
+	list := make(xmp.TagList, 0)
+	add := func(m xmp.Model) error {
+		l, err := xmp.ListNativeFields(m)
+		if err != nil {
+			return fmt.Errorf("%s: %v", NsQuicktime.GetName(), err)
+		}
+		list = append(list, l...)
+		return nil
+	}
+	if x.Udta != nil {
+		if err := add(x.Udta); err != nil {
+			return nil, err
+		}
+	}
+	if x.Mdta != nil {
+		if err := add(x.Mdta); err != nil {
+			return nil, err
+		}
+	}
+	if x.Player != nil {
+		if err := add(x.Player); err != nil {
+			return nil, err
+		}
+	}
+	if x.ProApps != nil {
+		if err := add(x.ProApps); err != nil {
+			return nil, err
+		}
 	}
+	return append(list, x.Extension...), nil
 }
-- 
2.43.0


From df55aacc2bfbad8ef8f75f6e6dfb6fd36d14d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 103/107] fix: QuickTime tags that start with a copyright sign
 were ignored

---
 models/qt/model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/models/qt/model.go b/models/qt/model.go
index 74d9f07..e4ceb37 100644
--- a/models/qt/model.go
+++ b/models/qt/model.go
@@ -54,6 +54,7 @@ package qt
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/trimmer-io/go-xmp/models/ixml"
 	"github.com/trimmer-io/go-xmp/xmp"
@@ -177,7 +178,7 @@ func (x *QtInfo) CanTag(tag string) bool {
 	switch {
 	case tag == "XMP_" || tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
 		return true
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		v := &QtUserdata{}
 		_, err := xmp.GetNativeField(v, tag)
 		return err == nil
@@ -196,7 +197,7 @@ func (x *QtInfo) CanTag(tag string) bool {
 
 func (x *QtInfo) GetTag(tag string) (string, error) {
 	switch {
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		if x.Udta == nil {
 			return "", nil
 		}
@@ -252,7 +253,7 @@ func (x *QtInfo) SetTag(tag, value string) error {
 		} else {
 			x.XMP = v
 		}
-	case len(tag) == 4:
+	case utf8.RuneCountInString(tag) == 4:
 		if x.Udta == nil {
 			x.Udta = &QtUserdata{}
 		}
-- 
2.43.0


From a8295181ba690213f3114ac2ac780360c5c72a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 104/107] fix: keep the toolkit of XML documents

The toolkit read from x:xmpmeta was overwritten with the empty name of the
decoder.
---
 xmp/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/unmarshal.go b/xmp/unmarshal.go
index b0beb80..f1accc0 100644
--- a/xmp/unmarshal.go
+++ b/xmp/unmarshal.go
@@ -85,7 +85,7 @@ func (d *Decoder) Decode(x *Document) error {
 	// 2  skip top-level `x:xmpmeta` (optional) and `rdf:RDF` nodes
 	if root.FullName() == "x:xmpmeta" {
 		if a := root.GetAttr(nsX.GetURI(), "xmptk"); len(a) > 0 {
-			x.toolkit = strings.TrimSpace(a[0].Value)
+			d.toolkit = strings.TrimSpace(a[0].Value)
 		}
 		if len(root.Nodes) == 0 {
 			return fmt.Errorf("xmp: invalid XML format: missing rdf:RDF node")
-- 
2.43.0


From 2245b69bc3e2671987bf56eda23140526a1a82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 105/107] fix: read lists of unknown tags from JSON

They are written as attributes without namespace, which JSON does not tell
from child nodes.
---
 xmp/native.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xmp/native.go b/xmp/native.go
index 58f0a76..14e7a12 100644
--- a/xmp/native.go
+++ b/xmp/native.go
@@ -59,6 +59,17 @@ func (x *TagList) UnmarshalXMP(d *Decoder, node *Node, m Model) error {
 		}
 		*x = append(*x, tag)
 	}
+	// attributes are nodes in JSON
+	for _, v := range node.Nodes {
+		tag := Tag{
+			Key:   v.XMLName.Local,
+			Value: v.Value,
+		}
+		if i := strings.Index(tag.Key, "-"); i > -1 {
+			tag.Key, tag.Lang = tag.Key[:i], tag.Key[i+1:]
+		}
+		*x = append(*x, tag)
+	}
 	return nil
 }
 
-- 
2.43.0


From f27c6fb0dc54b0442fb87a9a2f7a17690cfde254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 106/107] fix: write documents added to a pantry

AddPantry wrapped the copied document in a named extension which was written
with the Go structs of its models, and nodes in unknown namespaces lost their
namespace.
---
 models/xmp_mm/model.go | 11 +++++++++++
 xmp/xmp_ext.go         |  9 ++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/models/xmp_mm/model.go b/models/xmp_mm/model.go
index e5041ff..bb6a0b6 100644
--- a/models/xmp_mm/model.go
+++ b/models/xmp_mm/model.go
@@ -119,6 +119,17 @@ func (x *XmpMM) AddPantry(d *xmp.Document) {
 	cpy := xmp.NewDocument()
 	cpy.Merge(d, xmp.MERGE)
 	node.Nodes = cpy.Nodes()
+	// keep unknown namespaces
+	for _, ns := range cpy.Namespaces() {
+		if xmp.NsRegistry.GetPrefix(ns.GetURI()) != "" {
+			continue
+		}
+		n := cpy.FindNode(ns)
+		if n == nil {
+			n = node.AddNode(xmp.NewNode(ns.RootName()))
+		}
+		n.XMLName.Space = ns.GetURI()
+	}
 	x.Pantry = append(x.Pantry, (*xmp.Extension)(node))
 }
 
diff --git a/xmp/xmp_ext.go b/xmp/xmp_ext.go
index 3599ab0..f8eb266 100644
--- a/xmp/xmp_ext.go
+++ b/xmp/xmp_ext.go
@@ -49,7 +49,14 @@ func (x *Extension) FindNodeByName(name string) *Node {
 }
 
 func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
+	unnamed := x.XMLName.Local == "" || (*Node)(&x).FullName() == "rdf:Description"
 	for _, ext := range x.Nodes {
+		// nodes copied from another document bring their namespace along
+		if uri := ext.XMLName.Space; uri != "" && e.doc != nil && e.doc.findNsByPrefix(ext.Name()) == nil {
+			if _, err := e.doc.addNamespace(ext.Name(), uri); err != nil {
+				return err
+			}
+		}
 		if ext.Model != nil {
 			if err := e.EncodeElement(ext.Model, node); err != nil {
 				return err
@@ -57,7 +64,7 @@ func (x Extension) MarshalXMP(e *Encoder, node *Node, m Model) error {
 		}
 
 		// unwrap one extra layer that we keep for identifying extensions
-		if x.XMLName.Local == "" {
+		if unnamed {
 			for _, attr := range ext.Attr {
 				node.AddAttr(attr)
 			}
-- 
2.43.0


From 4e938fb36a00163aa1b547e0cfddad0a591580f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:16 +0000
Subject: [PATCH 107/107] fix: qualifiers set by path are written as attributes

They were written as elements next to the text of their property, where the
text is lost when the document is read again. This also happens to merged
documents.
---
 xmp/node.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xmp/node.go b/xmp/node.go
index 5aac09b..48c77fe 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -354,6 +354,18 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 
 	start.Name = n.XMLName
 	start.Attr = n.Attr.XML()
+	nodes := n.Nodes
+	if n.Value != "" && len(nodes) > 0 {
+		// the fields of a node with text are its qualifiers
+		nodes = nil
+		for _, v := range n.Nodes {
+			if v.Model != nil || len(v.Nodes) > 0 || len(v.Attr) > 0 || !hasPrefix(v.XMLName.Local) {
+				nodes = append(nodes, v)
+			} else if v.Value != "" && n.findAttr(v.Namespace(), v.Name()) < 0 {
+				start.Attr = append(start.Attr, xml.Attr{Name: v.XMLName, Value: v.Value})
+			}
+		}
+	}
 	if n.Model != nil {
 		return e.EncodeElement(struct {
 			Data  Model
@@ -369,7 +381,7 @@ func (n *Node) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 			Nodes []*Node
 		}{
 			Data:  n.Value,
-			Nodes: n.Nodes,
+			Nodes: nodes,
 		}, start)
 
 	}
-- 
2.43.0

