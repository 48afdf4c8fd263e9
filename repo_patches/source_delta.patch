From 784903e26a982f12c111728cadddc238976567ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 01/98] fix: glyf: reject inconsistent contour end points,
 allow zero contours in SimpleGlyph.Decode

---
 glyf/simple.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..74a6ee8 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -56,7 +56,10 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
+	numPoints := 0
+	if numContours > 0 {
+		numPoints = int(endPtsOfContours[numContours-1]) + 1
+	}
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
@@ -149,6 +152,9 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 	start := 0
 	for i := 0; i < numContours; i++ {
 		end := int(endPtsOfContours[i]) + 1
+		if end < start || end > numPoints {
+			return nil, errInvalidGlyphData
+		}
 		pp := make([]Point, end-start)
 		for j := start; j < end; j++ {
 			pp[j-start] = Point{xx[j], yy[j], ff[j]&flagOnCurve != 0}
-- 
2.43.0


From 301dd2288b2023e6cee5d49ceebd2ce268926711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 02/98] fix: cmap: Format4.Lookup must not alias code points
 outside the BMP

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..12bb5ec 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -96,6 +96,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
-- 
2.43.0


From 113656893f4420b5c642982b7ffbf96bc544ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 03/98] fix: cmap: apply idDelta to glyph array entries when
 decoding format 4

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 12bb5ec..39a4f86 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -85,6 +85,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			}
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(glyphIDArray[d+int(idx-start)])
+				if c != 0 {
+					c += glyph.ID(idDelta[k])
+				}
 				if c != 0 {
 					cmap[uint16(code2rune(int(idx)))] = c
 				}
-- 
2.43.0


From 53d07519c9ed713e2f291564f750335057ba61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 04/98] fix: cmap: translate Mac Roman codes in format 0
 subtables, no panic for negative runes

---
 cmap/format0.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..7da85d9 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,25 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
+	if len(data) < 6 {
+		return nil, errMalformedSubtable
 	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		// The byte values are not Unicode code points.
+		res := make(Format4)
+		for i, gid := range data {
+			if gid != 0 {
+				res[uint16(code2rune(i))] = glyph.ID(gid)
+			}
+		}
+		return res, nil
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
@@ -48,7 +58,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
-- 
2.43.0


From bda5cdf99395f00a5255336fa787109562fb8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 05/98] fix: cmap: do not let format 12 groups wrap around at
 glyph 65535

---
 cmap/format12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index 06f727b..c617c58 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -84,7 +84,7 @@ func (cmap Format12) Encode(language uint16) []byte {
 	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
 	segStart := 0
 	for i := 1; i < len(keys); i++ {
-		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {
+		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 || cmap[keys[i]] == 0 {
 			ss = append(ss, format12segment{
 				StartCharCode: keys[segStart],
 				EndCharCode:   keys[i-1],
-- 
2.43.0


From aa66accca3748aa3e21da6ad5b262e307fa1ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 06/98] fix: hmtx: keep the direction of almost horizontal
 carets

---
 hmtx/hmtx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index ec247c7..c3cb715 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -285,7 +285,7 @@ func fromAngle(caretAngle float64) (rise, run int16) {
 		return -1, 0
 	}
 	rise0, run0 := bestRationalApproximation(s/c, 32767)
-	if s*float64(rise0) < 0 {
+	if s*float64(rise0) < 0 || rise0 == 0 && c*float64(run0) < 0 {
 		rise0, run0 = -rise0, -run0
 	}
 	return int16(rise0), int16(run0)
-- 
2.43.0


From c3e0e4efaadba1a3cf004aaf7894bf7178d7bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 07/98] fix: hmtx: derive minRightSideBearing and xMaxExtent
 from the side bearings, without overflow

---
 hmtx/hmtx.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index c3cb715..1144ac6 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -175,6 +175,13 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			lsbs[i] = ext.LLx
 		}
 	}
+	// xMaxExtent returns lsb + (xMax - xMin) for glyph i
+	xMaxExtent := func(i int, ext funit.Rect16) int {
+		if i >= len(lsbs) {
+			return int(ext.URx)
+		}
+		return int(lsbs[i]) + int(ext.URx) - int(ext.LLx)
+	}
 	first := true
 	for i, lsb := range lsbs {
 		if info.GlyphExtents != nil && info.GlyphExtents[i].IsZero() {
@@ -191,29 +198,33 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			panic("len(info.GlyphExtents) != len(info.Widths)")
 		}
 		first = true
+		minRSB := 0
 		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			rsb := info.Widths[i] - ext.URx
-			if first || rsb < hhea.MinRightSideBearing {
-				hhea.MinRightSideBearing = rsb
+			rsb := int(info.Widths[i]) - xMaxExtent(i, ext)
+			if first || rsb < minRSB {
+				minRSB = rsb
 			}
 			first = false
 		}
+		hhea.MinRightSideBearing = clampInt16(minRSB)
 	}
 
 	if info.GlyphExtents != nil {
 		first = true
-		for _, ext := range info.GlyphExtents {
+		maxExtent := 0
+		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			if first || ext.URx > hhea.XMaxExtent {
-				hhea.XMaxExtent = ext.URx
+			if x := xMaxExtent(i, ext); first || x > maxExtent {
+				maxExtent = x
 			}
 			first = false
 		}
+		hhea.XMaxExtent = clampInt16(maxExtent)
 	}
 
 	buf := bytes.NewBuffer(make([]byte, 0, hheaLength))
@@ -255,6 +266,11 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 const hheaLength = 36
 
+// clampInt16 returns the value closest to x which can be stored in the table.
+func clampInt16(x int) funit.Int16 {
+	return funit.Int16(min(max(x, math.MinInt16), math.MaxInt16))
+}
+
 func toAngle(rise, run int16) float64 {
 	// slope = rise / run (rise = 1, run = 0 for vertical)
 	// angle = 0 for vertical, angle<0 for italic
-- 
2.43.0


From f9a69b0dd5e99cfbef9e6bae2027e440a9733d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 08/98] fix: cff: include the extrema of curves in glyph
 bounding boxes

---
 cff/glyph.go    | 101 ++++++++++++++++++++++++++++++++++++++----------
 cff/outlines.go |  34 +---------------
 2 files changed, 81 insertions(+), 54 deletions(-)

diff --git a/cff/glyph.go b/cff/glyph.go
index 2b0fda4..576d66d 100644
--- a/cff/glyph.go
+++ b/cff/glyph.go
@@ -21,6 +21,9 @@ import (
 	"math"
 	"strings"
 
+	"seehuhn.de/go/geom/matrix"
+	"seehuhn.de/go/geom/rect"
+
 	"seehuhn.de/go/postscript/funit"
 )
 
@@ -79,41 +82,97 @@ func (g *Glyph) CurveTo(x1, y1, x2, y2, x3, y3 float64) {
 
 // Extent computes the Glyph extent in font design units
 func (g *Glyph) Extent() funit.Rect16 {
-	var left, right, top, bottom float64
+	bbox := g.bbox(matrix.Identity)
+	left, right, top, bottom := bbox.LLx, bbox.URx, bbox.URy, bbox.LLy
+	return funit.Rect16{
+		LLx: funit.Int16(math.Floor(left)),
+		LLy: funit.Int16(math.Floor(bottom)),
+		URx: funit.Int16(math.Ceil(right)),
+		URy: funit.Int16(math.Ceil(top)),
+	}
+}
+
+// bbox computes the bounding box of the glyph outline, after the
+// transformation M has been applied.
+func (g *Glyph) bbox(M matrix.Matrix) (bbox rect.Rect) {
 	first := true
-cmdLoop:
+	var x0, y0 float64 // the current point
 	for _, cmd := range g.Cmds {
-		var x, y float64
+		x, y := x0, y0
 		switch cmd.Op {
 		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
+			x, y = M.Apply(cmd.Args[0], cmd.Args[1])
 		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
+			x, y = M.Apply(cmd.Args[4], cmd.Args[5])
 		default:
-			continue cmdLoop
+			continue
+		}
+		xMin, xMax := min(x0, x), max(x0, x)
+		yMin, yMax := min(y0, y), max(y0, y)
+		if cmd.Op == OpMoveTo || first {
+			xMin, xMax, yMin, yMax = x, x, y, y
 		}
-		if first || x < left {
-			left = x
+		if cmd.Op == OpCurveTo {
+			x1, y1 := M.Apply(cmd.Args[0], cmd.Args[1])
+			x2, y2 := M.Apply(cmd.Args[2], cmd.Args[3])
+			xMin, xMax = curveRange(x0, x1, x2, x, xMin, xMax)
+			yMin, yMax = curveRange(y0, y1, y2, y, yMin, yMax)
 		}
-		if first || x > right {
-			right = x
+
+		if first || xMin < bbox.LLx {
+			bbox.LLx = xMin
+		}
+		if first || xMax > bbox.URx {
+			bbox.URx = xMax
 		}
-		if first || y < bottom {
-			bottom = y
+		if first || yMin < bbox.LLy {
+			bbox.LLy = yMin
 		}
-		if first || y > top {
-			top = y
+		if first || yMax > bbox.URy {
+			bbox.URy = yMax
 		}
+		x0, y0 = x, y
 		first = false
 	}
-	return funit.Rect16{
-		LLx: funit.Int16(math.Floor(left)),
-		LLy: funit.Int16(math.Floor(bottom)),
-		URx: funit.Int16(math.Ceil(right)),
-		URy: funit.Int16(math.Ceil(top)),
+	return bbox
+}
+
+// curveRange extends the range [low, high] to include all values of the
+// one-dimensional cubic Bezier curve with control values a, b, c and d.
+// The end points must already be included in the range.
+func curveRange(a, b, c, d, low, high float64) (float64, float64) {
+	if min(b, c) >= low && max(b, c) <= high {
+		return low, high
+	}
+
+	// B'(t)/3 = p*t^2 + q*t + r
+	p := d - 3*c + 3*b - a
+	q := 2 * (c - 2*b + a)
+	r := b - a
+	var roots [2]float64
+	n := 0
+	if disc := q*q - 4*p*r; disc >= 0 {
+		// avoid cancellation
+		z := -(q + math.Copysign(math.Sqrt(disc), q)) / 2
+		if p != 0 {
+			roots[n] = z / p
+			n++
+		}
+		if z != 0 {
+			roots[n] = r / z
+			n++
+		}
+	}
+	for _, t := range roots[:n] {
+		if !(t > 0 && t < 1) {
+			continue
+		}
+		s := 1 - t
+		x := s*s*s*a + 3*s*s*t*b + 3*s*t*t*c + t*t*t*d
+		low = min(low, x)
+		high = max(high, x)
 	}
+	return low, high
 }
 
 // GlyphOp is a CFF glyph drawing command.
diff --git a/cff/outlines.go b/cff/outlines.go
index 24af24e..b272370 100644
--- a/cff/outlines.go
+++ b/cff/outlines.go
@@ -138,37 +138,5 @@ func (o *Outlines) GlyphBBoxPDF(fm matrix.Matrix, gid glyph.ID) (bbox rect.Rect)
 	}
 	M = M.Mul(matrix.Scale(1000, 1000))
 
-	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-
-		x, y = M.Apply(x, y)
-
-		if first || x < bbox.LLx {
-			bbox.LLx = x
-		}
-		if first || x > bbox.URx {
-			bbox.URx = x
-		}
-		if first || y < bbox.LLy {
-			bbox.LLy = y
-		}
-		if first || y > bbox.URy {
-			bbox.URy = y
-		}
-		first = false
-	}
-
-	return bbox
+	return g.bbox(M)
 }
-- 
2.43.0


From d6a6547a4b93dff90ef8545fdfce97d6d3f6c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 09/98] fix: write the IsItalic flag of upright italic fonts

---
 write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/write.go b/write.go
index 01e0a03..73bb5d6 100644
--- a/write.go
+++ b/write.go
@@ -168,7 +168,7 @@ func (f *Font) makeHead(locaFormat int16) []byte {
 		Modified:      f.ModificationTime,
 		FontBBox:      f.FontBBox(),
 		IsBold:        f.IsBold,
-		IsItalic:      f.ItalicAngle != 0,
+		IsItalic:      f.IsItalic || f.ItalicAngle != 0,
 		LowestRecPPEM: 7, // TODO(voss)
 		LocaFormat:    locaFormat,
 	}
@@ -238,7 +238,7 @@ func (f *Font) makeOS2() []byte {
 		WidthClass:  f.Width,
 
 		IsBold:    f.IsBold,
-		IsItalic:  f.ItalicAngle != 0,
+		IsItalic:  f.IsItalic || f.ItalicAngle != 0,
 		IsRegular: f.IsRegular,
 		IsOblique: f.IsOblique,
 
-- 
2.43.0


From fc620c7b3a81ebc578e5d2ca85e206f30f2d0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 10/98] fix: WidthsPDF must agree with GlyphWidthPDF for
 CID-keyed and skewed fonts

---
 cff/font.go | 5 ++---
 font.go     | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/cff/font.go b/cff/font.go
index 3b4cf17..81c45d1 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -76,9 +76,8 @@ func (f *Font) Widths() []float64 {
 // in PDF glyph space units (1/1000th of a text space unit).
 func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
-	q := f.FontMatrix[0] * 1000
-	for gid, glyph := range f.Glyphs {
-		widths[gid] = glyph.Width * q
+	for gid := range f.Glyphs {
+		widths[gid] = f.GlyphWidthPDF(glyph.ID(gid))
 	}
 	return widths
 }
diff --git a/font.go b/font.go
index 95e0adb..57fe963 100644
--- a/font.go
+++ b/font.go
@@ -278,8 +278,8 @@ func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
 	switch outlines := f.Outlines.(type) {
 	case *cff.Outlines:
-		for gid, g := range outlines.Glyphs {
-			widths[gid] = g.Width * f.FontMatrix[0]
+		for gid := range outlines.Glyphs {
+			widths[gid] = f.GlyphWidthPDF(glyph.ID(gid)) / 1000
 		}
 		return widths
 	case *glyf.Outlines:
-- 
2.43.0


From 2fcd81af069b981491fd5a8b89ee856c5365a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 11/98] fix: Font.Widths must not panic for TrueType fonts
 without hmtx table

---
 font.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/font.go b/font.go
index 57fe963..7383b86 100644
--- a/font.go
+++ b/font.go
@@ -263,6 +263,9 @@ func (f *Font) Widths() []float64 {
 		}
 		return widths
 	case *glyf.Outlines:
+		if outlines.Widths == nil {
+			return widths
+		}
 		for i := range widths {
 			widths[i] = float64(outlines.Widths[i])
 		}
-- 
2.43.0


From b245d2b6e0ffc3286be42b94f5b8ce8f12b26571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 12/98] fix: cmap: Format0.CodeRange must return the range of
 mapped codes

---
 cmap/format0.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 7da85d9..4e8f45f 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -79,5 +79,15 @@ func (cmap *Format0) Encode(language uint16) []byte {
 
 // CodeRange returns the smallest and largest code point in the subtable.
 func (cmap *Format0) CodeRange() (low rune, high rune) {
-	return 0, 255
+	low = -1
+	for r, gid := range cmap.Data {
+		if gid == 0 {
+			continue
+		}
+		if low < 0 {
+			low = rune(r)
+		}
+		high = rune(r)
+	}
+	return max(low, 0), high
 }
-- 
2.43.0


From 601e800c719f28633a4b3a285639d23bd192b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 13/98] fix: name: read Windows names stored with the symbol
 and full Unicode encoding IDs

---
 name/name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/name/name.go b/name/name.go
index 6515f8c..c3e3345 100644
--- a/name/name.go
+++ b/name/name.go
@@ -104,7 +104,8 @@ recLoop:
 
 		// We ignore encodings we don't understand.
 		var val string
-		if platformID == 3 && encodingID == 1 { // Windows, Unicode BMP
+		if platformID == 3 && (encodingID == 0 || encodingID == 1 || encodingID == 10) {
+			// Windows, Symbol / Unicode BMP / Unicode full repertoire
 			val = utf16Decode(nameBytes)
 		} else if platformID == 1 && encodingID == 0 { // Macintosh, Roman
 			val = mac.Decode(nameBytes)
-- 
2.43.0


From 3d4e13f445ab97cbe666e10efb62dc9ee2aa7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 14/98] fix: name: make the encoded table independent of map
 iteration order

---
 name/name.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/name/name.go b/name/name.go
index c3e3345..9e4d609 100644
--- a/name/name.go
+++ b/name/name.go
@@ -20,6 +20,8 @@
 package name
 
 import (
+	"maps"
+	"slices"
 	"sort"
 	"unicode/utf16"
 
@@ -157,7 +159,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	b := newNameBuilder()
 
 	// platform ID 1 (Macintosh)
-	for languageID, tag := range appleBCP {
+	for _, languageID := range sortedKeys(appleBCP) {
+		tag := appleBCP[languageID]
 		t := info.Mac[tag]
 		if t == nil {
 			continue
@@ -180,7 +183,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	// Platform ID 3 (Windows).
 	// Encoding IDs for platform 3 'name' entries must match the encoding IDs
 	// used for platform 3 subtables in the 'cmap' table.
-	for languageID, tag := range msBCP {
+	for _, languageID := range sortedKeys(msBCP) {
+		tag := msBCP[languageID]
 		t := info.Windows[tag]
 		if t == nil {
 			continue
@@ -244,6 +248,12 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	return res
 }
 
+// sortedKeys returns the language IDs in increasing order, so that the
+// encoded table does not depend on the map iteration order.
+func sortedKeys(m map[uint16]string) []uint16 {
+	return slices.Sorted(maps.Keys(m))
+}
+
 type nameBuilder struct {
 	data []byte
 	idx  map[string]uint16
-- 
2.43.0


From 9a67cec6e1556ab782a322d528c4cb0d8565087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 15/98] fix: post: store repeated glyph names only once

---
 post/post.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/post/post.go b/post/post.go
index b042a68..2b69d04 100644
--- a/post/post.go
+++ b/post/post.go
@@ -152,6 +152,7 @@ func (info *Info) Encode() []byte {
 				stringData = append(stringData, byte(len(name)))
 				stringData = append(stringData, name...)
 				numStrings++
+				mac[name] = idx // use the same string for repeated names
 			}
 			buf.Write([]byte{byte(idx >> 8), byte(idx)})
 		}
-- 
2.43.0


From c59fe38755a115dc14a94c0b75da71d405a38aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 16/98] fix: gtab: keep script tags which are padded with
 spaces

---
 opentype/gtab/locale.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..c7ee35f 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
-- 
2.43.0


From 31c7410d840ce1b2ce0608b63ea21ab056838bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 17/98] fix: gtab: make the choice of OpenType tags for BCP 47
 tags deterministic

---
 opentype/gtab/locale.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index c7ee35f..73d9eb4 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -90,17 +90,16 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// In case there is more than one match, use the smallest tag.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
-- 
2.43.0


From 90770f2883dc1e9367f9faf9406d4dc2adfb1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 18/98] fix: cff: choose integer default and nominal widths

Fractional values were truncated when the private dict was written, which
changed the advance widths of all glyphs relying on these values.
---
 cff/write.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 8a83315..52f7f71 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -242,16 +242,17 @@ func (f *Font) selectWidths() (float64, float64) {
 	numGlyphs := int32(len(f.Glyphs))
 	if numGlyphs == 0 {
 		return 0, 0
-	} else if numGlyphs == 1 {
-		return f.Glyphs[0].Width, f.Glyphs[0].Width
 	}
 
+	// We only use integer values for the default and nominal width, so that
+	// the values can be represented exactly in the private dict.
+
 	widthHist := make(map[float64]int32)
 	var mostFrequentCount int32
 	var defaultWidth float64
 	for _, glyph := range f.Glyphs {
 		w := glyph.Width
-		if math.Abs(w) > 32767 {
+		if math.Abs(w) > 32767 || w != math.Trunc(w) {
 			continue
 		}
 		widthHist[w]++
@@ -278,11 +279,20 @@ func (f *Font) selectWidths() (float64, float64) {
 			maxWidth = w
 		}
 	}
+	if minWidth > maxWidth { // all glyphs use the default width
+		return defaultWidth, defaultWidth
+	}
 	nominalWidth := math.Round(sum / float64(numGlyphs))
 	if nominalWidth < minWidth+107 {
-		nominalWidth = minWidth + 107
+		nominalWidth = math.Round(minWidth + 107)
 	} else if nominalWidth > maxWidth-107 {
-		nominalWidth = maxWidth - 107
+		nominalWidth = math.Round(maxWidth - 107)
+	}
+	// make sure that the differences fit into a charstring number
+	if nominalWidth < maxWidth-32767 {
+		nominalWidth = math.Ceil(maxWidth - 32767)
+	} else if nominalWidth > minWidth+32767 {
+		nominalWidth = math.Floor(minWidth + 32767)
 	}
 	return defaultWidth, nominalWidth
 }
-- 
2.43.0


From 151405f921bfe5284ddd46734e1a1b61f41c5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 19/98] fix: cff: keep fractional underline position and
 thickness

---
 cff/dict.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..d24337b 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -505,10 +505,10 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 		topDict[opItalicAngle] = []interface{}{info.ItalicAngle}
 	}
 	if info.UnderlinePosition != defaultUnderlinePosition {
-		topDict[opUnderlinePosition] = []interface{}{int32(info.UnderlinePosition)}
+		topDict[opUnderlinePosition] = []interface{}{dictNumber(float64(info.UnderlinePosition))}
 	}
 	if info.UnderlineThickness != defaultUnderlineThickness {
-		topDict[opUnderlineThickness] = []interface{}{int32(info.UnderlineThickness)}
+		topDict[opUnderlineThickness] = []interface{}{dictNumber(float64(info.UnderlineThickness))}
 	}
 	// if info.IsOutlined {
 	// 	topDict[opPaintType] = []interface{}{int32(2)} // per font
@@ -517,6 +517,14 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 	return topDict
 }
 
+// dictNumber converts x to a DICT operand, using an integer where possible.
+func dictNumber(x float64) interface{} {
+	if i := int32(x); float64(i) == x {
+		return i
+	}
+	return x
+}
+
 type privateInfo struct {
 	private      *type1.PrivateDict
 	subrs        cffIndex
-- 
2.43.0


From 166225bc485a9c5b40cb51733e142c2b6617cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 20/98] fix: cff: only omit FontMatrix and BlueScale if they
 equal the default

The tolerances used before were large enough to lose meaningful
differences, e.g. the font matrix for 1005 units per em.
---
 cff/dict.go | 2 +-
 cff/font.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index d24337b..fea965a 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -443,7 +443,7 @@ func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
 		} else {
 			def = defaultFontMatrix[i]
 		}
-		if math.Abs(xi-def) > 1e-5 {
+		if xi != def {
 			needed = true
 			break
 		}
diff --git a/cff/font.go b/cff/font.go
index 81c45d1..fcd53df 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -129,7 +129,7 @@ func (f *Font) makePrivateDict(idx int, defaultWidth, nominalWidth float64) cffD
 
 	privateDict.setDeltaF16(opBlueValues, private.BlueValues)
 	privateDict.setDeltaF16(opOtherBlues, private.OtherBlues)
-	if math.Abs(private.BlueScale-defaultBlueScale) > 1e-6 {
+	if private.BlueScale != defaultBlueScale {
 		privateDict[opBlueScale] = []interface{}{private.BlueScale}
 	}
 	if private.BlueShift != defaultBlueShift {
-- 
2.43.0


From 05cf13f49d5db2c42f365e9384b848c2deb60fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 21/98] fix: cff: accept integer operands in FontMatrix

---
 cff/dict.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index fea965a..b875391 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -407,14 +407,17 @@ func (d cffDict) getFontMatrix(op dictOp, isCIDKeyed bool) (res matrix.Matrix) {
 	}
 
 	for i, x := range xx {
-		xi, ok := x.(float64)
-		if !ok {
+		switch x := x.(type) {
+		case int32:
+			res[i] = float64(x)
+		case float64:
+			res[i] = x
+		default:
 			if isCIDKeyed {
 				return matrix.Identity
 			}
 			return defaultFontMatrix
 		}
-		res[i] = xi
 	}
 
 	return res
-- 
2.43.0


From 5840bbb0bde70560f81375517bc5714f965284b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:39 +0000
Subject: [PATCH 22/98] fix: cff: avoid overflow in delta-encoded arrays

---
 cff/dict.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index b875391..5c3acf3 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -429,10 +429,10 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 		return
 	}
 	res := make([]interface{}, len(val))
-	var prev funit.Int16
+	var prev int32
 	for i, x := range val {
-		res[i] = int32(x - prev)
-		prev = x
+		res[i] = int32(x) - prev
+		prev = int32(x)
 	}
 	d[op] = res
 }
-- 
2.43.0


From 71df2f6c5480d85185dfda7de1aa04d52b85357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 23/98] fix: cff: support the full range of real numbers in
 DICTs

---
 cff/dict.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 5c3acf3..88eea7d 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"sort"
 	"strconv"
+	"strings"
 
 	"seehuhn.de/go/geom/matrix"
 	"seehuhn.de/go/postscript/funit"
@@ -225,14 +226,6 @@ func decodeFloat(buf []byte) ([]byte, float64, error) {
 			s = append(s, '-')
 		case 0xf:
 			x, err := strconv.ParseFloat(string(s), 64)
-			switch {
-			case x > 1e300:
-				x = 1e300
-			case x > -1e-300 && x < 1e-300:
-				x = 0
-			case x < -1e300:
-				x = -1e300
-			}
 			return buf, x, err
 		default:
 			s = append(s, '0'+nibble)
@@ -253,15 +246,16 @@ func encodeFloat(x float64) []byte {
 
 	const numDigits = 9
 
-	l := int(math.Floor(math.Log10(x))) + 1
-	i := int(math.Round(x / math.Pow10(l-numDigits)))
-	if i < 100_000_000 {
-		l--
-		i *= 10
-	} else if i > 999_999_999 {
-		l++
-		i /= 10
+	// Use the shortest representation, but at most numDigits digits.
+	// The result has the form d.ddde±dd.
+	s := strconv.FormatFloat(x, 'e', -1, 64)
+	if strings.IndexByte(s, 'e') > numDigits+1 {
+		s = strconv.FormatFloat(x, 'e', numDigits-1, 64)
 	}
+	mantissa, exponent, _ := strings.Cut(s, "e")
+	i, _ := strconv.Atoi(strings.Replace(mantissa, ".", "", 1))
+	l, _ := strconv.Atoi(exponent)
+	l++
 	// now i contains all the digits
 
 	// remove trailing zeros
-- 
2.43.0


From 21fc49300bccf5d49e59b385712ad648810b33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 24/98] fix: cff: refuse to write charset entries which do not
 fit into 16 bits

---
 cff/charset.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cff/charset.go b/cff/charset.go
index f7c72fd..0ef4beb 100644
--- a/cff/charset.go
+++ b/cff/charset.go
@@ -97,6 +97,11 @@ func encodeCharset(names []int32) ([]byte, error) {
 		return nil, errors.New("invalid charset (missing .notdef)")
 	}
 	names = names[1:]
+	for _, name := range names {
+		if name < 0 || name > 0xFFFF {
+			return nil, fmt.Errorf("invalid charset entry: %d", name)
+		}
+	}
 
 	// find runs of consecutive glyph names
 	runs := []int{0}
-- 
2.43.0


From 761684c9ef312d8e0225cfb39ab1cc84297267f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 25/98] fix: cff: do not accumulate rounding errors in stem
 hints

---
 cff/t2encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index e803fd9..c16ea98 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -72,8 +72,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			stems = stems[2*k:]
 			prev := 0.0
 			for _, x := range chunk {
-				header = append(header, encodeNumber(x-prev).Code)
-				prev = x
+				dx := encodeNumber(x - prev)
+				header = append(header, dx.Code)
+				prev += dx.Val
 			}
 
 			canOmitVStem := (i == 1 &&
-- 
2.43.0


From f7be211e75d2781ddb77062c5c5a3d7bafc7a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 26/98] fix: cff: refuse to write numbers outside the range of
 Type 2 charstrings

Before, such numbers were silently replaced with unrelated values.
---
 cff/t2encode.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index c16ea98..26248e0 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -33,6 +33,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	w := g.Width
 	if w != defaultWidth {
 		x := encodeNumber(w - nominalWidth)
+		if !x.isValid() {
+			return nil, errNumberRange
+		}
 		header = append(header, x.Code)
 	}
 
@@ -73,6 +76,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			prev := 0.0
 			for _, x := range chunk {
 				dx := encodeNumber(x - prev)
+				if !dx.isValid() {
+					return nil, errNumberRange
+				}
 				header = append(header, dx.Code)
 				prev += dx.Val
 			}
@@ -88,7 +94,10 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 		}
 	}
 
-	data := encodePaths(g.Cmds)
+	data, err := encodePaths(g.Cmds)
+	if err != nil {
+		return nil, err
+	}
 
 	k := 0
 	for _, b := range header {
@@ -108,10 +117,17 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	return code, nil
 }
 
-func encodePaths(commands []GlyphOp) [][]byte {
+func encodePaths(commands []GlyphOp) ([][]byte, error) {
 	var res [][]byte
 
 	cmds := encodeArgs(commands)
+	for _, cmd := range cmds {
+		for _, arg := range cmd.Args {
+			if !arg.isValid() {
+				return nil, errNumberRange
+			}
+		}
+	}
 
 	for len(cmds) > 0 {
 		switch cmds[0].Op {
@@ -149,7 +165,7 @@ func encodePaths(commands []GlyphOp) [][]byte {
 	}
 	res = append(res, t2endchar.Bytes())
 
-	return res
+	return res, nil
 }
 
 func encodeArgs(cmds []GlyphOp) []enCmd {
@@ -484,8 +500,22 @@ func (x encodedNumber) String() string {
 	return fmt.Sprintf("%g (% x)", x.Val, x.Code)
 }
 
-// encodeNumber encodes the given number into a CFF encoding.
+// isValid returns false if the number could not be represented in a
+// Type2 charstring.
+func (x encodedNumber) isValid() bool {
+	return x.Code != nil
+}
+
+var errNumberRange = errors.New("cff: number too large for Type 2 charstring")
+
+// encodeNumber encodes the given number into a CFF encoding.  If the number is
+// outside the range of numbers allowed in Type2 charstrings, the Code field of
+// the result is nil.
 func encodeNumber(x float64) encodedNumber {
+	if y := math.Round(x * 65536); !(y >= math.MinInt32 && y <= math.MaxInt32) {
+		return encodedNumber{Val: x}
+	}
+
 	var code []byte
 
 	// TODO(voss): consider using t2dup here.
-- 
2.43.0


From d9c97aff3617a0488133931d9b65c8ab08537c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 27/98] fix: cff: do not clamp charstring operands to +-32000

---
 cff/t2decode.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..409aa57 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -645,14 +645,15 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 	return nil, errIncomplete
 }
 
-// Fix a float64 to a 16.16 fixed point number in the range [-32000, 32000].
+// Fix a float64 to a 16.16 fixed point number in the range [-32768, 32768).
 func fix(x float64) float64 {
-	if x > 32000 {
-		return 32000
-	} else if x < -32000 {
-		return -32000
+	y := math.Round(x * 65536)
+	if y > math.MaxInt32 {
+		y = math.MaxInt32
+	} else if y < math.MinInt32 {
+		y = math.MinInt32
 	}
-	return math.Round(x*65536) / 65536
+	return y / 65536
 }
 
 func getSubr(subrs cffIndex, biased int) ([]byte, error) {
-- 
2.43.0


From 211a36b728020900bc479ce4d3dad3ba13d703c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 28/98] fix: cff: correct the Type 2 mul operator

---
 cff/t2decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 409aa57..49a5f28 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -465,7 +465,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] = float64(int64(stack[k]) * int64(stack[k+1]) >> 16)
+				stack[k] = fix(stack[k] * stack[k+1])
 				stack = stack[:k+1]
 			case t2sqrt:
 				k := len(stack) - 1
-- 
2.43.0


From 1e3386f9db4805ed3181103cc852445e91458b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:52 +0000
Subject: [PATCH 29/98] fix: cff: flex1 returns to the starting x or y position

---
 cff/t2decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 49a5f28..e91b55f 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -300,11 +300,11 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					if math.Abs(dx) > math.Abs(dy) {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							extra, 0)
+							extra, -dy)
 					} else {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							0, extra)
+							-dx, extra)
 					}
 					// fd = 0.5
 				}
-- 
2.43.0


From 24fc07692ee0746243a923c80157275b2f89a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 30/98] fix: cff: allow roll with a count of zero

---
 cff/t2decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index e91b55f..84e2c97 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -509,10 +509,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				n := int(stack[k])
 				j := int(stack[k+1])
-				if n <= 0 || n > k {
+				if n < 0 || n > k {
 					return nil, errors.New("invalid roll count")
 				}
-				roll(stack[k-n:k], j)
+				if n > 0 {
+					roll(stack[k-n:k], j)
+				}
 				stack = stack[:k]
 			case t2dup:
 				k := len(stack) - 1
-- 
2.43.0


From 5a50ddf0686b71bc076d71b643c8188829c3e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 31/98] fix: cff: report missing operands in Type 2 charstrings

Path operators with too few operands were silently ignored.
---
 cff/t2decode.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 84e2c97..48e7b28 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -172,6 +172,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack) > 2)
 				if len(stack) >= 2 {
 					rMoveTo(stack[0], stack[1])
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 
@@ -179,6 +181,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack) > 1)
 				if len(stack) >= 1 {
 					rMoveTo(stack[0], 0)
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 
@@ -186,10 +190,15 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack) > 1)
 				if len(stack) >= 1 {
 					rMoveTo(0, stack[0])
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 
 			case t2rlineto:
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
+				}
 				pos := 0
 				for pos+1 < len(stack) {
 					rLineTo(stack[pos], stack[pos+1])
@@ -198,6 +207,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hlineto, t2vlineto:
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
+				}
 				horizontal := op == t2hlineto
 				for _, z := range stack {
 					if horizontal {
@@ -210,6 +222,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2rrcurveto, t2rcurveline, t2rlinecurve:
+				if len(stack) < 6 || op != t2rrcurveto && len(stack) < 8 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				for op == t2rlinecurve && len(tmp) >= 8 {
 					rLineTo(tmp[0], tmp[1])
@@ -227,6 +242,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dy1 float64
 				if len(tmp)%4 != 0 {
@@ -242,6 +260,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2vvcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dx1 float64
 				if len(tmp)%4 != 0 {
@@ -257,6 +278,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hvcurveto, t2vhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				horizontal := op == t2hvcurveto
 				for len(tmp) >= 4 {
@@ -287,6 +311,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 						stack[8], stack[9],
 						stack[10], stack[11])
 					// fd = stack[12] / 100
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 			case t2flex1:
@@ -307,6 +333,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 							-dx, extra)
 					}
 					// fd = 0.5
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 			case t2hflex:
@@ -318,6 +346,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 						stack[5], -stack[2],
 						stack[6], 0)
 					// fd = 0.5
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 			case t2hflex1:
@@ -330,6 +360,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 						stack[6], stack[7],
 						stack[8], -dy)
 					// fd = 0.5
+				} else {
+					return nil, errStackUnderflow
 				}
 				clearStack()
 
-- 
2.43.0


From 7e14ff7b4697cee29af65ab1038bad021468d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 32/98] fix: cff: do not change italic angles which are already
 in range

---
 cff/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 53da4bf..4bffd78 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -328,6 +328,9 @@ func fdSelectSimple(git glyph.ID) int {
 }
 
 func normaliseAngle(x float64) float64 {
+	if x >= -180 && x < 180 {
+		return x
+	}
 	y := math.Mod(x+180, 360)
 	if y < 0 {
 		y += 360
-- 
2.43.0


From 25e19e295118793c044491bb2f2e95a8d41ea4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 33/98] fix: header: count only the tables which are written,
 refuse empty files, allow short head tables

---
 header/tables.go |  7 +++++--
 header/write.go  | 23 +++++++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..d9f903d 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -40,6 +40,10 @@ const (
 	ScalerTypeApple uint32 = 0x74727565 // "true"
 )
 
+// maxTables is the maximal number of tables in a font file.
+// The largest value observed amongst the fonts on my laptop is 28.
+const maxTables = 280
+
 // Info contains information about the tables present in an sfnt font file.
 type Info struct {
 	ScalerType uint32
@@ -72,8 +76,7 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Feature:   fmt.Sprintf("scaler type 0x%08x", scalerType),
 		}
 	}
-	if numTables > 280 {
-		// the largest value observed amongst the fonts on my laptop is 28
+	if numTables > maxTables {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/header",
 			Reason:    "too many tables",
diff --git a/header/write.go b/header/write.go
index e46b5e3..8ab9dd4 100644
--- a/header/write.go
+++ b/header/write.go
@@ -22,6 +22,8 @@ import (
 	"io"
 	"math/bits"
 	"sort"
+
+	"seehuhn.de/go/sfnt/parser"
 )
 
 // Write writes an sfnt file containing the given tables.
@@ -37,6 +39,12 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 			tableNames = append(tableNames, name)
 		}
 	}
+	numTables = len(tableNames)
+	if numTables == 0 {
+		return 0, errNoTables
+	} else if numTables > maxTables {
+		return 0, errTooManyTables
+	}
 
 	// sort the table names in the recommended order
 	sort.Slice(tableNames, func(i, j int) bool {
@@ -59,7 +67,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	}
 
 	// temporarily clear the checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if headData, ok := tables["head"]; ok && len(headData) >= 12 {
 		clearChecksum(headData)
 	}
 
@@ -90,7 +98,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	totalSum += checksum(headerBytes)
 
 	// set the final checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if headData, ok := tables["head"]; ok && len(headData) >= 12 {
 		patchChecksum(headData, totalSum)
 	}
 
@@ -120,6 +128,17 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	return totalSize, nil
 }
 
+var (
+	errNoTables = &parser.InvalidFontError{
+		SubSystem: "sfnt/header",
+		Reason:    "no tables",
+	}
+	errTooManyTables = &parser.InvalidFontError{
+		SubSystem: "sfnt/header",
+		Reason:    "too many tables",
+	}
+)
+
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
 	binary.BigEndian.PutUint32(head[8:12], 0)
-- 
2.43.0


From d669196188c4e58f4d145babccf87283d55ac5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 34/98] fix: header, cff: report short writes

---
 cff/write.go    | 5 ++++-
 header/write.go | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cff/write.go b/cff/write.go
index 52f7f71..ef9ba35 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -229,7 +229,10 @@ func (f *Font) Write(w io.Writer) error {
 	}
 
 	for i := 0; i < numSections; i++ {
-		_, err = w.Write(blobs[i])
+		n, err := w.Write(blobs[i])
+		if err == nil && n < len(blobs[i]) {
+			err = io.ErrShortWrite
+		}
 		if err != nil {
 			return err
 		}
diff --git a/header/write.go b/header/write.go
index 8ab9dd4..71ce0d9 100644
--- a/header/write.go
+++ b/header/write.go
@@ -106,6 +106,9 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	var totalSize int64
 	n, err := w.Write(headerBytes)
 	totalSize += int64(n)
+	if err == nil && n < len(headerBytes) {
+		err = io.ErrShortWrite
+	}
 	if err != nil {
 		return totalSize, err
 	}
@@ -114,12 +117,18 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 		body := tables[name]
 		n, err := w.Write(body)
 		totalSize += int64(n)
+		if err == nil && n < len(body) {
+			err = io.ErrShortWrite
+		}
 		if err != nil {
 			return totalSize, err
 		}
 		if k := n % 4; k != 0 {
 			l, err := w.Write(pad[:4-k])
 			totalSize += int64(l)
+			if err == nil && l < 4-k {
+				err = io.ErrShortWrite
+			}
 			if err != nil {
 				return totalSize, err
 			}
-- 
2.43.0


From 5d28dadfa4927b20a8ad083cc69b46ebaa7de082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 35/98] fix: gtab: do not mix up matched and skipped glyphs
 when a ligature does not match

---
 opentype/gtab/gsub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..68e8c52 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -585,7 +585,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From e094948351742f41863356508a91e2ffe5abb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:00 +0000
Subject: [PATCH 36/98] fix: gtab: use the correct sequence positions in
 ChainedSeqContext3

---
 opentype/gtab/nested.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..6e3127f 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1424,7 +1424,7 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 	}
 
 	p = a
-	matchPos := append(ctx.scratch[:0], p)
+	matchPos := ctx.scratch[:0]
 	glyphsNeeded = len(l.Input)
 	for _, cov := range l.Input {
 		if p+glyphsNeeded-1 >= b || !cov[seq[p].GID] {
-- 
2.43.0


From 7820ab0a595fb7b89543e3c1ddaae9fbe1ff37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 37/98] fix: gtab: skip ignored glyphs before the lookahead of
 nested ChainedSeqContext3 lookups

---
 opentype/gtab/nested.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 6e3127f..d708c9f 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1441,6 +1441,9 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 	next := p
 
 	glyphsNeeded = len(l.Lookahead)
+	for p < len(seq) && !keep.Keep(seq[p].GID) {
+		p++ // nested lookups: b can be before the end of the sequence
+	}
 	for _, cov := range l.Lookahead {
 		if p+glyphsNeeded-1 >= len(seq) || !cov[seq[p].GID] {
 			ctx.scratch = matchPos // return the scratch space
-- 
2.43.0


From 04b0287c325d579902603f8f1401ca15b1c91453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 38/98] fix: gtab: update the end of a context when a ligature
 removes trailing ignored glyphs

---
 opentype/gtab/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..ec6c6e5 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -258,6 +258,6 @@ func (ctx *Context) fixStackMerge(pos []int) {
 		}
 
 		action.InputPos = in
-		action.EndPos -= delta
+		action.EndPos -= len(pos) - 1
 	}
 }
-- 
2.43.0


From 5ef20a2bb1d09d15d59722a3a91545a05b2956a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 39/98] fix: gtab: ignore actions with invalid sequence index,
 drop unfinished actions after the limit

---
 opentype/gtab/layout.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index ec6c6e5..dd08e16 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -121,12 +121,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
@@ -146,6 +146,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 		}
 	}
 
+	// If there are too many nested actions, the remaining ones are ignored.
+	if len(ctx.stack) > 0 {
+		next = ctx.stack[0].EndPos
+		ctx.stack = ctx.stack[:0]
+	}
+
 	return next
 }
 
-- 
2.43.0


From c1ddcaa965b878edec029bc3914c7225871e6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 40/98] fix: gtab: apply GSUB type 8 lookups in reverse order

---
 opentype/gtab/layout.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index dd08e16..1510838 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -74,8 +74,14 @@ func (ctx *Context) Apply(seq []glyph.Info) []glyph.Info {
 		ctx.lookup = ctx.ll[lookupIndex]
 		ctx.keep = newKeepFunc(ctx.ll[lookupIndex].Meta, ctx.gdef)
 
+		if ctx.lookup.isReverse() {
+			for pos := len(ctx.seq) - 1; pos >= 0; pos-- {
+				ctx.applyAtRecursively(pos)
+			}
+			continue
+		}
+
 		pos := 0
-		// TODO(voss): GSUB 8.1 subtables are applied in reverse order.
 		for pos < len(ctx.seq) {
 			oldTodo := len(ctx.seq) - pos
 			pos = ctx.applyAtRecursively(pos)
@@ -93,6 +99,17 @@ func (ctx *Context) Apply(seq []glyph.Info) []glyph.Info {
 	return seq
 }
 
+// isReverse returns true for GSUB type 8 lookups, which process the glyph
+// sequence from the end to the beginning.
+func (l *LookupTable) isReverse() bool {
+	for _, subtable := range l.Subtables {
+		if _, ok := subtable.(*Gsub8_1); ok {
+			return true
+		}
+	}
+	return false
+}
+
 // applyAtRecursively applies a single lookup to the given glyphs at position
 // pos.  It returns the new glyph sequence and position for the next lookup.
 func (ctx *Context) applyAtRecursively(pos int) int {
-- 
2.43.0


From d4388666276209eb3728146223d56b9b380a015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:23 +0000
Subject: [PATCH 41/98] fix: gtab: attach marks to the preceding glyph only,
 and follow the position of this glyph

---
 opentype/gtab/gpos4.go | 6 ++++++
 opentype/gtab/gpos6.go | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..dc8674c 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -140,6 +140,10 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 		if ok {
 			break
 		}
+		if gd := ctx.gdef; gd != nil && gd.GlyphClass != nil && !gd.IsMark(seq[p].GID) {
+			// The mark follows a base glyph which is not covered.
+			return -1
+		}
 		p--
 	}
 	if p < 0 {
@@ -153,6 +157,8 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 
 	dx := baseRecord.X - markRecord.X
 	dy := baseRecord.Y - markRecord.Y
+	dx += seq[p].XOffset
+	dy += seq[p].YOffset
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..7e50a6f 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -134,11 +134,16 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	p := a - 1
 	var mark2Idx int
 	for p >= 0 {
+		if !ctx.keep.Keep(seq[p].GID) {
+			p--
+			continue
+		}
 		mark2Idx, ok = l.Mark2Cov[seq[p].GID]
 		if ok {
 			break
 		}
-		p--
+		// The preceding glyph cannot be used.
+		return -1
 	}
 	if p < 0 {
 		return -1
@@ -151,6 +156,8 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 
 	dx := mark2Record.X - mark1Record.X
 	dy := mark2Record.Y - mark1Record.Y
+	dx += seq[p].XOffset
+	dy += seq[p].YOffset
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-- 
2.43.0


From b87b0958f62cdcbb4968b3bb6caae15805b85b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 42/98] fix: gtab: do not match ignored glyphs in
 ChainedSeqContext3

---
 opentype/gtab/nested.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index d708c9f..8bc136b 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1434,7 +1434,7 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 		matchPos = append(matchPos, p)
 		glyphsNeeded--
 		p++
-		for p+glyphsNeeded < b && !keep.Keep(seq[p].GID) {
+		for p < b && !keep.Keep(seq[p].GID) {
 			p++
 		}
 	}
@@ -1451,7 +1451,7 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 		}
 		glyphsNeeded--
 		p++
-		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
+		for p < len(seq) && !keep.Keep(seq[p].GID) {
 			p++
 		}
 	}
-- 
2.43.0


From b0eac69d72188665174487b59dc12f280af421d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 43/98] fix: gtab: no panic for classes, mark filtering sets
 and replacements which do not exist

---
 opentype/gtab/filter.go | 2 +-
 opentype/gtab/gpos4.go  | 3 +++
 opentype/gtab/gpos6.go  | 3 +++
 opentype/gtab/gsub.go   | 3 +++
 opentype/gtab/nested.go | 3 +++
 5 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..841ad30 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -86,7 +86,7 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
 			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			if int(set) >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index dc8674c..fc9c61b 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -149,6 +149,9 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
+	if int(markRecord.Class) >= len(l.BaseArray[baseIdx]) {
+		return -1
+	}
 	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 7e50a6f..7a35222 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -148,6 +148,9 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
+	if int(mark1Record.Class) >= len(l.Mark2Array[mark2Idx]) {
+		return -1
+	}
 	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 68e8c52..683b586 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -267,6 +267,9 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
+	if len(repl) == 0 {
+		return -1
+	}
 	seq[a].GID = repl[0]
 	k := len(repl)
 	if k > 1 {
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8bc136b..c94ba23 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -392,6 +392,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
-- 
2.43.0


From d743d1c9227c685d12bcf5b2bfeb6f8ba002a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:44 +0000
Subject: [PATCH 44/98] fix: gtab: read and write mark-to-ligature attachment
 subtables (GPOS 5.1)

---
 opentype/gtab/gpos5.go | 154 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 144 insertions(+), 10 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..69cec99 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -90,6 +90,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 
 	ligArray := make([][][]anchor.Table, ligCount)
+	total := 2 + 2*len(offsets)
 	for i := range ligArray {
 		ligAttachPos := ligArrayPos + int64(offsets[i])
 		err = p.SeekPos(ligAttachPos)
@@ -101,20 +102,41 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
+		// Offsets are 16-bit from ligArrayPos.
+		numOffsets := int(componentCount) * markClassCount
+		if total > 0xFFFF || numOffsets > (65536-2)/2 {
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    "GPOS5.1 table too large",
+			}
+		}
+		total += 2 + 2*numOffsets
+
+		anchorOffsets := make([]uint16, numOffsets)
+		for j := range anchorOffsets {
+			anchorOffsets[j], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
 
-		for j := 0; j < int(componentCount); j++ {
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				if anchorOffsets[k] == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(anchorOffsets[k]))
 				if err != nil {
 					return nil, err
 				}
+				if !row[k].IsEmpty() {
+					total += 6
+				}
 			}
-			ligAttach[i] = row
+			anchorOffsets = anchorOffsets[markClassCount:]
+			ligAttach[j] = row
 		}
 
 		ligArray[i] = ligAttach
@@ -134,12 +156,124 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, ligAttach := range l.LigArray {
+		for _, row := range ligAttach {
+			return len(row)
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		if rec.Class > maxClass {
+			maxClass = rec.Class
+		}
+	}
+	return int(maxClass) + 1
+}
+
+// ligAttachLen returns the size of a LigatureAttach table.
+func ligAttachLen(ligAttach [][]anchor.Table) int {
+	total := 2
+	for _, row := range ligAttach {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+	total += 2 + 2*len(l.LigArray)
+	for _, ligAttach := range l.LigArray {
+		total += ligAttachLen(ligAttach)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := len(l.MarkArray)
+	markClassCount := l.countMarkClasses()
+	ligCount := len(l.LigArray)
+
+	markCoverageOffset := 12
+	ligCoverageOffset := markCoverageOffset + l.MarkCov.EncodeLen()
+	markArrayOffset := ligCoverageOffset + l.LigCov.EncodeLen()
+	ligArrayOffset := markArrayOffset + 2 + (4+6)*markCount
+	res := make([]byte, 0, l.encodeLen())
+
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res,
+		byte(markCount>>8), byte(markCount),
+	)
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(offs>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res,
+		byte(ligCount>>8), byte(ligCount),
+	)
+	offs = 2 + 2*ligCount
+	for _, ligAttach := range l.LigArray {
+		res = append(res,
+			byte(offs>>8), byte(offs),
+		)
+		offs += ligAttachLen(ligAttach)
+	}
+	for _, ligAttach := range l.LigArray {
+		componentCount := len(ligAttach)
+		res = append(res,
+			byte(componentCount>>8), byte(componentCount),
+		)
+		offs := 2 + 2*componentCount*markClassCount
+		for _, row := range ligAttach {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				res = append(res,
+					byte(offs>>8), byte(offs),
+				)
+				offs += 6
+			}
+		}
+		for _, row := range ligAttach {
+			for _, rec := range row {
+				if !rec.IsEmpty() {
+					res = rec.Append(res)
+				}
+			}
+		}
+	}
+
+	return res
 }
-- 
2.43.0


From bb3b7ed2316314164134d5bdccaa70a99c6ec443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 45/98] fix: Layouter: do not panic for glyphs which do not
 exist

---
 layout.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layout.go b/layout.go
index 76483cc..e4277ac 100644
--- a/layout.go
+++ b/layout.go
@@ -85,8 +85,13 @@ func (l *Layouter) Layout(s string) []glyph.Info {
 	}
 
 	font := l.font
+	numGlyphs := font.NumGlyphs()
 	for i := range seq {
 		gid := seq[i].GID
+		if int(gid) >= numGlyphs {
+			// invalid cmap or GSUB table
+			continue
+		}
 		if !font.Gdef.IsMark(gid) {
 			seq[i].Advance = funit.Int16(font.GlyphWidth(gid)) // TODO(voss)
 		}
-- 
2.43.0


From 9de5d1e21cc35e026c487c032efe9a15537a068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 46/98] fix: gtab: FindLookups does not depend on the order of
 map iterations

---
 opentype/gtab/lookup.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..8b4320f 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -569,6 +569,27 @@ func (l *extensionSubtable) encode() []byte {
 	}
 }
 
+// defaultRank determines which language systems are used when there is no
+// entry for the requested language.  Smaller values are preferred.
+func defaultRank(tag language.Tag) int {
+	script, lang, err := bcp47ToOtf(tag)
+	rank := 0
+	switch {
+	case err != nil:
+		rank = 6
+	case script == "DFLT":
+		rank = 0
+	case script == "latn":
+		rank = 2
+	default:
+		rank = 4
+	}
+	if lang != "" {
+		rank++
+	}
+	return rank
+}
+
 // FindLookups returns the lookups required to implement the given
 // features in the specified language.
 func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool) []LookupIndex {
@@ -580,6 +601,15 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
+	// The result of the matcher depends on the order of the tags, and the
+	// first tag is used as the default.
+	sort.Slice(tags, func(i, j int) bool {
+		ri, rj := defaultRank(tags[i]), defaultRank(tags[j])
+		if ri != rj {
+			return ri < rj
+		}
+		return tags[i].String() < tags[j].String()
+	})
 	// TODO(voss): make sure a sensible default comes first.
 	//     Maybe this could be based on the number of features supported?
 
-- 
2.43.0


From ec1543600ce57cabcad72ed221c2d0511422ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:51 +0000
Subject: [PATCH 47/98] fix: Subset: keep the character map

---
 subset.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 13b21d7..2d7d62d 100644
--- a/subset.go
+++ b/subset.go
@@ -50,7 +50,10 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
 		for key := range f.CMapTable {
-			c, err := res.CMapTable.Get(key)
+			// Use the codes from the subtable directly, without converting
+			// these to unicode first.
+			rawKey := cmap.Key{PlatformID: 0}
+			c, err := cmap.Table{rawKey: f.CMapTable[key]}.Get(rawKey)
 			if err != nil {
 				continue
 			}
@@ -98,7 +101,26 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 		return nil
 	}
 
+	needsFormat4 := false
 	switch c := c.(type) {
+	case *cmap.Format0:
+		res := &cmap.Format0{}
+		res4 := cmap.Format4{}
+		for code, oldGid := range c.Data {
+			newGid, ok := s.newGid[glyph.ID(oldGid)]
+			if !ok {
+				continue
+			}
+			res.Data[code] = byte(newGid)
+			res4[uint16(code)] = newGid
+			if newGid > 255 {
+				needsFormat4 = true
+			}
+		}
+		if needsFormat4 {
+			return res4
+		}
+		return res
 	case cmap.Format4:
 		res := cmap.Format4{}
 		for key, oldGid := range c {
-- 
2.43.0


From 5b4392972c474d4665cb4c34dea56a13933f12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 48/98] fix: Subset: components of composite glyphs get their
 own glyph index

---
 subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 2d7d62d..05f7726 100644
--- a/subset.go
+++ b/subset.go
@@ -494,7 +494,7 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 			}
 			componendGidNew := glyph.ID(len(s.glyphs))
 			s.glyphs = append(s.glyphs, componentGidOld)
-			s.newGid[oldGid] = componendGidNew
+			s.newGid[componentGidOld] = componendGidNew
 			todo[componentGidOld] = true
 		}
 	}
-- 
2.43.0


From 573293a677ea7d1fc8109d0bb02094dba004ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:55 +0000
Subject: [PATCH 49/98] fix: Subset: keep ligatures, lookup indices and the
 order of coverage tables

---
 subset.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/subset.go b/subset.go
index 05f7726..0053e07 100644
--- a/subset.go
+++ b/subset.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/postscript/cid"
@@ -96,6 +97,19 @@ func (s *subsetter) getNewGid(oldGid glyph.ID) glyph.ID {
 	return newGid
 }
 
+// retained returns the new glyph IDs for all the given glyphs which are part
+// of the subset, in increasing order.
+func (s *subsetter) retained(oldGids []glyph.ID) []glyph.ID {
+	var res []glyph.ID
+	for _, oldGid := range oldGids {
+		if newGid, ok := s.newGid[oldGid]; ok {
+			res = append(res, newGid)
+		}
+	}
+	slices.Sort(res)
+	return res
+}
+
 func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	if c == nil {
 		return nil
@@ -163,7 +177,7 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		for _, sOld := range tOld.Subtables {
 			switch sOld := sOld.(type) {
 			case *gtab.Gsub1_1:
-				for gid := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{gid + sOld.Delta},
@@ -191,7 +205,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 					})
 				}
 			case *gtab.Gsub4_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					for _, lig := range sOld.Repl[idx] {
 						in := make([]glyph.ID, 0, len(lig.In)+1)
 						in = append(in, gid)
@@ -282,12 +297,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := &gtab.Gsub1_2{
 					Cov: make(map[glyph.ID]int),
 				}
-				for oldOrig := range sOld.Cov {
-					newFrom, ok := s.newGid[oldOrig]
-					if !ok {
-						continue
-					}
-
+				for _, newFrom := range s.retained(sOld.Cov.Glyphs()) {
+					oldOrig := s.glyphs[newFrom]
 					newTo := oldOrig + sOld.Delta
 					sNew.Cov[newFrom] = len(sNew.SubstituteGlyphIDs)
 					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, s.getNewGid(newTo))
@@ -305,11 +316,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := gtab.Gsub4_1{
 					Cov: make(coverage.Table),
 				}
-				for oldFirst, idx := range sOld.Cov {
-					newFirst, ok := s.newGid[oldFirst]
-					if !ok {
-						continue
-					}
+				for _, newFirst := range s.retained(sOld.Cov.Glyphs()) {
+					idx := sOld.Cov[s.glyphs[newFirst]]
 					var ligs []gtab.Ligature
 				ligLoop:
 					for _, lig := range sOld.Repl[idx] {
@@ -332,6 +340,9 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 						sNew.Repl = append(sNew.Repl, ligs)
 					}
 				}
+				if len(sNew.Cov) > 0 {
+					tNew.Subtables = append(tNew.Subtables, &sNew)
+				}
 			case *gtab.Gsub8_1:
 				panic("not implemented")
 			case *gtab.SeqContext1:
@@ -351,9 +362,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			}
 		}
 
-		if len(tNew.Subtables) > 0 {
-			res.LookupList = append(res.LookupList, tNew)
-		}
+		// Keep empty lookups, so that the lookup indices stay valid.
+		res.LookupList = append(res.LookupList, tNew)
 	}
 
 	return &res
-- 
2.43.0


From c3adc1771a3636a04bc4e4df67e2f3757beb7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 50/98] fix: Subset: use the new glyph indices in kerning pairs

---
 subset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subset.go b/subset.go
index 0053e07..b3b89fe 100644
--- a/subset.go
+++ b/subset.go
@@ -388,13 +388,15 @@ func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 			case gtab.Gpos2_1:
 				sNew := gtab.Gpos2_1{}
 				for pair, adj := range sOld {
-					if _, ok := s.newGid[pair.Left]; !ok {
+					newLeft, ok := s.newGid[pair.Left]
+					if !ok {
 						continue
 					}
-					if _, ok := s.newGid[pair.Right]; !ok {
+					newRight, ok := s.newGid[pair.Right]
+					if !ok {
 						continue
 					}
-					sNew[pair] = adj
+					sNew[glyph.Pair{Left: newLeft, Right: newRight}] = adj
 				}
 				tNew.Subtables[j] = sNew
 			case *gtab.Gpos2_2:
-- 
2.43.0


From c9e4b89938bd27370b47af3d4493ab20326fd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 51/98] fix: Subset: do not write to the argument, and allow
 for short lists of glyph names

---
 subset.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subset.go b/subset.go
index b3b89fe..d75267a 100644
--- a/subset.go
+++ b/subset.go
@@ -41,7 +41,7 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: slices.Clone(glyphs),
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
@@ -524,7 +524,9 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 	if oldOutlines.Names != nil {
 		newOutlines.Names = make([]string, len(s.glyphs))
 		for newGid, oldGid := range s.glyphs {
-			newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			if int(oldGid) < len(oldOutlines.Names) {
+				newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			}
 		}
 	}
 
-- 
2.43.0


From 8d5f0c51f31ba5081cb18265554dc0873b9825b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 52/98] fix: cff: write encodings where the encoded glyphs are
 not contiguous

---
 cff/encoding.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/cff/encoding.go b/cff/encoding.go
index e2aee37..66c80cb 100644
--- a/cff/encoding.go
+++ b/cff/encoding.go
@@ -107,9 +107,6 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 				return nil, err
 			}
 			gid := lookup[sid]
-			if gid >= currentGid {
-				return nil, invalidSince("invalid encoding supplement")
-			}
 			if gid != 0 {
 				res[code] = gid
 			}
@@ -123,10 +120,9 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 // The encoding vector is given as a slice of glyph IDs (length 256),
 // where the glyph ID 0 is used to indicate a missing glyph.
 //
-// The encoded glyphs must form a contiguous range starting at glyph ID 1.
-//
 // The glyphNames argument is only used for supplemented encodings, where
-// one or more glyphs have multiple codes.
+// one or more glyphs have multiple codes, or where the encoded glyphs do not
+// form a contiguous range starting at glyph ID 1.
 func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	var maxGid glyph.ID
 	codes := map[glyph.ID]uint8{}
@@ -145,9 +141,20 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 			continue
 		}
 		codes[gid] = c8
-		if gid > maxGid {
-			maxGid = gid
+	}
+	for {
+		if _, ok := codes[maxGid+1]; !ok {
+			break
 		}
+		maxGid++
+	}
+	for code, gid := range encoding {
+		if gid > maxGid && codes[gid] == uint8(code) {
+			extra = append(extra, suppl{uint8(code), gid})
+		}
+	}
+	if len(extra) > 255 {
+		return nil, invalidSince("too many supplemental codes in encoding")
 	}
 
 	type seg struct {
@@ -159,11 +166,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	startGid := glyph.ID(1)
 	startCode := codes[startGid]
 	for gid := glyph.ID(1); gid <= maxGid; gid++ {
-		code, ok := codes[gid]
-		if !ok {
-			msg := fmt.Sprintf("encoded glyphs not contiguous (glyph %d not encoded)", gid)
-			return nil, invalidSince(msg)
-		}
+		code := codes[gid]
 		if int(gid-startGid) != int(code)-int(startCode) {
 			ss = append(ss, seg{startCode, uint8(gid - startGid - 1)})
 			startGid = gid
-- 
2.43.0


From a3373ca27942b7f472fc6e73b1f0c9b740ebb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 53/98] fix: Read accepts TrueType fonts where all glyphs are
 blank

---
 read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index eff0cae..3f9eae4 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,11 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// If all glyphs are blank, the "glyf" table is empty.
+	_, hasGlyf := dir.Toc["glyf"]
+	hasGlyf = hasGlyf && dir.Has("loca")
+
+	if !(hasGlyf || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
-- 
2.43.0


From e276e1921a649a10f691404bb4f7744979d6d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:43 +0000
Subject: [PATCH 54/98] fix: gtab: extension subtables for large lookups and
 for pair and context lookups

Subtable offsets within a lookup could overflow without extension
subtables being used, and the extension lookup type was 0 for lookup lists
which contain only GPOS 2.1 or contextual subtables.
---
 opentype/gtab/lookup.go | 48 +++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 8b4320f..67849a7 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -314,9 +314,17 @@ findTypeLoop:
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
+			case *SeqContext1, *SeqContext2, *SeqContext3, *ChainedSeqContext1, *ChainedSeqContext2, *ChainedSeqContext3:
+				// GSUB uses lookup types 5 and 6 here, GPOS uses 7 and 8.
+				if l.Meta.LookupType <= 6 {
+					extLookupType = gsubExtensionLookupType
+				} else {
+					extLookupType = gposExtensionLookupType
+				}
+				break findTypeLoop
 			}
 		}
 	}
@@ -356,10 +364,13 @@ findTypeLoop:
 
 	// If needed, reorder the chunks or introduce extension records.
 	isTooLarge := false
-	var total uint32
+	var total, tablePos uint32
 	for i := range chunks {
 		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
+		if code&chunkTypeMask == chunkTable {
+			tablePos = total
+		}
+		if tablePos > 0xFFFF || total-tablePos > 0xFFFF {
 			isTooLarge = true
 			break
 		}
@@ -388,6 +399,9 @@ findTypeLoop:
 			for i := range ll {
 				tCode := chunkCode(i) << 14
 				lookupOffset := chunkPos[chunkTable|tCode]
+				if lookupOffset > 0xFFFF {
+					panic("lookup offset overflow")
+				}
 				buf = append(buf, byte(lookupOffset>>8), byte(lookupOffset))
 			}
 		case chunkTable:
@@ -413,6 +427,9 @@ findTypeLoop:
 					subtablePos = chunkPos[chunkSubtable|tCode|sCode]
 				}
 				subtableOffset := subtablePos - base
+				if subtableOffset > 0xFFFF {
+					panic("subtable offset overflow")
+				}
 				buf = append(buf, byte(subtableOffset>>8), byte(subtableOffset))
 			}
 			if li.Meta.LookupFlags&UseMarkFilteringSet != 0 {
@@ -453,6 +470,7 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	}
 
 	lookupSize := make(map[chunkCode]uint32)
+	lastOffset := make(map[chunkCode]uint32) // offset of the last subtable
 	var lookups []chunkCode
 	for i := range chunks {
 		code := chunks[i].code
@@ -463,6 +481,7 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		} else if tp == chunkTable {
 			lookups = append(lookups, tCode)
 		}
+		lastOffset[tCode] = lookupSize[tCode]
 		lookupSize[tCode] += chunks[i].size
 	}
 	sort.SliceStable(lookups, func(i, j int) bool {
@@ -473,11 +492,13 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	// as needed.
 	biggestLookup := lookups[len(lookups)-1]
 	lastPos := total - lookupSize[biggestLookup]
-	idx := len(lookups) - 2
 	replace := make(map[chunkCode]bool)
 	extra := 0
-	for lastPos > 0xFFFF && idx >= 0 {
+	for idx := len(lookups) - 1; idx >= 0; idx-- {
 		tCode := lookups[idx]
+		if lastOffset[tCode] <= 0xFFFF && (lastPos <= 0xFFFF || tCode == biggestLookup) {
+			continue
+		}
 
 		oldSize := lookupSize[tCode]
 		l := ll[tCode>>14]
@@ -490,10 +511,10 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		if newSize < oldSize {
 			replace[tCode] = true
 			extra += len(l.Subtables)
-			lastPos -= oldSize - newSize
+			if tCode != biggestLookup {
+				lastPos -= oldSize - newSize
+			}
 		}
-
-		idx--
 	}
 	if lastPos > 0xFFFF {
 		panic("too much data for lookup list table")
@@ -508,15 +529,20 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		switch {
 		case tp == chunkHeader:
 			res = append(res, chunk)
-		case tCode == biggestLookup:
+		case tCode == biggestLookup && !(replace[tCode] && tp == chunkSubtable):
 			moved = append(moved, chunk)
 		case replace[tCode]:
 			sCode := code & chunkSubtableMask
 			if tp == chunkSubtable {
-				res = append(res, layoutChunk{
+				rec := layoutChunk{
 					code: chunkExtReplace | tCode | sCode,
 					size: 8,
-				})
+				}
+				if tCode == biggestLookup {
+					moved = append(moved, rec)
+				} else {
+					res = append(res, rec)
+				}
 				ext = append(ext, chunk)
 			} else {
 				res = append(res, chunk)
-- 
2.43.0


From 3d352171341d96cab2667c9678c3cc98bd60693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 55/98] fix: gtab: header offsets for large or missing script,
 feature and lookup lists

---
 opentype/gtab/gtab.go | 46 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..910387c 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -167,21 +168,40 @@ func (info *Info) Encode() []byte {
 	featureList := info.FeatureList.encode()
 	lookupList := info.LookupList.encode()
 
-	total := 10
-	var scriptListOffset int
-	if scriptList != nil {
-		scriptListOffset = total
-		total += len(scriptList)
+	lists := []*[]byte{&scriptList, &featureList, &lookupList}
+	if len(info.ScriptList) > 0 || len(info.FeatureList) > 0 || len(info.LookupList) > 0 {
+		// Without a script list or lookup list, readers ignore the other lists.
+		for _, list := range lists {
+			if *list == nil {
+				*list = []byte{0, 0}
+			}
+		}
 	}
-	var featureListOffset int
-	if featureList != nil {
-		featureListOffset = total
-		total += len(featureList)
+	if 10+len(scriptList)+len(featureList) > 0xFFFF {
+		// Move the largest list to the end, to keep the offsets small.
+		sort.SliceStable(lists, func(i, j int) bool {
+			return len(*lists[i]) < len(*lists[j])
+		})
 	}
-	var lookupListOffset int
-	if lookupList != nil {
-		lookupListOffset = total
-		total += len(lookupList)
+
+	total := 10
+	var scriptListOffset, featureListOffset, lookupListOffset int
+	for _, list := range lists {
+		if *list == nil {
+			continue
+		}
+		if total > 0xFFFF {
+			panic("GSUB/GPOS header offset overflow")
+		}
+		switch list {
+		case &scriptList:
+			scriptListOffset = total
+		case &featureList:
+			featureListOffset = total
+		case &lookupList:
+			lookupListOffset = total
+		}
+		total += len(*list)
 	}
 
 	buf := make([]byte, total)
-- 
2.43.0


From 0cd1ba586f3f27b38352f75e5052e68f2da0f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:59 +0000
Subject: [PATCH 56/98] fix: gtab: ignore missing optional features in script
 lists

---
 opentype/gtab/scriptlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..94964bb 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -188,7 +188,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		}
 	}
 
-	featureIndices := make([]FeatureIndex, featureIndexCount)
+	featureIndices := make([]FeatureIndex, 0, featureIndexCount)
 	for i := 0; i < int(featureIndexCount); i++ {
 		idx, err := p.ReadUint16()
 		if err != nil {
@@ -196,7 +196,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		} else if idx == 0xFFFF {
 			continue
 		}
-		featureIndices[i] = FeatureIndex(idx)
+		featureIndices = append(featureIndices, FeatureIndex(idx))
 	}
 
 	return &Features{
-- 
2.43.0


From 6e2da4f9094099cec46aab6d1d0f09ff62e8bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:02 +0000
Subject: [PATCH 57/98] fix: gtab: do not confuse invalid subtable formats with
 other lookup types

---
 opentype/gtab/gpos.go | 2 +-
 opentype/gtab/gsub.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..938253c 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -43,7 +43,7 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gposReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GPOS subtable format %d.%d",
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 683b586..18f04ce 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -39,7 +39,7 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gsubReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GSUB subtable format %d.%d",
-- 
2.43.0


From 349455a5e50d94ec82d9ecefc415840a23c318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:41 +0000
Subject: [PATCH 58/98] fix: gtab: refuse to write data which does not fit into
 16-bit offsets and counts

---
 opentype/gtab/featurelist.go |  1 +
 opentype/gtab/gpos.go        |  5 +++++
 opentype/gtab/gpos4.go       |  2 ++
 opentype/gtab/gpos5.go       |  3 +++
 opentype/gtab/gpos6.go       |  2 ++
 opentype/gtab/gsub.go        |  6 ++++++
 opentype/gtab/lookup.go      | 10 ++++++++++
 opentype/gtab/nested.go      |  8 ++++++++
 opentype/gtab/scriptlist.go  |  3 +++
 9 files changed, 40 insertions(+)

diff --git a/opentype/gtab/featurelist.go b/opentype/gtab/featurelist.go
index 91bdd6a..658b51b 100644
--- a/opentype/gtab/featurelist.go
+++ b/opentype/gtab/featurelist.go
@@ -124,6 +124,7 @@ func (info FeatureListInfo) encode() []byte {
 	var largestOffset int
 	for i, f := range info {
 		largestOffset = totalSize
+		checkUint16(len(f.Lookups))
 		offs[i] = uint16(totalSize)
 		totalSize += 4 + 2*len(f.Lookups)
 	}
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 938253c..ecb5750 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -218,6 +218,7 @@ func (l *Gpos1_2) encode() []byte {
 		total += l.Adjust[0].encodeLen(valueFormat) * valueCount
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -398,6 +399,7 @@ func (l Gpos2_1) encode() []byte {
 	pairSetCount := len(adjust)
 	total := 10 + 2*pairSetCount
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += cov.EncodeLen()
 	var valueFormat1, valueFormat2 uint16
 	for _, adj := range adjust {
@@ -408,6 +410,7 @@ func (l Gpos2_1) encode() []byte {
 	}
 	pairSetOffsets := make([]uint16, pairSetCount)
 	for i, adj := range adjust {
+		checkUint16(total, len(adj))
 		pairSetOffsets[i] = uint16(total)
 		total += 2 + 2*len(adj)
 		for _, v := range adj {
@@ -609,6 +612,7 @@ func (l *Gpos2_2) encode() []byte {
 	total += l.Class1.AppendLen()
 	classDef2Offset := total
 	total += l.Class2.AppendLen()
+	checkUint16(classDef2Offset, class1Count, class2Count, class1Count*class2Count)
 
 	res := make([]byte, 0, total)
 	res = append(res,
@@ -764,6 +768,7 @@ func (l *Gpos3_1) encode() []byte {
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	res := make([]byte, 0, total)
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index fc9c61b..3b4e9df 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -226,6 +226,7 @@ func (l *Gpos4_1) encode() []byte {
 			}
 		}
 	}
+	checkUint16(baseArrayOffset, baseCount*markClassCount)
 	res := make([]byte, 0, total)
 
 	res = append(res,
@@ -265,6 +266,7 @@ func (l *Gpos4_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs)
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index 69cec99..e1b7989 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -209,6 +209,7 @@ func (l *Gpos5_1) encode() []byte {
 	ligCoverageOffset := markCoverageOffset + l.MarkCov.EncodeLen()
 	markArrayOffset := ligCoverageOffset + l.LigCov.EncodeLen()
 	ligArrayOffset := markArrayOffset + 2 + (4+6)*markCount
+	checkUint16(ligArrayOffset)
 	res := make([]byte, 0, l.encodeLen())
 
 	res = append(res,
@@ -243,6 +244,7 @@ func (l *Gpos5_1) encode() []byte {
 	)
 	offs = 2 + 2*ligCount
 	for _, ligAttach := range l.LigArray {
+		checkUint16(offs, len(ligAttach)*markClassCount)
 		res = append(res,
 			byte(offs>>8), byte(offs),
 		)
@@ -260,6 +262,7 @@ func (l *Gpos5_1) encode() []byte {
 					res = append(res, 0, 0)
 					continue
 				}
+				checkUint16(offs)
 				res = append(res,
 					byte(offs>>8), byte(offs),
 				)
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 7a35222..56b63e8 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -225,6 +225,7 @@ func (l *Gpos6_1) encode() []byte {
 			}
 		}
 	}
+	checkUint16(mark2ArrayOffset, mark2Count*markClassCount)
 	res := make([]byte, 0, total)
 
 	res = append(res,
@@ -264,6 +265,7 @@ func (l *Gpos6_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs)
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 18f04ce..3d4ec36 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -187,6 +187,7 @@ func (l *Gsub1_2) encodeLen() int {
 func (l *Gsub1_2) encode() []byte {
 	n := len(l.SubstituteGlyphIDs)
 	covOffs := 6 + 2*n
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -309,6 +310,7 @@ func (l *Gsub2_1) encode() []byte {
 		sequenceOffsets[i] = uint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -433,6 +435,7 @@ func (l *Gsub3_1) encode() []byte {
 		alternateSetOffsets[i] = uint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -825,14 +828,17 @@ func (l *Gsub8_1) encode() []byte {
 	total += 2 * lookaheadGlyphCount
 	total += 2 * glyphCount
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Input.EncodeLen()
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, cov := range l.Backtrack {
+		checkUint16(total)
 		backtrackCoverageOffsets[i] = uint16(total)
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, cov := range l.Lookahead {
+		checkUint16(total)
 		lookaheadCoverageOffsets[i] = uint16(total)
 		total += cov.EncodeLen()
 	}
diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 67849a7..70e31ef 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -458,6 +458,16 @@ findTypeLoop:
 	return buf
 }
 
+// checkUint16 panics if any of the given offsets or counts cannot be stored in
+// a 16-bit field.
+func checkUint16(values ...int) {
+	for _, x := range values {
+		if x > 0xFFFF {
+			panic("gtab: 16-bit offset or count overflow")
+		}
+	}
+}
+
 type layoutChunk struct {
 	code chunkCode
 	size uint32
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index c94ba23..20414a3 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -219,6 +219,7 @@ func (l *SeqContext1) encode() []byte {
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -628,6 +629,7 @@ func (l *SeqContext3) encode() []byte {
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
+		checkUint16(total)
 		coverageOffsets[i] = uint16(total)
 		total += cov.ToTable().EncodeLen()
 	}
@@ -886,6 +888,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
+		checkUint16(total)
 		chainedSeqRuleSetOffsets[i] = uint16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
@@ -919,6 +922,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos, len(rule.Backtrack), len(rule.Input)+1, len(rule.Lookahead), len(rule.Actions))
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -1291,6 +1295,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 			if pos > 0xFFFF {
 				panic("ChainedSeqContext2 too large")
 			}
+			checkUint16(len(rule.Backtrack), len(rule.Input)+1, len(rule.Lookahead), len(rule.Actions))
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -1504,18 +1509,21 @@ func (l *ChainedSeqContext3) encode() []byte {
 	total += 4 * len(l.Actions)
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
+		checkUint16(total)
 		backtrackCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
+		checkUint16(total)
 		inputCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
+		checkUint16(total)
 		lookaheadCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 94964bb..7475c44 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -232,6 +232,7 @@ func (info ScriptListInfo) encode() []byte {
 
 	totalSize := 2 + 6*len(scriptLangs) // scriptCount, scriptRecords
 	for _, sRec := range scriptList {
+		checkUint16(totalSize)
 		sRec.offset = uint16(totalSize)
 		langCount := 0
 		for _, tag := range scriptLangs[sRec.script] {
@@ -290,10 +291,12 @@ func (info ScriptListInfo) encode() []byte {
 		})
 		pos := 4 + 6*len(langSysRecords)
 		if defaultRecord != nil {
+			checkUint16(pos, len(defaultRecord.langSys.Optional))
 			defaultRecord.offs = uint16(pos)
 			pos += 6 + len(defaultRecord.langSys.Optional)*2
 		}
 		for _, lRec := range langSysRecords {
+			checkUint16(pos, len(lRec.langSys.Optional))
 			lRec.offs = uint16(pos)
 			pos += 6 + len(lRec.langSys.Optional)*2
 		}
-- 
2.43.0


From ff33a97cf33cb372909506e878770f1d6edb18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 59/98] fix: gdef: refuse to write tables which are too large
 for 16-bit offsets

---
 opentype/gdef/gdef.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..741ddab 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -168,6 +168,11 @@ func (table *Table) Encode() []byte {
 		}
 	}
 
+	if max(glyphClassDefOffset, markAttachClassDefOffset, markGlyphSetsDefOffset) > 0xFFFF ||
+		len(table.MarkGlyphSets) > 0xFFFF {
+		panic("GDEF table too large")
+	}
+
 	buf := make([]byte, 12, total)
 	// We always write table version 1.0:
 	buf[0] = byte(version >> 24)
-- 
2.43.0


From 19ebad3ebb4be719bcaf86637d966abc8b9ae834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:02 +0000
Subject: [PATCH 60/98] fix: classdef: class definitions which cover all 65536
 glyph indices

Also, explicit entries for class 0 no longer increase the table size.
---
 opentype/classdef/classdef.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..02717ad 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -149,7 +150,10 @@ type encInfo struct {
 func (info Table) getEncInfo() *encInfo {
 	minGid := glyph.ID(0xFFFF)
 	maxGid := glyph.ID(0)
-	for key := range info {
+	for key, class := range info {
+		if class == 0 {
+			continue
+		}
 		if key < minGid {
 			minGid = key
 		}
@@ -159,6 +163,12 @@ func (info Table) getEncInfo() *encInfo {
 	}
 
 	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	if minGid == 0 && maxGid == 0xFFFF {
+		format1Size = math.MaxInt // the glyph count does not fit into 16 bits
+	}
+	if minGid > maxGid {
+		return &encInfo{format1Size: math.MaxInt, format2Size: 4}
+	}
 
 	segCount := 0
 	segStart := -1
@@ -225,6 +235,9 @@ func (info Table) Append(buf []byte) []byte {
 	}
 
 	segCount := (encInfo.format2Size - 4) / 6
+	if segCount > 0xFFFF {
+		panic("class definition table too large")
+	}
 	buf = append(buf, 0, 2, byte(segCount>>8), byte(segCount))
 	segStart := -1
 	var segClass uint16
-- 
2.43.0


From 51f9e5012172be33c8edf5dc423ef546cd995030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:10 +0000
Subject: [PATCH 61/98] fix: coverage: refuse tables with duplicate coverage
 indices

---
 opentype/coverage/coverage.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..689566b 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -159,6 +159,11 @@ func (table Table) encInfo() ([]glyph.ID, int, int) {
 			panic("invalid coverage table")
 		}
 	}
+	for i, gid := range rev {
+		if idx, ok := table[gid]; !ok || idx != i {
+			panic("invalid coverage table")
+		}
+	}
 
 	format1Length := 4 + 2*len(table)
 
-- 
2.43.0


From ac14c9c60a4aa445fc6de83b4cdc7daf0f84cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:00 +0000
Subject: [PATCH 62/98] fix: gtab: header offsets for empty lists

---
 opentype/gtab/gtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index 910387c..1854658 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -169,7 +169,7 @@ func (info *Info) Encode() []byte {
 	lookupList := info.LookupList.encode()
 
 	lists := []*[]byte{&scriptList, &featureList, &lookupList}
-	if len(info.ScriptList) > 0 || len(info.FeatureList) > 0 || len(info.LookupList) > 0 {
+	if len(info.ScriptList) > 0 || featureList != nil || lookupList != nil {
 		// Without a script list or lookup list, readers ignore the other lists.
 		for _, list := range lists {
 			if *list == nil {
-- 
2.43.0


From 23ba90a47bf780591905bede9b56f4e21e6bfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:37 +0000
Subject: [PATCH 63/98] fix: standard ligatures can be switched off by the
 caller

---
 ligatures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..af3fc4b 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,7 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 38b956f71a3fcb6b47514fb309577350c5e5dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 64/98] fix: kern: read subtables with more than 10920 pairs

---
 kern/kern.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kern/kern.go b/kern/kern.go
index 7a474df..f9497fe 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -73,7 +73,9 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		format := buf[4]
 		flags := buf[5]
 
-		if length < 6+8 {
+		// The length of large subtables does not fit into 16 bits, and cannot be
+		// used.  It is only needed to find the next subtable.
+		if length < 6+8 && nTables > 1 {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/kern",
 				Reason:    fmt.Sprintf("invalid kern subtable length %d", length),
-- 
2.43.0


From 85437153b8390888ef747505c23a39a9b1ee0c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:07 +0000
Subject: [PATCH 65/98] fix: fonts with more than 6000 kerning pairs can be
 written again

---
 read.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 3f9eae4..e5f3bb4 100644
--- a/read.go
+++ b/read.go
@@ -18,13 +18,16 @@ package sfnt
 
 import (
 	"bytes"
+	"cmp"
 	"errors"
 	"fmt"
 	"io"
 	"math"
 	"os"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 
 	"seehuhn.de/go/postscript/funit"
@@ -33,6 +36,7 @@ import (
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/head"
 	"seehuhn.de/go/sfnt/header"
 	"seehuhn.de/go/sfnt/hmtx"
@@ -501,12 +505,23 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, fmt.Errorf("kern table: %w", err)
 		}
 
+		pairs := maps.Keys(kern)
+		slices.SortFunc(pairs, func(a, b glyph.Pair) int {
+			return cmp.Or(cmp.Compare(a.Left, b.Left), cmp.Compare(a.Right, b.Right))
+		})
+		var subtables []gtab.Subtable
 		subtable := gtab.Gpos2_1{}
-		for pair, val := range kern {
+		for _, pair := range pairs {
+			if len(subtable) == maxKernPairs {
+				subtables = append(subtables, subtable)
+				subtable = gtab.Gpos2_1{}
+			}
+			val := kern[pair]
 			subtable[pair] = &gtab.PairAdjust{
 				First: &gtab.GposValueRecord{XAdvance: val},
 			}
 		}
+		subtables = append(subtables, subtable)
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
 				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
@@ -517,7 +532,7 @@ func Read(r io.Reader) (*Font, error) {
 			LookupList: []*gtab.LookupTable{
 				{
 					Meta:      &gtab.LookupMetaInfo{LookupType: 2},
-					Subtables: []gtab.Subtable{subtable},
+					Subtables: subtables,
 				},
 			},
 		}
@@ -526,6 +541,10 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// maxKernPairs is the number of kerning pairs which fit into a pair adjustment
+// subtable, independently of the glyphs used.
+const maxKernPairs = 6000
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From 5edc39a2dfb80c2548c0de0f00a04660d8c174c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 66/98] fix: keep glyph names of TrueType fonts with a short
 names list

---
 names.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/names.go b/names.go
index 80946ee..2d53429 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names)
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From 2237b21b8db9c0e41419a08716097857b137bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 67/98] fix: glyph names for cmaps with codes or glyphs outside
 the font

---
 names.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/names.go b/names.go
index 2d53429..c0a10bf 100644
--- a/names.go
+++ b/names.go
@@ -19,6 +19,7 @@ package sfnt
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"seehuhn.de/go/postscript/type1/names"
 
@@ -92,8 +93,12 @@ func (f *Font) MakeGlyphNames() []string {
 
 	if cmap, _ := f.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		a, b = max(a, 0), min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
+			if int(gid) >= len(glyphNames) {
+				continue
+			}
 			if glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
-- 
2.43.0


From 84d893958807e80755c79ab1e4871630c86922d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:17 +0000
Subject: [PATCH 68/98] fix: ligature rules do not replace existing glyph names

---
 names.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/names.go b/names.go
index c0a10bf..c5774e9 100644
--- a/names.go
+++ b/names.go
@@ -161,6 +161,9 @@ func (f *Font) MakeGlyphNames() []string {
 								}
 							}
 							newName := strings.Join(nn, "_")
+							if glyphNames[lig.Out] != "" {
+								continue
+							}
 							glyphNames[lig.Out] = makeVariant(used, newName)
 						}
 					}
-- 
2.43.0


From fce6bfbacf2583091409c55f955977fddd2c74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:19 +0000
Subject: [PATCH 69/98] fix: glyph names do not depend on the map iteration
 order

---
 names.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/names.go b/names.go
index c5774e9..046f6f7 100644
--- a/names.go
+++ b/names.go
@@ -116,7 +116,7 @@ func (f *Font) MakeGlyphNames() []string {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
 				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
 						newGid := origGid + subtable.Delta
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
@@ -124,7 +124,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						newGid := subtable.SubstituteGlyphIDs[idx]
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
@@ -132,7 +133,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						if glyphNames[origGid] == "" {
 							continue
 						}
@@ -144,7 +146,8 @@ func (f *Font) MakeGlyphNames() []string {
 					}
 				case *gtab.Gsub4_1:
 					var nn []string
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						idx := subtable.Cov[origGid]
 						name := glyphNames[origGid]
 						if name == "" {
 							continue
-- 
2.43.0


From 56c0f310aff2e38c0bb9ceeb5560a5bc3d5cbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:20 +0000
Subject: [PATCH 70/98] fix: derive glyph names from substitutions in any order

---
 names.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 046f6f7..9a552a0 100644
--- a/names.go
+++ b/names.go
@@ -111,7 +111,10 @@ func (f *Font) MakeGlyphNames() []string {
 		}
 	}
 
-	if f.Gsub != nil {
+	// Repeat until no more names can be found, since a lookup may give names to
+	// glyphs which are the input of an earlier one.
+	for again := f.Gsub != nil; again; {
+		again = false
 		for _, lookup := range f.Gsub.LookupList {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
@@ -122,6 +125,7 @@ func (f *Font) MakeGlyphNames() []string {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
+						again = true
 					}
 				case *gtab.Gsub1_2:
 					for _, origGid := range subtable.Cov.Glyphs() {
@@ -131,6 +135,7 @@ func (f *Font) MakeGlyphNames() []string {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
+						again = true
 					}
 				case *gtab.Gsub3_1:
 					for _, origGid := range subtable.Cov.Glyphs() {
@@ -141,6 +146,7 @@ func (f *Font) MakeGlyphNames() []string {
 						for _, newGid := range subtable.Alternates[idx] {
 							if glyphNames[newGid] == "" {
 								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
+								again = true
 							}
 						}
 					}
@@ -168,6 +174,7 @@ func (f *Font) MakeGlyphNames() []string {
 								continue
 							}
 							glyphNames[lig.Out] = makeVariant(used, newName)
+							again = true
 						}
 					}
 				}
-- 
2.43.0


From 418a139dcb179e31e2bc7f55aeee85128589516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:12 +0000
Subject: [PATCH 71/98] fix: GlyphName for TrueType fonts with a short names
 list

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 7383b86..8735cd2 100644
--- a/font.go
+++ b/font.go
@@ -425,7 +425,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
-- 
2.43.0


From 8620dbc092175c819873d5173748cc2a24dcfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:10 +0000
Subject: [PATCH 72/98] fix: builder: no goroutine is left behind after an
 error inside a string

---
 opentype/gtab/builder/parser.go | 49 ++++++++++++++-------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..084c614 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1122,7 +1122,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1388,35 +1388,28 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+func decodeString(s string) []rune {
+	var res []rune
+	s = s[1 : len(s)-1]
+	escape := false
+	for _, r := range s {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+		} else if r == '\\' {
+			escape = true
+			continue
 		}
-		close(c)
-	}()
-	return c
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From 61b58965f356b031226b37379b3a695a9cf2239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:11 +0000
Subject: [PATCH 73/98] fix: builder: all errors carry a line number

---
 opentype/gtab/builder/lexer.go  | 5 +++--
 opentype/gtab/builder/parser.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..ead2a5f 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -135,8 +135,9 @@ func (l *lexer) backup() {
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
-		typ: itemError,
-		val: fmt.Sprintf(format, args...),
+		typ:  itemError,
+		val:  fmt.Sprintf(format, args...),
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 084c614..e8c3af5 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -80,6 +80,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 type parser struct {
 	tokens  <-chan item
 	backlog []item
+	last    item // the last item received from the lexer
 
 	fontInfo *sfnt.Font
 	cmap     cmap.Subtable
@@ -1343,7 +1344,13 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+	item, ok := <-p.tokens
+	if !ok {
+		// Repeat the final item, once the lexer has finished.
+		return p.last
+	}
+	p.last = item
+	return item
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From 31a0ef21770f5c54f9a18fc9e3e2fd88c4908e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:13 +0000
Subject: [PATCH 74/98] fix: builder: parse descriptions for fonts without a
 cmap table

---
 opentype/gtab/builder/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index e8c3af5..dd6fb0a 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -46,10 +46,9 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 		}
 	}
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// Fonts without a usable cmap can still be described using glyph names
+	// and glyph IDs.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1124,8 +1123,11 @@ func (p *parser) readGlyphList() []glyph.ID {
 
 		case itemString:
 			for _, r := range decodeString(item.val) {
-				gid := p.cmap.Lookup(r)
-				if gid == 0 {
+				var gid glyph.ID
+				if p.cmap != nil {
+					gid = p.cmap.Lookup(r)
+				}
+				if gid == 0 || int(gid) >= p.fontInfo.NumGlyphs() {
 					p.fatal("rune %q not in mapped in font", r)
 				}
 				next = append(next, gid)
-- 
2.43.0


From 08c80f61d07ef25d50f7f416c9a9a8b7d440ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:14 +0000
Subject: [PATCH 75/98] fix: builder: limit the size of class pair tables

---
 opentype/gtab/builder/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index dd6fb0a..653249d 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -459,6 +459,9 @@ func (p *parser) readGpos2() *gtab.LookupTable {
 				if i > 0 {
 					p.required(itemComma, ",")
 				}
+				if class1Count >= 65536 {
+					p.fatal("too many classes")
+				}
 				gg := p.readGlyphList()
 				for _, g := range gg {
 					if _, ok := class1[g]; ok {
@@ -483,6 +486,9 @@ func (p *parser) readGpos2() *gtab.LookupTable {
 				if i > 0 {
 					p.required(itemComma, ",")
 				}
+				if class2Count >= 65536 {
+					p.fatal("too many classes")
+				}
 				gg := p.readGlyphList()
 				for _, g := range gg {
 					if _, ok := class2[g]; ok {
@@ -495,6 +501,9 @@ func (p *parser) readGpos2() *gtab.LookupTable {
 			class2Count = class2.NumClasses()
 			p.optional(itemEOL)
 
+			if class1Count*class2Count > 65536 {
+				p.fatal("too many classes")
+			}
 			aa := make([]*gtab.PairAdjust, class1Count*class2Count)
 			adjust := make([][]*gtab.PairAdjust, class1Count)
 			for i := 0; i < class1Count; i++ {
-- 
2.43.0


From cda66d30a99556bb616564826c302cd235913aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:15 +0000
Subject: [PATCH 76/98] fix: builder: write the flag for ignoring ligatures in
 the form the parser reads

---
 opentype/gtab/builder/explain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..2bde8ef 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -372,7 +372,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
-- 
2.43.0


From 083e2ee6a54c463b9c913c0f36b3510b12b90228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:16 +0000
Subject: [PATCH 77/98] fix: builder: separate flags and class definitions

---
 opentype/gtab/builder/explain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 2bde8ef..bade1a2 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -522,7 +522,7 @@ func (ee *explainer) defineClasses(classType string, class classdef.Table) {
 		if i == 0 {
 			continue
 		}
-		fmt.Fprintf(ee.w, "%s :c%d: = ", classType, i)
+		fmt.Fprintf(ee.w, " %s :c%d: = ", classType, i)
 		ee.writeGlyphSet(gg)
 		ee.w.WriteString("\n\t")
 	}
-- 
2.43.0


From 84c2009fa2a32cccfee006e169c7834536f9e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:17 +0000
Subject: [PATCH 78/98] fix: builder: describe several class pair or mark
 subtables in one lookup

---
 opentype/gtab/builder/explain.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index bade1a2..7c1723d 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -270,9 +272,14 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos4_1:
 				checkType(4)
+				sep := "\n\t"
+				if i > 0 {
+					sep = ""
+				}
 				markGlyphs := l.MarkCov.Glyphs()
 				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+					ee.w.WriteString(sep + "mark ")
+					sep = "\n\t"
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
 					rec := l.MarkArray[i]
@@ -282,7 +289,8 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 				baseGlyphs := l.BaseCov.Glyphs()
 				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+					ee.w.WriteString(sep + "base ")
+					sep = "\n\t"
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
 					anchors := l.BaseArray[i]
-- 
2.43.0


From 42607892007578de8cf5d10d54a64c3e1e1931ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 79/98] fix: builder: do not shorten ligatures to ranges

---
 opentype/gtab/builder/explain.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7c1723d..91d1f6c 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -59,7 +59,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -70,7 +70,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -111,7 +111,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -395,7 +395,7 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+func (ee *explainer) explainSeqMappings(mm []mapping, ranges bool) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
@@ -405,7 +405,7 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
+		canRange := ranges && len(mm) > 2
 		for i := 1; canRange && i < len(mm); i++ {
 			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
 				canRange = false
-- 
2.43.0


From c09a465914b4f0a9d23a04127c54d1c23ee8d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:35 +0000
Subject: [PATCH 80/98] fix: builder: describe ranges of unnamed glyphs

---
 opentype/gtab/builder/explain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 91d1f6c..66cb639 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -426,7 +426,7 @@ func (ee *explainer) explainSeqMappings(mm []mapping, ranges bool) {
 		}
 
 		if rangeLen > 2 {
-			fmt.Fprintf(ee.w, "%s-%s -> %s-%s",
+			fmt.Fprintf(ee.w, "%s - %s -> %s - %s",
 				ee.names[mm[0].from[0]],
 				ee.names[mm[rangeLen-1].from[0]],
 				ee.names[mm[0].to[0]],
-- 
2.43.0


From c3e26ad8a79271aba0ebd8945f7313c3fac15515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:36 +0000
Subject: [PATCH 81/98] fix: builder: quote characters in the form the parser
 reads

---
 opentype/gtab/builder/explain.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 66cb639..417eec9 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -20,6 +20,8 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -334,6 +336,22 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 	return res
 }
 
+// quoteRune returns a string token for a single rune, using only the escape
+// sequences which are understood by decodeString.
+func quoteRune(r rune) string {
+	switch r {
+	case '\n':
+		return `"\n"`
+	case '\r':
+		return `"\r"`
+	case '\t':
+		return `"\t"`
+	case '"', '\\':
+		return `"\` + string(r) + `"`
+	}
+	return `"` + string(r) + `"`
+}
+
 type explainer struct {
 	w      *strings.Builder
 	mapped []string
@@ -344,10 +362,11 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	mappings := make([]string, fontInfo.NumGlyphs())
 	if cmap, _ := fontInfo.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		a, b = max(a, 1), min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if gid != 0 {
-				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
+			if gid != 0 && int(gid) < len(mappings) && utf8.ValidRune(r) {
+				mappings[gid] = quoteRune(r)
 			}
 		}
 	}
-- 
2.43.0


From a62d200abf557cdc8b7014daaa93fb71b8c2baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:37 +0000
Subject: [PATCH 82/98] fix: builder: use glyph names only if the parser can
 read them

---
 opentype/gtab/builder/explain.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 417eec9..5a3ec5c 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -336,6 +336,20 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 	return res
 }
 
+// isGlyphName reports whether the parser can read name as the name of a glyph.
+func isGlyphName(name string) bool {
+	switch name {
+	case "", "class", "inputclass", "backtrackclass", "lookaheadclass":
+		return false
+	}
+	for i, r := range name {
+		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return true
+}
+
 // quoteRune returns a string token for a single rune, using only the escape
 // sequences which are understood by decodeString.
 func quoteRune(r rune) string {
@@ -372,13 +386,15 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 
 	names := make([]string, fontInfo.NumGlyphs())
-	for i := range names {
+	seen := make(map[string]bool)
+	for i := len(names) - 1; i >= 0; i-- {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if isGlyphName(name) && !seen[name] {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
 		}
+		seen[name] = true
 	}
 
 	return &explainer{
-- 
2.43.0


From bff11877fa319f4f5a6ca998d0d757eb1b81e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:01 +0000
Subject: [PATCH 83/98] fix: fonts in bold weight are bold when they are read,
 not only after a write/read cycle

---
 read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/read.go b/read.go
index e5f3bb4..5307a5d 100644
--- a/read.go
+++ b/read.go
@@ -434,6 +434,13 @@ func Read(r io.Reader) (*Font, error) {
 		!strings.Contains(nameTable.Subfamily, "Extra Bold") {
 		info.IsBold = true
 	}
+	// The subfamily name which we write for the font may include "Bold",
+	// even if the name table did not.
+	if subfamily := info.Subfamily(); strings.Contains(subfamily, "Bold") &&
+		!strings.Contains(subfamily, "Semi Bold") &&
+		!strings.Contains(subfamily, "Extra Bold") {
+		info.IsBold = true
+	}
 
 	if !(info.IsItalic || info.IsBold) {
 		if os2Info != nil {
-- 
2.43.0


From 7e5326db3c3ee030f51a0a12fdac9522f4ce857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:05 +0000
Subject: [PATCH 84/98] fix: TrueType fonts without advance widths are
 unchanged by a write/read cycle

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index 5307a5d..02b6c70 100644
--- a/read.go
+++ b/read.go
@@ -277,6 +277,9 @@ func Read(r io.Reader) (*Font, error) {
 		var widths []funit.Int16
 		if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			widths = hmtxInfo.Widths
+		} else {
+			// this is what Write stores for fonts without advance widths
+			widths = make([]funit.Int16, len(ttGlyphs))
 		}
 
 		var names []string
-- 
2.43.0


From 204047bcffe460474f3c8535ab4f50210944b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:13 +0000
Subject: [PATCH 85/98] fix: fractional underline positions in CFF data are
 rounded when they are read

---
 read.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 02b6c70..24ba80f 100644
--- a/read.go
+++ b/read.go
@@ -403,8 +403,12 @@ func Read(r io.Reader) (*Font, error) {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
 	} else if fontInfo != nil {
-		info.UnderlinePosition = fontInfo.UnderlinePosition
-		info.UnderlineThickness = fontInfo.UnderlineThickness
+		// Round the values so that they can be represented in the post table.
+		r := func(x funit.Float64) funit.Float64 {
+			return funit.Float64(math.Round(min(max(float64(x), math.MinInt16), math.MaxInt16)))
+		}
+		info.UnderlinePosition = r(fontInfo.UnderlinePosition)
+		info.UnderlineThickness = r(fontInfo.UnderlineThickness)
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
-- 
2.43.0


From eabf91890b392270168cbfc0da557719921c8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:40 +0000
Subject: [PATCH 86/98] fix: version strings with more than three decimals are
 rounded when they are read

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 24ba80f..5136ab8 100644
--- a/read.go
+++ b/read.go
@@ -323,11 +323,11 @@ func Read(r io.Reader) (*Font, error) {
 	}
 
 	if ver, ok := getNameTableVersion(nameTable); ok {
-		info.Version = ver
+		info.Version = ver.Round()
 	} else if headInfo != nil {
 		info.Version = headInfo.FontRevision.Round()
 	} else if ver, ok := getCFFVersion(fontInfo); ok {
-		info.Version = ver
+		info.Version = ver.Round()
 	}
 	if headInfo != nil {
 		info.CreationTime = headInfo.Created
-- 
2.43.0


From c61aa68331ab701878262a748be544582cf4e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:42 +0000
Subject: [PATCH 87/98] fix: use the same script for legacy kerning as after a
 write/read cycle

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 5136ab8..c3fae7d 100644
--- a/read.go
+++ b/read.go
@@ -538,7 +538,7 @@ func Read(r io.Reader) (*Font, error) {
 		subtables = append(subtables, subtable)
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0, Optional: []gtab.FeatureIndex{}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 69ec24212f8bd19420d16879f88304bfff7e56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:43 +0000
Subject: [PATCH 88/98] fix: fractional widths in CFF data are rounded when
 there is no hmtx table

---
 read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/read.go b/read.go
index c3fae7d..8994934 100644
--- a/read.go
+++ b/read.go
@@ -231,6 +231,11 @@ func Read(r io.Reader) (*Font, error) {
 			for i, w := range hmtxInfo.Widths {
 				cffInfo.Glyphs[i].Width = float64(w)
 			}
+		} else {
+			// Write stores the widths as integers in the "hmtx" table.
+			for _, g := range cffInfo.Glyphs {
+				g.Width = math.Round(min(max(g.Width, math.MinInt16), math.MaxInt16))
+			}
 		}
 	case header.ScalerTypeTrueType, header.ScalerTypeApple:
 		if headInfo == nil {
-- 
2.43.0


From 45654f7a21589f6dc3cdadd267ec285542c5decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 89/98] fix: overlapping strings in the name table can use
 excessive memory

---
 name/name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/name/name.go b/name/name.go
index 9e4d609..083e2b1 100644
--- a/name/name.go
+++ b/name/name.go
@@ -77,6 +77,7 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	totalLen := 0
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -102,6 +103,11 @@ recLoop:
 		if storageOffset+nameOffset+nameLen > len(data) {
 			return nil, errMalformedNames
 		}
+		totalLen += nameLen
+		if totalLen > 1<<22 {
+			// avoid excessive memory use for overlapping strings
+			return nil, errMalformedNames
+		}
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
 
 		// We ignore encodings we don't understand.
-- 
2.43.0


From 77ba9eb9b693d0b46d25bcd8f6a4cb89ca66915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 90/98] fix: overlapping kern subtables take quadratic time to
 read

---
 kern/kern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kern/kern.go b/kern/kern.go
index f9497fe..4046c21 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -97,6 +97,10 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		if err != nil {
 			return nil, err
 		}
+		if end := p.Pos() + 6*int64(nPairs); pos < end {
+			// Large subtables do not fit into the length field.
+			pos = end
+		}
 		for j := 0; j < int(nPairs); j++ {
 			buf, err := p.ReadBytes(6)
 			if err != nil {
-- 
2.43.0


From d98a55e3ed42fb843b8fa5831d2546bd31de9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 91/98] fix: cff.Read allocates memory for Private DICTs longer
 than the file

---
 cff/dict.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cff/dict.go b/cff/dict.go
index 88eea7d..dfc707e 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -542,6 +542,9 @@ func (d cffDict) readPrivate(p *parser.Parser, strings *cffStrings) (*privateInf
 		return nil, err
 	}
 
+	if int64(pdSize) > p.Size() {
+		return nil, invalidSince("Private DICT too long")
+	}
 	privateDictBlob := make([]byte, pdSize)
 	_, err = p.Read(privateDictBlob)
 	if err != nil {
-- 
2.43.0


From cb50da9c0d0c24c9c1cbbdcae0795ebd8540d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 92/98] fix: nested CFF subroutines can use unbounded time and
 memory

---
 cff/t2decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 48e7b28..e62dda3 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -27,6 +27,8 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	steps *int64 // remaining number of charstring operations
 }
 
 type ccStage int
@@ -116,6 +118,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			if len(stack) > maxStack {
 				return nil, errStackOverflow
 			}
+			if info.steps != nil {
+				*info.steps--
+				if *info.steps < 0 {
+					return nil, invalidSince("charstrings too complex")
+				}
+			}
 
 			op := t2op(code[0])
 
-- 
2.43.0


From d4a48b92bb303d6ff822ad8049f602b45c2bc20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 93/98] fix: overlapping data in font tables can use unbounded
 memory

---
 cff/read.go                   |  1 +
 opentype/classdef/classdef.go |  3 +++
 opentype/coverage/coverage.go |  3 +++
 opentype/coverage/set.go      |  3 +++
 opentype/gdef/gdef.go         |  1 +
 opentype/gtab/gpos.go         |  6 ++++++
 opentype/gtab/gpos5.go        |  3 +++
 opentype/gtab/gtab.go         |  1 +
 parser/parser.go              | 28 ++++++++++++++++++++++++++++
 9 files changed, 49 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 4bffd78..df7c158 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -35,6 +35,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 	}
 
 	p := parser.New(r)
+	p.SetBudget(8<<20 + 32*p.Size())
 
 	// section 0: header
 	x, err := p.ReadUint32()
diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 02717ad..ba112dd 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -126,6 +126,9 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			prevEnd = endGlyphID
 
 			if classValue != 0 {
+				if err := p.Spend(2 * (int(endGlyphID) - int(startGlyphID))); err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index 689566b..574a7d8 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -132,6 +132,9 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			if err := p.Spend(2 * (endGlyphID - startGlyphID)); err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..6d444ec 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -100,6 +100,9 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			if err := p.Spend(2 * (endGlyphID - startGlyphID)); err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 741ddab..f09ba05 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -48,6 +48,7 @@ func (table *Table) IsMark(gid glyph.ID) bool {
 // Read reads the GDEF table.
 func Read(r parser.ReadSeekSizer) (*Table, error) {
 	p := parser.New(r)
+	p.SetBudget(4<<20 + 64*p.Size())
 	buf, err := p.ReadBytes(12)
 	if err != nil {
 		return nil, err
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index ecb5750..a09e463 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -156,6 +156,9 @@ func readGpos1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	coverageOffset := int64(buf[0])<<8 | int64(buf[1])
 	valueFormat := uint16(buf[2])<<8 | uint16(buf[3])
 	valueCount := int(buf[4])<<8 | int(buf[5])
+	if err := p.Spend(2 * valueCount); err != nil {
+		return nil, err
+	}
 	valueRecords := make([]*GposValueRecord, valueCount)
 	for i := range valueRecords {
 		valueRecords[i], err = readValueRecord(p, valueFormat)
@@ -517,6 +520,9 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	if err := p.Spend(2 * (int(class1Count) + numRecords)); err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index e1b7989..ec8fcd0 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -120,6 +120,9 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			}
 		}
 
+		if err := p.Spend(2 * int(componentCount)); err != nil {
+			return nil, err
+		}
 		ligAttach := make([][]anchor.Table, componentCount)
 		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index 1854658..758405b 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -85,6 +85,7 @@ func Read(r parser.ReadSeekSizer, tp Type) (*Info, error) {
 
 func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error) {
 	p := parser.New(r)
+	p.SetBudget(4<<20 + 64*p.Size())
 
 	var header struct {
 		MajorVersion      uint16
diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..b89df58 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,9 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	limited bool
+	budget  int64
 }
 
 // ReadSeekSizer describes the requirements for a reader that can be used
@@ -51,6 +54,28 @@ func New(r ReadSeekSizer) *Parser {
 	return p
 }
 
+// SetBudget limits the amount of data which can be read from p to n bytes.
+// Malformed tables can use overlapping data to make small files decode to huge
+// data structures; the limit protects against excessive use of memory.
+func (p *Parser) SetBudget(n int64) {
+	p.limited = true
+	p.budget = n
+}
+
+// Spend subtracts n bytes from the budget set with [Parser.SetBudget].  This
+// must be used for data structures which are larger than the data they are read
+// from.
+func (p *Parser) Spend(n int) error {
+	p.budget -= int64(n)
+	if p.limited && p.budget < 0 {
+		return &InvalidFontError{
+			SubSystem: "sfnt/parser",
+			Reason:    "too much overlapping data",
+		}
+	}
+	return nil
+}
+
 // Size returns the total size of the underlying input file.
 func (p *Parser) Size() int64 {
 	return p.r.Size()
@@ -170,6 +195,9 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 	} else if n > bufferSize {
 		panic("buffer size exceeded")
 	}
+	if err := p.Spend(n); err != nil {
+		return nil, err
+	}
 
 	for p.pos+n > p.used {
 		if len(p.buf) == 0 {
-- 
2.43.0


From bf53b52f6d0d9a9c966da52dfdd33e3a6458b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 94/98] fix: nested CFF subroutines are not limited by cff.Read

---
 cff/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index df7c158..6ec700a 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -277,6 +277,10 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	cff.Glyphs = make([]*Glyph, nGlyphs)
 	fdSelect := cff.FDSelect
+	steps := 4<<20 + 64*p.Size() // limits the use of nested subroutines
+	for _, info := range decoders {
+		info.steps = &steps
+	}
 	for gid, code := range charStrings {
 		fdIdx := fdSelect(glyph.ID(gid))
 		info := decoders[fdIdx]
-- 
2.43.0


From 176a964fa9c43ef16f7e525900688a9f50c7b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 95/98] fix: gtab.Read returns tables which cannot be encoded

---
 opentype/gtab/gtab.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index 758405b..6dd9c9e 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -160,9 +160,39 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 
 	_ = FeatureVariationsOffset // TODO(voss): implement this
 
+	if err := info.checkSize(); err != nil {
+		return nil, err
+	}
+
 	return info, nil
 }
 
+// checkSize returns an error if the table is too large to be encoded.  This can
+// only happen for tables which contain overlapping data.
+func (info *Info) checkSize() (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    fmt.Sprint("table too large: ", r),
+			}
+		}
+	}()
+
+	tooLarge := 10+len(info.ScriptList.encode())+len(info.FeatureList.encode()) > 0xFFFF
+	for _, l := range info.LookupList {
+		for _, subtable := range l.Subtables {
+			if subtable.encodeLen() > 0xFFFF {
+				tooLarge = true
+			}
+		}
+	}
+	if tooLarge {
+		info.Encode() // panics, if the table cannot be encoded
+	}
+	return nil
+}
+
 // Encode returns the binary representation of a "GSUB" or "GPOS" table.
 func (info *Info) Encode() []byte {
 	scriptList := info.ScriptList.encode()
-- 
2.43.0


From b8184743bcb1543706ffd29224b79ddf7c729a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:11 +0000
Subject: [PATCH 96/98] fix: MakeGlyphNames panics if the GSUB table refers to
 missing glyphs

---
 names.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 9a552a0..593832e 100644
--- a/names.go
+++ b/names.go
@@ -121,6 +121,9 @@ func (f *Font) MakeGlyphNames() []string {
 				case *gtab.Gsub1_1:
 					for _, origGid := range subtable.Cov.Glyphs() {
 						newGid := origGid + subtable.Delta
+						if int(max(origGid, newGid)) >= len(glyphNames) {
+							continue
+						}
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
 						}
@@ -131,6 +134,9 @@ func (f *Font) MakeGlyphNames() []string {
 					for _, origGid := range subtable.Cov.Glyphs() {
 						idx := subtable.Cov[origGid]
 						newGid := subtable.SubstituteGlyphIDs[idx]
+						if int(max(origGid, newGid)) >= len(glyphNames) {
+							continue
+						}
 						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
 							continue
 						}
@@ -140,11 +146,11 @@ func (f *Font) MakeGlyphNames() []string {
 				case *gtab.Gsub3_1:
 					for _, origGid := range subtable.Cov.Glyphs() {
 						idx := subtable.Cov[origGid]
-						if glyphNames[origGid] == "" {
+						if int(origGid) >= len(glyphNames) || glyphNames[origGid] == "" {
 							continue
 						}
 						for _, newGid := range subtable.Alternates[idx] {
-							if glyphNames[newGid] == "" {
+							if int(newGid) < len(glyphNames) && glyphNames[newGid] == "" {
 								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 								again = true
 							}
@@ -154,6 +160,9 @@ func (f *Font) MakeGlyphNames() []string {
 					var nn []string
 					for _, origGid := range subtable.Cov.Glyphs() {
 						idx := subtable.Cov[origGid]
+						if int(origGid) >= len(glyphNames) {
+							continue
+						}
 						name := glyphNames[origGid]
 						if name == "" {
 							continue
@@ -161,8 +170,14 @@ func (f *Font) MakeGlyphNames() []string {
 						nn = append(nn[:0], name)
 					replLoop:
 						for _, lig := range subtable.Repl[idx] {
+							if int(lig.Out) >= len(glyphNames) {
+								continue
+							}
 							nn = nn[:1]
 							for _, gid := range lig.In {
+								if int(gid) >= len(glyphNames) {
+									continue replLoop
+								}
 								if name := glyphNames[gid]; name != "" {
 									nn = append(nn, name)
 								} else {
-- 
2.43.0


From a19ae64cde5f232cde2268472c404950fe2fcf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:16 +0000
Subject: [PATCH 97/98] fix: cursive attachment ignores the lookup flags

---
 opentype/gtab/gpos.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index a09e463..cb89fc7 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -671,20 +671,34 @@ func (l *Gpos3_1) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	rec := l.Records[idx]
-	if a > 0 {
-		prevGlyph := seq[a-1] // TODO(voss): use ctx.Keep?
+
+	// The lookup flags decide which of the neighbouring glyphs are skipped.
+	p := a - 1
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
+		p--
+	}
+	if p >= 0 {
+		prevGlyph := seq[p]
 		prev, ok := l.Cov[prevGlyph.GID]
 		if ok {
 			prevRec := l.Records[prev]
 			seq[a].YOffset = prevGlyph.YOffset + prevRec.Exit.Y - rec.Entry.Y
 		}
 	}
-	if a < b-1 {
-		nextGlyph := seq[a+1] // TODO(voss): use ctx.Keep?
+	q := a + 1
+	for q < b && !ctx.keep.Keep(seq[q].GID) {
+		q++
+	}
+	if q < b {
+		nextGlyph := seq[q]
 		next, ok := l.Cov[nextGlyph.GID]
 		if ok {
 			nextRec := l.Records[next]
-			seq[a].Advance = seq[a].XOffset + rec.Exit.X - nextGlyph.XOffset - nextRec.Entry.X
+			advance := seq[a].XOffset + rec.Exit.X - nextGlyph.XOffset - nextRec.Entry.X
+			for _, g := range seq[a+1 : q] {
+				advance -= g.Advance
+			}
+			seq[a].Advance = advance
 		}
 	}
 
-- 
2.43.0


From 5a8c7144f2c2507d4d961c61e709cfa15788564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:19 +0000
Subject: [PATCH 98/98] fix: os2: read the code page ranges of version 1 tables

---
 os2/os2.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/os2/os2.go b/os2/os2.go
index 1a96d29..7549b21 100644
--- a/os2/os2.go
+++ b/os2/os2.go
@@ -163,13 +163,15 @@ func Read(r io.Reader) (*Info, error) {
 	info.WinAscent = v0ms.WinAscent
 	info.WinDescent = v0ms.WinDescent
 
-	if v0.Version < 2 {
+	if v0.Version < 1 {
 		return info, nil
 	}
 
 	var codePageRange [8]byte
 	err = binary.Read(r, binary.BigEndian, codePageRange[:])
-	if err != nil {
+	if err == io.EOF && v0.Version < 2 {
+		return info, nil
+	} else if err != nil {
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
@@ -184,6 +186,10 @@ func Read(r io.Reader) (*Info, error) {
 		CodePageRange(codePageRange[6])<<40 |
 		CodePageRange(codePageRange[7])<<32
 
+	if v0.Version < 2 {
+		return info, nil
+	}
+
 	v2 := &v2Data{}
 	err = binary.Read(r, binary.BigEndian, v2)
 	if err != nil {
-- 
2.43.0

