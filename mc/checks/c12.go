package checks

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"

	"verif/mc/explore"
	"verif/mc/run"
)

// refHmtx decodes hhea/hmtx by hand.
func refHmtx(hhea, hm []byte, n int) (widths, lsb []int, err error) {
	if len(hhea) != 36 || rdU32(hhea, 0) != 0x10000 || rdU16(hhea, 32) != 0 {
		return nil, nil, fmt.Errorf("bad hhea")
	}
	nl := rdU16(hhea, 34)
	if nl < 1 || nl > n {
		return nil, nil, fmt.Errorf("numberOfHMetrics %d for %d glyphs", nl, n)
	}
	if len(hm) != 4*nl+2*(n-nl) {
		return nil, nil, fmt.Errorf("hmtx has %d bytes for %d glyphs, %d long", len(hm), n, nl)
	}
	for i := 0; i < n; i++ {
		if i < nl {
			widths = append(widths, rdU16(hm, 4*i))
			lsb = append(lsb, rdI16(hm, 4*i+2))
		} else {
			widths = append(widths, widths[nl-1])
			lsb = append(lsb, rdI16(hm, 4*nl+2*(i-nl)))
		}
	}
	return widths, lsb, nil
}

// hheaDerived computes advanceWidthMax, minLSB, minRSB, xMaxExtent from the
// definitions in the OpenType specification.
func hheaDerived(widths, lsb []int, boxes []funit.Rect16) (aw, minL, minR, ext int, ok bool) {
	first := true
	for i, w := range widths {
		aw = max(aw, w)
		b := boxes[i]
		if b.IsZero() {
			continue
		}
		l := lsb[i]
		x := l + int(b.URx) - int(b.LLx)
		r := w - x
		if first {
			minL, minR, ext = l, r, x
			first = false
		}
		minL, minR, ext = min(minL, l), min(minR, r), max(ext, x)
	}
	for _, v := range []int{minL, minR, ext} {
		if v < -32768 || v > 32767 {
			return aw, minL, minR, ext, false
		}
	}
	return aw, minL, minR, ext, true
}

func c12hmtx(c *explore.Ctx, info *hmtx.Info) {
	in := *info
	hhea, hm := info.Encode()
	if d := deepDiff(&in, info); d != "" {
		c.Fail("c12:hmtx-mutates", "Encode changed its argument: %s", d)
	}
	n := len(info.Widths)
	w, l, err := refHmtx(hhea, hm, n)
	if err != nil {
		c.Fail("c12:hmtx-bytes", "%v", err)
	}
	var lsb []int
	for i := range n {
		if info.LSB != nil {
			lsb = append(lsb, int(info.LSB[i]))
		} else {
			lsb = append(lsb, int(info.GlyphExtents[i].LLx))
		}
		if w[i] != int(uint16(info.Widths[i])) || l[i] != lsb[i] {
			c.Fail("c12:hmtx-bytes", "glyph %d of %d: width %d lsb %d, want %d %d", i, n, w[i], l[i], info.Widths[i], lsb[i])
		}
	}
	if rdI16(hhea, 4) != int(info.Ascent) || rdI16(hhea, 6) != int(info.Descent) || rdI16(hhea, 8) != int(info.LineGap) || rdI16(hhea, 22) != int(info.CaretOffset) {
		c.Fail("c12:hhea-bytes", "vertical metrics wrong: % x", hhea)
	}
	if info.GlyphExtents != nil {
		aw, minL, minR, ext, ok := hheaDerived(w, lsb, info.GlyphExtents)
		if ok {
			if g := []int{rdU16(hhea, 10), rdI16(hhea, 12), rdI16(hhea, 14), rdI16(hhea, 16)}; g[0] != aw || g[1] != minL || g[2] != minR || g[3] != ext {
				c.Fail("c12:hhea-derived", "advanceWidthMax,minLSB,minRSB,xMaxExtent = %v, want %v", g, []int{aw, minL, minR, ext})
			}
		}
	}
	dec, err := hmtx.Decode(hhea, hm)
	if err != nil {
		c.Fail("c12:hmtx-decode", "%v", err)
	}
	want := *info
	want.GlyphExtents = nil
	want.LSB = nil
	for _, x := range lsb {
		want.LSB = append(want.LSB, funit.Int16(x))
	}
	got := *dec
	if a, b := got.CaretAngle, want.CaretAngle; math.Abs(a-b) > 2e-5 {
		c.Fail("c12:caret", "angle %v decoded as %v", b, a)
	}
	got.CaretAngle, want.CaretAngle = 0, 0
	if d := deepDiff(&want, &got); d != "" {
		c.Fail("c12:hmtx-roundtrip", "%s", d)
	}
	c.Obs(cat(hhea, hm))
}

// bezierRange returns the exact range of a cubic.
func bezierRange(p0, p1, p2, p3 float64) (lo, hi float64) {
	lo, hi = min(p0, p3), max(p0, p3)
	at := func(t float64) {
		if t > 0 && t < 1 {
			s := 1 - t
			v := s*s*s*p0 + 3*s*s*t*p1 + 3*s*t*t*p2 + t*t*t*p3
			lo, hi = min(lo, v), max(hi, v)
		}
	}
	a, b, d := p3-3*p2+3*p1-p0, 2*(p2-2*p1+p0), p1-p0
	if a == 0 {
		if b != 0 {
			at(-d / b)
		}
		return
	}
	if disc := b*b - 4*a*d; disc >= 0 {
		s := math.Sqrt(disc)
		at((-b + s) / (2 * a))
		at((-b - s) / (2 * a))
	}
	return
}

type fbox struct{ x0, y0, x1, y1 float64 }

// cffBounds computes the bounding box of a CFF glyph under an affine map.
func cffBounds(g *cff.Glyph, m matrix.Matrix) (res fbox, ok bool) {
	var px, py float64
	add := func(x, y float64) {
		if !ok {
			res = fbox{x, y, x, y}
			ok = true
		}
		res = fbox{min(res.x0, x), min(res.y0, y), max(res.x1, x), max(res.y1, y)}
	}
	app := func(x, y float64) (float64, float64) {
		return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
	}
	for _, cmd := range g.Cmds {
		switch cmd.Op {
		case cff.OpMoveTo, cff.OpLineTo:
			px, py = app(cmd.Args[0], cmd.Args[1])
			add(px, py)
		case cff.OpCurveTo:
			x1, y1 := app(cmd.Args[0], cmd.Args[1])
			x2, y2 := app(cmd.Args[2], cmd.Args[3])
			x3, y3 := app(cmd.Args[4], cmd.Args[5])
			a, b := bezierRange(px, x1, x2, x3)
			d, e := bezierRange(py, y1, y2, y3)
			add(a, d)
			add(b, e)
			px, py = x3, y3
		}
	}
	return
}

func close6(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func c12rectPDF(c *explore.Ctx, what string, got rect.Rect, want fbox, ok bool) {
	if !ok {
		if !got.IsZero() {
			c.Fail("c12:query-bbox", "%s: %v for a blank glyph", what, got)
		}
		return
	}
	if !close6(got.LLx, want.x0) || !close6(got.LLy, want.y0) || !close6(got.URx, want.x1) || !close6(got.URy, want.y1) {
		c.Fail("c12:query-bbox", "%s: %v, want %v", what, got, want)
	}
}

func mulM(a, b matrix.Matrix) matrix.Matrix { // a first, then b
	return matrix.Matrix{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

// c12queries checks the metric queries against the outlines.
func c12queries(c *explore.Ctx, f *sfnt.Font) (boxes []funit.Rect16) {
	n := f.NumGlyphs()
	var widths, widthsPDF []float64 // the latter in 1/1000 em
	var pdf []fbox
	var pdfOK []bool
	mats := make([]matrix.Matrix, n)
	for i := range n {
		fm := f.FontMatrix
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			widths = append(widths, float64(o.Widths[i]))
			widthsPDF = append(widthsPDF, float64(o.Widths[i])*1000/float64(f.UnitsPerEm))
			var b funit.Rect16
			if o.Glyphs[i] != nil {
				b = o.Glyphs[i].Rect16
				x0, y0 := float64(b.LLx)*fm[0], float64(b.LLy)*fm[3]
				x1, y1 := float64(b.URx)*fm[0], float64(b.URy)*fm[3]
				pdf = append(pdf, fbox{x0 * 1000, y0 * 1000, x1 * 1000, y1 * 1000})
			} else {
				pdf = append(pdf, fbox{})
			}
			pdfOK = append(pdfOK, o.Glyphs[i] != nil)
			boxes = append(boxes, b)
		case *cff.Outlines:
			g := o.Glyphs[i]
			widths = append(widths, g.Width)
			if o.IsCIDKeyed() {
				fm = mulM(o.FontMatrices[o.FDSelect(glyph.ID(i))], fm)
			}
			// displacement of the origin along the baseline
			q := fm[0]
			if fm[3] != 0 {
				q -= fm[1] * fm[2] / fm[3]
			}
			widthsPDF = append(widthsPDF, g.Width*q*1000)
			b, ok := cffBounds(g, matrix.Identity)
			var r funit.Rect16
			if ok {
				r = funitR(int(math.Floor(b.x0)), int(math.Floor(b.y0)), int(math.Ceil(b.x1)), int(math.Ceil(b.y1)))
			}
			boxes = append(boxes, r)
			pb, ok := cffBounds(g, mulM(fm, matrix.Matrix{1000, 0, 0, 1000, 0, 0}))
			pdf = append(pdf, pb)
			pdfOK = append(pdfOK, ok)
		}
		mats[i] = fm
	}

	gw, gp := f.Widths(), f.WidthsPDF()
	bb := f.GlyphBBoxes()
	if len(gw) != n || len(gp) != n || len(bb) != n {
		c.Fail("c12:query-length", "%d widths, %d PDF widths, %d boxes for %d glyphs", len(gw), len(gp), len(bb), n)
	}
	var fb funit.Rect16
	var fpdf fbox
	fpdfOK := false
	fixedW, fixedPitch := 0.0, true
	for i := range n {
		gid := glyph.ID(i)
		if gw[i] != widths[i] || f.GlyphWidth(gid) != widths[i] {
			c.Fail("c12:query-width", "glyph %d: Widths %v GlyphWidth %v, want %v", i, gw[i], f.GlyphWidth(gid), widths[i])
		}
		if !close6(f.GlyphWidthPDF(gid), widthsPDF[i]) {
			c.Fail("c12:query-width-pdf", "glyph %d: GlyphWidthPDF %v, want %v", i, f.GlyphWidthPDF(gid), widthsPDF[i])
		}
		if !close6(gp[i]*1000, widthsPDF[i]) { // PDF text space units
			c.Fail("c12:query-widths-pdf", "glyph %d: WidthsPDF %v, want %v", i, gp[i], widthsPDF[i]/1000)
		}
		if bb[i] != boxes[i] || f.GlyphBBox(gid) != boxes[i] {
			c.Fail("c12:query-bbox", "glyph %d: GlyphBBoxes %v, GlyphBBox %v, want %v", i, bb[i], f.GlyphBBox(gid), boxes[i])
		}
		c12rectPDF(c, fmt.Sprintf("GlyphBBoxPDF(%d)", i), f.Outlines.GlyphBBoxPDF(f.FontMatrix, gid), pdf[i], pdfOK[i])
		if !boxes[i].IsZero() {
			fb.Extend(boxes[i])
		}
		if pdfOK[i] {
			if !fpdfOK {
				fpdf, fpdfOK = pdf[i], true
			}
			p := pdf[i]
			fpdf = fbox{min(fpdf.x0, p.x0), min(fpdf.y0, p.y0), max(fpdf.x1, p.x1), max(fpdf.y1, p.y1)}
		}
		if widths[i] != 0 {
			if fixedW == 0 {
				fixedW = widths[i]
			}
			fixedPitch = fixedPitch && fixedW == widths[i]
		}
	}
	if got := f.FontBBox(); got != fb {
		c.Fail("c12:query-fontbbox", "FontBBox %v, want %v", got, fb)
	}
	c12rectPDF(c, "FontBBoxPDF", f.FontBBoxPDF(), fpdf, fpdfOK)
	if f.IsFixedPitch() != fixedPitch {
		c.Fail("c12:query-fixed", "IsFixedPitch %v for widths %v", f.IsFixedPitch(), widths)
	}
	if f.IsCFF() {
		cf := f.AsCFF()
		c12rectPDF(c, "cff.FontBBoxPDF", cf.FontBBoxPDF(), fpdf, fpdfOK)
		if got := f.Outlines.(*cff.Outlines).BBox(); got != fb {
			c.Fail("c12:query-fontbbox", "cff BBox %v, want %v", got, fb)
		}
		ww := cf.WidthsPDF()
		for i := range n {
			if cf.Widths()[i] != widths[i] || !close6(cf.GlyphWidthPDF(glyph.ID(i)), widthsPDF[i]) || !close6(ww[i], widthsPDF[i]) {
				c.Fail("c12:query-cff-width", "glyph %d: cff.Font: %v %v %v, want %v %v", i, cf.Widths()[i], cf.GlyphWidthPDF(glyph.ID(i)), ww[i], widths[i], widthsPDF[i])
			}
		}
		for _, m := range []map[string]float64{f.WidthsMapPDF(), cf.WidthsMapPDF()} {
			o := cf.Outlines
			if o.IsCIDKeyed() {
				if m != nil {
					c.Fail("c12:query-map", "WidthsMapPDF not nil for a CID-keyed font")
				}
				continue
			}
			for i, g := range o.Glyphs {
				if w, ok := m[g.Name]; !ok || !close6(w, widthsPDF[i]) {
					c.Fail("c12:query-map", "WidthsMapPDF[%q] = %v, want %v", g.Name, w, widthsPDF[i])
				}
			}
		}
	} else if f.WidthsMapPDF() != nil {
		c.Fail("c12:query-map", "WidthsMapPDF not nil for a TrueType font")
	}
	return boxes
}

// sfntTables splits a font file, trusting only the directory.
func sfntTables(b []byte) (map[string][]byte, error) {
	n := rdU16(b, 4)
	res := map[string][]byte{}
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		if p+16 > len(b) {
			return nil, fmt.Errorf("directory truncated")
		}
		o, l := rdU32(b, p+8), rdU32(b, p+12)
		if o+l > len(b) {
			return nil, fmt.Errorf("table %q outside the file", b[p:p+4])
		}
		res[string(b[p:p+4])] = b[o : o+l]
	}
	return res, nil
}

func init() {
	// --- hmtx ---
	hm := func(c *explore.Ctx) {
		n := 1 + c.Choose("n", 6+boolInt(c.Thorough))
		info := &hmtx.Info{}
		vals := []funit.Int16{500, 0, 32767}
		for i := 0; i < n; i++ {
			info.Widths = append(info.Widths, explore.Pick(c, "w", vals))
		}
		mode := c.Choose("lsb", 3)
		ext := []funit.Rect16{funitR(10, 0, 300, 20), {}, funitR(-50, 0, 490, 10), funitR(0, 5, 600, 6)}
		if mode != 0 {
			for i := 0; i < n; i++ {
				info.GlyphExtents = append(info.GlyphExtents, ext[(i+mode)%4])
			}
		}
		if mode != 2 {
			for i := 0; i < n; i++ {
				info.LSB = append(info.LSB, []funit.Int16{-32768, 32767, 0, -1, 77}[i%5])
				if mode == 1 {
					info.LSB[i] = info.GlyphExtents[i].LLx
				}
			}
		}
		switch c.Dev("vertical", 5) {
		case 1:
			info.Ascent, info.Descent, info.LineGap = 32767, -32768, 1
		case 2:
			info.Ascent, info.Descent, info.LineGap = -1, 1, -32768
		case 3:
			info.CaretOffset = -32768
		case 4:
			for i := range info.Widths {
				info.Widths[i] ^= -1 // bit patterns beyond 32767
			}
			if info.GlyphExtents != nil {
				c.Skip()
			}
		}
		c.Exec()
		c.Log("%+v", info)
		c12hmtx(c, info)
	}
	derived := func(c *explore.Ctx) {
		n := 1 + c.Choose("n", 3)
		info := &hmtx.Info{}
		ext := []funit.Rect16{{}, funitR(10, 0, 300, 20), funitR(-50, -5, 490, 10), funitR(-600, 5, -100, 6), funitR(0, 0, 0, 700), funitR(500, 0, 900, 3)}
		own := c.Choose("lsb", 2)
		for i := 0; i < n; i++ {
			info.Widths = append(info.Widths, explore.Pick(c, "w", []funit.Int16{400, 0, 1000}))
			info.GlyphExtents = append(info.GlyphExtents, explore.Pick(c, "ext", ext))
			if own == 1 {
				info.LSB = append(info.LSB, explore.Pick(c, "lsb", []funit.Int16{0, -20, 33}))
			}
		}
		c.Exec()
		c.Log("%+v", info)
		c12hmtx(c, info)
	}
	long := func(c *explore.Ctx) {
		n := explore.Pick(c, "n", []int{1, 2, 255, 256, 257, 32767, 32768, 65534, 65535})
		tail := explore.Pick(c, "tail", []int{0, 1, 2, 3, 255, 256, 32768, 65534, 65535})
		if tail > n {
			c.Skip()
		}
		c.Exec()
		info := &hmtx.Info{}
		for i := 0; i < n; i++ {
			w := funit.Int16(100 + i%3*7)
			if i >= n-tail {
				w = 100
			}
			info.Widths = append(info.Widths, w)
			info.LSB = append(info.LSB, funit.Int16(i))
		}
		c.Log("n=%d tail=%d", n, tail)
		c12hmtx(c, info)
	}
	caret := func(c *explore.Ctx) {
		var rise, run int
		if c.Bool("small") {
			rise, run = c.Choose("rise", 81)-40, c.Choose("run", 81)-40
		} else {
			v := []int{1, 2, 3, 7, 100, 999, 1000, 2048, 12345, 16384, 32766, 32767}
			s := c.Choose("signs", 4)
			rise, run = explore.Pick(c, "rise", append(v, 0)), explore.Pick(c, "run", append(v, 0))
			if s&1 != 0 {
				rise = -rise
			}
			if s&2 != 0 {
				run = -run
			}
		}
		if rise == 0 && run == 0 {
			c.Skip()
		}
		c.Exec()
		c.Log("rise=%d run=%d", rise, run)
		enc := cat(be32(0x10000), make([]byte, 14), be16(rise&0xFFFF, run&0xFFFF), make([]byte, 14))
		info, err := hmtx.Decode(enc, nil)
		if err != nil {
			c.Fail("c12:caret", "%v", err)
		}
		if want := math.Atan2(float64(rise), float64(run)) - math.Pi/2; math.Abs(info.CaretAngle-want) > 1e-12 {
			c.Fail("c12:caret", "rise/run %d/%d decoded as %v, want %v", rise, run, info.CaretAngle, want)
		}
		enc2, _ := info.Encode()
		r2, u2 := rdI16(enc2, 18), rdI16(enc2, 20)
		if rise*u2 != run*r2 || rise*r2+run*u2 <= 0 {
			c.Fail("c12:caret", "rise/run %d/%d became %d/%d", rise, run, r2, u2)
		}
		info2, err := hmtx.Decode(enc2, nil)
		if err != nil || math.Abs(info2.CaretAngle-info.CaretAngle) > 1e-12 {
			c.Fail("c12:caret", "angle %v became %v (%v)", info.CaretAngle, info2.CaretAngle, err)
		}
		c.Obs(enc2)
	}
	angles := func(c *explore.Ctx) {
		k := c.Choose("k", 721) - 360
		sub := explore.Pick(c, "sub", []float64{0, 0.25, 0.001, 0.4999})
		c.Exec()
		a := (float64(k)/2 + sub) / 180 * math.Pi
		if a <= -1.5*math.Pi || a > math.Pi/2 {
			a -= 2 * math.Pi * math.Round((a+math.Pi/2)/(2*math.Pi))
		}
		c.Log("angle %v", a)
		info := &hmtx.Info{CaretAngle: a}
		enc, _ := info.Encode()
		info2, err := hmtx.Decode(enc, nil)
		if err != nil {
			c.Fail("c12:caret", "%v", err)
		}
		d := math.Mod(math.Abs(info2.CaretAngle-a), 2*math.Pi)
		if min(d, 2*math.Pi-d) > 2e-5 {
			c.Fail("c12:caret", "angle %v decoded as %v", a, info2.CaretAngle)
		}
		enc2, _ := info2.Encode()
		if !bytes.Equal(enc, enc2) {
			c.Fail("c12:caret", "angle %v: encoding not stable: % x / % x", a, enc, enc2)
		}
		c.Obs(enc)
	}

	// --- head ---
	headD := func(c *explore.Ctx) {
		info := &head.Info{UnitsPerEm: 1000}
		fl := c.Choose("flags", 256)
		info.HasYBaseAt0, info.HasXBaseAt0, info.IsNonlinear = fl&1 != 0, fl&2 != 0, fl&4 != 0
		info.IsBold, info.IsItalic, info.HasShadow = fl&8 != 0, fl&16 != 0, fl&32 != 0
		info.IsCondensed, info.IsExtended = fl&64 != 0, fl&128 != 0
		info.UnitsPerEm = explore.PickDev(c, "upem", []uint16{1000, 16, 16384, 2048, 65535})
		info.FontRevision = explore.PickDev(c, "rev", []head.Version{0x10000, 0, 1, 0x12345678, 0xFFFFFFFF})
		e := int64(-2082844800)
		times := []time.Time{
			time.Unix(e+1, 0), {}, time.Unix(e-1, 0), time.Unix(0, 0), time.Unix(e+1<<31, 0), time.Unix(e+1<<32-1, 0), time.Unix(e+1<<32, 0),
			time.Unix(1700000000, 999999999), time.Date(1903, 12, 31, 23, 59, 58, 5, time.UTC), time.Date(2300, 1, 1, 0, 0, 0, 0, time.FixedZone("a", 3600)),
			time.Unix(e-1<<40, 0), time.Unix(e+1<<45, 0), time.Date(1950, 5, 6, 7, 8, 9, 500000000, time.UTC),
		}
		info.Created = explore.PickDev(c, "created", times)
		info.Modified = explore.PickDev(c, "modified", times)
		bb := [][4]int{{0, 0, 0, 0}, {-32768, -1, 32767, 1}, {1, -32768, 2, 32767}, {5, 6, 7, 8}}
		b := explore.PickDev(c, "bbox", bb)
		info.FontBBox = funitR(b[0], b[1], b[2], b[3])
		info.LowestRecPPEM = explore.PickDev(c, "ppem", []uint16{7, 0, 65535})
		info.LocaFormat = explore.PickDev(c, "loca", []int16{0, 1})
		c.Exec()
		c.Log("%+v", info)
		enc := info.Encode()
		if len(enc) != 54 || rdU32(enc, 0) != 0x10000 || rdU32(enc, 12) != 0x5F0F3CF5 || rdU16(enc, 52) != 0 {
			c.Fail("c12:head-bytes", "% x", enc)
		}
		// flag positions
		fw, ms := rdU16(enc, 16), rdU16(enc, 44)
		ok := fw&1 != 0 == info.HasYBaseAt0 && fw>>1&1 != 0 == info.HasXBaseAt0 && (fw&0x14 != 0) == info.IsNonlinear &&
			ms&1 != 0 == info.IsBold && ms>>1&1 != 0 == info.IsItalic && ms>>4&1 != 0 == info.HasShadow &&
			ms>>5&1 != 0 == info.IsCondensed && ms>>6&1 != 0 == info.IsExtended && ms&^0x73 == 0
		sec := func(t time.Time) int {
			if t.IsZero() {
				return 0
			}
			return int(t.Unix() - e)
		}
		rd64 := func(p int) int { return int(int64(uint64(rdU32(enc, p))<<32 | uint64(rdU32(enc, p+4)))) }
		ok = ok && rdU32(enc, 4) == int(info.FontRevision) && rdU16(enc, 18) == int(info.UnitsPerEm) &&
			rd64(20) == sec(info.Created) && rd64(28) == sec(info.Modified) &&
			rdI16(enc, 36) == b[0] && rdI16(enc, 38) == b[1] && rdI16(enc, 40) == b[2] && rdI16(enc, 42) == b[3] &&
			rdU16(enc, 46) == int(info.LowestRecPPEM) && rdU16(enc, 50) == int(info.LocaFormat)
		if !ok {
			c.Fail("c12:head-bytes", "%+v encoded as % x", info, enc)
		}
		got, err := head.Read(bytes.NewReader(enc))
		if err != nil {
			c.Fail("c12:head-read", "%v", err)
		}
		want := *info
		if !want.Created.IsZero() {
			want.Created = time.Unix(want.Created.Unix(), 0)
		}
		if !want.Modified.IsZero() {
			want.Modified = time.Unix(want.Modified.Unix(), 0)
		}
		if d := deepDiff(&want, got); d != "" {
			c.Fail("c12:head-roundtrip", "%s", d)
		}
		c.Obs(enc)
	}

	// --- maxp ---
	maxpD := func(c *explore.Ctx) {
		info := &maxp.Info{NumGlyphs: explore.Pick(c, "n", []int{1, 2, 255, 256, 32767, 32768, 65534, 65535})}
		want := be32(0x5000)
		want = append(want, be16(info.NumGlyphs)...)
		if c.Bool("ttf") {
			v := make([]uint16, 13)
			for i := range v {
				v[i] = uint16(i*257 + 1)
			}
			if i := c.Choose("field", 14); i < 13 {
				v[i] = explore.Pick(c, "val", []uint16{0, 1, 255, 256, 0x8000, 65535})
			}
			info.TTF = &maxp.TTFInfo{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]}
			want[1], want[2] = 1, 0
			for _, x := range v {
				want = append(want, be16(int(x))...)
			}
		}
		c.Exec()
		c.Log("%+v %+v", info, info.TTF)
		enc := info.Encode()
		if !bytes.Equal(enc, want) {
			c.Fail("c12:maxp-bytes", "% x, want % x", enc, want)
		}
		got, err := maxp.Read(bytes.NewReader(enc))
		if err != nil {
			c.Fail("c12:maxp-read", "%v", err)
		}
		if d := deepDiff(info, got); d != "" {
			c.Fail("c12:maxp-roundtrip", "%s", d)
		}
		c.Obs(enc)
	}

	// --- OS/2 tables of all versions, as found in files ---
	os2Raw := func(c *explore.Ctx) {
		version := c.Choose("version", 6)
		size := []int{78, 86, 96, 96, 96, 100}[version]
		if version == 0 && c.Bool("short") {
			size = 68 // as defined by Apple
		}
		perm := 0
		for _, bit := range []int{1, 2, 3, 8, 9} {
			perm |= c.Choose("perm", 2) << bit
		}
		sel := 0
		for _, bit := range []int{0, 5, 6, 7, 9} {
			sel |= c.Choose("sel", 2) << bit
		}
		cp := -1
		if sel == 0 && perm == 0 {
			cp = c.Choose("code page", 65) - 1
		}
		c.Exec()
		b := make([]byte, size)
		put := func(pos, v int) { b[pos], b[pos+1] = byte(v>>8), byte(v) }
		for i := 2; i+1 < size && i < 90; i += 2 {
			if i >= 42 && i < 58 || i >= 78 && i < 86 {
				continue // bit fields
			}
			put(i, 300+7*i)
		}
		put(0, version)
		put(8, perm)
		put(62, sel)
		if cp >= 0 && size >= 86 {
			b[78+cp/32*4+3-cp%32/8] |= 1 << (cp % 8)
		}
		u16 := func(pos int) int {
			if pos+2 > size {
				return 0
			}
			return rdU16(b, pos)
		}
		i16 := func(pos int) funit.Int16 { return funit.Int16(int16(u16(pos))) }

		if version < 2 {
			perm &= 0xF
		}
		if version < 4 {
			sel &= 0x7F
		}
		want := &os2.Info{
			WeightClass: os2.Weight(u16(4)), WidthClass: os2.Width(u16(6)),
			IsRegular: sel&0x40 != 0, IsBold: sel&0x60 == 0x20, IsItalic: sel&0x41 == 1, IsOblique: sel&0x200 != 0,
			FirstCharIndex: uint16(u16(64)), LastCharIndex: uint16(u16(66)),
			Ascent: i16(68), Descent: i16(70), LineGap: i16(72), WinAscent: i16(74), WinDescent: i16(76),
			XHeight: i16(86), CapHeight: i16(88), AvgGlyphWidth: i16(2),
			SubscriptXSize: i16(10), SubscriptYSize: i16(12), SubscriptXOffset: i16(14), SubscriptYOffset: i16(16),
			SuperscriptXSize: i16(18), SuperscriptYSize: i16(20), SuperscriptXOffset: i16(22), SuperscriptYOffset: i16(24),
			StrikeoutSize: i16(26), StrikeoutPosition: i16(28), FamilyClass: int16(i16(30)),
			Panose: [10]byte(b[32:42]), Vendor: string(b[58:62]),
			PermNoSubsetting: perm&0x100 != 0, PermOnlyBitmap: perm&0x200 != 0,
		}
		switch { // the least restrictive permission counts
		case perm&8 != 0:
			want.PermUse = os2.PermEdit
		case perm&4 != 0:
			want.PermUse = os2.PermView
		case perm&2 != 0:
			want.PermUse = os2.PermRestricted
		default:
			want.PermUse = os2.PermInstall
		}
		if cp >= 0 && size >= 86 {
			want.CodePageRange = 1 << cp
		}
		got, err := os2.Read(bytes.NewReader(b))
		if err != nil {
			c.Fail("c12:os2-raw", "version %d rejected: %v", version, err)
		}
		if version == 2 { // undefined bits
			got.PermNoSubsetting, got.PermOnlyBitmap = want.PermNoSubsetting, want.PermOnlyBitmap
		}
		if d := deepDiff(want, got); d != "" {
			c.Fail("c12:os2-raw", "version %d, %d bytes: %s", version, size, d)
		}
		c.Obs(b)
	}

	// --- OS/2 ---
	os2D := func(c *explore.Ctx) {
		info := &os2.Info{Vendor: "ABCD", WeightClass: 400, WidthClass: 5, CapHeight: 700, XHeight: 450, LastCharIndex: 0x100}
		if st := c.Choose("style", 8); st < 4 {
			info.IsBold, info.IsItalic = st&1 != 0, st&2 != 0
		} else {
			info.IsRegular = true
			if st&2 != 0 {
				c.Skip()
			}
		}
		info.IsOblique = c.Bool("oblique")
		pm := c.Choose("perm", 16)
		info.PermUse = os2.Permissions(pm & 3)
		info.PermNoSubsetting, info.PermOnlyBitmap = pm&4 != 0, pm&8 != 0
		info.WeightClass = explore.PickDev(c, "weight", []os2.Weight{400, 1, 100, 999, 1000, 0, 65535})
		info.WidthClass = explore.PickDev(c, "width", []os2.Width{5, 1, 9, 0, 65535})
		if i := c.Dev("i16", 18*3+1); i > 0 {
			v := []funit.Int16{-32768, -1, 32767}[(i-1)%3]
			fs := []*funit.Int16{&info.Ascent, &info.Descent, &info.WinAscent, &info.WinDescent, &info.LineGap, &info.CapHeight, &info.XHeight,
				&info.AvgGlyphWidth, &info.SubscriptXSize, &info.SubscriptYSize, &info.SubscriptXOffset, &info.SubscriptYOffset,
				&info.SuperscriptXSize, &info.SuperscriptYSize, &info.SuperscriptXOffset, &info.SuperscriptYOffset, &info.StrikeoutSize, &info.StrikeoutPosition}
			p := fs[(i-1)/3]
			if (p == &info.CapHeight || p == &info.XHeight) && v < 0 {
				c.Skip()
			}
			*p = v
		}
		info.FamilyClass = explore.PickDev(c, "family", []int16{0, 0x0301, -1, -32768})
		if i := c.Dev("panose", 11); i > 0 {
			info.Panose[i-1] = 0xA7
		}
		info.Vendor = explore.PickDev(c, "vendor", []string{"ABCD", "    ", "a b ", "\x00\x01\xFE\xFF"})
		cp := c.Dev("codepage", 66)
		if cp == 65 {
			info.CodePageRange = math.MaxUint64
		} else if cp > 0 {
			info.CodePageRange.Set(os2.CodePage(cp - 1))
		}
		ur := c.Dev("unicoderange", 129)
		if ur > 0 {
			info.UnicodeRange.Set(os2.UnicodeRangeBit(ur - 1))
		}
		fc := explore.PickDev(c, "chars", [][2]uint16{{0x20, 0x100}, {0, 0}, {0xFFFF, 0xFFFF}, {0x20, 0xFFFF}, {0x8000, 0xFFFE}})
		info.FirstCharIndex, info.LastCharIndex = fc[0], fc[1]
		info.UnicodeRange.Bool(57, info.LastCharIndex == 0xFFFF) // by definition of the bit
		arg := *info
		if c.DevBool("stale bit") {
			arg.UnicodeRange.Bool(57, info.LastCharIndex != 0xFFFF)
		}
		c.Exec()
		c.Log("%+v", arg)
		want, before := *info, arg
		enc := arg.Encode()
		if d := deepDiff(&before, &arg); d != "" {
			c.Fail("c12:os2-mutates", "%s", d)
		}
		if len(enc) != 96 || rdU16(enc, 0) != 4 {
			c.Fail("c12:os2-bytes", "length %d version %d", len(enc), rdU16(enc, 0))
		}
		// independent field positions
		type fld struct {
			pos int
			v   int
		}
		perm := []int{0, 8, 4, 2}[info.PermUse] | boolInt(info.PermNoSubsetting)<<8 | boolInt(info.PermOnlyBitmap)<<9
		sel := boolInt(info.IsItalic) | boolInt(info.IsBold)<<5 | boolInt(info.IsRegular)<<6 | boolInt(info.IsOblique)<<9
		for _, q := range []fld{
			{2, int(info.AvgGlyphWidth)}, {4, int(info.WeightClass)}, {6, int(info.WidthClass)}, {8, perm},
			{10, int(info.SubscriptXSize)}, {12, int(info.SubscriptYSize)}, {14, int(info.SubscriptXOffset)}, {16, int(info.SubscriptYOffset)},
			{18, int(info.SuperscriptXSize)}, {20, int(info.SuperscriptYSize)}, {22, int(info.SuperscriptXOffset)}, {24, int(info.SuperscriptYOffset)},
			{26, int(info.StrikeoutSize)}, {28, int(info.StrikeoutPosition)}, {30, int(info.FamilyClass)},
			{64, int(info.FirstCharIndex)}, {66, int(info.LastCharIndex)}, {68, int(info.Ascent)}, {70, int(info.Descent)}, {72, int(info.LineGap)},
			{74, int(info.WinAscent)}, {76, int(info.WinDescent)}, {86, int(info.XHeight)}, {88, int(info.CapHeight)},
		} {
			if rdU16(enc, q.pos) != q.v&0xFFFF {
				c.Fail("c12:os2-bytes", "offset %d: %04x, want %04x", q.pos, rdU16(enc, q.pos), q.v&0xFFFF)
			}
		}
		if s := rdU16(enc, 62); s&^0x80 != sel {
			c.Fail("c12:os2-bytes", "fsSelection %04x, want %04x", s, sel)
		}
		if !bytes.Equal(enc[32:42], info.Panose[:]) || string(enc[58:62]) != info.Vendor {
			c.Fail("c12:os2-bytes", "panose/vendor")
		}
		for bit := 0; bit < 128; bit++ {
			w := info.UnicodeRange[bit/32]>>(bit%32)&1 != 0
			if rdU32(enc, 42+bit/32*4)>>(bit%32)&1 != 0 != w {
				c.Fail("c12:os2-bytes", "unicode range bit %d", bit)
			}
		}
		for bit := 0; bit < 64; bit++ {
			if rdU32(enc, 78+bit/32*4)>>(bit%32)&1 != 0 != (info.CodePageRange>>bit&1 != 0) {
				c.Fail("c12:os2-bytes", "code page bit %d", bit)
			}
		}
		got, err := os2.Read(bytes.NewReader(enc))
		if err != nil {
			c.Fail("c12:os2-read", "%v", err)
		}
		if d := deepDiff(&want, got); d != "" {
			c.Fail("c12:os2-roundtrip", "%s", d)
		}
		c.Obs(enc)
	}

	// --- post ---
	postD := func(c *explore.Ctx) {
		info := &post.Info{}
		a := explore.Pick(c, "angle", []int{0, 1, -1, 65536, -65536, -786432, 32768, 0x7FFFFFFF, -0x80000000, 823214, -823215})
		info.ItalicAngle = float64(a) / 65536
		info.UnderlinePosition = explore.Pick(c, "pos", []funit.Int16{0, -100, 32767, -32768})
		info.UnderlineThickness = explore.Pick(c, "thick", []funit.Int16{0, 50, 32767, -32768})
		info.IsFixedPitch = c.Bool("fixed")
		c.Exec()
		c.Log("%+v", info)
		enc := info.Encode()
		want := cat(be32(0x30000, a&0xFFFFFFFF), be16(int(info.UnderlinePosition)&0xFFFF, int(info.UnderlineThickness)&0xFFFF), be32(boolInt(info.IsFixedPitch)), make([]byte, 16))
		if !bytes.Equal(enc, want) {
			c.Fail("c12:post-bytes", "% x, want % x", enc, want)
		}
		got, err := post.Read(bytes.NewReader(enc))
		if err != nil {
			c.Fail("c12:post-read", "%v", err)
		}
		if d := deepDiff(info, got); d != "" {
			c.Fail("c12:post-roundtrip", "%s", d)
		}
		c.Obs(enc)
	}

	// --- CFF extents ---
	extent := func(c *explore.Ctx) {
		g := cff.NewGlyph("x", 500)
		v := []float64{0, 100, -60.5, 40}
		if c.Thorough {
			v = append(v, 333.25)
		}
		g.MoveTo(10, 20)
		var p [6]float64
		for i := range p {
			p[i] = explore.Pick(c, "arg", v)
		}
		g.CurveTo(p[0], p[1], p[2], p[3], p[4], p[5])
		if c.Bool("line") {
			g.LineTo(-3.5, 77)
		}
		c.Exec()
		c.Log("%v", g.Cmds)
		o := &cff.Outlines{Glyphs: []*cff.Glyph{cff.NewGlyph(".notdef", 0), g}, FDSelect: func(glyph.ID) int { return 0 }}
		f := &sfnt.Font{UnitsPerEm: 1000, FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}, Outlines: o}
		b, _ := cffBounds(g, matrix.Identity)
		got := f.GlyphBBox(1)
		const eps = 1e-6
		okLo := func(g funit.Int16, w float64) bool { return int(g) == int(math.Floor(w)) || int(g) == int(math.Floor(w+eps)) }
		okHi := func(g funit.Int16, w float64) bool { return int(g) == int(math.Ceil(w)) || int(g) == int(math.Ceil(w-eps)) }
		if !okLo(got.LLx, b.x0) || !okLo(got.LLy, b.y0) || !okHi(got.URx, b.x1) || !okHi(got.URy, b.y1) {
			c.Fail("c12:cff-extent", "GlyphBBox %v for an outline covering %v", got, b)
		}
		m := matrix.Matrix{0.001, 0, 0.0003, 0.002, 0, 0}
		pb, _ := cffBounds(g, mulM(m, matrix.Matrix{1000, 0, 0, 1000, 0, 0}))
		c12rectPDF(c, "GlyphBBoxPDF", o.GlyphBBoxPDF(m, 1), pb, true)
		c.ObsStr(fmt.Sprint(got))
	}

	// --- general font matrices (in memory only) ---
	matD := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{fkCFF, fkCID1, fkCID3})
		g := &fontGen{c: c, dims: dimSet("cffshape", "fdselect")}
		f := g.font(kind)
		// rotations, reflections, shears in both directions, translations
		mm := []matrix.Matrix{
			{1, 0, 0, 1, 0, 0}, {2, 0, 0, 0.5, 0, 0}, {1, 0, 0.25, 1, 0, 0}, {1, 0.25, 0, 1, 0, 0}, {1, 0.5, -0.25, 2, 0, 0},
			{0.75, -0.5, 0.5, 0.75, 0, 0}, {1, 0, 0, 1, 30, -40}, {-1, 0, 0, -1, 0, 0}, {1.5, 0.5, 0.5, -1, 7, 9},
		}
		m := explore.Pick(c, "font matrix", mm)
		s := explore.Pick(c, "scale", []float64{0.001, 1.0 / 2048})
		for i := range m {
			f.FontMatrix[i] = m[i] * s
		}
		if o := f.Outlines.(*cff.Outlines); o.IsCIDKeyed() {
			k := c.Choose("first fd", len(mm))
			d := 1 + c.Choose("step", 3)
			for i := range o.FontMatrices {
				o.FontMatrices[i] = mm[(k+i*d)%len(mm)]
			}
		}
		c.Exec()
		c.Log("%v %v", f.FontMatrix, f.Outlines.(*cff.Outlines).FontMatrices)
		c12queries(c, f)
		c.ObsStr(fmt.Sprint(f.FontBBoxPDF(), f.WidthsPDF()))
	}

	// --- whole fonts ---
	fonts := func(c *explore.Ctx) {
		g := &fontGen{c: c, dims: dimSet("glyphs", "widths", "upem", "ttshape", "composite", "cffshape", "fdselect", "fdmatrix", "fontmatrix", "cmap", "style", "vmetrics", "underline", "angle", "perm", "codepages", "times", "version", "weight", "tttables")}
		f := g.font(c.Choose("kind", fkCount))
		c.Exec()
		c.Log("%v", g.desc)
		boxes := c12queries(c, f)
		data := fontBytes(c, "c12:write", f)
		t, err := sfntTables(data)
		if err != nil {
			c.Fail("c12:file", "%v", err)
		}
		n := f.NumGlyphs()
		w, l, err := refHmtx(t["hhea"], t["hmtx"], n)
		if err != nil {
			c.Fail("c12:file-hmtx", "%v", err)
		}
		sum, cnt := 0, 0
		for i := range n {
			if w[i] != int(f.GlyphWidth(glyph.ID(i))) {
				c.Fail("c12:file-hmtx", "glyph %d: width %d, want %v", i, w[i], f.GlyphWidth(glyph.ID(i)))
			}
			if l[i] != int(boxes[i].LLx) {
				c.Fail("c12:file-hmtx", "glyph %d: lsb %d for box %v", i, l[i], boxes[i])
			}
			if w[i] > 0 {
				sum += w[i]
				cnt++
			}
		}
		aw, minL, minR, ext, ok := hheaDerived(w, l, boxes)
		hh := t["hhea"]
		if gv := []int{rdU16(hh, 10), rdI16(hh, 12), rdI16(hh, 14), rdI16(hh, 16)}; ok && (gv[0] != aw || gv[1] != minL || gv[2] != minR || gv[3] != ext) {
			c.Fail("c12:file-hhea", "advanceWidthMax,minLSB,minRSB,xMaxExtent = %v, want %v", gv, []int{aw, minL, minR, ext})
		}
		if rdI16(hh, 4) != int(f.Ascent) || rdI16(hh, 6) != int(f.Descent) || rdI16(hh, 8) != int(f.LineGap) {
			c.Fail("c12:file-hhea", "vertical metrics")
		}
		rise, run := float64(rdI16(hh, 18)), float64(rdI16(hh, 20))
		if d := math.Abs(math.Atan2(rise, run) - math.Pi/2 - f.ItalicAngle/180*math.Pi); d > 2e-5 {
			c.Fail("c12:file-hhea", "caret slope %v/%v for italic angle %v", rise, run, f.ItalicAngle)
		}
		var fb funit.Rect16
		for _, b := range boxes {
			if !b.IsZero() {
				fb.Extend(b)
			}
		}
		hd := t["head"]
		if gb := funitR(rdI16(hd, 36), rdI16(hd, 38), rdI16(hd, 40), rdI16(hd, 42)); gb != fb {
			c.Fail("c12:file-fontbbox", "head box %v, want %v", gb, fb)
		}
		if rdU16(hd, 18) != int(f.UnitsPerEm) || rdU32(hd, 4) != int(f.Version) {
			c.Fail("c12:file-head", "unitsPerEm/revision")
		}
		if ms := rdU16(hd, 44); ms&1 != 0 != f.IsBold || ms&2 != 0 != (f.ItalicAngle != 0 || f.IsItalic) {
			c.Fail("c12:file-head-style", "macStyle %04x, bold %v italic %v angle %v", ms, f.IsBold, f.IsItalic, f.ItalicAngle)
		}
		o := t["OS/2"]
		if cnt > 0 {
			if avg := rdI16(o, 2); avg < sum/cnt || avg > (sum+cnt-1)/cnt {
				c.Fail("c12:file-avg", "xAvgCharWidth %d, average %d/%d", avg, sum, cnt)
			}
		} else if rdI16(o, 2) != 0 {
			c.Fail("c12:file-avg", "xAvgCharWidth %d without any advance", rdI16(o, 2))
		}
		if fb.URy >= 0 && rdU16(o, 74) != int(fb.URy) || fb.LLy <= 0 && rdU16(o, 76) != -int(fb.LLy) {
			c.Fail("c12:file-win", "usWinAscent %d usWinDescent %d for box %v", rdU16(o, 74), rdU16(o, 76), fb)
		}
		if rr := sortedRunes(g.chars); len(rr) > 0 {
			first, last := min(int(rr[0]), 0xFFFF), min(int(rr[len(rr)-1]), 0xFFFF)
			if rdU16(o, 64) != first || rdU16(o, 66) != last {
				c.Fail("c12:file-chars", "first/last %04x %04x, want %04x %04x", rdU16(o, 64), rdU16(o, 66), first, last)
			}
		}
		if rdI16(o, 68) != int(f.Ascent) || rdI16(o, 70) != int(f.Descent) || rdI16(o, 72) != int(f.LineGap) || rdI16(o, 86) != int(f.XHeight) || rdI16(o, 88) != int(f.CapHeight) {
			c.Fail("c12:file-os2", "vertical metrics")
		}
		p := t["post"]
		if rdI16(p, 8) != int(f.UnderlinePosition) || rdI16(p, 10) != int(f.UnderlineThickness) || int32(rdU32(p, 4)) != int32(math.Round(f.ItalicAngle*65536)) || (rdU32(p, 12) != 0) != f.IsFixedPitch() {
			c.Fail("c12:file-post", "% x", p[:16])
		}
		mx := t["maxp"]
		if rdU16(mx, 4) != n {
			c.Fail("c12:file-maxp", "numGlyphs %d, want %d", rdU16(mx, 4), n)
		}
		if og, ok := f.Outlines.(*glyf.Outlines); ok {
			if len(mx) != 32 || rdU16(mx, 6) != int(og.Maxp.MaxPoints) || rdU16(mx, 30) != int(og.Maxp.MaxComponentDepth) {
				c.Fail("c12:file-maxp", "% x", mx)
			}
		}
		// an independent reader
		if xf, err := xsfnt.Parse(data); err == nil {
			var buf xsfnt.Buffer
			if xf.NumGlyphs() != n || int(xf.UnitsPerEm()) != int(f.UnitsPerEm) {
				c.Fail("c12:ximage", "x/image: %d glyphs, %d units per em", xf.NumGlyphs(), xf.UnitsPerEm())
			}
			ppem := fixed.Int26_6(xf.UnitsPerEm()) << 6
			for i := range n {
				adv, err := xf.GlyphAdvance(&buf, xsfnt.GlyphIndex(i), ppem, font.HintingNone)
				if err != nil || adv != fixed.Int26_6(w[i])<<6 && w[i] < 20000 {
					c.Fail("c12:ximage", "x/image: advance of glyph %d is %v (%v), want %d", i, adv, err, w[i])
				}
			}
		}
		c.Obs(data)
	}
	run.Register(&run.Property{
		ID: "C12", Level: "model_checking",
		Rule: "one execution = one table value (hmtx/hhea, head, maxp, OS/2, post) encoded, decoded by hand at the field positions of the OpenType specification and by the library and compared field by field; or one generated font whose metric queries and derived file fields are recomputed from the outlines; distinct observations are distinct encodings",
		Drivers: []run.Driver{
			{Name: "hmtx", Run: hm, Dev: 1, Weight: 1, Bounds: "1-6 (thorough 7) glyphs, all width vectors over {500,0,32767}, 3 bearing modes, extremes"},
			{Name: "hhea-derived", Run: derived, Weight: 1, Bounds: "1-3 glyphs, all combinations of 3 widths, 6 boxes, 3 explicit bearings or implied ones"},
			{Name: "hmtx-long", Run: long, Weight: 1, Bounds: "9 glyph counts up to 65535 x 9 tail lengths"},
			{Name: "caret", Run: caret, Weight: 1, Bounds: "all (rise,run) in -40..40 squared and 13x13 extremes with all signs"},
			{Name: "caret-angles", Run: angles, Weight: 1, Bounds: "half degree steps over the full circle, 4 offsets"},
			{Name: "head", Run: headD, Dev: 2, DevThorough: 3, Weight: 1, Bounds: "all 256 flag combinations x <=2 (thorough 3) deviations over revision, units, 13 times twice, boxes"},
			{Name: "maxp", Run: maxpD, Weight: 1, Bounds: "8 glyph counts, each TrueType field over 6 values"},
			{Name: "os2", Run: os2D, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "all style x permission combinations x <=1 (thorough 2) deviations over every field, each code page bit and each Unicode range bit (bit 57 is derived)"},
			{Name: "os2-raw", Run: os2Raw, Weight: 1, Bounds: "hand-made tables of versions 0 (long and short) to 5 with all 32 embedding and 32 selection patterns, or one code page bit"},
			{Name: "post", Run: postD, Weight: 1, Bounds: "11 angles x 4 x 4 x 2"},
			{Name: "cff-extent", Run: extent, Weight: 1, Bounds: "one curve with all control points over 4 (thorough 5) values, optional line"},
			{Name: "matrices", Run: matD, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "metric queries of CFF fonts, simple or with 1 or 3 font dictionaries, for 9 font matrices (rotation, reflection, two shears, translation) x 2 scales x 27 assignments of matrices to font dictionaries"},
			{Name: "fonts", Run: fonts, Dev: 2, DevThorough: 3, Weight: 3, Bounds: "5 font kinds, <=2 (thorough 3) deviations over 20 feature dimensions"},
		},
	})
}
