package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/mc/explore"
	"verif/mc/run"
)

// C01: whole-font round trip.

// c01Version is the version number with three decimals, in 16.16.
func c01Version(v head.Version) head.Version {
	ms := math.Round(float64(v) / 65536 * 1000)
	return head.Version(math.Round(ms * 65536 / 1000))
}

// c01GlyphTop is the upper edge of a glyph.
func c01GlyphTop(f *sfnt.Font, gid glyph.ID) funit.Int16 {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		if g := o.Glyphs[gid]; g != nil {
			return g.URy
		}
	case *cff.Outlines:
		if b, ok := cffBounds(o.Glyphs[gid], matrix.Identity); ok {
			return funit.Int16(math.Ceil(b.y1))
		}
	}
	return 0
}

// c01NF returns the font which has to come back when f is written and read.
// The map gives the code points of the best cmap subtable.
func c01NF(f *sfnt.Font, chars map[rune]glyph.ID) *sfnt.Font {
	g := *f
	trunc := func(t time.Time) time.Time {
		if t.IsZero() {
			return t
		}
		return time.Unix(t.Unix(), 0)
	}
	g.CreationTime = trunc(f.CreationTime)
	g.ModificationTime = trunc(f.ModificationTime)
	g.Version = c01Version(f.Version)
	g.ItalicAngle = math.Round(f.ItalicAngle*65536) / 65536
	g.UnderlinePosition = funit.Float64(math.Round(float64(f.UnderlinePosition)))
	g.UnderlineThickness = funit.Float64(math.Round(float64(f.UnderlineThickness)))
	g.IsItalic = f.IsItalic || f.IsOblique || g.ItalicAngle != 0
	if g.IsItalic || g.IsBold {
		g.IsRegular = false
	}
	if f.IsGlyf() {
		q := 1 / float64(f.UnitsPerEm)
		g.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	}
	if gid := chars['H']; f.CapHeight == 0 && gid != 0 {
		g.CapHeight = c01GlyphTop(f, gid)
	}
	if gid := chars['x']; f.XHeight == 0 && gid != 0 {
		g.XHeight = c01GlyphTop(f, gid)
	}
	if f.Gsub == nil && !refFixedPitch(f) {
		g.Gsub = c01Ligatures(chars)
	}
	return &g
}

// refFixedPitch tells whether all glyphs with non-zero width have the same
// width.
func refFixedPitch(f *sfnt.Font) bool {
	w0 := 0.0
	for _, w := range f.Widths() {
		if w == 0 {
			continue
		}
		if w0 != 0 && w != w0 {
			return false
		}
		w0 = w
	}
	return true
}

// c01Ligatures is the substitute for a missing GSUB table.
func c01Ligatures(chars map[rune]glyph.ID) *gtab.Info {
	byFirst := map[glyph.ID][]gtab.Ligature{}
	for _, l := range []struct {
		r rune
		s string
	}{{0xFB03, "ffi"}, {0xFB04, "ffl"}, {0xFB00, "ff"}, {0xFB01, "fi"}, {0xFB02, "fl"}} {
		out := chars[l.r]
		var in []glyph.ID
		for _, r := range l.s {
			in = append(in, chars[r])
		}
		ok := out != 0
		for _, gid := range in {
			ok = ok && gid != 0
		}
		if ok {
			byFirst[in[0]] = append(byFirst[in[0]], gtab.Ligature{In: in[1:], Out: out})
		}
	}
	if len(byFirst) == 0 {
		return nil
	}
	s := &gtab.Gsub4_1{Cov: coverage.Table{}}
	for gid := range 65536 {
		if ll := byFirst[glyph.ID(gid)]; ll != nil {
			s.Cov[glyph.ID(gid)] = len(s.Repl)
			s.Repl = append(s.Repl, ll)
		}
	}
	return &gtab.Info{
		ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
		FeatureList: gtab.FeatureListInfo{{Tag: "liga", Lookups: []gtab.LookupIndex{0}}},
		LookupList:  gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 4}, Subtables: []gtab.Subtable{s}}},
	}
}

func c01Read(c *explore.Ctx, key string, data []byte) *sfnt.Font {
	f, err := sfnt.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail(key, "cannot read the font back: %v", err)
	}
	return f
}

// c01Cycle checks that a font which came out of the reader is a fixed point.
// It returns the bytes.
func c01Cycle(c *explore.Ctx, f1 *sfnt.Font, full bool) []byte {
	// a time stamp is needed to make the name table independent of the date
	if f1.ModificationTime.IsZero() && f1.CreationTime.IsZero() {
		g := *f1
		g.CreationTime = time.Unix(1700000000, 0)
		f1 = &g
	}
	var w1 []byte
	c.Protect("cycle:write", func() { w1 = fontBytes(c, "cycle:write", f1) })
	var f2 *sfnt.Font
	c.Protect("cycle:read", func() { f2 = c01Read(c, "cycle:read", w1) })
	if d := fontDiff(f1, f2); d != "" {
		c.Fail("cycle:"+c01Field(d), "the re-read font differs: %s", clip(d, 400))
	}
	w2 := fontBytes(c, "cycle:write2", f2)
	if !bytes.Equal(w1, w2) {
		c.Fail("cycle:bytes", "second generation differs from the first: %s", c01TableDiff(w1, w2))
	}
	if full {
		c01Orders(c, f1, w1)
	}
	return w1
}

// c01Orders writes the font under all map iteration orders.
func c01Orders(c *explore.Ctx, f *sfnt.Font, want []byte) {
	defer explore.SetMapOrder(0)
	for o := 1; o <= explore.MapOrders; o++ {
		explore.SetMapOrder(o)
		b := fontBytes(c, "orders:write", f)
		if !bytes.Equal(b, want) {
			c.Fail("orders", "writing the same font twice (map order %d) gives different bytes: %s", o, c01TableDiff(want, b))
		}
	}
}

func c01Field(d string) string {
	d = strings.TrimPrefix(d, ".")
	d = strings.TrimPrefix(d, "Outlines: ")
	for i, r := range d {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			d = d[:i]
			break
		}
	}
	return d
}

func c01TableDiff(a, b []byte) string {
	ta, err1 := sfntTables(a)
	tb, err2 := sfntTables(b)
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("byte %d", firstDiff(a, b))
	}
	for n, x := range ta {
		if y, ok := tb[n]; !ok || !bytes.Equal(x, y) {
			if n == "head" && len(x) == len(y) && len(x) > 12 {
				z := append([]byte(nil), y...)
				copy(z[8:12], x[8:12])
				if bytes.Equal(x, z) {
					continue
				}
			}
			return fmt.Sprintf("table %q at byte %d", n, firstDiff(x, y))
		}
	}
	return fmt.Sprintf("byte %d", firstDiff(a, b))
}

// c01Font checks a font value.
func c01Font(c *explore.Ctx, f *sfnt.Font, chars map[rune]glyph.ID, orders bool) {
	want := c01NF(f, chars)
	var b []byte
	c.Protect("write", func() { b = fontBytes(c, "write", f) })
	if b2 := fontBytes(c, "write", f); !bytes.Equal(b, b2) {
		c.Fail("orders", "writing the same font twice gives different bytes: %s", c01TableDiff(b, b2))
	}
	var f1 *sfnt.Font
	c.Protect("read", func() { f1 = c01Read(c, "read", b) })
	// CFF real numbers have nine digits
	for i := range want.FontMatrix {
		if near9(want.FontMatrix[i], f1.FontMatrix[i]) {
			want.FontMatrix[i] = f1.FontMatrix[i]
		}
	}
	if d := fontDiff(want, f1); d != "" {
		c.Fail("roundtrip:"+c01Field(d), "the font which was read back differs: %s", clip(d, 400))
	}
	c01Cycle(c, f1, false)
	if orders {
		c01Orders(c, f, b)
	}
	c.Obs(b)
}

func init() {
	features := func(c *explore.Ctx) {
		kind := c.Choose("kind", fkCount)
		g := &fontGen{c: c}
		f := g.font(kind)
		c.Log("%s", strings.Join(g.desc, " "))
		c.Exec()
		c01Font(c, f, g.chars, c.Deviations() <= 1)
	}

	// one scalar field at a time, over all boundary values
	scalars := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{fkTT, fkCFF, fkCID3})
		g := &fontGen{c: c, fixed: map[string]int{}}
		f := g.font(kind)
		int16s := []funit.Int16{-32768, -32767, -257, -256, -255, -129, -128, -127, -1, 0, 1, 127, 128, 129, 255, 256, 257, 32766, 32767}
		switch c.Choose("field", 15) {
		case 0:
			f.Version = head.Version(65536*explore.Pick(c, "int", []int{0, 1, 9, 10, 65535}) + 65536*c.Choose("ms", 1000)/1000)
			if f.Version == 0 {
				f.Version = 1
			}
		case 1:
			base := explore.Pick(c, "int", []uint32{0, 1 << 16, 65535 << 16})
			f.Version = head.Version(base + uint32(c.Choose("frac", 400))*163)
		case 2:
			f.Weight = os2.Weight(1 + c.Choose("weight", 1000))
			f.IsBold = c.Bool("bold")
			f.IsRegular = !f.IsBold && f.Weight.Rounded() != os2.WeightBold
			// a font in bold weight is bold
			if f.Weight.Rounded() == os2.WeightBold {
				f.IsBold = true
			}
		case 3:
			f.Width = os2.Width(1 + c.Choose("width", 9))
			f.Weight = os2.Weight(100 * (1 + c.Choose("weight", 9)))
			f.FamilyName = explore.Pick(c, "family", []string{"X", "X Bold", "Semi", "Condensed Bold Italic", "Regular", "Oblique"})
			switch c.Choose("style", 5) {
			case 1:
				f.IsItalic, f.ItalicAngle = true, -10
			case 2:
				f.IsOblique, f.IsItalic = true, true
			case 3:
				f.IsBold = true
			case 4:
				f.IsBold, f.IsItalic = true, true
			}
			f.IsRegular = !(f.IsBold || f.IsItalic)
			if f.Weight == os2.WeightBold && !strings.Contains(f.FamilyName, "Bold") {
				f.IsBold, f.IsRegular = true, false
			}
		case 4:
			f.ItalicAngle = float64(c.Choose("deg", 359)-179) + explore.Pick(c, "frac", []float64{0, 0.5, 1.0 / 65536, 0.1})
		case 5:
			f.Ascent = explore.Pick(c, "ascent", int16s)
			f.Descent = explore.Pick(c, "descent", int16s)
		case 6:
			f.LineGap = explore.Pick(c, "linegap", int16s)
		case 7:
			f.CapHeight = explore.Pick(c, "capheight", int16s)
			f.XHeight = explore.Pick(c, "xheight", int16s)
			if f.CapHeight < 0 || f.XHeight < 0 {
				c.Skip()
			}
		case 8:
			f.UnderlinePosition = funit.Float64(explore.Pick(c, "pos", int16s))
			f.UnderlineThickness = funit.Float64(explore.Pick(c, "thick", int16s))
		case 9:
			f.CodePageRange = 1 << c.Choose("bit", 64)
			if c.Bool("inv") {
				f.CodePageRange = ^f.CodePageRange
			}
		case 10:
			f.UnitsPerEm = explore.Pick(c, "upem", []uint16{16, 17, 250, 255, 256, 257, 999, 1000, 1001, 1024, 2048, 4095, 8192, 16383, 16384})
			q := 1 / float64(f.UnitsPerEm)
			f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
		case 11:
			secs := explore.Pick(c, "t", []int64{-2082844800 + 1, -2082844800 + 65536, -1, 1, 1<<31 - 1, 1 << 31, 1<<32 - 2082844800, 1<<32 - 2082844800 - 1, 1<<33 + 5, 253402300799, -62135596800 + 1})
			z := explore.Pick(c, "zone", []*time.Location{time.UTC, time.FixedZone("a", 3600*14), time.FixedZone("b", -3600*12+60)})
			t := time.Unix(secs, int64(c.Choose("ns", 2))*999999999).In(z)
			switch c.Choose("which", 3) {
			case 0:
				f.CreationTime = t
			case 1:
				f.ModificationTime = t
			case 2:
				f.CreationTime, f.ModificationTime = t, time.Time{}
			}
		case 12:
			// every string field on its own, and strings with special characters
			s := explore.Pick(c, "s", []string{"x", " ", "a b", "\u0080", "ÿ", "é", "\u0100", "\uFFFD", "\U00010000", "\U0010FFFF", "\x01", "a\x00b", "%()<>[]{}/", "日本", "\u2022\u2260"})
			p := []*string{&f.FamilyName, &f.Description, &f.SampleText, &f.Copyright, &f.Trademark, &f.License, &f.LicenseURL}[c.Choose("which", 7)]
			*p = s
		case 13:
			f.PermUse = []os2.Permissions{os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted}[c.Choose("perm", 4)]
			f.IsSerif = c.Bool("serif")
			if !f.IsSerif {
				f.IsScript = c.Bool("script")
			}
			f.IsRegular = c.Bool("regular")
		case 14:
			f.UnderlinePosition = funit.Float64(-100.5 + float64(c.Choose("q", 9))/8)
			f.UnderlineThickness = 50.25
		}
		c.Exec()
		c01Font(c, f, g.chars, false)
	}

	// fonts without GSUB table get standard ligatures
	ligatures := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{fkTT, fkCFF})
		present := c.Choose("chars", 256) // f i l and the five ligatures
		pitch := c.Choose("widths", 4)
		same := c.Bool("same")
		c.Exec()
		g := &fontGen{c: c, fixed: map[string]int{"cmap": 3, "widths": []int{0, 1, 5, 6}[pitch]}}
		f := g.font(kind)
		chars := map[rune]glyph.ID{}
		m := cmap.Format12{}
		for i, r := range []rune{'f', 'i', 'l', 0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04} {
			if present>>i&1 != 0 {
				gid := glyph.ID(i%6 + 1)
				if same && i == 1 {
					gid = 1 // f and i share a glyph
				}
				chars[r] = gid
				m[uint32(r)] = gid
			}
		}
		f.CMapTable = cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 10}: m.Encode(0)}
		c01Font(c, f, chars, false)
	}

	// many glyphs
	counts := func(c *explore.Ctx) {
		n := explore.Pick(c, "n", []int{1, 2, 3, 127, 128, 255, 256, 257, 258, 259, 1000, 32767, 32768, 65534, 65535})
		kind := explore.Pick(c, "kind", []int{fkTT, fkCFF, fkCID3})
		if kind == fkCFF && n > 64000 {
			n = 64500 - (65535 - n) // there are at most 65000 strings in a CFF font
		}
		c.Log("%d glyphs, %s", n, fkNames[kind])
		var f *sfnt.Font
		cm := explore.Pick(c, "cmap", []int{0, 1, 2})
		extra := c.Choose("layout", 3)
		c.Exec()
		g := &fontGen{c: c, fixed: map[string]int{}}
		f = g.font(kind)
		chars := map[rune]glyph.ID{}
		code := func(i int) rune {
			switch cm {
			case 0: // contiguous BMP
				return rune(0x100 + i)
			case 1: // above the BMP, contiguous
				return rune(0x10000 + i)
			}
			return rune(0x20 + 3*i) // isolated codes
		}
		ncode := min(n-1, []int{0xFE00, 0xFFFF, 3000}[cm])
		f12 := cmap.Format12{}
		for i := 1; i <= ncode; i++ {
			gid := glyph.ID(i)
			f12[uint32(code(i))] = gid
			chars[code(i)] = gid
		}
		f.CMapTable = cmap.Table{}
		if len(f12) > 0 {
			f.InstallCMap(f12)
		}
		f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
		if extra >= 1 && n > 2 {
			cov := coverage.Set{}
			for i := 1; i < n-1; i += extra {
				cov[glyph.ID(i)] = true
			}
			f.Gsub = &gtab.Info{
				ScriptList:  gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
				FeatureList: gtab.FeatureListInfo{{Tag: "ss01", Lookups: []gtab.LookupIndex{0}}},
				LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1},
					Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: cov, Delta: 1}}}},
			}
		}
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			gg := o.Glyphs
			o.Glyphs, o.Widths, o.Names = nil, nil, nil
			for i := range n {
				o.Glyphs = append(o.Glyphs, gg[i%len(gg)])
				o.Widths = append(o.Widths, funit.Int16(500+i%3))
				if extra != 2 {
					if n > 40000 {
						// at most 65278 names fit
						o.Names = append(o.Names, fmt.Sprintf("x%d", i%40000))
					} else {
						o.Names = append(o.Names, fmt.Sprintf("x%d", i))
					}
				}
			}
			o.Maxp = &maxp.TTFInfo{}
		case *cff.Outlines:
			gg := o.Glyphs
			o.Glyphs, o.GIDToCID = nil, nil
			for i := range n {
				gl := *gg[i%len(gg)]
				gl.Width = float64(500 + i%3)
				if kind == fkCFF {
					gl.Name = fmt.Sprintf("x%d", i)
					if i == 0 {
						gl.Name = ".notdef"
					}
				} else {
					cidv := i
					if extra == 1 {
						cidv = i ^ 1 // runs of length one
						if i == 0 || cidv >= n || cidv == 0 {
							cidv = i
						}
					}
					o.GIDToCID = append(o.GIDToCID, cid.CID(cidv))
				}
				o.Glyphs = append(o.Glyphs, &gl)
			}
			if kind == fkCFF {
				o.Encoding = make([]glyph.ID, 256)
				for i := 1; i < min(n, 200); i++ {
					o.Encoding[i] = glyph.ID(i)
				}
			}
		}
		c01Font(c, f, chars, n <= 1000)
	}

	run.Register(&run.Property{
		ID:    "C01",
		Level: "model_checking",
		Rule:  "every font value in the bounded feature space is written and read by the real code; the result is compared field by field with an independently computed normal form, one more cycle must give identical fonts and bytes, and every map iteration order must give the same bytes; files which are not in the library's own style (mutated, with missing or exchanged tables) must reach the fixed point after one cycle if they are accepted",
		Assumptions: []string{
			"deviation bound: fonts differ from the base font of their kind in at most the stated number of feature dimensions",
			"map iteration is controlled by fixing the start offset of the runtime's iterators",
		},
		Drivers: []run.Driver{
			{Name: "features", Run: features, Dev: 2, DevThorough: 3, Weight: 30, Bounds: "5 kinds of fonts, 27 feature dimensions with 2-9 values each, at most 2 deviations", BoundsThorough: "at most 3 deviations"},
			{Name: "scalars", Run: scalars, Weight: 2, Bounds: "each scalar field over its boundary values (versions: all thousandths; weights 1-1000; all width/weight/style combinations)"},
			{Name: "ligatures", Run: ligatures, Weight: 1, Bounds: "fonts without GSUB: all sets of the 8 characters involved x 4 width vectors x 2 glyph assignments"},
			{Name: "counts", Run: counts, Weight: 2, Bounds: "1..65535 glyphs (15 boundary counts) x 3 kinds x 3 cmaps x 3 layouts"},
			{Name: "mutate", Run: c01Mutate, Weight: 4, Bounds: "9 files x every byte x 6 values", BoundsThorough: "20 files x every byte x 20 values"},
			{Name: "cff-info", Run: c01CFFInfo, Weight: 2, Bounds: "files with a CFF table (3 kinds; each item of font information over boundary values) and any of 8 other tables (quick: at most two, or all but two)", BoundsThorough: "all sets of the 8 tables"},
			{Name: "variants", Run: c01Variants, Weight: 2, Bounds: "9 files with one table in a form which the library does not write (kern, OS/2 versions, post formats, name platforms, hhea/hmtx counts, head fields, cmap formats, maxp)"},
			{Name: "tables", Run: c01Tables, Weight: 2, Bounds: "9 files: every set of at most 3 tables removed; every table taken from another file", BoundsThorough: "at most 4 tables removed; two tables from other files"},
		},
	})
}

var c01Files []map[string][]byte
var c01FileNames []string

// c01Base returns the tables of a list of files; the first n (quick) are
// small.
func c01Base(c *explore.Ctx) ([]map[string][]byte, []string) {
	if c01Files == nil {
		specs := []struct {
			kind int
			v    map[string]int
		}{
			{fkTTComposite, map[string]int{"gsub": 2, "gpos": 2, "gdef": 2}},
			{fkCFF, map[string]int{"gsub": 3, "gpos": 4, "private": 1, "cffshape": 2}},
			{fkCID3, map[string]int{"gpos": 3, "cmap": 1, "cffshape": 1, "cids": 1}},
			{fkTT, map[string]int{"gpos": 1, "ttshape": 1, "names": 1, "tttables": 1, "cmap": 2}},
			{fkCFF, map[string]int{"encoding": 1, "names": 1, "cmap": 6}},
			{fkTTComposite, map[string]int{"names": 2, "composite": 1, "cmap": 5, "style": 2, "vmetrics": 3}},
			{fkCID1, map[string]int{"gdef": 1, "widths": 1, "cmap": 7, "vmetrics": 3}},
			{fkTT, map[string]int{"glyphs": 1, "cmap": 3}},
			{fkCFF, map[string]int{"angle": 4, "strings": 1, "cmap": 9, "style": 3}},
			// thorough
			{fkCFF, map[string]int{"encoding": 2, "widths": 3, "strings": 3}},
			{fkCID3, map[string]int{"fdmatrix": 1, "private": 3, "ros": 1, "cids": 3}},
			{fkTTComposite, map[string]int{"composite": 3, "ttshape": 3, "tttables": 3}},
			{fkTT, map[string]int{"gsub": 5, "gpos": 4, "widths": 2, "strings": 1}},
		}
		for i, s := range specs {
			f := fixedFont(s.kind, s.v)
			if s.v["angle"] != 0 {
				// values which are more precise in the CFF table
				f.UnderlinePosition, f.UnderlineThickness = -100.7, 49.25
				f.ItalicAngle = -12.3
				f.Weight, f.Width = 650, os2.WidthCondensed
				f.Copyright, f.Trademark = "© 2020", "T™"
			}
			buf := &bytes.Buffer{}
			if _, err := f.Write(buf); err != nil {
				c.Fail("base", "base file %d: %v", i, err)
			}
			t, err := sfntTables(buf.Bytes())
			if err != nil {
				c.Fail("base", "base file %d: %v", i, err)
			}
			c01Files = append(c01Files, t)
			c01FileNames = append(c01FileNames, fmt.Sprintf("%s %v", fkNames[s.kind], s.v))
		}
	}
	if c.Thorough {
		return c01Files, c01FileNames
	}
	return c01Files[:9], c01FileNames[:9]
}

func c01TableNames(t map[string][]byte) []string {
	var nn []string
	for n := range t {
		nn = append(nn, n)
	}
	sort.Strings(nn)
	return nn
}

func c01Scaler(t map[string][]byte) uint32 {
	if _, ok := t["CFF "]; ok {
		return 0x4F54544F
	}
	return 0x00010000
}

// c01Foreign checks the fixed point for a file which may be rejected.
func c01Foreign(c *explore.Ctx, data []byte) {
	var f1 *sfnt.Font
	var err error
	c.Protect("foreign:read", func() { f1, err = sfnt.Read(bytes.NewReader(data)) })
	if err != nil {
		c.ObsStr("rejected")
		return
	}
	c.Obs(c01Cycle(c, f1, false))
}

func c01Mutate(c *explore.Ctx) {
	files, names := c01Base(c)
	k := c.Choose("file", len(files))
	t := files[k]
	tn := c01TableNames(t)
	name := explore.Pick(c, "table", tn)
	b := t[name]
	if len(b) == 0 {
		c.Skip()
	}
	pos := c.Choose("pos", len(b))
	old := b[pos]
	vals := []byte{old + 1, old - 1, old ^ 0x80, 0, 0xFF, old ^ 1}
	if c.Thorough {
		vals = append(vals, old^2, old^4, old^8, old^16, old^32, old^64, 1, 2, 3, 0x10, 0x7F, 0x80, 0x81, 0xFE)
	}
	i := c.Choose("val", len(vals))
	v := vals[i]
	if v == old {
		c.Skip()
	}
	for _, w := range vals[:i] {
		if v == w {
			c.Skip()
		}
	}
	c.Log("%s: table %q, byte %d: %02x -> %02x", names[k], name, pos, old, v)
	c.Exec()
	nb := append([]byte(nil), b...)
	nb[pos] = v
	nt := map[string][]byte{}
	for n, x := range t {
		nt[n] = x
	}
	nt[name] = nb
	c01Foreign(c, sfntAssemble(c01Scaler(t), nt))
}

func c01Tables(c *explore.Ctx) {
	files, names := c01Base(c)
	k := c.Choose("file", len(files))
	t := files[k]
	tn := c01TableNames(t)
	nt := map[string][]byte{}
	for n, x := range t {
		nt[n] = x
	}
	mode := c.Choose("mode", 2)
	switch mode {
	case 0: // remove tables
		maxRemove := 3
		if c.Thorough {
			maxRemove = 4
		}
		start := 0
		for range maxRemove {
			i := start + c.Choose("remove", len(tn)-start+1)
			if i == len(tn) {
				break
			}
			delete(nt, tn[i])
			c.Log("without %q", tn[i])
			start = i + 1
			if start > len(tn) {
				break
			}
		}
	case 1: // take tables from other files
		cnt := 1
		if c.Thorough {
			cnt = 2
		}
		start := 0
		all := []string{"GDEF", "GPOS", "GSUB", "OS/2", "cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "cvt ", "gasp"}
		for range cnt {
			i := start + c.Choose("table", len(all)-start+1)
			if i >= len(all) {
				break
			}
			o := c.Choose("from", len(files))
			if x, ok := files[o][all[i]]; ok && o != k {
				nt[all[i]] = x
			} else {
				c.Skip()
			}
			c.Log("%q from %s", all[i], names[o])
			start = i + 1
		}
	}
	c.Log("file %s", names[k])
	c.Exec()
	c01Foreign(c, sfntAssemble(c01Scaler(t), nt))
}

// c01CFFInfo checks files where the information comes from the CFF table.
func c01CFFInfo(c *explore.Ctx) {
	names := []string{".notdef", "A", "H", "x", "space", "f"}
	var f *cff.Font
	width := func(i int) float64 { return float64(500 + 10*i) }
	switch c.Choose("kind", 3) {
	case 0:
		f = cffSimple(names, width)
	case 1:
		f = cffCID([]int{0, 1, 2, 3, 4, 5}, width, 1, func(int) int { return 0 })
	case 2: // fractional widths
		f = cffSimple(names, func(i int) float64 { return 500.25 + float64(i) })
	}
	fi := f.FontInfo
	tables := []string{"head", "hhea", "OS/2", "name", "post", "maxp", "cmap", "hmtx"}
	q := func(x float64) matrix.Matrix { return matrix.Matrix{x, 0, 0, x, 0, 0} }
	switch c.Choose("field", 12) {
	case 0:
		fi.UnderlinePosition = funit.Float64(explore.Pick(c, "x", []float64{-100.5, 99.5, -0.25, 32767, 32767.5, 32768, -32768, -32769, 1e6, -1e9, 0}))
	case 1:
		fi.UnderlineThickness = funit.Float64(explore.Pick(c, "x", []float64{0, 0.5, 1.49, 50.125, 32768, -1, 1e5}))
	case 2:
		fi.ItalicAngle = explore.Pick(c, "x", []float64{0, -12, -12.3, 1e-6, 0.00001, 179.99, -179.99, 1.0 / 3, 90, -90})
	case 3:
		fi.FontMatrix = explore.Pick(c, "x", []matrix.Matrix{q(0.0005), q(1.0 / 2048), q(1.0 / 16), q(1.0 / 16384), q(1.0 / 3), q(0.00031), {0.001, 0, 0.0002, 0.001, 0, 0}, {0.001, 0.0001, 0, 0.002, 0, 0}, {0.001, 0, 0, 0.001, 5, 7}, {-0.001, 0, 0, 0.001, 0, 0}, q(0.9), q(1), q(1.5), q(1e-6), q(1e-9), {0, 0.001, -0.001, 0, 0, 0}})
	case 4:
		fi.Version = explore.Pick(c, "x", []string{"", "1", "1.5", "001.003", "1.2345", "0.0004", "x", "-1.0", "65535.9999", "65536", "1.", ".5", "Version 2.000", "1.5;abc", "99999999999999999999", "1.0005"})
	case 5:
		fi.Weight = explore.Pick(c, "x", []string{"", "Bold", "bold", "Regular", "Book", "Thin", "Semi Bold", "SemiBold", "Demi", "Extra Bold", "Heavy", "Black", "Light", "Medium", "650", "w", "1001", "0"})
	case 6:
		fi.FamilyName = explore.Pick(c, "x", []string{"X", "X Bold", "X Italic", "Bold", "Ä", "\xff\xfe", "x\x00y", strings.Repeat("n", 300)})
	case 7:
		fi.Copyright = explore.Pick(c, "x", []string{"(c) A", "©", "\xa9", "Ä \u4e00", "\xff", "\x00"})
		fi.Notice = explore.Pick(c, "n", []string{"", "TM", "™", "\xa8"})
	case 8:
		fi.FontName = explore.Pick(c, "x", []string{"X", "X-Bold", "A B", "x(y)"})
		fi.FullName = explore.Pick(c, "n", []string{"", "X Bold Italic", "Y"})
		fi.IsFixedPitch = c.Bool("fixed")
	case 9:
		fi.FamilyName = "F"
		fi.Weight = explore.Pick(c, "w", []string{"Bold", "Regular", "Semi Bold", "Black"})
		fi.ItalicAngle = explore.Pick(c, "x", []float64{0, -10.01})
		fi.Version = explore.Pick(c, "v", []string{"", "1.234", "2"})
	case 10: // outlines with extreme or fractional coordinates
		x := explore.Pick(c, "x", []float64{0.5, 0.25, 1.0 / 65536, 32767, -32768, 1000.0 / 3, 0.3})
		gl := f.Glyphs[3]
		gl.Cmds = nil
		gl.MoveTo(x, 1)
		gl.LineTo(1, x)
		gl.CurveTo(1, 2, x, 4, 5, 6)
	case 11:
		p := f.Private[0]
		switch c.Choose("x", 5) {
		case 0:
			p.BlueScale = explore.Pick(c, "v", []float64{0, 0.0396, 0.5, 1.0 / 3})
		case 1:
			p.BlueShift, p.BlueFuzz = int32(c.Choose("s", 9)), int32(c.Choose("f", 3))
		case 2:
			p.StdHW, p.StdVW = 80.5, 1.0/3
		case 3:
			p.ForceBold = true
		case 4:
			p.BlueValues = []funit.Int16{-15, 0, 500, 510}
		}
	}
	present := c.Choose("tables", 1<<len(tables))
	if !c.Thorough {
		// all sets of at most two, or all but two, tables
		k := 0
		for i := range tables {
			k += present >> i & 1
		}
		if k > 2 && k < len(tables)-2 {
			c.Skip()
		}
	}
	c.Exec()
	buf := &bytes.Buffer{}
	if err := f.Write(buf); err != nil {
		c.ObsStr("not written")
		return
	}
	nt := map[string][]byte{"CFF ": buf.Bytes()}
	base := fixedFont(fkCFF, map[string]int{"cmap": 7, "glyphs": 0, "vmetrics": 3})
	o := base.Outlines.(*cff.Outlines)
	o.Glyphs = o.Glyphs[:6]
	o.Encoding = cff.StandardEncoding(o.Glyphs)
	base.CMapTable, base.Gsub = cmap.Table{}, nil
	base.InstallCMap(cmap.Format12{'A': 1, 'H': 2, 'x': 3, ' ': 4, 'f': 5})
	buf = &bytes.Buffer{}
	if _, err := base.Write(buf); err != nil {
		c.Fail("base", "%v", err)
	}
	bt, err := sfntTables(buf.Bytes())
	if err != nil {
		c.Fail("base", "%v", err)
	}
	for i, n := range tables {
		if present>>i&1 != 0 {
			nt[n] = bt[n]
			c.Log("with %q", n)
		}
	}
	c.Log("font info %+v", *fi)
	c01Foreign(c, sfntAssemble(0x4F54544F, nt))
}

// c01Variants replaces one table by a variant which the library would not
// write.
func c01Variants(c *explore.Ctx) {
	files, names := c01Base(c)
	k := c.Choose("file", len(files))
	t := files[k]
	n := rdU16(t["maxp"], 4)
	nt := map[string][]byte{}
	for name, x := range t {
		nt[name] = x
	}
	desc := ""
	switch c.Choose("table", 9) {
	case 0: // kern
		delete(nt, "GPOS")
		var pairs [][3]int
		for i := range c.Choose("pairs", 4) {
			pairs = append(pairs, [3]int{1 + i%2, 2 + i, -50 + 40*i})
		}
		s := kernSub{format: 0, flags: explore.Pick(c, "flags", []int{1, 0, 2, 3, 4, 5, 8, 9, 0x11}), pairs: pairs}
		subs := []kernSub{s}
		switch c.Choose("subs", 3) {
		case 1:
			subs = append(subs, kernSub{flags: 1, pairs: [][3]int{{1, 2, 7}, {2, 1, 9}}})
		case 2:
			subs = nil
		}
		nt["kern"] = kernTable(subs)
	case 1: // OS/2 versions and sizes
		b := append([]byte(nil), t["OS/2"]...)
		v := c.Choose("version", 7)
		b[1] = byte(v)
		b = b[:explore.Pick(c, "size", []int{len(b), 68, 78, 86, 90, 94, 95})]
		copy(b[62:64], be16(explore.Pick(c, "selection", []int{0, 1, 0x20, 0x21, 0x40, 0x41, 0x60, 0x200, 0x240, 0x3FF, 0x80})))
		copy(b[4:6], be16(explore.Pick(c, "weight", []int{400, 700, 0, 1, 650, 749, 750, 950, 1000, 65535})))
		nt["OS/2"] = b
	case 2: // OS/2 classes and permissions
		b := append([]byte(nil), t["OS/2"]...)
		copy(b[6:8], be16(explore.Pick(c, "width", []int{0, 1, 5, 9, 10, 65535})))
		copy(b[8:10], be16(explore.Pick(c, "perm", []int{0, 1, 2, 4, 6, 8, 10, 14, 15, 0x100, 0x308, 0xFFFF})))
		b[30] = byte(c.Choose("class", 16))
		nt["OS/2"] = b
	case 3: // post formats
		head := append([]byte(nil), t["post"][:32]...)
		switch c.Choose("format", 6) {
		case 0:
			nt["post"] = cat(be32(0x10000), head[4:])
		case 1:
			var idx []int
			for i := range n {
				idx = append(idx, (i*7)%260)
			}
			nt["post"] = cat(be32(0x20000), head[4:], be16(n), be16(idx...), []byte("\x03abc\x03abc"))
		case 2:
			nt["post"] = cat(be32(0x28000), head[4:], be16(n), bytes.Repeat([]byte{1}, n))
		case 3:
			nt["post"] = cat(be32(0x30000), head[4:])
		case 4:
			nt["post"] = cat(be32(0x40000), head[4:], be16(make([]int, n)...))
		case 5: // fewer or more names than glyphs
			m := max(0, n+explore.Pick(c, "names", []int{-1, 1, -n, 3}))
			idx := make([]int, m)
			for i := range idx {
				idx[i] = i
			}
			nt["post"] = cat(be32(0x20000), head[4:], be16(m), be16(idx...))
		}
		b := append([]byte(nil), nt["post"]...)
		copy(b[4:8], be32(explore.Pick(c, "angle", []int{0, 1, -1, 0x7FFFFFFF, -0x80000000, -12 << 16, 180 << 16})))
		nt["post"] = b
	case 4: // name records
		var recs []refNameRec
		var vals [][]byte
		combos := [][3]int{{3, 1, 0x409}, {1, 0, 0}, {0, 3, 0}, {3, 10, 0x409}, {3, 1, 0x407}, {1, 0, 2}, {3, 1, 0x809}}
		sel := c.Choose("platforms", 1<<len(combos))
		if !c.Thorough && sel&(sel-1) != 0 && sel>>4 != 0 {
			c.Skip()
		}
		sub := explore.Pick(c, "subfamily", []string{"", "Regular", "Bold", "Italic", "Bold Italic", "Semi Bold", "Extra Bold Oblique"})
		ver := explore.Pick(c, "version", []string{"", "Version 1.5", "1.0005", "Version 01.2;x", "abc"})
		for i, p := range combos {
			if sel>>i&1 == 0 {
				continue
			}
			for id, s := range map[int]string{1: fmt.Sprintf("F%d", i), 2: sub, 5: ver} {
				recs = append(recs, refNameRec{p[0], p[1], p[2], id})
				if p[0] == 1 {
					vals = append(vals, []byte(s))
				} else {
					vals = append(vals, u16be(s))
				}
			}
		}
		nt["name"] = makeName(recs, vals)
	case 5: // hhea and hmtx
		hh := append([]byte(nil), t["hhea"]...)
		m := explore.Pick(c, "metrics", []int{0, 1, 2, n - 1, n, n + 1, 65535})
		copy(hh[34:36], be16(m))
		rows := explore.Pick(c, "rows", []int{0, 1, n, 2 * n})
		var hm []byte
		for i := range rows {
			hm = append(hm, be16(300+20*i, i)...)
		}
		nt["hhea"], nt["hmtx"] = hh, hm
		copy(hh[18:22], be16(explore.Pick(c, "rise", []int{1, 0, 5, -5}), explore.Pick(c, "run", []int{0, 1, -1, 32767})))
		for _, x := range []string{"post", "OS/2"} {
			if c.Bool("without") {
				delete(nt, x)
			}
		}
	case 6: // head
		b := append([]byte(nil), t["head"]...)
		switch c.Choose("what", 6) {
		case 0:
			copy(b[4:8], be32(explore.Pick(c, "rev", []int{0, 1, 0x10000, 0x18000, 0x1FFFF, 0x7FFFFFFF, -1, 0x10042})))
			delete(nt, "name")
		case 1:
			copy(b[18:20], be16(explore.Pick(c, "upem", []int{15, 16, 17, 1000, 16384, 16385, 0, 65535})))
		case 2:
			copy(b[20:28], cat(be32(explore.Pick(c, "hi", []int{0, 1, -1, 0x7FFFFFFF, -0x80000000})), be32(explore.Pick(c, "lo", []int{0, 1, -1, 0x40000000}))))
			if c.Bool("modified") {
				copy(b[28:36], b[20:28])
			}
		case 3:
			copy(b[44:46], be16(c.Choose("style", 128)))
			for _, x := range []string{"name", "OS/2"} {
				if c.Bool("without") {
					delete(nt, x)
				}
			}
		case 4:
			copy(b[50:54], be16(explore.Pick(c, "loca", []int{0, 1, 2, -1}), explore.Pick(c, "gdf", []int{0, 1})))
		case 5:
			copy(b[16:18], be16(1<<c.Choose("flag", 16)))
		}
		nt["head"] = b
	case 7: // cmap formats
		var sub []byte
		switch c.Choose("format", 6) {
		case 0:
			b := make([]byte, 262)
			copy(b, be16(0, 262, 0))
			b[6+'A'], b[6+'H'], b[6+'x'] = 1, 2, 3
			sub = b
		case 1:
			sub = be16(6, 10+2*3, 0, 'G', 3, 0, 1, 2)
		case 2:
			sub = cat(be16(10, 0), be32(20+4, 0, 'H', 2), be16(1, 2))
		case 3:
			sub = cat(be16(12, 0), be32(16+24, 0, 2, 'H', 'J', 1, 0x10000, 0x10002, 2))
		case 4:
			sub = cat(be16(13, 0), be32(16+12, 0, 1, 'A', 'z', 1))
		case 5:
			sub = be16(4, 16+16, 0, 4, 4, 1, 0, 'J', 0xFFFF, 0, 'H', 0xFFFF, 1-'H', 1, 0, 0)
		}
		var recs []byte
		keys := explore.Pick(c, "keys", [][][2]int{{{3, 1}}, {{0, 3}, {3, 1}}, {{1, 0}}, {{3, 10}}, {{0, 4}}, {{3, 0}}, {{0, 6}}, {{2, 1}}, {{0, 0}, {1, 0}, {3, 1}}})
		for _, p := range keys {
			recs = append(recs, cat(be16(p[0], p[1]), be32(4+8*len(keys)))...)
		}
		nt["cmap"] = cat(be16(0, len(keys)), recs, sub)
		for _, x := range []string{"GSUB", "OS/2"} {
			if c.Bool("without") {
				delete(nt, x)
			}
		}
	case 8: // maxp and scaler
		b := append([]byte(nil), t["maxp"]...)
		switch c.Choose("what", 3) {
		case 0:
			nt["maxp"] = cat(be32(0x5000), be16(n))
		case 1:
			nt["maxp"] = cat(be32(0x10000), be16(n), make([]byte, 26))
		case 2:
			copy(b[4:6], be16(explore.Pick(c, "n", []int{0, 1, n - 1, n + 1, 65535})))
			nt["maxp"] = b
		}
		sc := explore.Pick(c, "scaler", []int{0x00010000, 0x4F54544F, 0x74727565, 0x00020000})
		c.Exec()
		c01Foreign(c, sfntAssemble(uint32(sc), nt))
		return
	}
	c.Log("%s %s", names[k], desc)
	c.Exec()
	c01Foreign(c, sfntAssemble(c01Scaler(t), nt))
}
