package checks

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"sort"
	"time"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
	"seehuhn.de/go/sfnt/os2"

	"verif/mc/explore"
)

// Font kinds.
const (
	fkTT = iota
	fkTTComposite
	fkCFF
	fkCID1
	fkCID3
	fkCount
)

var fkNames = []string{"TrueType", "TrueType+composites", "CFF", "CID/1", "CID/3"}

// fontGen builds fonts.  Every feature dimension listed in dims costs one
// deviation when it differs from its default.
type fontGen struct {
	c *explore.Ctx
	// if set, these are the values of the dimensions (default 0)
	fixed map[string]int
	dims  map[string]bool // nil: all
	desc  []string
	kind  int
	// codes in the character map
	chars map[rune]glyph.ID
}

func (g *fontGen) on(dim string) bool { return g.dims == nil || g.dims[dim] }

func (g *fontGen) dev(dim string, n int) int {
	if g.fixed != nil {
		return g.fixed[dim] % n
	}
	if !g.on(dim) {
		return 0
	}
	v := g.c.Dev(dim, n)
	if v != 0 {
		g.desc = append(g.desc, fmt.Sprintf("%s=%d", dim, v))
	}
	return v
}

func dimSet(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func funitR(a, b, c, d int) funit.Rect16 {
	return funit.Rect16{LLx: funit.Int16(a), LLy: funit.Int16(b), URx: funit.Int16(c), URy: funit.Int16(d)}
}

// cffRect etc. build CFF outlines
func cffBox(g *cff.Glyph, x0, y0, x1, y1 float64) *cff.Glyph {
	g.MoveTo(x0, y0)
	g.LineTo(x1, y0)
	g.LineTo(x1, y1)
	g.LineTo(x0, y1)
	return g
}

func compRef(gid, dx, dy int, flags glyf.ComponentFlag) glyf.GlyphComponent {
	return glyf.GlyphComponent{
		Flags:      glyf.FlagArg1And2AreWords | glyf.FlagArgsAreXYValues | flags,
		GlyphIndex: glyph.ID(gid),
		Data:       []byte{byte(dx >> 8), byte(dx), byte(dy >> 8), byte(dy)},
	}
}

func comp(bbox funit.Rect16, instr []byte, refs ...glyf.GlyphComponent) *glyf.Glyph {
	for i := range refs {
		if i+1 < len(refs) {
			refs[i].Flags |= glyf.FlagMoreComponents
		} else if instr != nil {
			refs[i].Flags |= glyf.FlagWeHaveInstructions
		}
	}
	return &glyf.Glyph{Rect16: bbox, Data: glyf.CompositeGlyph{Components: refs, Instructions: instr}}
}

var (
	tagLatn = language.MustParse("und-Latn-x-latn")
	tagDflt = language.MustParse("und-Zzzz-x-dflt")
	tagDeu  = language.MustParse("de-Latn-x-latn-deu")
	tagCyrl = language.MustParse("und-Cyrl-x-cyrl")
)

func defaultPrivate() *type1.PrivateDict {
	return &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
}

const baseNumGlyphs = 7

var cmapCache = map[string]cmap.Table{}

var baseNames = []string{".notdef", "A", "space", "f", "i", "fi", "acute"}

// font generates one font.  Glyphs: 0 .notdef, 1 A, 2 space, 3 f, 4 i, 5 fi,
// 6 acute (a mark when GDEF says so).
func (g *fontGen) font(kind int) *sfnt.Font {
	g.kind = kind
	g.desc = append(g.desc, fkNames[kind])
	isTT := kind == fkTT || kind == fkTTComposite

	f := &sfnt.Font{
		FamilyName:         "Test",
		Width:              os2.WidthNormal,
		Weight:             os2.WeightNormal,
		IsRegular:          true,
		Version:            0x00010000,
		CreationTime:       time.Date(2020, 2, 29, 12, 34, 56, 0, time.UTC),
		ModificationTime:   time.Date(2023, 12, 31, 23, 59, 59, 0, time.UTC),
		UnitsPerEm:         1000,
		FontMatrix:         matrix.Matrix{0.001, 0, 0, 0.001, 0, 0},
		Ascent:             800,
		Descent:            -200,
		LineGap:            90,
		CapHeight:          700,
		XHeight:            450,
		UnderlinePosition:  -100,
		UnderlineThickness: 50,
	}

	// --- glyph count and outlines ---
	widths := []float64{500, 600, 250, 300, 280, 560, 400}
	n := baseNumGlyphs
	shape := g.dev("glyphs", 6)
	type box struct{ x0, y0, x1, y1 int }
	boxes := []box{{50, 0, 450, 700}, {20, -10, 580, 710}, {}, {10, 0, 290, 720}, {30, -5, 250, 690}, {15, -3, 540, 725}, {-120, 500, 60, 640}}
	blank := func(i int) bool { return boxes[i] == box{} }
	switch shape {
	case 1: // .notdef only
		n = 1
	case 2: // all blank except glyph 1
		for i := range boxes {
			if i != 1 {
				boxes[i] = box{}
			}
		}
	case 3: // all blank
		for i := range boxes {
			boxes[i] = box{}
		}
	case 4: // everything in the negative quadrant, large coordinates
		for i := range boxes {
			if !blank(i) {
				boxes[i] = box{-16000 + i, -15000 - i, -200 - i, -300 + i}
			}
		}
	case 5: // many glyphs
		for n < 300 {
			boxes = append(boxes, box{n, n % 7, n + 100 + n%13, 700 - n%11})
			widths = append(widths, float64(300+n%5*100))
			n++
		}
	}
	boxes = boxes[:n]
	widths = widths[:n]

	switch g.dev("widths", 7) {
	case 1: // fixed pitch
		for i := range widths {
			widths[i] = 600
		}
	case 2: // constant tail
		for i := range widths {
			if i >= 2 {
				widths[i] = 600
			}
		}
	case 3: // zero widths
		for i := range widths {
			widths[i] = float64(i % 2 * 500)
		}
	case 4: // extremes
		for i := range widths {
			widths[i] = []float64{0, 32767, 1, 32766}[i%4]
		}
	case 5: // all zero
		for i := range widths {
			widths[i] = 0
		}
	case 6: // nearly fixed pitch
		for i := range widths {
			widths[i] = float64(600 + i%2)
		}
	}

	names := make([]string, n)
	for i := range names {
		if i < len(baseNames) {
			names[i] = baseNames[i]
		} else {
			names[i] = fmt.Sprintf("g%03d", i)
		}
	}
	switch g.dev("upem", 4) {
	case 1:
		f.UnitsPerEm = 2048
	case 2:
		f.UnitsPerEm = 16
	case 3:
		f.UnitsPerEm = 16384
	}
	q := 1 / float64(f.UnitsPerEm)
	f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}

	if isTT {
		o := &glyf.Outlines{
			Tables: map[string][]byte{},
			Maxp:   &maxp.TTFInfo{MaxPoints: 8, MaxContours: 2, MaxZones: 2, MaxComponentElements: 2, MaxComponentDepth: 2},
		}
		curved := g.dev("ttshape", 4)
		for i := 0; i < n; i++ {
			o.Widths = append(o.Widths, funit.Int16(widths[i]))
			b := boxes[i]
			if blank(i) {
				o.Glyphs = append(o.Glyphs, nil)
				continue
			}
			cc := ttBox(b.x0, b.y0, b.x1, b.y1)
			var instr []byte
			switch curved {
			case 1: // off-curve points, two contours
				mx, my := (b.x0+b.x1)/2, (b.y0+b.y1)/2
				cc = [][]ttPoint{
					{{b.x0, b.y0, true}, {b.x1, b.y0, false}, {b.x1, my, true}, {b.x1, b.y1, false}, {mx, b.y1, true}, {b.x0, b.y1, true}},
					{{mx, my, true}, {mx - 10, my, true}, {mx, my - 10, false}},
				}
			case 2: // instructions
				instr = []byte{0xB0, byte(i), 0x21}
			case 3: // odd lengths
				instr = []byte{0x4F, 0x00}
				if i%2 == 0 {
					instr = nil
					cc = append(cc, []ttPoint{{b.x0, b.y0, true}, {b.x0 + 1, b.y0 + 1, true}, {b.x0 + 3, b.y0, true}})
				}
			}
			o.Glyphs = append(o.Glyphs, ttSimple(cc, instr, 0))
		}
		if kind == fkTTComposite && n >= baseNumGlyphs && shape != 2 && shape != 3 {
			// 5 = 3 + 4; 1 nested
			fb, ib := o.Glyphs[3].Rect16, o.Glyphs[4].Rect16
			var instr []byte
			cv := g.dev("composite", 4)
			if cv == 1 {
				instr = []byte{1, 2, 3}
			}
			r4 := compRef(4, 200, 0, glyf.FlagUseMyMetrics)
			switch cv {
			case 2: // byte args
				r4 = glyf.GlyphComponent{Flags: glyf.FlagArgsAreXYValues, GlyphIndex: 4, Data: []byte{100, 0xF6}}
				ib = funitR(int(ib.LLx)-100, int(ib.LLy)-10, int(ib.URx)-100, int(ib.URy)-10)
			case 3: // scale 1.0
				r4 = glyf.GlyphComponent{Flags: glyf.FlagArg1And2AreWords | glyf.FlagArgsAreXYValues | glyf.FlagWeHaveAScale, GlyphIndex: 4, Data: []byte{0, 200, 0, 0, 0x40, 0}}
			}
			bb := fb
			bb.Extend(funitR(int(ib.LLx)+200, int(ib.LLy), int(ib.URx)+200, int(ib.URy)))
			o.Glyphs[5] = comp(bb, instr, compRef(3, 0, 0, glyf.FlagRoundXYToGrid), r4)
			// glyph 1: nested composite of 5 and 6
			b6 := o.Glyphs[6].Rect16
			bb2 := bb
			bb2.Extend(funitR(int(b6.LLx)+10, int(b6.LLy)-20, int(b6.URx)+10, int(b6.URy)-20))
			o.Glyphs[1] = comp(bb2, nil, compRef(5, 0, 0, 0), compRef(6, 10, -20, 0))
		}
		switch g.dev("names", 6) {
		case 0:
			o.Names = names
		case 1:
			o.Names = nil
		case 2: // standard order
			o.Names = make([]string, n)
			for i := range o.Names {
				o.Names[i] = macGlyphNames[i%258]
			}
		case 3: // custom
			o.Names = make([]string, n)
			for i := range o.Names {
				o.Names[i] = fmt.Sprintf("custom.%d", i)
			}
		case 4: // empty strings and duplicates
			o.Names = make([]string, n)
			for i := range o.Names {
				o.Names[i] = []string{".notdef", "", "A", "A"}[i%4]
			}
		case 5: // long name
			o.Names = append([]string(nil), names...)
			o.Names[n-1] = string(bytes.Repeat([]byte("x"), 255))
		}
		switch g.dev("tttables", 4) {
		case 1:
			o.Tables["cvt "] = []byte{0, 1, 2, 3}
			o.Tables["gasp"] = []byte{0, 1, 0, 1, 0xFF, 0xFF, 0, 3}
		case 2:
			o.Tables["fpgm"] = []byte{1}
			o.Tables["prep"] = []byte{1, 2, 3, 4, 5}
		case 3:
			o.Maxp = &maxp.TTFInfo{MaxPoints: 65535, MaxContours: 1, MaxCompositePoints: 2, MaxCompositeContours: 3, MaxZones: 4, MaxTwilightPoints: 5, MaxStorage: 6,
				MaxFunctionDefs: 7, MaxInstructionDefs: 8, MaxStackElements: 9, MaxSizeOfInstructions: 10, MaxComponentElements: 11, MaxComponentDepth: 12}
		}
		f.Outlines = o
	} else {
		o := &cff.Outlines{}
		sh := g.dev("cffshape", 4)
		for i := 0; i < n; i++ {
			gl := cff.NewGlyph(names[i], widths[i])
			if !blank(i) {
				b := boxes[i]
				x0, y0, x1, y1 := float64(b.x0), float64(b.y0), float64(b.x1), float64(b.y1)
				cffBox(gl, x0, y0, x1, y1)
				switch sh {
				case 1: // curves with extrema at the end points
					mx, my := (x0+x1)/2, (y0+y1)/2
					gl.Cmds = nil
					gl.MoveTo(x1, my)
					gl.CurveTo(x1, my+10, mx+10, y1, mx, y1)
					gl.CurveTo(mx-10, y1, x0, my+10, x0, my)
					gl.CurveTo(x0, my-20, mx-10, y0, mx, y0)
					gl.LineTo(x1, y0)
				case 2: // hints
					gl.HStem = []float64{y0, y0 + 20, y1 - 20, y1}
					gl.VStem = []float64{x0, x0 + 30}
				case 3: // fractional coordinates
					gl.LineTo(x0+0.5, y1-0.25)
					gl.MoveTo(x0+1.5, y0+1.125)
					gl.LineTo(x0+2.75, y0+3)
				}
			}
			o.Glyphs = append(o.Glyphs, gl)
		}
		nfd := 1
		if kind == fkCID3 {
			nfd = 3
		}
		for i := 0; i < nfd; i++ {
			p := defaultPrivate()
			p.StdHW = float64(20 + 10*i)
			o.Private = append(o.Private, p)
		}
		switch g.dev("private", 4) {
		case 1:
			o.Private[nfd-1].BlueValues = []funit.Int16{-20, 0, 700, 720}
			o.Private[nfd-1].OtherBlues = []funit.Int16{-250, -240}
			o.Private[nfd-1].StdVW = 88
		case 2:
			o.Private[0].ForceBold = true
			o.Private[0].BlueFuzz = 0
			o.Private[0].BlueShift = 5
		case 3:
			o.Private[nfd-1].BlueScale = 0.0625
			o.Private[nfd-1].StdHW = 0
		}
		if kind == fkCFF {
			o.FDSelect = func(glyph.ID) int { return 0 }
			switch g.dev("encoding", 3) {
			case 0:
				o.Encoding = cff.StandardEncoding(o.Glyphs)
			case 1:
				o.Encoding = make([]glyph.ID, 256)
				for i := 1; i < n; i++ {
					o.Encoding[(64+i)%256] = glyph.ID(i)
				}
				if n > 3 {
					o.Encoding[200], o.Encoding[255] = 1, 2
				}
				if n > 256 {
					for i := range o.Encoding {
						o.Encoding[i] = glyph.ID(i)
					}
				}
			case 2:
				o.Encoding = make([]glyph.ID, 256)
			}
			switch g.dev("names", 4) {
			case 1:
				for i := 1; i < n; i++ {
					o.Glyphs[i].Name = fmt.Sprintf("custom.%d", i)
				}
				if g.on("encoding") {
					// the standard encoding depends on the names
					o.Encoding = cff.StandardEncoding(o.Glyphs)
				}
			case 2: // ISOAdobe order
				for i := 1; i < n && i < len(isoAdobe); i++ {
					o.Glyphs[i].Name = isoAdobe[i]
				}
				o.Encoding = cff.StandardEncoding(o.Glyphs)
			case 3:
				o.Glyphs[n-1].Name = string(bytes.Repeat([]byte("y"), 300))
				if n == 1 {
					o.Glyphs[0].Name = ".notdef"
				}
			}
		} else {
			for _, gl := range o.Glyphs {
				gl.Name = ""
			}
			o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity", Supplement: 0}
			switch g.dev("ros", 3) {
			case 1:
				o.ROS = &cid.SystemInfo{Registry: "Foo", Ordering: "Bar Baz", Supplement: 7}
			}
			o.GIDToCID = make([]cid.CID, n)
			gap := g.dev("cids", 4)
			for i := range o.GIDToCID {
				switch gap {
				case 0:
					o.GIDToCID[i] = cid.CID(i)
				case 1:
					o.GIDToCID[i] = cid.CID(i * 3)
				case 2:
					if i > 0 {
						o.GIDToCID[i] = cid.CID(65535 - (n - 1 - i))
					}
				case 3: // not monotone
					if i > 0 {
						o.GIDToCID[i] = cid.CID(n - i)
					}
				}
			}
			fdv := g.dev("fdselect", 4)
			o.FDSelect = func(gid glyph.ID) int {
				switch fdv {
				case 1:
					return (int(gid) + 1) % nfd
				case 2:
					return nfd - 1
				case 3:
					return int(gid) / 3 % nfd
				}
				return int(gid) % nfd
			}
			switch g.dev("fdmatrix", 3) {
			case 0: // the scale is in the top dict
				for i := 0; i < nfd; i++ {
					o.FontMatrices = append(o.FontMatrices, matrix.Identity)
				}
			case 1: // different scales
				for i := 0; i < nfd; i++ {
					o.FontMatrices = append(o.FontMatrices, matrix.Matrix{1 + float64(i)/4, 0, 0, 1, 0, 0})
				}
			case 2:
				for i := 0; i < nfd; i++ {
					o.FontMatrices = append(o.FontMatrices, matrix.Matrix{1, 0, float64(i) / 8, 1, 0, 0})
				}
			}
		}
		if g.dev("fontmatrix", 2) == 1 {
			f.FontMatrix = matrix.Matrix{q, 0, q / 4, q, 0, 0} // slanted
		}
		f.Outlines = o
	}

	// --- character map ---
	has := func(i int) bool { return i < n }
	g.chars = map[rune]glyph.ID{}
	add := func(r rune, gid int) {
		if has(gid) {
			g.chars[r] = glyph.ID(gid)
		}
	}
	add('A', 1)
	add(' ', 2)
	add('f', 3)
	add('i', 4)
	add(0x301, 6)
	cm := g.dev("cmap", 10)
	switch cm {
	case 1: // full unicode
		add(0x1F600, 5)
		add(0xFFFF, 1)
	case 2: // standard ligature available
		add(0xFB01, 5)
	case 3: // no cmap
		g.chars = nil
	case 4: // edges of the BMP
		add(0xFFFE, 5)
		add(1, 1)
	case 7:
		add('H', 1)
		add('x', 3)
	case 8: // all standard ligatures
		add('l', 1)
		for i := range 5 {
			add(rune(0xFB00+i), []int{5, 6, 1, 2, 4}[i])
		}
	}
	if g.chars != nil {
		if cm == 1 {
			m := cmap.Format12{}
			for r, gid := range g.chars {
				m[uint32(r)] = gid
			}
			f.InstallCMap(m)
		} else {
			m := cmap.Format4{}
			for r, gid := range g.chars {
				m[uint16(r)] = gid
			}
			// encoding format 4 is slow
			key := fmt.Sprint(m)
			if t, ok := cmapCache[key]; ok {
				f.CMapTable = maps.Clone(t)
			} else {
				f.InstallCMap(m)
				cmapCache[key] = maps.Clone(f.CMapTable)
			}
			switch cm {
			case 5: // mac subtable only
				f.CMapTable = cmap.Table{}
				var m0 cmap.Format0
				for r, gid := range g.chars {
					if r < 128 {
						m0.Data[r] = byte(gid)
					} else {
						delete(g.chars, r)
					}
				}
				f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0}] = m0.Encode(0)
			case 6: // several subtables with different contents
				f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0, Language: 3}] = cmap.Format4{'B': 1}.Encode(3)
				f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 3}] = cmap.Format4{'C': 1}.Encode(0)
			case 9: // several languages
				for i := range uint16(6) {
					var m0 cmap.Format0
					m0.Data[65+i] = 1
					f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0, Language: i * 7}] = m0.Encode(i * 7)
				}
			}
		}
	}

	// --- layout ---
	g.layout(f, n)

	// --- strings, flags, metrics ---
	switch g.dev("strings", 6) {
	case 1:
		f.Description, f.SampleText = "A description", "Sample"
		f.Copyright, f.Trademark = "(c) 2024 X", "TM"
		f.License, f.LicenseURL = "OFL", "https://example.org/"
	case 2: // Mac Roman repertoire
		f.FamilyName = "Über Schrift"
		f.Copyright = "© Ångström"
		f.Description = "naïve – “quoted”"
	case 3: // outside Mac Roman
		f.FamilyName = "Шрифт"
		f.SampleText = "日本語 \U0001F600"
		f.License = "лицензия"
	case 4: // long
		f.License = string(bytes.Repeat([]byte("long text "), 1500))
		f.FamilyName = "Test Bold Family"
	case 5:
		f.FamilyName = ""
	}
	switch g.dev("style", 9) {
	case 1:
		f.IsRegular, f.IsBold, f.Weight = false, true, os2.WeightBold
	case 2:
		f.IsRegular, f.IsItalic, f.ItalicAngle = false, true, -12
	case 3:
		f.IsRegular, f.IsItalic, f.IsOblique, f.ItalicAngle = false, true, true, -9.5
	case 4:
		f.IsRegular = false
	case 5:
		f.IsSerif = true
	case 6:
		f.IsScript = true
	case 7:
		f.IsRegular, f.IsBold, f.IsItalic, f.ItalicAngle, f.Weight = false, true, true, 12.25, os2.WeightBold
	case 8: // italic without an angle
		f.IsRegular, f.IsItalic = false, true
	}
	switch g.dev("weight", 7) {
	case 1:
		f.Weight = os2.WeightThin
	case 2:
		f.Weight = os2.WeightBlack
		f.Width = os2.WidthCondensed
	case 3:
		f.Width = os2.WidthUltraExpanded
	case 4:
		f.Weight = 1000
	case 5:
		f.Weight = 350
		f.Width = os2.WidthUltraCondensed
	case 6:
		f.Weight = os2.WeightSemiBold
	}
	switch g.dev("version", 6) {
	case 1:
		f.Version = 0x00018000
	case 2:
		f.Version, _ = head.VersionFromString("1.234")
	case 3:
		f.Version = head.Version(0x00010000 + 66).Round()
	case 4:
		f.Version = 0
	case 5:
		f.Version, _ = head.VersionFromString("65535.999")
	}
	switch g.dev("times", 6) {
	case 1:
		f.CreationTime = time.Time{}
	case 2:
		f.ModificationTime = time.Time{}
	case 3:
		f.CreationTime = time.Date(1904, 1, 1, 0, 0, 1, 0, time.UTC)
	case 4:
		f.CreationTime = time.Date(1890, 7, 1, 0, 0, 0, 0, time.UTC)
		f.ModificationTime = time.Date(2200, 1, 2, 3, 4, 5, 0, time.UTC)
	case 5:
		f.ModificationTime = time.Date(2024, 3, 31, 0, 30, 0, 0, time.FixedZone("X", 5*3600+1800))
	}
	switch g.dev("vmetrics", 4) {
	case 1:
		f.Ascent, f.Descent, f.LineGap = 32767, -32768, 0
	case 2:
		f.Ascent, f.Descent, f.LineGap = -5, 5, -7
	case 3:
		f.CapHeight, f.XHeight = 0, 0
	}
	switch g.dev("underline", 4) {
	case 1:
		f.UnderlinePosition, f.UnderlineThickness = -32768, 32767
	case 2:
		f.UnderlinePosition, f.UnderlineThickness = 0, 0
	case 3:
		f.UnderlinePosition, f.UnderlineThickness = 7, 1
	}
	switch g.dev("angle", 5) {
	case 1:
		f.ItalicAngle, f.IsItalic, f.IsRegular = -0.5, true, false
	case 2:
		f.ItalicAngle, f.IsItalic, f.IsRegular = 1.0/65536, true, false
	case 3:
		f.ItalicAngle, f.IsItalic, f.IsRegular = -89, true, false
	case 4:
		f.ItalicAngle, f.IsItalic, f.IsRegular = -12.345703125, true, false
	}
	switch g.dev("perm", 4) {
	case 1:
		f.PermUse = os2.PermEdit
	case 2:
		f.PermUse = os2.PermView
	case 3:
		f.PermUse = os2.PermRestricted
	}
	switch g.dev("codepages", 4) {
	case 1:
		f.CodePageRange = 1
	case 2:
		f.CodePageRange = 1<<63 | 1<<32 | 1<<31
	case 3:
		f.CodePageRange = math.MaxUint64
	}
	return f
}

func (g *fontGen) layout(f *sfnt.Font, n int) {
	if n < baseNumGlyphs {
		return
	}
	lig := func() *gtab.LookupTable {
		return &gtab.LookupTable{
			Meta: &gtab.LookupMetaInfo{LookupType: 4},
			Subtables: []gtab.Subtable{&gtab.Gsub4_1{
				Cov:  coverage.Table{3: 0},
				Repl: [][]gtab.Ligature{{{In: []glyph.ID{4}, Out: 5}}},
			}},
		}
	}
	single := func() *gtab.LookupTable {
		return &gtab.LookupTable{
			Meta: &gtab.LookupMetaInfo{LookupType: 1},
			Subtables: []gtab.Subtable{
				&gtab.Gsub1_1{Cov: coverage.Set{1: true}, Delta: 1},
				&gtab.Gsub1_2{Cov: coverage.Table{3: 0, 4: 1}, SubstituteGlyphIDs: []glyph.ID{6, 1}},
			},
		}
	}
	switch g.dev("gsub", 6) {
	case 1:
		f.Gsub = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "liga", Lookups: []gtab.LookupIndex{0}}},
			LookupList:  gtab.LookupList{lig()},
		}
	case 2:
		f.Gsub = &gtab.Info{
			ScriptList: gtab.ScriptListInfo{
				tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0, 1}},
				tagDflt: {Required: 0, Optional: []gtab.FeatureIndex{1}},
				tagDeu:  {Required: 1, Optional: []gtab.FeatureIndex{0, 2}},
				tagCyrl: {Required: 0xFFFF},
			},
			FeatureList: gtab.FeatureListInfo{
				{Tag: "ccmp", Lookups: []gtab.LookupIndex{0, 2}},
				{Tag: "liga", Lookups: []gtab.LookupIndex{1}},
				{Tag: "smcp", Lookups: []gtab.LookupIndex{2}},
			},
			LookupList: gtab.LookupList{single(), lig(), {
				Meta: &gtab.LookupMetaInfo{LookupType: 3},
				Subtables: []gtab.Subtable{&gtab.Gsub3_1{
					Cov: coverage.Table{1: 0, 6: 1}, Alternates: [][]glyph.ID{{3, 4, 5}, {1}}}},
			}},
		}
	case 3:
		f.Gsub = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagDflt: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "calt", Lookups: []gtab.LookupIndex{0}}},
			LookupList: gtab.LookupList{{
				Meta: &gtab.LookupMetaInfo{LookupType: 6, LookupFlags: gtab.IgnoreMarks},
				Subtables: []gtab.Subtable{&gtab.ChainedSeqContext3{
					Backtrack: []coverage.Set{{1: true}},
					Input:     []coverage.Set{{3: true}, {4: true}},
					Lookahead: []coverage.Set{{2: true}},
					Actions:   []gtab.SeqLookup{{SequenceIndex: 0, LookupListIndex: 1}},
				}},
			}, single(), {
				Meta: &gtab.LookupMetaInfo{LookupType: 2},
				Subtables: []gtab.Subtable{&gtab.Gsub2_1{
					Cov: coverage.Table{5: 0}, Repl: [][]glyph.ID{{3, 4}}}},
			}},
		}
	case 4: // empty lists
		f.Gsub = &gtab.Info{ScriptList: gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF}}}
	case 5: // extension-free, coverage over everything
		cov := coverage.Set{}
		for i := 0; i < n-1; i++ {
			cov[glyph.ID(i)] = true
		}
		f.Gsub = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "ss01", Lookups: []gtab.LookupIndex{0}}},
			LookupList: gtab.LookupList{{
				Meta:      &gtab.LookupMetaInfo{LookupType: 1},
				Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: cov, Delta: 1}},
			}},
		}
	}
	adv := func(x int) *gtab.GposValueRecord { return &gtab.GposValueRecord{XAdvance: funit.Int16(x)} }
	switch g.dev("gpos", 5) {
	case 1:
		f.Gpos = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "kern", Lookups: []gtab.LookupIndex{0}}},
			LookupList: gtab.LookupList{{
				Meta: &gtab.LookupMetaInfo{LookupType: 2},
				Subtables: []gtab.Subtable{gtab.Gpos2_1{
					{Left: 1, Right: 3}: {First: adv(-50)},
					{Left: 1, Right: 4}: {First: adv(30)},
					{Left: 3, Right: 1}: {First: adv(-32768)},
				}},
			}},
		}
	case 2:
		f.Gpos = &gtab.Info{
			ScriptList: gtab.ScriptListInfo{
				tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0, 1}},
				tagDflt: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
			},
			FeatureList: gtab.FeatureListInfo{
				{Tag: "mark", Lookups: []gtab.LookupIndex{1}},
				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
			},
			LookupList: gtab.LookupList{{
				Meta: &gtab.LookupMetaInfo{LookupType: 2, LookupFlags: gtab.IgnoreMarks},
				Subtables: []gtab.Subtable{&gtab.Gpos2_2{
					Cov:    coverage.Set{1: true, 3: true},
					Class1: classdef.Table{3: 1},
					Class2: classdef.Table{4: 1, 5: 1},
					Adjust: [][]*gtab.PairAdjust{
						{{First: adv(0)}, {First: adv(-20)}},
						{{First: adv(15)}, {First: adv(7)}},
					},
				}},
			}, {
				Meta: &gtab.LookupMetaInfo{LookupType: 4},
				Subtables: []gtab.Subtable{&gtab.Gpos4_1{
					MarkCov:   coverage.Table{6: 0},
					BaseCov:   coverage.Table{1: 0, 4: 1},
					MarkArray: []markarray.Record{{Class: 0, Table: anchor.Table{X: 30, Y: 500}}},
					BaseArray: [][]anchor.Table{{{X: 300, Y: 710}}, {{X: 140, Y: 690}}},
				}},
			}},
		}
	case 3:
		f.Gpos = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagDflt: {Required: 0, Optional: nil}},
			FeatureList: gtab.FeatureListInfo{{Tag: "cpsp", Lookups: []gtab.LookupIndex{0}}},
			LookupList: gtab.LookupList{{
				Meta: &gtab.LookupMetaInfo{LookupType: 1},
				Subtables: []gtab.Subtable{
					&gtab.Gpos1_1{Cov: coverage.Table{1: 0, 2: 1}, Adjust: &gtab.GposValueRecord{XPlacement: 3, XAdvance: 10}},
					&gtab.Gpos1_2{Cov: coverage.Table{3: 0, 4: 1}, Adjust: []*gtab.GposValueRecord{{XAdvance: 1, YPlacement: 4}, {XAdvance: -2, YPlacement: 5}}},
				},
			}},
		}
	case 4:
		f.Gpos = &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "mkmk", Lookups: []gtab.LookupIndex{0}}},
			LookupList: gtab.LookupList{{
				Meta: &gtab.LookupMetaInfo{LookupType: 6, LookupFlags: gtab.UseMarkFilteringSet, MarkFilteringSet: 0},
				Subtables: []gtab.Subtable{&gtab.Gpos6_1{
					Mark1Cov:   coverage.Table{6: 0},
					Mark2Cov:   coverage.Table{6: 0},
					Mark1Array: []markarray.Record{{Class: 0, Table: anchor.Table{X: 1, Y: 2}}},
					Mark2Array: [][]anchor.Table{{{X: 3, Y: 4}}},
				}},
			}},
		}
		f.Gdef = &gdef.Table{
			GlyphClass:    classdef.Table{1: gdef.GlyphClassBase, 6: gdef.GlyphClassMark},
			MarkGlyphSets: []coverage.Set{{6: true}},
		}
	}
	switch g.dev("gdef", 4) {
	case 1:
		f.Gdef = &gdef.Table{GlyphClass: classdef.Table{1: gdef.GlyphClassBase, 3: gdef.GlyphClassBase, 5: gdef.GlyphClassLigature, 6: gdef.GlyphClassMark}}
	case 2:
		f.Gdef = &gdef.Table{
			GlyphClass:      classdef.Table{6: gdef.GlyphClassMark},
			MarkAttachClass: classdef.Table{6: 3},
			MarkGlyphSets:   []coverage.Set{{6: true}, {1: true, 6: true}},
		}
	case 3:
		f.Gdef = &gdef.Table{MarkAttachClass: classdef.Table{6: 1}}
	}
}

// fontBytes writes the font.
func fontBytes(c *explore.Ctx, key string, f *sfnt.Font) []byte {
	buf := &bytes.Buffer{}
	n, err := f.Write(buf)
	if err != nil {
		c.Fail(key, "Write failed: %v", err)
	}
	if n != int64(buf.Len()) {
		c.Fail(key, "Write returned %d for %d bytes", n, buf.Len())
	}
	return buf.Bytes()
}

// outlinesDiff compares the glyph data of two fonts.
func outlinesDiff(a, b sfnt.Outlines) string {
	switch x := a.(type) {
	case *glyf.Outlines:
		y, ok := b.(*glyf.Outlines)
		if !ok {
			return "outline type"
		}
		if len(x.Glyphs) != len(y.Glyphs) {
			return fmt.Sprintf("%d glyphs vs %d", len(x.Glyphs), len(y.Glyphs))
		}
		for i := range x.Glyphs {
			if err := glyphsEqual(x.Glyphs[i], y.Glyphs[i]); err != nil {
				return fmt.Sprintf("glyph %d: %v", i, err)
			}
		}
		if d := deepDiff(x.Widths, y.Widths); d != "" {
			return "Widths" + d
		}
		if d := deepDiff(x.Names, y.Names); d != "" || (x.Names == nil) != (y.Names == nil) {
			return "Names" + d
		}
		if d := deepDiff(x.Tables, y.Tables); d != "" {
			return "Tables" + d
		}
		if d := deepDiff(x.Maxp, y.Maxp); d != "" {
			return "Maxp" + d
		}
	case *cff.Outlines:
		y, ok := b.(*cff.Outlines)
		if !ok {
			return "outline type"
		}
		if len(x.Glyphs) != len(y.Glyphs) {
			return fmt.Sprintf("%d glyphs vs %d", len(x.Glyphs), len(y.Glyphs))
		}
		if d := deepDiff(x, y); d != "" {
			return d
		}
		for i := range x.Glyphs {
			if p, q := x.FDSelect(glyph.ID(i)), y.FDSelect(glyph.ID(i)); p != q {
				return fmt.Sprintf("FDSelect(%d): %d vs %d", i, p, q)
			}
		}
	}
	return ""
}

// fontDiff compares two fonts.
func fontDiff(a, b *sfnt.Font) string {
	if d := outlinesDiff(a.Outlines, b.Outlines); d != "" {
		return "Outlines: " + d
	}
	x, y := *a, *b
	x.Outlines, y.Outlines = nil, nil
	return deepDiff(&x, &y)
}

func sortedRunes(m map[rune]glyph.ID) []rune {
	var rr []rune
	for r := range m {
		rr = append(rr, r)
	}
	sort.Slice(rr, func(i, j int) bool { return rr[i] < rr[j] })
	return rr
}
