package checks

import (
	"bytes"
	"fmt"
	"io"
	"runtime/metrics"
	"slices"

	"golang.org/x/exp/maps"
	"seehuhn.de/go/geom/matrix"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"

	"verif/mc/explore"
)

// C02: decoders are total.

// A decode may allocate this many bytes, plus a multiple of the input size.
const (
	c02Alloc0 = 512 << 20
	c02Alloc1 = 4096
)

// c02Format4 is the size of the largest format 4 subtables which are encoded.
var c02Format4 = 200

// c02Format4Done contains hashes of maps which were already encoded.
var c02Format4Done = map[[2]uint64]bool{}

var c02Metric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func c02Allocs() uint64 {
	metrics.Read(c02Metric)
	return c02Metric[0].Value.Uint64()
}

// c02Dec is one of the decoders, together with the methods which can be used
// on the decoded value.
type c02Dec struct {
	name string
	// dec returns nil if the data is rejected.
	dec func(b []byte) (use func(), err error)
}

// c02Mat is used to compute bounding boxes.
var c02Mat = matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}

func c02UseSubtable(key cmap.Key, s cmap.Subtable) {
	lo, hi := s.CodeRange()
	for _, r := range []rune{0, 1, 0x20, 0x7F, 0x80, 0xC4, 0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, -1, -2, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1} {
		s.Lookup(r)
	}
	if s4, ok := s.(cmap.Format4); ok {
		// encoding maps in format 4 is slow
		if len(s4) > c02Format4 {
			return
		}
		var k [2]uint64
		for c, gid := range s4 {
			h := (uint64(c)<<16 + uint64(gid) + 1) * 0x9E3779B97F4A7C15
			h ^= h >> 29
			k[0] += h * 0xBF58476D1CE4E5B9
			k[1] += (h ^ h>>31) * 0x94D049BB133111EB
		}
		if c02Format4Done[k] {
			return
		}
		if len(c02Format4Done) > 1<<20 {
			clear(c02Format4Done)
		}
		c02Format4Done[k] = true
	}
	s.Encode(key.Language)
}

func c02UseCmap(t cmap.Table) {
	keys := maps.Keys(t)
	slices.SortFunc(keys, func(a, b cmap.Key) int {
		return int(a.PlatformID)<<40 - int(b.PlatformID)<<40 + int(a.EncodingID)<<20 - int(b.EncodingID)<<20 + int(a.Language) - int(b.Language)
	})
	for i, k := range keys {
		if i >= 100 {
			continue
		}
		if s, err := t.Get(k); err == nil {
			c02UseSubtable(k, s)
		}
		if s, err := t.GetNoLang(k.PlatformID, k.EncodingID); err == nil && i < 10 {
			c02UseSubtable(k, s)
		}
	}
	if s, err := t.GetBest(); err == nil {
		c02UseSubtable(cmap.Key{}, s)
	}
	if len(t) <= 500 {
		t.Encode()
	}
}

func c02UseGlyphs(gg glyf.Glyphs) {
	o := &glyf.Outlines{Glyphs: gg, Widths: nil, Maxp: &maxp.TTFInfo{}}
	o.NumGlyphs()
	for i, g := range gg {
		if g != nil {
			switch d := g.Data.(type) {
			case glyf.SimpleGlyph:
				if info, err := d.Decode(); err == nil {
					for _, c := range info.Contours {
						_ = len(c)
					}
				}
			case *glyf.SimpleGlyph:
				d.Decode()
			}
			g.Components()
		}
		o.GlyphBBoxPDF(c02Mat, glyph.ID(i))
	}
	gg.Encode()
}

func c02UseOutlines(o *cff.Outlines) {
	n := o.NumGlyphs()
	o.IsCIDKeyed()
	o.BuiltinEncoding()
	o.BBox()
	for i := range n {
		o.GlyphBBoxPDF(c02Mat, glyph.ID(i))
		o.FDSelect(glyph.ID(i))
	}
}

func c02UseCFF(f *cff.Font) {
	c02UseOutlines(f.Outlines)
	f.Clone()
	f.FontBBoxPDF()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	for i := range f.NumGlyphs() {
		f.GlyphWidthPDF(glyph.ID(i))
		g := f.Glyphs[i]
		g.Extent()
	}
	f.Write(io.Discard)
}

func c02UseFont(f *sfnt.Font) {
	n := f.NumGlyphs()
	f.Clone()
	f.GetFontInfo()
	f.IsGlyf()
	f.IsCFF()
	f.FullName()
	f.Subfamily()
	f.PostScriptName()
	f.FontBBox()
	f.FontBBoxPDF()
	f.BuiltinEncoding()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	f.GlyphBBoxes()
	f.IsFixedPitch()
	for i := range n {
		gid := glyph.ID(i)
		f.GlyphWidth(gid)
		f.GlyphWidthPDF(gid)
		f.GlyphBBox(gid)
		f.GlyphName(gid)
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		c02UseGlyphs(o.Glyphs)
	case *cff.Outlines:
		c02UseOutlines(o)
	}
	if f.CMapTable != nil {
		c02UseCmap(f.CMapTable)
	}
	f.MakeGlyphNames()
	f.Write(io.Discard)
	if f.IsGlyf() {
		f.WriteTrueTypePDF(io.Discard)
	} else {
		f.WriteOpenTypeCFFPDF(io.Discard)
		f.AsCFF().Write(io.Discard)
	}
}

// c02Glyf packs the data of a glyf and a loca table.
func c02Glyf(format int, glyfData, loca []byte) []byte {
	return cat(be16(format, len(loca)), loca, glyfData)
}

func c02UseGtab(t *gtab.Info, gpos bool) {
	t.Encode()
}

func c02Gtab(tp gtab.Type) func(b []byte) (func(), error) {
	return func(b []byte) (func(), error) {
		t, err := gtab.Read(bytes.NewReader(b), tp)
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}
}

var c02Decs = []*c02Dec{
	{"sfnt.Read", func(b []byte) (func(), error) {
		f, err := sfnt.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { c02UseFont(f) }, nil
	}},
	{"header.Read", func(b []byte) (func(), error) {
		r := bytes.NewReader(b)
		h, err := header.Read(r)
		if err != nil {
			return nil, err
		}
		return func() {
			names := maps.Keys(h.Toc)
			slices.Sort(names)
			h.Has(names...)
			for _, n := range names {
				h.TableReader(r, n)
				h.ReadTableBytes(r, n)
			}
		}, nil
	}},
	{"cff.Read", func(b []byte) (func(), error) {
		f, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { c02UseCFF(f) }, nil
	}},
	{"cmap.Decode", func(b []byte) (func(), error) {
		t, err := cmap.Decode(b)
		if err != nil {
			return nil, err
		}
		return func() { c02UseCmap(t) }, nil
	}},
	{"glyf.Decode", func(b []byte) (func(), error) {
		n := 0
		if len(b) >= 4 {
			n = min(rdU16(b, 2), len(b)-4)
		} else {
			b = make([]byte, 4)
		}
		gg, err := glyf.Decode(&glyf.Encoded{GlyfData: b[4+n:], LocaData: b[4 : 4+n], LocaFormat: int16(rdU16(b, 0))})
		if err != nil {
			return nil, err
		}
		return func() { c02UseGlyphs(gg) }, nil
	}},
	{"gtab.Read(GSUB)", c02Gtab(gtab.TypeGsub)},
	{"gtab.Read(GPOS)", c02Gtab(gtab.TypeGpos)},
	{"gdef.Read", func(b []byte) (func(), error) {
		t, err := gdef.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			t.IsMark(0)
			t.IsMark(65535)
			t.Encode()
		}, nil
	}},
	{"coverage.Read", func(b []byte) (func(), error) {
		t, err := coverage.Read(parser.New(bytes.NewReader(b)), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.Contains(0)
			t.Glyphs()
			t.ToSet()
			t.EncodeLen()
			t.Encode()
		}, nil
	}},
	{"coverage.ReadSet", func(b []byte) (func(), error) {
		t, err := coverage.ReadSet(parser.New(bytes.NewReader(b)), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.Glyphs()
			cov := t.ToTable()
			cov.EncodeLen()
			cov.Encode()
		}, nil
	}},
	{"classdef.Read", func(b []byte) (func(), error) {
		t, err := classdef.Read(parser.New(bytes.NewReader(b)), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.NumClasses()
			t.AppendLen()
			t.Append(nil)
		}, nil
	}},
	{"name.Decode", func(b []byte) (func(), error) {
		t, err := name.Decode(b)
		if err != nil {
			return nil, err
		}
		return func() { t.Encode(1) }, nil
	}},
	{"head.Read", func(b []byte) (func(), error) {
		t, err := head.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"hmtx.Decode", func(b []byte) (func(), error) {
		k := min(36, len(b))
		t, err := hmtx.Decode(b[:k], b[k:])
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"maxp.Read", func(b []byte) (func(), error) {
		t, err := maxp.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"os2.Read", func(b []byte) (func(), error) {
		t, err := os2.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"post.Read", func(b []byte) (func(), error) {
		t, err := post.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"kern.Read", func(b []byte) (func(), error) {
		t, err := kern.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
}

func c02Find(name string) *c02Dec {
	for _, d := range c02Decs {
		if d.name == name {
			return d
		}
	}
	panic("no decoder " + name)
}

// c02Run checks one decoder for one input.
func c02Run(c *explore.Ctx, d *c02Dec, b []byte) {
	var use func()
	var err error
	if c.Thorough {
		c02Format4 = 2000
	}
	a0 := c02Allocs()
	c.Protect("decode:"+d.name, func() { use, err = d.dec(b) })
	a1 := c02Allocs()
	if limit := uint64(c02Alloc0 + c02Alloc1*len(b)); a1-a0 > limit {
		c.Fail("alloc:"+d.name, "%d bytes of input, %d MB allocated\n%s", len(b), (a1-a0)>>20, hexDump(b[:min(len(b), 300)]))
	}
	if err != nil {
		if use != nil {
			c.Fail("both", "value and error")
		}
		c.ObsStr(d.name + "/" + err.Error())
		return
	}
	c.ObsStr(d.name + "/ok")
	c.Protect("use:"+d.name, use)
}

type c02Item struct {
	dec  *c02Dec
	name string
	data []byte
}

var c02Items []*c02Item
var c02ItemsThorough bool

// c02Corpus returns small valid inputs for all decoders except sfnt.Read and
// header.Read.
func c02Corpus(c *explore.Ctx) []*c02Item {
	if c02Items != nil && c02ItemsThorough == c.Thorough {
		return c02Items
	}
	c02ItemsThorough = c.Thorough
	seen := map[string]bool{}
	var res []*c02Item
	add := func(dec, name string, data []byte) {
		if k := dec + "/" + string(data); seen[k] {
			return
		} else {
			seen[k] = true
		}
		d := c02Find(dec)
		if _, err := d.dec(data); err != nil {
			panic(fmt.Sprintf("corpus item %s %s: %v\n%x", dec, name, err, data))
		}
		res = append(res, &c02Item{d, name, data})
	}
	files, names := c01Base(c)
	for i, t := range files {
		for n, dec := range map[string]string{
			"CFF ": "cff.Read", "cmap": "cmap.Decode", "GSUB": "gtab.Read(GSUB)", "GPOS": "gtab.Read(GPOS)", "GDEF": "gdef.Read",
			"name": "name.Decode", "head": "head.Read", "maxp": "maxp.Read", "OS/2": "os2.Read", "post": "post.Read",
		} {
			if len(t[n]) > 0 {
				add(dec, names[i], t[n])
			}
		}
		add("hmtx.Decode", names[i], cat(t["hhea"], t["hmtx"]))
		if t["glyf"] != nil {
			add("glyf.Decode", names[i], c02Glyf(rdU16(t["head"], 50), t["glyf"], t["loca"]))
		}
	}
	for i, mk := range []*cffFile{simpleFile(3), cidFile(3)} {
		mk.charStrings[1] = cat(be16(), []byte{139, 149, 21, 149, 139, 159, 6, 32, 10, 14})
		mk.charStrings[2] = []byte{139, 149, 1, 149, 139, 19, 0x80, 32, 29, 239, 22, 149, 139, 149, 149, 139, 139, 8, 14}
		mk.gsubrs = [][]byte{{11}, {139, 22, 11}}
		mk.fds[0].subrs = [][]byte{{149, 149, 5, 11}, {14}}
		add("cff.Read", fmt.Sprint("handmade ", i), mk.build())
	}
	add("cmap.Decode", "format 0", cat(be16(0, 1, 1, 0), be32(12), be16(0, 262, 0), bytes.Repeat([]byte{1, 2}, 128)))
	add("cmap.Decode", "format 4", cat(be16(0, 1, 3, 1), be32(12), be16(4, 44, 0, 6, 4, 1, 2, 0x41, 0x61, 0xFFFF, 0, 0x40, 0x61, 0xFFFF, -63, 0, 1, 0, 4, 0, 3, 5)))
	add("cmap.Decode", "format 6", cat(be16(0, 1, 0, 3), be32(12), be16(6, 16, 0, 65, 3, 1, 2, 3)))
	add("cmap.Decode", "format 12", cat(be16(0, 1, 3, 10), be32(12), be16(12, 0), be32(16+24, 0, 2, 65, 66, 1, 0x1F600, 0x1F603, 3)))
	add("cmap.Decode", "two", cat(be16(0, 3, 0, 3), be32(28), be16(1, 0), be32(44), be16(3, 1), be32(28), be16(6, 16, 0, 65, 3, 1, 2, 3), be16(6, 14, 0, 32, 2, 1, 2)))
	add("name.Decode", "lang", cat(be16(1, 2, 6+24+6, 1, 0, 0, 1, 3, 0, 3, 1, 0x409, 2, 6, 3, 1, 4, 5), []byte("abc\x00d\x00e\x00f")))
	for i, words := range [][]int{{1, 0}, {1, 3, 1, 3, 7}, {2, 0}, {2, 2, 1, 3, 0, 5, 5, 3}} {
		add("coverage.Read", fmt.Sprint(i), be16(words...))
		add("coverage.ReadSet", fmt.Sprint(i), be16(words...))
	}
	for i, words := range [][]int{{1, 0, 0}, {1, 5, 4, 1, 0, 2, 1}, {2, 0}, {2, 2, 1, 3, 1, 5, 5, 2}} {
		add("classdef.Read", fmt.Sprint(i), be16(words...))
	}
	add("gdef.Read", "v1.2", cat(be16(1, 2, 14, 0, 0, 24, 34, 2, 1, 1, 3, 1, 1, 5, 2, 3, 1), be16(1, 2), be32(12, 12), be16(1, 2, 3, 4)))
	add("gdef.Read", "v1.3", cat(be16(1, 3, 0, 0, 0, 0, 18), be32(0), be16(1, 1), be32(8), be16(1, 1, 4)))
	add("kern.Read", "1", cat(be16(0, 1, 0, 14+12, 1, 2, 12, 1, 0, 1, 3, -50, 3, 4, 20)))
	add("kern.Read", "3", cat(be16(0, 3, 0, 14+6, 1, 1, 6, 0, 0, 1, 3, -50), be16(0, 14, 2, 0, 0, 0, 0), be16(0, 14+6, 3, 1, 6, 0, 0, 1, 3, -60)))
	add("post.Read", "v1", cat(be32(0x10000, 0, 0, 0, 0, 0, 0, 0)))
	add("post.Read", "v2", cat(be32(0x20000, 0, 0, 0, 0, 0, 0, 0), be16(4, 0, 258, 259, 258), []byte("\x01a\x02bc")))
	add("maxp.Read", "v0.5", cat(be32(0x5000), be16(3)))
	for gp, dec := range map[bool]string{false: "gtab.Read(GSUB)", true: "gtab.Read(GPOS)"} {
		for i, mk := range c08Tiny(gp) {
			l := mk()
			info := &gtab.Info{
				ScriptList:  c08Scripts([]c08Sys{{script: "latn", req: 0xFFFF, opt: []int{0}}}),
				FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
				LookupList:  gtab.LookupList{l},
			}
			_ = gp
			add(dec, fmt.Sprint("lookup ", i), info.Encode())
		}
	}
	slices.SortStableFunc(res, func(a, b *c02Item) int {
		if a.dec != b.dec {
			return slices.Index(c02Decs, a.dec) - slices.Index(c02Decs, b.dec)
		}
		return bytes.Compare(a.data, b.data)
	})
	c02Items = res
	return res
}
