ID="c10-comp-same"; PROP="C10"; PKG="."
EDITS=[("glyf/composite.go", "		d2 := CompositeGlyph{\n			Components:   make([]GlyphComponent, len(d.Components)),", "		n := len(d.Components)\n		if c0 := d.Components; n > 0 && newGid[c0[0].GlyphIndex] == c0[0].GlyphIndex && newGid[c0[n-1].GlyphIndex] == c0[n-1].GlyphIndex {\n			return g // nothing changes\n		}\n		d2 := CompositeGlyph{\n			Components:   make([]GlyphComponent, n),")]
NEEDS="a composite glyph with three or more components where the first and the last component keep their index and one in between moves"
BREAKS="the components in the middle still use the old glyph index and refer to a different outline"
TEST='''
package sfnt

import (
	"testing"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	c := func(g glyph.ID) glyf.GlyphComponent {
		return glyf.GlyphComponent{Flags: glyf.FlagArgsAreXYValues, GlyphIndex: g, Data: []byte{0, 0}}
	}
	s := func() *glyf.Glyph { return &glyf.Glyph{Data: glyf.SimpleGlyph{}} }
	f := &Font{Outlines: &glyf.Outlines{
		Widths: make([]funit.Int16, 6),
		Glyphs: glyf.Glyphs{s(), s(), s(), s(), s(), {Data: glyf.CompositeGlyph{Components: []glyf.GlyphComponent{c(1), c(3), c(2)}}}},
	}}
	sub := f.Subset([]glyph.ID{0, 1, 2, 5, 3})
	got := sub.Outlines.(*glyf.Outlines).Glyphs[3].Components()
	if got[0] != 1 || got[1] != 4 || got[2] != 2 {
		t.Fatal(got)
	}
}
'''
