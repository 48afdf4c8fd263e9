ID="c12-minlsb"; PROP="C12"; PKG="hmtx"
EDITS=[("hmtx/hmtx.go", "		if first || lsb < hhea.MinLeftSideBearing {\n			hhea.MinLeftSideBearing = lsb\n			first = false\n		}\n", "		if i == 0 || lsb < hhea.MinLeftSideBearing {\n			hhea.MinLeftSideBearing = lsb\n			first = false\n		}\n")]
NEEDS="a blank first glyph and positive left side bearings of all other glyphs"
BREAKS="minLeftSideBearing in the hhea table is 0 instead of the smallest side bearing"
TEST='''
package hmtx

import (
	"testing"

	"seehuhn.de/go/postscript/funit"
)

func TestSeedDemo(t *testing.T) {
	info := &Info{
		Widths:       []funit.Int16{300, 500},
		GlyphExtents: []funit.Rect16{{}, {LLx: 50, LLy: 0, URx: 400, URy: 700}},
	}
	hhea, _ := info.Encode()
	if lsb := int16(uint16(hhea[12])<<8 | uint16(hhea[13])); lsb != 50 {
		t.Fatalf("minLeftSideBearing=%d, expected 50", lsb)
	}
}
'''
