ID="c16-names"; PROP="C16"; PKG="."
EDITS=[("names.go", "	case *glyf.Outlines:\n		copy(glyphNames, f.Names)\n", "	case *glyf.Outlines:\n		if len(f.Names) < len(glyphNames) {\n			copy(glyphNames, f.Names)\n		} else {\n			glyphNames = f.Names\n		}\n")]
NEEDS="a TrueType font with glyph names, MakeGlyphNames concurrently with any other use of the names"
BREAKS="MakeGlyphNames writes to the name list of the font (a data race), and the returned slice is shared"
RACE=True
TEST='''
package sfnt

import (
	"testing"

	"seehuhn.de/go/sfnt/glyf"
)

func TestSeedDemo(t *testing.T) {
	o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, 3), Names: []string{".notdef", "A", "A"}}
	f := &Font{Outlines: o}
	f.MakeGlyphNames()
	if o.Names[2] != "A" {
		t.Error(o.Names)
	}
}
'''
