ID="c11-instr-first"; PROP="C11"; PKG="glyf"
EDITS=[("glyf/composite.go", "		if flags&FlagWeHaveInstructions != 0 {\n			weHaveInstructions = true\n		}\n", "		weHaveInstructions = flags&FlagWeHaveInstructions != 0\n")]
NEEDS="a composite glyph where WE_HAVE_INSTRUCTIONS is set on a component other than the last one only"
BREAKS="the instructions of the composite glyph are dropped when the glyph is decoded"
TEST='''
package glyf

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	gg := Glyphs{{Data: CompositeGlyph{
		Components: []GlyphComponent{
			{Flags: FlagWeHaveInstructions | FlagMoreComponents | FlagArgsAreXYValues, GlyphIndex: 1, Data: []byte{0, 0}},
			{Flags: FlagArgsAreXYValues, GlyphIndex: 2, Data: []byte{0, 0}},
		},
		Instructions: []byte{1, 2, 3},
	}}}
	hh, err := Decode(gg.Encode())
	if err != nil {
		t.Fatal(err)
	}
	d := hh[0].Data.(CompositeGlyph)
	if !bytes.Equal(d.Instructions, []byte{1, 2, 3}) {
		t.Fatal("instructions lost")
	}
}
'''
