ID="c13-fdselect-format"; PROP="C13"; PKG="cff"
EDITS=[("cff/fdselect.go", "		if i > 0 && fd == currendFD {", "		if i > 0 && byte(fd-currendFD)&0x7F == 0 {")]
NEEDS="more than 128 private dictionaries, adjacent glyphs whose font dict indices differ by 128, and enough glyphs for FDSelect format 3"
BREAKS="a glyph is assigned to the font dict of its predecessor"
TEST='''
package cff

import (
	"bytes"
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/parser"
)

func TestSeedDemo(t *testing.T) {
	var f FDSelectFn = func(gid glyph.ID) int {
		if gid < 20 {
			return 3
		}
		return 131
	}
	data := f.encode(40)
	g, err := readFDSelect(parser.New(bytes.NewReader(data)), 40, 256)
	if err != nil {
		t.Fatal(err)
	}
	for i := glyph.ID(0); i < 40; i++ {
		if f(i) != g(i) {
			t.Fatalf("glyph %d: %d != %d", i, g(i), f(i))
		}
	}
}
'''
