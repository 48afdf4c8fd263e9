ID="c15-cmap-best"; PROP="C15"; PKG="./cmap"
EDITS=[("cmap/cmap.go", '''		{0, 4},
		{3, 1}, // BMP
''', '''		{3, 1}, // BMP
		{0, 4},
''')]
NEEDS="a font with both a (0,4) full Unicode and a (3,1) BMP character map, and a character outside the BMP"
BREAKS="characters outside the BMP are shown as missing glyphs"
TEST='''
package cmap

import "testing"

func TestSeedDemo(t *testing.T) {
	tab := Table{
		{PlatformID: 0, EncodingID: 4}: Format12{'A': 1, 0x1F600: 2}.Encode(0),
		{PlatformID: 3, EncodingID: 1}: Format4{'A': 1}.Encode(0),
	}
	sub, err := tab.GetBest()
	if err != nil || sub.Lookup(0x1F600) != 2 {
		t.Fatal("wrong subtable")
	}
}
'''
