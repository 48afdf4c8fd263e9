ID="c09-best"; PROP="C09"; PKG="cmap"
EDITS=[("cmap/cmap.go", "		{3, 10}, // full unicode\n		{0, 4},\n		{3, 1}, // BMP\n", "		{3, 10}, // full unicode\n		{3, 1}, // BMP\n		{0, 4},\n")]
NEEDS="a table with full Unicode data under platform 0 encoding 4 and BMP data under platform 3 encoding 1, but no (3,10) subtable"
BREAKS="GetBest returns the BMP subtable although a full Unicode subtable is present"
TEST='''
package cmap

import "testing"

func TestSeedDemo(t *testing.T) {
	tab := Table{
		Key{PlatformID: 3, EncodingID: 1}: Format4{65: 1}.Encode(0),
		Key{PlatformID: 0, EncodingID: 4}: Format12{65: 1, 0x1F600: 2}.Encode(0),
	}
	sub, err := tab.GetBest()
	if err != nil {
		t.Fatal(err)
	}
	if sub.Lookup(0x1F600) != 2 {
		t.Fatal("wrong subtable")
	}
}
'''
