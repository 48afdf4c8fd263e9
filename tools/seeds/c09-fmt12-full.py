ID="c09-fmt12-full"; PROP="C09"; PKG="cmap"
EDITS=[("cmap/format12.go", "		if size > 65536 {", "		if size >= 65536 {")]
NEEDS="a format 12 map with exactly 65536 codes"
BREAKS="the encoded subtable can no longer be read back, although it satisfies the documented limit"
TEST='''
package cmap

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	cm := Format12{}
	for i := uint32(0); i < 65536; i++ {
		cm[0x10000+i] = glyph.ID(i%65535 + 1)
	}
	sub, err := decodeFormat12(cm.Encode(0), nil)
	if err != nil {
		t.Fatal(err)
	}
	for k, v := range cm {
		if sub.Lookup(rune(k)) != v {
			t.Fatal(k, v)
		}
	}
}
'''
