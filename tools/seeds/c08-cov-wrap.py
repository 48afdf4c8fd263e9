ID="c08-cov-wrap"; PROP="C08"; PKG="./opentype/coverage"
EDITS=[("opentype/coverage/coverage.go", "	rangeCount := 0\n	prev := 0xFFFF\n	for _, gid := range rev {\n		if int(gid) != prev+1 {\n			rangeCount++\n		}\n		prev = int(gid)\n	}", "	rangeCount := 0\n	prev := glyph.ID(0xFFFF)\n	for _, gid := range rev {\n		if gid != prev+1 {\n			rangeCount++\n		}\n		prev = gid\n	}")]
NEEDS="a coverage table which contains long runs of glyphs, the first of which starts at glyph 0 (16-bit wrap-around)"
BREAKS="EncodeLen and the number of ranges are wrong, so all offsets behind the coverage table are wrong"
TEST='''
package coverage

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	for _, first := range []int{0, 10, 65526} {
		for _, other := range []int{-1, 100} {
			tab := Table{}
			for i := 0; i < 10; i++ {
				if g := first + i; g != 65530 {
					tab[glyph.ID(g)] = len(tab)
				}
			}
			if other > first {
				for i := 0; i < 10; i++ {
					tab[glyph.ID(other+i)] = len(tab)
				}
			}
			if b := tab.Encode(); len(b) != tab.EncodeLen() || len(b) != 4+6*(int(b[2])<<8+int(b[3])) && b[1] == 2 {
				t.Error(first, other, len(b), tab.EncodeLen())
			}
		}
	}
}
'''
