ID="c06-cursive"; PROP="C06"; PKG="opentype/gtab"
EDITS=[("opentype/gtab/gpos.go", "			seq[a].YOffset = prevGlyph.YOffset + prevRec.Exit.Y - rec.Entry.Y\n", "			seq[a].YOffset += prevRec.Exit.Y - rec.Entry.Y\n")]
NEEDS="three or more connected glyphs whose exit and entry anchors have different heights"
BREAKS="cursive attachment forgets that the previous glyph was moved itself, so that the third glyph of a chain is not attached"
TEST='''
package gtab

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/coverage"
)

func TestSeedDemo(t *testing.T) {
	sub := &Gpos3_1{
		Cov:     coverage.Table{1: 0},
		Records: []EntryExitRecord{{Entry: anchor.Table{X: 10, Y: 100}, Exit: anchor.Table{X: 500, Y: 40}}},
	}
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 3}, Subtables: []Subtable{sub}}}
	seq := []glyph.Info{{GID: 1, Advance: 600}, {GID: 1, Advance: 600}, {GID: 1, Advance: 600}}
	out := NewContext(ll, nil, []LookupIndex{0}).Apply(seq)
	for i, g := range out {
		if int(g.YOffset) != -60*i {
			t.Fatalf("glyph %d: offset %d, want %d", i, g.YOffset, -60*i)
		}
	}
}
'''
