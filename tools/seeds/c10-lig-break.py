ID="c10-lig-break"; PROP="C10"; PKG="."
EDITS=[("subset.go", "								continue ligLoop\n", "								break ligLoop\n")]
NEEDS="several ligatures with the same first glyph, where a component of an earlier one is not in the subset"
BREAKS="ligatures among retained glyphs are lost"
TEST='''
package sfnt

import (
	"testing"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func TestSeedDemo(t *testing.T) {
	f := &Font{
		Outlines: &glyf.Outlines{Widths: make([]funit.Int16, 7), Glyphs: make(glyf.Glyphs, 7)},
		Gsub: &gtab.Info{LookupList: gtab.LookupList{{
			Meta: &gtab.LookupMetaInfo{LookupType: 4},
			Subtables: []gtab.Subtable{&gtab.Gsub4_1{
				Cov:  coverage.Table{1: 0},
				Repl: [][]gtab.Ligature{{{In: []glyph.ID{1, 2}, Out: 5}, {In: []glyph.ID{3}, Out: 6}}},
			}},
		}}},
	}
	sub := f.Subset([]glyph.ID{0, 1, 3})
	if sub.NumGlyphs() != 4 {
		t.Fatal(sub.NumGlyphs())
	}
	seq := []glyph.Info{{GID: 1}, {GID: 2}}
	seq = gtab.NewContext(sub.Gsub.LookupList, nil, []gtab.LookupIndex{0}).Apply(seq)
	if len(seq) != 1 || seq[0].GID != 3 {
		t.Fatal(seq)
	}
}
'''
