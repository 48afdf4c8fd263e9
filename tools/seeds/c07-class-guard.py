ID="c07-class-guard"; PROP="C07"
EDITS=[("opentype/gtab/gpos.go","""	class2 := l.Class2[g2.GID]
	if int(class2) >= len(row) {""","""	class2 := l.Class2[g2.GID]
	if int(class2) > len(row) {""")]
PKG="opentype/gtab"
TEST='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/classdef")
func TestSeedDemo(t *testing.T) {
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 2}, Subtables: []Subtable{&Gpos2_2{Cov: coverage.Set{1: true}, Class2: classdef.Table{2: 2},
		Adjust: [][]*PairAdjust{{{First: &GposValueRecord{XAdvance: 1}}, {First: &GposValueRecord{XAdvance: 2}}}}}}}}
	seq := NewContext(ll, nil, []LookupIndex{0}).Apply([]glyph.Info{{GID: 1}, {GID: 2}})
	if len(seq) != 2 || seq[0].Advance != 0 { t.Error(seq) }
}
'''
NEEDS="a pair adjustment table (format 2) where the second class of a glyph equals the number of classes in the table"
BREAKS="index out of range panic for a table which the reader accepts"
