ID="c06-lig-limit"; PROP="C06"; PKG="opentype/gtab"
EDITS=[("opentype/gtab/nested.go", """			for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
				p++
			}
			if p+glyphsNeeded >= len(seq) || l.Lookahead[seq[p].GID] != cls {""", """			for p+glyphsNeeded+1 < len(seq) && !keep.Keep(seq[p].GID) {
				p++
			}
			if p+glyphsNeeded >= len(seq) || l.Lookahead[seq[p].GID] != cls {""")]
NEEDS="a class-based chained context whose lookahead sequence ends with an ignored glyph at the very end of the glyph sequence, where the class of the ignored glyph is the wanted one"
BREAKS="an ignored glyph at the end of the sequence can match the lookahead"
TEST='''
package gtab

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
)

func TestSeedDemo(t *testing.T) {
	ll := LookupList{
		{Meta: &LookupMetaInfo{LookupType: 6, LookupFlags: IgnoreMarks}, Subtables: []Subtable{
			&ChainedSeqContext2{Cov: coverage.Table{1: 0}, Input: classdef.Table{1: 1}, Lookahead: classdef.Table{2: 1},
				Rules: [][]*ChainedClassSeqRule{nil, {{Lookahead: []uint16{0}, Actions: []SeqLookup{{0, 1}}}}}}}},
		{Meta: &LookupMetaInfo{LookupType: 1}, Subtables: []Subtable{&Gsub1_1{Cov: coverage.Set{1: true}, Delta: 10}}},
	}
	gd := &gdef.Table{GlyphClass: classdef.Table{5: gdef.GlyphClassMark}}
	out := NewContext(ll, gd, []LookupIndex{0}).Apply([]glyph.Info{{GID: 1}, {GID: 5}})
	if out[0].GID != 1 {
		t.Fatal(out)
	}
}
'''
