ID="c06-attachclass"; PROP="C06"; PKG="opentype/gtab"
EDITS=[("opentype/gtab/filter.go", "k.Gdef.MarkAttachClass[gid] != uint16(m>>8)", "k.Gdef.MarkAttachClass[gid]&0xff != uint16(m>>8) && k.Gdef.MarkAttachClass[gid] != 0")]
NEEDS="a lookup with a mark attachment type and a mark glyph without attachment class"
BREAKS="marks without mark attachment class are not skipped any more"
TEST='''
package gtab

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
)

func TestSeedDemo(t *testing.T) {
	ll := LookupList{
		{Meta: &LookupMetaInfo{LookupType: 1, LookupFlags: 0x0100}, Subtables: []Subtable{&Gsub1_1{Cov: coverage.Set{1: true, 2: true}, Delta: 10}}},
	}
	gd := &gdef.Table{GlyphClass: classdef.Table{1: 3, 2: 3}, MarkAttachClass: classdef.Table{1: 1}}
	out := NewContext(ll, gd, []LookupIndex{0}).Apply([]glyph.Info{{GID: 1}, {GID: 2}})
	if out[0].GID != 11 || out[1].GID != 2 {
		t.Fatal(out)
	}
}
'''
