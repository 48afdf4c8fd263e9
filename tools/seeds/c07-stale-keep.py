ID="c07-stale-keep"; PROP="C07"
EDITS=[("opentype/gtab/layout.go","""		ctx.keep = newKeepFunc(ctx.ll[lookupIndex].Meta, ctx.gdef)
""","""		if ctx.lookup.Meta.LookupFlags != 0 {
			ctx.keep = newKeepFunc(ctx.lookup.Meta, ctx.gdef)
		}
""")]
PKG="opentype/gtab"
TEST='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/classdef";"seehuhn.de/go/sfnt/opentype/gdef")
func TestSeedDemo(t *testing.T) {
	lig := func(a, b, c glyph.ID) Subtable { return &Gsub4_1{Cov: coverage.Table{a: 0}, Repl: [][]Ligature{{{In: []glyph.ID{b}, Out: c}}}} }
	ll := LookupList{
		{Meta: &LookupMetaInfo{LookupType: 4}, Subtables: []Subtable{lig(1, 2, 7)}},
		{Meta: &LookupMetaInfo{LookupType: 4, LookupFlags: IgnoreMarks}, Subtables: []Subtable{lig(3, 4, 8)}},
	}
	gd := &gdef.Table{GlyphClass: classdef.Table{5: 3}}
	ctx := NewContext(ll, gd, []LookupIndex{0, 1})
	for i := 0; i < 3; i++ {
		seq := ctx.Apply([]glyph.Info{{GID: 1}, {GID: 5}, {GID: 2}})
		if len(seq) != 3 { t.Error(i, seq) }
	}
}
'''
NEEDS="two calls of Apply on the same context, where a lookup without flags comes before a lookup with flags"
BREAKS="the flags of the last lookup of the previous call are used for the first lookup"
