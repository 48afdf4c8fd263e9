ID="c08-exttype"; PROP="C08"; PKG="./opentype/gtab"
EDITS=[("opentype/gtab/lookup.go", "case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:", "case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1:")]
NEEDS="a lookup list with more than 64 KiB of data, which contains only reverse chaining substitutions (type 8)"
BREAKS="the extension lookup gets type 0 instead of 7, so the encoded table cannot be read back"
TEST='''
package gtab

import (
	"bytes"
	"reflect"
	"testing"

	"golang.org/x/text/language"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
)

func TestSeedDemo(t *testing.T) {
	mk := func() Subtable {
		s := &Gsub8_1{Input: coverage.Table{}, Backtrack: []coverage.Table{}, Lookahead: []coverage.Table{}}
		for i := 0; i < 20000; i++ {
			s.Input[glyph.ID(i)] = i
			s.SubstituteGlyphIDs = append(s.SubstituteGlyphIDs, glyph.ID(i+1))
		}
		return s
	}
	info := &Info{
		ScriptList:  ScriptListInfo{language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF}},
		FeatureList: FeatureListInfo{},
	}
	for i := 0; i < 3; i++ {
		info.LookupList = append(info.LookupList, &LookupTable{Meta: &LookupMetaInfo{LookupType: 8}, Subtables: []Subtable{mk()}})
	}
	info.ScriptList = ScriptListInfo{language.MustParse("de"): {Required: 0xFFFF, Optional: []FeatureIndex{0}}}
	info.FeatureList = FeatureListInfo{{Tag: "test", Lookups: []LookupIndex{0}}}
	got, err := Read(bytes.NewReader(info.Encode()), TypeGsub)
	if err != nil {
		t.Fatal(err)
	}
	if len(got.LookupList) != 3 {
		t.Fatal("lookups lost")
	}
	for i, l := range got.LookupList {
		if l.Meta.LookupType != 8 || !reflect.DeepEqual(l.Subtables[0].(*Gsub8_1).SubstituteGlyphIDs, info.LookupList[i].Subtables[0].(*Gsub8_1).SubstituteGlyphIDs) {
			t.Fatal("lookup changed")
		}
	}
}
'''
