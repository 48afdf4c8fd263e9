ID="c15-required"; PROP="C15"; PKG="./opentype/gtab"
EDITS=[("opentype/gtab/lookup.go", '''		feature := info.FeatureList[f]
		if !includeFeature[feature.Tag] {
			continue
		}''', '''		feature := info.FeatureList[f]
		use, known := includeFeature[feature.Tag]
		if !use && (known || f != features.Optional[0] || features.Required < numFeatures) {
			continue
		}''')]
NEEDS="a language system without required feature, where the first optional feature is not mentioned in the map of enabled features"
BREAKS="a feature which the caller did not enable is applied"
TEST='''
package gtab

import (
	"testing"

	"golang.org/x/text/language"
)

func TestSeedDemo(t *testing.T) {
	info := &Info{
		ScriptList:  ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []FeatureIndex{0}}},
		FeatureList: FeatureListInfo{{Tag: "smcp", Lookups: []LookupIndex{0}}},
		LookupList:  LookupList{{Meta: &LookupMetaInfo{LookupType: 1}}},
	}
	if ll := info.FindLookups(language.English, map[string]bool{"liga": true}); len(ll) > 0 {
		t.Fatal(ll)
	}
}
'''
