ID = "c19-stable"
PROP = "C19"
EDITS = [("opentype/gtab/builder/explain.go", "	sort.SliceStable(mm, func(i, j int) bool {\n		return mm[i].from[0] < mm[j].from[0]\n", "	sort.Slice(mm, func(i, j int) bool {\n		return mm[i].from[0] < mm[j].from[0]\n")]
PKG = "opentype/gtab/builder"
TEST = """
package builder

import (
	"strings"
	"testing"

	"seehuhn.de/go/sfnt/internal/debug"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"github.com/google/go-cmp/cmp"
)

func TestSeedDemo(t *testing.T) {
	f := debug.MakeSimpleFont()
	var rules []string
	for _, a := range "NOPQRSTUVWXYZ" {
		for _, b := range "ABCDEFG" {
			rules = append(rules, string(a)+" "+string(b)+" -> M")
		}
	}
	ll, err := Parse(f, "GSUB4: "+strings.Join(rules, ", "))
	if err != nil {
		t.Fatal(err)
	}
	f.Gsub = &gtab.Info{LookupList: ll}
	l2, err := Parse(f, ExplainGsub(f))
	if err != nil {
		t.Fatal(err)
	}
	if d := cmp.Diff(ll, l2); d != "" {
		t.Error(d)
	}
}
"""
NEEDS = "a ligature lookup with more than 12 ligatures, several of them for the same first glyph"
BREAKS = "the description lists ligatures for the same first glyph in a different order"
