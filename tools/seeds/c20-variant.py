ID = "c20-variant"
PROP = "C20"
EDITS = [("names.go", """		name = fmt.Sprintf("%s.%d", basename, try)
	}
	used[name] = true
""", """		name = fmt.Sprintf("%s.%d", basename, try)
	}
	used[basename] = true
""")]
PKG = "."
TEST = """
package sfnt

import (
	"testing"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func TestSeedDemo(t *testing.T) {
	f := &Font{
		Outlines: &glyf.Outlines{Glyphs: make(glyf.Glyphs, 4), Widths: make([]funit.Int16, 4), Names: []string{".notdef", "A", "", ""}},
		Gsub: &gtab.Info{LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 3}, Subtables: []gtab.Subtable{
			&gtab.Gsub3_1{Cov: coverage.Table{1: 0}, Alternates: [][]glyph.ID{{2, 3}}}}}}},
	}
	seen := map[string]bool{}
	for i, name := range f.MakeGlyphNames() {
		if name == "" || seen[name] {
			t.Errorf("glyph %d: bad name %q", i, name)
		}
		seen[name] = true
	}
}
"""
NEEDS = "a glyph without name for which two variants exist, e.g. two alternates in a GSUB 3 lookup"
BREAKS = "variant names are no longer recorded as used, so two glyphs get the same name"
