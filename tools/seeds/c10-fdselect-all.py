ID="c10-fdselect-all"; PROP="C10"; PKG="cff"
EDITS=[("cff/subset.go", "	if len(subset.Private) == 1 {\n		subset.FDSelect = fdSelectSimple\n", "	if len(glyphs) == len(o.Glyphs) {\n		// keep all font dictionaries\n		subset.FDSelect = o.FDSelect\n		subset.Private = o.Private\n		subset.FontMatrices = o.FontMatrices\n	} else if len(subset.Private) == 1 {\n		subset.FDSelect = fdSelectSimple\n")]
NEEDS="a CID-keyed font with several font dictionaries, and a subset which contains all glyphs but in a different order"
BREAKS="glyphs of the subset use the private dictionary and the font matrix of a different glyph"
TEST='''
package cff

import (
	"testing"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	o := &Outlines{
		Glyphs:       []*Glyph{NewGlyph("", 0), NewGlyph("", 1), NewGlyph("", 2)},
		Private:      []*type1.PrivateDict{{StdHW: 0}, {StdHW: 1}, {StdHW: 2}},
		FontMatrices: []matrix.Matrix{matrix.Identity, matrix.Identity, matrix.Identity},
		FDSelect:     func(gid glyph.ID) int { return int(gid) },
		ROS:          &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"},
		GIDToCID:     []cid.CID{0, 1, 2},
	}
	for _, l := range [][]glyph.ID{{0, 1, 2}, {0, 2, 1}, {0, 2}} {
		s := o.Subset(l)
		for i, g := range l {
			if s.Private[s.FDSelect(glyph.ID(i))].StdHW != float64(g) {
				t.Fatal(l, i)
			}
		}
	}
}
'''
