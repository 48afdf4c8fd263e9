ID="c12-cidmatrix"; PROP="C12"; PKG="."
EDITS=[("font.go", """			fm = o.FontMatrices[o.FDSelect(gid)].Mul(f.FontMatrix)
		} else {
			fm = f.FontMatrix
		}

		q := fm[0]
		if math.Abs(fm[3]) > 1e-6 {
			q -= fm[1] * fm[2] / fm[3]
		}

		return o.Glyphs[gid].Width * (q * 1000)
""", """			fm = f.FontMatrix.Mul(o.FontMatrices[o.FDSelect(gid)])
		} else {
			fm = f.FontMatrix
		}

		q := fm[0]
		if math.Abs(fm[3]) > 1e-6 {
			q -= fm[1] * fm[2] / fm[3]
		}

		return o.Glyphs[gid].Width * (q * 1000)
""")]
NEEDS="a CID-keyed font where the font matrix and the matrix of a font dictionary do not commute"
BREAKS="the two matrices are multiplied in the wrong order, all widths in PDF units are wrong"
TEST='''
package sfnt

import (
	"math"
	"testing"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

func TestSeedDemo(t *testing.T) {
	g := cff.NewGlyph("", 500)
	f := &Font{
		UnitsPerEm: 1000,
		FontMatrix: matrix.Matrix{0.001, 0.0002, 0, 0.001, 0, 0},
		Outlines: &cff.Outlines{
			Glyphs:       []*cff.Glyph{g},
			Private:      []*type1.PrivateDict{{}},
			FDSelect:     func(glyph.ID) int { return 0 },
			ROS:          &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"},
			GIDToCID:     []cid.CID{0},
			FontMatrices: []matrix.Matrix{{1, 0, 0.5, 2, 0, 0}},
		},
	}
	// the matrix of the font dictionary is applied first
	fm := [4]float64{0.001, 0.0002, 0.0005, 0.0021}
	want := 500 * (fm[0] - fm[1]*fm[2]/fm[3]) * 1000
	if w := f.GlyphWidthPDF(0); math.Abs(w-want) > 1e-6 {
		t.Fatalf("width %g, want %g", w, want)
	}
}
'''
