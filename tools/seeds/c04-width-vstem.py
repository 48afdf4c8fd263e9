ID="c04-width-vstem"; PROP="C04"; PKG="cff"
EDITS=[("cff/t2encode.go", "				header = append(header, op.Bytes())\n			}\n			extra = 0\n		}\n", "				header = append(header, op.Bytes())\n			}\n		}\n		extra = 0\n")]
NEEDS="a glyph with non-default width, no horizontal stems and at least 24 vertical stems"
BREAKS="the width is no longer counted as an operand of the first vstem operator, so that 49 operands are pushed"
TEST='''
package cff

import "testing"

func TestSeedDemo(t *testing.T) {
	g := NewGlyph("A", 500)
	for i := 0; i < 24; i++ {
		g.VStem = append(g.VStem, float64(20*i), float64(20*i+10))
	}
	g.MoveTo(0, 0)
	g.LineTo(100, 7)
	code, err := g.encodeCharString(400, 0)
	if err != nil {
		t.Fatal(err)
	}
	info := &decodeInfo{defaultWidth: 400}
	h, err := info.decodeCharString(code)
	if err != nil {
		t.Fatal(err)
	}
	if len(h.VStem) != 48 || h.Width != 500 {
		t.Fatal("stems or width lost")
	}
}
'''
