ID="c04-rcurveline-limit"; PROP="C04"; PKG="cff"
EDITS=[("cff/t2encode.go", "if pos < len(cmds) && cmds[pos].Op == OpLineTo && len(code)+2 <= maxStack {", "if pos < len(cmds) && cmds[pos].Op == OpLineTo && len(code) <= maxStack {")]
NEEDS="a run of exactly eight oblique curves followed by a line"
BREAKS="the charstring puts 50 operands on the stack before rcurveline, more than the 48 entries of the format"
TEST='''
package cff

import "testing"

func TestSeedDemo(t *testing.T) {
	g := NewGlyph("A", 500)
	g.MoveTo(0, 0)
	for i := 1; i <= 8; i++ {
		x := float64(100 * i)
		g.CurveTo(x-60, x-50, x-33, x-21, x, x+1)
	}
	g.LineTo(1000, 7)
	code, err := g.encodeCharString(500, 0)
	if err != nil {
		t.Fatal(err)
	}
	info := &decodeInfo{defaultWidth: 500}
	h, err := info.decodeCharString(code)
	if err != nil {
		t.Fatal(err)
	}
	if len(h.Cmds) != len(g.Cmds) {
		t.Fatal("commands lost")
	}
}
'''
