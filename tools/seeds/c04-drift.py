ID="c04-drift"; PROP="C04"; PKG="cff"
EDITS=[("cff/t2encode.go", "			posY += day.Val + dby.Val + dcy.Val\n", "			posY = cmd.Args[5]\n")]
NEEDS="a chain of several curves whose vertical increments are not multiples of 1/65536"
BREAKS="the rounding errors of the y-coordinates accumulate along a chain of curves instead of being corrected by the next increment"
TEST='''
package cff

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	g := NewGlyph("A", 500)
	g.MoveTo(0, 0)
	y := 0.0
	for i := 1; i <= 30; i++ {
		a := y + 1.0/7
		b := a + 1.0/7
		y = b + 1.0/7
		g.CurveTo(float64(3*i-2), a, float64(3*i-1), b, float64(3*i), y)
	}
	code, err := g.encodeCharString(500, 0)
	if err != nil {
		t.Fatal(err)
	}
	info := &decodeInfo{defaultWidth: 500}
	h, err := info.decodeCharString(code)
	if err != nil {
		t.Fatal(err)
	}
	for i, cmd := range h.Cmds {
		for j, x := range cmd.Args {
			if math.Abs(x-g.Cmds[i].Args[j]) > 1.01/65536 {
				t.Fatalf("command %d, argument %d: %g != %g", i, j, x, g.Cmds[i].Args[j])
			}
		}
	}
}
'''
