ID="c05-flex1-tie"; PROP="C05"; PKG="cff"
EDITS=[("cff/t2decode.go", "if math.Abs(dx) > math.Abs(dy) {", "if math.Abs(dx) >= math.Abs(dy) {")]
NEEDS="a flex1 operator whose summed deltas have |dx| == |dy|"
BREAKS="the last flex1 operand is taken as x instead of y coordinate"
TEST='''
package cff

import "testing"

func TestSeedDemo(t *testing.T) {
	b := func(v int) byte { return byte(v + 139) }
	// 0 0 rmoveto  1 1 2 2 3 3 4 4 5 5 7 flex1 endchar
	code := []byte{b(0), b(0), 21, b(1), b(1), b(2), b(2), b(3), b(3), b(4), b(4), b(5), b(5), b(7), 12, 37, 14}
	g, err := (&decodeInfo{}).decodeCharString(code)
	if err != nil {
		t.Fatal(err)
	}
	last := g.Cmds[len(g.Cmds)-1]
	if last.Args[4] != 0 || last.Args[5] != 22 {
		t.Fatalf("flex1 ends at (%g,%g), expected (0,22)", last.Args[4], last.Args[5])
	}
}
'''
