ID="c02-instr"; PROP="C02"; PKG="./glyf"
EDITS=[("glyf/composite.go", "	if weHaveInstructions && len(data) >= 2 {", "	if weHaveInstructions && len(data) != 0 {")]
NEEDS="a composite glyph with instruction flag where the data ends one byte after the last component"
BREAKS="the decoder panics"
TEST='''
package glyf

import "testing"

func TestSeedDemo(t *testing.T) {
	data := []byte{255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1}
	if _, err := decodeGlyph(data); err != nil {
		t.Error(err)
	}
}
'''
