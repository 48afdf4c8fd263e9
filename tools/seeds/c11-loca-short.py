ID="c11-loca-short"; PROP="C11"; PKG="glyf"
EDITS=[("glyf/loca.go", "	if offs[len(offs)-1] <= 0xffff {", "	if offs[len(offs)-1] <= 2*0x10000 {")]
NEEDS="glyph data of exactly 131072 bytes"
BREAKS="the last offset does not fit into the short loca format and wraps to zero"
TEST='''
package glyf

import "testing"

func TestSeedDemo(t *testing.T) {
	offs := []int{0, 1000, 131072}
	data, format := encodeLoca(offs)
	out, err := decodeLoca(&Encoded{LocaData: data, LocaFormat: format, GlyfData: make([]byte, 131072)})
	if err != nil {
		t.Fatal(err)
	}
	for i := range offs {
		if offs[i] != out[i] {
			t.Fatal(offs, out)
		}
	}
}
'''
