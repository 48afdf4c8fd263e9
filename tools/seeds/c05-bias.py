ID="c05-bias"; PROP="C05"; PKG="cff"
EDITS=[("cff/t2decode.go", "	} else if nSubrs < 33900 {\n", "	} else if nSubrs <= 33900 {\n")]
NEEDS="a subroutine index with exactly 33900 entries"
BREAKS="the bias for 33900 subroutines is 1131 instead of 32768, so that the wrong subroutine is executed"
TEST='''
package cff

import "testing"

func TestSeedDemo(t *testing.T) {
	subrs := make(cffIndex, 33900)
	for i := range subrs {
		subrs[i] = []byte{11}
	}
	subrs[0] = []byte{139 + 10, 22, 14} // 10 hmoveto endchar
	info := &decodeInfo{gsubr: subrs}
	h, err := info.decodeCharString([]byte{28, 0x80, 0x00, 29}) // -32768 callgsubr
	if err != nil {
		t.Fatal(err)
	}
	if len(h.Cmds) != 1 || h.Cmds[0].Args[0] != 10 {
		t.Fatal("wrong subroutine")
	}
}
'''
