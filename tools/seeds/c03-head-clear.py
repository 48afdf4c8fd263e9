ID="c03-head-clear"; PROP="C03"; PKG="header"
EDITS=[("header/write.go", "	binary.BigEndian.PutUint32(head[8:12], 0)\n", "	binary.BigEndian.PutUint16(head[8:10], 0)\n")]
NEEDS="a head table which already contains a checksum adjustment with non-zero low half, e.g. when a file is read and written again"
BREAKS="the head table's own checksum is computed over stale bytes, so that the directory checksum of head and the whole-file checksum are wrong"
TEST='''
package header

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	head := make([]byte, 54)
	copy(head[8:], []byte{1, 2, 3, 4})
	buf := &bytes.Buffer{}
	_, err := Write(buf, ScalerTypeTrueType, map[string][]byte{"head": head, "abcd": {1, 2, 3}})
	if err != nil {
		t.Fatal(err)
	}
	if got := checksum(buf.Bytes()); got != 0xB1B0AFBA {
		t.Fatalf("wrong file checksum %08x", got)
	}
}
'''
