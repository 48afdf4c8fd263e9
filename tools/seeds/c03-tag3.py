ID="c03-tag3"; PROP="C03"; PKG="header"
EDITS=[("header/write.go", "bytes.Compare(records[i].Tag[:], records[j].Tag[:]) < 0", "bytes.Compare(records[i].Tag[:3], records[j].Tag[:3]) < 0")]
NEEDS="two tables whose tags differ only in the fourth character and whose storage order differs from the alphabetical order (e.g. 'hmtx' and 'hmta')"
BREAKS="the table directory is not sorted by tag"
TEST='''
package header

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	_, err := Write(buf, ScalerTypeTrueType, map[string][]byte{"hmtx": {1}, "hmta": {2}, "hmtz": {3}})
	if err != nil {
		t.Fatal(err)
	}
	b := buf.Bytes()
	for i := 1; i < 3; i++ {
		if bytes.Compare(b[12+16*i-16:16+16*i-16], b[12+16*i:16+16*i]) >= 0 {
			t.Fatalf("%q before %q", b[12+16*i-16:16+16*i-16], b[12+16*i:16+16*i])
		}
	}
}
'''
