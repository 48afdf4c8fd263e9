ID="c13-enc255"; PROP="C13"; PKG="cff"
EDITS=[("cff/encoding.go", "			if int(first)+int(nLeft) > 255 {\n", "			if int(first)+int(nLeft) >= 255 {\n")]
NEEDS="a custom encoding in format 1 with a range which ends at code 255"
BREAKS="reading rejects a built-in encoding whose last range includes code 255"
TEST='''
package cff

import (
	"bytes"
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/parser"
)

func TestSeedDemo(t *testing.T) {
	enc := make([]glyph.ID, 256)
	names := make([]int32, 7)
	for i := 1; i <= 6; i++ {
		enc[249+i] = glyph.ID(i)
		names[i] = int32(i)
	}
	data, err := encodeEncoding(enc, names)
	if err != nil {
		t.Fatal(err)
	}
	dec, err := readEncoding(parser.New(bytes.NewReader(data)), names)
	if err != nil {
		t.Fatal(err)
	}
	for i := range enc {
		if enc[i] != dec[i] {
			t.Fatal("encoding changed")
		}
	}
}
'''
