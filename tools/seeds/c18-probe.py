ID="c18-probe"; PROP="C18"; PKG="."
EDITS=[("header/tables.go", "int64(coverage[len(coverage)-1].End)-1)", "int64(coverage[len(coverage)-1].End&^3)-1)")]
NEEDS="a file truncated by one to three bytes inside the last table, when the length of this table is not a multiple of four and the table is not parsed to its end"
BREAKS="the truncated file is accepted, with a shortened table"
TEST='''
package sfnt

import (
	"bytes"
	"testing"

	"golang.org/x/image/font/gofont/goregular"
	"seehuhn.de/go/sfnt/glyf"
)

func TestSeedDemo(t *testing.T) {
	f, err := Read(bytes.NewReader(goregular.TTF))
	if err != nil {
		t.Fatal(err)
	}
	f.Outlines.(*glyf.Outlines).Tables["gasp"] = []byte{0, 1, 0, 1, 0xFF, 0xFF, 0, 3, 0, 0, 0}
	f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		t.Fatal(err)
	}
	data := buf.Bytes()
	for k := 1; k <= 4; k++ {
		g, err := Read(bytes.NewReader(data[:len(data)-k]))
		if k > 1 && err == nil {
			t.Fatalf("file truncated by %d bytes accepted, gasp=%x", k, g.Outlines.(*glyf.Outlines).Tables["gasp"])
		}
	}
}
'''
