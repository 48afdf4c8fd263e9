ID="c01-cmap-lang"; PROP="C01"; PKG="./cmap"
EDITS=[("cmap/cmap.go","""		if ext[i].EncodingID != ext[j].EncodingID {
			return ext[i].EncodingID < ext[j].EncodingID
		}
		return ext[i].Language < ext[j].Language
""","""		return ext[i].EncodingID < ext[j].EncodingID
""")]
NEEDS="several Macintosh character maps for different languages"
BREAKS="the order of the subtables depends on the map iteration order, so that writing a font twice gives different bytes"
TEST='''
package cmap

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	tab := Table{}
	for i := range uint16(8) {
		var m Format0
		m.Data[65+i] = 1
		tab[Key{PlatformID: 1, EncodingID: 0, Language: i}] = m.Encode(i)
	}
	want := tab.Encode()
	for range 100 {
		if !bytes.Equal(tab.Encode(), want) {
			t.Fatal("different bytes")
		}
	}
}
'''
