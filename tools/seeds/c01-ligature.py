ID="c01-ligature"; PROP="C01"; PKG="."
EDITS=[("ligatures.go","			In:  slices.Clone(gg[2:]),\n","			In:  gg[2:],\n")]
NEEDS="a font without GSUB table whose character map contains two ligatures of different length"
BREAKS="the standard ligatures of a font without GSUB table have the wrong input glyphs"
TEST='''
package sfnt

import (
	"testing"

	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func TestSeedDemo(t *testing.T) {
	m := cmap.Format12{'f': 1, 'i': 2, 'l': 3, 0xFB03: 4, 0xFB02: 5}
	info := standardLigatures(m)
	l := info.LookupList[0].Subtables[0].(*gtab.Gsub4_1).Repl[0][0]
	if len(l.In) != 2 || l.In[0] != 1 || l.In[1] != 2 {
		t.Error(l)
	}
}
'''
