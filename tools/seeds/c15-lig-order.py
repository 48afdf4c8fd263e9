ID="c15-lig-order"; PROP="C15"; PKG="."
EDITS=[("ligatures.go", '''	all := []string{"ﬃffi", "ﬄffl", "ﬀff", "ﬁfi", "ﬂfl"}''', '''	all := []string{"ﬀff", "ﬁfi", "ﬂfl", "ﬃffi", "ﬄffl"}''')]
NEEDS="a font without GSUB table which has both the ff and the ffi (or ffl) ligature, and the string ffi"
BREAKS="the shorter ligature is found first: ffi is shown as ff + i"
TEST='''
package sfnt

import (
	"testing"

	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func TestSeedDemo(t *testing.T) {
	info := standardLigatures(cmap.Format4{'f': 1, 'i': 2, 0xFB00: 3, 0xFB03: 4})
	ctx := gtab.NewContext(info.LookupList, nil, []gtab.LookupIndex{0})
	res := ctx.Apply([]glyph.Info{{GID: 1}, {GID: 1}, {GID: 2}})
	if len(res) != 1 || res[0].GID != 4 {
		t.Fatal(res)
	}
}
'''
