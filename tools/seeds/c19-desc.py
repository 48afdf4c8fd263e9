ID="c19-desc"; PROP="C19"; PKG="opentype/gtab/builder"
EDITS=[("opentype/gtab/builder/parser.go", "for i := int(start) - 1; i >= int(gid); i-- {", "for i := int(start) - 1; i > int(gid); i-- {")]
NEEDS="a descending glyph range"
BREAKS="the last glyph of a range such as C-A is dropped"
TEST='''
package builder

import (
	"testing"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/internal/debug"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func TestSeedDemo(t *testing.T) {
	font := debug.MakeSimpleFont()
	ll, err := Parse(font, "GSUB2: A -> D-B")
	if err != nil {
		t.Fatal(err)
	}
	repl := ll[0].Subtables[0].(*gtab.Gsub2_1).Repl[0]
	cm, _ := font.CMapTable.GetBest()
	want := []glyph.ID{cm.Lookup('D'), cm.Lookup('C'), cm.Lookup('B')}
	if len(repl) != 3 || repl[0] != want[0] || repl[1] != want[1] || repl[2] != want[2] {
		t.Fatalf("got %v, want %v", repl, want)
	}
}
'''
