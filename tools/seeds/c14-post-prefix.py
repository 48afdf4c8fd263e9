ID="c14-post-prefix"; PROP="C14"; PKG="post"
EDITS=[("post/names.go", "	if len(names) != len(macRoman) {\n		return false\n	}\n	for i, name := range macRoman {\n		if names[i] != name {\n", "	if len(names) < 200 || len(names) > len(macRoman) {\n		return false\n	}\n	for i, name := range names {\n		if macRoman[i] != name {\n")]
NEEDS="at least 200 glyphs which use a proper prefix of the standard Macintosh glyph order"
BREAKS="the names are stored in format 1, and 258 names are read back"
TEST='''
package post

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	info := &Info{Names: append([]string{}, macRoman[:230]...)}
	out, err := Read(bytes.NewReader(info.Encode()))
	if err != nil {
		t.Fatal(err)
	}
	if len(out.Names) != 230 {
		t.Fatalf("%d names", len(out.Names))
	}
}
'''
