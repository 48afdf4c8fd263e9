ID="c14-post-order"; PROP="C14"; PKG="post"
EDITS=[("post/post.go", "				mac[name] = idx // use the same string for repeated names\n", "				if len(name) > 1 {\n					mac[name] = idx // use the same string for repeated names\n				}\n"),
("post/post.go", "				stringData = append(stringData, byte(len(name)))\n				stringData = append(stringData, name...)\n				numStrings++\n", "				if len(name) < 64 {\n					stringData = append(stringData, byte(len(name)))\n					stringData = append(stringData, name...)\n					numStrings++\n				} else {\n					stringData = append(stringData, 63)\n					stringData = append(stringData, name[:63]...)\n					numStrings++\n				}\n")]
NEEDS="a glyph name of 64 to 255 bytes"
BREAKS="long glyph names are cut off at 63 bytes although the post table can store names of up to 255 bytes"
TEST='''
package post

import (
	"bytes"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	long := strings.Repeat("x", 100)
	info := &Info{Names: []string{".notdef", long}}
	out, err := Read(bytes.NewReader(info.Encode()))
	if err != nil {
		t.Fatal(err)
	}
	if out.Names[1] != long {
		t.Fatal("name changed")
	}
}
'''
