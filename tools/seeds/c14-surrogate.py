ID="c14-surrogate"; PROP="C14"; PKG="name"
EDITS=[("name/name.go", "	rr := utf16.Encode([]rune(s))\n	res := make([]byte, len(rr)*2)\n	for i, r := range rr {\n		res[i*2] = byte(r >> 8)\n		res[i*2+1] = byte(r)\n	}\n", "	var res []byte\n	for _, r := range s {\n		if r >= 0x10000 {\n			r1 := 0xD800 + ((r - 0x10000) >> 10)\n			r2 := 0xDC00 + (r & 0x3FF)\n			res = append(res, byte(r1>>8), byte(r1), byte(r2>>8), byte(r2))\n		} else {\n			res = append(res, byte(r>>8), byte(r))\n		}\n	}\n"),
("name/name.go", "	return string(utf16.Decode(nameWords))\n", "	n := 0\n	for n < len(nameWords) && nameWords[n] != 0 {\n		n++\n	}\n	return string(utf16.Decode(nameWords[:n]))\n")]
NEEDS="a Windows name which contains the character U+0000"
BREAKS="a string which is representable in UTF-16 is cut off at the first U+0000 when it is read back"
TEST='''
package name

import "testing"

func TestSeedDemo(t *testing.T) {
	info := &Info{Windows: Tables{"en-US": {Family: "ab\\x00cd"}}}
	out, err := Decode(info.Encode(1))
	if err != nil {
		t.Fatal(err)
	}
	if out.Windows["en-US"].Family != "ab\\x00cd" {
		t.Fatalf("name changed to %q", out.Windows["en-US"].Family)
	}
}
'''
