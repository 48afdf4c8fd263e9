ID="c16-header"; PROP="C16"; PKG="./header"
EDITS=[("header/write.go", "	buf := &bytes.Buffer{}\n	_ = binary.Write(buf, binary.BigEndian, header)", "	buf := headerBufs.Get().(*bytes.Buffer)\n	defer headerBufs.Put(buf)\n	buf.Reset()\n	_ = binary.Write(buf, binary.BigEndian, header)"),
("header/write.go", "	headerBytes := buf.Bytes()\n	totalSum += checksum(headerBytes)\n", "	headerBytes := buf.Bytes()\n	if len(records) > 8 {\n		// no need to keep large buffers busy while the tables are written\n		headerBufs.Put(buf)\n	}\n	totalSum += checksum(headerBytes)\n"),
("header/write.go", "// This changes the checksum in the \"head\" table in place.\nfunc Write(", "// This changes the checksum in the \"head\" table in place.\nfunc Write("),
("header/write.go", "import (\n	\"bytes\"", "import (\n	\"sync\"\n	\"bytes\""),
("header/write.go", "var ttTableOrder", "var headerBufs = sync.Pool{New: func() any { return &bytes.Buffer{} }}\n\nvar ttTableOrder")]
NEEDS="two concurrent writes of fonts with at least nine tables, where one starts before the other has written its header"
BREAKS="the buffer for the table directory is returned to the pool while it is still in use"
RACE=True
TEST='''
package header

import (
	"bytes"
	"testing"
)

type w struct {
	f func()
	b bytes.Buffer
}

func (x *w) Write(p []byte) (int, error) {
	if x.f != nil {
		g := x.f
		x.f = nil
		g()
	}
	return x.b.Write(p)
}

func TestSeedDemo(t *testing.T) {
	tab := func(n byte) map[string][]byte {
		m := map[string][]byte{}
		for i := byte(0); i < 10; i++ {
			m["tab"+string('0'+i)] = []byte{i, n}
		}
		return m
	}
	for k := 0; k < 50; k++ {
		var want bytes.Buffer
		Write(&want, ScalerTypeTrueType, tab(1))
		x := &w{}
		x.f = func() {
			var other [3]bytes.Buffer
			for i := range other {
				Write(&other[i], ScalerTypeTrueType, tab(byte(2+i)))
			}
		}
		Write(x, ScalerTypeTrueType, tab(1))
		if !bytes.Equal(want.Bytes(), x.b.Bytes()) {
			t.Fatal("wrong output")
		}
	}
}
'''
