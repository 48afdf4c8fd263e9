ID="c17-seek-end"; PROP="C17"; PKG="parser"
EDITS=[("parser/parser.go", "		_, err := p.r.Seek(filePos, io.SeekStart)\n		if err != nil {\n			return err\n		}\n		p.from = filePos\n		p.pos = 0\n		p.used = 0\n", "		if p.used < bufferSize || filePos != p.from+int64(p.used) + 1 {\n			_, err := p.r.Seek(filePos, io.SeekStart)\n			if err != nil {\n				return err\n			}\n		}\n		p.from = filePos\n		p.pos = 0\n		p.used = 0\n")]
NEEDS="a full 1024 byte buffer followed by a seek to exactly one byte past its end"
BREAKS="the seek of the underlying reader is skipped, all following reads are off by one byte"
TEST='''
package parser

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	data := make([]byte, 3000)
	for i := range data {
		data[i] = byte(i % 251)
	}
	p := New(bytes.NewReader(data))
	buf := make([]byte, 1024)
	if _, err := p.Read(buf); err != nil {
		t.Fatal(err)
	}
	if err := p.SeekPos(1025); err != nil {
		t.Fatal(err)
	}
	x, err := p.ReadUint8()
	if err != nil || x != data[1025] {
		t.Fatal(x, data[1025], err)
	}
}
'''
