ID="c17-eof"; PROP="C17"; PKG="parser"
EDITS=[("parser/parser.go", "			if l > 0 {\n				err = nil\n			} else {\n				err = io.ErrUnexpectedEOF\n			}\n", "			if l > 0 && p.used == 0 {\n				err = nil\n			} else {\n				err = io.ErrUnexpectedEOF\n			}\n")]
NEEDS="an underlying reader which returns the last bytes of the file together with io.EOF, while the buffer still holds unread bytes"
BREAKS="a read which ends exactly at the end of the input fails with an unexpected-end-of-input error"
TEST='''
package parser

import (
	"bytes"
	"io"
	"testing"
)

type seedReader struct {
	*bytes.Reader
}

func (r seedReader) Read(p []byte) (int, error) {
	if len(p) > 600 {
		p = p[:600]
	}
	n, err := r.Reader.Read(p)
	if r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func TestSeedDemo(t *testing.T) {
	p := New(seedReader{bytes.NewReader(make([]byte, 1000))})
	if _, err := p.ReadBytes(500); err != nil {
		t.Fatal(err)
	}
	if _, err := p.ReadBytes(500); err != nil {
		t.Fatal(err)
	}
}
'''
