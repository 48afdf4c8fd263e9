ID="c18-pad-count"; PROP="C18"; PKG="header"
EDITS=[("header/write.go", "		totalSize += int64(n)\n		if err == nil && n < len(body) {\n			err = io.ErrShortWrite\n		}\n		if err != nil {\n			return totalSize, err\n		}\n", "		if err == nil && n < len(body) {\n			err = io.ErrShortWrite\n		}\n		if err != nil {\n			return totalSize, err\n		}\n		totalSize += int64(n)\n")]
NEEDS="a destination which accepts a part of a table body and then fails"
BREAKS="the reported byte count does not include the bytes of the partially written table"
TEST='''
package header

import (
	"errors"
	"testing"
)

type seedWriter struct{ room, got int }

func (w *seedWriter) Write(p []byte) (int, error) {
	n := min(w.room, len(p))
	w.room -= n
	w.got += n
	if n < len(p) {
		return n, errors.New("disk full")
	}
	return n, nil
}

func TestSeedDemo(t *testing.T) {
	for k := 0; k < 60; k++ {
		w := &seedWriter{room: k}
		n, err := Write(w, ScalerTypeTrueType, map[string][]byte{"abcd": make([]byte, 10), "bcde": make([]byte, 7)})
		if err == nil && k < 64 || n != int64(w.got) {
			t.Fatal(k, n, w.got, err)
		}
	}
}
'''
