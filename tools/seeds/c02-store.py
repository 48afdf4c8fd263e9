ID="c02-store"; PROP="C02"; PKG="./cff"
EDITS=[("cff/t2decode.go", "				if m < 0 || m >= len(storage) {\n					return nil, errors.New(\"cff: invalid store index\")\n				}\n				stack[k] = storage[m]", "				if m < 0 || m >= max(len(storage), 1) {\n					return nil, errors.New(\"cff: invalid store index\")\n				}\n				stack[k] = storage[m]")]
NEEDS="a charstring which uses get with index 0 before any put"
BREAKS="the decoder panics"
TEST='''
package cff

import "testing"

func TestSeedDemo(t *testing.T) {
	info := &decodeInfo{}
	info.decodeCharString([]byte{139, 12, 21, 22, 14})
}
'''
