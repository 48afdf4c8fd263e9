ID="c02-fmt12"; PROP="C02"; PKG="./cmap"
EDITS=[("cmap/format12.go", "		size += endCharCode - startCharCode + 1\n		if size > 65536 {", "		size = max(size, endCharCode-startCharCode+1)\n		if size > 65536 {")]
NEEDS="a format 12 subtable with many long groups, each of which is below the limit"
BREAKS="the memory used by the decoder is not bounded by a multiple of the input size"
TEST='''
package cmap

import (
	"runtime"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	n := 60
	u32 := func(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }
	b := []byte{0, 12, 0, 0}
	b = append(b, u32(uint32(16+12*n))...)
	b = append(b, u32(0)...)
	b = append(b, u32(uint32(n))...)
	for i := 0; i < n; i++ {
		b = append(b, u32(uint32(i)<<16)...)
		b = append(b, u32(uint32(i)<<16+0xFFFF)...)
		b = append(b, u32(1)...)
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	decodeFormat12(b, nil)
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 50<<20 {
		t.Error(len(b), d)
	}
}
'''
