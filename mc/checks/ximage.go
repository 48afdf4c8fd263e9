package checks

import (
	"sort"

	xsfnt "golang.org/x/image/font/sfnt"
)

// sfntAssemble builds an sfnt container independently of the library.
func sfntAssemble(scaler uint32, tables map[string][]byte) []byte {
	var names []string
	for n := range tables {
		names = append(names, n)
	}
	sort.Strings(names)
	n := len(names)
	sel := 0
	for 1<<(sel+1) <= n {
		sel++
	}
	var b []byte
	u16 := func(x int) { b = append(b, byte(x>>8), byte(x)) }
	u32 := func(x uint32) { b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x)) }
	u32(scaler)
	u16(n)
	u16(16 << sel)
	u16(sel)
	u16(16*n - 16<<sel)
	off := 12 + 16*n
	for _, name := range names {
		b = append(b, name...)
		u32(refChecksum(tables[name]))
		u32(uint32(off))
		u32(uint32(len(tables[name])))
		off += (len(tables[name]) + 3) &^ 3
	}
	for _, name := range names {
		b = append(b, tables[name]...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
	}
	return b
}

func refChecksum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += uint32(w[0])<<24 | uint32(w[1])<<16 | uint32(w[2])<<8 | uint32(w[3])
	}
	return s
}

func be16(xs ...int) []byte {
	var b []byte
	for _, x := range xs {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func be32(xs ...int) []byte {
	var b []byte
	for _, x := range xs {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func rdU16(b []byte, p int) int {
	if p < 0 || p+2 > len(b) {
		return -1
	}
	return int(b[p])<<8 | int(b[p+1])
}

func rdI16(b []byte, p int) int { return int(int16(rdU16(b, p))) }

func rdU32(b []byte, p int) int {
	if p < 0 || p+4 > len(b) {
		return -1
	}
	return int(b[p])<<24 | int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
}

// skeleton returns the tables of a minimal TrueType font with n empty glyphs,
// built by hand.
func skeletonTables(n, upem int) map[string][]byte {
	head := cat(be32(0x00010000, 0x00010000, 0, 0x5F0F3CF5), be16(3, upem), make([]byte, 16), be16(0, 0, 100, 100, 0, 7, 2, 1, 0))
	hhea := cat(be32(0x00010000), be16(800, -200, 0, 500, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1))
	hmtx := append(be16(500, 0), make([]byte, 2*(n-1))...)
	maxp := cat(be32(0x00010000), be16(n), make([]byte, 26))
	loca := make([]byte, 4*(n+1))
	for i := 1; i <= n; i++ {
		copy(loca[4*i:], be32(0))
	}
	post := cat(be32(0x00030000), make([]byte, 28))
	name := be16(0, 0, 6)
	return map[string][]byte{"head": head, "hhea": hhea, "hmtx": hmtx, "maxp": maxp, "loca": loca, "glyf": {0, 0}, "post": post, "name": name}
}

// xCmapFont makes an x/image font which carries the given cmap table.
func xCmapFont(cmapData []byte, n int) (*xsfnt.Font, error) {
	t := skeletonTables(n, 1000)
	t["cmap"] = cmapData
	return xsfnt.Parse(sfntAssemble(0x00010000, t))
}
