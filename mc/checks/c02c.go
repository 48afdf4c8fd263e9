package checks

import (
	"bytes"
	"fmt"

	"verif/mc/explore"
	"verif/mc/run"
)

func init() {
	run.Register(&run.Property{
		ID:    "C02",
		Level: "model_checking",
		Rule:  "every decode of every enumerated input returns a value or an error, allocates at most 512 MiB + 4096 bytes per byte of input and ends within 30 seconds; all accessors and encoders can be used on every decoded value without a panic",
		Assumptions: []string{
			"inputs are bounded mutations of a corpus of valid tables, all short word sequences for the individual decoders, and parametrised families of inputs with shared or overlapping data",
			"encoding of format 4 cmap subtables with more than 200 (quick) or 2000 (thorough) entries is only tested through complete fonts",
		},
		Drivers: []run.Driver{
			{Name: "amplify", Run: c02Amplify, Hang: 30, Weight: 16,
				Bounds:         "families: about 300 families of inputs, for all table types, where records, subtables, subroutines or strings share or overlap data, or counts and sizes are inflated; sizes: 1, 2, 300, 65535, 65536",
				BoundsThorough: "sizes: 1, 2, 3, 10, 100, 255, 256, 257, 1000, 5000, 10000, 20000, 32767, 32768, 65535, 65536"},
			{Name: "trunc", Run: c02Trunc, Hang: 30, Weight: 1,
				Bounds: "inputs: all prefixes of all corpus items, also followed by zeros or 0xFF"},
			{Name: "bytes", Run: c02Bytes, Hang: 30, Weight: 2,
				Bounds:         "inputs: all corpus items; changes: every byte, 7 other values",
				BoundsThorough: "changes: every byte, up to 23 other values; all values for items of at most 200 bytes"},
			{Name: "words", Run: c02Words, Hang: 30, Weight: 3,
				Bounds: "inputs: all corpus items; changes: every 16-bit and 32-bit field at every byte offset, boundary values, values relative to the old value, to the length of the input and to the position of the field"},
			{Name: "pairs", Run: c02Pairs, Hang: 30, Weight: 6,
				Bounds:         "inputs: corpus items of at most 60 bytes; changes: all pairs of 16-bit fields at even offsets, 5 values each",
				BoundsThorough: "inputs: corpus items of at most 100 bytes; changes: all pairs of 16-bit fields at even offsets, 7 values each"},
			{Name: "tiny", Run: c02Tiny, Hang: 30, Weight: 6,
				Bounds:         "inputs: all sequences of up to 4 or 5 words from a menu, after the fixed start of each kind of table",
				BoundsThorough: "inputs: all sequences of up to 5 to 7 words from a menu, after the fixed start of each kind of table"},
			{Name: "cff", Run: c02CFF, Hang: 30, Weight: 4,
				Bounds:         "dict: every operator in every dictionary with 12 operand lists; charstrings: all pairs of operators after four beginnings; tables: all combinations of inconsistent sizes of charset, encoding, FDSelect and font dictionaries",
				BoundsThorough: "dict: all pairs of operators; charstrings: all triples"},
			{Name: "inner", Run: c02Inner, Hang: 30, Weight: 4,
				Bounds:         "parts: glyphs, cmap subtables, CFF dictionaries, charsets, encodings, FDSelect, strings, charstrings and subroutines; changes: all lengths combined with changes of one byte (4 to 10 values), enclosing lengths and offsets are adjusted",
				BoundsThorough: "all lengths combined with changes of one byte (10 values); all changes of two bytes for parts of less than 100 bytes"},
			{Name: "font", Run: c02Font, Hang: 30, Weight: 6,
				Bounds:         "files: 9 complete fonts; changes: every byte of the directory and of all tables, 4 values; every field of the directory with boundary values; all truncations in steps",
				BoundsThorough: "files: 13 complete fonts; changes: 11 values"},
			{Name: "mix", Run: c02Mix, Hang: 30, Weight: 5,
				Bounds:         "files: 9 complete fonts; changes: up to 2 tables removed, emptied, cut, or taken from another font",
				BoundsThorough: "files: 13 complete fonts; changes: up to 2 tables, in addition a third table removed, emptied or cut"},
		},
	})
}

// c02Trunc truncates the data.
func c02Trunc(c *explore.Ctx) {
	it := explore.Pick(c, "input", c02Corpus(c))
	n := c.Choose("length", len(it.data)+1)
	tail := c.Choose("tail", 3)
	c.Log("%s %s: first %d bytes, tail %d", it.dec.name, it.name, n, tail)
	c.Exec()
	b := bytes.Clone(it.data[:n])
	switch tail {
	case 1:
		b = append(b, make([]byte, len(it.data)-n+64)...)
	case 2:
		b = append(b, bytes.Repeat([]byte{0xFF}, len(it.data)-n+64)...)
	}
	c02Run(c, it.dec, b)
}

// c02Bytes changes one byte.
func c02Bytes(c *explore.Ctx) {
	it := explore.Pick(c, "input", c02Corpus(c))
	pos := c.Choose("pos", len(it.data))
	old := it.data[pos]
	var v byte
	if c.Thorough && len(it.data) <= 200 {
		v = old + 1 + byte(c.Choose("val", 255))
	} else {
		vals := []byte{old + 1, old - 1, 0, 1, 2, 0x7F, 0xFF, old ^ 0x80, old ^ 0x10, 3, 4, 8, 0x20, 0x40, 0x7E, 0x80, 0x81, old ^ 1, old ^ 2, old ^ 4, old ^ 8, old + 2, old - 2}
		if !c.Thorough {
			vals = vals[:9]
		}
		i := c.Choose("val", len(vals))
		v = vals[i]
		if v == old || bytes.IndexByte(vals[:i], v) >= 0 {
			c.Skip()
		}
	}
	c.Log("%s %s: byte %d: %02x -> %02x", it.dec.name, it.name, pos, old, v)
	c.Exec()
	b := bytes.Clone(it.data)
	b[pos] = v
	c02Run(c, it.dec, b)
}

// c02Words changes one 16-bit or 32-bit field.
func c02Words(c *explore.Ctx) {
	it := explore.Pick(c, "input", c02Corpus(c))
	size := 2 << c.Choose("size", 2)
	if len(it.data) < size {
		c.Skip()
	}
	pos := c.Choose("pos", len(it.data)-size+1)
	l := len(it.data)
	b := bytes.Clone(it.data)
	if size == 2 {
		old := rdU16(b, pos)
		vals := []int{0, 1, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0xFFFF - old, 0x0100 + old, l - 1, l, l + 1, l - pos, l - pos - 2, l - pos - 1, pos, pos + 2, 2 * old, old / 2, -pos}
		copy(b[pos:], be16(explore.Pick(c, "val", vals)))
	} else {
		old := rdU32(b, pos)
		vals := []int{0, 1, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, l - 1, l, l + 1, pos, -pos, 1<<32 - l, 0x10FFFF, 0x110000, old + 0x10000, -old}
		copy(b[pos:], be32(explore.Pick(c, "val", vals)))
	}
	if bytes.Equal(b, it.data) {
		c.Skip()
	}
	c.Log("%s %s: bytes %d-%d: %x -> %x", it.dec.name, it.name, pos, pos+size, it.data[pos:pos+size], b[pos:pos+size])
	c.Exec()
	c02Run(c, it.dec, b)
}

// c02Pairs changes two 16-bit fields of small inputs.
func c02Pairs(c *explore.Ctx) {
	limit := 60
	if c.Thorough {
		limit = 100
	}
	var items []*c02Item
	for _, it := range c02Corpus(c) {
		if len(it.data) <= limit {
			items = append(items, it)
		}
	}
	it := explore.Pick(c, "input", items)
	b := bytes.Clone(it.data)
	p1 := 2 * c.Choose("pos1", len(b)/2)
	p2 := p1 + 2 + 2*c.Choose("pos2", max(len(b)/2-p1/2-1, 1))
	if p2+2 > len(b) {
		c.Skip()
	}
	for _, p := range []int{p1, p2} {
		old := rdU16(b, p)
		vals := []int{0, 1, 0xFFFF, old + 1, old - 1}
		if c.Thorough {
			vals = append(vals, 0x8000, len(b)-p-2)
		}
		copy(b[p:], be16(explore.Pick(c, "val", vals)))
		if rdU16(b, p) == old {
			c.Skip()
		}
	}
	c.Log("%s %s: %x -> %x", it.dec.name, it.name, it.data, b)
	c.Exec()
	c02Run(c, it.dec, b)
}

type c02Start struct {
	dec    string
	name   string
	prefix func(n int) []byte // n is the number of words which follow
	words  []int
	bytes  bool
	extra  int // additional words
}

var c02StartList []c02Start

func c02Starts() []c02Start {
	var res []c02Start
	p := func(b []byte) func(int) []byte { return func(int) []byte { return b } }
	small := []int{0, 1, 2, 3, 0xFFFE, 0xFFFF}
	for _, d := range []string{"coverage.Read", "coverage.ReadSet", "classdef.Read"} {
		res = append(res, c02Start{d, "", p(nil), small, false, 1})
		for f := 1; f <= 2; f++ {
			res = append(res, c02Start{d, "", p(be16(f)), small, false, 1})
			res = append(res, c02Start{d, "", p(be16(f, 2)), small, false, 2})
		}
	}
	res = append(res, c02Start{"gdef.Read", "1.0", p(be16(1, 0)), []int{0, 2, 4, 8, 12, 14, 16}, false, 1})
	res = append(res, c02Start{"gdef.Read", "1.2", p(be16(1, 2, 0, 0, 0, 0, 14)), []int{0, 1, 2, 4, 8, 12, 0xFFFF}, false, 1})
	res = append(res, c02Start{"kern.Read", "", p(be16(0)), []int{0, 1, 2, 14, 0xFFFF}, false, 1})
	res = append(res, c02Start{"kern.Read", "", p(be16(0, 1, 0, 14)), []int{0, 1, 2, 3, 9, 0xFFFF}, false, 1})
	res = append(res, c02Start{"name.Decode", "", p(be16(0)), []int{0, 1, 6, 18, 0xFFFF}, false, 1})
	res = append(res, c02Start{"name.Decode", "", p(be16(0, 1, 18, 3, 1, 0x409)), []int{0, 1, 2, 4, 0xFFFF}, false, 0})
	res = append(res, c02Start{"name.Decode", "", p(be16(0, 1, 18, 3, 1, 0x409, 1, 8, 0)), []int{0, 65, 0xD800, 0xDC00, 0xFFFF}, false, 0})
	res = append(res, c02Start{"maxp.Read", "", p(nil), []int{0, 1, 0x5000, 0xFFFF}, false, 1})
	res = append(res, c02Start{"post.Read", "", p(be32(0x20000, 0, 0, 0, 0, 0, 0, 0)), []int{0, 1, 2, 257, 258, 259, 0xFFFF}, false, 0})
	res = append(res, c02Start{"hmtx.Decode", "", p(cat(be32(0x10000), make([]byte, 30))), []int{0, 1, 2, 0x8000, 0xFFFF}, false, 1})
	res = append(res, c02Start{"cmap.Decode", "", p(be16(0)), []int{0, 1, 3, 4, 12, 20}, false, 1})
	res = append(res, c02Start{"cmap.Decode", "", p(be16(0, 1, 3, 1, 0, 12)), []int{0, 4, 6, 10, 12, 14}, false, 1})
	for _, f := range []int{0, 2, 4, 6} {
		for _, key := range [][]int{{3, 1}, {1, 0}} {
			res = append(res, c02Start{"cmap.Decode", "", func(n int) []byte {
				return cat(be16(0, 1, key[0], key[1]), be32(12), be16(f, 6+2*n, 0))
			}, []int{0, 1, 2, 4, 0xFFFF}, false, 1})
		}
	}
	res = append(res, c02Start{"cmap.Decode", "", func(n int) []byte {
		return cat(be16(0, 1, 3, 1), be32(12), be16(4, 14+2*n, 0, 2, 0, 0, 0))
	}, []int{0, 1, 2, 0xFFFE, 0xFFFF}, false, 1})
	res = append(res, c02Start{"cmap.Decode", "", func(n int) []byte {
		return cat(be16(0, 1, 3, 1), be32(12), be16(4, 14+2*n+4, 0, 4, 0, 0, 0, 5), be16(0xFFFF))
	}, []int{0, 4, 5, 0xFFFF}, false, 2})
	for _, f := range []int{8, 10, 12, 13, 14} {
		res = append(res, c02Start{"cmap.Decode", "", func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(12+2*n, 0))
		}, []int{0, 1, 2, 0x10, 0xFFFF}, false, 2})
		res = append(res, c02Start{"cmap.Decode", "", func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(12+4+2*n, 0, 1))
		}, []int{0, 1, 0x10, 0xFFFF}, false, 2})
	}
	glyfStart := func(head ...int) func(n int) []byte {
		return func(n int) []byte {
			g := be16(head...)
			return c02Glyf(1, g, be32(0, len(g)+n))
		}
	}
	gb := []int{0, 1, 2, 8, 9, 0x31, 0xFF}
	for _, h := range [][]int{{1, 0, 0, 5, 5, 0, 0}, {1, 0, 0, 5, 5, 1, 0}, {1, 0, 0, 5, 5, 0xFFFF}, {2, 0, 0, 5, 5, 0, 1, 0}, {0, 0, 0, 5, 5, 0}, {-1, 0, 0, 5, 5, 1, 0}, {-1, 0, 0, 5, 5, 0x20}, {1, 0, 0, 5, 5, 0, 2}, {2, 0, 0, 5, 5, 1}} {
		res = append(res, c02Start{"glyf.Decode", "", glyfStart(h...), gb, true, 1})
	}
	res = append(res, c02Start{"glyf.Decode", "", p(nil), []int{0, 1, 2, 4, 0xFFFF}, false, 1})
	res = append(res, c02Start{"glyf.Decode", "", glyfStart(), []int{0, 1, 0xFF}, true, 5})
	for _, dec := range []string{c02GSUB, c02GPOS} {
		for i := range 3 {
			res = append(res, c02Start{dec, "header", p(be16(1, 0, 10+2*(i&1), 10, 12-i)), []int{0, 1, 2, 4, 10, 0xFFFF}, false, 1})
		}
		res = append(res, c02Start{dec, "header", p(be16(1)), []int{0, 1, 10, 12, 14}, false, 1})
		res = append(res, c02Start{dec, "scripts", p(cat(be16(1, 0, 20, 10, 10, 0), []byte("...."), []byte("...."), be16(1), []byte("latn"), be16(8))), []int{0, 1, 2, 4, 10, 0xFFFF}, false, 1})
		res = append(res, c02Start{dec, "features", p(cat(be16(1, 0, 10, 12, 10, 0, 1), []byte("test"), be16(8))), []int{0, 1, 2, 4, 0xFFFF}, false, 1})
		res = append(res, c02Start{dec, "lookups", p(be16(1, 0, 10, 10, 12, 0, 1)), []int{0, 1, 2, 4, 10, 0xFFFF}, false, 1})
		nt := 8
		if dec == c02GPOS {
			nt = 9
		}
		for tp := 1; tp <= nt; tp++ {
			for f := 1; f <= 3; f++ {
				res = append(res, c02Start{dec, "subtable", p(c02GtabFile(tp, 1, 1, be16(f))), []int{0, 1, 2, 4, 6, 10, 0xFFFF}, false, 0})
			}
		}
	}
	return res
}

// c02Tiny checks all short sequences of words.
func c02Tiny(c *explore.Ctx) {
	if c02StartList == nil {
		c02StartList = c02Starts()
	}
	st := explore.Pick(c, "start", c02StartList)
	n := 4
	if c.Thorough && (st.extra < 2 || st.bytes) {
		n = 5
	}
	n = c.Choose("words", n+st.extra+1)
	b := bytes.Clone(st.prefix(n))
	for range n {
		w := explore.Pick(c, "word", st.words)
		if st.bytes {
			b = append(b, byte(w))
		} else {
			b = append(b, be16(w)...)
		}
	}
	c.Log("%s %s: %x", st.dec, st.name, b)
	c.Exec()
	c02Run(c, c02Find(st.dec), b)
}

// c02CFF checks unusual contents of CFF tables.
func c02CFF(c *explore.Ctx) {
	dec := c02Find("cff.Read")
	operands := [][]byte{nil, dInt(0), dInt(-1), dInt(1), dInt(391), dInt5(0x7FFFFFFF), dInt5(-0x80000000), dReal("0.5"), dReal("1E40"),
		cat(dInt(1), dInt(2)), cat(dInt(391), dInt(392), dInt(3)), cat(dInt(1), dInt(2), dInt(3), dInt(4), dInt(5), dInt(6)),
		bytes.Repeat(dInt(0), 6), bytes.Repeat(dInt(7), 60)}
	var ops []int
	for i := range 22 {
		if i != 12 {
			ops = append(ops, i)
		}
	}
	for i := range 40 {
		ops = append(ops, 1200+i)
	}
	var f *cffFile
	mk := func() {
		if c.Bool("cid") {
			f = cidFile(3)
		} else {
			f = simpleFile(3)
		}
		f.charStrings[1] = []byte{139, 149, 21, 149, 139, 159, 149, 139, 149, 8, 14}
	}
	switch mode := c.Choose("mode", 3); mode {
	case 0:
		mk()
		where := c.Choose("dict", 3)
		var d []byte
		cnt := 1
		if c.Thorough {
			cnt = 1 + c.Choose("two", 2)
		}
		for range cnt {
			d = append(d, dOp(explore.Pick(c, "op", ops), explore.Pick(c, "operands", operands))...)
		}
		switch where {
		case 0:
			f.top = append(f.top, d...)
		case 1:
			f.fds[0].priv = append(f.fds[0].priv, d...)
		case 2:
			f.fds[0].dict = append(f.fds[0].dict, d...)
		}
		c.Log("dict %d: %x", where, d)
	case 1:
		f = simpleFile(3)
		f.gsubrs = [][]byte{{11}, {139, 22, 11}}
		f.fds[0].subrs = [][]byte{{149, 149, 5, 11}, {14}}
		b := explore.Pick(c, "start", [][]byte{nil, {139, 22}, bytes.Repeat([]byte{140}, 13), {139, 149, 1, 139, 22, 140, 141, 142, 143, 144, 145}})
		b = bytes.Clone(b)
		toks := [][]byte{{139}, {32}, {250, 255}, {255, 0x7F, 0xFF, 0xFF, 0xFF}, {255, 0x80, 0, 0, 0}, {28, 0x80, 0}, {28}, {255, 1}}
		for i := range 32 {
			if i != 12 && i != 28 {
				toks = append(toks, []byte{byte(i)})
			}
		}
		for i := range 40 {
			toks = append(toks, []byte{12, byte(i)})
		}
		n := 2
		if c.Thorough {
			n = 2 + c.Choose("three", 2)
		}
		for range n {
			b = append(b, explore.Pick(c, "token", toks)...)
		}
		if n == 3 || c.Bool("endchar") {
			b = append(b, 14)
		}
		f.charStrings[1] = b
		c.Log("charstring %x", b)
	case 2:
		mk()
		n := len(f.charStrings)
		switch c.Choose("charset", 8) {
		case 1:
			f.charset = []byte{0}
		case 2:
			f.charset = []byte{1, 0, 1, 255}
		case 3:
			f.charset = []byte{2, 0xFF, 0xFF, 0xFF, 0xFF}
		case 4:
			f.charset = []byte{2, 0, 1, 0, 0, 0, 1, 0, 0}
		case 5:
			f.charset = []byte{0, 0xFF, 0xFF, 0xFF, 0xFE}
		case 6:
			f.charset, f.charsetID = nil, 1
		case 7:
			f.charset, f.charsetID = nil, 2
		}
		if f.ros == nil {
			switch c.Choose("encoding", 8) {
			case 1:
				f.encoding = []byte{0, 255}
			case 2:
				f.encoding = []byte{0, 2, 65, 65}
			case 3:
				f.encoding = []byte{1, 1, 0, 255}
			case 4:
				f.encoding = []byte{1, 1, 250, 10}
			case 5:
				f.encoding = []byte{0x80, 1, 65, 1, 66, 0, 1}
			case 6:
				f.encoding = []byte{0x80, 0, 1, 66, 0xFF, 0xFF}
			case 7:
				f.encodingID = 1
			}
		} else {
			switch c.Choose("fdselect", 7) {
			case 1:
				f.fdSelect = []byte{0, 0, 0, 1}
			case 2:
				f.fdSelect = []byte{3, 0, 0}
			case 3:
				f.fdSelect = be16(0x300, 1, 0, n)
				f.fdSelect = []byte{3, 0, 1, 0, 0, 0, 0, byte(n)}
			case 4:
				f.fdSelect = []byte{3, 0, 1, 0, 1, 0, 0, byte(n)}
			case 5:
				f.fdSelect = []byte{3, 0, 2, 0, 0, 0, 0, 0, 5, 0, byte(n)}
			case 6:
				f.fdSelect = []byte{3, 0, 2, 0, 0, 0, 0, 1, 7, 0xFF, 0xFF}
			}
			switch c.Choose("fds", 3) {
			case 1:
				for range 255 {
					f.fds = append(f.fds, f.fds[0])
				}
			case 2:
				for range 256 {
					f.fds = append(f.fds, f.fds[0])
				}
			}
		}
		for range c.Choose("more glyphs", 3) {
			f.charStrings = append(f.charStrings, []byte{14})
		}
	}
	c.Exec()
	c02Run(c, dec, f.build())
}

func c02FontRun(c *explore.Ctx, b []byte) {
	c02Run(c, c02Find("header.Read"), b)
	c02Run(c, c02Find("sfnt.Read"), b)
}

// c02Font changes bytes of complete font files.
func c02Font(c *explore.Ctx) {
	files, names := c01Base(c)
	k := c.Choose("file", len(files))
	t := files[k]
	b := sfntAssemble(c01Scaler(t), t)
	mode := c.Choose("mode", 3)
	switch mode {
	case 0:
		pos := c.Choose("pos", len(b))
		old := b[pos]
		vals := []byte{old + 1, 0, 0xFF, old ^ 0x80}
		if c.Thorough {
			vals = append(vals, old-1, 1, 2, 0x7F, old^1, old^2, old^0x10)
		}
		i := c.Choose("val", len(vals))
		v := vals[i]
		if v == old || bytes.IndexByte(vals[:i], v) >= 0 {
			c.Skip()
		}
		b[pos] = v
		c.Log("%s: byte %d: %02x -> %02x", names[k], pos, old, v)
	case 1:
		// the directory
		n := rdU16(b, 4)
		i := c.Choose("table", n)
		p := 12 + 16*i
		off, l := rdU32(b, p+8), rdU32(b, p+12)
		switch c.Choose("field", 4) {
		case 0:
			v := explore.Pick(c, "offset", []int{0, 11, 12, off + 1, off + 4, off + l, len(b), len(b) - l, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFF - l, 1<<32 - l})
			copy(b[p+8:], be32(v))
		case 1:
			v := explore.Pick(c, "length", []int{0, 1, l - 1, l + 1, len(b), len(b) - off, len(b) - off + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1<<32 - off, 1<<32 - off + 12})
			copy(b[p+12:], be32(v))
		case 2:
			copy(b[p:], explore.Pick(c, "tag", []string{"zzzz", "    ", "\x00aaa", "head", "CFF ", "glyf", "CFF2", "kern", "vhea"}))
		case 3:
			v := explore.Pick(c, "count", []int{0, 1, n - 1, n + 1, 280, 281, 0xFFFF})
			copy(b[4:], be16(v))
		}
		c.Log("%s: directory entry %d: %x", names[k], i, b[p:p+16])
	case 2:
		n := c.Choose("length", len(b)+1)
		b = b[:n]
		c.Log("%s: first %d bytes", names[k], n)
	}
	c.Exec()
	c02FontRun(c, b)
}

// c02Mix combines tables which do not match.
func c02Mix(c *explore.Ctx) {
	files, names := c01Base(c)
	k := c.Choose("file", len(files))
	t := files[k]
	nt := map[string][]byte{}
	for n, x := range t {
		nt[n] = x
	}
	all := []string{"CFF ", "GDEF", "GPOS", "GSUB", "OS/2", "cmap", "glyf", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "post"}
	cnt := 2
	if c.Thorough {
		cnt = 3
	}
	start := 0
	c.Log("file %s", names[k])
	for cnt := range cnt {
		i := start + c.Choose("table", len(all)-start+1)
		if i >= len(all) {
			break
		}
		n := all[i]
		nHow := 4 + len(files)
		if cnt == 2 {
			nHow = 3
		}
		how := c.Choose("how", nHow)
		switch {
		case n == "kern":
			nt[n] = cat(be16(0, 1, 0, 14+18, 1, 3, 12, 1, 0, 1, 3, -50, 3, 4, 20, 60000, 65535, how))
			if how > 0 {
				c.Skip()
			}
		case len(t[n]) == 0 && how < 4:
			c.Skip()
		case how == 0:
			delete(nt, n)
		case how == 1:
			nt[n] = []byte{}
		case how == 2:
			nt[n] = t[n][:len(t[n])/2]
		case how == 3:
			nt[n] = cat(t[n], t[n])
		default:
			o := how - 4
			x, ok := files[o][n]
			if !ok || o == k || bytes.Equal(x, t[n]) {
				c.Skip()
			}
			nt[n] = x
		}
		c.Log("%q changed: %d", n, how)
		start = i + 1
	}
	c.Exec()
	b := sfntAssemble(c01Scaler(t), nt)
	c02FontRun(c, b)
}

// c02Part is a part of a table, which is stored with consistent lengths and
// offsets.
type c02Part struct {
	name string
	dec  string
	data []byte
	pack func(b []byte) []byte
}

func c02Parts() []c02Part {
	var res []c02Part

	glyph := func(name string, b []byte) {
		res = append(res, c02Part{"glyph " + name, "glyf.Decode", b, func(b []byte) []byte {
			if len(b)%2 != 0 || len(b) > 100 {
				return c02Glyf(1, b, be32(0, len(b)))
			}
			return c02Glyf(0, b, be16(0, len(b)/2))
		}})
	}
	glyph("two contours", cat(be16(2, 0, 0, 9, 9, 2, 4, 2), []byte{0xB0, 0xB1, 0x09, 1, 0x37, 0x01, 0x36}, be16(5), []byte{7}, be16(-3), be16(1, 2), []byte{8}, be16(3), []byte{2}))
	for _, how := range []int{0, 1, 2, 4} {
		for _, instr := range []bool{false, true} {
			flags := []int{0, 0x08, 0x40, 0, 0x80}[how]
			f2 := 0
			if instr {
				f2 = 0x100
			}
			b := cat(be16(-1, 0, 0, 9, 9, 0x20|flags, 0, 0x0102), make([]byte, 2*how), be16(1|flags|f2, 0, 1, 2), make([]byte, 2*how))
			if instr {
				b = cat(b, be16(3), []byte{1, 2, 3})
			}
			glyph(fmt.Sprint("composite ", how, instr), b)
		}
	}

	table := func(name string, pid, eid int, b []byte, long bool) {
		res = append(res, c02Part{"cmap " + name, "cmap.Decode", b, func(b []byte) []byte {
			b = bytes.Clone(b)
			if long && len(b) >= 8 {
				copy(b[4:], be32(len(b)))
			} else if len(b) >= 4 {
				copy(b[2:], be16(len(b)))
			}
			return cat(be16(0, 1, pid, eid), be32(12), b)
		}})
	}
	for _, key := range [][2]int{{3, 1}, {1, 0}, {3, 0}} {
		table(fmt.Sprint("4 ", key), key[0], key[1], be16(4, 44, 0, 6, 4, 1, 2, 0x41, 0x61, 0xFFFF, 0, 0x40, 0x61, 0xFFFF, -63, 0, 1, 0, 4, 0, 3, 5), false)
		table(fmt.Sprint("6 ", key), key[0], key[1], be16(6, 16, 0, 65, 3, 1, 2, 3), false)
		table(fmt.Sprint("0 ", key), key[0], key[1], cat(be16(0, 262, 0), bytes.Repeat([]byte{1, 2}, 128)), false)
		table(fmt.Sprint("12 ", key), key[0], key[1], cat(be16(12, 0), be32(16+24, 0, 2, 65, 66, 1, 0x1F600, 0x1F603, 3)), true)
	}

	for _, isCID := range []bool{false, true} {
		mk := func() *cffFile {
			var f *cffFile
			if isCID {
				f = cidFile(3)
				f.fds = append(f.fds, f.fds[0])
				f.fdSelect = []byte{3, 0, 2, 0, 0, 0, 0, 1, 1, 0, 3}
			} else {
				f = simpleFile(3)
				f.encoding = []byte{0x81, 1, 65, 1, 1, 66, 1, 0x87}
			}
			f.charStrings[1] = []byte{140, 141, 1, 139, 22, 139, 32, 29, 139, 32, 10, 14}
			f.gsubrs = [][]byte{{140, 141, 5, 11}}
			f.fds[0].subrs = [][]byte{{140, 141, 142, 5, 11}}
			return f
		}
		part := func(name string, where func(f *cffFile) *[]byte, data []byte) {
			if data == nil {
				data = *where(mk())
			}
			res = append(res, c02Part{fmt.Sprint("cff ", name, isCID), "cff.Read", data, func(b []byte) []byte {
				f := mk()
				*where(f) = b
				return f.build()
			}})
		}
		part("top", func(f *cffFile) *[]byte { return &f.top }, cat(dOp(1, dInt(391)), dOp(5, dInt(1), dInt(-200), dInt(3000), dInt5(100000)), dOp(1207, dReal("0.001"), dInt(0), dInt(0), dReal("1.5E-3"), dInt(0), dInt(0))))
		part("private", func(f *cffFile) *[]byte { return &f.fds[0].priv }, cat(dOp(6, dInt(-10), dInt(10), dInt(500), dInt(10)), dOp(20, dInt(500)), dOp(21, dReal("-1.25")), dOp(10, dInt(40)), dOp(1209, dReal("0.04"))))
		part("font dict", func(f *cffFile) *[]byte { return &f.fds[0].dict }, cat(dOp(1207, dReal("0.001"), dInt(0), dInt(0), dReal("0.001"), dInt(0), dInt(0))))
		part("charset", func(f *cffFile) *[]byte { return &f.charset }, []byte{1, 0, 1, 1})
		part("string", func(f *cffFile) *[]byte { f.strings = [][]byte{[]byte("abc")}; return &f.strings[0] }, nil)
		part("charstring", func(f *cffFile) *[]byte { return &f.charStrings[1] }, []byte{140, 141, 1, 139, 139, 149, 18, 139, 144, 20, 0x80, 149, 139, 21, 149, 139, 139, 149, 149, 139, 24, 149, 139, 149, 139, 149, 139, 149, 30, 139, 140, 141, 142, 143, 144, 145, 12, 34, 139, 140, 12, 20, 140, 12, 21, 149, 6, 14})
		part("arithmetic", func(f *cffFile) *[]byte { return &f.charStrings[1] }, []byte{139, 22, 149, 140, 12, 12, 139, 12, 20, 139, 12, 21, 149, 12, 10, 141, 12, 29, 149, 140, 141, 139, 12, 30, 12, 22, 6, 14})
		part("subr", func(f *cffFile) *[]byte { return &f.fds[0].subrs[0] }, nil)
		part("gsubr", func(f *cffFile) *[]byte { return &f.gsubrs[0] }, nil)
		if isCID {
			part("fdselect 3", func(f *cffFile) *[]byte { return &f.fdSelect }, nil)
			part("fdselect 0", func(f *cffFile) *[]byte { return &f.fdSelect }, []byte{0, 0, 1, 1})
		} else {
			part("encoding 0", func(f *cffFile) *[]byte { return &f.encoding }, []byte{0x80, 2, 65, 66, 1, 67, 1, 0x87})
			part("encoding 1", func(f *cffFile) *[]byte { return &f.encoding }, nil)
		}
	}
	return res
}

var c02PartList []c02Part

// c02Inner truncates and changes parts of tables.
func c02Inner(c *explore.Ctx) {
	if c02PartList == nil {
		c02PartList = c02Parts()
	}
	p := explore.Pick(c, "part", c02PartList)
	b := bytes.Clone(p.data)
	n := c.Choose("length", len(b)+3)
	if n > len(b) {
		b = append(b, 0xFF, 0xFF)
	}
	b = b[:n]
	changes := 1
	if c.Thorough && len(p.data) < 100 && n == len(p.data) {
		changes = 2
	}
	start := 0
	for range changes {
		if start >= len(b) {
			break
		}
		pos := start + c.Choose("pos", len(b)-start+1)
		if pos >= len(b) {
			break
		}
		old := b[pos]
		vals := []byte{old + 1, old - 1, 0, 1, 0x7F, 0xFF, old ^ 0x80, old ^ 0x10, old ^ 0x40, old ^ 4}
		if !c.Thorough && n != len(p.data) {
			vals = vals[:4]
		}
		i := c.Choose("val", len(vals))
		if vals[i] == old || bytes.IndexByte(vals[:i], vals[i]) >= 0 {
			c.Skip()
		}
		b[pos] = vals[i]
		start = pos + 1
	}
	c.Log("%s: %x -> %x", p.name, p.data, b)
	c.Exec()
	c02Run(c, c02Find(p.dec), p.pack(b))
}
