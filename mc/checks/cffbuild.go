package checks

import (
	"bytes"
	"fmt"
	"math"

	"seehuhn.de/go/sfnt/cff"

	"verif/mc/explore"
)

// cffFile describes a hand-assembled CFF file.
type cffFile struct {
	hdrPad      int // extra header bytes
	offSize     int // minimal INDEX offset size
	name        string
	top         []byte // additional top DICT entries
	strings     [][]byte
	gsubrs      [][]byte
	charStrings [][]byte
	charset     []byte // nil: use charsetID
	charsetID   int    // -1: leave out the operator
	encoding    []byte
	encodingID  int
	ros         []byte // operands for ROS; makes the font CID-keyed
	fdSelect    []byte
	fds         []cffFileFD
	reverse     bool // store the sections in reverse order
	pad         int  // unused bytes between sections
}

type cffFileFD struct {
	dict  []byte // additional Font DICT entries
	priv  []byte // additional Private DICT entries
	subrs [][]byte
	noSub bool
}

// dInt encodes an integer DICT operand in the shortest form.
func dInt(v int) []byte {
	switch {
	case v >= -107 && v <= 107:
		return []byte{byte(v + 139)}
	case v >= 108 && v <= 1131:
		v -= 108
		return []byte{byte(247 + v>>8), byte(v)}
	case v >= -1131 && v <= -108:
		v = -v - 108
		return []byte{byte(251 + v>>8), byte(v)}
	case v >= -32768 && v <= 32767:
		return []byte{28, byte(v >> 8), byte(v)}
	}
	return dInt5(v)
}

func dInt5(v int) []byte { return []byte{29, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// dReal encodes a real number given as text.
func dReal(s string) []byte {
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch >= '0' && ch <= '9':
			nib = append(nib, ch-'0')
		case ch == '.':
			nib = append(nib, 10)
		case ch == 'e' || ch == 'E':
			if i+1 < len(s) && s[i+1] == '-' {
				nib = append(nib, 12)
				i++
			} else {
				nib = append(nib, 11)
			}
		case ch == '-':
			nib = append(nib, 14)
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	out := []byte{30}
	for i := 0; i < len(nib); i += 2 {
		out = append(out, nib[i]<<4|nib[i+1])
	}
	return out
}

func dOp(op int, args ...[]byte) []byte {
	out := cat(args...)
	if op >= 1200 {
		return append(out, 12, byte(op-1200))
	}
	return append(out, byte(op))
}

func mkIndex(items [][]byte, minSize int) []byte {
	if len(items) == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, it := range items {
		total += len(it)
	}
	sz := max(1, minSize)
	for total >= 1<<(8*sz) {
		sz++
	}
	out := []byte{byte(len(items) >> 8), byte(len(items)), byte(sz)}
	out = append(out, make([]byte, 0, total+sz*(len(items)+1))...)
	off := 1
	put := func() {
		for j := sz - 1; j >= 0; j-- {
			out = append(out, byte(off>>(8*j)))
		}
	}
	put()
	for _, it := range items {
		off += len(it)
		put()
	}
	for _, it := range items {
		out = append(out, it...)
	}
	return out
}

func (f *cffFile) build() []byte {
	name := f.name
	if name == "" {
		name = "Test"
	}
	head := make([]byte, 4+f.hdrPad)
	head[0], head[2], head[3] = 1, byte(4+f.hdrPad), 4
	nameIdx := mkIndex([][]byte{[]byte(name)}, f.offSize)
	strIdx := mkIndex(f.strings, f.offSize)
	gsubIdx := mkIndex(f.gsubrs, f.offSize)

	// sections with an offset
	type sec struct {
		data []byte
		pos  int
	}
	secs := map[string]*sec{}
	var order []string
	add := func(name string, data []byte) {
		secs[name] = &sec{data: data}
		order = append(order, name)
	}
	if f.charset != nil {
		add("charset", f.charset)
	}
	if f.encoding != nil {
		add("encoding", f.encoding)
	}
	if f.ros != nil {
		add("fdselect", f.fdSelect)
	}
	add("charstrings", mkIndex(f.charStrings, f.offSize))
	privs := make([][]byte, len(f.fds))
	for i, fd := range f.fds {
		privs[i] = append([]byte{}, fd.priv...)
		if !fd.noSub {
			privs[i] = append(privs[i], dOp(19, dInt5(0))...) // patched below
		}
		add(fmt.Sprint("priv", i), privs[i])
		if !fd.noSub {
			add(fmt.Sprint("subrs", i), mkIndex(fd.subrs, f.offSize))
		}
	}
	mkFDArray := func() []byte {
		var dicts [][]byte
		for i, fd := range f.fds {
			dicts = append(dicts, cat(fd.dict, dOp(18, dInt5(len(privs[i])), dInt5(secs[fmt.Sprint("priv", i)].pos))))
		}
		return mkIndex(dicts, f.offSize)
	}
	if f.ros != nil {
		add("fdarray", mkFDArray())
	}
	mkTop := func() []byte {
		pos := func(name string) []byte {
			if s, ok := secs[name]; ok {
				return dInt5(s.pos)
			}
			return nil
		}
		var t []byte
		if f.ros != nil {
			t = append(t, dOp(1230, f.ros)...)
		}
		t = append(t, f.top...)
		if f.charset != nil {
			t = append(t, dOp(15, pos("charset"))...)
		} else if f.charsetID >= 0 {
			t = append(t, dOp(15, dInt(f.charsetID))...)
		}
		if f.ros == nil {
			if f.encoding != nil {
				t = append(t, dOp(16, pos("encoding"))...)
			} else if f.encodingID >= 0 {
				t = append(t, dOp(16, dInt(f.encodingID))...)
			}
		}
		t = append(t, dOp(17, pos("charstrings"))...)
		if f.ros != nil {
			t = append(t, dOp(1236, pos("fdarray"))...)
			t = append(t, dOp(1237, pos("fdselect"))...)
		} else {
			t = append(t, dOp(18, dInt5(len(privs[0])), pos("priv0"))...)
		}
		return mkIndex([][]byte{t}, f.offSize)
	}
	start := len(head) + len(nameIdx) + len(mkTop()) + len(strIdx) + len(gsubIdx)
	if f.reverse {
		// The private dict must precede its subrs.
		var rev []string
		for i := len(order) - 1; i >= 0; i-- {
			rev = append(rev, order[i])
		}
		for i := 0; i+1 < len(rev); i++ {
			if len(rev[i]) > 5 && rev[i][:5] == "subrs" {
				rev[i], rev[i+1] = rev[i+1], rev[i]
				i++
			}
		}
		order = rev
	}
	pos := start
	for _, n := range order {
		pos += f.pad
		secs[n].pos = pos
		pos += len(secs[n].data)
	}
	for i, fd := range f.fds {
		if !fd.noSub {
			d := secs[fmt.Sprint("subrs", i)].pos - secs[fmt.Sprint("priv", i)].pos
			copy(privs[i][len(fd.priv):], dInt5(d))
		}
	}
	if f.ros != nil {
		secs["fdarray"].data = mkFDArray()
	}
	out := cat(head, nameIdx, mkTop(), strIdx, gsubIdx)
	for _, n := range order {
		out = append(out, bytes.Repeat([]byte{0xA5}, f.pad)...)
		out = append(out, secs[n].data...)
	}
	return out
}

var csEmpty = []byte{14}

// simpleFile returns a file with n empty glyphs and standard charset.
func simpleFile(n int) *cffFile {
	f := &cffFile{fds: []cffFileFD{{}}}
	for i := 0; i < n; i++ {
		f.charStrings = append(f.charStrings, csEmpty)
	}
	return f
}

func cidFile(n int) *cffFile {
	f := simpleFile(n)
	f.strings = [][]byte{[]byte("Adobe"), []byte("Identity")}
	f.ros = cat(dInt(391), dInt(392), dInt(0))
	f.charset = []byte{2, 0, 1, byte((n - 2) >> 8), byte(n - 2)}
	if n == 1 {
		f.charset = []byte{0}
	}
	f.fdSelect = make([]byte, n+1)
	return f
}

// cffReadCheck reads hand-made data and compares with the reference reader.
func cffReadCheck(c *explore.Ctx, key string, data []byte) *cff.Font {
	c.Obs(data)
	r, err := refParseCFF(data)
	if err != nil {
		panic(fmt.Sprintf("harness error: %v % x", err, data))
	}
	f, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail(key+"-rejected", "valid CFF file rejected: %v (%s)\n%s", err, r.formats, hexDump(data))
	}
	if d := cffRefDiff(f, r); d != "" {
		c.Fail(key+"-misread", "cff.Read differs from the file contents: %s (%s)\n%s", d, r.formats, hexDump(data))
	}
	return f
}

// c13Handmade reads files which the library's writer would not produce.
func c13Handmade(c *explore.Ctx) {
	kind := c.Choose("kind", 9)
	f := simpleFile(5)
	switch kind {
	case 0: // predefined charsets and encodings
		n := explore.Pick(c, "glyphs", []int{1, 2, 3, 50, 87, 100, 166, 200, 229})
		f = simpleFile(n)
		f.charsetID = c.Choose("charset", 4) - 1
		f.encodingID = c.Choose("encoding", 3) - 1
		if n > 166 && f.charsetID == 1 || n > 87 && f.charsetID == 2 {
			c.Skip()
		}
	case 1: // layout
		f.hdrPad = explore.Pick(c, "hdrPad", []int{0, 1, 8, 251})
		f.offSize = 1 + c.Choose("offSize", 4)
		f.reverse = c.Bool("reverse")
		f.pad = explore.Pick(c, "pad", []int{0, 1, 17})
		f.fds[0].noSub = c.Bool("nosubrs")
		if c.Bool("cid") {
			g := cidFile(5)
			g.hdrPad, g.offSize, g.reverse, g.pad, g.fds = f.hdrPad, f.offSize, f.reverse, f.pad, append(f.fds, f.fds[0])
			g.fdSelect = []byte{3, 0, 2, 0, 0, 1, 0, 2, 0, 0, 5}
			f = g
		}
	case 2: // integer operand forms
		v := explore.Pick(c, "value", []int{0, 1, -1, 107, -107, 108, -108, 1131, -1131, 1132, -1132, 32767, -32768, 100000, -2147483648, 2147483647, 40000})
		var form []byte
		switch c.Choose("form", 4) {
		case 0:
			form = dInt(v)
		case 1:
			if v < -32768 || v > 32767 {
				c.Skip()
			}
			form = []byte{28, byte(v >> 8), byte(v)}
		case 2:
			form = dInt5(v)
		case 3:
			form = dReal(fmt.Sprintf("%d", v))
		}
		switch c.Choose("slot", 5) {
		case 0:
			f.top = cat(dOp(1203, form), dOp(1204, form))
		case 1:
			f.top = dOp(1207, form, form, dReal("0.5"), form, dInt(0), form)
		case 2:
			f.fds[0].priv = cat(dOp(20, form), dOp(21, form))
		case 3:
			if form[0] == 30 {
				c.Skip()
			}
			f.fds[0].priv = cat(dOp(1210, form), dOp(1211, form))
		case 4:
			f.top = dOp(1207, form, form, form, form, form, form)
		}
	case 3: // real operand forms
		s := explore.Pick(c, "real", []string{"0", "-0", "1", "1.0", ".5", "-.5", "5.", "0.5", "00.50", "1e3", "1e-3", "1E10", "-2.25", "0.140541e-3", "1.5e0",
			"123456789.123456789", "-1e-300", "1e300", "1.7976931348623157e308", "5e-324", "0.000000000000000000001", "100000000000000000000", "1e05", "0.0001e4", "25e-1"})
		switch c.Choose("slot", 3) {
		case 0:
			f.top = cat(dOp(1203, dReal(s)), dOp(1204, dReal(s)))
		case 1:
			f.top = dOp(1207, dReal(s), dInt(0), dReal("0"), dReal(s), dReal(s), dInt(1))
		case 2:
			f.fds[0].priv = cat(dOp(21, dReal(s)))
		}
	case 4: // charset forms
		n := explore.Pick(c, "glyphs", []int{1, 2, 5, 8})
		f = simpleFile(n)
		var cs []byte
		switch c.Choose("format", 5) {
		case 0:
			cs = []byte{0}
			for i := 1; i < n; i++ {
				cs = append(cs, byte(i*7>>8), byte(i*7))
			}
		case 1:
			cs = []byte{1}
			for i := 1; i < n; i++ {
				cs = append(cs, 0, byte(i*3), 0)
			}
		case 2:
			cs = []byte{2}
			for i := 1; i < n; i++ {
				cs = append(cs, 0, byte(200-i), 0, 0)
			}
		case 3:
			cs = []byte{1}
			if n > 1 {
				cs = append(cs, 1, 0x70, byte(n-2))
			}
		case 4:
			cs = []byte{2}
			if n > 1 {
				cs = append(cs, 1, 0x70, 0, byte(n-2))
			}
		}
		f.charset = cs
	case 5: // FDSelect forms
		n := 1 + c.Choose("glyphs", 6)
		f = cidFile(n)
		f.fds = []cffFileFD{{priv: dOp(20, dInt(100))}, {priv: dOp(20, dInt(200))}, {priv: dOp(20, dInt(300))}}
		sel := make([]byte, n)
		for i := range sel {
			sel[i] = byte(c.Choose("fd", 3))
		}
		if c.Bool("format3") {
			split := c.Bool("split")
			f.fdSelect = []byte{3, 0, 0}
			k := 0
			for i := range sel {
				if i == 0 || split || sel[i] != sel[i-1] {
					f.fdSelect = append(f.fdSelect, 0, byte(i), sel[i])
					k++
				}
			}
			f.fdSelect[2] = byte(k)
			f.fdSelect = append(f.fdSelect, 0, byte(n))
		} else {
			f.fdSelect = append([]byte{0}, sel...)
		}
	case 6: // default and nominal widths, per font dict
		isCID := c.Bool("cid")
		dw := explore.Pick(c, "default", []string{"", "0", "500", "-20", "499.5", "1e3", "0.000015"})
		nw := explore.Pick(c, "nominal", []string{"", "0", "600", "-7", "600.25"})
		mk := func(dw, nw string) (p []byte) {
			if dw != "" {
				p = append(p, dOp(20, dReal(dw))...)
			}
			if nw != "" {
				p = append(p, dOp(21, dReal(nw))...)
			}
			return
		}
		if isCID {
			f = cidFile(5)
			f.fds = []cffFileFD{{priv: mk("111", "222")}, {priv: mk(dw, nw)}}
			f.fdSelect = []byte{0, 1, 0, 1, 0, 1}
		} else {
			f.fds[0].priv = mk(dw, nw)
		}
		f.charStrings[1] = []byte{139 + 50, 14}
		f.charStrings[2] = []byte{139 - 50, 14}
		f.charStrings[3] = []byte{255, 0, 1, 0x80, 0, 14}
	case 7: // unused operators and operator order are harmless
		order := c.Choose("order", 6)
		ents := [][]byte{dOp(1202, dReal("-12.5")), dOp(5, dInt(-10), dInt(-20), dInt(1000), dInt(900)), dOp(13, dInt(123456)), dOp(1205, dInt(0)), dOp(1208, dInt(0)), dOp(1206, dInt(2))}
		for i := range ents {
			f.top = append(f.top, ents[(i*5+order)%6]...)
		}
		f.fds[0].priv = cat(dOp(10, dInt(55)), dOp(1212, dInt(1), dInt(2)), dOp(8, dInt(-1), dInt(1)), dOp(1217, dInt(0)), dOp(1218, dReal("0.06")), dOp(1219, dInt(3)), dOp(6, dInt(-20), dInt(20), dInt(400)))
		f.fds[0].priv = cat(f.fds[0].priv[:0:0], dOp(6, dInt(-20), dInt(20), dInt(400), dInt(20)), dOp(10, dInt(55)), dOp(1212, dInt(1), dInt(2)), dOp(1217, dInt(0)), dOp(1218, dReal("0.06")))
		if c.Bool("strings") {
			f.strings = [][]byte{[]byte("Version 1"), {}, []byte("F"), []byte("unused")}
			f.top = cat(dOp(0, dInt(391)), dOp(1, dInt5(391)), dOp(2, []byte{28, 1, 0x88}), dOp(3, dInt(393)), dOp(4, dInt(384)), dOp(1200, dInt(0)), dOp(1221, dInt(391)), dOp(1222, dInt(391)))
		}
	case 8: // font matrices of CID-keyed fonts
		f = cidFile(3)
		f.fds = append(f.fds, cffFileFD{})
		ms := [][]byte{nil, dOp(1207, dReal("0.001"), dInt(0), dInt(0), dReal("0.001"), dInt(0), dInt(0)), dOp(1207, dInt(1), dInt(0), dInt(0), dInt(1), dInt(0), dInt(0)),
			dOp(1207, dReal("0.5"), dInt(0), dReal("0.25"), dInt(2), dInt(-3), dInt(1000)), dOp(1207, dReal("1"), dReal("0"), dReal("0"), dReal("1"), dReal("0"), dReal("0"))}
		f.top = explore.Pick(c, "top", ms)
		f.fds[0].dict = explore.Pick(c, "fd0", ms)
		f.fds[1].dict = explore.Pick(c, "fd1", ms)
	}
	c.Exec()
	got := cffReadCheck(c, "handmade", f.build())
	// and the font can be written again
	for _, g := range got.Glyphs {
		if math.Abs(g.Width) > 30000 {
			return
		}
	}
	if p := got.Private[0]; got.Encoding != nil || p != nil {
		if err := cffCheck(c, "rewrite", got); err != nil && !(got.Encoding != nil && !contiguous(got)) {
			c.Fail("rewrite-refused", "cannot write the font again: %v", err)
		}
	}
}

func contiguous(f *cff.Font) bool {
	used := make([]bool, len(f.Glyphs)+1)
	for _, g := range f.Encoding {
		used[g] = true
	}
	last := 0
	for i := range used {
		if used[i] {
			last = i
		}
	}
	for i := 1; i < last; i++ {
		if !used[i] {
			return false
		}
	}
	return true
}

// c13HandEncoding reads hand-made encodings.
func c13HandEncoding(c *explore.Ctx) {
	f := simpleFile(5)
	f.charset = []byte{0, 0, 34, 1, 0x87, 0, 50, 1, 0x88}
	f.strings = [][]byte{[]byte("x1"), []byte("x2")}
	sids := []int{0, 34, 391, 50, 392}
	pool := []int{0, 65, 66, 255}
	format := c.Choose("format", 2)
	n := c.Choose("n", 5)
	enc := []byte{byte(format), byte(n)}
	used := map[int]bool{}
	g := 1
	for i := 0; i < n; i++ {
		code := explore.Pick(c, "code", pool)
		if format == 0 {
			if used[code] {
				c.Skip()
			}
			used[code] = true
			enc = append(enc, byte(code))
			g++
		} else {
			left := c.Choose("left", 3)
			for j := 0; j <= left; j++ {
				if used[code+j] || code+j > 255 || g > 4 {
					c.Skip()
				}
				used[code+j] = true
				g++
			}
			enc = append(enc, byte(code), byte(left))
		}
	}
	ns := c.Choose("supplements", 3)
	if ns > 0 || c.Bool("empty supplement") {
		enc[0] |= 128
		enc = append(enc, byte(ns))
		for i := 0; i < ns; i++ {
			code := explore.Pick(c, "scode", []int{1, 67, 254, 0})
			gid := c.Choose("sgid", 4) + 1
			if used[code] || gid >= g {
				c.Skip()
			}
			used[code] = true
			enc = append(enc, byte(code), byte(sids[gid]>>8), byte(sids[gid]))
		}
	}
	f.encoding = enc
	c.Exec()
	got := cffReadCheck(c, "handencoding", f.build())
	cffMust(c, "rewrite", got)
}
