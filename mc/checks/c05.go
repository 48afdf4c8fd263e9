package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/sfnt/cff"

	"verif/mc/explore"
	"verif/mc/run"
)

// tNum encodes an integer as a charstring operand in the shortest form.
func tNum(v int) []byte {
	if v < -32768 || v > 32767 {
		panic("tNum")
	}
	return dInt(v)
}

// tFix encodes a number as a 16.16 charstring operand.
func tFix(v float64) []byte {
	x := int32(math.Round(v * 65536))
	return []byte{255, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func tNums(vv ...int) []byte {
	var b []byte
	for _, v := range vv {
		b = append(b, tNum(v)...)
	}
	return b
}

const (
	oHstem, oVstem, oVmove, oRline, oHline, oVline, oRRcurve     = 1, 3, 4, 5, 6, 7, 8
	oCallsubr, oReturn, oEndchar, oHstemhm, oHintmask, oCntrmask = 10, 11, 14, 18, 19, 20
	oRmove, oHmove, oVstemhm, oRcurveline, oRlinecurve           = 21, 22, 23, 24, 25
	oVV, oHH, oCallgsubr, oVH, oHV                               = 26, 27, 29, 30, 31
	oAnd, oOr, oNot, oAbs, oAdd, oSub, oDiv, oNeg, oEq           = 1203, 1204, 1205, 1209, 1210, 1211, 1212, 1214, 1215
	oDrop, oPut, oGet, oIfelse, oRandom, oMul, oSqrt, oDup       = 1218, 1220, 1221, 1222, 1223, 1224, 1226, 1227
	oExch, oIndex, oRoll, oHflex, oFlex, oHflex1, oFlex1         = 1228, 1229, 1230, 1234, 1235, 1236, 1237
)

func tOp(op int) []byte {
	if op >= 1200 {
		return []byte{12, byte(op - 1200)}
	}
	return []byte{byte(op)}
}

// t2Class is the verdict of the reference interpreter about a program.
type t2Class int

const (
	t2Valid t2Class = iota
	t2Malformed
	t2Unspecified
)

var t2MustReject = []string{"stack underflow", "stack overflow", "no endchar", "truncated", "bad subroutine index", "drawing before", "subroutines nested"}

// t2Classify executes a program under the specification.
func t2Classify(code []byte, subrs, gsubrs [][]byte) (*t2Result, t2Class, error) {
	res, err := t2Run(code, subrs, gsubrs, true)
	if err == nil {
		if res.unspec || res.random {
			return res, t2Unspecified, nil
		}
		return res, t2Valid, nil
	}
	if res.unspec {
		return res, t2Unspecified, err
	}
	for _, k := range t2MustReject {
		if strings.HasPrefix(err.Error(), k) {
			return res, t2Malformed, err
		}
	}
	return res, t2Unspecified, err
}

// t2Font1 makes a CFF file which contains the given charstrings after an
// empty glyph 0.
func t2File(codes [][]byte, subrs, gsubrs [][]byte) *cffFile {
	f := simpleFile(1)
	f.charStrings = append(f.charStrings, codes...)
	f.gsubrs = gsubrs
	f.fds[0] = cffFileFD{subrs: subrs, noSub: subrs == nil, priv: cat(dOp(20, dInt(500)), dOp(21, dInt(600)))}
	return f
}

func (r *t2Result) absWidth(def, nom float64) float64 {
	if r.hasWidth {
		return nom + float64(r.width)/65536
	}
	return def
}

// t2CheckGlyph compares a decoded glyph with the reference result.
func t2CheckGlyph(gl *cff.Glyph, res *t2Result, def, nom float64) string {
	tol := 0.5 / 65536
	if res.inexact {
		tol = 8.0 / 65536
	}
	if w := res.absWidth(def, nom); math.Abs(w-gl.Width) > tol {
		return fmt.Sprintf("width %v, not %v", gl.Width, w)
	}
	return t2DiffTol(gl, res, tol)
}

// c05Run reads a file with the given programs.  Programs which are not well
// formed must be alone in the list.
func c05Run(c *explore.Ctx, key string, codes [][]byte, subrs, gsubrs [][]byte) {
	results := make([]*t2Result, len(codes))
	class := t2Valid
	var why error
	for i, code := range codes {
		res, cl, err := t2Classify(code, subrs, gsubrs)
		if cl != t2Valid && len(codes) > 1 {
			// try the programs one by one
			for _, code := range codes {
				c05Run(c, key, [][]byte{code}, subrs, gsubrs)
			}
			return
		}
		results[i] = res
		class, why = cl, err
	}
	data := t2File(codes, subrs, gsubrs).build()
	c.Obs(data)
	f, err := cff.Read(bytes.NewReader(data))
	switch class {
	case t2Valid:
		if err != nil {
			if len(codes) > 1 {
				for _, code := range codes {
					c05Run(c, key, [][]byte{code}, subrs, gsubrs)
				}
			}
			c.Fail(key+"-rejected", "well-formed program rejected: %v\n%s", err, t2Dis(codes[0]))
		}
		if len(f.Glyphs) != len(codes)+1 {
			c.Fail(key+"-count", "%d glyphs", len(f.Glyphs))
		}
		for i, res := range results {
			if d := t2CheckGlyph(f.Glyphs[i+1], res, 500, 600); d != "" {
				c.Fail(key+"-wrong", "program misinterpreted: %s\n%s", d, t2Dis(codes[i]))
			}
		}
	case t2Malformed:
		if err == nil {
			c.Fail(key+"-accepted", "malformed program (%v) accepted\n%s", why, t2Dis(codes[0]))
		}
	}
}

var t2Names = map[int]string{1: "hstem", 3: "vstem", 4: "vmoveto", 5: "rlineto", 6: "hlineto", 7: "vlineto", 8: "rrcurveto", 10: "callsubr", 11: "return", 14: "endchar", 18: "hstemhm", 19: "hintmask", 20: "cntrmask", 21: "rmoveto", 22: "hmoveto", 23: "vstemhm", 24: "rcurveline", 25: "rlinecurve", 26: "vvcurveto", 27: "hhcurveto", 29: "callgsubr", 30: "vhcurveto", 31: "hvcurveto", 1200: "dotsection", 1203: "and", 1204: "or", 1205: "not", 1209: "abs", 1210: "add", 1211: "sub", 1212: "div", 1214: "neg", 1215: "eq", 1218: "drop", 1220: "put", 1221: "get", 1222: "ifelse", 1223: "random", 1224: "mul", 1226: "sqrt", 1227: "dup", 1228: "exch", 1229: "index", 1230: "roll", 1234: "hflex", 1235: "flex", 1236: "hflex1", 1237: "flex1"}

// t2Dis lists a charstring in readable form (mask bytes are shown as code).
func t2Dis(code []byte) string {
	var b strings.Builder
	for i := 0; i < len(code); {
		x := int(code[i])
		switch {
		case x == 28 && i+3 <= len(code):
			fmt.Fprintf(&b, "%d ", rdI16(code, i+1))
			i += 3
		case x == 255 && i+5 <= len(code):
			fmt.Fprintf(&b, "%v ", float64(int32(rdU32(code, i+1)))/65536)
			i += 5
		case x >= 32 && x <= 246:
			fmt.Fprintf(&b, "%d ", x-139)
			i++
		case x >= 247 && x <= 250 && i+2 <= len(code):
			fmt.Fprintf(&b, "%d ", (x-247)*256+int(code[i+1])+108)
			i += 2
		case x >= 251 && x < 255 && i+2 <= len(code):
			fmt.Fprintf(&b, "%d ", -(x-251)*256-int(code[i+1])-108)
			i += 2
		case x == 12 && i+2 <= len(code):
			fmt.Fprintf(&b, "%s ", t2Names[1200+int(code[i+1])])
			i += 2
		default:
			if n := t2Names[x]; n != "" {
				b.WriteString(n + " ")
			} else {
				fmt.Fprintf(&b, "<%02x> ", x)
			}
			i++
		}
	}
	return b.String() + fmt.Sprintf("(% x)", code)
}

// opForm is a path operator with a legal number of operands.
type opForm struct{ op, n int }

var opForms = func() []opForm {
	var out []opForm
	for n := 1; n <= 48; n++ {
		for _, op := range []int{oHline, oVline} {
			out = append(out, opForm{op, n})
		}
		if n%2 == 0 {
			out = append(out, opForm{oRline, n})
		}
		if n%6 == 0 {
			out = append(out, opForm{oRRcurve, n})
		}
		if n%6 == 2 && n >= 8 {
			out = append(out, opForm{oRcurveline, n})
		}
		if n%2 == 0 && n >= 8 {
			out = append(out, opForm{oRlinecurve, n})
		}
		if n >= 4 && n%4 <= 1 {
			for _, op := range []int{oHH, oVV, oHV, oVH} {
				out = append(out, opForm{op, n})
			}
		}
	}
	return append(out, opForm{oFlex, 13}, opForm{oHflex, 7}, opForm{oHflex1, 9}, opForm{oFlex1, 11})
}()

var opFormsShort = func() []opForm {
	seen := map[int]int{}
	var out []opForm
	for _, f := range opForms {
		if seen[f.op]++; seen[f.op] <= 3 {
			out = append(out, f)
		}
	}
	return out
}()

// tArgs returns n different operands of various sizes.
func tArgs(n, pattern int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		v := 3*i + 1
		switch pattern {
		case 0:
			if i%2 == 1 {
				v = -v
			}
		case 1: // all sizes
			v += []int{0, 107, 0, 500, -120, 1131, -1131}[i%7]
		case 2: // many zeros
			if i%3 != 1 {
				v = 0
			}
		case 3:
			b = append(b, tFix(float64(v)*0.3-2)...)
			continue
		}
		b = append(b, tNum(v)...)
	}
	return b
}

// xCFF opens a CFF table with golang.org/x/image/font/sfnt.
func xCFF(cffData []byte, n int) (*xsfnt.Font, error) {
	t := skeletonTables(n, 1000)
	delete(t, "glyf")
	delete(t, "loca")
	t["maxp"] = cat(be32(0x00005000), be16(n))
	t["cmap"] = anyCmap
	t["CFF "] = cffData
	return xsfnt.Parse(sfntAssemble(0x4F54544F, t))
}

// xGlyphDiff compares the outline found by x/image with the reference result
// (which must have integer coordinates).
func xGlyphDiff(xf *xsfnt.Font, gid int, res *t2Result) (string, error) {
	var buf xsfnt.Buffer
	seg, err := xf.LoadGlyph(&buf, xsfnt.GlyphIndex(gid), fixed.Int26_6(1000), nil)
	if err != nil {
		return "", err
	}
	var got, want []string
	for _, s := range seg {
		switch s.Op {
		case xsfnt.SegmentOpMoveTo:
			got = append(got, fmt.Sprint("m", int(s.Args[0].X), -int(s.Args[0].Y)))
		case xsfnt.SegmentOpLineTo:
			got = append(got, fmt.Sprint("l", int(s.Args[0].X), -int(s.Args[0].Y)))
		case xsfnt.SegmentOpCubeTo:
			got = append(got, fmt.Sprint("c", int(s.Args[0].X), -int(s.Args[0].Y), int(s.Args[1].X), -int(s.Args[1].Y), int(s.Args[2].X), -int(s.Args[2].Y)))
		}
	}
	var fx, fy, x, y int
	closePath := func() {
		if x != fx || y != fy {
			want = append(want, fmt.Sprint("l", fx, fy))
		}
	}
	for _, o := range res.ops {
		var a []int
		for _, v := range o.args {
			a = append(a, int(v>>16))
		}
		switch o.op {
		case 'm':
			closePath()
			fx, fy = a[0], a[1]
			want = append(want, fmt.Sprint("m", a[0], a[1]))
		case 'l':
			want = append(want, fmt.Sprint("l", a[0], a[1]))
		case 'c':
			want = append(want, fmt.Sprint("c", a[0], a[1], a[2], a[3], a[4], a[5]))
		default:
			continue
		}
		x, y = a[len(a)-2], a[len(a)-1]
	}
	closePath()
	g, w := strings.Join(got, " "), strings.Join(want, " ")
	if g != w {
		return fmt.Sprintf("x/image finds %s, the reference interpreter %s", clip(g, 300), clip(w, 300)), nil
	}
	return "", nil
}

// c05Ops enumerates pairs of path operators with all operand counts.
func c05Ops(c *explore.Ctx) {
	move := c.Choose("move", 4)
	first := explore.Pick(c, "first", opForms)
	pattern := c.Choose("operands", 4)
	c.Exec()
	if !c.Thorough && move != 0 && pattern != move%4 {
		c.Skip()
	}
	head := [][]byte{cat(tNums(5, 6), tOp(oRmove)), cat(tNums(-7), tOp(oHmove)), cat(tNums(99, 8), tOp(oVmove)), cat(tNums(20, 30), tOp(oHstem), tNums(0, 0), tOp(oRmove))}[move]
	one := cat(tArgs(first.n, pattern), tOp(first.op))
	codes := [][]byte{cat(head, one, tOp(oEndchar))}
	for _, second := range opFormsShort {
		codes = append(codes, cat(head, one, tArgs(second.n, (pattern+1)%4), tOp(second.op), tOp(oEndchar)))
		codes = append(codes, cat(head, tArgs(second.n, 0), tOp(second.op), one, tNums(4), tOp(oVmove), one, tOp(oEndchar)))
	}
	c05Run(c, "operators", codes, nil, nil)
	if pattern != 3 {
		// a second opinion about the meaning of the operators
		var cc [][]byte
		for i, code := range codes {
			if first.op >= 1200 || i > 0 && opFormsShort[(i-1)/2].op >= 1200 || pattern == 2 && i%2 == 1 {
				continue // no support for the flex operators
			}
			cc = append(cc, code)
		}
		xf, err := xCFF(t2File(cc, nil, nil).build(), len(cc)+1)
		if err != nil {
			panic(err)
		}
		for i, code := range cc {
			res, _, _ := t2Classify(code, nil, nil)
			d, err := xGlyphDiff(xf, i+1, res)
			if err != nil {
				d = err.Error()
			}
			if d != "" {
				c.Fail("reference-interpreter", "x/image and the reference interpreter disagree: %s\n%s", d, t2Dis(code))
			}
		}
	}
}

// c05Flex1 covers the direction rule of flex1 and the other flex operators.
func c05Flex(c *explore.Ctx) {
	vals := []int{0, 3, -3, 2000}
	op := explore.Pick(c, "op", []opForm{{oFlex1, 11}, {oHflex, 7}, {oHflex1, 9}, {oFlex, 13}})
	var base []int
	for i := 0; i < 5; i++ {
		base = append(base, explore.Pick(c, "value", vals))
	}
	c.Exec()
	var codes [][]byte
	for rot := 0; rot < op.n; rot++ {
		for mode := 0; mode < 3; mode++ {
			var a []int
			for i := 0; i < op.n; i++ {
				v := 0
				if mode == 1 {
					v = i - 5
				}
				j := i
				if mode == 2 {
					j = i / 2
				}
				if j < 5 {
					v = base[j]
				}
				a = append(a, v)
			}
			a = append(a[rot:], a[:rot]...)
			codes = append(codes, cat(tNums(100, 50), tOp(oRmove), tNums(a...), tOp(op.op), tNums(1, 2), tOp(oRline), tOp(oEndchar)))
		}
	}
	c05Run(c, "flex", codes, nil, nil)
}

// c05Numbers covers all operand encodings.
func c05Numbers(c *explore.Ctx) {
	kind := c.Choose("form", 4)
	var nums [][]byte
	switch kind {
	case 0: // one byte
		for b := 32; b <= 246; b++ {
			nums = append(nums, []byte{byte(b)})
		}
	case 1: // two bytes
		b := 247 + c.Choose("first byte", 8)
		h := 128 * c.Choose("half", 2)
		for i := 0; i < 128; i++ {
			nums = append(nums, []byte{byte(b), byte(h + i)})
		}
	case 2: // three bytes
		b := c.Choose("first byte", 256)
		h := 128 * c.Choose("half", 2)
		for i := 0; i < 128; i++ {
			nums = append(nums, []byte{28, byte(b), byte(h + i)})
		}
	case 3: // five bytes
		b := c.Choose("first byte", 256)
		for _, x := range []int{0, 1, 2, 127, 128, 255} {
			for _, y := range []int{0, 1, 127, 128, 254, 255} {
				for _, z := range []int{0, 1, 255} {
					nums = append(nums, []byte{255, byte(b), byte(x), byte(y), byte(z)})
				}
			}
		}
	}
	c.Exec()
	where := c.Choose("where", 3)
	var codes [][]byte
	for _, n := range nums {
		switch where {
		case 0: // as a coordinate
			codes = append(codes, cat(n, tNums(0), tOp(oRmove), tNums(3, 4), tOp(oRline), tOp(oEndchar)))
		case 1: // as width and stem
			codes = append(codes, cat(n, n, tNums(10), tOp(oHstem), tOp(oEndchar)))
		case 2: // negated, together with other numbers
			codes = append(codes, cat(tNums(1, 2), n, tOp(oRmove), n, tNum(1), tOp(oSub), n, tOp(oExch), tOp(oSub), tNum(-1), tOp(oRline), tOp(oEndchar)))
		}
	}
	c05Run(c, "numbers", codes, nil, nil)
}

// c05Width covers the optional width in front of every operator.
func c05Width(c *explore.Ctx) {
	first := c.Choose("first operator", 12)
	width := c.Choose("width", 9)
	priv := c.Choose("private", 7)
	sub := c.Choose("via", 4)
	c.Exec()
	w := [][]byte{nil, tNums(0), tNums(-107), tNums(500), tNums(-1131), tFix(0.25), tFix(-99.75), cat(tNums(7, 5), tOp(oMul)), cat(tNums(30, 4), tOp(oDiv))}[width]
	rest := cat(tNums(1, 2), tOp(oRmove), tNums(3, 4), tOp(oRline), tOp(oEndchar))
	mask := tOp(oHintmask)
	var head []byte
	switch first {
	case 0:
		head, rest = tOp(oEndchar), nil
	case 1:
		head = cat(tNums(10, 20), tOp(oHstem))
	case 2:
		head = cat(tNums(10, 20, 30, -20), tOp(oVstem))
	case 3:
		head = cat(tNums(10, 20), tOp(oHstemhm), tNums(5, 6), mask, []byte{0x80})
	case 4:
		head = cat(tNums(10, 20, 5, 5), tOp(oVstemhm), mask, []byte{0xC0})
	case 5:
		head = cat(tNums(10, 20), mask, []byte{0x80})
	case 6:
		head = cat(tNums(10, 20, 4, 4), tOp(oCntrmask), []byte{0x40})
	case 7:
		head = cat(tNums(10, 20), tOp(oRmove))
	case 8:
		head = cat(tNums(10), tOp(oHmove))
	case 9:
		head = cat(tNums(10), tOp(oVmove))
	case 10: // stack depth 48
		var nn []int
		k := 48
		if w != nil {
			k = 46
		}
		for i := 0; i < k; i++ {
			nn = append(nn, i+1)
		}
		head = cat(tNums(nn...), tOp(oHstem))
	case 11:
		head = cat(tNums(10, 20), tOp(oHstem), tNums(7), tOp(oVmove))
	}
	code := cat(w, head, rest)
	var subrs, gsubrs [][]byte
	ret := tOp(oReturn)
	switch sub {
	case 1: // the width is in a subroutine
		subrs = [][]byte{cat(w, ret)}
		code = cat(tNums(-107), tOp(oCallsubr), head, rest)
	case 2: // the operator is in a global subroutine
		gsubrs = [][]byte{cat(head, ret)}
		if first == 0 {
			gsubrs = [][]byte{head}
		}
		code = cat(w, tNums(-107), tOp(oCallgsubr), rest)
		if first == 10 && w == nil {
			c.Skip() // needs 49 stack entries
		}
	case 3: // everything is in nested subroutines
		subrs = [][]byte{cat(w, tNums(-107), tOp(oCallgsubr), rest)}
		gsubrs = [][]byte{cat(head, ret)}
		if first == 0 {
			gsubrs = [][]byte{head}
		}
		code = cat(tNums(-107), tOp(oCallsubr))
		if first == 10 && w == nil {
			c.Skip()
		}
	}
	f := t2File([][]byte{code}, subrs, gsubrs)
	def, nom := 0.0, 0.0
	f.fds[0].priv = nil
	switch priv {
	case 1:
		def = 500
		f.fds[0].priv = dOp(20, dInt(500))
	case 2:
		nom = 600
		f.fds[0].priv = dOp(21, dInt(600))
	case 3:
		def, nom = 250.5, -17.25
		f.fds[0].priv = cat(dOp(20, dReal("250.5")), dOp(21, dReal("-17.25")))
	case 4:
		def, nom = 40000, 33000
		f.fds[0].priv = cat(dOp(21, dInt(33000)), dOp(20, dInt(40000)))
	case 5, 6:
		// a CID-keyed font, where the second font dict is used
		fd := f.fds[0]
		fd.priv = cat(dOp(20, dInt(700)), dOp(21, dInt(800)))
		def, nom = 700, 800
		g := cidFile(2)
		other := cffFileFD{priv: cat(dOp(20, dInt(1)), dOp(21, dInt(2))), subrs: [][]byte{cat(tNums(3, 4, 5, 6), tOp(oHstem), tOp(oReturn)), ret}}
		g.fds = []cffFileFD{other, fd}
		g.fdSelect = []byte{0, 0, 1}
		if priv == 6 {
			g.fds = []cffFileFD{fd, other, other}
			g.fdSelect = append(be16(0x0300, 0x0200), 0, 2, 0, 1, 0, 0, 2)
			g.fdSelect = cat([]byte{3, 0, 2}, []byte{0, 0, 2}, []byte{0, 1, 0}, []byte{0, 2})
		}
		g.charStrings = f.charStrings
		g.gsubrs = f.gsubrs
		f = g
	}
	res, class, err := t2Classify(code, subrs, gsubrs)
	if class != t2Valid {
		panic(fmt.Sprint("harness error: ", err, t2Dis(code)))
	}
	data := f.build()
	c.Obs(data)
	font, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail("width-rejected", "well-formed program rejected: %v\n%s", err, t2Dis(code))
	}
	if d := t2CheckGlyph(font.Glyphs[1], res, def, nom); d != "" {
		c.Fail("width-wrong", "program misinterpreted: %s\n%s", d, t2Dis(code))
	}
}

// c05Hints enumerates the hint section.
func c05Hints(c *explore.Ctx) {
	counts := []int{1, 2, 3, 7, 8, 9}
	if c.Thorough {
		counts = []int{1, 2, 3, 4, 7, 8, 9, 16, 23}
	}
	var code []byte
	if c.Bool("width") {
		code = append(code, tNum(33)...)
	}
	total := 0
	v := 0
	stems := func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			v++
			b = append(b, tNums(v*3, 5-v%9)...)
		}
		total += n
		return b
	}
	nh := c.Choose("hstem operators", 3)
	for i := 0; i < nh; i++ {
		code = append(code, stems(explore.Pick(c, "count", counts))...)
		code = append(code, tOp([]int{oHstem, oHstemhm}[c.Choose("op", 2)])...)
	}
	nv := c.Choose("vstem operators", 3)
	if nh+nv > 3 && !c.Thorough {
		c.Skip()
	}
	for i := 0; i < nv; i++ {
		code = append(code, stems(explore.Pick(c, "count", counts))...)
		code = append(code, tOp([]int{oVstem, oVstemhm}[c.Choose("op", 2)])...)
	}
	implicit := explore.Pick(c, "implicit", []int{0, 1, 2, 7, 8, 9, 23})
	c.Exec()
	mask := func(op, k int) []byte {
		b := tOp(op)
		for i := 0; i < (total+7)/8; i++ {
			b = append(b, byte(k*50+i*14+14))
		}
		return b
	}
	st := stems(implicit)
	var codes [][]byte
	for _, op := range []int{oHintmask, oCntrmask} {
		if total == 0 {
			break
		}
		codes = append(codes,
			cat(code, st, mask(op, 0), tOp(oEndchar)),
			cat(code, st, mask(op, 1), mask(oHintmask, 2), tNums(5, 6), tOp(oRmove), tNums(7), tOp(oHline), mask(oHintmask, 3), tNums(5), tOp(oVmove), mask(oHintmask, 4), tOp(oEndchar)),
			cat(code, st, mask(oCntrmask, 0), mask(oCntrmask, 1), mask(op, 2), tNums(5), tOp(oHmove), tNums(1, 2, 3, 4, 5, 6), tOp(oRRcurve), mask(oHintmask, 3), tNums(1), tOp(oVline), tOp(oEndchar)),
		)
	}
	if implicit == 0 {
		codes = append(codes, cat(code, tNums(5, 6), tOp(oRmove), tNums(7), tOp(oHline), tOp(oEndchar)))
		if nh+nv > 0 {
			codes = append(codes, cat(code, tOp(oEndchar)))
			codes = append(codes, cat(code, tNums(5), tOp(oHmove), mask(oHintmask, 1), tNums(7), tOp(oHline), tOp(oEndchar)))
		}
	}
	c05Run(c, "hints", codes, nil, nil)
}

var t2Vals = []float64{0, 1, -1, 2, 3, -7, 4, 0.5, -0.25, 100, 9, 2.25, 1.0 / 65536, -1.0 / 65536, 181, 30000, -32768, 32767, 16384}

// tVal encodes a value in the shortest form.
func tVal(v float64) []byte {
	if v == math.Trunc(v) {
		return tNum(int(v))
	}
	return tFix(v)
}

var t2Unary = []int{oNot, oAbs, oNeg, oSqrt}
var t2Binary = []int{oAnd, oOr, oAdd, oSub, oDiv, oEq, oMul}

// c05Arith enumerates arithmetic expressions.
func c05Arith(c *explore.Ctx) {
	a := explore.Pick(c, "a", t2Vals)
	b := explore.Pick(c, "b", t2Vals)
	ops := len(t2Unary) + len(t2Binary)
	outer := c.Choose("outer", ops+1)
	c.Exec()
	apply := func(i int, x, y []byte) []byte {
		if i < len(t2Unary) {
			return cat(x, tOp(t2Unary[i]))
		}
		return cat(x, y, tOp(t2Binary[i-len(t2Unary)]))
	}
	vals := t2Vals
	var codes [][]byte
	use := func(x []byte) {
		codes = append(codes, cat(x, tNum(3), tOp(oRmove), tNum(1), tOp(oHline), tOp(oEndchar)))
	}
	for inner := 0; inner < ops; inner++ {
		x := apply(inner, tVal(a), tVal(b))
		if outer == ops {
			use(x)
			continue
		}
		if outer < len(t2Unary) {
			use(apply(outer, x, nil))
			continue
		}
		for i, d := range vals {
			if !c.Thorough && i%3 != 0 && i > 8 {
				continue
			}
			use(apply(outer, x, tVal(d)))
			use(apply(outer, tVal(d), x))
		}
	}
	// Programs with unspecified results are left out.
	var good [][]byte
	for _, code := range codes {
		if _, cl, _ := t2Classify(code, nil, nil); cl == t2Valid {
			good = append(good, code)
		}
	}
	for len(good) > 0 {
		k := min(len(good), 200)
		c05Run(c, "arithmetic", good[:k], nil, nil)
		good = good[k:]
	}
}

// c05Ifelse covers the conditional operator.
func c05Ifelse(c *explore.Ctx) {
	a := explore.Pick(c, "v1", t2Vals)
	b := explore.Pick(c, "v2", t2Vals)
	c.Exec()
	code := func(v1, v2 []byte) []byte {
		return cat(tNums(5, 11, 22), v1, v2, tOp(oIfelse), tOp(oRmove), tNum(1), tOp(oHline), tOp(oEndchar))
	}
	codes := [][]byte{
		code(tVal(a), tVal(b)),
		code(cat(tVal(a), tVal(b), tOp(oEq)), tNum(0)),
		code(tNum(1), cat(tVal(a), tVal(b), tOp(oEq), tOp(oNot))),
		cat(tNums(5), tVal(a), tVal(b), tNums(1, 2), tOp(oIfelse), tOp(oRmove), tNum(1), tOp(oHline), tOp(oEndchar)),
		cat(tNums(5), tVal(a), tVal(b), tNums(2, 2), tOp(oIfelse), tOp(oRmove), tNum(1), tOp(oHline), tOp(oEndchar)),
		cat(tNums(5), tVal(a), tVal(b), tNums(2, 1), tOp(oIfelse), tOp(oRmove), tNum(1), tOp(oHline), tOp(oEndchar)),
	}
	c05Run(c, "ifelse", codes, nil, nil)
}

// c05Stack enumerates sequences of stack operators and shows the whole stack
// afterwards.
func c05Stack(c *explore.Ctx) {
	n := explore.Pick(c, "depth", []int{0, 1, 2, 3, 4, 5, 6, 8, 46})
	type instr struct {
		code []byte
		d    int
	}
	var list []instr
	list = append(list, instr{tOp(oDrop), -1}, instr{tOp(oDup), 1}, instr{tOp(oExch), 0})
	for i := -2; i <= 7; i++ {
		list = append(list, instr{cat(tNum(i), tOp(oIndex)), 1})
	}
	list = append(list, instr{cat(tNum(45), tOp(oIndex)), 1}, instr{cat(tNum(-32768), tOp(oIndex)), 1})
	for k := 0; k <= 7; k++ {
		for _, j := range []int{-9, -8, -7, -3, -2, -1, 0, 1, 2, 3, 6, 7, 8, 100, -32768, 32767} {
			list = append(list, instr{cat(tNums(k, j), tOp(oRoll)), 0})
		}
	}
	list = append(list, instr{cat(tNums(46, 13), tOp(oRoll)), 0}, instr{cat(tNums(46, -1), tOp(oRoll)), 0}, instr{cat(tNums(47, 1), tOp(oRoll)), 0})
	first := explore.Pick(c, "first", list)
	c.Exec()
	var start []byte
	for i := 0; i < n; i++ {
		start = append(start, tNum(10*i+1)...)
	}
	var codes [][]byte
	for i := -1; i < len(list); i++ {
		code := cat(tNums(1), tOp(oHmove), start, first.code)
		d := n + first.d
		if i >= 0 {
			code = append(code, list[i].code...)
			d += list[i].d
		}
		if d < 0 {
			continue
		}
		if d == 0 {
			code = cat(code, tNum(5))
		}
		code = cat(code, tOp(oHline), tOp(oEndchar))
		_, cl, _ := t2Classify(code, nil, nil)
		if cl == t2Malformed {
			c05Run(c, "stack", [][]byte{code}, nil, nil)
		}
		if cl == t2Valid {
			codes = append(codes, code)
		}
	}
	if len(codes) > 0 {
		c05Run(c, "stack", codes, nil, nil)
	}
}

// c05Storage covers put and get.
func c05Storage(c *explore.Ctx) {
	i := c.Choose("first", 32)
	j := c.Choose("second", 32)
	c.Exec()
	put := func(v float64, k int) []byte { return cat(tVal(v), tNum(k), tOp(oPut)) }
	get := func(k int) []byte { return cat(tNum(k), tOp(oGet)) }
	ret := tOp(oReturn)
	codes := [][]byte{
		cat(put(5, i), put(7, j), get(i), get(j), tOp(oRmove), get(i), tOp(oHline), tOp(oEndchar)),
		cat(put(5.25, i), put(-7.5, j), get(j), tOp(oHmove), put(8, j), get(i), get(j), tOp(oRline), get(j), get(i), tOp(oRline), tOp(oEndchar)),
		cat(put(0, i), get(i), get(i), tOp(oRmove), put(11, i), get(i), get(i), tOp(oMul), tOp(oHline), tOp(oEndchar)),
		cat(tNum(-107), tOp(oCallsubr), get(i), tOp(oHmove), tNum(-107), tOp(oCallgsubr), get(i), get(j), tOp(oRline), tOp(oEndchar)),
	}
	c05Run(c, "storage", codes, [][]byte{cat(put(31, i), ret)}, [][]byte{cat(put(32, j), put(33, i), ret)})
}

// c05Subrs covers the bias for all table sizes.
func c05Subrs(c *explore.Ctx) {
	sizes := []int{0, 1, 2, 107, 108, 1238, 1239, 1240, 1241, 2000, 33898, 33899, 33900, 33901, 40000}
	if c.Thorough {
		sizes = append(sizes, 65535)
	}
	nl := explore.Pick(c, "local", sizes)
	ng := explore.Pick(c, "global", sizes)
	if !c.Thorough && nl > 2000 && ng > 2000 && nl != ng && nl+ng != 33899+33900 {
		c.Skip()
	}
	c.Exec()
	mk := func(n, base int) [][]byte {
		out := make([][]byte, n)
		ret := tOp(oReturn)
		for i := range out {
			out[i] = cat(tNum((i+base)%1000), tOp(oHline), ret)
		}
		return out
	}
	subrs, gsubrs := mk(nl, 1), mk(ng, 501)
	if nl == 0 && ng == 0 {
		subrs = nil
	}
	var good, bad [][]byte
	for _, x := range []struct{ op, n int }{{oCallsubr, nl}, {oCallgsubr, ng}} {
		seen := map[int]bool{}
		for _, i := range []int{0, 1, x.n / 2, 106, 107, 108, 1130, 1131, 1132, 32767, 32768, 32769, x.n - 2, x.n - 1, x.n, x.n + 1, -1, -2} {
			num := i - t2Bias(x.n)
			if seen[i] || num < -32768 || num > 32767 {
				continue
			}
			seen[i] = true
			code := cat(tNums(1, 2), tOp(oRmove), tNum(num), tOp(x.op), tNums(3), tOp(oVline), tOp(oEndchar))
			if i < 0 || i >= x.n {
				bad = append(bad, code)
			} else {
				good = append(good, code)
			}
		}
	}
	if len(good) > 0 {
		c05Run(c, "subrs", good, subrs, gsubrs)
	}
	for i, code := range bad {
		if nl+ng > 3000 && i%3 != 0 && !c.Thorough {
			continue
		}
		c05Run(c, "subrs", [][]byte{code}, subrs, gsubrs)
	}
	if nl+ng < 70000 && nl < 40000 && ng < 40000 && nl > 0 && ng > 0 && len(good) > 0 && (c.Thorough || nl < 3000 && ng < 3000 || nl == ng) {
		data := t2File(good, subrs, gsubrs).build()
		xf, err := xCFF(data, len(good)+1)
		if err != nil {
			panic(err)
		}
		for i, code := range good {
			res, _, _ := t2Classify(code, subrs, gsubrs)
			d, err := xGlyphDiff(xf, i+1, res)
			if err != nil {
				d = err.Error()
			}
			if d != "" {
				c.Fail("reference-interpreter", "x/image and the reference interpreter disagree about subroutines: %s\n%s", d, t2Dis(code))
			}
		}
	}
}

// c05CIDSubrs checks that every glyph of a CID-keyed font uses the local
// subroutines of its font dict.
func c05CIDSubrs(c *explore.Ctx) {
	sizes := []int{-1, 0, 1, 1239, 1240}
	nfd := 2 + c.Choose("font dicts", 2)
	var n []int
	for i := 0; i < nfd; i++ {
		n = append(n, explore.Pick(c, "size", sizes))
	}
	ngl := 4
	sel := make([]int, ngl)
	for i := range sel {
		sel[i] = c.Choose("fd", nfd)
	}
	format := c.Choose("format", 2)
	c.Exec()
	ret := tOp(oReturn)
	f := cidFile(ngl)
	f.gsubrs = [][]byte{cat(tNum(11), tOp(oVline), ret)}
	f.fds = nil
	f.fdSelect = []byte{0}
	for i := 0; i < nfd; i++ {
		fd := cffFileFD{noSub: n[i] < 0, priv: cat(dOp(20, dInt(100+i)), dOp(21, dInt(200+i)))}
		for j := 0; j < n[i]; j++ {
			fd.subrs = append(fd.subrs, cat(tNum(100*i+j%50+1), tOp(oHline), ret))
		}
		f.fds = append(f.fds, fd)
	}
	f3 := []byte{3, 0, 0}
	for i, s := range sel {
		f.fdSelect = append(f.fdSelect, byte(s))
		if i == 0 || s != sel[i-1] {
			f3[2]++
			f3 = append(f3, 0, byte(i), byte(s))
		}
	}
	if format == 1 {
		f.fdSelect = append(f3, 0, byte(ngl))
	}
	f.charStrings = nil
	var results []*t2Result
	for _, s := range sel {
		code := cat(tNums(5), tOp(oHmove), tNum(-107), tOp(oCallgsubr), tOp(oEndchar))
		if s == 1 {
			code = cat(tNum(7), code)
		}
		if n[s] > 0 {
			code = cat(tNums(5), tOp(oHmove), tNum(n[s]-1-t2Bias(n[s])), tOp(oCallsubr), tNum(-107), tOp(oCallgsubr), tOp(oEndchar))
		}
		f.charStrings = append(f.charStrings, code)
		res, cl, err := t2Classify(code, f.fds[s].subrs, f.gsubrs)
		if cl != t2Valid {
			panic(fmt.Sprint("harness error:", err))
		}
		results = append(results, res)
	}
	data := f.build()
	c.Obs(data)
	font, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail("cid-subrs-rejected", "valid font rejected: %v", err)
	}
	for i, res := range results {
		if d := t2CheckGlyph(font.Glyphs[i], res, float64(100+sel[i]), float64(200+sel[i])); d != "" {
			c.Fail("cid-subrs-wrong", "glyph %d (FD %d of %v): %s", i, sel[i], n, d)
		}
	}
}

// c05Nesting covers nested subroutine calls.
func c05Nesting(c *explore.Ctx) {
	depth := 1 + c.Choose("depth", 12)
	var kinds []int
	mode := c.Choose("mode", 5)
	end := c.Choose("end", 3)
	tail := c.Bool("tail call")
	c.Exec()
	for i := 0; i < depth; i++ {
		switch mode {
		case 0:
			kinds = append(kinds, 0)
		case 1:
			kinds = append(kinds, 1)
		case 2:
			kinds = append(kinds, i%2)
		case 3:
			kinds = append(kinds, boolInt(i >= 5))
		case 4:
			kinds = append(kinds, boolInt(i < 3))
		}
	}
	var tabs [2][][]byte
	call := func(i int) []byte {
		// subroutine i is number i of its table
		return cat(tNum(i-107), tOp([]int{oCallsubr, oCallgsubr}[kinds[i]]))
	}
	for k := range tabs {
		for i := 0; i < depth; i++ {
			var code []byte
			code = append(code, tNums(i+1, i+2)...)
			code = append(code, tOp(oRline)...)
			if i+1 < depth {
				code = append(code, call(i+1)...)
			} else if end == 1 {
				code = append(code, tOp(oEndchar)...)
			}
			if !tail {
				code = append(code, tNums(i+20)...)
				code = append(code, tOp(oHline)...)
			}
			code = append(code, tOp(oReturn)...)
			tabs[k] = append(tabs[k], code)
		}
	}
	code := cat(tNums(1, 2), tOp(oRmove), call(0), tNums(4, 5), tOp(oRline))
	if end != 2 {
		code = append(code, tOp(oEndchar)...)
	}
	c05Run(c, "nesting", [][]byte{code}, tabs[0], tabs[1])
}

// c05SubrContext moves every part of some programs into subroutines.
func c05SubrContext(c *explore.Ctx) {
	k := c.Choose("program", len(t2Base))
	p := t2Base[k]
	i := c.Choose("from", len(p.toks)+1)
	j := i + c.Choose("length", len(p.toks)+1-i)
	kind := c.Choose("kind", 4)
	c.Exec()
	ret := tOp(oReturn)
	mid := cat(p.toks[i:j]...)
	if j < len(p.toks) || kind == 1 {
		mid = append(mid, ret...)
	}
	subrs, gsubrs := p.subrs, p.gsubrs
	var call []byte
	switch kind {
	case 0, 1:
		subrs = append(append([][]byte{}, subrs...), mid)
		call = cat(tNum(len(subrs)-1-107), tOp(oCallsubr))
	case 2:
		gsubrs = append(append([][]byte{}, gsubrs...), mid)
		call = cat(tNum(len(gsubrs)-1-107), tOp(oCallgsubr))
	case 3: // twice indirect
		subrs = append(append([][]byte{}, subrs...), mid)
		g := cat(tNum(len(subrs)-1-107), tOp(oCallsubr))
		if j < len(p.toks) {
			g = append(g, ret...)
		}
		gsubrs = append(append([][]byte{}, gsubrs...), g)
		call = cat(tNum(len(gsubrs)-1-107), tOp(oCallgsubr))
	}
	code := cat(cat(p.toks[:i]...), call, cat(p.toks[j:]...))
	c05Run(c, "subrcontext", [][]byte{code}, subrs, gsubrs)
}

type t2Prog struct {
	toks          [][]byte
	subrs, gsubrs [][]byte
}

// t2Base is a list of well-formed programs, as lists of tokens.
var t2Base = func() []t2Prog {
	var out []t2Prog
	add := func(subrs, gsubrs [][]byte, parts ...any) {
		p := t2Prog{subrs: subrs, gsubrs: gsubrs}
		for _, x := range parts {
			switch x := x.(type) {
			case int:
				p.toks = append(p.toks, tNum(x))
			case float64:
				p.toks = append(p.toks, tFix(x))
			case string:
				for op, n := range t2Names {
					if n == x {
						p.toks = append(p.toks, tOp(op))
					}
				}
			case []byte:
				// mask bytes belong to the operator
				n := len(p.toks) - 1
				p.toks[n] = cat(p.toks[n], x)
			}
		}
		if _, cl, err := t2Classify(cat(p.toks...), subrs, gsubrs); cl != t2Valid {
			panic(fmt.Sprint("bad base program: ", err, t2Dis(cat(p.toks...))))
		}
		out = append(out, p)
	}
	ret := tOp(oReturn)
	add(nil, nil, "endchar")
	add(nil, nil, 9, 20, 30, "hstem", "dotsection", 1, 2, "rmoveto", "dotsection", 3, "hlineto", "dotsection", "endchar")
	add(nil, nil, 50, "endchar")
	add(nil, nil, 1, 2, "rmoveto", 3, 4, "rlineto", 5, "hlineto", "endchar")
	add(nil, nil, 20, 1, 2, "rmoveto", 3, "vlineto", 5, "hmoveto", 7, 8, 9, 10, 11, 12, "rrcurveto", "endchar")
	add(nil, nil, 20, 30, "hstem", 5, 6, "vstem", 4, "vmoveto", 1, 2, 3, 4, "hhcurveto", "endchar")
	add(nil, nil, 9, 20, 30, "hstemhm", 5, 6, 7, 8, "hintmask", []byte{0xe0}, 4, "hmoveto", 1, 2, 3, 4, 5, "vvcurveto", "hintmask", []byte{0x40}, 6, "vlineto", "endchar")
	add(nil, nil, 20, 30, 1, 2, "cntrmask", []byte{0xc0}, "hintmask", []byte{0x80}, 4, "hmoveto", 1, 2, 3, 4, "hvcurveto", "endchar")
	add(nil, nil, 1, 2, "rmoveto", 1, 2, 3, 4, 5, "vhcurveto", 1, 2, 3, 4, 5, 6, 7, 8, "rcurveline", "endchar")
	add(nil, nil, 1, "vmoveto", 1, 2, 3, 4, 5, 6, 7, 8, "rlinecurve", "endchar")
	add(nil, nil, 1, "vmoveto", 1, 2, 3, 4, 5, 6, 7, "hflex", "endchar")
	add(nil, nil, 1, "vmoveto", 1, 2, 3, 4, 5, 6, 7, 8, 9, "hflex1", "endchar")
	add(nil, nil, 1, "vmoveto", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 50, "flex1", "endchar")
	add(nil, nil, 1, "vmoveto", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 50, "flex", "endchar")
	add(nil, nil, 1, 2, "add", 3, "sub", 4, "mul", "neg", "abs", "hmoveto", 6, 2, "div", 2.25, "sqrt", "rlineto", "endchar")
	add(nil, nil, 1, 2, "exch", "dup", "eq", "rmoveto", 5, 6, 7, 3, 1, "roll", 1, "index", "rlineto", "endchar")
	add(nil, nil, 1, 2, 3, 4, "ifelse", "not", "hmoveto", 1, 0, "and", 1, "or", "hlineto", "endchar")
	add(nil, nil, 5, 0, "put", 6, 31, "put", 0, "get", 31, "get", "rmoveto", 8, 9, "drop", "hlineto", "endchar")
	add([][]byte{cat(tNums(3, 4), tOp(oRline), ret), cat(tNum(-107), tOp(oCallsubr), ret)}, [][]byte{cat(tNums(7), tOp(oHline), ret), cat(tNum(5), tOp(oVline), tOp(oEndchar))},
		1, "hmoveto", -107, "callsubr", -106, "callsubr", -107, "callgsubr", -106, "callgsubr")
	add([][]byte{ret, cat(tNums(3, 4), ret)}, nil, 1, -107, "callsubr", "hmoveto", -106, "callsubr", "rlineto", "endchar")
	return out
}()

// t2Alphabet is the list of tokens for mutations.
var t2Alphabet = func() [][]byte {
	var out [][]byte
	for op := 0; op < 1240; op++ {
		if n := t2Names[op]; n != "" && op != oHintmask && op != oCntrmask && op != oRandom {
			out = append(out, tOp(op))
		}
	}
	for _, v := range []int{0, 1, 2, -1, -106, -107, 31, 32, 48, 1000, -1000, 32767, -32768} {
		out = append(out, tNum(v))
	}
	out = append(out, tFix(0.5), cat(tOp(oHintmask), []byte{0xff}), cat(tOp(oCntrmask), []byte{14}), tOp(oHintmask), []byte{28}, []byte{255, 0}, []byte{250}, []byte{254}, []byte{12},
		bytes.Repeat(tNum(1), 47), bytes.Repeat(tNum(1), 48), bytes.Repeat(tNum(1), 49))
	return out
}()

// mutate applies one token-level fault.
func t2Mutate(c *explore.Ctx, toks [][]byte) [][]byte {
	n := len(toks)
	out := append([][]byte{}, toks...)
	switch c.Choose("fault", 6) {
	case 0: // delete
		i := c.Choose("at", n)
		return append(out[:i], out[i+1:]...)
	case 1: // duplicate
		i := c.Choose("at", n)
		return append(out[:i+1], toks[i:]...)
	case 2: // swap
		if n < 2 {
			c.Skip()
		}
		i := c.Choose("at", n-1)
		out[i], out[i+1] = out[i+1], out[i]
	case 3: // replace
		i := c.Choose("at", n)
		out[i] = explore.Pick(c, "by", t2Alphabet)
	case 4: // insert
		i := c.Choose("at", n+1)
		t := explore.Pick(c, "token", t2Alphabet)
		return append(append(out[:i:i], t), toks[i:]...)
	case 5: // truncate, at every byte
		code := cat(toks...)
		return [][]byte{code[:c.Choose("bytes", len(code))]}
	}
	return out
}

func c05Mutants(c *explore.Ctx) {
	p := t2Base[c.Choose("program", len(t2Base))]
	toks := t2Mutate(c, p.toks)
	if c.Thorough && c.Bool("second fault") && len(toks) > 1 {
		toks = t2Mutate(c, toks)
	}
	c.Exec()
	c05Run(c, "mutant", [][]byte{cat(toks...)}, p.subrs, p.gsubrs)
}

// c05Tokens enumerates all short programs over a small alphabet.
func c05Tokens(c *explore.Ctx) {
	ret := tOp(oReturn)
	subrs := [][]byte{cat(tNum(3), tOp(oHmove), ret), ret}
	gsubrs := [][]byte{cat(tNums(4, 5), ret)}
	alpha := [][]byte{
		tNum(1), tNum(-2), tNum(-107), tNum(-106), tFix(0.5),
		tOp(oRmove), tOp(oHmove), tOp(oVmove), tOp(oRline), tOp(oHline),
		tOp(oHstem), tOp(oVstemhm), cat(tOp(oHintmask), []byte{0x81}), tOp(oEndchar),
		tOp(oDup), tOp(oAdd), tOp(oExch), tOp(oDrop), tOp(oNot), tOp(oRoll), tOp(oIndex),
		tOp(oCallsubr), tOp(oCallgsubr), ret,
	}
	n := 3
	if c.Thorough {
		n = 4
	}
	l := c.Choose("length", n+1)
	var code []byte
	for i := 0; i < l; i++ {
		code = append(code, alpha[c.Choose("token", len(alpha))]...)
	}
	c.Exec()
	c05Run(c, "tokens", [][]byte{code}, subrs, gsubrs)
	code = append(code, tOp(oEndchar)...)
	c05Run(c, "tokens", [][]byte{code}, subrs, gsubrs)
	for _, t := range alpha {
		c05Run(c, "tokens", [][]byte{cat(code[:len(code)-1], t, tOp(oEndchar))}, subrs, gsubrs)
	}
}

// c05Random checks that random gives a number in (0,1].
func c05Random(c *explore.Ctx) {
	n := 1 + c.Choose("count", 4)
	c.Exec()
	var code []byte
	code = cat(tNum(0), tOp(oHmove))
	for i := 0; i < n; i++ {
		code = append(code, tOp(oRandom)...)
	}
	code = cat(code, tOp(oHline), tOp(oEndchar))
	data := t2File([][]byte{code}, nil, nil).build()
	c.Obs(data)
	f, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail("random-rejected", "%v", err)
	}
	x, y := 0.0, 0.0
	for i, cmd := range f.Glyphs[1].Cmds[1:] {
		d := cmd.Args[0] - x + cmd.Args[1] - y
		x, y = cmd.Args[0], cmd.Args[1]
		if !(d > 0 && d <= 1) {
			c.Fail("random-range", "random number %d is %v", i, d)
		}
	}
}

// c05Seac uses endchar with four arguments, which builds an accented
// character from two others.
func c05Seac(c *explore.Ctx) {
	width := c.Bool("width")
	adx := explore.Pick(c, "adx", []int{0, 100})
	ady := explore.Pick(c, "ady", []int{0, -50})
	c.Exec()
	f := simpleFile(229)
	f.fds[0].priv = cat(dOp(20, dInt(500)), dOp(21, dInt(600)))
	f.fds[0].noSub = true
	base, accent := 65, 194 // A, acute in StandardEncoding
	f.charStrings[34] = cat(tNums(1, 2), tOp(oRmove), tNums(100, 200), tOp(oRline), tOp(oEndchar))
	f.charStrings[125] = cat(tNums(11, 12), tOp(oRmove), tNums(10, 20), tOp(oRline), tOp(oEndchar))
	code := cat(tNums(adx, ady, base, accent), tOp(oEndchar))
	if width {
		code = cat(tNum(10), code)
	}
	f.charStrings[171] = code // Aacute
	data := f.build()
	c.Obs(data)
	font, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		return // not supported, but not mis-decoded either
	}
	if font.Glyphs[34].Name != "A" || font.Glyphs[125].Name != "acute" {
		panic("harness error: names")
	}
	want, _, _ := t2Classify(f.charStrings[34], nil, nil)
	acc, _, _ := t2Classify(f.charStrings[125], nil, nil)
	for _, o := range acc.ops {
		want.ops = append(want.ops, t2Op{op: o.op, args: []int64{o.args[0] + int64(adx)<<16, o.args[1] + int64(ady)<<16}})
	}
	if width {
		want.hasWidth, want.width = true, 10<<16
	}
	if d := t2CheckGlyph(font.Glyphs[171], want, 500, 600); d != "" {
		c.Fail("seac", "accented character (endchar with four arguments) misinterpreted: %s", d)
	}
}

func init() {
	run.Register(&run.Property{
		ID:    "C05",
		Level: "model_checking",
		Rule:  "cff.Read applied to hand-assembled CFF files gives exactly the commands, stems, masks and widths which an independent 16.16 fixed-point Type 2 interpreter (written from TN5177, itself compared with golang.org/x/image/font/sfnt on the path operators and subroutines) finds; programs whose first fault is stack underflow or overflow, missing endchar, a bad subroutine index or drawing before the first move are rejected",
		Assumptions: []string{
			"operator/operand sequences to which TN5177 gives no meaning other than by the faults listed in the property (surplus operands, hint operators after the first move, get before put, division by zero, overflow of 16.16 numbers, non-integer counts) are executed, but the result is not judged",
			"comparisons after a rounded division, multiplication or square root are not judged; the results of rounded operations may differ by 2^-13",
		},
		Drivers: []run.Driver{
			{Name: "operators", Run: c05Ops, Weight: 2, Bounds: "every path operator with every legal operand count (<= 48), before and after each of the short forms of every path operator, 4 moves, 4 operand patterns"},
			{Name: "flex", Run: c05Flex, Bounds: "four flex operators with all 5-tuples of 4 values, at all rotations and in 3 layouts"},
			{Name: "numbers", Run: c05Numbers, Bounds: "all one, two and three byte operands and 27648 five byte operands, as coordinate, width, stem and in arithmetic"},
			{Name: "width", Run: c05Width, Bounds: "12 first operators x 9 widths x 7 private dictionaries (also CID-keyed) x 4 subroutine layouts"},
			{Name: "hints", Run: c05Hints, Bounds: "up to three hint operators with 6 stem counts each, 7 numbers of implicit vertical stems, hint and counter masks in several places", BoundsThorough: "up to four hint operators with 9 stem counts each, 7 numbers of implicit vertical stems"},
			{Name: "arithmetic", Run: c05Arith, Bounds: "all expressions of depth two over 11 operators and 19 values with an exact or roundable result"},
			{Name: "ifelse", Run: c05Ifelse, Bounds: "all pairs of 19 values, 6 programs"},
			{Name: "stack", Run: c05Stack, Bounds: "all pairs of 146 stack instructions (drop, dup, exch, index, roll with all small arguments) on stacks of 9 depths"},
			{Name: "storage", Run: c05Storage, Bounds: "all pairs of the 32 indices, 4 programs"},
			{Name: "subrs", Run: c05Subrs, Weight: 2, Bounds: "pairs of 15 sizes of the local and global subroutine tables around the bias thresholds; first, last, middle, and out-of-range indices", BoundsThorough: "all pairs of 16 sizes up to 65535"},
			{Name: "cidsubrs", Run: c05CIDSubrs, Bounds: "CID-keyed fonts with 2 or 3 font dicts, 5 subroutine table sizes each, all FDSelect functions on 4 glyphs in formats 0 and 3"},
			{Name: "nesting", Run: c05Nesting, Bounds: "call depth 1..12 (10 is the limit), 5 local/global patterns, ending in return, endchar, or not at all"},
			{Name: "subrcontext", Run: c05SubrContext, Bounds: "all contiguous parts of 20 programs moved into local, global and nested subroutines"},
			{Name: "mutants", Run: c05Mutants, Bounds: "20 well-formed programs with every single-token deletion, duplication, exchange, replacement and insertion over a 70-token alphabet, and every truncation", BoundsThorough: "as quick, also with every second fault"},
			{Name: "tokens", Run: c05Tokens, Weight: 2, Bounds: "all programs of up to four tokens from a 24-token alphabet, with and without final endchar", BoundsThorough: "all programs of up to five tokens"},
			{Name: "random", Run: c05Random, Bounds: "up to 4 uses of random"},
			{Name: "seac", Run: c05Seac, Bounds: "endchar with four arguments, 8 variants"},
		},
	})
}
