package checks

import (
	"fmt"
	"math"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/postscript/type1"

	"verif/mc/explore"
	"verif/mc/run"
)

// A path segment kind: 0 is a moveto, 1..4 are lines, 5..68 are curves.  The
// bits say which of the deltas are non-zero.
const segKinds = 1 + 4 + 64

func segName(kind int) string {
	switch {
	case kind == 0:
		return "m"
	case kind <= 4:
		return fmt.Sprintf("l%02b", kind-1)
	}
	return fmt.Sprintf("c%06b", kind-5)
}

// segPen appends segments to a glyph, keeping track of the current point.
type segPen struct {
	g    *cff.Glyph
	x, y float64
	n    int
	last []float64 // the deltas of the last segment
}

func newSegPen(name string, width float64) *segPen {
	return &segPen{g: cff.NewGlyph(name, width)}
}

// val returns the next non-zero delta.  All values along a path are
// different, they use all sizes of the number encoding.
func (p *segPen) val() float64 {
	p.n++
	v := float64(p.n)
	switch p.n % 5 {
	case 1:
		v += 2
	case 2:
		v = 107 + v
	case 3:
		v += 0.5
	case 4:
		v = 1131 + v
	}
	if p.n%2 == 0 {
		v = -v
	}
	return v
}

func (p *segPen) deltas(k int, bits int) []float64 {
	d := make([]float64, k)
	for i := range d {
		if bits>>(k-1-i)&1 != 0 {
			d[i] = p.val()
		}
	}
	return d
}

func (p *segPen) add(d []float64) {
	p.last = d
	switch len(d) {
	case 2:
		p.x, p.y = p.x+d[0], p.y+d[1]
		p.g.LineTo(p.x, p.y)
	case 6:
		x1, y1 := p.x+d[0], p.y+d[1]
		x2, y2 := x1+d[2], y1+d[3]
		p.x, p.y = x2+d[4], y2+d[5]
		p.g.CurveTo(x1, y1, x2, y2, p.x, p.y)
	}
}

func (p *segPen) move(dx, dy float64) {
	p.x, p.y = p.x+dx, p.y+dy
	p.g.MoveTo(p.x, p.y)
}

func (p *segPen) seg(kind int) {
	switch {
	case kind == 0:
		p.move(p.val(), p.val())
	case kind <= 4:
		p.add(p.deltas(2, kind-1))
	default:
		p.add(p.deltas(6, kind-5))
	}
}

// t2Font makes a simple font from the given glyphs.
func t2Font(gg ...*cff.Glyph) *cff.Font {
	o := &cff.Outlines{
		FDSelect: func(glyph.ID) int { return 0 },
		Private:  []*type1.PrivateDict{defaultPrivate()},
		Glyphs:   append([]*cff.Glyph{cff.NewGlyph(".notdef", 500)}, gg...),
	}
	o.Encoding = cff.StandardEncoding(o.Glyphs)
	return &cff.Font{FontInfo: baseFontInfo(), Outlines: o}
}

// t2Refuse checks that a font which cannot be represented is refused.
func t2Refuse(c *explore.Ctx, key string, f *cff.Font) {
	if err := cffCheck(c, key, f); err == nil {
		c.Fail(key, "glyph with deltas outside the range of Type 2 numbers was written")
	}
}

func c04Seq(c *explore.Ctx) {
	n := 2
	if c.Thorough {
		n = 3
	}
	start := c.Choose("start", 4)
	if c.Thorough && start%3 != 0 {
		c.Skip()
	}
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = c.Choose("segment", segKinds)
	}
	c.Exec()
	// every choice of one more segment, and the path without it
	var gg []*cff.Glyph
	for last := -1; last < segKinds; last++ {
		p := newSegPen(fmt.Sprintf("g%d", last+1), 500)
		p.move(float64(start&1)*10, float64(start>>1)*20)
		for _, k := range kinds {
			p.seg(k)
		}
		if last >= 0 {
			p.seg(last)
		}
		gg = append(gg, p.g)
	}
	cffMust(c, "sequence", t2Font(gg...))
}

// c04Flex pairs curves such that the second one returns to the height (or
// horizontal position) where the first one started, or almost so.
func c04Flex(c *explore.Ctx) {
	a := c.Choose("first", 64)
	b := c.Choose("second", 64)
	size := explore.Pick(c, "size", []float64{1, 50, 300, 900, 0.25, 1.0 / 65536})
	c.Exec()
	if !c.Thorough && size != 1 && size != 0.25 && (a&1 != 0 && a&2 != 0 || b&16 != 0 && b&32 != 0) {
		c.Skip()
	}
	var gg []*cff.Glyph
	for mode := 0; mode < 8; mode++ {
		for _, after := range []int{-1, 1 + 1, 1 + 3, 5 + 0b101010, 5 + 0b010101, 5 + 63} {
			p := newSegPen(fmt.Sprintf("g%d_%d", mode, after), 500)
			p.move(7, 9)
			d1, d2 := make([]float64, 6), make([]float64, 6)
			for i := range d1 {
				if a>>(5-i)&1 != 0 {
					d1[i] = float64(i+1) * size * float64(1-i&2)
				}
				if b>>(5-i)&1 != 0 {
					d2[i] = float64(i+8) * size * float64(1-i&2)
				}
			}
			sum := func(k int) float64 {
				return d1[k] + d1[k+2] + d1[k+4] + d2[k] + d2[k+2] + d2[k+4]
			}
			switch mode {
			case 0:
			case 1: // dy2+dy5 = 0
				d2[3] = -d1[3]
			case 2: // dy sum 0 through dy6
				d2[5] -= sum(1)
			case 3: // dy sum 0 through dy5
				d2[3] -= sum(1)
			case 4: // dx sum 0 through dx6
				d2[4] -= sum(0)
			case 5: // almost mirrored
				d2[3] = -d1[3] + 1.0/65536
			case 6: // full return
				d2[4] -= sum(0)
				d2[5] -= sum(1)
			case 7: // vertical flex: dx2+dx5 = 0
				d2[2] = -d1[2]
			}
			p.add(d1)
			p.add(d2)
			if after >= 0 {
				p.seg(after)
			}
			gg = append(gg, p.g)
		}
	}
	cffMust(c, "flex", t2Font(gg...))
}

var runKinds = [][]int{
	{1 + 3}, {1 + 2}, {1 + 1}, {1 + 2, 1 + 1}, {1 + 1, 1 + 2}, {1 + 0}, {1 + 3, 1 + 2},
	{5 + 63}, {5 + 0b101110}, {5 + 0b011101}, {5 + 0b101101, 5 + 0b011110}, {5 + 0b011110, 5 + 0b101101},
	{5 + 0b111110}, {5 + 0b111101}, {5 + 0b001100}, {5 + 0b101111, 5 + 0b011111}, {5 + 0b000000},
	{5 + 63, 1 + 3}, {5 + 0b101101}, {5 + 0b011110},
}

func c04Runs(c *explore.Ctx) {
	a := c.Choose("first kind", len(runKinds))
	var na int
	if c.Thorough {
		na = 1 + c.Choose("first length", 60)
	} else {
		na = explore.Pick(c, "first length", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 33, 47, 48, 49, 50, 60})
	}
	b := c.Choose("second kind", len(runKinds))
	c.Exec()
	lens := []int{1, 3, 11, 12, 23, 24, 25, 47, 49}
	if c.Thorough {
		lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 22, 23, 24, 25, 47, 48, 49, 50}
	}
	var gg []*cff.Glyph
	for _, nb := range lens {
		if na+nb > 61 && nb > 3 && !c.Thorough {
			continue
		}
		p := newSegPen(fmt.Sprintf("g%d", nb), 500)
		p.move(1, 2)
		for i := 0; i < na; i++ {
			p.n %= 40
			p.seg(runKinds[a][i%len(runKinds[a])])
		}
		for i := 0; i < nb; i++ {
			p.n %= 40
			p.seg(runKinds[b][i%len(runKinds[b])])
		}
		gg = append(gg, p.g)
	}
	cffMust(c, "run", t2Font(gg...))
}

// c04Numbers uses every integer as a delta, together with fractional values.
func c04Numbers(c *explore.Ctx) {
	var base int
	frac := explore.Pick(c, "fraction", []float64{0, 0.5, 1.0 / 65536, -1.0 / 65536, 0.25 / 65536, 0.49 / 65536, 0.51 / 65536, -0.51 / 65536, 1.49 / 65536, 1.51 / 65536, 1 - 1.0/65536, 1 - 0.4/65536, 1.0 / 3})
	base = c.Choose("block", 1024)*64 - 32768
	c.Exec()
	if !c.Thorough && frac != 0 {
		ok := false
		for _, x := range []int{-32768, -32000, -1132, -108, 0, 107, 1131, 32000, 32767} {
			ok = ok || base <= x && x < base+64
		}
		if !ok {
			c.Skip()
		}
	}
	var gg []*cff.Glyph
	for i := 0; i < 64; i++ {
		v := float64(base+i) + frac
		if !t2Representable(v) {
			continue
		}
		p := newSegPen(fmt.Sprintf("g%d", i), 500)
		p.move(v, 0)
		p.add([]float64{-v, 0})
		p.add([]float64{3, v})
		p.add([]float64{3, -v})
		gg = append(gg, p.g)
		p = newSegPen(fmt.Sprintf("h%d", i), 500)
		p.move(0, v)
		p.add([]float64{0, -v, v, 0, 0, 0})
		p.add([]float64{-v, 0, 0, v, 3, -v})
		if frac == 0 && v > -32768+1000 {
			p.g.HStem = []float64{v, 10}
			p.g.VStem = []float64{-20, v - 20, v, v + 20}
			if v+20 > 32767 || v+20 < -32767 || v-20 < -32767 {
				p.g.VStem = nil
			}
		}
		gg = append(gg, p.g)
	}
	if len(gg) == 0 {
		c.Skip()
	}
	f := t2Font(gg...)
	if err := cffCheck(c, "number", f); err != nil {
		// -v may be out of range
		if base == -32768 || base == 32768-64 {
			return
		}
		c.Fail("number-refused", "valid font refused: %v", err)
	}
}

func t2Representable(v float64) bool {
	y := math.Round(v * 65536)
	return y >= math.MinInt32 && y <= math.MaxInt32
}

// c04Range uses coordinates up to +-32000 and checks that deltas which do not
// fit into a Type 2 number are refused.
func c04Range(c *explore.Ctx) {
	vals := []float64{0, 1, -1, 32000, -32000, 31999.5, -31999.5, 767, 768, -768, 767.99999, 767.999999}
	x0 := explore.Pick(c, "x0", vals)
	x1 := explore.Pick(c, "x1", vals)
	x2 := explore.Pick(c, "x2", vals)
	kind := c.Choose("kind", 5)
	swap := c.Bool("swap")
	c.Exec()
	p := newSegPen("A", 500)
	ok := true
	prev := 0.0
	xy := func(x float64) (float64, float64) {
		d := x - prev
		// values within 2^-16 of the limit may go either way
		ok = ok && t2Representable(d)
		prev = x
		if swap {
			return 5, x
		}
		return x, 5
	}
	switch kind {
	case 0, 1:
		a, b := xy(x0)
		p.g.MoveTo(a, b)
		a, b = xy(x1)
		p.g.LineTo(a, b)
		a, b = xy(x2)
		if kind == 0 {
			p.g.LineTo(a, b)
		} else {
			p.g.MoveTo(a, b)
		}
	case 2:
		p.g.MoveTo(0, 0)
		a, b := xy(x0)
		d, e := xy(x1)
		f, g := xy(x2)
		p.g.CurveTo(a, b, d, e, f, g)
	case 3, 4:
		stems := []float64{x0, x1}
		if x2 != 0 {
			stems = append(stems, x2, x2+1)
			if swap {
				stems[3] = x2 - 1
			}
		}
		prev := 0.0
		for _, x := range stems {
			ok = ok && t2Representable(x-prev)
			prev = x
		}
		if kind == 3 {
			p.g.HStem = stems
		} else {
			p.g.VStem = stems
		}
	}
	if ok {
		cffMust(c, "range", t2Font(p.g))
	} else {
		t2Refuse(c, "range-overflow", t2Font(p.g))
	}
}

// c04Accumulate draws long paths in steps which are not multiples of 2^-16.
func c04Accumulate(c *explore.Ctx) {
	step := explore.Pick(c, "step", []float64{1.0 / 3, 0.1, 1.0 / 7, 1e-5, 3e-6, 1.0/65536 + 1e-7, 1.5 / 65536, 0.499 / 65536, 0.501 / 65536, 33.333, -1.0 / 3, -1e-5, -7.7, 100.00001})
	kind := c.Choose("kind", 9)
	width := c.Bool("width")
	c.Exec()
	n := 300
	w := 500.0
	if width {
		w = 500 + step
	}
	g := cff.NewGlyph("A", w)
	at := func(i int) float64 { return float64(i) * step }
	g.MoveTo(at(1), at(2))
	for i := 3; i < n; i += 3 {
		switch kind {
		case 0:
			g.LineTo(at(i), at(i+1))
		case 1:
			g.LineTo(at(i), 0)
		case 2:
			if i%2 == 0 {
				g.LineTo(at(i), at(i-3))
			} else {
				g.LineTo(at(i-3), at(i))
			}
		case 3:
			g.CurveTo(at(i), at(i+3), at(i+1), at(i+4), at(i+2), at(i+5))
		case 4:
			g.CurveTo(at(i), 0, at(i+1), at(1), at(i+2), 0)
		case 5:
			g.MoveTo(at(i), at(-i))
		case 6:
			g.CurveTo(0, at(i), at(1), at(i+1), 0, at(i+2))
		case 7:
			g.CurveTo(at(i), at(i), at(i+1), at(i+7), at(i+2), at(i+7))
			g.CurveTo(at(i+3), at(i+7), at(i+4), at(i), at(i+5), at(i))
			g.LineTo(at(i+2), at(i))
		case 8:
			if len(g.HStem) < 96 {
				g.HStem = append(g.HStem, at(i), at(i+1))
				g.VStem = append(g.VStem, at(i+1), at(i+2))
			}
		}
	}
	cffMust(c, "accumulate", t2Font(g))
}

func c04Stems(c *explore.Ctx) {
	nh := c.Choose("hstems", 97)
	nv := c.Choose("vstems", 97-nh)
	c.Exec()
	if !c.Thorough && nh > 30 && nv > 30 && nh%8 != 0 && nv%8 != 0 {
		c.Skip()
	}
	total := nh + nv
	mask := make([]float64, (total+7)/8)
	for i := range mask {
		mask[i] = float64((i*37 + 11) & 255)
	}
	if total%8 != 0 && len(mask) > 0 {
		mask[len(mask)-1] = float64(int(mask[len(mask)-1]) &^ (1<<(8-total%8) - 1))
	}
	var gg []*cff.Glyph
	for v := 0; v < 12; v++ {
		w := 500.0
		if v&1 != 0 {
			w = 617
		}
		g := cff.NewGlyph(fmt.Sprintf("g%d", v), w)
		for i := 0; i < nh; i++ {
			g.HStem = append(g.HStem, float64(i*30-200), float64(i*30-200+3+i%20))
		}
		for i := 0; i < nv; i++ {
			g.VStem = append(g.VStem, float64(i*25), float64(i*25-5+i%12))
		}
		if (v == 2*3 || v == 2*4) && total > 0 && v%2 == 0 {
			g.VStem, g.HStem = append([]float64{}, g.VStem...), append([]float64{}, g.HStem...)
		}
		if v >= 2 && total == 0 && v < 8 {
			continue
		}
		switch v >> 1 {
		case 1:
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: mask})
		case 2:
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpCntrMask, Args: mask}, cff.GlyphOp{Op: cff.OpHintMask, Args: mask})
		}
		if v>>1 != 5 {
			g.MoveTo(1, 2)
		}
		if v>>1 == 3 {
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: mask})
		}
		if v>>1 != 5 {
			g.LineTo(5, 6)
		}
		if v>>1 == 4 && total > 0 {
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: mask})
		}
		gg = append(gg, g)
	}
	cffMust(c, "stems", t2Font(gg...))
}

func c04StemValues(c *explore.Ctx) {
	vals := []float64{0, 20, -20, -21, 107, 108, 1131.5, 32000, -32000, 0.25, 1.0 / 3}
	n := 2 * (1 + c.Choose("stems", 2))
	var st []float64
	for i := 0; i < n; i++ {
		st = append(st, explore.Pick(c, "value", vals))
	}
	c.Exec()
	ok := true
	prev := 0.0
	for _, x := range st {
		ok = ok && t2Representable(x-prev)
		prev = x
	}
	for k := 0; k < 4; k++ {
		g := cff.NewGlyph("A", 500+float64(k>>1))
		if k&1 == 0 {
			g.HStem = st
		} else {
			g.VStem = st
		}
		if ok {
			cffMust(c, "stemvalues", t2Font(g))
		} else {
			t2Refuse(c, "stemvalues-overflow", t2Font(g))
		}
	}
}

// c04Masks enumerates sequences of path and mask commands.
func c04Masks(c *explore.Ctx) {
	stems := explore.Pick(c, "stems", [][2]int{{1, 0}, {0, 1}, {4, 3}, {4, 4}, {4, 5}, {0, 9}, {16, 0}, {8, 9}, {24, 24}, {48, 48}, {90, 6}, {0, 96}})
	n := 4
	if c.Thorough {
		n = 6
	}
	pat := explore.Pick(c, "pattern", []int{0xff, 14, 28, 0})
	l := c.Choose("length", n+1)
	total := stems[0] + stems[1]
	nm := 0
	mask := func() []float64 {
		m := make([]float64, (total+7)/8)
		for i := range m {
			m[i] = float64((pat + nm*11 + i) & 255)
		}
		if pat == 0xff {
			m[nm%len(m)] = 255
		}
		nm++
		return m
	}
	g := cff.NewGlyph("A", 500)
	if c.Bool("width") {
		g.Width = 432
	}
	for i := 0; i < stems[0]; i++ {
		g.HStem = append(g.HStem, float64(10*i), float64(10*i+7))
	}
	for i := 0; i < stems[1]; i++ {
		g.VStem = append(g.VStem, float64(10*i+1), float64(10*i+7))
	}
	moved := false
	for i := 0; i < l; i++ {
		k := 3
		if moved {
			k = 5
		}
		x, y := float64(10*i+3), float64(i*i)
		switch c.Choose("command", k) {
		case 0:
			g.MoveTo(x, y)
			moved = true
		case 1:
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: mask()})
		case 2:
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpCntrMask, Args: mask()})
		case 3:
			g.LineTo(x, y)
		case 4:
			g.CurveTo(x, y-1, x+1, y, x+2, y-2)
		}
	}
	c.Exec()
	cffMust(c, "masks", t2Font(g))
}

// c04Width combines the widths of three glyphs with the kinds of the first
// operator in the charstring.
func c04Width(c *explore.Ctx) {
	vals := []float64{0, 500, 501, 499.5, 1.0 / 65536, 608, 1632, 1000.3333, 32767, 3000, -200, 65535, 0.3}
	w := []float64{explore.Pick(c, "width0", vals), explore.Pick(c, "width1", vals), explore.Pick(c, "width2", vals)}
	c.Exec()
	mk := func(name string, w float64, kind int) *cff.Glyph {
		g := cff.NewGlyph(name, w)
		switch kind {
		case 0:
		case 1:
			g.HStem = []float64{1, 2}
		case 2:
			g.VStem = []float64{1, 2, 3, 4}
		case 3:
			g.VStem = []float64{1, 2}
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: []float64{128}})
		case 4:
			g.HStem = []float64{1, 2}
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpCntrMask, Args: []float64{128}})
		case 5:
			g.MoveTo(5, 0)
		case 6:
			g.MoveTo(0, 5)
		case 7:
			g.MoveTo(5, 5)
			g.LineTo(7, 7)
		case 8:
			g.MoveTo(0, 0)
		}
		return g
	}
	var gg []*cff.Glyph
	n := 1
	if w[0] == w[1] || w[1] == w[2] {
		n = 4
	}
	for kind := 0; kind < 9; kind++ {
		for j := 0; j < 3; j++ {
			for i := 0; i < n; i++ {
				gg = append(gg, mk(fmt.Sprintf("g%d_%d_%d", kind, j, i), w[j], kind))
				if j != 1 {
					break
				}
			}
		}
	}
	f := t2Font(gg...)
	err := cffCheck(c, "width", f)
	if err != nil {
		lo, hi := 500.0, 500.0
		for _, x := range w {
			lo, hi = min(lo, x), max(hi, x)
		}
		if hi-lo < 32767 {
			c.Fail("width-refused", "valid font refused: %v", err)
		}
	}
}

func init() {
	run.Register(&run.Property{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "the charstring found by an independent CFF reader in the bytes written by (*cff.Font).Write, executed by an independent 16.16 fixed-point Type 2 interpreter in strict mode (legal operand counts, 48 stack entries, stems before the path, endchar), gives the commands, stems and masks of the glyph to within 2^-16 of the absolute coordinates, and the width relative to the stored default and nominal widths; cff.Read gives the same glyph; paths with deltas which do not fit a Type 2 number are refused",
		Assumptions: []string{
			"glyph programs start with a moveto before any line or curve, mask commands carry one bit for each stem",
			"coordinates within 32000 units, at most 96 stems",
			"a path or stem list with a step of more than 32767 units cannot be expressed in a charstring, and must be refused",
		},
		Drivers: []run.Driver{
			{Name: "sequences", Run: c04Seq, Weight: 8, Bounds: "all sequences of up to three segments over the 69 segment kinds (moveto, 4 line kinds, 64 curve kinds by zero/non-zero pattern of the deltas), after each of 4 initial moves; each execution compiles 70 glyphs", BoundsThorough: "all sequences of up to four segments over the 69 segment kinds, after 2 initial moves; each execution compiles 70 glyphs"},
			{Name: "flex", Run: c04Flex, Weight: 2, Bounds: "all pairs of curve kinds x 8 relations between the deltas (mirrored, returning to the start, almost so) x 6 value sizes x 6 continuations"},
			{Name: "runs", Run: c04Runs, Weight: 2, Bounds: "runs of each of 20 segment patterns with 34 lengths up to 60, followed by runs of each pattern with 9 lengths up to 49", BoundsThorough: "runs of each of 20 segment patterns of every length up to 60, followed by runs of each pattern with 21 lengths up to 50"},
			{Name: "numbers", Run: c04Numbers, Bounds: "all integers -32768..32767 as deltas of moves, lines, curves and stems; 12 fractional offsets near the limits of the number formats", BoundsThorough: "all integers -32768..32767 x 13 fractional offsets as deltas"},
			{Name: "range", Run: c04Range, Bounds: "three coordinates from 12 values up to +-32000 as moves, lines, curve points and stems; out-of-range steps must be refused"},
			{Name: "accumulate", Run: c04Accumulate, Bounds: "paths of up to 300 points in 14 steps which are not multiples of 2^-16, for 9 kinds of paths and stems"},
			{Name: "stems", Run: c04Stems, Bounds: "all splits of up to 96 stems (above 30+30: one count divisible by 8), with and without width, with masks first, after the move, after a line, and without path", BoundsThorough: "all splits of up to 96 stems, with and without width and masks"},
			{Name: "stemvalues", Run: c04StemValues, Bounds: "one or two stems with all values from 11 candidates, including ghost hints and decreasing edges"},
			{Name: "masks", Run: c04Masks, Bounds: "all command sequences of length up to 4 over move, line, curve, hintmask, cntrmask, for 12 stem counts and 4 mask patterns", BoundsThorough: "as quick, up to length 6"},
			{Name: "width", Run: c04Width, Bounds: "all triples of 13 widths, each on glyphs starting with each of 9 operators"},
		},
	})
}
