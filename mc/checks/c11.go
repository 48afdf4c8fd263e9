package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"

	"verif/mc/explore"
	"verif/mc/run"
)

// ---- construction of TrueType glyph data by hand ----

type ttPoint struct {
	x, y int
	on   bool
}

// ttCoord is one way to store a coordinate delta.
type ttCoord struct {
	delta int
	bits  int // 0: word, 1: short positive, 2: short negative, 3: same
}

func ttCoordFor(delta int) ttCoord {
	switch {
	case delta == 0:
		return ttCoord{0, 3}
	case delta > 0 && delta < 256:
		return ttCoord{delta, 1}
	case delta < 0 && delta > -256:
		return ttCoord{delta, 2}
	}
	return ttCoord{delta, 0}
}

type ttRaw struct {
	ends   []int
	xs, ys []ttCoord
	on     []bool
	extra  []byte // additional flag bits per point
	repeat int    // 0: no repeats, 1: maximal runs, 2: every flag has an explicit zero repeat count
	instr  []byte
}

func (r *ttRaw) encode() []byte {
	var b []byte
	for _, e := range r.ends {
		b = append(b, byte(e>>8), byte(e))
	}
	b = append(b, byte(len(r.instr)>>8), byte(len(r.instr)))
	b = append(b, r.instr...)
	var flags []byte
	for i := range r.xs {
		var f byte
		if r.on[i] {
			f |= 1
		}
		switch r.xs[i].bits {
		case 1:
			f |= 0x02 | 0x10
		case 2:
			f |= 0x02
		case 3:
			f |= 0x10
		}
		switch r.ys[i].bits {
		case 1:
			f |= 0x04 | 0x20
		case 2:
			f |= 0x04
		case 3:
			f |= 0x20
		}
		if len(r.extra) > 0 {
			f |= r.extra[i]
		}
		flags = append(flags, f)
	}
	for i := 0; i < len(flags); {
		n := 1
		if r.repeat == 1 {
			for i+n < len(flags) && flags[i+n] == flags[i] && n < 256 {
				n++
			}
		}
		if n > 1 || r.repeat == 2 {
			b = append(b, flags[i]|8, byte(n-1))
		} else {
			b = append(b, flags[i])
		}
		i += n
	}
	put := func(cs []ttCoord) {
		for _, c := range cs {
			switch c.bits {
			case 0:
				b = append(b, byte(c.delta>>8), byte(c.delta))
			case 1:
				b = append(b, byte(c.delta))
			case 2:
				b = append(b, byte(-c.delta))
			}
		}
	}
	put(r.xs)
	put(r.ys)
	return b
}

func (r *ttRaw) contours() [][]ttPoint {
	var res [][]ttPoint
	x, y, i := 0, 0, 0
	for _, e := range r.ends {
		var c []ttPoint
		for ; i <= e; i++ {
			x += r.xs[i].delta
			y += r.ys[i].delta
			c = append(c, ttPoint{x, y, r.on[i]})
		}
		res = append(res, c)
	}
	return res
}

// ttSimple builds a glyph from contours.
func ttSimple(contours [][]ttPoint, instr []byte, repeat int) *glyf.Glyph {
	raw := &ttRaw{instr: instr, repeat: repeat}
	px, py := 0, 0
	n := 0
	first := true
	var llx, lly, urx, ury int
	for _, c := range contours {
		for _, p := range c {
			raw.xs = append(raw.xs, ttCoordFor(p.x-px))
			raw.ys = append(raw.ys, ttCoordFor(p.y-py))
			raw.on = append(raw.on, p.on)
			px, py = p.x, p.y
			if first {
				llx, urx, lly, ury = p.x, p.x, p.y, p.y
				first = false
			}
			llx, urx = min(llx, p.x), max(urx, p.x)
			lly, ury = min(lly, p.y), max(ury, p.y)
			n++
		}
		raw.ends = append(raw.ends, n-1)
	}
	return &glyf.Glyph{
		Rect16: funit.Rect16{LLx: funit.Int16(llx), LLy: funit.Int16(lly), URx: funit.Int16(urx), URy: funit.Int16(ury)},
		Data:   glyf.SimpleGlyph{NumContours: int16(len(contours)), Encoded: raw.encode()},
	}
}

func ttBox(x0, y0, x1, y1 int) [][]ttPoint {
	return [][]ttPoint{{{x0, y0, true}, {x1, y0, true}, {x1, y1, true}, {x0, y1, true}}}
}

// refLoca decodes loca data by hand and checks the invariants.
func refLoca(enc *glyf.Encoded, n int) ([]int, error) {
	var offs []int
	switch enc.LocaFormat {
	case 0:
		if len(enc.LocaData) != 2*(n+1) {
			return nil, fmt.Errorf("short loca has %d bytes for %d glyphs", len(enc.LocaData), n)
		}
		for i := 0; i <= n; i++ {
			offs = append(offs, 2*(int(enc.LocaData[2*i])<<8|int(enc.LocaData[2*i+1])))
		}
	case 1:
		if len(enc.LocaData) != 4*(n+1) {
			return nil, fmt.Errorf("long loca has %d bytes for %d glyphs", len(enc.LocaData), n)
		}
		for i := 0; i <= n; i++ {
			d := enc.LocaData[4*i:]
			offs = append(offs, int(d[0])<<24|int(d[1])<<16|int(d[2])<<8|int(d[3]))
		}
	default:
		return nil, fmt.Errorf("loca format %d", enc.LocaFormat)
	}
	for i, o := range offs {
		if o%2 != 0 {
			return nil, fmt.Errorf("odd offset %d of glyph %d", o, i)
		}
		if o > len(enc.GlyfData) {
			return nil, fmt.Errorf("offset %d of glyph %d outside glyf data (%d)", o, i, len(enc.GlyfData))
		}
		if i > 0 && o < offs[i-1] {
			return nil, fmt.Errorf("offsets decrease at glyph %d", i)
		}
	}
	return offs, nil
}

// refGlyphBytes gives the bytes which represent a glyph (without padding).
func refGlyphBytes(g *glyf.Glyph) []byte {
	if g == nil {
		return nil
	}
	var b []byte
	w := func(x int) { b = append(b, byte(x>>8), byte(x)) }
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		w(int(d.NumContours))
	case glyf.CompositeGlyph:
		w(-1)
	}
	w(int(g.LLx))
	w(int(g.LLy))
	w(int(g.URx))
	w(int(g.URy))
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		b = append(b, d.Encoded...)
	case glyf.CompositeGlyph:
		instr := false
		for _, c := range d.Components {
			w(int(c.Flags))
			w(int(c.GlyphIndex))
			b = append(b, c.Data...)
			instr = instr || c.Flags&0x100 != 0
		}
		if instr && d.Instructions != nil {
			w(len(d.Instructions))
			b = append(b, d.Instructions...)
		}
	}
	return b
}

func glyphsEqual(a, b *glyf.Glyph) error {
	if (a == nil) != (b == nil) {
		return fmt.Errorf("empty/non-empty: %v vs %v", a, b)
	}
	if a == nil {
		return nil
	}
	if a.Rect16 != b.Rect16 {
		return fmt.Errorf("bounding box %v vs %v", a.Rect16, b.Rect16)
	}
	switch x := a.Data.(type) {
	case glyf.SimpleGlyph:
		y, ok := b.Data.(glyf.SimpleGlyph)
		if !ok || x.NumContours != y.NumContours || !bytes.Equal(x.Encoded, y.Encoded) {
			return fmt.Errorf("simple glyph %v vs %v", a.Data, b.Data)
		}
	case glyf.CompositeGlyph:
		y, ok := b.Data.(glyf.CompositeGlyph)
		if !ok || len(x.Components) != len(y.Components) || !bytes.Equal(x.Instructions, y.Instructions) {
			return fmt.Errorf("composite glyph %v vs %v", a.Data, b.Data)
		}
		for i := range x.Components {
			p, q := x.Components[i], y.Components[i]
			if p.Flags != q.Flags || p.GlyphIndex != q.GlyphIndex || !bytes.Equal(p.Data, q.Data) {
				return fmt.Errorf("component %d: %v vs %v", i, p, q)
			}
		}
	}
	return nil
}

func cloneGlyph(g *glyf.Glyph) *glyf.Glyph {
	if g == nil {
		return nil
	}
	r := &glyf.Glyph{Rect16: g.Rect16}
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		r.Data = glyf.SimpleGlyph{NumContours: d.NumContours, Encoded: bytes.Clone(d.Encoded)}
	case glyf.CompositeGlyph:
		e := glyf.CompositeGlyph{Instructions: bytes.Clone(d.Instructions)}
		for _, c := range d.Components {
			e.Components = append(e.Components, glyf.GlyphComponent{Flags: c.Flags, GlyphIndex: c.GlyphIndex, Data: bytes.Clone(c.Data)})
		}
		r.Data = e
	}
	return r
}

// c11roundTrip encodes the glyphs, walks the result independently and decodes
// it again.
func c11roundTrip(c *explore.Ctx, gg glyf.Glyphs) *glyf.Encoded {
	orig := make(glyf.Glyphs, len(gg))
	for i, g := range gg {
		orig[i] = cloneGlyph(g)
	}
	enc := gg.Encode()
	for i := range gg {
		if err := glyphsEqual(orig[i], gg[i]); err != nil {
			c.Fail("c11:encode-mutates", "Encode changed its argument: glyph %d: %v", i, err)
		}
	}
	offs, err := refLoca(enc, len(gg))
	if err != nil {
		c.Fail("c11:loca", "%v", err)
	}
	for i, g := range gg {
		want := refGlyphBytes(g)
		got := enc.GlyfData[offs[i]:offs[i+1]]
		if len(got) < len(want) || !bytes.Equal(got[:len(want)], want) || len(got) > len(want)+3 || (len(want) == 0) != (len(got) == 0) {
			c.Fail("c11:glyf-bytes", "glyph %d: stored %s want %s", i, hexDump(got), hexDump(want))
		}
		for _, b := range got[len(want):] {
			if b != 0 {
				c.Fail("c11:padding", "glyph %d: non-zero padding", i)
			}
		}
	}
	dec, err := glyf.Decode(enc)
	if err != nil {
		c.Fail("c11:decode", "decoding encoded glyphs: %v", err)
	}
	if len(dec) != len(gg) {
		c.Fail("c11:count", "%d glyphs instead of %d", len(dec), len(gg))
	}
	for i := range gg {
		if err := glyphsEqual(gg[i], dec[i]); err != nil {
			c.Fail("c11:round-trip", "glyph %d: %v", i, err)
		}
	}
	return enc
}

// c11decode compares SimpleGlyph.Decode with the points used in the construction.
func c11decode(c *explore.Ctx, g glyf.SimpleGlyph, want [][]ttPoint, instr []byte) {
	before := bytes.Clone(g.Encoded)
	info, err := g.Decode()
	if err != nil {
		c.Fail("c11:simple-decode-error", "valid glyph rejected: %v (% x)", err, g.Encoded)
	}
	if !bytes.Equal(before, g.Encoded) {
		c.Fail("c11:simple-decode-mutates", "Decode changed the glyph data")
	}
	if len(info.Contours) != len(want) {
		c.Fail("c11:contours", "%d contours, want %d", len(info.Contours), len(want))
	}
	for i, cc := range info.Contours {
		if len(cc) != len(want[i]) {
			c.Fail("c11:points", "contour %d: %d points, want %d", i, len(cc), len(want[i]))
		}
		for j, p := range cc {
			q := want[i][j]
			if int(p.X) != q.x || int(p.Y) != q.y || p.OnCurve != q.on {
				c.Fail("c11:point", "contour %d point %d: %v want %v (% x)", i, j, p, q, g.Encoded)
			}
		}
	}
	if !bytes.Equal(info.Instructions, instr) {
		c.Fail("c11:instructions", "instructions % x want % x", info.Instructions, instr)
	}
}

func c11wrap(numContours int, body []byte) []byte {
	b := []byte{byte(numContours >> 8), byte(numContours), 0xFF, 0xF0, 0xFF, 0xF1, 0, 200, 1, 44}
	return append(b, body...)
}

func init() {
	wordDeltas := []int{0, 5, -5, 300, -32768, 32767, 255, -256}
	shortDeltas := []int{0, 1, 255, 128}
	pickCoord := func(c *explore.Ctx, full, reduced bool) ttCoord {
		bits := c.Choose("kind", 4)
		switch bits {
		case 0:
			if !full {
				if reduced {
					return ttCoord{300, 0}
				}
				return ttCoord{[]int{300, -7}[c.Choose("word", 2)], 0}
			}
			return ttCoord{explore.Pick(c, "word", wordDeltas), 0}
		case 1, 2:
			d := 255
			if full {
				d = explore.Pick(c, "short", shortDeltas)
			} else if !reduced {
				d = []int{3, 255}[c.Choose("short", 2)]
			}
			if bits == 2 {
				d = -d
			}
			return ttCoord{d, bits}
		}
		return ttCoord{0, 3}
	}
	// all simple glyphs with few points
	simple := func(c *explore.Ctx) {
		maxPts := 3
		n := c.Choose("points", maxPts+1)
		raw := &ttRaw{}
		sumX, sumY := 0, 0
		for i := 0; i < n; i++ {
			x := pickCoord(c, n == 1, n == 3 && !c.Thorough)
			y := pickCoord(c, n == 1 || (n == 2 && c.Thorough), n == 3 && !c.Thorough)
			raw.xs = append(raw.xs, x)
			raw.ys = append(raw.ys, y)
			raw.on = append(raw.on, c.Bool("on"))
			raw.extra = append(raw.extra, 0)
			sumX += x.delta
			sumY += y.delta
			if sumX < -32768 || sumX > 32767 || sumY < -32768 || sumY > 32767 {
				c.Skip()
			}
		}
		if n > 0 {
			// the reserved / OVERLAP_SIMPLE bits
			raw.extra[0] = explore.PickDev(c, "bits", []byte{0, 0x40, 0x80})
			// contour structure: composition of n
			for i := 0; i < n-1; i++ {
				if c.Dev("split", 2) == 1 {
					raw.ends = append(raw.ends, i)
				}
			}
			raw.ends = append(raw.ends, n-1)
		}
		raw.repeat = c.Dev("repeat", 3)
		if k := c.Dev("instr", 4); k > 0 {
			raw.instr = []byte{0xB0, 0x01, 0x21, 0x40, 0x08}[:k]
		}
		pad := c.Dev("pad", 4)
		c.Exec()
		body := raw.encode()
		sg := glyf.SimpleGlyph{NumContours: int16(len(raw.ends)), Encoded: body}
		c.Log("ends=%v xs=%v ys=%v on=%v body=% x", raw.ends, raw.xs, raw.ys, raw.on, body)
		want := raw.contours()
		c11decode(c, sg, want, raw.instr)

		// decode the file form with trailing padding
		file := append(c11wrap(len(raw.ends), body), make([]byte, pad)...)
		if len(file)%2 != 0 {
			file = append(file, 0)
		}
		l := len(file) / 2
		enc := &glyf.Encoded{GlyfData: file, LocaData: []byte{0, 0, byte(l >> 8), byte(l)}, LocaFormat: 0}
		gg, err := glyf.Decode(enc)
		if err != nil {
			c.Fail("c11:valid-rejected", "valid glyph rejected: %v (% x)", err, file)
		}
		d, ok := gg[0].Data.(glyf.SimpleGlyph)
		if !ok || !bytes.Equal(d.Encoded, body) || int(d.NumContours) != len(raw.ends) {
			c.Fail("c11:padding-removal", "got %v want % x", gg[0].Data, body)
		}
		if (gg[0].Rect16 != funit.Rect16{LLx: -16, LLy: -15, URx: 200, URy: 300}) {
			c.Fail("c11:bbox", "bounding box %v", gg[0].Rect16)
		}
		c11decode(c, d, want, raw.instr)
		c11roundTrip(c, gg)
		c.Obs(body)
	}

	// single faults in simple glyph data
	faults := func(c *explore.Ctx) {
		base := c.Choose("base", 3)
		var raw *ttRaw
		switch base {
		case 0:
			raw = &ttRaw{ends: []int{2}, instr: []byte{1, 2}}
		case 1:
			raw = &ttRaw{ends: []int{1, 3, 4}, repeat: 1}
		case 2:
			raw = &ttRaw{ends: []int{0}, repeat: 2}
		}
		for i := 0; i <= raw.ends[len(raw.ends)-1]; i++ {
			raw.xs = append(raw.xs, ttCoordFor([]int{10, -300, 0, 7, 255}[i]))
			raw.ys = append(raw.ys, ttCoordFor([]int{0, 20, -20, 500, 1}[i]))
			raw.on = append(raw.on, i != 1)
		}
		body := raw.encode()
		nc := len(raw.ends)
		cut := c.Choose("cut", len(body)+1)
		mod := body[:len(body)-cut]
		pos, val := -1, 0
		if cut == 0 {
			pos = c.Choose("pos", len(body))
			val = c.Choose("val", 256)
			mod = bytes.Clone(body)
			mod[pos] = byte(val)
			nc = c.Choose("numContours", 5)
		}
		c.Exec()
		c.Log("contours=%d data=% x", nc, mod)
		sg := glyf.SimpleGlyph{NumContours: int16(nc), Encoded: bytes.Clone(mod)}
		info, err := sg.Decode()
		wantC, wantI, ok := refSimpleDecode(nc, mod)
		if !ok && err == nil {
			c.Fail("c11:malformed-accepted", "malformed glyph decoded: contours=%d % x", nc, mod)
		}
		if ok && err != nil {
			c.Fail("c11:valid-rejected", "valid glyph rejected: contours=%d % x: %v", nc, mod, err)
		}
		if ok {
			_ = info
			c11decode(c, sg, wantC, wantI)
		}
		c.Obs(mod)
	}

	// composite glyphs
	composite := func(c *explore.Ctx) {
		n := 1 + c.Choose("components", 3)
		var comp []glyf.GlyphComponent
		instr := false
		var ids []glyph.ID
		for i := 0; i < n; i++ {
			var fl glyf.ComponentFlag
			size := 2
			var words, scale int
			if i == 0 || c.Thorough {
				words, scale = c.Choose("words", 2), c.Choose("scale", 4)
			} else {
				words, scale = c.Dev("words", 2), c.Dev("scale", 4)
			}
			if words == 1 {
				fl |= glyf.FlagArg1And2AreWords
				size = 4
			}
			switch scale {
			case 1:
				fl |= glyf.FlagWeHaveAScale
				size += 2
			case 2:
				fl |= glyf.FlagWeHaveAnXAndYScale
				size += 4
			case 3:
				fl |= glyf.FlagWeHaveATwoByTwo
				size += 8
			}
			if c.Bool("instr") {
				fl |= glyf.FlagWeHaveInstructions
				instr = true
			}
			fl |= explore.PickDev(c, "other", []glyf.ComponentFlag{glyf.FlagArgsAreXYValues, 0,
				glyf.FlagRoundXYToGrid | glyf.FlagArgsAreXYValues, glyf.FlagUseMyMetrics, glyf.FlagOverlapCompound,
				glyf.FlagScaledComponentOffset, glyf.FlagUnscaledComponentOffset, 0xE010})
			if i < n-1 {
				fl |= glyf.FlagMoreComponents
			}
			data := make([]byte, size)
			for j := range data {
				data[j] = byte(0x81 + 17*i + 5*j)
			}
			id := explore.PickDev(c, "gid", []glyph.ID{glyph.ID(3 + i), 0, 65535, 256})
			ids = append(ids, id)
			comp = append(comp, glyf.GlyphComponent{Flags: fl, GlyphIndex: id, Data: data})
		}
		g := glyf.CompositeGlyph{Components: comp}
		if instr {
			k := c.Choose("instrLen", 4)
			g.Instructions = []byte{7, 8, 9, 10}[:k]
		}
		neighbour := c.Choose("neighbour", 2)
		c.Exec()
		gl := &glyf.Glyph{Rect16: funit.Rect16{LLx: -1, LLy: -2, URx: 3, URy: 4}, Data: g}
		gg := glyf.Glyphs{gl}
		if neighbour == 1 {
			gg = append(gg, ttSimple(ttBox(0, 0, 10, 10), nil, 0), nil, gl)
		}
		c.Log("%v", g)
		enc := c11roundTrip(c, gg)
		if got := gl.Components(); !reflect.DeepEqual(got, ids) {
			c.Fail("c11:components", "Components()=%v want %v", got, ids)
		}
		// rewriting
		before := cloneGlyph(gl)
		m := map[glyph.ID]glyph.ID{3: 17, 4: 3, 5: 65534, 0: 1, 65535: 2, 256: 4}
		g2 := gl.FixComponents(m)
		if err := glyphsEqual(before, gl); err != nil {
			c.Fail("c11:fix-mutates", "FixComponents changed the original: %v", err)
		}
		want := cloneGlyph(gl)
		wd := want.Data.(glyf.CompositeGlyph)
		for i := range wd.Components {
			wd.Components[i].GlyphIndex = m[wd.Components[i].GlyphIndex]
		}
		if err := glyphsEqual(want, g2); err != nil {
			c.Fail("c11:fix", "FixComponents: %v", err)
		}
		c.Obs(enc.GlyfData)
	}

	// sets of glyphs
	kinds := func(i int) *glyf.Glyph {
		switch i {
		case 1:
			return ttSimple(ttBox(0, 0, 100, 200), nil, 1)
		case 2: // odd number of bytes
			g := ttSimple(ttBox(-10, 0, 100, 300), nil, 1)
			if len(g.Data.(glyf.SimpleGlyph).Encoded)%2 == 0 {
				g = ttSimple(ttBox(-10, 0, 100, 300), []byte{1}, 1)
			}
			return g
		case 3:
			return &glyf.Glyph{Data: glyf.SimpleGlyph{NumContours: 0, Encoded: []byte{0, 0}}}
		case 4:
			return &glyf.Glyph{Rect16: funit.Rect16{LLx: 1, LLy: 2, URx: 3, URy: -4}, Data: glyf.CompositeGlyph{
				Components: []glyf.GlyphComponent{{Flags: 0x0002, GlyphIndex: 1, Data: []byte{1, 2}}}}}
		case 5:
			return &glyf.Glyph{Rect16: funit.Rect16{LLx: -32768, LLy: -32768, URx: 32767, URy: 32767}, Data: glyf.CompositeGlyph{
				Components:   []glyf.GlyphComponent{{Flags: 0x0023, GlyphIndex: 1, Data: []byte{1, 2, 3, 4}}, {Flags: 0x0102, GlyphIndex: 2, Data: []byte{9, 8}}},
				Instructions: []byte{5, 6, 7}}}
		}
		return nil
	}
	sets := func(c *explore.Ctx) {
		maxN := 4
		if c.Thorough {
			maxN = 6
		}
		n := 1 + c.Choose("n", maxN)
		var gg glyf.Glyphs
		for i := 0; i < n; i++ {
			gg = append(gg, kinds(c.Choose("kind", 6)))
		}
		c.Exec()
		enc := c11roundTrip(c, gg)
		for i, g := range gg {
			if g == nil {
				continue
			}
			if s, ok := g.Data.(glyf.SimpleGlyph); ok {
				w, in, ok := refSimpleDecode(int(s.NumContours), s.Encoded)
				if !ok {
					c.Fail("HARNESS:bad", "glyph %d", i)
				}
				c11decode(c, s, w, in)
				if g.Components() != nil {
					c.Fail("c11:components", "simple glyph has components")
				}
			}
		}
		// the long format is accepted, too
		offs, _ := refLoca(enc, n)
		var long []byte
		for _, o := range offs {
			long = append(long, byte(o>>24), byte(o>>16), byte(o>>8), byte(o))
		}
		dec, err := glyf.Decode(&glyf.Encoded{GlyfData: enc.GlyfData, LocaData: long, LocaFormat: 1})
		if err != nil {
			c.Fail("c11:long-loca", "long format rejected: %v", err)
		}
		for i := range gg {
			if err := glyphsEqual(gg[i], dec[i]); err != nil {
				c.Fail("c11:long-loca", "glyph %d: %v", i, err)
			}
		}
		c.Obs(enc.LocaData)
	}

	// sizes around the limits of the loca formats
	sizes := func(c *explore.Ctx) {
		total := explore.Pick(c, "total", []int{
			65524, 65532, 65534, 65536, 65538, 65540, 98304, 131056, 131064, 131066, 131068, 131070, 131072, 131074, 131076, 131080, 200000, 16777214, 16777216 + 100})
		tailKind := c.Choose("tail", 6)
		empties := explore.Pick(c, "empties", []int{0, 1, 300, 65000})
		c.Exec()
		tail := kinds(tailKind)
		var gg glyf.Glyphs
		gg = append(gg, kinds(1))
		used := len(refGlyphBytes(kinds(1)))
		used += used % 2
		tl := len(refGlyphBytes(tail))
		tl += tl % 2
		rest := total - used - tl
		for rest > 0 {
			// fillers with long instructions
			k := min(rest, 60000)
			if rest-k > 0 && rest-k < 40 {
				k -= 100
			}
			base := ttSimple(ttBox(0, 0, 5, 5), nil, 1)
			l := len(refGlyphBytes(base))
			if k < l {
				break
			}
			instr := make([]byte, k-l)
			for i := range instr {
				instr[i] = byte(i*7 + len(gg))
			}
			gg = append(gg, ttSimple(ttBox(0, 0, 5, 5), instr, 1))
			rest -= k
		}
		for i := 0; i < empties; i++ {
			gg = append(gg, nil)
		}
		gg = append(gg, tail)
		enc := c11roundTrip(c, gg)
		c.Log("total %d, glyf %d bytes, format %d", total, len(enc.GlyfData), enc.LocaFormat)
		c.ObsStr(fmt.Sprint(len(enc.GlyfData), enc.LocaFormat, len(gg)))
	}
	// flag runs longer than the repeat count can express
	runs := func(c *explore.Ctx) {
		n := explore.Pick(c, "n", []int{2, 3, 255, 256, 257, 258, 511, 512, 513, 1000, 4000})
		mode := c.Choose("repeat", 3)
		pattern := c.Choose("pattern", 4)
		split := c.Choose("split", 3)
		c.Exec()
		raw := &ttRaw{repeat: mode}
		for i := 0; i < n; i++ {
			dx, dy := 1, 0
			switch pattern {
			case 1:
				dx, dy = 0, 0
			case 2:
				dx, dy = []int{1, -1}[i%2], []int{300, -300}[i%2]
			case 3:
				dx, dy = []int{1, -1}[i/300%2], 2
			}
			raw.xs = append(raw.xs, ttCoordFor(dx))
			raw.ys = append(raw.ys, ttCoordFor(dy))
			raw.on = append(raw.on, true)
		}
		switch split {
		case 1:
			raw.ends = []int{0}
			if n > 2 {
				raw.ends = append(raw.ends, n-2)
			}
		case 2:
			for i := 0; i < n-1; i++ {
				raw.ends = append(raw.ends, i)
			}
		}
		raw.ends = append(raw.ends, n-1)
		body := raw.encode()
		sg := glyf.SimpleGlyph{NumContours: int16(len(raw.ends)), Encoded: body}
		c11decode(c, sg, raw.contours(), nil)
		c11roundTrip(c, glyf.Glyphs{{Data: sg}})
		c.ObsStr(fmt.Sprint(n, mode, pattern, split))
	}

	run.Register(&run.Property{
		ID: "C11", Level: "model_checking",
		Rule: "one execution = one glyph or glyph set built from choices, encoded, walked with an independent loca/glyf reader, decoded again and compared with the construction; distinct observations are distinct encodings",
		Assumptions: []string{
			"coordinates stay within int16 (sums outside are undefined by the format)",
		},
		Drivers: []run.Driver{
			{Name: "simple", Run: simple, Dev: 2, Weight: 3,
				Bounds: "all simple glyphs with 0..3 points over all 16 coordinate encodings x on/off curve, with up to 2 deviations in contour structure, flag repeats, reserved bits, instructions and padding"},
			{Name: "faults", Run: faults, Weight: 1,
				Bounds: "all truncations and all single-byte values at every position of 3 base glyphs with all contour counts 0..4, judged by an independent decoder"},
			{Name: "composite", Run: composite, Dev: 2, DevThorough: 3, Weight: 2,
				Bounds: "all composites of 1..3 components over argument size x transform x instruction flags, up to 2 (3) further deviations (other flags, glyph ids)"},
			{Name: "sets", Run: sets, Weight: 1, Bounds: "all sequences of up to 4 (thorough: 6) glyphs over 6 kinds", Dev: 0},
			{Name: "sizes", Run: sizes, Weight: 1, Bounds: "19 total sizes around 64 KiB, 128 KiB, 16 MiB x 6 last glyphs x up to 65000 empty glyphs"},
			{Name: "flag-runs", Run: runs, Weight: 1, Bounds: "point counts around the 256-entry flag repeat limit x 3 repeat styles x 4 patterns x 3 contour structures"},
		},
	})
}

// refSimpleDecode decodes the data of a simple glyph following the OpenType
// specification.
func refSimpleDecode(nc int, b []byte) (contours [][]ttPoint, instr []byte, ok bool) {
	p := 0
	u8 := func() int {
		if p >= len(b) {
			ok = false
			p++
			return 0
		}
		p++
		return int(b[p-1])
	}
	u16 := func() int { h := u8(); return h<<8 | u8() }
	ok = true
	prev := -1
	var ends []int
	for i := 0; i < nc; i++ {
		e := u16()
		if e < prev || (e == prev && i > 0 && false) {
			ok = false
		}
		ends = append(ends, e)
		prev = e
	}
	il := u16()
	if !ok || p+il > len(b) {
		return nil, nil, false
	}
	instr = b[p : p+il]
	p += il
	n := 0
	if nc > 0 {
		n = ends[nc-1] + 1
	}
	var flags []int
	for len(flags) < n && ok {
		f := u8()
		r := 1
		if f&8 != 0 {
			r += u8()
		}
		for ; r > 0 && len(flags) < n; r-- {
			flags = append(flags, f)
		}
	}
	if !ok {
		return nil, nil, false
	}
	coord := func(short, same int) []int {
		v := 0
		var res []int
		for _, f := range flags {
			switch {
			case f&short != 0 && f&same != 0:
				v += u8()
			case f&short != 0:
				v -= u8()
			case f&same == 0:
				v += int(int16(u16()))
			}
			v = int(int16(v))
			res = append(res, v)
		}
		return res
	}
	xs := coord(2, 16)
	ys := coord(4, 32)
	if !ok {
		return nil, nil, false
	}
	k := 0
	for _, e := range ends {
		c := []ttPoint{}
		for ; k <= e; k++ {
			c = append(c, ttPoint{xs[k], ys[k], flags[k]&1 != 0})
		}
		contours = append(contours, c)
	}
	return contours, instr, true
}
