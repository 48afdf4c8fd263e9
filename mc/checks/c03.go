package checks

import (
	"bytes"
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"

	"verif/mc/explore"
	"verif/mc/run"
)

// refContainer parses an sfnt container and checks that it is well-formed.
func refContainer(b []byte, scaler uint32) (map[string][]byte, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("%d bytes", len(b))
	}
	if uint32(rdU32(b, 0)) != scaler {
		return nil, fmt.Errorf("scaler type %08x", rdU32(b, 0))
	}
	n := rdU16(b, 4)
	if len(b) < 12+16*n {
		return nil, fmt.Errorf("%d tables in %d bytes", n, len(b))
	}
	if n == 0 {
		return nil, fmt.Errorf("no tables")
	}
	sel := bits.Len(uint(n)) - 1
	if rdU16(b, 6) != 16<<sel || rdU16(b, 8) != sel || rdU16(b, 10) != 16*n-16<<sel {
		return nil, fmt.Errorf("search fields %x for %d tables", b[6:12], n)
	}
	res := map[string][]byte{}
	prev := ""
	type span struct{ a, b int }
	var spans []span
	headOff := -1
	for i := range n {
		r := b[12+16*i : 28+16*i]
		tag := string(r[:4])
		if tag <= prev {
			return nil, fmt.Errorf("tag %q follows %q", tag, prev)
		}
		prev = tag
		off, l := rdU32(r, 8), rdU32(r, 12)
		if off%4 != 0 || off < 12+16*n || off+l > len(b) {
			return nil, fmt.Errorf("table %q at %d+%d of %d", tag, off, l, len(b))
		}
		res[tag] = b[off : off+l]
		spans = append(spans, span{off, off + l})
		body := b[off : off+l]
		if tag == "head" {
			headOff = off
			if l >= 12 {
				body = bytes.Clone(body)
				copy(body[8:12], []byte{0, 0, 0, 0})
			}
		}
		if s := refChecksum(body); s != uint32(rdU32(r, 4)) {
			return nil, fmt.Errorf("checksum of %q is %08x, computed %08x", tag, rdU32(r, 4), s)
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a || spans[i].a == spans[j].a && spans[i].b < spans[j].b })
	end := 12 + 16*n
	for _, s := range spans {
		if s.a < end {
			return nil, fmt.Errorf("tables overlap at %d", s.a)
		}
		end = s.b
	}
	if headOff >= 0 && len(res["head"]) >= 12 {
		if s := refChecksum(b); s != 0xB1B0AFBA {
			return nil, fmt.Errorf("checksum of the file is %08x", s)
		}
	}
	return res, nil
}

// c03Write writes the tables and judges the result.
func c03Write(c *explore.Ctx, scaler uint32, tables map[string][]byte) []byte {
	want := map[string][]byte{}
	for k, v := range tables {
		if v != nil {
			want[k] = bytes.Clone(v)
			if len(v) == 0 {
				want[k] = []byte{}
			}
		}
	}
	buf := &bytes.Buffer{}
	n, err := header.Write(buf, scaler, tables)
	if len(want) == 0 || len(want) > 280 {
		// no well-formed file with no tables exists, and more than 280 tables
		// are outside the documented limits: must be refused
		if err == nil {
			inf, err := header.Read(bytes.NewReader(buf.Bytes()))
			if err != nil || len(inf.Toc) != len(want) {
				c.Fail("c03:limit", "%d tables written without error, but cannot be read: %v", len(want), err)
			}
		}
		return nil
	}
	if err != nil {
		c.Fail("c03:write", "Write: %v", err)
	}
	b := buf.Bytes()
	if n != int64(len(b)) {
		c.Fail("c03:count", "Write reports %d bytes, not %d", n, len(b))
	}
	got, err := refContainer(b, scaler)
	if err != nil {
		c.Fail("c03:container", "%v", err)
	}
	cmpTables := func(key string, got map[string][]byte) {
		for k, v := range want {
			g, ok := got[k]
			if !ok {
				c.Fail(key, "table %q is missing", k)
			}
			if k == "head" && len(v) >= 12 && len(g) == len(v) {
				v = bytes.Clone(v)
				copy(v[8:12], g[8:12])
			}
			if !bytes.Equal(g, v) {
				c.Fail(key, "table %q: %d bytes %s, want %d bytes %s", k, len(g), clip(fmt.Sprintf("%x", g), 80), len(v), clip(fmt.Sprintf("%x", v), 80))
			}
		}
		if len(got) != len(want) {
			c.Fail(key, "%d tables, want %d", len(got), len(want))
		}
	}
	cmpTables("c03:tables", got)
	cmpTables("c03:readback", c03Read(c, b, scaler))
	for k, v := range tables {
		if v != nil && !bytes.Equal(v, got[k]) {
			c.Fail("c03:input", "input table %q was changed", k)
		}
	}
	return b
}

func c03Read(c *explore.Ctx, b []byte, scaler uint32) map[string][]byte {
	r := bytes.NewReader(b)
	inf, err := header.Read(r)
	if err != nil {
		c.Fail("c03:read", "Read: %v", err)
	}
	if inf.ScalerType != scaler {
		c.Fail("c03:read", "scaler type %08x", inf.ScalerType)
	}
	back := map[string][]byte{}
	for k := range inf.Toc {
		body, err := inf.ReadTableBytes(r, k)
		if err != nil {
			c.Fail("c03:read", "table %q: %v", k, err)
		}
		back[k] = body
	}
	return back
}

// xOutline returns the outline of a glyph as seen by x/image.
func xOutline(xf *xsfnt.Font, buf *xsfnt.Buffer, gid, upem int) (string, error) {
	seg, err := xf.LoadGlyph(buf, xsfnt.GlyphIndex(gid), fixed.Int26_6(upem), nil)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, s := range seg {
		k := []int{1, 1, 2, 3}[s.Op]
		b.WriteByte("mlqc"[s.Op])
		for _, p := range s.Args[:k] {
			fmt.Fprintf(&b, " %d %d", int(p.X), -int(p.Y))
		}
		b.WriteByte(';')
	}
	return b.String(), nil
}

// ttOutline returns the outline of a TrueType glyph in the same form.  Only
// contours which start with an on-curve point are supported.
func ttOutline(gg glyf.Glyphs, gid int) (string, bool) {
	type pt = ttPoint
	var collect func(gid, dx, dy, depth int) ([][]pt, bool)
	collect = func(gid, dx, dy, depth int) ([][]pt, bool) {
		if depth > 6 || gid >= len(gg) {
			return nil, false
		}
		g := gg[gid]
		if g == nil {
			return nil, true
		}
		switch d := g.Data.(type) {
		case glyf.SimpleGlyph:
			cc, _, ok := refSimpleDecode(int(d.NumContours), d.Encoded)
			for i := range cc {
				for j := range cc[i] {
					cc[i][j].x += dx
					cc[i][j].y += dy
				}
			}
			return cc, ok
		case glyf.CompositeGlyph:
			var res [][]pt
			for _, comp := range d.Components {
				fl := comp.Flags
				if fl&2 == 0 {
					return nil, false
				}
				var x, y int
				rest := comp.Data
				if fl&1 != 0 {
					x, y = rdI16(rest, 0), rdI16(rest, 2)
					rest = rest[4:]
				} else {
					x, y = int(int8(rest[0])), int(int8(rest[1]))
					rest = rest[2:]
				}
				if fl&0x08 != 0 && (len(rest) < 2 || rdI16(rest, 0) != 0x4000) || fl&0xC0 != 0 {
					return nil, false
				}
				cc, ok := collect(int(comp.GlyphIndex), dx+x, dy+y, depth+1)
				if !ok {
					return nil, false
				}
				res = append(res, cc...)
			}
			return res, true
		}
		return nil, false
	}
	cc, ok := collect(gid, 0, 0, 0)
	if !ok {
		return "", false
	}
	var b strings.Builder
	for _, c := range cc {
		if len(c) == 0 || !c[0].on {
			return "", false
		}
		fmt.Fprintf(&b, "m %d %d;", c[0].x, c[0].y)
		for i := 1; i <= len(c); i++ {
			p := c[i%len(c)]
			if p.on {
				fmt.Fprintf(&b, "l %d %d;", p.x, p.y)
				continue
			}
			q := c[(i+1)%len(c)]
			if !q.on {
				return "", false
			}
			fmt.Fprintf(&b, "q %d %d %d %d;", p.x, p.y, q.x, q.y)
			i++
		}
	}
	return b.String(), true
}

// cffOutline returns the outline of a CFF glyph in the form of xOutline, if
// all coordinates are integers.
func cffOutline(g *cff.Glyph) (string, bool) {
	var b strings.Builder
	var fx, fy, x, y float64
	closePath := func() {
		if x != fx || y != fy {
			fmt.Fprintf(&b, "l %d %d;", int(fx), int(fy))
		}
	}
	for _, cmd := range g.Cmds {
		op := byte(0)
		switch cmd.Op {
		case cff.OpMoveTo:
			op = 'm'
			closePath()
			fx, fy = cmd.Args[0], cmd.Args[1]
		case cff.OpLineTo:
			op = 'l'
		case cff.OpCurveTo:
			op = 'c'
		default:
			continue
		}
		b.WriteByte(op)
		for _, a := range cmd.Args {
			if a != float64(int(a)) {
				return "", false
			}
			fmt.Fprintf(&b, " %d", int(a))
		}
		b.WriteByte(';')
		x, y = cmd.Args[len(cmd.Args)-2], cmd.Args[len(cmd.Args)-1]
	}
	closePath()
	return b.String(), true
}

// c03XImage compares a complete font with what x/image finds in the file.
// The result says whether x/image could read the file.
func c03XImage(c *explore.Ctx, f *sfnt.Font, data []byte, chars map[rune]glyph.ID) bool {
	xf, err := xsfnt.Parse(data)
	if err != nil {
		if strings.Contains(err.Error(), "unsupported") {
			return false
		}
		c.Fail("c03:ximage-parse", "x/image: %v", err)
	}
	var buf xsfnt.Buffer
	n := f.NumGlyphs()
	upem := int(f.UnitsPerEm)
	if xf.NumGlyphs() != n || int(xf.UnitsPerEm()) != upem {
		c.Fail("c03:ximage", "x/image: %d glyphs, %d units per em", xf.NumGlyphs(), xf.UnitsPerEm())
	}
	widths := f.Widths()
	for i := range n {
		gi := xsfnt.GlyphIndex(i)
		adv, err := xf.GlyphAdvance(&buf, gi, fixed.Int26_6(upem), font.HintingNone)
		if err != nil || int(adv) != int(int16(widths[i])) {
			c.Fail("c03:ximage-advance", "x/image: advance of glyph %d is %d (%v), want %v", i, adv, err, widths[i])
		}
		got, err := xOutline(xf, &buf, i, upem)
		if err != nil {
			c.Fail("c03:ximage-outline", "x/image: outline of glyph %d: %v", i, err)
		}
		var want string
		ok := false
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			want, ok = ttOutline(o.Glyphs, i)
			name, err := xf.GlyphName(&buf, gi)
			wantName := ""
			if o.Names != nil {
				wantName = o.Names[i]
			}
			if err != nil || name != wantName {
				c.Fail("c03:ximage-name", "x/image: name of glyph %d is %q (%v), want %q", i, name, err, wantName)
			}
		case *cff.Outlines:
			want, ok = cffOutline(o.Glyphs[i])
		}
		if ok && got != want {
			c.Fail("c03:ximage-outline", "x/image: outline of glyph %d is %s, want %s", i, clip(got, 200), clip(want, 200))
		}
	}
	if chars != nil {
		check := func(r rune) {
			got, err := xf.GlyphIndex(&buf, r)
			if err != nil || got != xsfnt.GlyphIndex(chars[r]) {
				c.Fail("c03:ximage-cmap", "x/image: U+%04X is glyph %d (%v), want %d", r, got, err, chars[r])
			}
		}
		for r := range chars {
			check(r)
			check(r + 1)
			check(r ^ 0x80)
			check(r ^ 0x10000)
		}
		check(0)
		check(0xFFFF)
		check(0x10FFFF)
	}
	return true
}

func init() {
	scalers := []uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple}
	fill := func(n, kind int) []byte {
		b := make([]byte, n)
		for i := range b {
			switch kind {
			case 0:
				b[i] = byte(i*7 + n)
			case 1:
				b[i] = 0xFF
			case 2:
				b[i] = byte(i&3) << 6
			}
		}
		return b
	}

	sizes := func(c *explore.Ctx) {
		lens := []int{-2, -1, 0, 1, 2, 3, 4, 5}
		if c.Thorough {
			lens = append(lens, 6, 7, 8, 9)
		}
		scaler := explore.Pick(c, "scaler", scalers)
		kind := c.Choose("content", 3)
		t := map[string][]byte{}
		if h := explore.Pick(c, "head", []int{-2, -1, 0, 4, 11, 12, 13, 54, 55}); h >= -1 {
			t["head"] = nil
			if h >= 0 {
				t["head"] = fill(h, kind)
			}
		}
		for _, tag := range []string{"glyf", "OS/2", " !~a", "~~~~"} {
			l := explore.Pick(c, tag, lens)
			switch {
			case l == -1:
				t[tag] = nil
			case l >= 0:
				t[tag] = fill(l, kind)
			}
		}
		c.Exec()
		c.Log("%08x %v", scaler, t)
		c.Obs(c03Write(c, scaler, t))
	}

	counts := func(c *explore.Ctx) {
		n := c.Choose("count", 284)
		if n > 280 {
			n = []int{281, 512, 4097}[n-281]
		}
		variant := c.Choose("variant", 6)
		scaler := explore.Pick(c, "scaler", scalers)
		c.Exec()
		t := map[string][]byte{}
		if variant%2 == 1 && n > 0 {
			t["head"] = fill(54, 0)
		}
		for i := 0; len(t) < n; i++ {
			l := i % 6
			switch variant / 2 {
			case 1:
				l = 0
			case 2:
				l = (i * 37) % 101
			}
			t[fmt.Sprintf("%c%03X", 'A'+i*31%57, i)] = fill(l, i%3)
		}
		if variant == 5 {
			t["nil1"], t["nil2"] = nil, nil
		}
		c.Log("%d tables, variant %d", n, variant)
		c.Obs(c03Write(c, scaler, t))
	}

	std := []string{"head", "hhea", "maxp", "OS/2", "hmtx", "LTSH", "VDMX", "hdmx", "cmap", "fpgm", "prep", "cvt ", "loca", "glyf", "kern", "name", "post", "gasp", "DSIG", "CFF ", "GSUB"}
	tags := func(c *explore.Ctx) {
		k := 12
		if c.Thorough {
			k = 17
		}
		first := explore.Pick(c, "window", []int{0, 5, 9})
		scaler := explore.Pick(c, "scaler", scalers[:2])
		t := map[string][]byte{}
		for i := range k {
			if c.Bool("present") {
				tag := std[(first+i)%len(std)]
				t[tag] = fill(54+i%5, i%3)
			}
		}
		c.Exec()
		c.Obs(c03Write(c, scaler, t))
	}

	chars := func(c *explore.Ctx) {
		// all pairs of tags which differ in one position
		pos := c.Choose("pos", 4)
		a := c.Choose("a", 95)
		b := c.Choose("b", 95)
		if a == b {
			c.Skip()
		}
		c.Exec()
		mk := func(x int) string {
			s := []byte("abcd")
			s[pos] = byte(0x20 + x)
			return string(s)
		}
		c.Obs(c03Write(c, header.ScalerTypeCFF, map[string][]byte{mk(a): {1, 2, 3}, mk(b): {4, 5, 6, 7, 8}, "abab": {9}}))
	}

	stdVariants := func(c *explore.Ctx) {
		// a standard tag together with a tag which differs in one character
		tag := explore.Pick(c, "tag", std)
		pos := c.Choose("pos", 4)
		x := c.Choose("char", 95)
		other := explore.Pick(c, "other", []string{"", "head", "loca"})
		v := []byte(tag)
		v[pos] = byte(0x20 + x)
		if string(v) == tag {
			c.Skip()
		}
		c.Exec()
		t := map[string][]byte{tag: fill(54, 0), string(v): fill(61, 1)}
		if other != "" {
			t[other] = fill(58, 2)
		}
		c.Obs(c03Write(c, header.ScalerTypeTrueType, t))
	}

	big := func(c *explore.Ctx) {
		n := explore.Pick(c, "size", []int{255, 256, 65535, 65536, 65537, 1 << 20, 1<<20 + 3, 1 << 24})
		kind := c.Choose("content", 3)
		head := c.Choose("head", 2)
		tag := explore.Pick(c, "tag", []string{"glyf", "CFF ", "zzzz"})
		c.Exec()
		t := map[string][]byte{tag: fill(n, kind), "post": fill(33, kind)}
		if head == 1 {
			t["head"] = fill(54, kind)
		}
		b := c03Write(c, header.ScalerTypeTrueType, t)
		c.ObsStr(fmt.Sprintf("%d %08x", len(b), refChecksum(b)))
	}

	var dims map[string]bool
	var fonts func(c *explore.Ctx)
	fontsAll := func(c *explore.Ctx) { fonts(c) }
	fontsOutline := func(c *explore.Ctx) {
		dims = dimSet("glyphs", "widths", "upem", "ttshape", "composite", "names", "tttables", "cffshape", "encoding", "fdselect", "cids", "cmap", "gpos", "private")
		defer func() { dims = nil }()
		fonts(c)
	}
	fonts = func(c *explore.Ctx) {
		kind := c.Choose("kind", fkCount)
		g := &fontGen{c: c, dims: dims}
		f := g.font(kind)
		c.Exec()
		c.Log("%s", strings.Join(g.desc, " "))
		data := fontBytes(c, "c03:font-write", f)
		scaler := header.ScalerTypeTrueType
		_, isCFF := f.Outlines.(*cff.Outlines)
		if isCFF {
			scaler = header.ScalerTypeCFF
		}
		t, err := refContainer(data, scaler)
		if err != nil {
			c.Fail("c03:font-container", "%v", err)
		}
		back := c03Read(c, data, scaler)
		if len(back) != len(t) {
			c.Fail("c03:font-readback", "%d tables, want %d", len(back), len(t))
		}
		for k, v := range t {
			if !bytes.Equal(back[k], v) {
				c.Fail("c03:font-readback", "table %q differs", k)
			}
		}
		need := []string{"head", "hhea", "hmtx", "maxp", "name", "OS/2", "post"}
		if isCFF {
			need = append(need, "CFF ")
		} else {
			need = append(need, "glyf", "loca")
		}
		if f.CMapTable != nil {
			need = append(need, "cmap")
		}
		for _, k := range need {
			if _, ok := t[k]; !ok {
				c.Fail("c03:font-tables", "table %q is missing", k)
			}
		}
		judged := false
		if f.CMapTable != nil {
			chars := g.chars
			for _, d := range g.desc {
				if d == "cmap=6" { // different readers may choose different subtables
					chars = nil
				}
			}
			judged = c03XImage(c, f, data, chars)
		}
		// what x/image does not look at
		if o, ok := f.Outlines.(*cff.Outlines); ok {
			r, err := refParseCFF(t["CFF "])
			if err != nil {
				c.Fail("c03:font-cff", "%v", err)
			}
			if len(r.charStrings) != len(o.Glyphs) {
				c.Fail("c03:font-cff", "%d charstrings for %d glyphs", len(r.charStrings), len(o.Glyphs))
			}
			for i, gl := range o.Glyphs {
				if !r.isCID && r.glyphName(i) != gl.Name {
					c.Fail("c03:font-cff", "glyph %d is called %q, not %q", i, r.glyphName(i), gl.Name)
				}
				res, err := t2Run(r.charStrings[i], r.fds[r.fdSelect[i]].subrs, r.gsubrs, true)
				if err != nil {
					c.Fail("c03:font-cff", "glyph %d: %v", i, err)
				}
				if d := t2DiffTol(gl, res, 1e-4); d != "" {
					c.Fail("c03:font-cff", "glyph %d: %s", i, d)
				}
			}
		}
		c.ObsStr(fmt.Sprint(judged, hashStr(string(data))))

		// the writers for PDF embedding
		buf := &bytes.Buffer{}
		if isCFF {
			if err := f.WriteOpenTypeCFFPDF(buf); err != nil {
				c.Fail("c03:pdf", "WriteOpenTypeCFFPDF: %v", err)
			}
			tt, err := refContainer(buf.Bytes(), scaler)
			if err != nil {
				c.Fail("c03:pdf", "WriteOpenTypeCFFPDF: %v", err)
			}
			for k, v := range tt {
				if !bytes.Equal(v, t[k]) {
					c.Fail("c03:pdf", "table %q differs from the complete file", k)
				}
			}
			return
		}
		for _, extra := range [][]any{nil, {"cvt ", []byte{1, 2, 3}, "OS/2", []byte{}, "zz  ", []byte{4, 5, 6, 7, 8}}} {
			buf.Reset()
			n, err := f.WriteTrueTypePDF(buf, extra...)
			if err != nil || n != int64(buf.Len()) {
				c.Fail("c03:pdf", "WriteTrueTypePDF: %d of %d, %v", n, buf.Len(), err)
			}
			tt, err := refContainer(buf.Bytes(), scaler)
			if err != nil {
				c.Fail("c03:pdf", "WriteTrueTypePDF: %v", err)
			}
			for k, v := range tt {
				want := t[k]
				for i := 0; i < len(extra); i += 2 {
					if extra[i].(string) == k {
						want = extra[i+1].([]byte)
					}
				}
				if k == "head" {
					v, want = bytes.Clone(v), bytes.Clone(want)
					copy(v[8:12], want[8:12])
				}
				if !bytes.Equal(v, want) {
					c.Fail("c03:pdf", "table %q: % x, want % x", k, clip(string(v), 40), clip(string(want), 40))
				}
			}
			for i := 0; i < len(extra); i += 2 {
				if _, ok := tt[extra[i].(string)]; !ok {
					c.Fail("c03:pdf", "extra table %q is missing", extra[i])
				}
			}
		}
	}

	run.Register(&run.Property{
		ID: "C03", Level: "model_checking",
		Rule: "one execution = one map of tables (or one generated font) written; the bytes are parsed by an independent container reader which checks every clause of the statement, read back by the library, and complete fonts are compared glyph by glyph with what golang.org/x/image/font/sfnt (and, for CFF names and fractional outlines, the reference CFF parser) finds; distinct observations are distinct files",
		Assumptions: []string{
			"the adjustment of the whole-file checksum is only checked when the head table is long enough to contain it (12 bytes)",
			"a map without tables, or with more than the 280 tables the reader accepts, may be refused",
		},
		Drivers: []run.Driver{
			{Name: "table-sizes", Run: sizes, Weight: 2, Bounds: "3 scaler types x 3 contents x head table in {absent, nil, 0..55 bytes} x 4 other tables each absent, nil or 0-5 (thorough 0-9) bytes"},
			{Name: "table-counts", Run: counts, Weight: 1, Bounds: "every table count 0..280 and 3 larger ones, 6 variants of lengths and head/nil tables, 3 scaler types"},
			{Name: "table-subsets", Run: tags, Weight: 1, Bounds: "all subsets of 12 (thorough 17) standard tags in 3 windows"},
			{Name: "tag-order", Run: chars, Weight: 1, Bounds: "all pairs of tags which differ in one of the 4 characters, over all 95 printable characters"},
			{Name: "tag-variants", Run: stdVariants, Weight: 1, Bounds: "each of 21 standard tags together with every tag which differs from it in one character, alone or with a third table"},
			{Name: "big-tables", Run: big, Weight: 1, Bounds: "lengths around 2^8, 2^16, 2^20, 2^24"},
			{Name: "fonts", Run: fontsOutline, Dev: 2, DevThorough: 3, Weight: 3, Bounds: "5 font kinds, <=2 (thorough 3) deviations over the 14 feature dimensions which affect glyph data, written by Write and by the PDF writers"},
			{Name: "fonts-all", Run: fontsAll, Dev: 1, DevThorough: 2, Weight: 2, Bounds: "5 font kinds, <=1 (thorough 2) deviations over all ~25 feature dimensions"},
		},
	})
}
