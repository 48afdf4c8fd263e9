package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"verif/mc/explore"
	"verif/mc/run"
)

func near9(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 5.01e-9*math.Abs(a) || math.Abs(a-b) < 1e-323*2
}

func baseFontInfo() *type1.FontInfo {
	return &type1.FontInfo{
		FontName: "Test", UnderlinePosition: -100, UnderlineThickness: 50,
		FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0},
	}
}

// cffSimple makes a simple font; glyph i gets an outline for even i.
func cffSimple(names []string, width func(int) float64) *cff.Font {
	o := &cff.Outlines{FDSelect: func(glyph.ID) int { return 0 }, Private: []*type1.PrivateDict{defaultPrivate()}}
	for i, name := range names {
		g := cff.NewGlyph(name, width(i))
		if i%2 == 0 && i < 100 {
			g.MoveTo(10, float64(i))
			g.LineTo(100+float64(i), 5)
			g.LineTo(50, 300)
		}
		o.Glyphs = append(o.Glyphs, g)
	}
	o.Encoding = cff.StandardEncoding(o.Glyphs)
	return &cff.Font{FontInfo: baseFontInfo(), Outlines: o}
}

func cffCID(cids []int, width func(int) float64, nfd int, sel func(int) int) *cff.Font {
	o := &cff.Outlines{
		FDSelect: func(g glyph.ID) int { return sel(int(g)) },
		ROS:      &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"},
	}
	for i := 0; i < nfd; i++ {
		p := defaultPrivate()
		p.StdHW = float64(i + 1)
		o.Private = append(o.Private, p)
		o.FontMatrices = append(o.FontMatrices, matrix.Matrix{1 + float64(i)/8, 0, 0, 1, 0, 0})
	}
	for i, c := range cids {
		g := cff.NewGlyph("", width(i))
		if i%2 == 0 && i < 100 {
			g.MoveTo(10, float64(i))
			g.LineTo(100+float64(i), 5)
			g.LineTo(50, 300)
		}
		o.Glyphs = append(o.Glyphs, g)
		o.GIDToCID = append(o.GIDToCID, cid.CID(c))
	}
	f := &cff.Font{FontInfo: baseFontInfo(), Outlines: o}
	return f
}

func const500(int) float64 { return 500 }

type cffWriteError struct{ error }

// cffCheck writes f, reads the result back with both readers and compares.
// If the font cannot be written, the error is returned.
func cffCheck(c *explore.Ctx, key string, f *cff.Font) error {
	var buf bytes.Buffer
	err := f.Write(&buf)
	if err != nil {
		return err
	}
	data := buf.Bytes()
	c.Obs(data)
	r, err := refParseCFF(data)
	if err != nil {
		c.Fail(key+"-structure", "emitted CFF data is malformed: %v\n%s", err, hexDump(data))
	}
	if d := cffRefDiff(f, r); d != "" {
		c.Fail(key+"-written", "emitted CFF data differs from the font: %s (%s)", d, r.formats)
	}
	g, err := cff.Read(bytes.NewReader(data))
	if err != nil {
		c.Fail(key+"-read", "cannot read the font back: %v (%s)", err, r.formats)
	}
	if d := cffFontDiff(f, g); d != "" {
		c.Fail(key+"-roundtrip", "font changed: %s (%s)", d, r.formats)
	}
	c.Log("formats %s, %d bytes", r.formats, len(data))
	return nil
}

// cffMust is like cffCheck, but the font must be writable.
func cffMust(c *explore.Ctx, key string, f *cff.Font) {
	if err := cffCheck(c, key, f); err != nil {
		c.Fail(key+"-refused", "valid font refused: %v", err)
	}
}

func infoStrings(fi *type1.FontInfo) map[int]string {
	return map[int]string{0: fi.Version, 1: fi.Notice, 2: fi.FullName, 3: fi.FamilyName, 4: fi.Weight, 1200: fi.Copyright}
}

func deltas(a []refReal) []int {
	var res []int
	s := 0
	for _, x := range a {
		s += int(x.i)
		res = append(res, s)
	}
	return res
}

func sameBlues(want []funit.Int16, got []int) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if int(want[i]) != got[i] {
			return false
		}
	}
	return true
}

// cffRefDiff compares a font with the contents of a file, as seen by the
// independent reader.
func cffRefDiff(f *cff.Font, r *refCFFFont) string {
	n := len(f.Glyphs)
	if len(r.charStrings) != n {
		return fmt.Sprintf("%d charstrings for %d glyphs", len(r.charStrings), n)
	}
	if r.name != f.FontName {
		return fmt.Sprintf("FontName %q", r.name)
	}
	for op, want := range infoStrings(f.FontInfo) {
		s, _, err := r.str(op)
		if err != nil || s != want {
			return fmt.Sprintf("string %d is %q (%v), not %q", op, clip(s, 60), err, clip(want, 60))
		}
	}
	for _, x := range []struct {
		op        int
		def, want float64
	}{
		{1201, 0, float64(boolInt(f.IsFixedPitch))}, {1202, 0, f.ItalicAngle},
		{1203, -100, float64(f.UnderlinePosition)}, {1204, 50, float64(f.UnderlineThickness)},
	} {
		if got := r.top.num(x.op, x.def); !near9(x.want, got) {
			return fmt.Sprintf("operator %d is %v, not %v", x.op, got, x.want)
		}
	}
	for i := range r.matrix {
		if !near9(f.FontInfo.FontMatrix[i], r.matrix[i]) {
			return fmt.Sprintf("FontMatrix is %v, not %v", r.matrix, f.FontInfo.FontMatrix)
		}
	}
	if (f.ROS != nil) != r.isCID {
		return "simple/CID"
	}
	if r.isCID {
		ros := r.top.args[1230]
		reg, e1 := r.sid(int(ros[0].val()))
		ord, e2 := r.sid(int(ros[1].val()))
		if e1 != nil || e2 != nil || reg != f.ROS.Registry || ord != f.ROS.Ordering || !ros[2].isInt || ros[2].i != int64(f.ROS.Supplement) {
			return fmt.Sprintf("ROS is %q %q %v", reg, ord, ros[2])
		}
	}
	if len(r.fds) != len(f.Private) {
		return fmt.Sprintf("%d private dicts", len(r.fds))
	}
	for i := range r.fds {
		fd, p := &r.fds[i], f.Private[i]
		if r.isCID {
			for j := range fd.matrix {
				if !near9(f.FontMatrices[i][j], fd.matrix[j]) {
					return fmt.Sprintf("FontMatrices[%d] is %v, not %v", i, fd.matrix, f.FontMatrices[i])
				}
			}
		}
		if !sameBlues(p.BlueValues, deltas(fd.priv.args[6])) || !sameBlues(p.OtherBlues, deltas(fd.priv.args[7])) {
			return fmt.Sprintf("blue values %v %v, not %v %v", deltas(fd.priv.args[6]), deltas(fd.priv.args[7]), p.BlueValues, p.OtherBlues)
		}
		for _, x := range []struct {
			op        int
			def, want float64
		}{
			{1209, 0.039625, p.BlueScale}, {1210, 7, float64(p.BlueShift)}, {1211, 1, float64(p.BlueFuzz)},
			{10, 0, p.StdHW}, {11, 0, p.StdVW}, {1214, 0, float64(boolInt(p.ForceBold))},
		} {
			if got := fd.priv.num(x.op, x.def); !near9(x.want, got) {
				return fmt.Sprintf("private %d operator %d is %v, not %v", i, x.op, got, x.want)
			}
		}
	}
	for i, gl := range f.Glyphs {
		if r.isCID {
			if r.charset[i] != int(f.GIDToCID[i]) {
				return fmt.Sprintf("glyph %d has CID %d, not %d", i, r.charset[i], f.GIDToCID[i])
			}
			if r.fdSelect[i] != f.FDSelect(glyph.ID(i)) {
				return fmt.Sprintf("glyph %d uses FD %d, not %d", i, r.fdSelect[i], f.FDSelect(glyph.ID(i)))
			}
		} else if name := r.glyphName(i); name != gl.Name {
			return fmt.Sprintf("glyph %d is called %q, not %q", i, clip(name, 40), clip(gl.Name, 40))
		}
		fd := &r.fds[r.fdSelect[i]]
		res, err := t2Run(r.charStrings[i], fd.subrs, r.gsubrs, true)
		if err != nil {
			return fmt.Sprintf("glyph %d: charstring %x: %v", i, r.charStrings[i], err)
		}
		w := fd.defW
		if res.hasWidth {
			w = fd.nomW + float64(res.width)/65536
		}
		if math.Abs(w-gl.Width) > 1.0/65536 {
			return fmt.Sprintf("glyph %d has width %v (%v%+v/65536, default %v), not %v", i, w, fd.nomW, res.width, fd.defW, gl.Width)
		}
		if d := t2Diff(gl, res); d != "" {
			return fmt.Sprintf("glyph %d: %s", i, d)
		}
	}
	if !r.isCID {
		for code := range r.encoding {
			want := 0
			if f.Encoding != nil {
				want = int(f.Encoding[code])
			}
			if r.encoding[code] != want {
				return fmt.Sprintf("code %d is glyph %d, not %d", code, r.encoding[code], want)
			}
		}
	}
	return ""
}

// t2Diff compares a glyph with the result of executing its charstring.
func t2Diff(gl *cff.Glyph, res *t2Result) string {
	return t2DiffTol(gl, res, 1.0/65536)
}

func t2DiffTol(gl *cff.Glyph, res *t2Result, tol float64) string {
	if len(res.ops) != len(gl.Cmds) {
		return fmt.Sprintf("%d commands, not %d: %s", len(res.ops), len(gl.Cmds), clip(res.String(), 200))
	}
	kinds := map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'n'}
	for i, cmd := range gl.Cmds {
		o := res.ops[i]
		if o.op != kinds[cmd.Op] {
			return fmt.Sprintf("command %d is %c, not %c", i, o.op, kinds[cmd.Op])
		}
		if o.mask != nil || o.op == 'h' || o.op == 'n' {
			if len(o.mask) != len(cmd.Args) {
				return fmt.Sprintf("mask %d has %d bytes, not %d", i, len(o.mask), len(cmd.Args))
			}
			for j, x := range cmd.Args {
				if o.mask[j] != byte(x) {
					return fmt.Sprintf("mask %d is %x, not %v", i, o.mask, cmd.Args)
				}
			}
			continue
		}
		for j, x := range cmd.Args {
			if got := float64(o.args[j]) / 65536; math.Abs(got-x) > tol {
				return fmt.Sprintf("command %d argument %d is %v, not %v", i, j, got, x)
			}
		}
	}
	for _, x := range []struct {
		what string
		want []float64
		got  []int64
	}{{"hstem", gl.HStem, res.hstem}, {"vstem", gl.VStem, res.vstem}} {
		if len(x.want) != len(x.got) {
			return fmt.Sprintf("%d %s values, not %d", len(x.got), x.what, len(x.want))
		}
		for j := range x.want {
			if got := float64(x.got[j]) / 65536; math.Abs(got-x.want[j]) > tol {
				return fmt.Sprintf("%s value %d is %v, not %v", x.what, j, got, x.want[j])
			}
		}
	}
	return ""
}

func glyphDiff(a, b *cff.Glyph) string {
	const tol = 1.0 / 65536
	if math.Abs(a.Width-b.Width) > tol {
		return fmt.Sprintf("width %v -> %v", a.Width, b.Width)
	}
	if len(a.Cmds) != len(b.Cmds) {
		return fmt.Sprintf("%d -> %d commands", len(a.Cmds), len(b.Cmds))
	}
	diff := func(x, y []float64) bool {
		if len(x) != len(y) {
			return true
		}
		for i := range x {
			if !(math.Abs(x[i]-y[i]) <= tol) {
				return true
			}
		}
		return false
	}
	for i := range a.Cmds {
		if a.Cmds[i].Op != b.Cmds[i].Op || diff(a.Cmds[i].Args, b.Cmds[i].Args) {
			return fmt.Sprintf("command %d: %v -> %v", i, a.Cmds[i], b.Cmds[i])
		}
	}
	if diff(a.HStem, b.HStem) || diff(a.VStem, b.VStem) {
		return fmt.Sprintf("stems %v %v -> %v %v", a.HStem, a.VStem, b.HStem, b.VStem)
	}
	return ""
}

// cffFontDiff compares two CFF fonts, where b has been through write and read.
func cffFontDiff(a, b *cff.Font) string {
	if len(a.Glyphs) != len(b.Glyphs) {
		return fmt.Sprintf("%d -> %d glyphs", len(a.Glyphs), len(b.Glyphs))
	}
	fa, fb := a.FontInfo, b.FontInfo
	if fa.FontName != fb.FontName || fa.IsFixedPitch != fb.IsFixedPitch || !near9(fa.ItalicAngle, fb.ItalicAngle) ||
		!near9(float64(fa.UnderlinePosition), float64(fb.UnderlinePosition)) || !near9(float64(fa.UnderlineThickness), float64(fb.UnderlineThickness)) {
		return fmt.Sprintf("FontInfo %+v -> %+v", fa, fb)
	}
	sa, sb := infoStrings(fa), infoStrings(fb)
	for op := range sa {
		if sa[op] != sb[op] {
			return fmt.Sprintf("string %d: %q -> %q", op, clip(sa[op], 60), clip(sb[op], 60))
		}
	}
	mat := func(x, y matrix.Matrix) bool {
		for i := range x {
			if !near9(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if !mat(fa.FontMatrix, fb.FontMatrix) {
		return fmt.Sprintf("FontMatrix %v -> %v", fa.FontMatrix, fb.FontMatrix)
	}
	if (a.ROS == nil) != (b.ROS == nil) || a.ROS != nil && *a.ROS != *b.ROS {
		return fmt.Sprintf("ROS %v -> %v", a.ROS, b.ROS)
	}
	if len(a.Private) != len(b.Private) || len(a.FontMatrices) != len(b.FontMatrices) || len(a.GIDToCID) != len(b.GIDToCID) {
		return fmt.Sprintf("%d,%d,%d -> %d,%d,%d private dicts, matrices, CIDs", len(a.Private), len(a.FontMatrices), len(a.GIDToCID),
			len(b.Private), len(b.FontMatrices), len(b.GIDToCID))
	}
	for i, p := range a.Private {
		q := b.Private[i]
		same := func(x, y []funit.Int16) bool {
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if x[i] != y[i] {
					return false
				}
			}
			return true
		}
		if !same(p.BlueValues, q.BlueValues) || !same(p.OtherBlues, q.OtherBlues) || !near9(p.BlueScale, q.BlueScale) ||
			p.BlueShift != q.BlueShift || p.BlueFuzz != q.BlueFuzz || !near9(p.StdHW, q.StdHW) || !near9(p.StdVW, q.StdVW) || p.ForceBold != q.ForceBold {
			return fmt.Sprintf("Private[%d] %+v -> %+v", i, *p, *q)
		}
	}
	for i := range a.FontMatrices {
		if !mat(a.FontMatrices[i], b.FontMatrices[i]) {
			return fmt.Sprintf("FontMatrices[%d] %v -> %v", i, a.FontMatrices[i], b.FontMatrices[i])
		}
	}
	for i := range a.GIDToCID {
		if a.GIDToCID[i] != b.GIDToCID[i] {
			return fmt.Sprintf("CID of glyph %d: %d -> %d", i, a.GIDToCID[i], b.GIDToCID[i])
		}
	}
	for i, g := range a.Glyphs {
		h := b.Glyphs[i]
		if g.Name != h.Name {
			return fmt.Sprintf("glyph %d: name %q -> %q", i, clip(g.Name, 40), clip(h.Name, 40))
		}
		if x, y := a.FDSelect(glyph.ID(i)), b.FDSelect(glyph.ID(i)); x != y {
			return fmt.Sprintf("glyph %d: FD %d -> %d", i, x, y)
		}
		if d := glyphDiff(g, h); d != "" {
			return fmt.Sprintf("glyph %d: %s", i, d)
		}
	}
	if a.ROS == nil {
		if len(b.Encoding) != 256 {
			return fmt.Sprintf("Encoding has length %d", len(b.Encoding))
		}
		for i := range a.Encoding {
			if a.Encoding[i] != b.Encoding[i] {
				return fmt.Sprintf("code %d: glyph %d -> %d", i, a.Encoding[i], b.Encoding[i])
			}
		}
	} else if b.Encoding != nil {
		return "Encoding in a CID font"
	}
	return ""
}

// ---------------------------------------------------------------------------
// drivers

var c13ints = func() []int32 {
	m := map[int32]bool{}
	var res []int32
	add := func(x int64) {
		if x >= math.MinInt32 && x <= math.MaxInt32 && !m[int32(x)] {
			m[int32(x)] = true
			res = append(res, int32(x))
		}
	}
	for x := int64(-1400); x <= 1400; x++ {
		add(x)
	}
	for k := uint(11); k < 32; k++ {
		for d := int64(-3); d <= 3; d++ {
			add(1<<k + d)
			add(-(1 << k) + d)
		}
	}
	for _, x := range []int64{10000, 99999, 100000, 123456789, 1000000000, 2147483647, -2147483648} {
		add(x)
		add(-x)
	}
	return res
}()

// c13Ints writes integers as BlueShift, BlueFuzz and Supplement.
func c13Ints(c *explore.Ctx) {
	slot := c.Choose("slot", 4)
	chunk := 16
	k := c.Choose("chunk", (len(c13ints)+chunk-1)/chunk)
	c.Exec()
	for _, x := range c13ints[k*chunk : min(len(c13ints), (k+1)*chunk)] {
		f := cffCID([]int{0, 1}, const500, 1, func(int) int { return 0 })
		switch slot {
		case 0:
			f.Private[0].BlueShift = x
		case 1:
			f.Private[0].BlueFuzz = x
		case 2:
			f.ROS.Supplement = x
		case 3:
			f.UnderlinePosition = funit.Float64(x)
			f.UnderlineThickness = funit.Float64(x)
		}
		cffMust(c, "int", f)
	}
}

// c13IntsAll walks through all 16-bit integers (and beyond).
func c13IntsAll(c *explore.Ctx) {
	k := c.Choose("block", 600)
	c.Exec()
	f := cffCID([]int{0, 1}, const500, 128, func(int) int { return 0 })
	x := int32((k - 300) * 256)
	for i := range f.Private {
		f.Private[i].BlueShift = x
		f.Private[i].BlueFuzz = x + 1
		x += 2
	}
	cffMust(c, "int", f)
}

// c13Reals writes real numbers over the whole float64 range.
func c13Reals(c *explore.Ctx) {
	mant := explore.Pick(c, "mantissa", []string{"1", "5", "9", "12", "99", "123", "1.00000001", "1.23456789", "9.99999999", "9.87654321",
		"100000001", "999999999", "123456789", "1.2345678949", "9.9999999949", "9.9999999951", "3.3333333333333333", "6.6666666666666667", "1.0000000049", "1.000000005000001"})
	lo, hi := -14, 14
	if c.Thorough {
		lo, hi = -326, 310
	}
	exps := []int{}
	for e := lo; e <= hi; e++ {
		exps = append(exps, e)
	}
	if !c.Thorough {
		exps = append(exps, -326, -324, -323, -322, -316, -310, -309, -308, -307, -306, -301, -300, -299, -200, -101, -100, -99, -98, -50,
			-22, 22, 23, 50, 98, 99, 100, 101, 200, 291, 292, 298, 299, 300, 301, 302, 307, 308)
	}
	e := explore.Pick(c, "exponent", exps)
	slot := c.Choose("slot", 2)
	c.Exec()
	x, ok := parseF(fmt.Sprintf("%se%d", mant, e))
	if !ok {
		c.Skip()
	}
	f := cffCID([]int{0, 1}, const500, 2, func(int) int { return 1 })
	switch slot {
	case 0:
		f.FontInfo.FontMatrix = matrix.Matrix{x, 0, -x, 1, -1.5, 0.001}
		f.FontMatrices[1] = matrix.Matrix{-x, x, 0, 0.001, 0.5, x}
	case 1:
		f.UnderlinePosition = funit.Float64(-x)
		f.UnderlineThickness = funit.Float64(x)
		if x <= 1 {
			f.Private[1].BlueScale = x
		}
		if x <= 10000 {
			f.Private[0].StdHW = x
			f.Private[1].StdVW = x
		}
		if x < 180 {
			f.ItalicAngle = -x
		}
	}
	cffMust(c, "real", f)
}

func parseF(s string) (float64, bool) {
	var x float64
	_, err := fmt.Sscanf(s, "%g", &x)
	if err != nil || math.IsInf(x, 0) || x > 1.797693134e308 {
		return 0, false
	}
	return x, true
}

// c13NearDefault has values close to the defaults.
func c13NearDefault(c *explore.Ctx) {
	slot := c.Choose("slot", 14)
	def := []float64{0.001, 0, 0, 0.001, 0, 0, 0.039625, -100, 50, 0, 0, 0, 1, 1}[slot]
	delta := explore.Pick(c, "delta", []float64{0, 1e-2, 1e-4, 1e-5, 9e-6, 5e-6, 1e-6, 9e-7, 5e-7, 1e-7, 1e-8, 1e-10, 1e-12, 0.25, 0.5})
	sign := explore.Pick(c, "sign", []float64{1, -1})
	top := c.Bool("cid")
	x := def + sign*delta
	if x < 0 && (slot == 6 || slot == 9 || slot == 10) {
		c.Skip()
	}
	c.Exec()
	var f *cff.Font
	if top {
		f = cffCID([]int{0, 1}, const500, 2, func(int) int { return 1 })
		f.FontMatrices[0] = matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
		f.FontInfo.FontMatrix = matrix.Identity
	} else {
		f = cffSimple([]string{".notdef", "A"}, const500)
	}
	p := f.Private[0]
	switch {
	case slot < 6:
		if top {
			f.FontMatrices[0][slot] = x
		} else {
			f.FontInfo.FontMatrix[slot] = x
		}
	case slot == 6:
		p.BlueScale = x
	case slot == 7:
		f.UnderlinePosition = funit.Float64(x)
	case slot == 8:
		f.UnderlineThickness = funit.Float64(x)
	case slot == 9:
		p.StdHW = x
	case slot == 10:
		p.StdVW = x
	case slot == 11:
		f.ItalicAngle = x
	case slot == 12:
		if top {
			f.FontInfo.FontMatrix[0] = x
		}
	case slot == 13:
		if top {
			f.FontInfo.FontMatrix[3] = x
		}
	}
	cffMust(c, "near-default", f)
}

// c13Charset explores CID assignments made of runs.
func c13Charset(c *explore.Ctx) {
	lens := []int{1, 2, 3, 4, 5, 7, 255, 256, 257, 258, 511, 512, 513, 600}
	nRuns := 1 + c.Choose("runs", 4)
	cids := []int{0}
	next := 1
	desc := ""
	for r := 0; r < nRuns; r++ {
		var l int
		if r == 0 {
			l = explore.Pick(c, "len", lens)
		} else {
			l = explore.Pick(c, "len", lens[:c13n(c, r)])
		}
		kind := c.Choose("gap", 3)
		start := next
		switch kind {
		case 1:
			start = next + 1
		case 2:
			start = next + 1000
		}
		if r > 0 && kind == 0 { // descending order
			start = 60000 - 2000*r
		}
		for i := 0; i < l; i++ {
			cids = append(cids, start+i)
		}
		if !(r > 0 && kind == 0) {
			next = start + l
		}
		desc += fmt.Sprintf(" %d+%d", start, l)
	}
	if c.Bool("end") { // shift the last run to the end of the range
		d := 65535 - cids[len(cids)-1]
		l := 0
		for i := len(cids) - 1; i > 1 && cids[i] == cids[i-1]+1; i-- {
			l++
		}
		for i := len(cids) - 1 - l; i < len(cids) && i > 0; i++ {
			cids[i] += d
		}
	}
	c.Exec()
	seen := map[int]bool{}
	for _, x := range cids {
		if seen[x] {
			c.Skip()
		}
		seen[x] = true
	}
	cffMust(c, "charset", cffCID(cids, const500, 1, func(int) int { return 0 }))
}

func c13n(c *explore.Ctx, r int) int {
	if c.Thorough {
		return []int{0, 11, 6, 3}[r]
	}
	return []int{0, 6, 3, 2}[r]
}

// c13Alternate: n runs of equal length, around the thresholds between formats.
func c13Alternate(c *explore.Ctx) {
	l := explore.Pick(c, "len", []int{1, 2, 3, 4, 100, 256, 257, 300, 512, 513})
	cnt := explore.Pick(c, "count", []int{1, 2, 3, 5, 10, 20})
	extra := c.Choose("singles", 12)
	total := cnt*(l+1) + extra*2
	if total > 60000 {
		c.Skip()
	}
	simple := c.Bool("simple")
	c.Exec()
	cids := []int{0}
	x := 1
	for i := 0; i < cnt; i++ {
		for j := 0; j < l; j++ {
			cids = append(cids, x)
			x++
		}
		x++
	}
	for i := 0; i < extra; i++ {
		cids = append(cids, x)
		x += 2
	}
	if !simple {
		cffMust(c, "charset", cffCID(cids, const500, 1, func(int) int { return 0 }))
		return
	}
	// simple font: pick names such that the SIDs have gaps where standard
	// strings and custom strings alternate
	names := []string{".notdef"}
	for i, v := range cids[1:] {
		if v < 391 && i%7 != 3 {
			names = append(names, cffStdStrings[v])
		} else {
			names = append(names, fmt.Sprintf("n%d", v))
		}
	}
	cffMust(c, "names", cffSimple(names, const500))
}

// c13Names explores names of simple fonts.
func c13Names(c *explore.Ctx) {
	pool := []string{"A", "B", "space", "Semibold", "C.alt", "x", "exclamsmall", "Ydieresissmall", "001.000", "", "Adobe", strings.Repeat("n", 300), "é", "a b"}
	n := 1 + c.Choose("n", 4)
	names := []string{".notdef"}
	used := map[string]bool{".notdef": true}
	for len(names) < n {
		s := explore.Pick(c, "name", pool)
		if used[s] {
			c.Skip()
		}
		used[s] = true
		names = append(names, s)
	}
	info := c.Choose("info", 3)
	c.Exec()
	f := cffSimple(names, const500)
	switch info {
	case 1: // share strings with the glyph names
		f.Weight, f.FamilyName, f.Version = "Semibold", "C.alt", "x"
	case 2:
		f.Weight, f.FamilyName, f.FullName, f.Notice, f.Copyright, f.Version = ".notdef", "A", "New", "New", "z", "001.000"
	}
	cffMust(c, "names", f)
}

// c13Encoding explores all partial functions from six codes to three glyphs.
func c13Encoding(c *explore.Ctx) {
	codes := explore.Pick(c, "codes", [][]int{{0, 1, 2, 65, 254, 255}, {65, 66, 67, 68, 70, 97}, {32, 33, 65, 200, 201, 255}})
	names := explore.Pick(c, "names", [][]string{{".notdef", "A", "B", "C"}, {".notdef", "x1", "x2", "x3"}, {".notdef", "space", "x2", "A"}, {".notdef", "exclamsmall", "space", "x"}})
	enc := make([]glyph.ID, 256)
	var used [4]bool
	for _, code := range codes {
		g := c.Choose("gid", 4)
		enc[code] = glyph.ID(g)
		used[g] = true
	}
	c.Exec()
	f := cffSimple(names, const500)
	f.Encoding = enc
	// representable: glyphs 1..k are encoded for some k
	ok := true
	for i := 2; i < 4; i++ {
		if used[i] && !used[i-1] {
			ok = false
		}
	}
	err := cffCheck(c, "encoding", f)
	if err != nil && ok {
		c.Fail("encoding-refused", "valid encoding refused: %v", err)
	}
	c.ObsStr(fmt.Sprint(err))
}

// c13BigEncoding uses (nearly) all codes.
func c13BigEncoding(c *explore.Ctx) {
	n := explore.Pick(c, "glyphs", []int{3, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300})
	pat := c.Choose("pattern", 9)
	first := explore.Pick(c, "first", []int{0, 1, 100})
	supp := explore.Pick(c, "supplement", []int{0, 1, 2, 100, 255})
	c.Exec()
	names := []string{".notdef"}
	for i := 1; i < n; i++ {
		if i%5 == 0 && i < 390 {
			names = append(names, cffStdStrings[i])
		} else {
			names = append(names, fmt.Sprintf("g%d", i))
		}
	}
	f := cffSimple(names, const500)
	f.Encoding = make([]glyph.ID, 256)
	var order []int
	for i := 0; i < 256; i++ {
		switch pat {
		case 0:
			order = append(order, (first+i)%256)
		case 1:
			order = append(order, (first+255-i)%256)
		case 2:
			order = append(order, (first+i*3)%256)
		case 3:
			order = append(order, (first+i^1)%256)
		case 4: // pairs
			order = append(order, (first+i/2*2*5%256+i%2)%256)
		case 5: // one transposition
			order = append(order, (first+i)%256)
			if i == 100 {
				order[99], order[100] = order[100], order[99]
			}
		case 6: // stride 2
			order = append(order, (first+(i*2+i/128))%256)
		case 7: // triples
			order = append(order, (first+(i/3*3*7%255)+i%3)%256)
		case 8: // blocks of 8
			order = append(order, (first+(31-i/8)*8+i%8)%256)
		}
	}
	seen := map[int]bool{}
	for _, x := range order {
		if seen[x] {
			c.Skip()
		}
		seen[x] = true
	}
	m := min(n-1, 256-supp)
	if m < 1 {
		c.Skip()
	}
	gaps := 0
	for i := 0; i < m; i++ {
		f.Encoding[order[i]] = glyph.ID(i + 1)
	}
	for i := 0; i < supp && m+i < 256; i++ {
		f.Encoding[order[m+i]] = glyph.ID(1 + i*7%m)
	}
	_ = gaps
	err := cffCheck(c, "encoding", f)
	// Only encodings with 256 primary codes in 256 segments cannot be
	// represented.
	if err != nil && m < 256 {
		c.Fail("encoding-refused", "valid encoding refused: %v", err)
	}
	c.ObsStr(fmt.Sprint(err))
}

// c13FDSelect explores all functions from glyphs to three font dicts.
func c13FDSelect(c *explore.Ctx) {
	n := 1 + c.Choose("glyphs", 9)
	fd := make([]int, n)
	for i := range fd {
		fd[i] = c.Choose("fd", 3)
	}
	c.Exec()
	cids := make([]int, n)
	for i := range cids {
		cids[i] = 2 * i
	}
	cffMust(c, "fdselect", cffCID(cids, func(i int) float64 { return float64(500 + i/2) }, 3, func(i int) int { return fd[i] }))
}

// c13FDPairs uses all pairs of boundary values of the font dict index on
// blocks of glyphs.
func c13FDPairs(c *explore.Ctx) {
	vals := []int{0, 1, 2, 3, 63, 64, 127, 128, 129, 130, 191, 192, 254, 255}
	a := explore.Pick(c, "first", vals)
	b := explore.Pick(c, "second", vals)
	n := explore.Pick(c, "glyphs", []int{3, 20, 300})
	pat := c.Choose("pattern", 4)
	c.Exec()
	cids := make([]int, n)
	for i := range cids {
		cids[i] = i
	}
	sel := func(i int) int {
		switch {
		case pat == 0 && i >= n/2, pat == 1 && i == n-1, pat == 2 && i > 0, pat == 3 && i >= n/3 && i < 2*n/3:
			return b
		}
		return a
	}
	cffMust(c, "fdselect", cffCID(cids, const500, max(a, b)+1, sel))
}

func c13FDSelectBig(c *explore.Ctx) {
	n := explore.Pick(c, "glyphs", []int{2, 10, 255, 256, 257, 1000, 3000})
	nfd := explore.Pick(c, "dicts", []int{1, 2, 3, 255, 256})
	pat := c.Choose("pattern", 8)
	c.Exec()
	cids := make([]int, n)
	for i := range cids {
		cids[i] = i
	}
	sel := func(i int) int {
		switch pat {
		case 0:
			return 0
		case 1:
			return nfd - 1
		case 2:
			return i % nfd
		case 3:
			return i / 3 % nfd
		case 4:
			return i / 4 % nfd
		case 5:
			return boolInt(i == n-1) * (nfd - 1)
		case 6:
			return boolInt(i == 0) * (nfd - 1)
		default:
			return i * nfd / n
		}
	}
	cffMust(c, "fdselect", cffCID(cids, const500, nfd, sel))
}

// c13Info varies the top-level information.
func c13Info(c *explore.Ctx) {
	isCID := c.Bool("cid")
	var f *cff.Font
	if isCID {
		f = cffCID([]int{0, 5, 3}, const500, 2, func(i int) int { return i % 2 })
	} else {
		f = cffSimple([]string{".notdef", "A", "b.x"}, const500)
	}
	strs := []string{"", "x", "Bold", "Hello World", ".notdef", "Füße ≠ feet", strings.Repeat("0123456789", 30), " ", "\x01(\\)%"}
	for _, p := range []*string{&f.FontName, &f.Version, &f.Notice, &f.Copyright, &f.FullName, &f.FamilyName, &f.Weight} {
		if v := c.Dev("string", len(strs)+1); v > 0 {
			*p = strs[v-1]
		}
	}
	f.IsFixedPitch = c.DevBool("fixed")
	f.ItalicAngle = explore.PickDev(c, "italic", []float64{0, -12, 12.5, -179.5, -180, 179, 0.1, -1e-5})
	f.UnderlinePosition = explore.PickDev(c, "upos", []funit.Float64{-100, 0, -100.5, 99, -0.001, 32768, 1e7, -50})
	f.UnderlineThickness = explore.PickDev(c, "uthick", []funit.Float64{50, 0, 50.25, 0.001, 1e6, 70000})
	if v := c.Dev("matrix", 7); v > 0 {
		f.FontInfo.FontMatrix = []matrix.Matrix{
			matrix.Identity, {0.001, 0, 0, 0.001, 0, 0}, {1.0 / 2048, 0, 0, 1.0 / 2048, 0, 0}, {0.001, 0, 0.0002, 0.001, 0, 0},
			{-0.5, 1, 2, -3, 4, 1e-9}, {0, 0, 0, 0, 0, 0}, {1.0 / 1005, 0, 0, 1.0 / 1005, 0, 0},
		}[v-1]
	}
	if isCID {
		f.ROS.Registry = explore.PickDev(c, "registry", []string{"Adobe", "", "Foo", "Bold", strings.Repeat("r", 70)})
		f.ROS.Ordering = explore.PickDev(c, "ordering", []string{"Identity", "", "Adobe", "A b"})
		f.ROS.Supplement = explore.PickDev(c, "supplement", []int32{0, 7, -1, 200, 5000, 100000})
		if v := c.Dev("fdmatrix", 4); v > 0 {
			f.FontMatrices[1] = []matrix.Matrix{{0.001, 0, 0, 0.001, 0, 0}, {2, 0, 0.5, 2, 0, -1}, {1.0 / 3, 0, 0, 1.0 / 7, 0, 0}}[v-1]
		}
	}
	c.Exec()
	cffMust(c, "info", f)
}

// c13Private varies the private dictionaries.
func c13Private(c *explore.Ctx) {
	isCID := c.Bool("cid")
	var f *cff.Font
	if isCID {
		f = cffCID([]int{0, 5, 3}, const500, 3, func(i int) int { return 2 - i%3 })
	} else {
		f = cffSimple([]string{".notdef", "A", "b.x"}, const500)
	}
	p := f.Private[c.Choose("which", len(f.Private))]
	p.StdHW = explore.PickDev(c, "hw", []float64{10, 0, 20.5, 10000, 1e-3, 107, 108, 1131, 1132})
	p.StdVW = explore.PickDev(c, "vw", []float64{0, 10, 20.5, 9999.75, 1e-3})
	blues := [][]funit.Int16{nil, {-20, 0}, {-20, 0, 450, 470, 700, 720}, {0, 0}, {-32768, 32767}, {32767, -32768}, {-30000, 30000, -30000, 30000},
		{-15, 0, 100, 115, 200, 215, 300, 315, 400, 415, 500, 515, 600, 615}, {107, 215, 1347, 1348}, {-1131, -2263}}
	p.BlueValues = explore.PickDev(c, "blues", blues)
	p.OtherBlues = explore.PickDev(c, "other", blues)
	p.BlueScale = explore.PickDev(c, "scale", []float64{0.039625, 0, 1, 0.0396, 0.0625, 0.0396251})
	p.BlueShift = explore.PickDev(c, "shift", []int32{7, 0, -1, 1132, 40000})
	p.BlueFuzz = explore.PickDev(c, "fuzz", []int32{1, 0, -1, 7, 65536})
	p.ForceBold = c.DevBool("bold")
	c.Exec()
	cffMust(c, "private", f)
}

// c13Widths explores all width assignments for up to four glyphs.
func c13Widths(c *explore.Ctx) {
	vals := []float64{0, 500, 500.5, 1, 107, 108, 1000, 1239, 32767, 0.25, 499.99998, 250.33333333, -10, 2000.75}
	more := []float64{32766.5, -500, 65535.0 / 65536, 16384, -107, -1131, 5000, 0.00001, 600.00001, 123.456}
	if c.Thorough {
		vals = append(vals, more...)
	}
	isCID := c.Bool("cid")
	n := 1 + c.Choose("glyphs", 4)
	if n == 4 && !c.Thorough {
		vals = vals[:7]
	}
	w := make([]float64, n)
	for i := range w {
		w[i] = explore.Pick(c, "width", vals)
	}
	c.Exec()
	width := func(i int) float64 { return w[i] }
	if isCID {
		cids := []int{0, 1, 2, 3}[:n]
		cffMust(c, "width", cffCID(cids, width, 2, func(i int) int { return i % 2 }))
	} else {
		cffMust(c, "width", cffSimple([]string{".notdef", "A", "B", "C"}[:n], width))
	}
}

// c13WidthsExtreme uses widths near the limits of the number format; the
// writer may refuse those whose spread exceeds what charstrings can express.
func c13WidthsExtreme(c *explore.Ctx) {
	vals := []float64{0, 32767, -32768, 32000, -32000, 32767.5, -32768.5, 40000, 65535, 16000, -16000, 100000, 500.5, 32768, 33000.25}
	n := 2 + c.Choose("glyphs", 3)
	w := make([]float64, n)
	lo, hi := math.Inf(1), math.Inf(-1)
	for i := range w {
		w[i] = explore.Pick(c, "width", vals)
		lo, hi = min(lo, w[i]), max(hi, w[i])
	}
	c.Exec()
	f := cffSimple([]string{".notdef", "A", "B", "C"}[:n], func(i int) float64 { return w[i] })
	err := cffCheck(c, "width", f)
	if err != nil && lo >= -32767 && hi <= 32767 && hi-lo <= 65534 {
		c.Fail("width-refused", "widths %v refused: %v", w, err)
	}
	c.ObsStr(fmt.Sprint(err))
}

// c13ManyWidths has larger fonts with different width distributions.
func c13ManyWidths(c *explore.Ctx) {
	n := explore.Pick(c, "glyphs", []int{10, 100, 1000})
	pat := c.Choose("pattern", 8)
	base := explore.Pick(c, "base", []float64{0, 500, 1000.5, 20000})
	c.Exec()
	w := func(i int) float64 {
		switch pat {
		case 0:
			return base
		case 1:
			return base + float64(i)
		case 2:
			return base + float64(i)/3
		case 3:
			return base + float64(i%3)*100.25
		case 4:
			return base + float64(i%2)*300
		case 5:
			return base + float64(boolInt(i == n-1))*0.5
		case 6:
			return base + float64(i%7)*float64(i%11)*37
		default:
			return base + float64(i)*0.000123
		}
	}
	names := []string{".notdef"}
	for i := 1; i < n; i++ {
		names = append(names, fmt.Sprintf("g%d", i))
	}
	cffMust(c, "width", cffSimple(names, w))
}

// c13Index varies the sizes of the INDEX structures.
func c13Index(c *explore.Ctx) {
	which := c.Choose("index", 5)
	sizes := []int{0, 1, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537}
	if c.Thorough || which == 1 {
		sizes = append(sizes, 1<<24-2, 1<<24-1, 1<<24, 1<<24+1)
	}
	size := explore.Pick(c, "size", sizes)
	d := c.Choose("delta", 3) * 3
	c.Exec()
	f := cffSimple([]string{".notdef", "A", "b.x"}, const500)
	switch which {
	case 0: // name INDEX
		f.FontName = strings.Repeat("N", size+d)
	case 1: // string INDEX, the strings b.x and Notice
		f.Notice = strings.Repeat("n", max(0, size-d))
	case 2: // glyph name
		f.Glyphs[1].Name = strings.Repeat("g", size+1+d)
		f.Encoding = cff.StandardEncoding(f.Glyphs)
	case 3: // charstrings INDEX: one-byte movetos
		if size > 200000 {
			c.Skip()
		}
		g := f.Glyphs[1]
		for i := 0; i < (size+d)/2; i++ {
			g.MoveTo(1+float64(i%100), 0)
		}
	case 4: // top dict size around 255: use long matrix entries, offsets change size
		f.Notice = strings.Repeat("n", max(0, size-d))
		f.FontInfo.FontMatrix = matrix.Matrix{0.00123456789, -0.00123456789, 1.23456789e-5, 1.23456789e-77, -1.23456789e123, 123456.789}
		f.UnderlinePosition = 123.456789
		f.UnderlineThickness = 1e-33
	}
	cffMust(c, "index", f)
}

// c13Offsets moves the offsets in the top DICT across all size boundaries.
func c13Offsets(c *explore.Ctx) {
	isCID := c.Bool("cid")
	base := explore.Pick(c, "base", []int{0, 400, 1000, 32000, 32400, 65000})
	span := 400
	if !c.Thorough && base != 0 && base != 32400 {
		span = 120
	}
	k := c.Choose("step", span/4)
	c.Exec()
	for i := 0; i < 4; i++ {
		var f *cff.Font
		if isCID {
			f = cffCID([]int{0, 5, 3}, const500, 3, func(i int) int { return 2 - i%3 })
		} else {
			f = cffSimple([]string{".notdef", "x", "b.x"}, const500)
			f.Encoding[3] = 1
		}
		f.Notice = strings.Repeat("n", base+4*k+i)
		cffMust(c, "offsets", f)
	}
}

// c13Large has very many glyphs.
func c13Large(c *explore.Ctx) {
	n := explore.Pick(c, "glyphs", []int{65535, 65534, 40000, 65145})
	kind := c.Choose("kind", 4)
	if !c.Thorough && n != 65535 {
		c.Skip()
	}
	c.Exec()
	switch kind {
	case 0: // identity
		cids := make([]int, n)
		for i := range cids {
			cids[i] = i
		}
		cffMust(c, "large", cffCID(cids, const500, 3, func(i int) int { return i / 1000 % 3 }))
	case 1: // reversed
		cids := make([]int, n)
		for i := 1; i < n; i++ {
			cids[i] = n - i
		}
		cffMust(c, "large", cffCID(cids, func(i int) float64 { return float64(i % 2000) }, 256, func(i int) int { return i % 256 }))
	case 2: // custom names: only 65145 of these fit
		names := []string{".notdef"}
		for i := 1; i < n; i++ {
			names = append(names, fmt.Sprintf("g%d", i))
		}
		f := cffSimple(names, const500)
		err := cffCheck(c, "large", f)
		if err != nil && n-1 <= 65536-391 {
			c.Fail("large-refused", "font with %d custom names refused: %v", n-1, err)
		}
		c.ObsStr(fmt.Sprint(err))
	case 3: // all standard names plus custom ones
		names := append([]string{}, cffStdStrings...)
		for i := len(names); i < n; i++ {
			names = append(names, fmt.Sprintf("g%d", i))
		}
		cffMust(c, "large", cffSimple(names, func(i int) float64 { return float64(i%5) * 100 }))
	}
}

func init() {
	run.Register(&run.Property{
		ID:    "C13",
		Level: "model_checking",
		Rule:  "each execution builds one cff.Font value (or one hand-assembled CFF file), writes it with (*cff.Font).Write, walks the bytes with an independent CFF reader and Type 2 interpreter, reads them back with cff.Read and compares all values field by field with the original font",
		Assumptions: []string{
			"BlueScale in [0,1], StdHW/StdVW in [0,10000] and ItalicAngle in [-180,180): the reader clamps or normalises values outside these ranges on purpose",
			"strings are valid UTF-8; glyph names are unique; at most 65145 custom strings (SIDs have 16 bits)",
			"widths whose spread exceeds 16 bits and encodings with gaps may be refused by the writer, but must not be changed",
		},
		Drivers: []run.Driver{
			{Name: "ints", Run: c13Ints, Bounds: "all integers in [-1400,1400], 2^k±3, in 4 dictionary slots"},
			{Name: "ints16", Run: c13IntsAll, Bounds: "all integers in [-76800,76800)"},
			{Name: "reals", Run: c13Reals, Bounds: "20 mantissas × 66 exponents × 2 sets of slots", BoundsThorough: "20 mantissas × all exponents -326..310 × 2 sets of slots"},
			{Name: "neardefault", Run: c13NearDefault, Bounds: "14 slots × 29 offsets from the default value × simple/CID"},
			{Name: "charset", Run: c13Charset, Bounds: "up to 4 runs of CIDs, 14 run lengths around the format limits, 3 gap kinds"},
			{Name: "alternate", Run: c13Alternate, Bounds: "10 run lengths × 6 counts × 12 numbers of isolated CIDs, CID and named"},
			{Name: "names", Run: c13Names, Bounds: "all sequences of up to 3 of 14 names × 3 FontInfo variants"},
			{Name: "encoding", Run: c13Encoding, Bounds: "all maps from 6 codes to 4 glyph IDs × 3 code sets × 4 name lists"},
			{Name: "bigencoding", Run: c13BigEncoding, Bounds: "12 glyph counts × 9 code orders × 3 starts × 5 supplement sizes"},
			{Name: "fdselect", Run: c13FDSelect, Bounds: "all functions from 1..9 glyphs to 3 font dicts"},
			{Name: "fdpairs", Run: c13FDPairs, Bounds: "all pairs of 14 boundary values of the font dict index on blocks of 3, 20 and 300 glyphs, 4 patterns"},
			{Name: "fdselectbig", Run: c13FDSelectBig, Bounds: "7 glyph counts × 5 numbers of font dicts (up to 256) × 8 patterns"},
			{Name: "info", Run: c13Info, Dev: 2, DevThorough: 3, Bounds: "up to 2 deviations among 13-17 FontInfo fields", BoundsThorough: "up to 3 deviations"},
			{Name: "private", Run: c13Private, Dev: 3, DevThorough: 4, Bounds: "up to 3 deviations among 8 private dict fields × 1-3 dicts", BoundsThorough: "up to 4 deviations"},
			{Name: "widths", Run: c13Widths, Bounds: "all assignments of 14 widths to 1..3 glyphs (7 for 4 glyphs), simple and CID", BoundsThorough: "all assignments of 24 widths to 1..4 glyphs"},
			{Name: "widthsextreme", Run: c13WidthsExtreme, Bounds: "all assignments of 15 extreme widths to 2..4 glyphs"},
			{Name: "manywidths", Run: c13ManyWidths, Bounds: "3 sizes × 8 patterns × 4 offsets"},
			{Name: "index", Run: c13Index, Bounds: "5 INDEX structures × sizes around 2^8, 2^16, 2^24"},
			{Name: "offsets", Run: c13Offsets, Bounds: "section offsets moved byte by byte across the operand size boundaries"},
			{Name: "large", Run: c13Large, Bounds: "65535 glyphs, 4 kinds", BoundsThorough: "4 glyph counts up to 65535, 4 kinds"},
			{Name: "handmade", Run: c13Handmade, Bounds: "predefined charsets and encodings, all DICT operand forms, redundant formats, header sizes"},
			{Name: "handencoding", Run: c13HandEncoding, Bounds: "hand-made encoding formats 0/1 with supplements"},
		},
	})
}
