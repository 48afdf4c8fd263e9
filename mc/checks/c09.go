package checks

import (
	"bytes"
	"fmt"
	"sort"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/encoding/charmap"

	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"

	"verif/mc/explore"
	"verif/mc/run"
)

// ---- independent decoders, written from the OpenType specification ----

// refCmapSubtable decodes a subtable to a map from character code to glyph
// (without zero entries).  For malformed subtables an error is returned.
func refCmapSubtable(b []byte) (map[uint32]int, error) {
	switch rdU16(b, 0) {
	case 0:
		if len(b) != 262 || rdU16(b, 2) != 262 {
			return nil, fmt.Errorf("format 0: length %d", len(b))
		}
		m := map[uint32]int{}
		for i, g := range b[6:] {
			if g != 0 {
				m[uint32(i)] = int(g)
			}
		}
		return m, nil
	case 4:
		return refFormat4(b)
	case 6:
		n := rdU16(b, 8)
		if n < 0 || rdU16(b, 2) != len(b) || len(b) < 10+2*n || rdU16(b, 6)+n > 0x10000 {
			return nil, fmt.Errorf("format 6: bad length")
		}
		m := map[uint32]int{}
		for i := 0; i < n; i++ {
			if g := rdU16(b, 10+2*i); g != 0 {
				m[uint32(rdU16(b, 6)+i)] = g
			}
		}
		return m, nil
	case 12:
		return refFormat12(b)
	}
	return nil, fmt.Errorf("unsupported format %d", rdU16(b, 0))
}

func refFormat4(b []byte) (map[uint32]int, error) {
	if len(b) < 24 || rdU16(b, 2) != len(b) {
		return nil, fmt.Errorf("length field %d for %d bytes", rdU16(b, 2), len(b))
	}
	sc2 := rdU16(b, 6)
	if sc2%2 != 0 || sc2 == 0 || 16+4*sc2 > len(b) {
		return nil, fmt.Errorf("bad segCountX2 %d", sc2)
	}
	sc := sc2 / 2
	p := 1
	sel := 0
	for p*2 <= sc {
		p *= 2
		sel++
	}
	if rdU16(b, 8) != 2*p || rdU16(b, 10) != sel || rdU16(b, 12) != sc2-2*p {
		return nil, fmt.Errorf("bad search fields %d %d %d for %d segments", rdU16(b, 8), rdU16(b, 10), rdU16(b, 12), sc)
	}
	if rdU16(b, 14+sc2) != 0 {
		return nil, fmt.Errorf("reservedPad not zero")
	}
	m := map[uint32]int{}
	prev := -1
	for i := 0; i < sc; i++ {
		end := rdU16(b, 14+2*i)
		start := rdU16(b, 16+sc2+2*i)
		delta := rdU16(b, 16+2*sc2+2*i)
		roPos := 16 + 3*sc2 + 2*i
		ro := rdU16(b, roPos)
		if start <= prev || end < start {
			return nil, fmt.Errorf("segment %d: %d-%d after %d", i, start, end, prev)
		}
		prev = end
		for c := start; c <= end; c++ {
			var g int
			if ro == 0 {
				g = (c + delta) & 0xFFFF
			} else {
				if ro%2 != 0 {
					return nil, fmt.Errorf("odd idRangeOffset")
				}
				pos := roPos + ro + 2*(c-start)
				if pos < 16+4*sc2 || pos+2 > len(b) {
					return nil, fmt.Errorf("segment %d: glyph array position %d outside", i, pos)
				}
				g = rdU16(b, pos)
				if g != 0 {
					g = (g + delta) & 0xFFFF
				}
			}
			if g != 0 {
				m[uint32(c)] = g
			}
		}
	}
	if prev != 0xFFFF {
		return nil, fmt.Errorf("last segment ends at %04x", prev)
	}
	return m, nil
}

func refFormat12(b []byte) (map[uint32]int, error) {
	n := rdU32(b, 12)
	if n < 0 || rdU16(b, 2) != 0 || rdU32(b, 4) != len(b) || len(b) != 16+12*n {
		return nil, fmt.Errorf("bad length")
	}
	m := map[uint32]int{}
	prev := -1
	for i := 0; i < n; i++ {
		s, e, g := rdU32(b, 16+12*i), rdU32(b, 20+12*i), rdU32(b, 24+12*i)
		if s <= prev || e < s || e-s > 1<<17 {
			return nil, fmt.Errorf("group %d: %x-%x after %x", i, s, e, prev)
		}
		prev = e
		if g+e-s > 65535 {
			return nil, fmt.Errorf("group %d reaches glyph %d", i, g+e-s)
		}
		for c := s; c <= e; c++ {
			if g+c-s != 0 {
				m[uint32(c)] = g + c - s
			}
		}
	}
	return m, nil
}

type refCmapKey struct{ p, e, l int }

// refCmap walks a cmap table.
func refCmap(b []byte) (map[refCmapKey][]byte, error) {
	if rdU16(b, 0) != 0 {
		return nil, fmt.Errorf("version %d", rdU16(b, 0))
	}
	n := rdU16(b, 2)
	if 4+8*n > len(b) {
		return nil, fmt.Errorf("header too short")
	}
	res := map[refCmapKey][]byte{}
	var prev []byte
	type rng struct{ a, b int }
	var rr []rng
	for i := 0; i < n; i++ {
		rec := b[4+8*i : 12+8*i]
		if prev != nil && bytes.Compare(prev[:4], rec[:4]) > 0 {
			return nil, fmt.Errorf("encoding records not sorted")
		}
		prev = rec
		o := rdU32(rec, 4)
		if o < 4+8*n || o+10 > len(b) {
			return nil, fmt.Errorf("record %d: offset %d", i, o)
		}
		f := rdU16(b, o)
		var l, lang int
		switch {
		case f <= 6:
			l, lang = rdU16(b, o+2), rdU16(b, o+4)
		case f == 14:
			l = rdU32(b, o+2)
		default:
			l, lang = rdU32(b, o+4), rdU32(b, o+8)
		}
		if l < 0 || o+l > len(b) {
			return nil, fmt.Errorf("record %d: length %d", i, l)
		}
		k := refCmapKey{rdU16(rec, 0), rdU16(rec, 2), 0}
		if k.p == 1 {
			k.l = lang
		}
		if _, dup := res[k]; dup {
			return nil, fmt.Errorf("duplicate key %v", k)
		}
		res[k] = b[o : o+l]
		rr = append(rr, rng{o, o + l})
	}
	for i := range rr {
		for j := 0; j < i; j++ {
			if rr[i] != rr[j] && rr[i].a < rr[j].b && rr[j].a < rr[i].b {
				return nil, fmt.Errorf("subtables overlap")
			}
		}
	}
	return res, nil
}

var c09probes = []rune{-1, -65536, 0, 1, 'A', 0x7F, 0x80, 0xFF, 0x100, 0xFFF0, 0xFFFE, 0xFFFF, 0x10000, 0x10041, 0x1FFFF, 0x20000, 0x10FFFF, 0x110000, 0x7FFFFFFF}

func cmapLookupAll(c *explore.Ctx, key string, s cmap.Subtable, want map[uint32]int, more []rune) {
	for r, g := range want {
		if got := s.Lookup(rune(r)); int(got) != g {
			c.Fail("c09:"+key, "U+%04X -> %d, want %d", r, got, g)
		}
	}
	for _, list := range [][]rune{c09probes, more} {
		for _, r := range list {
			w := 0
			if r >= 0 {
				w = want[uint32(r)]
			}
			if got := s.Lookup(r); int(got) != w {
				c.Fail("c09:"+key, "U+%04X -> %d, want %d", r, got, w)
			}
		}
	}
	switch s := s.(type) {
	case cmap.Format4:
		for r, g := range s {
			if want[uint32(r)] != int(g) {
				c.Fail("c09:"+key, "code %04x -> %d, want %d", r, g, want[uint32(r)])
			}
		}
	case cmap.Format12:
		for r, g := range s {
			if want[r] != int(g) {
				c.Fail("c09:"+key, "code %04x -> %d, want %d", r, g, want[r])
			}
		}
	}
}

func equalCmapMaps(a, b map[uint32]int) error {
	for k, v := range a {
		if b[k] != v {
			return fmt.Errorf("code %04X -> %d, want %d", k, b[k], v)
		}
	}
	for k, v := range b {
		if a[k] != v {
			return fmt.Errorf("code %04X -> %d, want %d", k, v, a[k])
		}
	}
	return nil
}

// c09encode checks one subtable: encoding, independent decoding, library decoding.
func c09encode(c *explore.Ctx, sub cmap.Subtable, want map[uint32]int, lang uint16, xi bool) []byte {
	data := sub.Encode(lang)
	fm := rdU16(data, 0)
	ref, err := refCmapSubtable(data)
	if err != nil {
		c.Fail("c09:encoded-malformed", "format %d: %v (%s)", fm, err, hexDump(data))
	}
	if err := equalCmapMaps(want, ref); err != nil {
		c.Fail("c09:encoded-mapping", "format %d: independent decoder: %v (%s)", fm, err, hexDump(data))
	}
	gotLang := rdU16(data, 4)
	if fm == 12 {
		gotLang = rdU32(data, 8)
	}
	if gotLang != int(lang) {
		c.Fail("c09:language", "language %d want %d", gotLang, lang)
	}
	key := cmap.Key{PlatformID: 3, EncodingID: 1}
	if fm == 12 {
		key.EncodingID = 10
	}
	tab := cmap.Table{key: data}
	full := tab.Encode()
	dec, err := cmap.Decode(full)
	if err != nil {
		c.Fail("c09:table-decode", "%v", err)
	}
	s, err := dec.Get(key)
	if err != nil {
		c.Fail("c09:subtable-decode", "%v", err)
	}
	var more []rune
	for r := range want {
		more = append(more, rune(r)^0x10000, rune(r)+1, rune(r)-1)
		if len(more) > 60 {
			break
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i] < more[j] })
	cmapLookupAll(c, "library-mapping", s, want, more)
	if xi {
		f, err := xCmapFont(full, 65535)
		if err != nil {
			c.Fail("c09:ximage", "x/image rejects the font: %v", err)
		}
		var buf xsfnt.Buffer
		check := func(r rune) {
			g, err := f.GlyphIndex(&buf, r)
			if err != nil || int(g) != want[uint32(r)] {
				c.Fail("c09:ximage", "x/image: U+%04X -> %d (%v), want %d", r, g, err, want[uint32(r)])
			}
		}
		i := 0
		for r := range want {
			if want[r] < 65535 {
				check(rune(r))
			}
			if i++; i > 400 {
				break
			}
		}
		for _, r := range more {
			if r >= 0 && r <= 0x10FFFF && want[uint32(r)] < 65535 {
				check(r)
			}
		}
	}
	return data
}

func toWant4(m cmap.Format4) map[uint32]int {
	w := map[uint32]int{}
	for k, v := range m {
		if v != 0 {
			w[uint32(k)] = int(v)
		}
	}
	return w
}

func toWant12(m cmap.Format12) map[uint32]int {
	w := map[uint32]int{}
	for k, v := range m {
		if v != 0 {
			w[k] = int(v)
		}
	}
	return w
}

func checkRange(c *explore.Ctx, s cmap.Subtable, want map[uint32]int) {
	if len(want) == 0 {
		return
	}
	lo, hi := uint32(1<<31), uint32(0)
	for k := range want {
		lo, hi = min(lo, k), max(hi, k)
	}
	a, b := s.CodeRange()
	if uint32(a) != lo || uint32(b) != hi {
		c.Fail("c09:code-range", "CodeRange %x..%x want %x..%x", a, b, lo, hi)
	}
}

func init() {
	window4 := func(c *explore.Ctx) {
		base := explore.Pick(c, "base", []int{0xFFFA - 2*boolInt(c.Thorough), 0xFFF0, 0xFFF7 - 6})
		w := 6
		if c.Thorough {
			w = 8
		}
		if base+w > 0x10000 {
			w = 0x10000 - base
		}
		dA := explore.Pick(c, "deltaA", []int{-base + 20, 5, 0x10000 - base - 3})
		m := cmap.Format4{}
		for i := 0; i < w; i++ {
			code := base + i
			switch c.Choose("gid", 4) {
			case 1:
				m[uint16(code)] = glyph.ID(code + dA)
			case 2:
				m[uint16(code)] = glyph.ID(code + dA - 9)
			case 3:
				m[uint16(code)] = 7
			}
		}
		c.Exec()
		c.Log("%v", m)
		want := toWant4(m)
		data := c09encode(c, m, want, 0, false)
		zero := false
		for _, v := range m {
			zero = zero || v == 0
		}
		if !zero {
			checkRange(c, m, want)
		}
		c.Obs(data)
	}
	low4 := func(c *explore.Ctx) {
		base := explore.Pick(c, "base", []int{0, 0x41, 0x7FFC})
		m := cmap.Format4{}
		for i := 0; i < 5; i++ {
			code := base + i
			switch c.Choose("gid", 3) {
			case 1:
				m[uint16(code)] = glyph.ID(i + 3)
			case 2:
				m[uint16(code)] = 65534
			}
		}
		lang := explore.Pick(c, "lang", []uint16{0, 1, 0xFFFF})
		c.Exec()
		c.Log("%v", m)
		want := toWant4(m)
		c.Obs(c09encode(c, m, want, lang, lang == 0))
		checkRange(c, m, want)
	}
	runs4 := func(c *explore.Ctx) {
		n := 1 + c.Choose("runs", 2+boolInt(c.Thorough))
		lens := []int{1, 2, 3, 4, 5, 6}
		gaps := []int{0, 1, 2, 4, 5, 6}
		if n == 3 || !c.Thorough {
			lens = []int{1, 3, 4, 5}
			gaps = []int{0, 1, 4, 5}
		}
		code := 0xFFA0
		next := 10
		m := cmap.Format4{}
		for i := 0; i < n; i++ {
			l := explore.Pick(c, "len", lens)
			kind := c.Choose("kind", 4)
			code += explore.Pick(c, "gap", gaps)
			for j := 0; j < l; j++ {
				switch kind {
				case 0: // increasing
					m[uint16(code)] = glyph.ID(next)
					next++
				case 1: // constant
					m[uint16(code)] = glyph.ID(500 + i)
				case 2: // decreasing
					m[uint16(code)] = glyph.ID(900 + 40*i - j)
				case 3: // alternating with unmapped
					if j%2 == 0 {
						m[uint16(code)] = glyph.ID(next)
						next++
					}
				}
				code++
			}
			if kind != 0 {
				next += 3
			}
		}
		switch c.Dev("end", 3) {
		case 1:
			m[0xFFFF] = 3
		case 2:
			m[0xFFFF], m[0xFFFE] = 4, 3
		}
		c.Exec()
		c.Log("%v", m)
		c.Obs(c09encode(c, m, toWant4(m), 0, false))
	}
	big4 := func(c *explore.Ctx) {
		kind := c.Choose("kind", 5)
		m := cmap.Format4{}
		size := 0
		switch kind {
		case 0: // isolated code points: 4 words each
			k := explore.Pick(c, "n", []int{100, 2000, 8187, 8188}[:2+2*boolInt(c.Thorough)])
			for i := 0; i < k; i++ {
				m[uint16(8*i)] = glyph.ID(i*7%60000 + 1)
			}
			size = k
		case 1: // dense, scrambled glyphs
			k := explore.Pick(c, "n", []int{1000, 4000, 32000, 32751}[:2+2*boolInt(c.Thorough)])
			for i := 0; i < k; i++ {
				m[uint16(i+100)] = glyph.ID((i*40503)%65536 | 1)
			}
			size = k
		case 2: // identity over everything
			for i := 1; i < 0x10000; i++ {
				m[uint16(i)] = glyph.ID(i)
			}
		case 3: // shifted with wrap around
			for i := 0; i < 0x10000; i++ {
				m[uint16(i)] = glyph.ID(i + 30000)
			}
		case 4: // mixture
			k := explore.Pick(c, "n", []int{3, 7, 11})
			for i := 0; i < 3000; i++ {
				if i%k < 6 {
					m[uint16(i*3)] = glyph.ID(i + 1)
					if i%2 == 0 {
						m[uint16(i*3+1)] = glyph.ID(i*5 + 2)
					}
				}
			}
		}
		c.Exec()
		c.Log("kind %d size %d", kind, size)
		c.Obs(c09encode(c, m, toWant4(m), 0, true))
	}
	window12 := func(c *explore.Ctx) {
		base := explore.Pick(c, "base", []int{0x41, 0xFFFC, 0x1F600, 0x10FFFF - 6})
		m := cmap.Format12{}
		start := explore.Pick(c, "gid", []int{20, 65530, 1})
		for i := 0; i < 7; i++ {
			switch c.Choose("kind", 4) {
			case 1:
				m[uint32(base+i)] = glyph.ID(start + i)
			case 2:
				m[uint32(base+i)] = 7
			case 3:
				if base == 0x41 {
					m[uint32(base+i)] = 0 // explicitly mapped to .notdef
				} else {
					m[uint32(base+i)] = glyph.ID(40 - i)
				}
			}
		}
		lang := explore.PickDev(c, "lang", []uint16{0, 9, 0xFFFF})
		c.Exec()
		c.Log("%v", m)
		want := toWant12(m)
		c.Obs(c09encode(c, m, want, lang, false))
		zero := false
		for _, v := range m {
			zero = zero || v == 0
		}
		if !zero {
			checkRange(c, m, want)
		}
	}
	big12 := func(c *explore.Ctx) {
		stride := explore.Pick(c, "stride", []int{1, 2, 16})
		n := explore.Pick(c, "n", []int{1, 255, 65535, 65536})
		order := c.Choose("order", 3)
		base := explore.Pick(c, "base", []int{0, 0xFF00, 0x10000})
		if base+stride*n > 0x110000 {
			c.Skip()
		}
		c.Exec()
		m := cmap.Format12{}
		for i := 0; i < n; i++ {
			g := i + 1
			switch order {
			case 1:
				g = 65535 - i
			case 2:
				g = i*40503 + 1
			}
			m[uint32(base+i*stride)] = glyph.ID(g)
		}
		data := c09encode(c, m, toWant12(m), 0, order == 0 && n < 65535)
		c.ObsStr(fmt.Sprint(len(data), stride, n, order, base))
	}

	sparse12 := func(c *explore.Ctx) {
		codes := []uint32{0x41, 0x42, 0x143, 0x10144, 0x10145, 0x1F600, 0x2F601, 0x10FFFF}
		m := cmap.Format12{}
		prev := glyph.ID(explore.Pick(c, "first", []int{1, 65000}))
		for _, code := range codes {
			switch c.Choose("kind", 5) {
			case 1:
				prev++
				m[code] = prev
			case 2:
				m[code] = prev
			case 3:
				prev += 0x101
				m[code] = prev
			case 4:
				prev--
				m[code] = prev
			}
		}
		c.Exec()
		zero := false
		for _, v := range m {
			zero = zero || v == 0
		}
		c.Log("%v", m)
		want := toWant12(m)
		c.Obs(c09encode(c, m, want, 0, false))
		if !zero {
			checkRange(c, m, want)
		}
	}

	// all sets of keys
	type vkey struct {
		k refCmapKey
		v int
	}
	cache := map[vkey][]byte{}
	var mkVariant func(k refCmapKey, v int) []byte
	variants := func(k refCmapKey, v int) []byte {
		d, ok := cache[vkey{k, v}]
		if !ok {
			d = mkVariant(k, v)
			cache[vkey{k, v}] = d
		}
		return bytes.Clone(d)
	}
	mkVariant = func(k refCmapKey, v int) []byte {
		lang := uint16(k.l)
		switch v {
		case 1:
			return cmap.Format4{'A': 11, 'B': 12}.Encode(lang)
		case 2:
			return cmap.Format12{'A': 21, 0x1F600: 22}.Encode(lang)
		case 3: // not decodable by the library
			return cat(be16(2, 10, int(lang)), make([]byte, 4))
		case 4:
			var f0 cmap.Format0
			f0.Data['A'] = 31
			return f0.Encode(lang)
		case 5:
			return cat(be16(6, 14, int(lang), 'A', 2, 41, 42))
		case 6:
			return cmap.Format4{'A': glyph.ID(100 + k.p*10 + k.e), 'C': 5}.Encode(lang)
		// formats which the library keeps without decoding them
		case 7: // variation selectors: no language field
			return cat(be16(14), be32(10), be32(0))
		case 8:
			return cat(be16(14), be32(30), be32(1), []byte{0, 0xFE, 0x0F}, be32(0), be32(21), be32(1), []byte{0, 0, 'A'}, be16(9))
		case 9:
			return cat(be16(13, 0), be32(28), be32(k.l), be32(1), be32(0x41), be32(0x10FFFF), be32(3))
		case 10:
			return cat(be16(10, 0), be32(22), be32(k.l), be32(0x1F600), be32(1), be16(4))
		}
		return nil
	}
	keys := []refCmapKey{{0, 3, 0}, {0, 4, 0}, {1, 0, 0}, {1, 0, 7}, {3, 1, 0}, {3, 10, 0}, {3, 0, 0}, {4, 1, 0}}
	keysets := func(c *explore.Ctx) {
		nv := 4
		t := cmap.Table{}
		vs := map[refCmapKey]int{}
		for _, k := range keys {
			var v int
			if k == (refCmapKey{3, 0, 0}) || k == (refCmapKey{4, 1, 0}) || k == (refCmapKey{1, 0, 7}) {
				v = []int{0, 1, 6}[c.Choose("variant", 2+boolInt(c.Thorough))]
			} else {
				v = []int{0, 1, 2, 3, 4, 5, 6}[c.Choose("variant", nv)]
				if v == 1 {
					v = explore.PickDev(c, "format", []int{6, 1, 4, 5})
				}
				if v == 3 && k.p != 1 {
					v = explore.PickDev(c, "other format", []int{3, 9, 10})
				}
			}
			if v != 0 {
				t[cmap.Key{PlatformID: uint16(k.p), EncodingID: uint16(k.e), Language: uint16(k.l)}] = variants(k, v)
				vs[k] = v
			}
		}
		if v := explore.PickDev(c, "variation selectors", []int{0, 7, 8}); v != 0 {
			k := refCmapKey{0, 5, 0}
			t[cmap.Key{PlatformID: 0, EncodingID: 5}] = variants(k, v)
			vs[k] = v
		}
		c.Exec()
		c.Log("%v", vs)
		enc := t.Encode()
		if !bytes.Equal(enc, t.Encode()) {
			c.Fail("c09:nondeterministic", "two encodings differ")
		}
		ref, err := refCmap(enc)
		if err != nil {
			c.Fail("c09:table-malformed", "%v", err)
		}
		if len(ref) != len(t) {
			c.Fail("c09:keys", "%d subtables instead of %d", len(ref), len(t))
		}
		dec, err := cmap.Decode(enc)
		if err != nil {
			c.Fail("c09:table-decode", "%v", err)
		}
		if len(dec) != len(t) {
			c.Fail("c09:keys", "decoded %d subtables instead of %d", len(dec), len(t))
		}
		for k, d := range t {
			if !bytes.Equal(dec[k], d) {
				c.Fail("c09:subtable-bytes", "%v: %s want %s", k, hexDump(dec[k]), hexDump(d))
			}
			if !bytes.Equal(ref[refCmapKey{int(k.PlatformID), int(k.EncodingID), int(k.Language)}], d) {
				c.Fail("c09:subtable-bytes", "%v: wrong bytes in file", k)
			}
		}
		// preference
		for _, tab := range []cmap.Table{t, dec} {
			best, err := tab.GetBest()
			var want map[uint32]int
			for _, k := range []refCmapKey{{3, 10, 0}, {0, 4, 0}, {3, 1, 0}, {0, 3, 0}, {1, 0, 0}} {
				v := vs[k]
				if v == 0 || v == 3 || v > 6 || (v == 2 && k.p == 1) {
					continue
				}
				want, _ = refCmapSubtable(variants(k, v))
				break
			}
			if want == nil {
				if err == nil {
					c.Fail("c09:best", "GetBest returned a subtable although there is none")
				}
				continue
			}
			if err != nil {
				c.Fail("c09:best", "GetBest failed: %v", err)
			}
			cmapLookupAll(c, "best", best, want, nil)
		}
		for _, k := range keys {
			if k.l != 0 && vs[refCmapKey{k.p, k.e, 0}] != 0 {
				continue // the smallest language counts
			}
			sub, err := dec.GetNoLang(uint16(k.p), uint16(k.e))
			switch v := vs[k]; {
			case v == 0:
				if err == nil && k.l == 0 && vs[refCmapKey{1, 0, 7}] == 0 {
					c.Fail("c09:nolang", "GetNoLang(%d, %d) returned a subtable although there is none", k.p, k.e)
				}
			case v == 1 || v == 4 || v == 5 || v == 6:
				if err != nil {
					c.Fail("c09:nolang", "GetNoLang(%d, %d) failed: %v", k.p, k.e, err)
				}
				want, _ := refCmapSubtable(variants(k, v))
				cmapLookupAll(c, "nolang", sub, want, nil)
			}
		}
		c.Obs(enc)
	}

	// byte formats as found in files
	formats := func(c *explore.Ctx) {
		var data []byte
		mac := false
		switch c.Choose("format", 3) {
		case 0:
			mac = c.Bool("mac")
			pat := c.Choose("pattern", 4)
			data = be16(0, 262, 0)
			for i := 0; i < 256; i++ {
				switch pat {
				case 0:
					data = append(data, byte(i))
				case 1:
					data = append(data, byte(255-i))
				case 2:
					data = append(data, byte(i%3))
				case 3:
					data = append(data, 0)
				}
			}
		case 1:
			mac = c.Bool("mac")
			first := explore.Pick(c, "first", []int{0, 0x41, 0xC0, 0xFE, 0xFFFD, 0x1234})
			n := explore.Pick(c, "count", []int{0, 1, 2, 3, 60})
			if first+n > 0x10000 || mac && first+n > 256 {
				c.Skip()
			}
			pat := c.Choose("pattern", 3)
			pad := c.Choose("pad", 2)
			data = be16(6, 10+2*n+2*pad, 0, first, n)
			for i := 0; i < n; i++ {
				data = append(data, be16([]int{i + 1, (i * 40000) & 0xFFFF, i % 2}[pat])...)
			}
			data = append(data, make([]byte, 2*pad)...)
		case 2:
			mac = c.Bool("mac")
			// hand made segments; glyph array entries are shared
			nseg := 1 + c.Choose("nseg", 2)
			arr := []int{0, 5, 6, 0x8000}
			if nseg == 1 {
				arr = arr[:1+c.Choose("arr", 4)]
			}
			type seg struct{ start, end, delta, off int }
			var segs []seg
			code := 0x41
			if !mac {
				code = explore.Pick(c, "start", []int{0x41, 0, 0xFFF0})
			}
			for i := 0; i < nseg; i++ {
				l := 1 + c.Choose("len", 3)
				d := explore.Pick(c, "delta", []int{0, 1, 0xFFFB, 0x8000})
				off := c.Choose("off", len(arr)+2) - 1 // -1: use delta only
				segs = append(segs, seg{code, code + l - 1, d, off})
				code += l + c.Choose("gap", 2)
			}
			lastDelta := explore.Pick(c, "last", []int{1, 5})
			segs = append(segs, seg{0xFFFF, 0xFFFF, lastDelta, -1})
			if mac && lastDelta == 5 {
				c.Skip()
			}
			n := len(segs)
			sel := 0
			for 2<<sel <= n {
				sel++
			}
			data = be16(4, 16+8*n+2*len(arr), 0, 2*n, 2<<sel, sel, 2*n-2<<sel)
			for _, s := range segs {
				data = append(data, be16(s.end)...)
			}
			data = append(data, 0, 0)
			for _, s := range segs {
				data = append(data, be16(s.start)...)
			}
			for _, s := range segs {
				data = append(data, be16(s.delta)...)
			}
			for i, s := range segs {
				if s.off < 0 {
					data = append(data, 0, 0)
				} else {
					data = append(data, be16(2*(n-i)+2*s.off)...)
				}
			}
			data = append(data, be16(arr...)...)
		}
		c.Exec()
		c.Log("mac=%v % x", mac, data)
		want, rerr := refCmapSubtable(data)
		key := cmap.Key{PlatformID: 3, EncodingID: 1}
		if mac {
			key = cmap.Key{PlatformID: 1, EncodingID: 0}
			w2 := map[uint32]int{}
			for code, g := range want {
				w2[uint32(charmap.Macintosh.DecodeByte(byte(code)))] = g
			}
			want = w2
		}
		full := cat(be16(0, 1, int(key.PlatformID), int(key.EncodingID)), be32(12), data)
		t, err := cmap.Decode(full)
		if err != nil {
			c.Fail("c09:file-format", "Decode: %v (% x)", err, data)
		}
		s, err := t.Get(key)
		if rerr != nil {
			// malformed: must not be decoded to something wrong silently; an
			// error is fine, and so is any mapping
			c.ObsStr("malformed")
			return
		}
		if err != nil {
			c.Fail("c09:file-format", "Get: %v (% x)", err, data)
		}
		cmapLookupAll(c, "file-format", s, want, nil)
		if b, err := t.GetBest(); err != nil {
			c.Fail("c09:file-format", "GetBest: %v", err)
		} else {
			cmapLookupAll(c, "file-format", b, want, nil)
		}
		c.Obs(data)
	}
	fmt0 := func(c *explore.Ctx) {
		lo := c.Choose("lo", 256)
		hi := lo + c.Choose("span", 256)
		if hi > 255 {
			c.Skip()
		}
		pat := c.Choose("interior", 2)
		c.Exec()
		c.ObsStr(fmt.Sprint(lo, hi, pat))
		m := &cmap.Format0{}
		want := map[uint32]int{}
		set := func(r, g int) { m.Data[r] = byte(g); want[uint32(r)] = g }
		set(lo, 255)
		set(hi, 1)
		if pat == 1 && hi-lo > 1 {
			set((lo+hi)/2, 77)
		}
		checkRange(c, m, want)
		t := cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
		dec, err := cmap.Decode(t.Encode())
		if err != nil {
			c.Fail("c09:format0", "%v", err)
		}
		s, err := dec.Get(cmap.Key{PlatformID: 3, EncodingID: 1})
		if err != nil {
			c.Fail("c09:format0", "%v", err)
		}
		checkRange(c, s, want)
		for r := rune(-2); r < 600; r++ {
			if int(s.Lookup(r)) != want[uint32(r)] && r >= 0 || r < 0 && s.Lookup(r) != 0 {
				c.Fail("c09:format0", "code %d: glyph %d, want %d", r, s.Lookup(r), want[uint32(r)])
			}
		}
	}
	run.Register(&run.Property{
		ID: "C09", Level: "model_checking",
		Rule: "one execution = one character map (or set of cmap keys, or hand-made subtable) encoded by the library, decoded by an independent specification decoder, by the library and (marked drivers) by golang.org/x/image, compared over all mapped codes, their neighbours, their aliases modulo 65536 and boundary code points; distinct observations are distinct encodings",
		Drivers: []run.Driver{
			{Name: "format4-window", Run: window4, Weight: 3, Bounds: "all maps over 6 (thorough: 8) adjacent codes at 3 positions near U+FFFF with 4 glyph choices per code (unmapped, delta A, delta B, fixed), 3 deltas incl. wrap-around"},
			{Name: "format4-low", Run: low4, Weight: 1, Bounds: "all maps over 5 codes at 3 positions, 3 languages, also judged by x/image"},
			{Name: "format4-runs", Run: runs4, Dev: 1, Weight: 3, Bounds: "all maps of up to 2 (thorough: 3) runs over length x kind x gap around the segmentation thresholds, with and without U+FFFE/U+FFFF"},
			{Name: "format4-big", Run: big4, Weight: 1, Hang: 300, Bounds: "maps at the 64 KiB limit (isolated codes and scrambled arrays at the limit only in thorough) and over the full BMP"},
			{Name: "format12-window", Run: window12, Dev: 1, Weight: 1, Bounds: "all maps over 7 adjacent codes at 4 positions incl. U+10FFFF, 4 choices per code incl. explicit .notdef and glyph ids at 65535"},
			{Name: "format12-sparse", Run: sparse12, Weight: 1, Bounds: "all maps over 8 codes whose distances are congruent to 1 modulo 2^8 or 2^16, 5 choices per code"},
			{Name: "format12-big", Run: big12, Weight: 1, Bounds: "up to 65536 entries, 3 strides, 3 glyph orders"},
			{Name: "format0", Run: fmt0, Weight: 1, Bounds: "all format 0 subtables with 2 or 3 mapped codes (every first and last code)"},
			{Name: "key-sets", Run: keysets, Dev: 1, DevThorough: 2, Weight: 2, Bounds: "all subsets of 8 (platform, encoding, language) keys with up to 7 subtable variants, shared and unshared, also formats 10, 13 and 14 which are only kept; GetBest and GetNoLang compared with the documented preference"},
			{Name: "file-formats", Run: formats, Weight: 1, Bounds: "format 0, 6 and hand-made format 4 subtables (idDelta with glyph arrays, shared arrays, wrap-around) for Unicode and Mac Roman keys"},
		},
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
