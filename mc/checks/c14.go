package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"
	"verif/mc/explore"
	"verif/mc/run"
)

// nameField returns the field of t for one name id.
func nameField(t *name.Table, id int) *string {
	fs := []*string{&t.Copyright, &t.Family, &t.Subfamily, &t.Identifier, &t.FullName, &t.Version, &t.PostScriptName, &t.Trademark,
		&t.Manufacturer, &t.Designer, &t.Description, &t.VendorURL, &t.DesignerURL, &t.License, &t.LicenseURL, nil,
		&t.TypographicFamily, &t.TypographicSubfamily, &t.MacFullName, &t.SampleText, &t.CIDFontName, &t.WWSFamily, &t.WWSSubfamily,
		&t.LightBackgroundPalette, &t.DarkBackgroundPalette, &t.VariationsPostScriptName}
	if id < len(fs) {
		return fs[id]
	}
	return nil
}

func nameSet(t *name.Table, id int, s string) {
	if p := nameField(t, id); p != nil {
		*p = s
		return
	}
	if t.Extra == nil {
		t.Extra = map[name.ID]string{}
	}
	t.Extra[name.ID(id)] = s
}

func nameGet(t *name.Table, id int) string {
	if t == nil {
		return ""
	}
	if p := nameField(t, id); p != nil {
		return *p
	}
	return t.Extra[name.ID(id)]
}

// nameAll lists all non-empty strings of a table.
func nameAll(t *name.Table) map[int]string {
	res := map[int]string{}
	for id := 0; id < 26; id++ {
		if p := nameField(t, id); p != nil && *p != "" {
			res[id] = *p
		}
	}
	for id, s := range t.Extra {
		if s != "" {
			res[int(id)] = s
		}
	}
	return res
}

type refNameRec struct{ plat, enc, lang, id int }

// refName reads a name table by the letter of the specification.
func refName(b []byte) (map[refNameRec][]byte, error) {
	if len(b) < 6 || rdU16(b, 0) != 0 {
		return nil, fmt.Errorf("bad header")
	}
	n, so := rdU16(b, 2), rdU16(b, 4)
	if 6+12*n > so || so > len(b) {
		return nil, fmt.Errorf("storage offset %d with %d records", so, n)
	}
	res := map[refNameRec][]byte{}
	last := refNameRec{-1, 0, 0, 0}
	for i := 0; i < n; i++ {
		p := 6 + 12*i
		k := refNameRec{rdU16(b, p), rdU16(b, p+2), rdU16(b, p+4), rdU16(b, p+6)}
		l, o := rdU16(b, p+8), rdU16(b, p+10)
		if so+o+l > len(b) {
			return nil, fmt.Errorf("record %v: string outside the table", k)
		}
		if fmt.Sprintf("%05d %05d %05d %05d", k.plat, k.enc, k.lang, k.id) <= fmt.Sprintf("%05d %05d %05d %05d", last.plat, last.enc, last.lang, last.id) && i > 0 {
			return nil, fmt.Errorf("records not in order: %v after %v", k, last)
		}
		last = k
		res[k] = b[so+o : so+o+l]
	}
	return res, nil
}

func u16be(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

func macBytes(s string) ([]byte, bool) {
	var b []byte
	for _, r := range s {
		c, ok := charmap.Macintosh.EncodeRune(r)
		if !ok {
			return nil, false
		}
		b = append(b, c)
	}
	return b, true
}

// makeName builds a name table by hand.
func makeName(recs []refNameRec, vals [][]byte) []byte {
	var store, out []byte
	out = be16(0, len(recs), 6+12*len(recs))
	for i, r := range recs {
		out = append(out, be16(r.plat, r.enc, r.lang, r.id, len(vals[i]), len(store))...)
		store = append(store, vals[i]...)
	}
	return append(out, store...)
}

func baseLang(tag string) string {
	t, err := language.Parse(tag)
	if err != nil {
		return "invalid:" + tag
	}
	b, _ := t.Base()
	return b.String()
}

// langOfID asks the library which key it uses for a platform language id.
func langOfID(plat, id int) string {
	enc, val := 0, []byte("x")
	if plat == 3 {
		enc, val = 1, []byte{0, 'x'}
	}
	info, err := name.Decode(makeName([]refNameRec{{plat, enc, id, 1}}, [][]byte{val}))
	if err != nil {
		return ""
	}
	m := info.Mac
	if plat == 3 {
		m = info.Windows
	}
	for k := range m {
		return k
	}
	return ""
}

// checkNameInfo encodes and decodes a name table.
func checkNameInfo(c *explore.Ctx, info *name.Info, encID int) {
	enc := info.Encode(uint16(encID))
	if !bytes.Equal(enc, info.Encode(uint16(encID))) {
		c.Fail("c14:name-nondeterministic", "two encodings of the same table differ")
	}
	ref, err := refName(enc)
	if err != nil {
		c.Fail("c14:name-malformed", "%v", err)
	}
	seen := map[string]int{}
	for k, v := range ref {
		tag := langOfID(k.plat, k.lang)
		tt := info.Mac
		if k.plat == 3 {
			tt = info.Windows
			if k.enc != encID {
				c.Fail("c14:name-encoding", "%v", k)
			}
		} else if k.plat != 1 || k.enc != 0 {
			c.Fail("c14:name-encoding", "%v", k)
		}
		t := tt[tag]
		s := nameGet(t, k.id)
		if s == "" {
			c.Fail("c14:name-extra", "record %v (%s) was not asked for", k, tag)
		}
		want := u16be(s)
		if k.plat == 1 {
			want, _ = macBytes(s)
		}
		if !bytes.Equal(v, want) {
			c.Fail("c14:name-bytes", "%v: %s, want %s", k, hexDump(v), hexDump(want))
		}
		seen[fmt.Sprint(k.plat, " ", tag, " ", k.id)]++
	}
	for pl, tt := range map[int]name.Tables{1: info.Mac, 3: info.Windows} {
		for tag, t := range tt {
			for id, s := range nameAll(t) {
				if seen[fmt.Sprint(pl, " ", tag, " ", id)] == 0 {
					c.Fail("c14:name-missing", "platform %d %s id %d: %q not written", pl, tag, id, clip(s, 30))
				}
			}
		}
	}
	dec, err := name.Decode(enc)
	if err != nil {
		c.Fail("c14:name-decode", "%v", err)
	}
	for pl, p := range map[int][2]name.Tables{1: {info.Mac, dec.Mac}, 3: {info.Windows, dec.Windows}} {
		for tag, t := range p[0] {
			a := nameAll(t)
			if len(a) == 0 {
				continue
			}
			if p[1][tag] == nil {
				c.Fail("c14:name-roundtrip", "platform %d: language %s lost", pl, tag)
			}
			if d := deepDiff(a, nameAll(p[1][tag])); d != "" {
				c.Fail("c14:name-roundtrip", "platform %d %s: %s", pl, tag, clip(d, 200))
			}
		}
		for tag := range p[1] {
			if p[0][tag] == nil {
				c.Fail("c14:name-roundtrip", "platform %d: language %s appeared", pl, tag)
			}
		}
	}
}

// refPost reads the glyph names of a post table.
func refPost(b []byte) ([]string, bool, error) {
	if len(b) < 32 {
		return nil, false, fmt.Errorf("short table")
	}
	switch rdU32(b, 0) {
	case 0x00010000:
		return macGlyphNames, true, nil
	case 0x00030000:
		return nil, false, nil
	case 0x00020000:
		n := rdU16(b, 32)
		p := 34 + 2*n
		var strs []string
		for p < len(b) {
			l := int(b[p])
			if p+1+l > len(b) {
				return nil, false, fmt.Errorf("string data truncated")
			}
			strs = append(strs, string(b[p+1:p+1+l]))
			p += 1 + l
		}
		var res []string
		for i := 0; i < n; i++ {
			x := rdU16(b, 34+2*i)
			if x < 258 {
				res = append(res, macGlyphNames[x])
			} else if x-258 < len(strs) {
				res = append(res, strs[x-258])
			} else {
				return nil, false, fmt.Errorf("name index %d of %d", x-258, len(strs))
			}
		}
		return res, true, nil
	}
	return nil, false, fmt.Errorf("version %08x", rdU32(b, 0))
}

func checkPost(c *explore.Ctx, info *post.Info, ximage bool) {
	enc := info.Encode()
	names, has, err := refPost(enc)
	if err != nil {
		c.Fail("c14:post-malformed", "%v", err)
	}
	if has != (info.Names != nil) || len(names) != len(info.Names) {
		c.Fail("c14:post-names", "%d names in file, want %d", len(names), len(info.Names))
	}
	for i, s := range info.Names {
		if names[i] != s {
			c.Fail("c14:post-names", "glyph %d: %q in file, want %q", i, names[i], s)
		}
	}
	dec, err := post.Read(bytes.NewReader(enc))
	if err != nil {
		c.Fail("c14:post-read", "%v", err)
	}
	if (dec.Names == nil) != (info.Names == nil) || len(dec.Names) != len(info.Names) {
		c.Fail("c14:post-roundtrip", "%d names, want %d", len(dec.Names), len(info.Names))
	}
	for i, s := range info.Names {
		if dec.Names[i] != s {
			c.Fail("c14:post-roundtrip", "glyph %d: %q, want %q", i, dec.Names[i], s)
		}
	}
	if dec.ItalicAngle != info.ItalicAngle || dec.UnderlinePosition != info.UnderlinePosition || dec.UnderlineThickness != info.UnderlineThickness || dec.IsFixedPitch != info.IsFixedPitch {
		c.Fail("c14:post-header", "%+v want %+v", dec, info)
	}
	if ximage && len(info.Names) > 0 {
		t := skeletonTables(len(info.Names), 1000)
		t["post"] = enc
		t["cmap"] = anyCmap
		xf, err := xsfnt.Parse(sfntAssemble(0x00010000, t))
		if err != nil {
			c.Fail("c14:ximage", "%v", err)
		}
		var buf xsfnt.Buffer
		for i, s := range info.Names {
			g, err := xf.GlyphName(&buf, xsfnt.GlyphIndex(i))
			if err != nil || g != s {
				c.Fail("c14:ximage-post", "glyph %d: %q %v, want %q", i, g, err, s)
			}
		}
	}
}

type refLangSys struct {
	script, lang string
	req          int
	opt          string
}

func refScriptList(b []byte) ([]refLangSys, error) {
	var res []refLangSys
	if len(b) < 10 {
		return nil, fmt.Errorf("short")
	}
	sl := rdU16(b, 4)
	if sl == 0 {
		return nil, nil
	}
	n := rdU16(b, sl)
	ls := func(script, lang string, p int) error {
		if p+6 > len(b) || rdU16(b, p) != 0 {
			return fmt.Errorf("langsys %s %q out of range", script, lang)
		}
		k := rdU16(b, p+4)
		if p+6+2*k > len(b) {
			return fmt.Errorf("langsys %s %q out of range", script, lang)
		}
		var opt []int
		for i := 0; i < k; i++ {
			opt = append(opt, rdU16(b, p+6+2*i))
		}
		res = append(res, refLangSys{script, lang, rdU16(b, p+2), fmt.Sprint(opt)})
		return nil
	}
	prev := ""
	for i := 0; i < n; i++ {
		p := sl + 2 + 6*i
		if p+6 > len(b) {
			return nil, fmt.Errorf("script records out of range")
		}
		script := string(b[p : p+4])
		if script <= prev {
			return nil, fmt.Errorf("scripts not sorted: %q after %q", script, prev)
		}
		prev = script
		q := sl + rdU16(b, p+4)
		if q+4 > len(b) {
			return nil, fmt.Errorf("script %s out of range", script)
		}
		if d := rdU16(b, q); d != 0 {
			if err := ls(script, "", q+d); err != nil {
				return nil, err
			}
		}
		m := rdU16(b, q+2)
		prevL := ""
		for j := 0; j < m; j++ {
			r := q + 4 + 6*j
			if r+6 > len(b) {
				return nil, fmt.Errorf("langsys records out of range")
			}
			lang := string(b[r : r+4])
			if lang <= prevL {
				return nil, fmt.Errorf("languages not sorted: %q after %q", lang, prevL)
			}
			prevL = lang
			if err := ls(script, lang, q+rdU16(b, r+4)); err != nil {
				return nil, err
			}
		}
	}
	return res, nil
}

// makeScriptGsub builds a GSUB table with the given script list and nf features.
// An empty lang gives the default language system.
func makeScriptGsub(ls []refLangSys, opts [][]int, nf int) []byte {
	scripts := map[string][]int{}
	var order []string
	for i, l := range ls {
		if scripts[l.script] == nil {
			order = append(order, l.script)
		}
		scripts[l.script] = append(scripts[l.script], i)
	}
	sort.Strings(order)
	sysBytes := func(i int) []byte {
		return append(be16(0, ls[i].req, len(opts[i])), be16(opts[i]...)...)
	}
	var recs, body []byte
	for _, s := range order {
		idx := scripts[s]
		sort.Slice(idx, func(a, b int) bool { return ls[idx[a]].lang < ls[idx[b]].lang })
		nl := len(idx)
		def := 0
		if ls[idx[0]].lang == "" {
			nl--
			def = 1
		}
		hdr := 4 + 6*nl
		var lr, data []byte
		d := 0
		for k, i := range idx {
			o := hdr + len(data)
			if k == 0 && def == 1 {
				d = o
			} else {
				lr = append(lr, ls[i].lang...)
				lr = append(lr, be16(o)...)
			}
			data = append(data, sysBytes(i)...)
		}
		recs = append(recs, s...)
		recs = append(recs, be16(2+6*len(order)+len(body))...)
		body = append(body, cat(be16(d, nl), lr, data)...)
	}
	sl := cat(be16(len(order)), recs, body)
	fl := be16(nf)
	for i := 0; i < nf; i++ {
		fl = append(fl, cat([]byte("test"), be16(2+6*nf))...)
	}
	fl = append(fl, be16(0, 0)...)
	return cat(be16(1, 0, 10, 10+len(sl), 10+len(sl)+len(fl)), sl, fl, be16(0))
}

// anyCmap is a minimal cmap table.
var anyCmap = cat(be16(0, 1, 3, 1), be32(12), be16(4, 32, 0, 4, 4, 1, 0, 65, 0xFFFF, 0, 65, 0xFFFF, 0x10000-65, 1, 0, 0))

func init() {
	// all pairs of bytes and all code points through the Mac Roman codec
	macD := func(c *explore.Ctx) {
		block := c.Choose("block", 0x1100+256)
		c.Exec()
		c.ObsStr(fmt.Sprint(block))
		if block < 256 {
			for b := 0; b < 256; b++ {
				in := []byte{byte(block), byte(b)}
				s := mac.Decode(in)
				want := string([]rune{charmap.Macintosh.DecodeByte(in[0]), charmap.Macintosh.DecodeByte(in[1])})
				if s != want {
					c.Fail("c14:mac-decode", "% x decoded as %q, want %q", in, s, want)
				}
				if mac.DecodeOne(byte(b)) != charmap.Macintosh.DecodeByte(byte(b)) {
					c.Fail("c14:mac-decode", "DecodeOne(%02x)", b)
				}
				if out := mac.Encode(s); !bytes.Equal(out, in) {
					c.Fail("c14:mac-encode", "% x -> %q -> % x", in, s, out)
				}
			}
			return
		}
		for i := 0; i < 256; i++ {
			r := rune((block-256)*256 + i)
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			out := mac.Encode("a" + string(r) + "z")
			b, ok := charmap.Macintosh.EncodeRune(r)
			if !ok {
				b = '?'
			}
			if !bytes.Equal(out, []byte{'a', b, 'z'}) {
				c.Fail("c14:mac-encode", "U+%04X encoded as % x, want %02x", r, out, b)
			}
			if ok && mac.Decode(out) != "a"+string(r)+"z" {
				c.Fail("c14:mac-roundtrip", "U+%04X", r)
			}
		}
	}

	// all code points through the UTF-16 codec, as strings of a name table
	utfD := func(c *explore.Ctx) {
		block := c.Choose("block", 0x1100)
		ctx := c.Choose("context", 3)
		c.Exec()
		c.ObsStr(fmt.Sprint(block, ctx))
		t := &name.Table{}
		for i := 0; i < 256; i++ {
			r := rune(block*256 + i)
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			nameSet(t, 256+i, []string{"", "a", "\U0001F600"}[ctx]+string(r)+[]string{"", "\uE000", string(r)}[ctx])
		}
		checkNameInfo(c, &name.Info{Windows: name.Tables{"en-US": t}}, 1)
	}
	// all 16-bit words (pairs at the surrogate borders) through decode and encode
	utfDec := func(c *explore.Ctx) {
		edge := []int{0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF}
		first := c.Choose("first", len(edge))
		hi := c.Choose("high", 256)
		c.Exec()
		c.ObsStr(fmt.Sprint(first, hi))
		var recs []refNameRec
		var vals [][]byte
		for lo := 0; lo < 256; lo++ {
			recs = append(recs, refNameRec{3, 1, 0x409, 256 + lo})
			vals = append(vals, be16(edge[first], hi<<8|lo))
		}
		info, err := name.Decode(makeName(recs, vals))
		if err != nil {
			c.Fail("c14:utf16", "%v", err)
		}
		enc, err := refName(info.Encode(1))
		if err != nil {
			c.Fail("c14:utf16", "%v", err)
		}
		for i, r := range recs {
			u := []uint16{uint16(rdU16(vals[i], 0)), uint16(rdU16(vals[i], 2))}
			want := string(utf16.Decode(u))
			if got := nameGet(info.Windows["en-US"], r.id); got != want {
				c.Fail("c14:utf16", "%04x decoded as %q, want %q", u, got, want)
			}
			bad := false
			for _, r := range want {
				bad = bad || r == 0xFFFD
			}
			if !bad && !bytes.Equal(enc[r], vals[i]) {
				c.Fail("c14:utf16", "%04x re-encoded as % x", u, enc[r])
			}
		}
	}

	// every language id of both platforms
	langD := func(c *explore.Ctx) {
		plat := []int{1, 3}[c.Choose("platform", 2)]
		refs := refMacLangs
		if plat == 3 {
			refs = refWinLangs
		}
		i := c.Choose("language", len(refs))
		id := []int{1, 0, 6, 19, 25, 15, 26, 255, 256, 32767, 65535}[c.Choose("id", 11)]
		sv := c.Choose("string", 6)
		c.Exec()
		c.ObsStr(fmt.Sprint(plat, i, id, sv))
		ref := refs[i]
		tag := langOfID(plat, ref.id)
		if tag == "" {
			c.Fail("c14:lang-unsupported", "platform %d language %04x is not read", plat, ref.id)
		}
		if baseLang(tag) != baseLang(ref.tag) {
			c.Fail("c14:lang-wrong", "platform %d language %04x becomes %q, want %q", plat, ref.id, tag, ref.tag)
		}
		for j, o := range refs {
			if j != i && langOfID(plat, o.id) == tag && o.tag != ref.tag {
				c.Fail("c14:lang-lossy", "platform %d: languages %04x and %04x both become %q", plat, ref.id, o.id, tag)
			}
		}
		s := []string{"a", "Ω≈ fi\u00A0\uF8FF", "\x00\x01\x7f", "Ünï¢øde €", strings.Repeat("long ", 400), "\u0416\u05D0\u3042\U00020000"}[sv]
		if plat == 1 && sv == 5 {
			s = "\u2021\u02C7"
		}
		t := &name.Table{}
		nameSet(t, id, s)
		info := &name.Info{Mac: name.Tables{tag: t}}
		if plat == 3 {
			info = &name.Info{Windows: name.Tables{tag: t}}
		}
		checkNameInfo(c, info, 1)
		rr, _ := refName(info.Encode(1))
		found := false
		for k := range rr {
			found = found || k.lang == ref.id
		}
		if !found {
			c.Fail("c14:lang-roundtrip", "platform %d: language %04x is %q, which is written as %v", plat, ref.id, tag, rr)
		}
	}

	// every name id
	idD := func(c *explore.Ctx) {
		hi := c.Choose("high", 256)
		both := c.Choose("platforms", 3)
		c.Exec()
		c.ObsStr(fmt.Sprint(hi, both))
		t, t2 := &name.Table{}, &name.Table{}
		for lo := 0; lo < 256; lo++ {
			id := hi*256 + lo
			nameSet(t, id, fmt.Sprintf("name %d", id))
			if id%3 != 0 {
				nameSet(t2, id, fmt.Sprintf("name %d", id&^1))
			}
		}
		info := &name.Info{}
		if both != 0 {
			info.Mac = name.Tables{"en": t, "de": t2}
		}
		if both != 1 {
			info.Windows = name.Tables{"en-US": t2, "fr-CA": t}
		}
		checkNameInfo(c, info, 1)
	}

	// several languages, shared and overlapping strings, missing entries
	multiD := func(c *explore.Ctx) {
		strs := []string{"", "ab", "abc", "b", "a\u00e9", "\u0416", "\U0001F600x"}
		type slot struct {
			plat int
			tag  string
		}
		slots := []slot{{1, "en"}, {1, "zh-Hans"}, {3, "en-US"}, {3, "es-ES"}, {3, "moh"}}
		ids := []int{1, 4, 15, 300}
		info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
		encID := explore.PickDev(c, "encid", []int{1, 0, 10})
		desc := ""
		for _, s := range slots {
			v := c.Choose("slot", 4)
			if v == 0 {
				continue
			}
			t := &name.Table{}
			for k, id := range ids {
				if v == 1 && k > 0 {
					continue
				}
				n := len(strs)
				if s.plat == 1 {
					n = 5
				}
				x := c.Dev("string", n)
				if x == 0 {
					nameSet(t, id, []string{"ab", "cd", "abc"}[v-1])
				} else {
					nameSet(t, id, strs[x%n])
				}
				desc += fmt.Sprint(s, id, v, x, " ")
			}
			if s.plat == 1 {
				info.Mac[s.tag] = t
			} else {
				info.Windows[s.tag] = t
			}
		}
		c.Exec()
		c.Log("%s enc %d", desc, encID)
		c.ObsStr(fmt.Sprint(desc, encID))
		checkNameInfo(c, info, encID)
	}

	// long strings
	longD := func(c *explore.Ctx) {
		plat := c.Choose("platform", 2)
		n := explore.Pick(c, "units", []int{127, 128, 255, 256, 257, 16383, 16384, 32766, 32767})
		sh := c.Choose("shape", 3)
		c.Exec()
		c.ObsStr(fmt.Sprint(plat, n, sh))
		var sb strings.Builder
		units := 0
		for i := 0; units < n; i++ {
			r := rune('a' + i%26)
			if sh == 1 && plat == 1 && units+2 <= n && i%3 == 0 {
				r = rune(0x10000 + i%0xFFF)
				units++
			}
			units++
			sb.WriteRune(r)
		}
		t := &name.Table{Family: sb.String()}
		if sh == 2 {
			t.FullName = "x"
			t.Version = t.Family
		}
		info := &name.Info{Mac: name.Tables{"en": t}}
		if plat == 1 {
			info = &name.Info{Windows: name.Tables{"en-US": t}}
		}
		checkNameInfo(c, info, 1)
	}

	// records other platforms/encodings/languages must not disturb understood ones
	fileD := func(c *explore.Ctx) {
		kinds := []struct {
			r   refNameRec
			val []byte
			m   int // 1 mac, 3 windows, 0 ignored
		}{
			{refNameRec{0, 3, 0, 1}, be16('U', 'U'), 0},
			{refNameRec{1, 0, 0, 1}, []byte("Mac\xa9"), 1},
			{refNameRec{1, 0, 999, 1}, []byte("Mac?"), 0},
			{refNameRec{1, 1, 11, 1}, []byte("\x82\xa0"), 0},
			{refNameRec{2, 0, 0, 1}, []byte("iso"), 0},
			{refNameRec{3, 0, 0x409, 1}, be16('S'), 3},
			{refNameRec{3, 1, 0x407, 1}, be16(0xD83D, 0xDE00), 3},
			{refNameRec{3, 1, 0x7777, 1}, be16('?'), 0},
			{refNameRec{3, 3, 0x804, 1}, []byte("\xc4\xe3"), 0},
			{refNameRec{3, 10, 0x40c, 1}, be16(0xD840, 0xDC00, 'q'), 3},
			{refNameRec{3, 1, 0xC0C, 9}, be16(), 0},
			{refNameRec{240, 0, 0, 1}, []byte("custom"), 0},
		}
		mask := c.Choose("records", 1<<len(kinds))
		ver := c.Choose("version", 2)
		c.Exec()
		c.ObsStr(fmt.Sprint(mask, ver))
		var recs []refNameRec
		var vals [][]byte
		wantM, wantW := map[string]string{}, map[string]string{}
		for i, k := range kinds {
			if mask>>i&1 == 0 {
				continue
			}
			recs = append(recs, k.r)
			vals = append(vals, k.val)
			switch k.m {
			case 1:
				wantM["en"] = "Mac\u00a9"
			case 3:
				var u []uint16
				for p := 0; p < len(k.val); p += 2 {
					u = append(u, uint16(rdU16(k.val, p)))
				}
				wantW[map[int]string{0x409: "en-US", 0x407: "de-DE", 0x40c: "fr-FR"}[k.r.lang]] = string(utf16.Decode(u))
			}
		}
		data := makeName(recs, vals)
		if ver == 1 {
			hdr := 6 + 12*len(recs)
			data = cat(be16(1, len(recs), hdr+2+4+4), data[6:hdr], be16(1, 4, 0), be16('d', 'e'), data[hdr:])
			// the language-tag string precedes the record strings
		}
		info, err := name.Decode(data)
		if err != nil {
			c.Fail("c14:name-file", "version %d mask %x: %v", ver, mask, err)
		}
		got := func(tt name.Tables) map[string]string {
			m := map[string]string{}
			for k, t := range tt {
				if t.Family != "" {
					m[k] = t.Family
				}
			}
			return m
		}
		if d := deepDiff(wantM, got(info.Mac)); d != "" {
			c.Fail("c14:name-file", "mac: %s", d)
		}
		if d := deepDiff(wantW, got(info.Windows)); d != "" {
			c.Fail("c14:name-file", "windows: %s", d)
		}
	}

	// x/image agrees about the strings
	ximD := func(c *explore.Ctx) {
		id := c.Choose("id", 26)
		plat := c.Choose("platform", 2)
		s := explore.Pick(c, "string", []string{"plain", "\u00dcnic\u00f6de", "\u20ac\uF8FF\u2021", "\u0416\uFFFD\uE000"})
		c.Exec()
		c.ObsStr(fmt.Sprint(id, plat, s))
		t := &name.Table{}
		nameSet(t, id, s)
		nameSet(t, (id+1)%26, "other")
		info := &name.Info{Windows: name.Tables{"en-US": t}}
		if plat == 1 {
			if _, ok := macBytes(s); !ok {
				c.Skip()
			}
			info = &name.Info{Mac: name.Tables{"en": t}}
		}
		tb := skeletonTables(1, 1000)
		tb["cmap"] = anyCmap
		tb["name"] = info.Encode(1)
		xf, err := xsfnt.Parse(sfntAssemble(0x00010000, tb))
		if err != nil {
			c.Fail("c14:ximage", "%v", err)
		}
		var buf xsfnt.Buffer
		g, err := xf.Name(&buf, xsfnt.NameID(id))
		if err != nil || g != s {
			c.Fail("c14:ximage-name", "id %d: %q %v, want %q", id, g, err, s)
		}
	}

	// Tables.Choose: an exact language is found
	chooseD := func(c *explore.Ctx) {
		tags := []string{"en-US", "en-GB", "de-DE", "zh-CN", "zh-TW", "sr-Cyrl-CS", "sr-Latn-CS", "fr-CA", "moh"}
		mask := c.Choose("tables", 1<<len(tags))
		rich := c.Choose("rich", len(tags))
		if mask>>rich&1 == 0 {
			c.Skip()
		}
		c.Exec()
		c.ObsStr(fmt.Sprint(mask, rich))
		tt := name.Tables{}
		for i, s := range tags {
			if mask>>i&1 == 0 {
				continue
			}
			t := &name.Table{Family: s}
			if i == rich {
				t.Version, t.License, t.FullName = "1", "2", "3"
			}
			tt[s] = t
		}
		for i, s := range tags {
			t, conf := tt.Choose(language.MustParse(s))
			t2, conf2 := tt.Choose(language.MustParse(s))
			if t != t2 || conf != conf2 {
				c.Fail("c14:choose", "%s: not deterministic", s)
			}
			if mask>>i&1 != 0 && (t != tt[s] || conf != language.Exact) {
				c.Fail("c14:choose", "%s: got %q (%v)", s, t.Family, conf)
			}
			if t == nil {
				c.Fail("c14:choose", "%s: nothing chosen", s)
			}
		}
	}

	// ---- post ----
	custom := []string{"a.alt", "", "f_f_i", strings.Repeat("n", 255), ".notdef2", "Space", "\xff\x00\x80"}
	postList := func(c *explore.Ctx) {
		n := c.Choose("glyphs", 5)
		if c.Thorough {
			n = c.Choose("glyphs2", 6)
		}
		names := []string{}
		alpha := append([]string{".notdef", "space", "dcroat", "A"}, custom...)
		var ix []int
		for i := 0; i < n; i++ {
			x := c.Choose("name", len(alpha))
			ix = append(ix, x)
			names = append(names, alpha[x])
		}
		hdr := 0
		if n < 3 {
			hdr = c.Choose("header", 4)
		}
		c.Exec()
		c.ObsStr(fmt.Sprint(ix, hdr))
		info := &post.Info{Names: names}
		switch hdr {
		case 1:
			info.ItalicAngle, info.IsFixedPitch = -12.5, true
		case 2:
			info.UnderlinePosition, info.UnderlineThickness = -32768, 32767
		case 3:
			info.Names = nil
			info.UnderlinePosition, info.ItalicAngle = funit.Int16(-100), 32767.5
		}
		checkPost(c, info, n <= 3)
	}
	postStd := func(c *explore.Ctx) {
		n := c.Choose("length", 262)
		edit := c.Choose("edit", 5)
		pos := 0
		if edit > 0 {
			if n < 2 {
				c.Skip()
			}
			if edit < 4 && !c.Thorough {
				pos = explore.Pick(c, "pos", []int{0, n / 2, n - 1})
			} else {
				pos = c.Choose("posall", n)
			}
		}
		c.Exec()
		c.ObsStr(fmt.Sprint(n, edit, pos))
		var names []string
		names = []string{}
		for i := 0; i < n; i++ {
			if i < 258 {
				names = append(names, macGlyphNames[i])
			} else {
				names = append(names, fmt.Sprintf("extra%d", i))
			}
		}
		switch edit {
		case 1:
			names[pos] = "custom"
		case 2:
			names[pos], names[(pos+1)%n] = names[(pos+1)%n], names[pos]
		case 3:
			names[pos] = ""
		case 4:
			names = append(names[:pos], names[pos+1:]...)
		}
		checkPost(c, &post.Info{Names: names}, false)
	}
	postBig := func(c *explore.Ctx) {
		n := explore.Pick(c, "glyphs", []int{300, 1000, 32767, 32768, 65278, 65279, 65535})
		kind := c.Choose("kind", 4)
		c.Exec()
		c.ObsStr(fmt.Sprint(n, kind))
		names := make([]string, n)
		for i := range names {
			switch kind {
			case 0:
				names[i] = fmt.Sprintf("g%05d", i)
				if i >= 65278 {
					names[i] = macGlyphNames[i-65278]
				}
			case 1:
				names[i] = macGlyphNames[i%258]
			case 2:
				names[i] = fmt.Sprintf("same%d", i%7)
			case 3:
				names[i] = macGlyphNames[(i/2)%258]
				if i%2 == 0 {
					names[i] = fmt.Sprintf("x%d", i)
				}
			}
		}
		checkPost(c, &post.Info{Names: names}, false)
	}
	// hand-made format 2 files: shared, unordered and unused strings
	postFile := func(c *explore.Ctx) {
		ns := c.Choose("strings", 4)
		n := c.Choose("glyphs", 5)
		var idx []int
		for i := 0; i < n; i++ {
			x := c.Choose("index", 3+ns)
			idx = append(idx, []int{0, 3, 257, 258, 259, 260, 261}[x])
		}
		c.Exec()
		c.ObsStr(fmt.Sprint(ns, idx))
		strs := []string{"one", "", "three333"}[:min(ns, 3)]
		if ns > len(strs) {
			ns = len(strs)
		}
		b := cat(be32(0x00020000), make([]byte, 28), be16(n), be16(idx...))
		for _, s := range strs {
			b = append(append(b, byte(len(s))), s...)
		}
		var want []string
		ok := true
		for _, x := range idx {
			if x < 258 {
				want = append(want, macGlyphNames[x])
			} else if x-258 < len(strs) {
				want = append(want, strs[x-258])
			} else {
				ok = false
			}
		}
		info, err := post.Read(bytes.NewReader(b))
		if (err == nil) != ok {
			c.Fail("c14:post-file", "valid %v but err=%v", ok, err)
		}
		if ok {
			if d := deepDiff(want, info.Names); d != "" {
				c.Fail("c14:post-file", "%s", d)
			}
		}
	}

	// ---- script and language tags ----
	// one file per (script, language) pair and one file with everything a script can have
	tagPairs := func(c *explore.Ctx) {
		si := c.Choose("script", len(refOtScripts))
		li := c.Choose("lang", len(refOtLangs)+1)
		c.Exec()
		script, lang := refOtScripts[si][0], ""
		if li > 0 {
			lang = refOtLangs[li-1][0]
		}
		c.ObsStr(script + lang)
		ls := []refLangSys{{script, lang, 0xFFFF, "[0]"}}
		checkScripts(c, ls, [][]int{{0}}, 1, true)
	}
	tagFile := func(c *explore.Ctx) {
		si := c.Choose("script", len(refOtScripts))
		c.Exec()
		var ls []refLangSys
		var opts [][]int
		for li := 0; li <= len(refOtLangs); li++ {
			lang := ""
			if li > 0 {
				lang = refOtLangs[li-1][0]
			}
			opts = append(opts, []int{li, (li * 7) % 600})
			ls = append(ls, refLangSys{refOtScripts[si][0], lang, (li * 3) % 600, fmt.Sprint(opts[li])})
		}
		c.ObsStr(refOtScripts[si][0])
		checkScripts(c, ls, opts, 622, false)
	}
	tagLang := func(c *explore.Ctx) {
		li := c.Choose("lang", len(refOtLangs)+1)
		c.Exec()
		var ls []refLangSys
		var opts [][]int
		lang := ""
		if li > 0 {
			lang = refOtLangs[li-1][0]
		}
		c.ObsStr(lang)
		for si := range refOtScripts {
			opts = append(opts, []int{si})
			ls = append(ls, refLangSys{refOtScripts[si][0], lang, 0xFFFF, fmt.Sprint(opts[si])})
		}
		checkScripts(c, ls, opts, len(refOtScripts), false)
	}

	run.Register(&run.Property{ID: "C14", Level: "model_checking",
		Rule: "name, post and script-list tables are enumerated over languages, name ids, code points, string shapes, glyph-name lists and all OpenType script/language pairs; each is encoded and decoded by the library and, independently, by a specification reader, by x/text (Mac Roman) and by x/image (names, glyph names)",
		Assumptions: []string{"name tables whose string storage exceeds the format's 64 KiB offsets and post tables with more than 65278 distinct custom names are not representable and not generated"},
		Drivers: []run.Driver{
			{Name: "mac-roman", Run: macD, Bounds: "all byte pairs; all Unicode code points"},
			{Name: "utf16-encode", Run: utfD, Weight: 2, Bounds: "all Unicode code points in 3 contexts"},
			{Name: "utf16-decode", Run: utfDec, Bounds: "all 16-bit words after each of 10 boundary words"},
			{Name: "languages", Run: langD, Weight: 2, Bounds: "all language ids of both platforms x 11 name ids x 6 strings"},
			{Name: "name-ids", Run: idD, Bounds: "all 65536 name ids on one or both platforms"},
			{Name: "multi", Run: multiD, Dev: 1, DevThorough: 3, Weight: 2, Bounds: "all subsets of 5 language slots in 3 fillings; string deviations; windows encodings 0, 1, 10"},
			{Name: "long", Run: longD, Bounds: "strings of up to 32767 UTF-16 units"},
			{Name: "files", Run: fileD, Bounds: "all subsets of 12 records of understood and foreign platforms, encodings, languages; version 0 and 1"},
			{Name: "ximage-names", Run: ximD, Bounds: "26 ids x 2 platforms x 4 strings, read by x/image"},
			{Name: "choose", Run: chooseD, Bounds: "all subsets of 9 languages"},
			{Name: "post-lists", Run: postList, Weight: 2, Bounds: "all lists of up to 4 (thorough 5) names over 11 standard and custom names"},
			{Name: "post-standard", Run: postStd, Weight: 1, Bounds: "all prefixes of the standard order (0..261 names) with one replaced, swapped, emptied or removed name"},
			{Name: "post-big", Run: postBig, Bounds: "up to 65535 glyphs, 4 kinds of name lists"},
			{Name: "post-files", Run: postFile, Bounds: "all format 2 files with up to 4 glyphs over 7 indices and up to 3 strings"},
			{Name: "tag-pairs", Run: tagPairs, Weight: 3, Bounds: "every script x every language (and default) of the tag tables, one file each"},
			{Name: "tag-scripts", Run: tagFile, Weight: 1, Bounds: "one file per script with all languages"},
			{Name: "tag-languages", Run: tagLang, Weight: 1, Bounds: "one file per language with all scripts"},
		},
	})
}

// checkScripts reads a hand-made table with the given language systems, checks
// that they arrive under sensible tags and that writing gives them back.
func checkScripts(c *explore.Ctx, ls []refLangSys, opts [][]int, nf int, single bool) {
	data := makeScriptGsub(ls, opts, nf)
	want := map[string]refLangSys{}
	for _, l := range ls {
		want[l.script+l.lang] = l
	}
	info, err := gtab.Read(bytes.NewReader(data), gtab.TypeGsub)
	if err != nil {
		c.Fail("c14:tags-read", "%v", err)
	}
	if len(info.ScriptList) != len(ls) {
		if single {
			c.Fail("c14:tags-lost", "script %q language %q is not read", ls[0].script, ls[0].lang)
		}
		c.Fail("c14:tags-lost", "%d of %d script/language pairs read", len(info.ScriptList), len(ls))
	}
	if single {
		for tag := range info.ScriptList {
			if p, err := language.Parse(tag.String()); err != nil || p != tag {
				c.Fail("c14:tags-invalid", "script %q language %q gives tag %q: %v", ls[0].script, ls[0].lang, tag, err)
			}
			checkTagMeaning(c, tag, ls[0])
		}
	}
	out := info.Encode()
	got, err := refScriptList(out)
	if err != nil {
		c.Fail("c14:tags-malformed", "%v", err)
	}
	if len(got) != len(ls) {
		c.Fail("c14:tags-lost", "%d of %d script/language pairs written", len(got), len(ls))
	}
	for _, g := range got {
		if w, ok := want[g.script+g.lang]; !ok || w != g {
			c.Fail("c14:tags-roundtrip", "%v written, want %v", g, w)
		}
	}
	if !bytes.Equal(out, info.Encode()) {
		c.Fail("c14:tags-nondeterministic", "two encodings differ")
	}
	info2, err := gtab.Read(bytes.NewReader(out), gtab.TypeGsub)
	if err != nil {
		c.Fail("c14:tags-reread", "%v", err)
	}
	if d := deepDiff(info.ScriptList, info2.ScriptList); d != "" {
		c.Fail("c14:tags-reread", "%s", d)
	}
}

var refScriptOf = map[string]string{}
var refLangOf = map[string]string{}

func init() {
	for _, p := range refOtScripts {
		refScriptOf[p[0]] = p[1]
	}
	for _, p := range refOtLangs {
		refLangOf[p[0]] = p[1]
	}
}

// checkTagMeaning: the tag must name the language and the script it stands for.
func checkTagMeaning(c *explore.Ctx, tag language.Tag, l refLangSys) {
	base, script, _ := tag.Raw()
	wantLang := "und"
	if l.lang != "" {
		wantLang = refLangOf[l.lang]
	}
	w, err := language.Parse(wantLang)
	if err != nil {
		return
	}
	wb, ws, _ := w.Raw()
	if base != wb {
		c.Fail("c14:tags-language", "script %q language %q gives tag %q, want language %s", l.script, l.lang, tag, wb)
	}
	wantScript := refScriptOf[l.script]
	if ws.String() != "Zzzz" {
		wantScript = ws.String()
	}
	if script.String() != wantScript && script.String() != "Zzzz" {
		c.Fail("c14:tags-script", "script %q language %q gives tag %q, want script %s", l.script, l.lang, tag, wantScript)
	}
}
