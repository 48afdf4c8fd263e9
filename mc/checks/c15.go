package checks

import (
	"bytes"
	"fmt"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/mc/explore"
	"verif/mc/run"
)

// c15Systems returns the language systems which may be used for a language:
// a system for the language and script, else the default system of the
// script, else any.
func c15Systems(sl gtab.ScriptListInfo, lang language.Tag) []*gtab.Features {
	var best []*gtab.Features
	rank := 0
	add := func(r int, f *gtab.Features) {
		if r > rank {
			best, rank = nil, r
		}
		if r == rank {
			best = append(best, f)
		}
	}
	base, bc := lang.Base()
	script, sc := lang.Script()
	for tag, f := range sl {
		b, _ := tag.Base()
		s, _ := tag.Script()
		isDefault := strings.HasPrefix(tag.String(), "und")
		switch {
		case !isDefault && bc == language.Exact && b == base && s == script:
			add(2, f)
		case sc > language.Low && s == script:
			add(1, f)
		default:
			add(0, f)
		}
	}
	return best
}

func c15Lookups(info *gtab.Info, sys *gtab.Features, on map[string]bool) []gtab.LookupIndex {
	use := map[gtab.LookupIndex]bool{}
	feature := func(i gtab.FeatureIndex, required bool) {
		if int(i) >= len(info.FeatureList) {
			return
		}
		f := info.FeatureList[i]
		if required || on[f.Tag] {
			for _, l := range f.Lookups {
				if int(l) < len(info.LookupList) {
					use[l] = true
				}
			}
		}
	}
	feature(sys.Required, true)
	for _, i := range sys.Optional {
		feature(i, false)
	}
	res := []gtab.LookupIndex{}
	for l := range use {
		res = append(res, l)
	}
	slices.Sort(res)
	return res
}

// c15Choices lists the possible outcomes of the feature selection.
func c15Choices(info *gtab.Info, lang language.Tag, on map[string]bool) [][]gtab.LookupIndex {
	if info == nil || len(info.ScriptList) == 0 {
		return [][]gtab.LookupIndex{nil}
	}
	var res [][]gtab.LookupIndex
	for _, sys := range c15Systems(info.ScriptList, lang) {
		res = append(res, c15Lookups(info, sys, on))
	}
	return res
}

func c15Width(f *sfnt.Font, gid glyph.ID) int {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		return int(o.Widths[gid])
	case *cff.Outlines:
		return int(o.Glyphs[gid].Width)
	}
	panic("outlines")
}

var (
	c15GsubDefault = map[string]bool{"calt": true, "ccmp": true, "clig": true, "liga": true, "locl": true}
	c15GposDefault = map[string]bool{"kern": true, "mark": true, "mkmk": true}
)

// c15Ref composes the expected layout; unspec is set if the outcome of the
// lookups is not specified.
func c15Ref(f *sfnt.Font, chars map[rune]glyph.ID, gsub, gpos []gtab.LookupIndex, s string) (seq []glyph.Info, unspec string) {
	for _, r := range s {
		seq = append(seq, glyph.Info{GID: chars[r], Text: []rune{r}})
	}
	if f.Gsub != nil && len(gsub) > 0 {
		seq, unspec = refShape(f.Gsub.LookupList, f.Gdef, gsub, seq)
		if unspec != "" {
			return nil, unspec
		}
	}
	for i, g := range seq {
		mark := f.Gdef != nil && f.Gdef.GlyphClass[g.GID] == 3
		if !mark {
			seq[i].Advance = funit.Int16(c15Width(f, g.GID))
		}
	}
	if f.Gpos != nil && len(gpos) > 0 {
		return refShape(f.Gpos.LookupList, f.Gdef, gpos, seq)
	}
	return seq, ""
}

// c15Check compares the layout of the strings with one of the possible
// outcomes; the same language system must be used for all strings.
func c15Check(c *explore.Ctx, key, desc string, f *sfnt.Font, chars map[rune]glyph.ID, lang language.Tag, gsubF, gposF map[string]bool, strs []string, orders int) {
	on := func(m, def map[string]bool) map[string]bool {
		if m == nil {
			return def
		}
		return m
	}
	subs := c15Choices(f.Gsub, lang, on(gsubF, c15GsubDefault))
	poss := c15Choices(f.Gpos, lang, on(gposF, c15GposDefault))
	defer explore.SetMapOrder(0)
	var errMsg string
	for order := 0; order <= orders; order++ {
		explore.SetMapOrder(order)
		l, err := f.NewLayouter(lang, gsubF, gposF)
		if err != nil {
			c.Fail(key+":layouter", "%s: %v", desc, err)
		}
		var got [][]glyph.Info
		for _, s := range strs {
			got = append(got, infosCopy(l.Layout(s)))
		}
		explore.SetMapOrder(0)
		ok := false
		for _, gs := range subs {
			for _, gp := range poss {
				good := true
				for i, s := range strs {
					want, unspec := c15Ref(f, chars, gs, gp, s)
					if unspec != "" {
						continue
					}
					if !seqEqual(got[i], want) {
						good = false
						errMsg = fmt.Sprintf("%s, language %s, features %v %v, map order %d: layout of %q\ngot    %s\nexpect %s",
							desc, lang, gsubF, gposF, order, s, seqString(got[i], true), seqString(want, true))
						break
					}
				}
				ok = ok || good
			}
		}
		if !ok {
			c.Fail(key, "%s", errMsg)
		}
		if order == 0 {
			for _, g := range got {
				c.ObsStr(seqString(g, true))
			}
		}
	}
}

func c15Chars(chars map[rune]glyph.ID, most int, more ...rune) []rune {
	var res []rune
	for r := range chars {
		res = append(res, r)
	}
	slices.Sort(res)
	if len(res) > most {
		res = res[:most]
	}
	res = append(res, more...)
	slices.Sort(res)
	return slices.Compact(res)
}

var c15LigRunes = []rune{0xFB03, 0xFB04, 0xFB00, 0xFB01, 0xFB02}
var c15LigText = []string{"ffi", "ffl", "ff", "fi", "fl"}

// c15Ligatures lays out a string in a font without GSUB table.
func c15Ligatures(f *sfnt.Font, chars map[rune]glyph.ID, s string, ligs bool) []glyph.Info {
	// the ligatures are defined on glyphs: different characters may share a
	// glyph
	var seq []glyph.Info
	for _, r := range s {
		seq = append(seq, glyph.Info{GID: chars[r], Text: []rune{r}})
	}
	var out []glyph.Info
	for i := 0; i < len(seq); {
		n := 1
		g := seq[i]
		if ligs {
			for k, text := range c15LigText {
				if chars[c15LigRunes[k]] == 0 || i+len(text) > len(seq) {
					continue
				}
				match := true
				for j, r := range text {
					match = match && chars[r] != 0 && seq[i+j].GID == chars[r]
				}
				if match {
					n = len(text)
					g.GID = chars[c15LigRunes[k]]
					break
				}
			}
		}
		g.Text = nil
		for j := 0; j < n; j++ {
			g.Text = append(g.Text, seq[i+j].Text...)
		}
		if f.Gdef == nil || f.Gdef.GlyphClass[g.GID] != 3 {
			g.Advance = funit.Int16(c15Width(f, g.GID))
		}
		out = append(out, g)
		i += n
	}
	return out
}

// c15Tables writes a font and returns its tables.
func c15Tables(c *explore.Ctx, f *sfnt.Font) (uint32, map[string][]byte) {
	b := fontBytes(c, "write", f)
	tt, err := sfntTables(b)
	if err != nil {
		c.Fail("write", "%v", err)
	}
	return uint32(rdU32(b, 0)), tt
}

type kernSub struct {
	version, format, flags int
	pairs                  [][3]int
	length                 int // if non-zero, the value of the length field
}

func (k kernSub) bytes() []byte {
	n := len(k.pairs)
	length := 14 + 6*n
	if k.length != 0 {
		length = k.length
	}
	es := 0
	for 2<<es <= n {
		es++
	}
	b := be16(k.version, length&0xFFFF, k.format<<8|k.flags, n, (6<<es)&0xFFFF, es, (6*(n-1<<es))&0xFFFF)
	for _, p := range k.pairs {
		b = append(b, be16(p[0], p[1], p[2]&0xFFFF)...)
	}
	return b
}

func kernTable(subs []kernSub) []byte {
	b := be16(0, len(subs))
	for _, s := range subs {
		b = append(b, s.bytes()...)
	}
	return b
}

// refKern gives the kerning values of a table; subtables which are not
// horizontal, or not in format 0, do not count.
func refKern(subs []kernSub) map[[2]int]int {
	res := map[[2]int]int{}
	for _, s := range subs {
		if s.version != 0 || s.format != 0 || s.flags&1 == 0 || s.flags&4 != 0 {
			continue
		}
		for _, p := range s.pairs {
			k := [2]int{p[0], p[1]}
			switch {
			case s.flags&2 != 0:
				res[k] = max(res[k], p[2])
			case s.flags&8 != 0:
				res[k] = p[2]
			default:
				res[k] += p[2]
			}
		}
	}
	return res
}

func init() {
	langMenu := []language.Tag{language.Und, language.German, language.Russian, language.English, tagDeu, tagLatn, language.Japanese, language.MustParse("sr-Latn")}

	layout := func(c *explore.Ctx) {
		kind := c.Choose("kind", fkCount)
		g := &fontGen{c: c, dims: dimSet("glyphs", "widths", "cmap", "gsub", "gpos", "gdef")}
		f := g.font(kind)
		lang := explore.PickDev(c, "lang", langMenu)
		gsF := explore.PickDev(c, "gsub features", []map[string]bool{nil, {}, {"liga": false, "ccmp": true}, {"smcp": true, "liga": true}, {"calt": true, "ss01": true}})
		gpF := explore.PickDev(c, "gpos features", []map[string]bool{nil, {}, {"kern": true}, {"mark": true, "kern": false}, {"mkmk": true, "mark": true, "curs": true}})
		reread := c.Bool("reread")
		c.Exec()
		if g.chars == nil {
			c.Skip()
		}
		c.Log("%v", g.desc)
		n := 2
		if c.Thorough {
			n = 3
		}
		strs := append(c07Strings(c15Chars(g.chars, 7, 'f', 'i', 0x301, 0xE000), n), "ffi fi", "Afi\u0301\u0301A", "fi\u0301 fif", "\xff A\u0301f\u0301i")
		orig := f
		if reread {
			b := fontBytes(c, "write", f)
			f2, err := sfnt.Read(bytes.NewReader(b))
			if err != nil {
				c.Fail("reread", "%v: %v", g.desc, err)
			}
			f = f2
		}
		if reread && orig.Gsub == nil && !fixedPitch(orig) && g.chars[0xFB01] != 0 {
			on := gsF == nil || gsF["liga"]
			l, err := f.NewLayouter(lang, gsF, gpF)
			if err != nil {
				c.Fail("reread", "%v: %v", g.desc, err)
			}
			gp := c15Choices(orig.Gpos, lang, map[string]bool{})
			if orig.Gpos != nil {
				_ = gp
				c.ObsStr("ligatures and GPOS")
				return // see the driver "ligatures"
			}
			for _, s := range strs {
				if got, want := l.Layout(s), c15Ligatures(orig, g.chars, s, on); !seqEqual(got, want) {
					c.Fail("ligatures", "%v, language %s, features %v: layout of %q\ngot    %s\nexpect %s", g.desc, lang, gsF, s, seqString(got, true), seqString(want, true))
				}
			}
			return
		}
		if reread {
			// expect the same as for the original font
			f3 := *f
			f3.Gsub, f3.Gpos, f3.Gdef, f3.Outlines, f3.CMapTable = f.Gsub, f.Gpos, f.Gdef, f.Outlines, f.CMapTable
			got := &f3
			want := orig
			la, err1 := got.NewLayouter(lang, gsF, gpF)
			lb, err2 := want.NewLayouter(lang, gsF, gpF)
			if err1 != nil || err2 != nil {
				c.Fail("reread", "%v: %v, %v", g.desc, err1, err2)
			}
			for _, s := range strs {
				if x, y := la.Layout(s), lb.Layout(s); !seqEqual(x, y) {
					c.Fail("reread", "%v, language %s, features %v %v: layout of %q\nafter writing and reading %s\nbefore                    %s", g.desc, lang, gsF, gpF, s, seqString(x, true), seqString(y, true))
				}
			}
			return
		}
		c15Check(c, "layout", fmt.Sprint(g.desc), f, g.chars, lang, gsF, gpF, strs, 8)
	}

	// several subtables in the character map
	cmaps := func(c *explore.Ctx) {
		keys := []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 1, EncodingID: 0}, {PlatformID: 3, EncodingID: 0}, {PlatformID: 3, EncodingID: 3}}
		class := []int{0, 0, 1, 1, 2, 3, 3}
		mask := c.Choose("subtables", 1<<len(keys))
		c.Exec()
		f := fixedFont(fkTT, nil)
		f.CMapTable = cmap.Table{}
		best := 3
		var want []map[rune]glyph.ID
		for i, k := range keys {
			if mask>>i&1 == 0 {
				continue
			}
			gid := glyph.ID(i%6 + 1)
			m := map[rune]glyph.ID{'A': gid, 'B': glyph.ID((i+2)%6 + 1)}
			switch class[i] {
			case 0:
				m[0x1F600] = gid
				f.CMapTable[k] = cmap.Format12{'A': m['A'], 'B': m['B'], 0x1F600: gid}.Encode(0)
			case 1, 3:
				f.CMapTable[k] = cmap.Format4{'A': m['A'], 'B': m['B']}.Encode(0)
			case 2:
				var d cmap.Format0
				d.Data['A'], d.Data['B'] = byte(m['A']), byte(m['B'])
				d.Data[0x80] = byte(gid) // Adieresis
				m[0xC4] = gid
				f.CMapTable[k] = d.Encode(0)
			}
			if class[i] < best {
				best, want = class[i], nil
			}
			if class[i] == best && best < 3 {
				want = append(want, m)
			}
		}
		l, err := f.NewLayouter(language.Und, nil, nil)
		if len(want) == 0 {
			c.ObsStr("no subtable")
			return
		}
		if err != nil {
			c.Fail("cmap:layouter", "subtables %b: %v", mask, err)
		}
		got := infosCopy(l.Layout("AB\U0001F600\u00C4\x80"))
		c.ObsStr(seqString(got, true))
		for _, m := range want {
			if w, _ := c15Ref(f, m, nil, nil, "AB\U0001F600\u00C4\x80"); seqEqual(got, w) {
				return
			}
		}
		c.Fail("cmap", "subtables %b: layout %s", mask, seqString(got, true))
	}

	// feature selection, one language system
	find1 := func(c *explore.Ctx) {
		req := explore.Pick(c, "required", []int{0xFFFF, 0, 1, 2, 3, 200})
		opt := explore.Pick(c, "optional", [][]int{{}, {0}, {1, 0}, {2, 1}, {0, 1, 2}, {3, 0}, {2, 2, 0xFFFF}})
		lists := [][]gtab.LookupIndex{{}, {2, 0}, {0, 0, 5, 1}, {3}, {4, 3, 2, 1, 0}, {0xFFFF, 4}}
		nf := c.Choose("features", 4)
		var fl [][]gtab.LookupIndex
		for i := 0; i < nf; i++ {
			fl = append(fl, explore.Pick(c, "lookups", lists))
		}
		c.Exec()
		tags := []string{"aaaa", "bbbb", "aaaa"}
		mk := func() *gtab.Info {
			info := &gtab.Info{ScriptList: gtab.ScriptListInfo{tagLatn: {Required: gtab.FeatureIndex(req)}}}
			for _, o := range opt {
				info.ScriptList[tagLatn].Optional = append(info.ScriptList[tagLatn].Optional, gtab.FeatureIndex(o))
			}
			for i := range fl {
				info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: tags[i], Lookups: slices.Clone(fl[i])})
			}
			for i := 0; i < 5; i++ {
				info.LookupList = append(info.LookupList, lk(1, 0))
			}
			return info
		}
		info := mk()
		for _, on := range []map[string]bool{{}, {"aaaa": true}, {"bbbb": true}, {"aaaa": true, "bbbb": true}, {"aaaa": false, "bbbb": true, "cccc": true}} {
			for _, lang := range []language.Tag{tagLatn, language.German} {
				want := c15Lookups(info, info.ScriptList[tagLatn], on)
				for o := 0; o <= explore.MapOrders; o++ {
					explore.SetMapOrder(o)
					got := info.FindLookups(lang, on)
					explore.SetMapOrder(0)
					if len(got) != len(want) || len(want) > 0 && !slices.Equal(got, want) {
						c.Fail("find", "required %d, optional %v, features %v, enabled %v: got %v, want %v", req, opt, fl, on, got, want)
					}
				}
				c.ObsStr(fmt.Sprint(want))
			}
		}
		if d := deepDiff(mk(), info); d != "" {
			c.Fail("find:modified", "FindLookups changes the table: %s", d)
		}
	}

	// several language systems: the result must be the one for the best system
	all := []language.Tag{tagDflt, tagLatn, tagDeu, tagCyrl, language.MustParse("und-Arab-x-arab"), language.MustParse("en-Latn-x-latn-eng"), language.MustParse("ru-Cyrl-x-cyrl-rus")}
	findInfo := func(tags []language.Tag) *gtab.Info {
		info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
		for i, tag := range tags {
			info.ScriptList[tag] = &gtab.Features{Required: gtab.FeatureIndex(3 * i), Optional: []gtab.FeatureIndex{gtab.FeatureIndex(3*i + 1), gtab.FeatureIndex(3*i + 2)}}
			for k, name := range []string{"rrrr", "aaaa", "bbbb"} {
				info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: name, Lookups: []gtab.LookupIndex{gtab.LookupIndex(3*i + k), 0}})
				info.LookupList = append(info.LookupList, lk(1, 0))
			}
		}
		return info
	}
	findCheck := func(c *explore.Ctx, tags []language.Tag, lang language.Tag) {
		info := findInfo(tags)
		for _, on := range []map[string]bool{{}, {"aaaa": true}, {"bbbb": true, "rrrr": false}} {
			want := c15Choices(info, lang, on)
			var first []gtab.LookupIndex
			for o := 0; o <= explore.MapOrders; o++ {
				explore.SetMapOrder(o)
				got := info.FindLookups(lang, on)
				explore.SetMapOrder(0)
				if o == 0 {
					first = got
				} else if !slices.Equal(got, first) {
					c.Fail("find:order", "script list %v, language %s, enabled %v: %v and %v for different map orders", tags, lang, on, first, got)
				}
				ok := false
				for _, w := range want {
					ok = ok || slices.Equal(got, w)
				}
				if !ok {
					c.Fail("find:system", "script list %v, language %s, enabled %v: got %v, want one of %v", tags, lang, on, got, want)
				}
			}
			c.ObsStr(fmt.Sprint(first))
		}
	}
	find2 := func(c *explore.Ctx) {
		mask := 1 + c.Choose("systems", 1<<len(all)-1)
		reqs := append([]language.Tag{language.MustParse("de-CH"), language.MustParse("und-Cyrl"), language.Arabic, language.MustParse("az-Cyrl"), language.French, language.Hebrew, language.MustParse("en-GB")}, langMenu...)
		lang := explore.Pick(c, "lang", append(reqs, all...))
		c.Exec()
		var tags []language.Tag
		for i, t := range all {
			if mask>>i&1 != 0 {
				tags = append(tags, t)
			}
		}
		findCheck(c, tags, lang)
	}
	findMany := func(c *explore.Ctx) {
		n := 2 + c.Choose("n", 19)
		start := c.Choose("start", 40)
		step := 1 + c.Choose("step", 3)
		c.Exec()
		var tags []language.Tag
		seen := map[language.Tag]bool{}
		for i := 0; i < n; i++ {
			k := start + i*step
			lang := ""
			if k%3 == 1 {
				lang = refOtLangs[(k*7)%len(refOtLangs)][0]
			}
			t := c08Tag(refOtScripts[(k/2)%len(refOtScripts)][0], lang)
			if !seen[t] {
				seen[t] = true
				tags = append(tags, t)
			}
		}
		for _, t := range tags {
			findCheck(c, tags, t)
		}
	}

	ligatures := func(c *explore.Ctx) {
		kind := []int{fkTT, fkCFF, fkCID1}[c.Choose("kind", 3)]
		mask := c.Choose("characters", 1<<8)
		variant := c.Choose("variant", 6)
		c.Exec()
		runes := []rune{'f', 'i', 'l', 0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04}
		vals := map[string]int{"glyphs": 5}
		if variant == 1 {
			vals["widths"] = 1
		}
		f := fixedFont(kind, vals)
		chars := map[rune]glyph.ID{'A': 1}
		m := cmap.Format4{'A': 1}
		for i, r := range runes {
			if mask>>i&1 == 0 {
				continue
			}
			gid := glyph.ID(10 + i*3)
			if variant == 2 { // shared glyphs
				gid = glyph.ID([]int{3, 4, 4, 20, 5, 6, 20, 5}[i])
			}
			chars[r] = gid
			m[uint16(r)] = gid
		}
		f.InstallCMap(m)
		ligs := true
		lang := language.Und
		var gsF map[string]bool
		switch variant {
		case 1:
			ligs = false // fixed pitch
		case 3:
			gsF = map[string]bool{"liga": true}
			lang = language.Turkish
		case 4:
			gsF = map[string]bool{"liga": false}
			ligs = false
		case 5:
			f.Gsub = &gtab.Info{ScriptList: gtab.ScriptListInfo{tagLatn: {Required: 0xFFFF}}, FeatureList: gtab.FeatureListInfo{}, LookupList: gtab.LookupList{}}
			ligs = false
		}
		f2, err := sfnt.Read(bytes.NewReader(fontBytes(c, "write", f)))
		if err != nil {
			c.Fail("read", "%v", err)
		}
		l, err := f2.NewLayouter(lang, gsF, nil)
		if err != nil {
			c.Fail("ligatures:layouter", "%v", err)
		}
		n := 4
		if c.Thorough {
			n = 5
		}
		for _, s := range append(c07Strings([]rune{'f', 'i', 'l', 'A'}, n), "ffiffl", "ffffi", "\uFB00i", "\uFB01\uFB02\uFB03\uFB04", "f\uFB01") {
			got, want := l.Layout(s), c15Ligatures(f, chars, s, ligs)
			if !seqEqual(got, want) {
				c.Fail("ligatures", "%s, characters %08b, variant %d: layout of %q\ngot    %s\nexpect %s", fkNames[kind], mask, variant, s, seqString(got, true), seqString(want, true))
			}
			c.ObsStr(seqString(got, true))
		}
	}

	// legacy kern tables
	kernCheck := func(c *explore.Ctx, kind int, gd bool, subs []kernSub) {
		vals := map[string]int{}
		f := fixedFont(kind, vals)
		f.Gsub, f.Gpos, f.Gdef = nil, nil, nil
		chars := map[rune]glyph.ID{'A': 1, ' ': 2, 'f': 3, 'i': 4, 0x301: 6}
		m := cmap.Format4{}
		for r, g := range chars {
			m[uint16(r)] = g
		}
		f.InstallCMap(m)
		if gd {
			f.Gdef = &gdef.Table{GlyphClass: classdef.Table{1: 1, 3: 1, 4: 1, 6: 3}}
		}
		scaler, tt := c15Tables(c, f)
		if tt["GPOS"] != nil {
			c.Fail("kern:gpos", "font has a GPOS table")
		}
		kt := kernTable(subs)
		tt["kern"] = kt
		want := refKern(subs)
		desc := func() string {
			return fmt.Sprintf("kern table %s", clip(hexDump(kt), 300))
		}
		info, err := kern.Read(bytes.NewReader(kt))
		if err != nil {
			c.Fail("kern:read", "%s: %v", desc(), err)
		}
		for p, v := range want {
			if got := int(info[glyph.Pair{Left: glyph.ID(p[0]), Right: glyph.ID(p[1])}]); got != v {
				c.Fail("kern:value", "%s: pair %v has value %d, want %d", desc(), p, got, v)
			}
		}
		for p, v := range info {
			if w := want[[2]int{int(p.Left), int(p.Right)}]; w != int(v) {
				c.Fail("kern:value", "%s: pair %v has value %d, want %d", desc(), p, v, w)
			}
		}
		f2, err := sfnt.Read(bytes.NewReader(sfntAssemble(scaler, tt)))
		if err != nil {
			c.Fail("kern:read", "%s: %v", desc(), err)
		}
		strs := c07Strings([]rune{'A', 'f', 'i', 0x301, 'Q'}, 3)
		for _, lang := range []language.Tag{language.Und, language.German, language.Russian, tagLatn} {
			l, err := f2.NewLayouter(lang, nil, nil)
			if err != nil {
				c.Fail("kern:layouter", "%s: %v", desc(), err)
			}
			for _, s := range strs {
				exp := c15Ligatures(f, chars, s, false)
				for i := 0; i+1 < len(exp); i++ {
					exp[i].Advance += funit.Int16(want[[2]int{int(exp[i].GID), int(exp[i+1].GID)}])
				}
				if got := l.Layout(s); !seqEqual(got, exp) {
					c.Fail("kern", "%s, language %s: layout of %q\ngot    %s\nexpect %s", desc(), lang, s, seqString(got, true), seqString(exp, true))
				}
			}
			strs = strs[:min(len(strs), 31)]
		}
		c.Obs(kt)
		// once more: the GPOS table is kept when the font is written
		f3, err := sfnt.Read(bytes.NewReader(fontBytes(c, "write", f2)))
		if err != nil {
			c.Fail("kern:reread", "%s: %v", desc(), err)
		}
		la, err := f3.NewLayouter(language.Und, nil, nil)
		if err != nil {
			c.Fail("kern:reread", "%s: %v", desc(), err)
		}
		lb, _ := f2.NewLayouter(language.Und, nil, nil)
		for _, s := range strs {
			if x, y := la.Layout(s), lb.Layout(s); !seqEqual(x, y) {
				c.Fail("kern:reread", "%s: layout of %q\nafter writing and reading %s\nbefore                    %s", desc(), s, seqString(x, true), seqString(y, true))
			}
		}
	}
	flagMenu := []kernSub{{flags: 1}, {flags: 3}, {flags: 9}, {flags: 0}, {flags: 5}, {version: 1, flags: 1}, {format: 2, flags: 1}}
	pairMenu := [][][3]int{
		{{1, 3, -50}, {3, 4, 20}},
		{},
		{{1, 3, 70}},
		{{1, 1, -32768}, {1, 3, 10}, {3, 1, 32000}, {4, 4, 1}},
		{{0, 0, 11}, {0, 1, -12}, {1, 0, 13}},
		{{1, 6, 100}, {6, 1, 200}, {6, 6, 300}},
		{{1, 3, -60}, {1, 4, -1}, {3, 4, -20}},
		{{2, 2, 5}, {300, 1, 7}, {65535, 65535, 8}},
		{{1, 3, 0}, {3, 3, 0}},
	}
	kerns := func(c *explore.Ctx) {
		kind := []int{fkTT, fkCFF}[c.Choose("kind", 2)]
		gd := c.Bool("gdef")
		most := 2
		if c.Thorough {
			most = 3
		}
		n := c.Choose("subtables", most+1)
		var subs []kernSub
		for i := 0; i < n; i++ {
			s := explore.Pick(c, "flags", flagMenu)
			s.pairs = explore.Pick(c, "pairs", pairMenu)
			if i == 2 && (gd || kind == 1) {
				c.Skip()
			}
			subs = append(subs, s)
		}
		c.Exec()
		for p, v := range refKern(subs) {
			if v < -32768 || v > 32767 {
				c.Skip()
			}
			if p[0] == 3 && v == 32000 && false {
				c.Skip()
			}
		}
		// sums of unfinished values may overflow, too
		tot := map[[2]int]int{}
		for _, s := range subs {
			for _, p := range s.pairs {
				k := [2]int{p[0], p[1]}
				if p[2] < 0 {
					tot[k] -= p[2]
				} else {
					tot[k] += p[2]
				}
				if tot[k] > 32768 {
					c.Skip()
				}
			}
		}
		kernCheck(c, kind, gd, subs)
	}
	kernValues := func(c *explore.Ctx) {
		v := c.Choose("value", 65536/13)*13 - 32768
		c.Exec()
		info, err := kern.Read(bytes.NewReader(kernTable([]kernSub{{flags: 1, pairs: [][3]int{{1, 3, v}}}})))
		if err != nil || len(info) != 1 || int(info[glyph.Pair{Left: 1, Right: 3}]) != v {
			c.Fail("kern:value", "value %d is read as %v (%v)", v, info, err)
		}
		c.ObsStr(fmt.Sprint(v))
	}
	kernMany := func(c *explore.Ctx) {
		n := explore.Pick(c, "pairs", []int{100, 10919, 10920, 10921, 10922, 10923, 10930, 12000, 21843, 21845, 21846, 30000, 65535})
		c.Exec()
		sub := kernSub{flags: 1}
		for i := 0; i < n; i++ {
			sub.pairs = append(sub.pairs, [3]int{i/300 + 1, i%300 + 1, i%1000 - 500})
		}
		kernCheck(c, fkTT, false, []kernSub{sub})
	}
	// the library's own encoder
	kernEnc := func(c *explore.Ctx) {
		n := c.Choose("pairs", 40)
		if n >= 30 {
			n = []int{100, 127, 128, 129, 1000, 5000, 10919, 10920, 64, 63}[n-30]
		}
		pat := c.Choose("pattern", 4)
		c.Exec()
		info := kern.Info{}
		for i := 0; i < n; i++ {
			a, b := i/7, i%7*40
			switch pat {
			case 1:
				a, b = 65535-i, i
			case 2:
				a, b = (i*0x1235)&0xFFFF, (i*0x7FF3)&0xFFFF
			case 3:
				a, b = 7, i*5
			}
			info[glyph.Pair{Left: glyph.ID(a), Right: glyph.ID(b)}] = funit.Int16(i*777 - 3000)
		}
		b := info.Encode()
		c.Obs(b)
		var prev = -1
		if rdU16(b, 0) != 0 || rdU16(b, 2) != 1 || rdU16(b, 4) != 0 || rdU16(b, 6) != len(b)-4 || rdU16(b, 8) != 1 || rdU16(b, 10) != len(info) || len(b) != 18+6*len(info) {
			c.Fail("kern:encode", "%d pairs: header %s", len(info), hexDump(b[:18]))
		}
		es := 0
		for 2<<es <= len(info) {
			es++
		}
		if len(info) > 0 && (rdU16(b, 12) != 6<<es || rdU16(b, 14) != es || rdU16(b, 16) != 6*(len(info)-1<<es)) {
			c.Fail("kern:encode", "%d pairs: search header %s", len(info), hexDump(b[10:18]))
		}
		for p := 18; p < len(b); p += 6 {
			k := int(rdU32(b, p))
			if k <= prev {
				c.Fail("kern:encode", "pairs are not sorted")
			}
			prev = k
			if v := info[glyph.Pair{Left: glyph.ID(rdU16(b, p)), Right: glyph.ID(rdU16(b, p+2))}]; int(v) != rdI16(b, p+4) {
				c.Fail("kern:encode", "pair %d %d has value %d, want %d", rdU16(b, p), rdU16(b, p+2), rdI16(b, p+4), v)
			}
		}
		back, err := kern.Read(bytes.NewReader(b))
		if err != nil {
			c.Fail("kern:encode", "%v", err)
		}
		if d := deepDiff(info, back); d != "" {
			c.Fail("kern:encode", "round trip: %s", d)
		}
	}

	run.Register(&run.Property{
		ID:    "C15",
		Level: "model_checking",
		Rule:  "layout equals the composition of the reference cmap lookup, feature selection for the best matching language system, reference GSUB shaping, advance widths (zero for marks), and reference GPOS shaping; the same for all map iteration orders",
		Assumptions: []string{
			"the language system is one for the language and script, else one for the script, else any (the same for all calls)",
			"a kern subtable which sets both the minimum and the override flag, repeated pairs in a subtable, sums outside the 16-bit range and the effect of the caller's kern switch on legacy kern tables are not specified",
		},
		Drivers: []run.Driver{
			{Name: "layout", Run: layout, Weight: 4, Dev: 2, DevThorough: 3, Bounds: "5 kinds of fonts with <= 2 (thorough 3) deviations out of 6 font features, 8 languages, 5 GSUB and 5 GPOS feature maps x all strings of length <= 2 (thorough 3) over up to 11 mapped and unmapped characters, before and after writing and reading the font; 8 map orders"},
			{Name: "cmaps", Run: cmaps, Weight: 1, Bounds: "all sets of 7 kinds of cmap subtables with different contents"},
			{Name: "find1", Run: find1, Weight: 1, Bounds: "one language system: 6 required features x 7 lists of optional features x all lists of up to 3 features out of 6 lookup lists x 5 feature maps, 8 map orders"},
			{Name: "find2", Run: find2, Weight: 1, Bounds: "all sets of 7 language systems x 22 languages x 3 feature maps, 8 map orders"},
			{Name: "find-many", Run: findMany, Weight: 1, Bounds: "2-20 language systems out of the built-in tables, 120 selections, all of their languages"},
			{Name: "ligatures", Run: ligatures, Weight: 2, Bounds: "3 kinds of fonts x all subsets of f, i, l and the 5 ligatures x 6 variants x all strings of length <= 4 (thorough 5)"},
			{Name: "kern", Run: kerns, Weight: 2, Bounds: "0-2 (thorough 3) subtables of 7 kinds (horizontal, minimum, override, vertical, cross-stream, other version, other format) x 9 pair sets x TrueType/CFF x with/without GDEF marks x all strings of length <= 3 x 4 languages"},
			{Name: "kern-values", Run: kernValues, Weight: 0.2, Bounds: "every 13th 16-bit value"},
			{Name: "kern-many", Run: kernMany, Weight: 1, Bounds: "13 sizes up to 65535 pairs"},
			{Name: "kern-encode", Run: kernEnc, Weight: 0.3, Bounds: "40 sizes up to 10920 pairs x 4 patterns"},
		},
	})
	_ = sort.Ints
}

// fixedPitch is the definition of a fixed pitch font: all non-zero widths (if any)
// are the same.
func fixedPitch(f *sfnt.Font) bool {
	w := 0
	for i := 0; i < f.NumGlyphs(); i++ {
		x := c15Width(f, glyph.ID(i))
		if x == 0 {
			continue
		}
		if w != 0 && w != x {
			return false
		}
		w = x
	}
	return true
}
