package checks

import (
	"fmt"
	"maps"
	"regexp"
	"slices"
	"strings"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1/names"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/mc/explore"
	"verif/mc/run"
)

const (
	c20TT = iota
	c20CFF
	c20CID
)

// c20Font makes a font with n glyphs and the given names (which may be fewer or more
// than the glyphs in a TrueType font).
func c20Font(kind, n int, glyphNames []string) *sfnt.Font {
	f := &sfnt.Font{FamilyName: "Test", UnitsPerEm: 1000, Width: os2.WidthNormal, Weight: os2.WeightNormal}
	switch kind {
	case c20TT:
		o := &glyf.Outlines{Names: glyphNames}
		for i := 0; i < n; i++ {
			o.Glyphs = append(o.Glyphs, nil)
			o.Widths = append(o.Widths, funit.Int16(500))
		}
		f.Outlines = o
	default:
		o := &cff.Outlines{}
		for i := 0; i < n; i++ {
			name := ""
			if i < len(glyphNames) {
				name = glyphNames[i]
			}
			o.Glyphs = append(o.Glyphs, cff.NewGlyph(name, 500))
		}
		o.Private = append(o.Private, defaultPrivate())
		o.FDSelect = func(glyph.ID) int { return 0 }
		if kind == c20CID {
			o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
			o.FontMatrices = append(o.FontMatrices, matrix.Identity)
			for i := 0; i < n; i++ {
				o.GIDToCID = append(o.GIDToCID, cid.CID(2*i))
			}
		} else {
			o.Encoding = cff.StandardEncoding(o.Glyphs)
		}
		f.Outlines = o
	}
	return f
}

var (
	c20CmapLast  string
	c20CmapTable cmap.Table
)

func c20Cmap(f *sfnt.Font, format int, m map[rune]int) {
	if len(m) == 0 && format >= 0 {
		f.CMapTable = nil
		return
	}
	// encoding format 4 is slow
	id := fmt.Sprint(format, m)
	if id == c20CmapLast {
		f.CMapTable = maps.Clone(c20CmapTable)
		return
	}
	defer func() { c20CmapLast, c20CmapTable = id, maps.Clone(f.CMapTable) }()
	var st cmap.Subtable
	key := cmap.Key{PlatformID: 3, EncodingID: 1}
	switch format {
	case 0:
		t := cmap.Format4{}
		for r, g := range m {
			if r <= 0xFFFF {
				t[uint16(r)] = glyph.ID(g)
			}
		}
		st = t
	default:
		t := cmap.Format12{}
		for r, g := range m {
			t[uint32(r)] = glyph.ID(g)
		}
		st = t
		key = cmap.Key{PlatformID: 3, EncodingID: 10}
	}
	f.CMapTable = cmap.Table{key: st.Encode(0)}
}

type c20Rule struct {
	in  []glyph.ID
	out glyph.ID
	lig bool
}

func c20Rules(info *gtab.Info) []c20Rule {
	if info == nil {
		return nil
	}
	var res []c20Rule
	for _, l := range info.LookupList {
		for _, st := range l.Subtables {
			switch st := st.(type) {
			case *gtab.Gsub1_1:
				for g := range st.Cov {
					res = append(res, c20Rule{[]glyph.ID{g}, g + st.Delta, false})
				}
			case *gtab.Gsub1_2:
				for g, i := range st.Cov {
					res = append(res, c20Rule{[]glyph.ID{g}, st.SubstituteGlyphIDs[i], false})
				}
			case *gtab.Gsub3_1:
				for g, i := range st.Cov {
					for _, o := range st.Alternates[i] {
						res = append(res, c20Rule{[]glyph.ID{g}, o, false})
					}
				}
			case *gtab.Gsub4_1:
				for g, i := range st.Cov {
					for _, l := range st.Repl[i] {
						res = append(res, c20Rule{append([]glyph.ID{g}, l.In...), l.Out, true})
					}
				}
			}
		}
	}
	return res
}

var (
	c20Numbered  = regexp.MustCompile(`^[A-Za-z]+[._-]?[0-9]+$`)
	c20NameChars = regexp.MustCompile(`^[A-Za-z0-9._]+$`)
)

// c20Existing lists the names a font has before names are made.
func c20Existing(f *sfnt.Font) []string {
	res := make([]string, f.NumGlyphs())
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		copy(res, o.Names)
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			res[i] = g.Name
		}
	}
	return res
}

// c20Judge checks a complete list of names.  charNames lists the names for the
// characters of each glyph.
func c20Judge(old, got []string, charNames map[glyph.ID][]string, rules []c20Rule) string {
	n := len(old)
	if len(got) != n {
		return fmt.Sprintf("%d names for %d glyphs", len(got), n)
	}
	owner := map[string]int{}
	for i, name := range got {
		if name == "" {
			return fmt.Sprintf("glyph %d has no name", i)
		}
		if j, dup := owner[name]; dup {
			return fmt.Sprintf("glyphs %d and %d are both named %q", j, i, name)
		}
		owner[name] = i
	}
	if n > 0 && got[0] != ".notdef" {
		return fmt.Sprintf("glyph 0 is named %q", got[0])
	}
	count := map[string]int{".notdef": 1}
	for i, name := range old {
		if i == 0 && name == ".notdef" {
			continue
		}
		count[name]++
	}
	ruleFor := map[glyph.ID][]c20Rule{}
	for _, r := range rules {
		ok := int(r.out) < n
		for _, g := range r.in {
			ok = ok && int(g) < n
		}
		if ok {
			ruleFor[r.out] = append(ruleFor[r.out], r)
		}
	}
	placeholder := make([]bool, n)
	for i := 1; i < n; i++ {
		if old[i] != "" && count[old[i]] == 1 {
			if got[i] != old[i] {
				return fmt.Sprintf("glyph %d was %q, is now %q", i, old[i], got[i])
			}
			continue
		}
		if old[i] != "" && got[i] == old[i] {
			continue // one of the glyphs with this name
		}
		if slices.Contains(charNames[glyph.ID(i)], got[i]) {
			continue
		}
		derived := false
		for _, r := range ruleFor[glyph.ID(i)] {
			var parts []string
			self := false // a glyph cannot get its name from itself
			for _, g := range r.in {
				parts = append(parts, got[g])
				self = self || int(g) == i
			}
			if self {
				continue
			}
			if base := strings.Join(parts, "_"); got[i] == base || strings.HasPrefix(got[i], base+".") {
				derived = true
			}
		}
		if derived {
			continue
		}
		if !c20Numbered.MatchString(got[i]) {
			return fmt.Sprintf("glyph %d is named %q", i, got[i])
		}
		placeholder[i] = true
	}
	for i := range placeholder {
		if !placeholder[i] {
			continue
		}
		for _, name := range charNames[glyph.ID(i)] {
			if _, used := owner[name]; !used {
				return fmt.Sprintf("glyph %d is named %q and not %q", i, got[i], name)
			}
		}
		for _, r := range ruleFor[glyph.ID(i)] {
			known := true
			for _, g := range r.in {
				known = known && !placeholder[g]
			}
			if known {
				return fmt.Sprintf("glyph %d is named %q, although it is the result of a substitution for %d", i, got[i], r.in)
			}
		}
	}
	return ""
}

func c20CharNames(f *sfnt.Font) map[glyph.ID][]string {
	m, err := f.CMapTable.GetBest()
	if err != nil || m == nil {
		return nil
	}
	res := map[glyph.ID][]string{}
	add := func(code int, g glyph.ID) {
		if g != 0 && int(g) < f.NumGlyphs() && code <= 0x10FFFF && !(code >= 0xD800 && code <= 0xDFFF) {
			res[g] = append(res[g], names.FromUnicode(string(rune(code))))
		}
	}
	switch m := m.(type) {
	case cmap.Format4:
		for r, g := range m {
			add(int(r), g)
		}
	case cmap.Format12:
		for r, g := range m {
			add(int(r), g)
		}
	default:
		panic("unexpected cmap")
	}
	return res
}

func c20Check(c *explore.Ctx, f *sfnt.Font, orders int) {
	old := c20Existing(f)
	charNames := c20CharNames(f)
	rules := c20Rules(f.Gsub)
	var got []string
	for k := 1; k <= min(orders, explore.MapOrders); k++ {
		var g []string
		func() {
			defer explore.SetMapOrder(0)
			c.Protect("make", func() {
				explore.SetMapOrder(k)
				g = f.MakeGlyphNames()
			})
		}()
		if k == 1 {
			got = g
			continue
		}
		if !slices.Equal(got, g) {
			c.Fail("make:stable", "names %q and %q for %q", got, g, old)
		}
	}
	if now := c20Existing(f); !slices.Equal(now, old) {
		c.Fail("make:frame", "MakeGlyphNames changed the names %q to %q", old, now)
	}
	if d := c20Judge(old, got, charNames, rules); d != "" {
		c.Fail("make", "%s; names were %q, are %q", d, old, got)
	}
	keep := slices.Clone(got)
	for k := 0; k < 2; k++ {
		c.Protect("ensure", f.EnsureGlyphNames)
		for i, name := range keep {
			var g string
			c.Protect("glyphname", func() { g = f.GlyphName(glyph.ID(i)) })
			if g != name {
				c.Fail("ensure", "glyph %d is named %q, want %q (round %d)", i, g, name, k)
			}
		}
		var g []string
		c.Protect("make", func() { g = f.MakeGlyphNames() })
		if !slices.Equal(g, keep) {
			c.Fail("again", "names %q, before %q", g, keep)
		}
		if len(g) > 1 {
			g[1] = "changed"
		}
	}
	c.ObsStr(strings.Join(keep, " "))
}

// c20Simple checks MakeSimple.
func c20Simple(c *explore.Ctx, f *sfnt.Font, text map[glyph.ID]string) {
	o := f.Outlines.(*cff.Outlines)
	old := c20Existing(f)
	n := len(old)
	charNames := map[glyph.ID][]string{}
	c.Protect("makesimple", func() { o.MakeSimple(text) })
	if o.IsCIDKeyed() {
		c.Fail("makesimple", "still CID-keyed")
	}
	got := c20Existing(f)
	count := map[string]int{".notdef": 1}
	for i, name := range old {
		if i > 0 {
			count[name]++
		}
	}
	used := map[string]bool{}
	for _, name := range got {
		used[name] = true
	}
	prev := slices.Clone(old)
	for i := 1; i < n; i++ {
		g := glyph.ID(i)
		if !names.IsValid(got[i]) {
			c.Fail("makesimple", "glyph %d is named %q; names were %q, text %q", i, got[i], old, text)
		}
		if !names.IsValid(old[i]) {
			prev[i] = ""
		}
		t := text[g]
		if t == "" || prev[i] != "" && count[prev[i]] == 1 {
			continue
		}
		base := names.FromUnicode(t)
		if got[i] == base || strings.HasPrefix(got[i], base+".") {
			charNames[g] = []string{got[i]}
			continue
		}
		if names.IsValid(base) && (!used[base] || len(base) <= 24) && got[i] != old[i] {
			c.Fail("makesimple", "glyph %d with text %q is named %q; names were %q", i, t, got[i], old)
		}
	}
	if d := c20Judge(prev, got, charNames, nil); d != "" {
		c.Fail("makesimple", "%s; names were %q, are %q, text %q", d, old, got, text)
	}
	var g []string
	c.Protect("make", func() { g = f.MakeGlyphNames() })
	if !slices.Equal(g, got) {
		c.Fail("makesimple", "MakeGlyphNames gives %q, want %q", g, got)
	}
	c.Protect("makesimple", func() { o.MakeSimple(text) })
	if again := c20Existing(f); !slices.Equal(again, got) {
		c.Fail("makesimple", "converting again gives %q, want %q", again, got)
	}
	if err := o.Encoding; len(err) != 256 {
		c.Fail("makesimple", "encoding has %d entries", len(err))
	}
	for code, gid := range o.Encoding {
		if gid != 0 && (int(gid) >= n) {
			c.Fail("makesimple", "code %d encodes glyph %d", code, gid)
		}
	}
	c.ObsStr(strings.Join(got, " "))
}

func init() {
	all := func(c *explore.Ctx) {
		kind := c.Choose("kind", 3)
		menu := []string{"", "A", "B", ".notdef", "orn001", "A.1", "f_i", "bad name", "fi"}
		if c.Thorough {
			menu = append(menu, "orn002", "B.1", "f", "\x80", "uni0041", "A_B")
		}
		n := 4
		var nn []string
		for i := 0; i < n; i++ {
			if i == 0 {
				nn = append(nn, explore.Pick(c, "name", []string{"", ".notdef", "A", "orn001"}))
				continue
			}
			nn = append(nn, explore.Pick(c, "name", menu))
		}
		c.Exec()
		for _, m := range []map[rune]int{nil, {'A': 1, 'B': 2, 'f': 3}, {'A': 1, 'C': 1, 'B': 1, 0xFB01: 2}, {'A': 3, 0x1F600: 2, 0xE000: 1}} {
			for k := 0; k < 3; k++ {
				f := c20Font(kind, n, slices.Clone(nn))
				c20Cmap(f, 1, m)
				switch k {
				case 1:
					f.Gsub = &gtab.Info{LookupList: gtab.LookupList{lk(4, 0, sub4(lg(3, 1, 2))), lk(1, 0, sub12(1, 2))}}
				case 2:
					f.Gsub = &gtab.Info{LookupList: gtab.LookupList{lk(3, 0, sub3(multi{1: gids(2, 3), 2: gids(1, 3)}))}}
				}
				c20Check(c, f, 2)
			}
			if kind != c20TT {
				for _, text := range []map[glyph.ID]string{nil, {1: "A", 2: "A", 3: "fi"}, {0: "B", 2: "B", 3: "B", 77: "C"}} {
					f := c20Font(kind, n, nn)
					c20Simple(c, f, text)
				}
			}
		}
	}

	short := func(c *explore.Ctx) {
		n := 1 + c.Choose("n", 5)
		k := c.Choose("k", 8)
		base := explore.Pick(c, "names", [][]string{
			{".notdef", "A", "B", "C", "D", "E", "F", "G"},
			{"", "A", "", "A", "B", "", "B", "C"},
			{"A", "A", "B", "B", "C", "C", "D", "D"},
			{"", "orn001", "", "orn002", "", "", "", ""},
		})
		c.Exec()
		for _, m := range []map[rune]int{nil, {'A': 1, 'B': 2, 'C': 3, 'D': 4}, {'D': 1, 'C': 2, 'B': 3, 'A': 4}} {
			f := c20Font(c20TT, n, slices.Clone(base[:k]))
			if k == 0 {
				f.Outlines.(*glyf.Outlines).Names = nil
			}
			mm := map[rune]int{}
			for r, g := range m {
				if g < n {
					mm[r] = g
				}
			}
			c20Cmap(f, 1, mm)
			c20Check(c, f, 2)
		}
	}

	chars := []rune{'A', ' ', 0xA0, 0x3A9, 0x3C9, 0x2126, 0xFB01}
	cmaps := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{c20TT, c20CFF})
		n := 4
		m := map[rune]int{}
		for _, r := range chars {
			if !c.Thorough && r == 0xFB01 {
				continue
			}
			if g := c.Choose("gid", n); g != 0 {
				m[r] = g
			}
		}
		c.Exec()
		for pf := 0; pf < 54; pf++ {
			p, format := pf%27, pf/27
			if (!c.Thorough || m[0xFB01] != 0) && p%9 != p%2 {
				continue
			}
			nn := []string{"", "", "", ""}
			q := p
			for i := 1; i < 4; i++ {
				nn[i] = []string{"", "Omega", fmt.Sprint("x", i)}[q%3]
				q /= 3
			}
			f := c20Font(kind, n, nn)
			c20Cmap(f, format, m)
			c20Check(c, f, 1)
		}
	}

	// every character, and maps which are unusual
	everyChar := func(c *explore.Ctx) {
		block := c.Choose("block", 0x110000/0x100)
		c.Exec()
		if block >= 0xD8 && block < 0xE0 {
			return
		}
		f := c20Font(c20TT, 0x101, nil)
		m := map[rune]int{}
		for i := 0; i < 0x100; i++ {
			m[rune(block*0x100+i)] = i + 1
		}
		c20Cmap(f, 1, m)
		c20Check(c, f, 1)
	}
	oddCmaps := func(c *explore.Ctx) {
		kind := c.Choose("kind", 3)
		lo := explore.Pick(c, "lo", []uint32{0, 1, 'A', 0xFFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF})
		hi := explore.Pick(c, "hi", []uint32{0, 1, 'A', 0xFFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF})
		gid := explore.Pick(c, "gid", []glyph.ID{1, 3, 4, 65535})
		c.Exec()
		f := c20Font(kind, 4, nil)
		t := cmap.Format12{lo: 2, hi: gid}
		f.CMapTable = cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 10}: t.Encode(0)}
		c20Check(c, f, 1)
	}

	// substitution rules
	var menu []gtab.Subtable
	for g := 0; g < 4; g++ {
		for h := 0; h < 4; h++ {
			if g != h {
				menu = append(menu, sub12(glyph.ID(g), glyph.ID(h)))
			}
		}
	}
	small := len(menu)
	menu = append(menu, sub11(1, 0, 1, 2), sub11(1, 1, 2), sub11(-1, 2, 3), sub11(2, 1), sub11(-2, 2, 3), sub11(0, 1, 2),
		sub12(1, 3, 2, 3), sub12(1, 2, 2, 3), sub12(1, 2, 2, 1), sub12(1, 2, 3, 2), sub12(2, 1, 3, 2), sub12(0, 1, 1, 2, 2, 3),
		sub3(multi{1: gids(2, 3)}), sub3(multi{1: gids(2), 2: gids(3)}), sub3(multi{1: gids(3), 2: gids(3)}), sub3(multi{3: gids(1, 2)}), sub3(multi{3: gids(2), 2: gids(1)}), sub3(multi{0: gids(0, 1)}), sub3(multi{1: nil}))
	for a := 1; a < 4; a++ {
		for b := 1; b < 4; b++ {
			for o := 0; o < 4; o++ {
				if (a+b+o)%2 == 0 || a != b {
					menu = append(menu, sub4(lg(o, a, b)))
				}
			}
		}
	}
	menu = append(menu, sub4(lg(2, 1)), sub4(lg(3, 1, 1), lg(2, 1)), sub4(lg(3, 1, 2), lg(3, 2, 1)), sub4(lg(1, 2, 3), lg(3, 2, 2)), sub4(lg(3, 1, 2), lg(2, 1, 1)), sub4(lg(3, 1, 2), lg(3, 1, 1)), sub2(multi{1: gids(2, 3)}))
	gsub := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{c20TT, c20CFF})
		shape := c.Choose("shape", 3)
		var subs []gtab.Subtable
		k := 1
		if shape > 0 {
			k = 2
		}
		for i := 0; i < k; i++ {
			subs = append(subs, explore.Pick(c, "sub", menu))
		}
		if k == 2 && c.Thorough {
			// a third one
			if x := c.Choose("sub3", small+1); x > 0 {
				subs = append(subs, menu[x-1])
			}
		}
		c.Exec()
		var ll gtab.LookupList
		if shape == 2 {
			ll = gtab.LookupList{lk(1, 0, subs...)}
		} else {
			for _, s := range subs {
				ll = append(ll, lk(1, 0, s))
			}
		}
		for p := 0; p < 64; p++ {
			nn := []string{".notdef", "", "", ""}
			q := p
			for i := 1; i < 4; i++ {
				nn[i] = []string{"", string(rune('a' + i)), "x", "b.1"}[q%4]
				q /= 4
			}
			f := c20Font(kind, 4, nn)
			f.Gsub = &gtab.Info{LookupList: ll}
			if p%3 == 0 {
				c20Cmap(f, 1, map[rune]int{'b': 1 + p%3, 'x': 3})
			}
			orders := 8
			if k == 2 && !c.Thorough {
				orders = 3
			}
			c20Check(c, f, orders)
		}
	}

	// chains of substitutions in all orders
	chain := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{c20TT, c20CFF})
		n := 4
		if c.Thorough {
			n = 5
		}
		perm := make([]int, n)
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		for i := range perm {
			j := c.Choose("next", len(rest))
			perm[i] = rest[j]
			rest = slices.Delete(rest, j, j+1)
		}
		shape := c.Choose("shape", 4)
		first := c.Choose("first", n+1)
		c.Exec()
		var subs []gtab.Subtable
		for _, i := range perm {
			g := glyph.ID(i + 1)
			switch (i + shape) % 3 {
			case 0:
				subs = append(subs, sub12(g, g+1))
			case 1:
				subs = append(subs, sub3(multi{g: {g, g + 1}}))
			case 2:
				subs = append(subs, sub4(lig{[]glyph.ID{g, g}, g + 1}))
			}
		}
		var ll gtab.LookupList
		if shape == 3 {
			m := make([]glyph.ID, 0, 2*n)
			for _, i := range perm {
				m = append(m, glyph.ID(i+1), glyph.ID(i+2))
			}
			ll = gtab.LookupList{lk(1, 0, sub12(m...))}
		} else {
			for _, s := range subs {
				ll = append(ll, lk(1, 0, s))
			}
		}
		nn := make([]string, n+2)
		nn[first+1] = "base"
		f := c20Font(kind, n+2, nn)
		f.Gsub = &gtab.Info{LookupList: ll}
		c20Check(c, f, 8)
	}

	many := func(c *explore.Ctx) {
		kind := c.Choose("kind", 3)
		n := explore.Pick(c, "n", []int{1, 2, 255, 256, 999, 1000, 1001, 1002, 5000, 65535})
		mode := c.Choose("mode", 5)
		c.Exec()
		nn := make([]string, n)
		m := map[rune]int{}
		var ll gtab.LookupList
		for i := 1; i < n; i++ {
			switch mode {
			case 1:
				nn[i] = "same"
			case 2:
				if i%2 == 0 {
					nn[i] = fmt.Sprintf("orn%03d", i/2)
				}
			case 3:
				m[rune(0x20000+i)] = i
			}
		}
		if mode == 4 && n > 2 {
			nn[1] = "a"
			var alt []glyph.ID
			for i := 2; i < n; i++ {
				alt = append(alt, glyph.ID(i))
			}
			if n > 1002 {
				alt = alt[:1000]
			}
			ll = append(ll, lk(3, 0, sub3(multi{1: alt})))
		}
		f := c20Font(kind, n, nn)
		f.Gsub = &gtab.Info{LookupList: ll}
		c20Cmap(f, 1, m)
		c20Check(c, f, 1)
		if kind == c20CID {
			f := c20Font(kind, n, nn)
			c20Simple(c, f, nil)
		}
	}

	simple := func(c *explore.Ctx) {
		kind := explore.Pick(c, "kind", []int{c20CID, c20CFF})
		long := strings.Repeat("x", 31)
		nn := []string{""}
		text := map[glyph.ID]string{}
		texts := []string{"", "A", "fi", "ABCDEFGHIJKLM", "ABCDEFGHIJKLMNOP", "ABCDEFGHIJKLMNOPQ", "\U0001F600", "\xff", "é"}
		ns := []string{"", "A", ".notdef", "bad name", "orn001", "A.alt1", long, long + "x", "9"}
		for i := 1; i < 4; i++ {
			nn = append(nn, explore.Pick(c, "name", ns))
		}
		c.Exec()
		for _, t1 := range texts {
			for _, t2 := range texts {
				for _, t3 := range texts {
					clear(text)
					for i, t := range []string{"", t1, t2, t3} {
						if t != "" {
							text[glyph.ID(i)] = t
						}
					}
					c20Simple(c, c20Font(kind, 4, nn), text)
				}
			}
		}
	}
	simpleMany := func(c *explore.Ctx) {
		n := explore.Pick(c, "n", []int{10, 11, 12, 100, 101, 102, 1200})
		t := explore.Pick(c, "text", []string{"A", "ABCDEFGHIJKL", "ABCDEFGHIJKLM", "ABCDEFGHIJKLMN", "ABCDEFGHIJKLMNO"})
		c.Exec()
		text := map[glyph.ID]string{}
		for i := 0; i < n; i++ {
			text[glyph.ID(i)] = t
		}
		c20Simple(c, c20Font(c20CID, n, nil), text)
	}

	permitted := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] < 33 || s[i] > 126 || strings.IndexByte("[](){}<>/%", s[i]) >= 0 {
				return false
			}
		}
		return true
	}
	psCheck := func(c *explore.Ctx, f *sfnt.Font) {
		var s string
		c.Protect("psname", func() { s = f.PostScriptName() })
		if !permitted(s) {
			c.Fail("psname", "family %q, width %v, weight %v: PostScript name %q", f.FamilyName, f.Width, f.Weight, s)
		}
		c.ObsStr(s)
	}
	psChars := func(c *explore.Ctx) {
		block := c.Choose("block", 0x110000/0x400)
		c.Exec()
		f := c20Font(c20TT, 1, nil)
		for i := 0; i < 0x400; i++ {
			r := rune(block*0x400 + i)
			for _, s := range []string{string(r), "A" + string(r), string(r) + "B" + string(r)} {
				f.FamilyName = s
				psCheck(c, f)
			}
		}
	}
	psStrings := func(c *explore.Ctx) {
		alpha := []string{"A", " ", "-", "(", ")", "[", "]", "{", "}", "<", ">", "/", "%", "\x00", "\x7f", "\x80", "\xff", "é", "\xc3", "ſ", "K", "~", "!", "\n"}
		n := 2
		if c.Thorough {
			n = 3
		}
		s := ""
		for i := 0; i < n; i++ {
			s += explore.Pick(c, "char", alpha)
		}
		c.Exec()
		f := c20Font(c20TT, 1, nil)
		for _, t := range append(alpha, "") {
			for _, u := range append(alpha, "") {
				f.FamilyName = s + t + u
				psCheck(c, f)
			}
		}
	}
	psStyle := func(c *explore.Ctx) {
		weight := c.Choose("weight", 1002)
		c.Exec()
		f := c20Font(c20TT, 1, nil)
		ws := []os2.Weight{os2.Weight(weight)}
		if weight == 1001 {
			ws = []os2.Weight{1100, 32767, 32768, 65535}
		}
		for _, w := range ws {
			for width := 0; width < 12; width++ {
				for flags := 0; flags < 64; flags++ {
					f.Weight = w
					f.Width = os2.Width(width)
					f.IsBold, f.IsItalic, f.IsOblique = flags&1 != 0, flags&2 != 0, flags&4 != 0
					f.IsRegular, f.IsSerif, f.IsScript = flags&8 != 0, flags&16 != 0, flags&32 != 0
					psCheck(c, f)
				}
			}
		}
	}

	run.Register(&run.Property{
		ID:    "C20",
		Level: "model_checking",
		Rule:  "names are complete, distinct, .notdef first, existing unique names kept, missing names are a character name, derived from a substitution with known names or (only if neither is possible) numbered; the same for all map iteration orders, again after installing them, and for MakeSimple; PostScript names have permitted characters only",
		Assumptions: []string{
			"the Adobe glyph list of the postscript module is taken as given",
			"substitutions which refer to glyphs not in the font and character codes outside Unicode give no names",
			"which glyph keeps a duplicate name, and whether the character map or a substitution is preferred, is not specified",
		},
		Drivers: []run.Driver{
			{Name: "names", Run: all, Weight: 3, Bounds: "4 glyphs x 9 (thorough 15) names each x 3 kinds of outlines x 4 character maps x 3 substitution tables; MakeSimple with 3 texts"},
			{Name: "tt-short", Run: short, Weight: 0.5, Bounds: "TrueType fonts with 1-5 glyphs and 0-7 names, 4 name lists, 3 character maps"},
			{Name: "cmaps", Run: cmaps, Weight: 1, Bounds: "all maps from 6 (thorough 7) characters to 3 glyphs x 6 (thorough 27; 6 when U+FB01 is mapped) name patterns x 2 formats x 2 kinds of outlines"},
			{Name: "characters", Run: everyChar, Weight: 1, Bounds: "all Unicode characters"},
			{Name: "odd-cmaps", Run: oddCmaps, Weight: 0.5, Bounds: "pairs of 9 character codes up to 0xFFFFFFFF, glyphs inside and outside the font"},
			{Name: "gsub", Run: gsub, Weight: 3, Bounds: fmt.Sprintf("1-2 (thorough 3) subtables out of %d in one or several lookups x 64 name patterns x 2 kinds of outlines; up to 8 map orders", len(menu))},
			{Name: "chain", Run: chain, Weight: 1, Bounds: "chains of 4 (thorough 5) substitutions in all orders and kinds, named at any point, 8 map orders"},
			{Name: "many", Run: many, Weight: 1, Bounds: "10 sizes up to 65535 glyphs x 5 patterns x 3 kinds"},
			{Name: "makesimple", Run: simple, Weight: 2, Bounds: "3 glyphs x 9 names x 9 texts each, CID-keyed and simple fonts"},
			{Name: "makesimple-many", Run: simpleMany, Weight: 0.3, Bounds: "up to 1200 glyphs with the same text"},
			{Name: "ps-chars", Run: psChars, Weight: 0.5, Bounds: "all code points, alone and with letters"},
			{Name: "ps-strings", Run: psStrings, Weight: 0.5, Bounds: "all strings of length <= 4 (thorough 5) over 24 characters and bytes"},
			{Name: "ps-style", Run: psStyle, Weight: 0.5, Bounds: "weights 0-1000 and 4 more x 12 widths x 64 flags"},
		},
	})
}
