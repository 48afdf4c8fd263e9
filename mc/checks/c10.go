package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/mc/explore"
	"verif/mc/run"
)

// subLists returns all duplicate-free lists of glyphs which start with 0, with
// the remaining glyphs from 1, ..., n-1.
func subLists(n int) [][]glyph.ID {
	var res [][]glyph.ID
	var rec func(cur []glyph.ID)
	rec = func(cur []glyph.ID) {
		res = append(res, slices.Clone(cur))
		for g := 1; g < n; g++ {
			if !slices.Contains(cur, glyph.ID(g)) {
				rec(append(cur, glyph.ID(g)))
			}
		}
	}
	rec([]glyph.ID{0})
	return res
}

// subListsFew returns, for every subset of the glyphs, the increasing list,
// the decreasing list and one more order.
func subListsFew(n int) [][]glyph.ID {
	var res [][]glyph.ID
	for m := 0; m < 1<<(n-1); m++ {
		var l []glyph.ID
		for g := 1; g < n; g++ {
			if m>>(g-1)&1 != 0 {
				l = append(l, glyph.ID(g))
			}
		}
		res = append(res, append([]glyph.ID{0}, l...))
		if len(l) >= 2 {
			r := slices.Clone(l)
			slices.Reverse(r)
			res = append(res, append([]glyph.ID{0}, r...))
		}
		if len(l) >= 3 {
			r := append(slices.Clone(l[1:]), l[0])
			r[0], r[1] = r[1], r[0]
			res = append(res, append([]glyph.ID{0}, r...))
		}
	}
	return res
}

// c10Rule is one substitution rule.
type c10Rule struct{ in, out []glyph.ID }

func c10Rules(info *gtab.Info) []c10Rule {
	var res []c10Rule
	if info == nil {
		return nil
	}
	for _, l := range info.LookupList {
		for _, st := range l.Subtables {
			switch st := st.(type) {
			case *gtab.Gsub1_1:
				for g := range st.Cov {
					res = append(res, c10Rule{[]glyph.ID{g}, []glyph.ID{g + st.Delta}})
				}
			case *gtab.Gsub4_1:
				for g, idx := range st.Cov {
					for _, l := range st.Repl[idx] {
						res = append(res, c10Rule{append([]glyph.ID{g}, l.In...), []glyph.ID{l.Out}})
					}
				}
			default:
				panic("unsupported")
			}
		}
	}
	return res
}

// closure returns the closure of the set under the GSUB rules (if rules is
// set) and the components of composite glyphs (if comps is set).
func c10Closure(f *sfnt.Font, set map[glyph.ID]bool, rules, comps bool) map[glyph.ID]bool {
	res := map[glyph.ID]bool{}
	for g := range set {
		res[g] = true
	}
	rr := c10Rules(f.Gsub)
	for changed := true; changed; {
		changed = false
		if rules {
		rule:
			for _, r := range rr {
				for _, g := range r.in {
					if !res[g] {
						continue rule
					}
				}
				for _, g := range r.out {
					if !res[g] {
						res[g] = true
						changed = true
					}
				}
			}
		}
		if o, ok := f.Outlines.(*glyf.Outlines); ok && comps {
			for g := range res {
				for _, cg := range compGlyphs(o.Glyphs[g]) {
					if !res[cg] {
						res[cg] = true
						changed = true
					}
				}
			}
		}
	}
	return res
}

func compGlyphs(g *glyf.Glyph) []glyph.ID {
	if g == nil {
		return nil
	}
	d, ok := g.Data.(glyf.CompositeGlyph)
	if !ok {
		return nil
	}
	var res []glyph.ID
	for _, c := range d.Components {
		res = append(res, c.GlyphIndex)
	}
	return res
}

// stripComp returns a copy of the glyph with all component indices set to 0.
func stripComp(g *glyf.Glyph) *glyf.Glyph {
	g = cloneGlyph(g)
	if g != nil {
		if d, ok := g.Data.(glyf.CompositeGlyph); ok {
			for i := range d.Components {
				d.Components[i].GlyphIndex = 0
			}
		}
	}
	return g
}

// c10Glyph compares one glyph of the subset with one glyph of the original
// font, except for the component indices of composite glyphs.
func c10Glyph(f, s *sfnt.Font, old, gid glyph.ID) string {
	if a, b := c10NameOf(f, old), c10NameOf(s, gid); a != b {
		return fmt.Sprintf("name %q, want %q", b, a)
	}
	if a, b := f.GlyphWidth(old), s.GlyphWidth(gid); a != b {
		return fmt.Sprintf("width %v, want %v", b, a)
	}
	switch a := f.Outlines.(type) {
	case *glyf.Outlines:
		b, ok := s.Outlines.(*glyf.Outlines)
		if !ok {
			return fmt.Sprintf("outlines are %T", s.Outlines)
		}
		if a.Widths[old] != b.Widths[gid] {
			return fmt.Sprintf("width %v, want %v", b.Widths[gid], a.Widths[old])
		}
		ga, gb := a.Glyphs[old], b.Glyphs[gid]
		if err := glyphsEqual(stripComp(ga), stripComp(gb)); err != nil {
			return err.Error()
		}
	case *cff.Outlines:
		b, ok := s.Outlines.(*cff.Outlines)
		if !ok {
			return fmt.Sprintf("outlines are %T", s.Outlines)
		}
		if d := c10CFFGlyph(f.FontMatrix, a, old, s.FontMatrix, b, gid); d != "" {
			return d
		}
	}
	return ""
}

func c10NameOf(f *sfnt.Font, gid glyph.ID) string {
	if o, ok := f.Outlines.(*glyf.Outlines); ok && int(gid) >= len(o.Names) {
		return ""
	}
	return f.GlyphName(gid)
}

func c10CFFGlyph(ma matrix.Matrix, a *cff.Outlines, old glyph.ID, mb matrix.Matrix, b *cff.Outlines, gid glyph.ID) string {
	if d := deepDiff(a.Glyphs[old], b.Glyphs[gid]); d != "" {
		return "glyph " + d
	}
	if a.IsCIDKeyed() != b.IsCIDKeyed() {
		return fmt.Sprintf("CID-keyed %v, want %v", b.IsCIDKeyed(), a.IsCIDKeyed())
	}
	if a.GIDToCID != nil {
		if int(gid) >= len(b.GIDToCID) {
			return "no CID"
		}
		if a.GIDToCID[old] != b.GIDToCID[gid] {
			return fmt.Sprintf("CID %d, want %d", b.GIDToCID[gid], a.GIDToCID[old])
		}
	} else if b.GIDToCID != nil {
		return "unexpected CIDs"
	}
	fa, fb := a.FDSelect(old), b.FDSelect(gid)
	if fb < 0 || fb >= len(b.Private) {
		return fmt.Sprintf("FDSelect %d with %d private dictionaries", fb, len(b.Private))
	}
	if d := deepDiff(a.Private[fa], b.Private[fb]); d != "" {
		return "private dictionary " + d
	}
	if a.IsCIDKeyed() {
		if fb >= len(b.FontMatrices) {
			return fmt.Sprintf("FDSelect %d with %d font matrices", fb, len(b.FontMatrices))
		}
		ma = a.FontMatrices[fa].Mul(ma)
		mb = b.FontMatrices[fb].Mul(mb)
	}
	for i := range ma {
		if math.Abs(ma[i]-mb[i]) > 1e-9 {
			return fmt.Sprintf("font matrix %v, want %v", mb, ma)
		}
	}
	return ""
}

// c10 checks one subset of a font.
type c10 struct {
	c     *explore.Ctx
	key   string
	f     *sfnt.Font // the original font
	list  []glyph.ID // the list of glyphs
	seqN  int        // length of shaping sequences
	mode  int        // feature combinations: 0 = all on, 1 = at most one or all, 2 = all
	cache map[string][][]glyph.Info
	must  []glyph.ID // listed glyphs and results of substitutions
	may   map[glyph.ID]bool
}

// sets of lookups which are compared
func c10LookupSets(info *gtab.Info, mode int) (langs []language.Tag, sets []map[string]bool) {
	for l := range info.ScriptList {
		langs = append(langs, l)
	}
	sort.Slice(langs, func(i, j int) bool { return langs[i].String() < langs[j].String() })
	var tags []string
	for _, fe := range info.FeatureList {
		if fe != nil && !slices.Contains(tags, fe.Tag) {
			tags = append(tags, fe.Tag)
		}
	}
	for m := 0; m < 1<<len(tags); m++ {
		if mode < 2 && m != 1<<len(tags)-1 && (mode == 0 || bits.OnesCount(uint(m)) > 1) {
			continue
		}
		s := map[string]bool{}
		for i, t := range tags {
			if m>>i&1 != 0 {
				s[t] = true
			}
		}
		sets = append(sets, s)
	}
	return
}

// compare checks that s is a subset of k.f as requested by k.list.  It returns
// a list of old glyph IDs (for the new glyphs) or an error message.
func (k *c10) compare(s *sfnt.Font) ([]glyph.ID, string) {
	n := s.NumGlyphs()
	if n < len(k.list) {
		return nil, fmt.Sprintf("%d glyphs for a list of %d", n, len(k.list))
	}
	for i, g := range k.list {
		if d := c10Glyph(k.f, s, g, glyph.ID(i)); d != "" {
			return nil, fmt.Sprintf("glyph %d (was %d): %s", i, g, d)
		}
	}
	if o, ok := s.Outlines.(*cff.Outlines); ok {
		if d := deepDiff(k.f.Outlines.(*cff.Outlines).ROS, o.ROS); d != "" {
			return nil, "ROS" + d
		}
		if len(o.GIDToCID) != 0 && len(o.GIDToCID) != n {
			return nil, fmt.Sprintf("%d CIDs for %d glyphs", len(o.GIDToCID), n)
		}
	}
	if o, ok := s.Outlines.(*glyf.Outlines); ok {
		if d := deepDiff(k.f.Outlines.(*glyf.Outlines).Tables, o.Tables); d != "" {
			return nil, "Tables" + d
		}
		if len(o.Widths) != n {
			return nil, fmt.Sprintf("%d widths for %d glyphs", len(o.Widths), n)
		}
	}

	// All ways to identify the additional glyphs.
	first := ""
	var found []glyph.ID
	cur := slices.Clone(k.list)
	var cands []glyph.ID
	for g := range k.may {
		if !slices.Contains(k.list, g) {
			cands = append(cands, g)
		}
	}
	slices.Sort(cands)
	if n > len(k.list)+len(cands) {
		return nil, fmt.Sprintf("%d glyphs for the list %v and %d possible additional glyphs", n, k.list, len(cands))
	}
	budget := 2000
	var rec func()
	rec = func() {
		budget--
		if found != nil || budget < 0 {
			return
		}
		if len(cur) == n {
			if d := k.assigned(s, cur); d == "" {
				found = slices.Clone(cur)
			} else if first == "" {
				first = d
			}
			return
		}
		any := false
		for _, g := range cands {
			if slices.Contains(cur, g) {
				continue
			}
			if c10Glyph(k.f, s, g, glyph.ID(len(cur))) == "" {
				any = true
				cur = append(cur, g)
				rec()
				cur = cur[:len(cur)-1]
			}
		}
		if !any && first == "" {
			first = fmt.Sprintf("additional glyph %d is none of the glyphs %v of the original font", len(cur), cands)
		}
	}
	rec()
	if found == nil {
		return nil, first
	}
	return found, ""
}

// assigned checks the subset, given the old glyph IDs.
func (k *c10) assigned(s *sfnt.Font, old []glyph.ID) string {
	f := k.f
	newGid := map[glyph.ID]glyph.ID{}
	for i, g := range old {
		newGid[g] = glyph.ID(i)
	}
	for _, g := range k.must {
		if _, ok := newGid[g]; !ok {
			return fmt.Sprintf("glyph %d, which is needed for a substitution, is missing", g)
		}
	}

	// composite glyphs
	if o, ok := s.Outlines.(*glyf.Outlines); ok {
		fo := f.Outlines.(*glyf.Outlines)
		for i := range old {
			a, b := compGlyphs(fo.Glyphs[old[i]]), compGlyphs(o.Glyphs[i])
			for j := range a {
				if int(b[j]) >= len(old) || old[b[j]] != a[j] {
					return fmt.Sprintf("glyph %d (was %d): component %d is glyph %d, want %d (was %d)", i, old[i], j, b[j], newGid[a[j]], a[j])
				}
			}
		}
	}

	// encoding
	if o, ok := s.Outlines.(*cff.Outlines); ok {
		if d := k.encoding(o, newGid); d != "" {
			return d
		}
	}

	// character map
	if d := k.cmap(s, newGid); d != "" {
		return d
	}

	// layout tables
	for _, pos := range []bool{false, true} {
		a, b := f.Gsub, s.Gsub
		name := "GSUB"
		if pos {
			a, b = f.Gpos, s.Gpos
			name = "GPOS"
		}
		if a == nil {
			continue
		}
		if b == nil {
			b = &gtab.Info{}
		}
		if d := k.layout(a, b, old, newGid); d != "" {
			return name + ": " + d
		}
	}
	return ""
}

func (k *c10) encoding(o *cff.Outlines, newGid map[glyph.ID]glyph.ID) string {
	fo := k.f.Outlines.(*cff.Outlines)
	if (fo.Encoding == nil) != (o.Encoding == nil) {
		return fmt.Sprintf("encoding: %d entries, want %d", len(o.Encoding), len(fo.Encoding))
	}
	if fo.Encoding == nil {
		return ""
	}
	if len(o.Encoding) != 256 {
		return fmt.Sprintf("encoding: %d entries", len(o.Encoding))
	}
	for code, g := range fo.Encoding {
		want, ok := newGid[g]
		got := o.Encoding[code]
		if ok && got == want || (!ok || !slices.Contains(k.list, g)) && got == 0 {
			continue
		}
		return fmt.Sprintf("encoding: code %d -> %d, want %d (was %d)", code, got, want, g)
	}
	return ""
}

func (k *c10) cmap(s *sfnt.Font, newGid map[glyph.ID]glyph.ID) string {
	f := k.f
	check := func(what string, a, b map[uint32]int) string {
		for code, g := range a {
			want, ok := newGid[glyph.ID(g)]
			got := b[code]
			if ok && got == int(want) || (!ok || !slices.Contains(k.list, glyph.ID(g))) && got == 0 {
				continue
			}
			return fmt.Sprintf("%s: code 0x%04X -> %d, want %d (was %d)", what, code, got, want, g)
		}
		for code, g := range b {
			if g != 0 && a[code] == 0 {
				return fmt.Sprintf("%s: code 0x%04X -> %d, want 0 (not mapped before)", what, code, g)
			}
		}
		return ""
	}
	keys := map[cmap.Key]bool{}
	for key := range f.CMapTable {
		keys[key] = true
	}
	for key := range s.CMapTable {
		keys[key] = true
	}
	for key := range keys {
		var a, b map[uint32]int
		var err error
		if data, ok := f.CMapTable[key]; ok {
			if a, err = refCmapSubtable(data); err != nil {
				panic(err) // original font
			}
		}
		if data, ok := s.CMapTable[key]; ok {
			if b, err = refCmapSubtable(data); err != nil {
				return fmt.Sprintf("cmap %v: %v", key, err)
			}
		}
		if d := check(fmt.Sprintf("cmap %v", key), a, b); d != "" {
			return d
		}
	}
	// the same, as seen by the users of the font
	best, err := f.CMapTable.GetBest()
	if err != nil {
		return ""
	}
	sb, err := s.CMapTable.GetBest()
	if err != nil {
		sb = cmap.Format4{}
	}
	a, b := map[uint32]int{}, map[uint32]int{}
	for _, data := range f.CMapTable {
		m, _ := refCmapSubtable(data)
		for code := range m {
			a[code] = 0
		}
	}
	for code := rune(0); code < 256; code++ {
		a[uint32(code)] = 0
	}
	for code := range a {
		a[code] = int(best.Lookup(rune(code)))
		b[code] = int(sb.Lookup(rune(code)))
	}
	return check("best cmap", a, b)
}

func (k *c10) layout(a, b *gtab.Info, old []glyph.ID, newGid map[glyph.ID]glyph.ID) string {
	langs, sets := c10LookupSets(a, k.mode)
	seqs := cachedSeqs("c10", k.must, k.seqN, c06Adv)
	type pair struct{ x, y string }
	seen := map[pair]bool{}
	for _, lang := range langs {
		for _, set := range sets {
			la := a.FindLookups(lang, set)
			lb := b.FindLookups(lang, set)
			id := pair{fmt.Sprint(la), fmt.Sprint(lb)}
			if seen[id] {
				continue
			}
			seen[id] = true
			ca := gtab.NewContext(a.LookupList, nil, la)
			cb := gtab.NewContext(b.LookupList, nil, lb)
			ck := fmt.Sprint(a == k.f.Gpos, k.must, k.seqN, la)
			wants := k.cache[ck]
			if wants == nil {
				for _, seq := range seqs {
					wants = append(wants, slices.Clone(ca.Apply(seq.clone())))
				}
				k.cache[ck] = wants
			}
			for i, seq := range seqs {
				want := wants[i]
				in := seq.clone()
				for i := range in {
					in[i].GID = newGid[in[i].GID]
				}
				want = slices.Clone(want)
				got := cb.Apply(in)
				bad := len(got) != len(want)
				for i := range want {
					g, ok := newGid[want[i].GID]
					if !ok {
						panic("missing glyph")
					}
					want[i].GID = g
				}
				if bad || !seqEqual(got, want) {
					return fmt.Sprintf("%v, features %v, lookups %v/%v: sequence %s\ngot  %s\nwant %s", lang, set, la, lb, seqString(seq, false), seqString(got, true), seqString(want, true))
				}
			}
		}
	}
	// Pairs with additional glyphs need not be present, but must not be wrong.
	for li, l := range b.LookupList {
		for si, st := range l.Subtables {
			p, ok := st.(gtab.Gpos2_1)
			if !ok || li >= len(a.LookupList) {
				continue
			}
			for pr, adj := range p {
				if int(pr.Left) >= len(old) || int(pr.Right) >= len(old) {
					return fmt.Sprintf("lookup %d.%d: pair %v for %d glyphs", li, si, pr, len(old))
				}
				op := glyph.Pair{Left: old[pr.Left], Right: old[pr.Right]}
				okPair := false
				for _, ost := range a.LookupList[li].Subtables {
					if o, ok := ost.(gtab.Gpos2_1); ok {
						if oadj, ok := o[op]; ok && deepDiff(oadj, adj) == "" {
							okPair = true
						}
					}
				}
				if !okPair {
					return fmt.Sprintf("lookup %d.%d: pair %v (was %v) does not occur in the original font", li, si, pr, op)
				}
			}
		}
	}
	return ""
}

// c10Check subsets the font returned by mk in all ways.
func c10Check(c *explore.Ctx, key string, mk func() *sfnt.Font, lists [][]glyph.ID, seqN int, write bool) {
	f := mk()
	ref := mk()
	fail := func(k *c10, what, format string, a ...any) {
		c.Fail(key+":"+what, "%s\nlist %v\nfont: %s", fmt.Sprintf(format, a...), k.list, c10Desc(ref))
	}
	cache := map[string][][]glyph.Info{}
	for _, list := range lists {
		k := &c10{c: c, cache: cache, key: key, f: ref, list: list, seqN: seqN, mode: 1}
		if c.Thorough {
			k.mode = 2
		}
		set := map[glyph.ID]bool{}
		for _, g := range list {
			set[g] = true
		}
		k.may = c10Closure(ref, set, true, true)
		m := c10Closure(ref, set, true, false)
		k.must = slices.Clone(list)
		for g := range m {
			if !set[g] {
				k.must = append(k.must, g)
			}
		}
		slices.Sort(k.must)

		arg := make([]glyph.ID, len(list)+8)
		copy(arg, list)
		for i := len(list); i < len(arg); i++ {
			arg[i] = 0xABCD
		}
		var s *sfnt.Font
		c.Protect(key+":panic", func() { s = f.Subset(arg[:len(list)]) })
		for i, g := range arg {
			if i < len(list) && g != list[i] || i >= len(list) && g != 0xABCD {
				fail(k, "arg", "Subset modified its argument: %v", arg)
			}
		}
		old, d := k.compare(s)
		if d != "" {
			fail(k, "subset", "wrong subset: %s", d)
		}
		c10Stat.subsets++
		c.ObsStr(fmt.Sprint(old))

		if o, ok := f.Outlines.(*cff.Outlines); ok {
			if d := c10CFFSubset(o, ref.Outlines.(*cff.Outlines), arg[:len(list)], k); d != "" {
				fail(k, "cff", "wrong result of cff.Outlines.Subset: %s", d)
			}
		}
		if !write {
			continue
		}
		if !c.Thorough {
			k.mode = 0
		}
		buf := &bytes.Buffer{}
		var err error
		c.Protect(key+":panic", func() { _, err = s.Write(buf) })
		if err != nil {
			fail(k, "write", "the subset cannot be written: %v", err)
		}
		var s2 *sfnt.Font
		c.Protect(key+":panic", func() { s2, err = sfnt.Read(bytes.NewReader(buf.Bytes())) })
		if err != nil {
			fail(k, "read", "the subset cannot be read back: %v", err)
		}
		if n1, n2 := s.NumGlyphs(), s2.NumGlyphs(); n1 != n2 {
			fail(k, "reread", "%d glyphs after writing and reading, want %d", n2, n1)
		}
		if _, d := k.compare(s2); d != "" {
			fail(k, "reread", "wrong subset after writing and reading: %s", d)
		}
		c10Stat.written++
	}
	if d := fontDiff(f, ref); d != "" {
		c.Fail(key+":original", "Subset modified the original font: %s\n%s", d, c10Desc(ref))
	}
}

var c10Stat struct{ subsets, written int64 }

func c10CFFSubset(o, ref *cff.Outlines, list []glyph.ID, k *c10) string {
	s := o.Subset(list)
	if len(s.Glyphs) != len(list) {
		return fmt.Sprintf("%d glyphs for a list of %d", len(s.Glyphs), len(list))
	}
	newGid := map[glyph.ID]glyph.ID{}
	for i, g := range list {
		newGid[g] = glyph.ID(i)
		if d := c10CFFGlyph(matrix.Identity, ref, g, matrix.Identity, s, glyph.ID(i)); d != "" {
			return fmt.Sprintf("glyph %d (was %d): %s", i, g, d)
		}
	}
	if d := deepDiff(ref.ROS, s.ROS); d != "" {
		return "ROS" + d
	}
	return k.encoding(s, newGid)
}

func c10Desc(f *sfnt.Font) string {
	b := &strings.Builder{}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		fmt.Fprintf(b, "TrueType, %d glyphs", len(o.Glyphs))
		for i, g := range o.Glyphs {
			if cc := compGlyphs(g); cc != nil && i < 20 {
				fmt.Fprintf(b, ", %d=%v", i, cc)
			}
		}
		if len(o.Names) < 20 {
			fmt.Fprintf(b, ", names %q", o.Names)
		}
	case *cff.Outlines:
		fmt.Fprintf(b, "CFF, %d glyphs, %d private dictionaries", len(o.Glyphs), len(o.Private))
		if o.IsCIDKeyed() {
			fmt.Fprintf(b, ", CIDs %v", o.GIDToCID[:min(20, len(o.GIDToCID))])
			var fds []int
			for i := range min(20, len(o.Glyphs)) {
				fds = append(fds, o.FDSelect(glyph.ID(i)))
			}
			fmt.Fprintf(b, ", FDSelect %v", fds)
		} else {
			for i, g := range o.Glyphs {
				if i < 20 {
					fmt.Fprintf(b, " %q", g.Name)
				}
			}
			for code, g := range o.Encoding {
				if g != 0 && g < 20 {
					fmt.Fprintf(b, " %d:%d", code, g)
				}
			}
		}
	}
	fmt.Fprintf(b, "\ncmap:")
	for key, data := range f.CMapTable {
		m, _ := refCmapSubtable(data)
		if len(m) < 20 {
			fmt.Fprintf(b, " %v format %d %v", key, rdU16(data, 0), m)
		}
	}
	for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
		if info != nil {
			fmt.Fprintf(b, "\n%s", shapeDesc(info.LookupList, nil, nil))
		}
	}
	return b.String()
}

// c10TT makes a TrueType font where all glyphs are different.
func c10TT(n int) *sfnt.Font {
	c := &fontGen{fixed: map[string]int{"cmap": 3}}
	f := c.font(fkTT)
	o := &glyf.Outlines{Tables: map[string][]byte{}, Maxp: &maxp.TTFInfo{MaxPoints: 8, MaxContours: 2, MaxZones: 2, MaxComponentElements: 2, MaxComponentDepth: 2}}
	for i := 0; i < n; i++ {
		o.Glyphs = append(o.Glyphs, ttSimple(ttBox(i%30000, i%7, i%30000+100+i/300, 500+i%11), nil, 0))
		o.Widths = append(o.Widths, funit.Int16(300+i%30000))
		o.Names = append(o.Names, c10Name(i))
	}
	f.Outlines = o
	return f
}

func c10Name(i int) string {
	if i < len(baseNames) {
		return baseNames[i]
	}
	return fmt.Sprintf("g%03d", i)
}

// c10CFF makes a CFF font where all glyphs are different.
func c10CFF(n, nfd int) *sfnt.Font {
	kind := fkCFF
	if nfd > 0 {
		kind = fkCID1
	}
	c := &fontGen{fixed: map[string]int{"cmap": 3, "glyphs": 1}}
	f := c.font(kind)
	o := f.Outlines.(*cff.Outlines)
	o.Glyphs = nil
	for i := 0; i < n; i++ {
		name := c10Name(i)
		if nfd > 0 {
			name = ""
		}
		o.Glyphs = append(o.Glyphs, cffBox(cff.NewGlyph(name, float64(300+i%30000)), float64(i%30000), float64(i%7), float64(i%30000+100+i/300), float64(500+i%11)))
	}
	if nfd > 0 {
		o.GIDToCID = nil
		for i := 0; i < n; i++ {
			o.GIDToCID = append(o.GIDToCID, cid.CID(i))
		}
		o.Private, o.FontMatrices = nil, nil
		for i := 0; i < nfd; i++ {
			p := defaultPrivate()
			p.StdHW = float64(20 + i)
			o.Private = append(o.Private, p)
			o.FontMatrices = append(o.FontMatrices, matrix.Matrix{1 + float64(i)/8, 0, 0, 1, 0, 0})
		}
		o.FDSelect = func(gid glyph.ID) int { return int(gid) % nfd }
	} else {
		o.Encoding = cff.StandardEncoding(o.Glyphs)
	}
	return f
}

func c10Info(script language.Tag, feats ...*gtab.Feature) *gtab.Info {
	fe := &gtab.Features{Required: 0xFFFF}
	for i := range feats {
		fe.Optional = append(fe.Optional, gtab.FeatureIndex(i))
	}
	return &gtab.Info{ScriptList: gtab.ScriptListInfo{script: fe}, FeatureList: feats}
}

func sub11(delta int, gids ...int) *gtab.Gsub1_1 {
	cov := coverage.Set{}
	for _, g := range gids {
		cov[glyph.ID(g)] = true
	}
	return &gtab.Gsub1_1{Cov: cov, Delta: glyph.ID(delta)}
}

func gids(gg ...int) []glyph.ID {
	var res []glyph.ID
	for _, g := range gg {
		res = append(res, glyph.ID(g))
	}
	return res
}

func lg(out int, in ...int) lig { return lig{gids(in...), glyph.ID(out)} }

var c10Gsub = []func() gtab.LookupList{
	func() gtab.LookupList { return gtab.LookupList{lk(4, 0, sub4(lg(5, 3, 4)))} },
	func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, sub4(lg(5, 3, 3, 4), lg(6, 3, 3), lg(5, 3, 4), lg(2, 1, 1), lg(4, 2, 1)))}
	},
	func() gtab.LookupList { return gtab.LookupList{lk(1, 0, sub11(2, 1, 2, 3))} },
	func() gtab.LookupList { return gtab.LookupList{lk(1, 0, sub11(-1, 2, 4, 6), sub11(-5, 5, 6))} },
	func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, sub4(lg(4, 1, 2)), sub4(lg(5, 1, 2), lg(6, 1, 3), lg(2, 4, 1)), sub4(lg(1, 6, 6)))}
	},
	func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, sub11(1, 1)), lk(4, 0, sub4(lg(3, 2, 2))), lk(4, 0, sub4(lg(4, 3, 2), lg(6, 5, 3)))}
	},
	func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, sub4(lg(6, 5, 4))), lk(1, 0, sub11(3, 1, 2)), lk(1, 0, sub11(1, 5))}
	},
	func() gtab.LookupList { return gtab.LookupList{lk(4, 0, sub4(lg(0, 1, 2), lg(3, 4, 0), lg(5, 0, 0)))} },
	func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, sub4(lg(2, 1))), lk(4, 0), lk(4, 0, sub4(lg(1, 2)), sub4(lg(6, 3)))}
	},
	func() gtab.LookupList { return gtab.LookupList{lk(1, 0, sub11(0, 1, 2, 3, 4, 5, 6))} },
	func() gtab.LookupList { return gtab.LookupList{lk(1, 0, sub11(65535, 1, 2, 3, 4, 5, 6))} },
	func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, sub11(5, 1)), lk(1, 0, sub11(-4, 6)), lk(1, 0, sub11(2, 2)), lk(4, 0, sub4(lg(3, 4, 2, 6), lg(5, 4, 2)))}
	},
}

func c10Gpos() []func() gtab.LookupList {
	pa := func(x int) *gtab.PairAdjust { return &gtab.PairAdjust{First: vr(0, 0, x)} }
	pb := func(x int) *gtab.PairAdjust { return &gtab.PairAdjust{First: vr(x, 2, 0), Second: vr(1, x, 3)} }
	pr := func(a, b int) glyph.Pair { return glyph.Pair{Left: glyph.ID(a), Right: glyph.ID(b)} }
	return []func() gtab.LookupList{
		func() gtab.LookupList { return nil },
		func() gtab.LookupList {
			return gtab.LookupList{lk(2, 0, gtab.Gpos2_1{pr(1, 3): pa(-50), pr(3, 1): pa(30), pr(1, 1): pa(7), pr(5, 6): pa(8), pr(6, 5): pa(-8), pr(2, 4): pa(1)})}
		},
		func() gtab.LookupList {
			m := gtab.Gpos2_1{}
			for i := 0; i < 7; i++ {
				for j := 0; j < 7; j++ {
					m[pr(i, j)] = pa(10*i + j + 1)
				}
			}
			return gtab.LookupList{lk(2, 0, m)}
		},
		func() gtab.LookupList {
			return gtab.LookupList{lk(2, 0, gtab.Gpos2_1{pr(1, 3): pa(-50)}, gtab.Gpos2_1{pr(1, 3): pa(-60), pr(1, 4): pa(5), pr(4, 4): pa(-1)}, gtab.Gpos2_1{pr(4, 4): pa(2), pr(5, 5): pa(3)}), lk(2, 0, gtab.Gpos2_1{pr(6, 6): pa(9), pr(1, 3): pa(11)})}
		},
		func() gtab.LookupList {
			return gtab.LookupList{lk(2, 0, gtab.Gpos2_1{pr(1, 2): pb(4), pr(2, 1): pb(-4), pr(2, 2): pb(9), pr(3, 2): pb(-32768), pr(2, 3): pb(32767)})}
		},
	}
}

func init() {
	all5, all7, few5, few6, few7 := subLists(5), subLists(7), subListsFew(5), subListsFew(6), subListsFew(7)

	// whole fonts from the domain of C01
	fonts := func(lists, listsT [][]glyph.ID) func(c *explore.Ctx) {
		return func(c *explore.Ctx) {
			kind := c.Choose("kind", fkCount)
			g := &fontGen{c: c, dims: dimSet("glyphs", "widths", "upem", "ttshape", "composite", "names", "tttables", "cffshape", "private", "encoding", "ros", "cids", "fdselect", "fdmatrix", "fontmatrix", "cmap", "gsub", "gpos")}
			fixed := map[string]int{}
			f := g.font(kind)
			_ = fixed
			if f.Gdef != nil || !c10Supported(f) {
				c.Skip()
			}
			ll := lists
			if c.Thorough {
				ll = listsT
			}
			part := c.Choose("part", 8)
			c.Exec()
			n := f.NumGlyphs()
			var use [][]glyph.ID
			for i, l := range ll {
				if i%8 == part && int(slices.Max(l)) < n {
					use = append(use, l)
				}
			}
			if n == 300 && part < 2 {
				// all glyphs, in reverse order
				l := []glyph.ID{0}
				for i := 299; i > 0; i -= 1 + 254*part {
					l = append(l, glyph.ID(i))
				}
				use = append(use[:min(len(use), 10)], l)
			}
			if len(use) == 0 {
				return
			}
			again := *g
			again.c = nil
			again.fixed = map[string]int{}
			for _, d := range g.desc {
				if name, val, ok := strings.Cut(d, "="); ok {
					var v int
					fmt.Sscan(val, &v)
					again.fixed[name] = v
				}
			}
			mk := func() *sfnt.Font {
				h := again
				return h.font(kind)
			}
			c10Check(c, "fonts", mk, use, 2, true)
		}
	}

	// layout rules
	gposMenu := c10Gpos()
	layout := func(c *explore.Ctx) {
		prog := c.Choose("gsub", len(c10Gsub)+1)
		gpos := c.Choose("gpos", len(gposMenu))
		if prog > 0 && gpos > 0 && prog%4 != gpos-1 {
			c.Skip()
		}
		kind := c.Choose("kind", 2)
		if !c.Thorough && kind != (prog+gpos)%2 {
			c.Skip()
		}
		order := 1
		if c.Thorough {
			order = 1 + c.Choose("map order", explore.MapOrders)
			if order > 2 && (order%2 == 1 || kind != (prog+gpos)%2) {
				c.Skip()
			}
		} else {
			order = 1 + prog%explore.MapOrders
		}
		part := c.Choose("part", 32)
		c.Exec()
		mk := func() *sfnt.Font {
			f := c10TT(7)
			if kind == 1 {
				f = c10CFF(7, 0)
			}
			f.InstallCMap(cmap.Format12{'A': 1, ' ': 2, 'f': 3, 'i': 4, 0xFB01: 5, 0xFB00: 6})
			if prog > 0 {
				ll := c10Gsub[prog-1]()
				var ff []*gtab.Feature
				for i := range ll {
					ff = append(ff, &gtab.Feature{Tag: []string{"ccmp", "liga", "salt", "ss01"}[i], Lookups: []gtab.LookupIndex{gtab.LookupIndex(i)}})
				}
				f.Gsub = c10Info(tagLatn, ff...)
				if len(ll) > 2 {
					f.Gsub.ScriptList[tagCyrl] = &gtab.Features{Required: 2, Optional: []gtab.FeatureIndex{0}}
				}
				f.Gsub.LookupList = ll
			}
			if ll := gposMenu[gpos](); ll != nil {
				f.Gpos = c10Info(tagDflt, &gtab.Feature{Tag: "kern", Lookups: allLookups(ll)})
				f.Gpos.LookupList = ll
			}
			return f
		}
		var use [][]glyph.ID
		for i, l := range all7 {
			if i%32 == part && (c.Thorough || len(l) <= 5 || len(l) == 7 && i%5 == 0) {
				use = append(use, l)
			}
		}
		explore.SetMapOrder(order)
		defer explore.SetMapOrder(0)
		n := 3
		if c.Thorough && order == 1 && kind == (prog+gpos)%2 {
			n = 4
		}
		c10Check(c, "layout", mk, use, n, true)
	}

	// composite glyphs
	type compShape struct {
		name string
		mk   func(refs []int) *glyf.Glyph
	}
	compShapes := []compShape{
		{"plain", func(refs []int) *glyf.Glyph {
			var rr []glyf.GlyphComponent
			for i, r := range refs {
				rr = append(rr, compRef(r, 10*i, -i, 0))
			}
			return comp(funitR(0, 0, 500, 500), nil, rr...)
		}},
		{"mixed", func(refs []int) *glyf.Glyph {
			var rr []glyf.GlyphComponent
			for i, r := range refs {
				switch i % 3 {
				case 0:
					rr = append(rr, glyf.GlyphComponent{Flags: glyf.FlagArgsAreXYValues | glyf.FlagUseMyMetrics, GlyphIndex: glyph.ID(r), Data: []byte{5, 0xF0}})
				case 1:
					rr = append(rr, glyf.GlyphComponent{Flags: glyf.FlagArg1And2AreWords | glyf.FlagWeHaveATwoByTwo, GlyphIndex: glyph.ID(r), Data: []byte{0, 1, 0, 2, 0x40, 0, 0, 0, 0, 0, 0x40, 0}})
				case 2:
					rr = append(rr, glyf.GlyphComponent{Flags: glyf.FlagArgsAreXYValues | glyf.FlagWeHaveAScale, GlyphIndex: glyph.ID(r), Data: []byte{0, 0, 0x20, 0}})
				}
			}
			return comp(funitR(-5, -5, 300, 200), []byte{0xB0, 1, 0x21}, rr...)
		}},
	}
	all6 := subLists(6)
	composite := func(num int) func(c *explore.Ctx) {
		// the last num glyphs are composites or simple
		return func(c *explore.Ctx) {
			refs := make([][]int, 6)
			for g := 6 - num; g < 6; g++ {
				var menu [][]int
				menu = append(menu, nil)
				for a := 1; a < 6; a++ {
					if a != g {
						menu = append(menu, []int{a})
					}
				}
				for a := 0; a < 6; a++ {
					for b := a; b < 6; b++ {
						if a != g && b != g && (a+b)%3 != 0 {
							menu = append(menu, []int{b, a})
						}
					}
				}
				if num == 2 || c.Thorough {
					menu = append(menu, []int{1, 2, 6 - g}, []int{2, 3, 1, 0})
				}
				refs[g] = explore.Pick(c, "refs", menu)
			}
			// no cycles
			state := make([]int, 6)
			var visit func(g int) bool
			visit = func(g int) bool {
				if state[g] == 1 {
					return false
				}
				if state[g] == 2 {
					return true
				}
				state[g] = 1
				for _, r := range refs[g] {
					if !visit(r) {
						return false
					}
				}
				state[g] = 2
				return true
			}
			for g := range refs {
				if !visit(g) {
					c.Skip()
				}
			}
			variant := 0
			if num == 2 {
				variant = c.Choose("variant", len(compShapes)*3)
			}
			c.Exec()
			sh := compShapes[variant%len(compShapes)]
			mk := func() *sfnt.Font {
				f := c10TT(6)
				o := f.Outlines.(*glyf.Outlines)
				for g, rr := range refs {
					if rr != nil {
						o.Glyphs[g] = sh.mk(rr)
					}
				}
				switch variant / len(compShapes) {
				case 1: // blank components, no names
					o.Glyphs[1] = nil
					o.Names = nil
				case 2: // short list of names, glyphs reachable via a ligature
					o.Names = o.Names[:3]
					f.Gsub = c10Info(tagLatn, &gtab.Feature{Tag: "liga", Lookups: []gtab.LookupIndex{0}})
					f.Gsub.LookupList = gtab.LookupList{lk(4, 0, sub4(lg(5, 1, 2), lg(4, 3, 3)))}
				}
				m := cmap.Format12{}
				for i := 1; i < 6; i++ {
					m[uint32('a'+i)] = glyph.ID(i)
				}
				f.InstallCMap(m)
				return f
			}
			explore.SetMapOrder(1 + (len(refs[5])+2*len(refs[4])+variant)%explore.MapOrders)
			defer explore.SetMapOrder(0)
			lists := all6
			if !c.Thorough {
				lists = few6
			}
			c10Check(c, "composite", mk, lists, 2, num == 2 && (c.Thorough || variant%2 == 0))
		}
	}

	// character maps
	cmaps := func(c *explore.Ctx) {
		format := explore.Pick(c, "format", []int{0, 4, 6, 12})
		keys := []cmap.Key{{PlatformID: 3, EncodingID: 1}, {PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 1, EncodingID: 0}, {PlatformID: 1, EncodingID: 0, Language: 12}, {PlatformID: 3, EncodingID: 0}}
		key := explore.Pick(c, "key", keys)
		if key.PlatformID == 1 && format == 12 {
			c.Skip()
		}
		first := []int{0, 1, 'A', 0x80, 0xFF, 0x100, 0xD7FF, 0xF000, 0xFFFC, 0xFFFF, 0x10000, 0x10FFFC}
		base := explore.Pick(c, "first", first)
		pat := explore.Pick(c, "pattern", [][]int{{1, 2, 3, 4}, {4, 3, 2, 1}, {1, 0, 2, 2}, {3}, {0, 0, 3, 4}, {1, 1, 1, 1}, {2, 0, 0, 2}})
		second := explore.Pick(c, "other", []int{0, 1, 2})
		if !c.Thorough && (second == 2 && base != 'A' || base == 1 || base == 0x80 || base == 0xF000) {
			c.Skip()
		}
		c.Exec()
		mm := map[int]int{}
		for i, g := range pat {
			code := base + i
			if g != 0 && code <= 0x10FFFF && (format == 12 || code <= 0xFFFF) && (format != 0 || code <= 0xFF) {
				mm[code] = g
			}
		}
		var data []byte
		switch format {
		case 0:
			var t cmap.Format0
			for code, g := range mm {
				t.Data[code] = byte(g)
			}
			data = t.Encode(key.Language)
		case 4:
			t := cmap.Format4{}
			for code, g := range mm {
				t[uint16(code)] = glyph.ID(g)
			}
			data = t.Encode(key.Language)
		case 6:
			if base > 0xFFFF {
				c.Skip()
			}
			var vals []int
			for i, g := range pat {
				if base+i <= 0xFFFF {
					vals = append(vals, g)
				}
			}
			data = cat(be16(6, 10+2*len(vals), int(key.Language), base, len(vals)), be16(vals...))
		case 12:
			t := cmap.Format12{}
			for code, g := range mm {
				t[uint32(code)] = glyph.ID(g)
			}
			data = t.Encode(key.Language)
		}
		mk := func() *sfnt.Font {
			f := c10TT(5)
			f.CMapTable = cmap.Table{key: slices.Clone(data)}
			switch second {
			case 1:
				k2 := keys[0]
				if key == k2 {
					k2 = keys[2]
				}
				f.CMapTable[k2] = cmap.Format4{'A': 4, 'B': 3, 'C': 2}.Encode(0)
			case 2: // shared subtable
				k2 := keys[3]
				if key == k2 {
					k2 = keys[1]
				}
				f.CMapTable[k2] = f.CMapTable[key]
			}
			return f
		}
		explore.SetMapOrder(1 + base%explore.MapOrders)
		defer explore.SetMapOrder(0)
		lists := all5
		if !c.Thorough {
			lists = few5
		}
		c10Check(c, "cmap", mk, lists, 2, c.Thorough || second == 1)
	}

	// font dictionaries
	fdsel := func(c *explore.Ctx) {
		nfd := 1 + c.Choose("fds", 3)
		var fd [5]int
		for i := range fd {
			fd[i] = c.Choose("fd", nfd)
		}
		cids := explore.Pick(c, "cids", [][]cid.CID{{0, 1, 2, 3, 4}, {0, 4, 3, 2, 1}, {0, 65535, 7, 65534, 1}})
		same := c.Bool("equal dictionaries")
		c.Exec()
		mk := func() *sfnt.Font {
			f := c10CFF(5, nfd)
			o := f.Outlines.(*cff.Outlines)
			o.FDSelect = func(gid glyph.ID) int { return fd[gid] }
			copy(o.GIDToCID, cids)
			if same { // only the matrices differ
				for i := range o.Private {
					o.Private[i] = defaultPrivate()
				}
			} else if nfd > 1 { // only the dictionaries differ
				o.FontMatrices[1] = o.FontMatrices[0]
			}
			return f
		}
		c10Check(c, "fdselect", mk, all5, 2, true)
	}

	// encodings
	encoding := func(c *explore.Ctx) {
		var enc [4]int
		for i := range enc {
			enc[i] = c.Choose("gid", 5)
		}
		base := explore.Pick(c, "first code", []int{0, 65, 252})
		more := c.Choose("more", 3)
		c.Exec()
		mk := func() *sfnt.Font {
			f := c10CFF(5, 0)
			o := f.Outlines.(*cff.Outlines)
			o.Encoding = make([]glyph.ID, 256)
			for i, g := range enc {
				o.Encoding[base+i] = glyph.ID(g)
			}
			switch more {
			case 1:
				o.Encoding[200], o.Encoding[100] = 3, 2
			case 2:
				for i := range 256 {
					if i < base || i >= base+4 {
						o.Encoding[i] = glyph.ID(1 + i%4)
					}
				}
			}
			return f
		}
		lists := all5
		if !c.Thorough {
			lists = few5
		}
		c10Check(c, "encoding", mk, lists, 2, c.Thorough || more == 0)
	}

	// many glyphs
	big := func(c *explore.Ctx) {
		n := explore.Pick(c, "glyphs", []int{255, 256, 257, 300, 1000, 5000})
		kind := c.Choose("kind", 3)
		what := c.Choose("list", 6)
		if n > 1000 && !c.Thorough {
			c.Skip()
		}
		c.Exec()
		mk := func() *sfnt.Font {
			var f *sfnt.Font
			switch kind {
			case 0:
				f = c10TT(n)
				o := f.Outlines.(*glyf.Outlines)
				o.Glyphs[7] = comp(funitR(0, 0, 9, 9), nil, compRef(n-1, 0, 0, 0), compRef(n-2, 1, 1, 0))
				o.Glyphs[n-1] = comp(funitR(0, 0, 9, 9), nil, compRef(100, 0, 0, 0))
			case 1:
				f = c10CFF(n, 0)
				o := f.Outlines.(*cff.Outlines)
				for i := range o.Encoding {
					o.Encoding[i] = glyph.ID((i * 77) % n)
				}
			case 2:
				f = c10CFF(n, min(n, 256))
			}
			f.CMapTable = cmap.Table{}
			var t0 cmap.Format0
			t4, t12 := cmap.Format4{}, cmap.Format12{}
			for i := 1; i < n; i++ {
				if i < 256 {
					t0.Data[i] = byte(256 - i)
					if n < 256 {
						t0.Data[i] = byte(n - 1 - i%n)
					}
				}
				t4[uint16(1000+i)] = glyph.ID(i)
				t12[uint32(0x10000+3*i)] = glyph.ID(i)
			}
			for code := range t0.Data {
				if int(t0.Data[code]) >= n {
					t0.Data[code] = 0
				}
			}
			f.CMapTable[cmap.Key{PlatformID: 1}] = t0.Encode(0)
			f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 3}] = t4.Encode(0)
			f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 10}] = t12.Encode(0)
			if n < 1000 {
				f.Gpos = c10Info(tagDflt, &gtab.Feature{Tag: "kern", Lookups: []gtab.LookupIndex{0}})
				m := gtab.Gpos2_1{}
				for i := 1; i < n; i++ {
					m[glyph.Pair{Left: glyph.ID(i), Right: glyph.ID(n - i)}] = &gtab.PairAdjust{First: vr(0, 0, i)}
				}
				f.Gpos.LookupList = gtab.LookupList{lk(2, 0, m)}
			}
			return f
		}
		l := []glyph.ID{0}
		switch what {
		case 0: // all
			for i := 1; i < n; i++ {
				l = append(l, glyph.ID(i))
			}
		case 1: // reversed
			for i := n - 1; i > 0; i-- {
				l = append(l, glyph.ID(i))
			}
		case 2: // even, then odd
			for i := 2; i < n; i += 2 {
				l = append(l, glyph.ID(i))
			}
			for i := 1; i < n; i += 2 {
				l = append(l, glyph.ID(i))
			}
		case 3: // every third, backwards
			for i := n - 1; i > 0; i -= 3 {
				l = append(l, glyph.ID(i))
			}
		case 4: // rotated
			for i := 1; i < n; i++ {
				l = append(l, glyph.ID(1+(i+n/2)%(n-1)))
			}
		case 5: // just the composite glyph
			l = append(l, 7)
		}
		seqN := 2
		if len(l) > 5 {
			seqN = 1
		}
		c10Check(c, "big", mk, [][]glyph.ID{l}, seqN, true)
	}

	run.Register(&run.Property{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "the subset (and the subset after writing and reading) is compared with the original font through the index map: glyph data, names, widths, CIDs, private dictionaries, font matrices, component references, encodings, every character map subtable, and the results of shaping all short glyph sequences; the original font and the argument stay unchanged",
		Assumptions: []string{
			"characters which map to additional glyphs (ligatures, components) may be mapped or not mapped",
			"only layout data which the subsetter supports (GSUB 1.1 and 4.1, GPOS 2.1, no GDEF); composite glyphs without cycles",
		},
		Drivers: []run.Driver{
			{Name: "fonts", Run: fonts(few7, few7), Weight: 16, Dev: 1, DevThorough: 2, Bounds: "5 kinds of fonts with <= 1 (thorough 2) feature deviations x all subsets of 7 glyphs in 3 orders"},
			{Name: "layout", Run: layout, Weight: 14, Bounds: "12 GSUB programs and 4 GPOS programs x TrueType/CFF x all lists of up to 5 of 7 glyphs and some of the longer ones (thorough: all 1957 lists, 5 map iteration orders); shaping of all sequences of length <= 3 (thorough 4) with all feature combinations"},
			{Name: "composite2", Run: composite(2), Weight: 3, Bounds: "6 glyphs, 2 of them arbitrary composites of up to 4 components (5 kinds of components, instructions, blank components, missing names, ligatures of composites) x all subsets in 3 orders (thorough: all 326 lists)"},
			{Name: "composite3", Run: composite(3), Weight: 3, Bounds: "6 glyphs, all acyclic graphs where 3 glyphs are composites of up to 2 components x all subsets in 3 orders (thorough: all 326 lists)"},
			{Name: "cmap", Run: cmaps, Weight: 3, Bounds: "formats 0, 4, 6, 12 x 7 platforms x 9 (thorough 12) code ranges x 7 glyph patterns x other subtables x all subsets of 5 glyphs in 3 orders (thorough: all 65 lists)"},
			{Name: "fdselect", Run: fdsel, Weight: 2, Bounds: "all FDSelect functions from 5 glyphs to 1-3 font dictionaries x 3 CID assignments x all 65 lists"},
			{Name: "encoding", Run: encoding, Weight: 2, Bounds: "all assignments of 5 glyphs to 4 codes x 3 code ranges x 3 other encodings x all subsets (thorough: all 65 lists)"},
			{Name: "big", Run: big, Weight: 1, Bounds: "fonts with 255-1000 (thorough 5000) glyphs of 3 kinds x 6 lists"},
		},
	})
}

func c10Supported(f *sfnt.Font) bool {
	for _, l := range lookupsOf(f.Gsub) {
		for _, st := range l.Subtables {
			switch st.(type) {
			case *gtab.Gsub1_1, *gtab.Gsub4_1:
			default:
				return false
			}
		}
	}
	for _, l := range lookupsOf(f.Gpos) {
		for _, st := range l.Subtables {
			if _, ok := st.(gtab.Gpos2_1); !ok {
				return false
			}
		}
	}
	return true
}
