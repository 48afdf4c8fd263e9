package checks

import (
	"fmt"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/mc/explore"
	"verif/mc/run"
)

type c19Font struct {
	f     *sfnt.Font
	names []string
	chars map[rune]glyph.ID
	byGid map[glyph.ID]rune
}

const c19N = 16

// c19Fonts makes the fonts used for the lookup language.
func c19Fonts() []*c19Font {
	letters := []string{".notdef", "A", "B", "C", "D", "E", "F", "G", "x", "acute", "f_i", "A.alt", "to", "first", "class", "mark"}
	odd := []string{"", "class", "A", "9", "a-b", "A", "é", "bad name", "inputclass", "GSUB1", "_", ".a", "\"", "\x80", "5x", "second"}
	lc := map[rune]glyph.ID{'A': 1, 'B': 2, 'C': 3, 'D': 4, 'E': 5, 'F': 6, 'x': 8, 'é': 9}
	oc := map[rune]glyph.ID{'"': 1, '\\': 2, '\n': 3, '\t': 4, 7: 5, 0xA0: 6, 0x7F: 7, 0xAD: 8, '\r': 9, 'A': 10, 'a': 10, ' ': 11, '-': 12, 0x301: 13, 0x85: 14, 0x300: 15}
	wc := map[rune]glyph.ID{'"': 1, '\n': 3, 0x1F600: 7, 0xFFFD: 8, 'a': 10, 0x85: 14, 0x2028: 15}
	var res []*c19Font
	add := func(kind int, names []string, chars map[rune]glyph.ID, extra cmap.Format12) {
		m := map[rune]int{}
		for r, g := range chars {
			m[r] = int(g)
		}
		f := c20Font(kind, c19N, slices.Clone(names))
		if kind == c20TT && names == nil {
			f.Outlines.(*glyf.Outlines).Names = nil
		}
		c20Cmap(f, 1, m)
		if extra != nil {
			for r, g := range chars {
				extra[uint32(r)] = g
			}
			f.CMapTable = cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 10}: extra.Encode(0)}
		}
		x := &c19Font{f: f, names: make([]string, c19N), chars: chars, byGid: map[glyph.ID]rune{}}
		copy(x.names, names)
		for r, g := range chars {
			if old, ok := x.byGid[g]; !ok || r < old {
				x.byGid[g] = r
			}
		}
		res = append(res, x)
	}
	add(c20TT, letters, lc, nil)
	add(c20TT, nil, lc, nil)
	add(c20CFF, letters, nil, nil)
	add(c20TT, nil, nil, nil)
	add(c20CFF, odd, oc, nil)
	add(c20TT, letters[:4], oc, nil)
	// the remaining fonts have wide code ranges, which makes them slow
	add(c20TT, letters[:4], wc, nil)
	add(c20CID, nil, lc, cmap.Format12{0x41 + 0x20000: 77, 0x10FFFF: 65535, 0xD800: 3, 'Q': 16})
	return res
}

func (x *c19Font) lookup(name string) (glyph.ID, bool) {
	res, ok := glyph.ID(0), false
	for i, n := range x.names {
		if n == name && n != "" {
			res, ok = glyph.ID(i), true
		}
	}
	return res, ok
}

// c19Style selects among the equivalent ways of writing things.
type c19Style struct {
	glyphs int // 0 names, 1 numbers, 2 strings, 3 one string for several glyphs
	ranges bool
	noise  int
	bare   bool // leave out everything optional
	flags  int  // order of flags
}

type c19Writer struct {
	strings.Builder
	x *c19Font
	s c19Style
}

func (w *c19Writer) add(s string) { w.WriteString(s) }

func (w *c19Writer) sp() {
	switch w.s.noise {
	case 1:
		w.add(" \t ")
	case 2:
		w.add("  ")
	default:
		w.add(" ")
	}
}

// nl writes a line break where one is allowed.
func (w *c19Writer) nl() {
	switch w.s.noise {
	case 1:
		w.add(" # comment -> \" [\n\t")
	case 2:
		w.add("\n")
	default:
		w.add(" ")
	}
}

func (w *c19Writer) quote(r rune) string {
	switch r {
	case '\n':
		return `\n`
	case '\r':
		return `\r`
	case '\t':
		return `\t`
	case '"', '\\':
		return `\` + string(r)
	case 'A':
		if w.s.noise == 1 {
			return `\A`
		}
	}
	return string(r)
}

func (w *c19Writer) glyph(g glyph.ID) string {
	if r, ok := w.x.byGid[g]; ok && w.s.glyphs >= 2 {
		return `"` + w.quote(r) + `"`
	}
	if w.s.glyphs != 1 {
		name := w.x.names[g]
		ok := name != "" && !slices.Contains([]string{"class", "inputclass", "backtrackclass", "lookaheadclass"}, name)
		for i, r := range name {
			if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
				ok = false
			}
		}
		if h, found := w.x.lookup(name); ok && found && h == g {
			return name
		}
	}
	if w.s.noise == 2 {
		return fmt.Sprintf("+%d", g)
	}
	return strconv.Itoa(int(g))
}

func (w *c19Writer) list(gg []glyph.ID) {
	if w.s.glyphs == 3 && len(gg) > 1 {
		s := `"`
		for _, g := range gg {
			r, ok := w.x.byGid[g]
			if !ok {
				s = ""
				break
			}
			s += w.quote(r)
		}
		if s != "" {
			w.add(s + `"`)
			return
		}
	}
	for i := 0; i < len(gg); i++ {
		if i > 0 {
			w.sp()
		}
		w.add(w.glyph(gg[i]))
		if w.s.ranges {
			for _, d := range []int{1, -1} {
				j := i
				for j+1 < len(gg) && int(gg[j+1]) == int(gg[j])+d {
					j++
				}
				if j > i {
					w.add(" - ")
					w.add(w.glyph(gg[j]))
					i = j
					break
				}
			}
		}
	}
}

func (w *c19Writer) set(gg []glyph.ID) {
	w.add("[")
	if w.s.noise == 1 {
		// order and repetitions do not matter
		rev := slices.Clone(gg)
		slices.Reverse(rev)
		w.list(rev)
		if len(gg) > 0 {
			w.add(" ")
			w.add(w.glyph(gg[0]))
		}
	} else {
		w.list(gg)
	}
	w.add("]")
}

func (w *c19Writer) actions(aa []gtab.SeqLookup) {
	for _, a := range aa {
		w.sp()
		if w.s.noise == 2 {
			w.add(fmt.Sprintf("%d @ +%d", a.LookupListIndex, a.SequenceIndex))
		} else {
			w.add(fmt.Sprintf("%d@%d", a.LookupListIndex, a.SequenceIndex))
		}
	}
}

func (w *c19Writer) comma(first *bool) {
	if !*first {
		w.add(",")
		w.nl()
	}
	*first = false
}

func (w *c19Writer) arrow() {
	if w.s.bare {
		w.add("->")
	} else {
		w.add(" -> ")
	}
}

func (w *c19Writer) value(v *gtab.GposValueRecord) {
	if v == nil {
		if w.s.noise == 1 {
			w.add("x 0")
			return
		}
		w.add("_")
		return
	}
	var parts []string
	put := func(name string, x funit.Int16) {
		if x != 0 || w.s.noise == 1 {
			if w.s.noise == 0 {
				parts = append(parts, fmt.Sprintf("%s%+d", name, x))
			} else {
				parts = append(parts, fmt.Sprintf("%s %d", name, x))
			}
		}
	}
	if w.s.noise == 2 {
		put("dx", v.XAdvance)
		put("y", v.YPlacement)
		put("x", v.XPlacement)
	} else {
		put("x", v.XPlacement)
		put("y", v.YPlacement)
		put("dx", v.XAdvance)
	}
	w.add(strings.Join(parts, " "))
}

func (w *c19Writer) pair(p *gtab.PairAdjust) {
	w.value(p.First)
	if p.Second != nil {
		w.add(" & ")
		w.value(p.Second)
	}
}

func (w *c19Writer) classes(keyword string, prefix string, cd classdef.Table) {
	n := 0
	for _, k := range cd {
		n = max(n, int(k))
	}
	for k := 1; k <= n; k++ {
		var gg []glyph.ID
		for g, x := range cd {
			if int(x) == k {
				gg = append(gg, g)
			}
		}
		slices.Sort(gg)
		w.add(fmt.Sprintf(" %s :%s%d:", keyword, prefix, k))
		if !w.s.bare {
			w.add(" = ")
		}
		w.set(gg)
		w.nl()
	}
}

func (w *c19Writer) classSeq(prefix string, cc []uint16) {
	for _, k := range cc {
		w.sp()
		if k == 0 {
			w.add("::")
		} else {
			w.add(fmt.Sprintf(":%s%d:", prefix, k))
		}
	}
	w.sp()
}

func c19Rev[T any](x []T) []T {
	x = slices.Clone(x)
	slices.Reverse(x)
	return x
}

func (w *c19Writer) classLists(cd classdef.Table) {
	n := 0
	for _, k := range cd {
		n = max(n, int(k))
	}
	for k := 1; k <= n; k++ {
		var gg []glyph.ID
		for g, x := range cd {
			if int(x) == k {
				gg = append(gg, g)
			}
		}
		slices.Sort(gg)
		if k > 1 {
			w.add(",")
		}
		w.sp()
		w.list(gg)
	}
	w.add(";")
	w.nl()
}

func (w *c19Writer) subtable(st gtab.Subtable) {
	first := true
	switch st := st.(type) {
	case *gtab.Gsub1_1:
		for _, g := range st.Cov.Glyphs() {
			w.comma(&first)
			w.list([]glyph.ID{g})
			w.arrow()
			w.list([]glyph.ID{g + st.Delta})
		}
	case *gtab.Gsub1_2:
		if w.s.ranges {
			w.list(st.Cov.Glyphs())
			w.arrow()
			w.list(st.SubstituteGlyphIDs)
			break
		}
		for i, g := range st.Cov.Glyphs() {
			w.comma(&first)
			w.list([]glyph.ID{g})
			w.arrow()
			w.list(st.SubstituteGlyphIDs[i : i+1])
		}
	case *gtab.Gsub2_1:
		for i, g := range st.Cov.Glyphs() {
			w.comma(&first)
			w.list([]glyph.ID{g})
			w.arrow()
			w.list(st.Repl[i])
		}
	case *gtab.Gsub3_1:
		for i, g := range st.Cov.Glyphs() {
			w.comma(&first)
			w.list([]glyph.ID{g})
			w.arrow()
			w.set(st.Alternates[i])
		}
	case *gtab.Gsub4_1:
		for i, g := range st.Cov.Glyphs() {
			for _, l := range st.Repl[i] {
				w.comma(&first)
				w.list(append([]glyph.ID{g}, l.In...))
				w.arrow()
				w.list([]glyph.ID{l.Out})
			}
		}
	case *gtab.SeqContext1:
		for i, g := range st.Cov.Glyphs() {
			for _, r := range st.Rules[i] {
				w.comma(&first)
				w.list(append([]glyph.ID{g}, r.Input...))
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.SeqContext2:
		w.classes("class", "K", st.Input)
		w.add("/")
		w.list(st.Cov.Glyphs())
		w.add("/")
		for k, rr := range st.Rules {
			for _, r := range rr {
				w.comma(&first)
				w.classSeq("K", append([]uint16{uint16(k)}, r.Input...))
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.SeqContext3:
		for _, s := range st.Input {
			w.set(s.Glyphs())
		}
		w.arrow()
		w.actions(st.Actions)
	case *gtab.ChainedSeqContext1:
		for i, g := range st.Cov.Glyphs() {
			for _, r := range st.Rules[i] {
				w.comma(&first)
				w.list(c19Rev(r.Backtrack))
				w.add("|")
				w.list(append([]glyph.ID{g}, r.Input...))
				w.add("|")
				w.list(r.Lookahead)
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.ChainedSeqContext2:
		w.classes("lookaheadclass", "L", st.Lookahead)
		w.classes("inputclass", "I", st.Input)
		w.classes("backtrackclass", "B", st.Backtrack)
		w.add("/")
		w.list(st.Cov.Glyphs())
		w.add("/")
		for k, rr := range st.Rules {
			for _, r := range rr {
				w.comma(&first)
				w.classSeq("B", c19Rev(r.Backtrack))
				w.add("|")
				w.classSeq("I", append([]uint16{uint16(k)}, r.Input...))
				w.add("|")
				w.classSeq("L", r.Lookahead)
				w.arrow()
				w.actions(r.Actions)
			}
		}
	case *gtab.ChainedSeqContext3:
		for _, s := range c19Rev(st.Backtrack) {
			w.set(s.Glyphs())
		}
		w.add("|")
		for _, s := range st.Input {
			w.set(s.Glyphs())
		}
		w.add("|")
		for _, s := range st.Lookahead {
			w.set(s.Glyphs())
		}
		w.arrow()
		w.actions(st.Actions)
	case *gtab.Gpos1_1:
		w.set(st.Cov.Glyphs())
		w.arrow()
		w.value(st.Adjust)
	case *gtab.Gpos1_2:
		for i, g := range st.Cov.Glyphs() {
			w.comma(&first)
			w.list([]glyph.ID{g})
			w.arrow()
			w.value(st.Adjust[i])
		}
	case gtab.Gpos2_1:
		var pp []glyph.Pair
		for p := range st {
			pp = append(pp, p)
		}
		sort.Slice(pp, func(i, j int) bool {
			if pp[i].Right != pp[j].Right {
				return pp[i].Right < pp[j].Right
			}
			return pp[i].Left < pp[j].Left
		})
		for _, p := range pp {
			w.comma(&first)
			w.list([]glyph.ID{p.Left, p.Right})
			w.arrow()
			w.pair(st[p])
		}
	case *gtab.Gpos2_2:
		w.add("/")
		w.list(st.Cov.Glyphs())
		w.add("/")
		w.nl()
		w.add("first")
		w.classLists(st.Class1)
		w.add("second")
		w.classLists(st.Class2)
		for _, row := range st.Adjust {
			for j, p := range row {
				if j > 0 {
					w.add(", ")
				}
				w.pair(p)
			}
			w.add(";")
			w.nl()
		}
	case *gtab.Gpos3_1:
		for i, g := range st.Cov.Glyphs() {
			if i > 0 {
				w.add(";")
				w.nl()
			}
			w.add(w.glyph(g))
			if w.s.bare && w.s.glyphs == 0 && unicode.IsLetter(rune(w.glyph(g)[0])) && st.Records[i].Entry.X < 0 {
				w.add(":")
			} else {
				w.add(" : ")
			}
			r := st.Records[i]
			w.add(fmt.Sprintf("%d,%d to %d , %d", r.Entry.X, r.Entry.Y, r.Exit.X, r.Exit.Y))
		}
	case *gtab.Gpos4_1:
		for i, g := range st.MarkCov.Glyphs() {
			w.add(" mark ")
			w.add(w.glyph(g))
			r := st.MarkArray[i]
			w.add(fmt.Sprintf(": %d@%d,%d;", r.Class, r.X, r.Y))
			w.nl()
		}
		for i, g := range st.BaseCov.Glyphs() {
			w.add(" base ")
			w.add(w.glyph(g))
			w.add(":")
			for j, a := range st.BaseArray[i] {
				if j > 0 && !w.s.bare {
					w.add(",")
				}
				w.add(fmt.Sprintf(" @%d,%d", a.X, a.Y))
			}
			w.add(";")
			w.nl()
		}
	default:
		panic(fmt.Sprintf("%T", st))
	}
}

func c19Table(ll gtab.LookupList) string {
	res := ""
	for _, l := range ll {
		for _, st := range l.Subtables {
			s := "GSUB"
			if strings.Contains(fmt.Sprintf("%T", st), "Gpos") {
				s = "GPOS"
			}
			if res != "" && s != res {
				return "mixed"
			}
			res = s
		}
	}
	return res
}

func c19Render(x *c19Font, ll gtab.LookupList, s c19Style) string {
	w := &c19Writer{x: x, s: s}
	for i, l := range ll {
		if i > 0 {
			if s.bare && ll[i-1].Meta.LookupType != 3 {
				w.add(";")
			} else {
				w.add("\n")
			}
		}
		w.add(fmt.Sprintf("%s%d", c19Table(gtab.LookupList{l}), l.Meta.LookupType))
		if s.bare {
			w.add(" ")
		} else {
			w.add(":")
			w.nl()
		}
		ff := []string{}
		for bit, name := range map[gtab.LookupFlags]string{gtab.IgnoreMarks: "marks", gtab.IgnoreLigatures: "ligs", gtab.IgnoreBaseGlyphs: "base"} {
			if l.Meta.LookupFlags&bit != 0 {
				ff = append(ff, name)
			}
		}
		sort.Strings(ff)
		if s.noise == 1 {
			slices.Reverse(ff)
		}
		for _, f := range ff {
			w.add(" -" + f + " ")
		}
		if len(ff) > 0 {
			w.nl()
		}
		for j, st := range l.Subtables {
			if j > 0 {
				w.add(" ||")
				w.nl()
			}
			w.subtable(st)
		}
	}
	return w.String()
}

var c19Line = regexp.MustCompile(`^([0-9]+):`)

// c19Parse parses a text and checks everything which must hold for every text.
func c19Parse(c *explore.Ctx, x *c19Font, text string) (ll gtab.LookupList, err error) {
	before := runtime.NumGoroutine()
	c.Protect("parse", func() { ll, err = builder.Parse(x.f, text) })
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i < 1000 {
			runtime.Gosched()
			continue
		}
		if i > 2000 {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("leak", "goroutine still running after parsing %q: %s", clip(text, 300), buf)
		}
		time.Sleep(time.Millisecond)
	}
	if err != nil {
		m := c19Line.FindStringSubmatch(err.Error())
		if m == nil {
			c.Fail("line", "error without line number for %q: %v", clip(text, 300), err)
		}
		n, _ := strconv.Atoi(m[1])
		if n < 1 || n > 1+strings.Count(text, "\n") {
			c.Fail("line", "line %d in an error for %q: %v", n, clip(text, 300), err)
		}
		if len(ll) != 0 {
			c.Fail("both", "lookups and an error for %q: %v", clip(text, 300), err)
		}
	}
	return ll, err
}

func c19Explain(c *explore.Ctx, x *c19Font, ll gtab.LookupList) string {
	f := *x.f
	info := &gtab.Info{LookupList: ll}
	var res string
	c.Protect("explain", func() {
		if c19Table(ll) == "GPOS" {
			f.Gpos = info
			parts := builder.ExplainGpos(&f)
			if len(parts) != len(ll) {
				c.Fail("explain", "%d descriptions for %d lookups", len(parts), len(ll))
			}
			res = strings.Join(parts, "\n")
		} else {
			f.Gsub = info
			res = builder.ExplainGsub(&f)
		}
	})
	return res
}

// c19Back checks that describing a lookup list and parsing it gives the list back.
func c19Back(c *explore.Ctx, x *c19Font, ll gtab.LookupList, from string) {
	// all descriptions which can arise from different map iteration orders
	var descs []string
	for o := 1; o <= explore.MapOrders; o++ {
		explore.SetMapOrder(o)
		desc := c19Explain(c, x, ll)
		explore.SetMapOrder(0)
		if !slices.Contains(descs, desc) {
			descs = append(descs, desc)
		}
	}
	desc := descs[0]
	for _, desc := range descs {
		back, err := c19Parse(c, x, desc)
		if err != nil {
			c.Fail("back", "%v for the description\n%s\nof\n%s", err, desc, from)
		}
		if d := deepDiff(ll, back); d != "" {
			c.Fail("back", "%s after parsing the description\n%s\nof\n%s", d, desc, from)
		}
	}
	c.ObsStr(desc)
}

func c19List(c *explore.Ctx, x *c19Font, ll gtab.LookupList, s c19Style) {
	text := c19Render(x, ll, s)
	got, err := c19Parse(c, x, text)
	if err != nil {
		c.Fail("meaning", "%v for\n%s", err, text)
	}
	if d := deepDiff(ll, got); d != "" {
		c.Fail("meaning", "%s for\n%s", d, text)
	}
	c19Back(c, x, ll, text)
}

// c19Any checks an arbitrary text.
func c19Any(c *explore.Ctx, x *c19Font, text string) {
	ll, err := c19Parse(c, x, text)
	if err != nil || len(ll) == 0 {
		return
	}
	switch c19Table(ll) {
	case "mixed", "":
		return
	}
	c19Back(c, x, ll, text)
}

// c19Lists lists all lists of glyphs of the given lengths over 1..n.
func c19Lists(lo, hi, n int) [][]glyph.ID {
	var res [][]glyph.ID
	var rec func(p []glyph.ID)
	rec = func(p []glyph.ID) {
		if len(p) >= lo {
			res = append(res, slices.Clone(p))
		}
		if len(p) == hi {
			return
		}
		for g := 1; g <= n; g++ {
			rec(append(p, glyph.ID(g)))
		}
	}
	rec(nil)
	return res
}

func c19Subset(m int) []glyph.ID {
	var res []glyph.ID
	for g := 0; m>>g != 0; g++ {
		if m>>g&1 != 0 {
			res = append(res, glyph.ID(g+1))
		}
	}
	return res
}

func c19Gsub1(m map[glyph.ID]glyph.ID) gtab.Subtable {
	var pairs []glyph.ID
	var from []glyph.ID
	for g := range m {
		from = append(from, g)
	}
	slices.Sort(from)
	same := true
	for _, g := range from {
		pairs = append(pairs, g, m[g])
		same = same && m[g]-g == m[from[0]]-from[0]
	}
	if same {
		return &gtab.Gsub1_1{Cov: setOf(from...), Delta: m[from[0]] - from[0]}
	}
	return sub12(pairs...)
}

type c19Rule struct {
	back, in, look []glyph.ID
	act            []gtab.SeqLookup
}

// c19Ctx1 makes format 1 subtables out of rules.
func c19Ctx1(chained bool, rules []c19Rule) gtab.Subtable {
	var first []glyph.ID
	for _, r := range rules {
		if !slices.Contains(first, r.in[0]) {
			first = append(first, r.in[0])
		}
	}
	cov := covOf(first...)
	if chained {
		st := &gtab.ChainedSeqContext1{Cov: cov, Rules: make([][]*gtab.ChainedSeqRule, len(first))}
		for _, r := range rules {
			i := cov[r.in[0]]
			st.Rules[i] = append(st.Rules[i], &gtab.ChainedSeqRule{Backtrack: r.back, Input: r.in[1:], Lookahead: r.look, Actions: r.act})
		}
		return st
	}
	st := &gtab.SeqContext1{Cov: cov, Rules: make([][]*gtab.SeqRule, len(first))}
	for _, r := range rules {
		i := cov[r.in[0]]
		st.Rules[i] = append(st.Rules[i], &gtab.SeqRule{Input: r.in[1:], Actions: r.act})
	}
	return st
}

func c19Classes(gg []glyph.ID) []uint16 {
	var res []uint16
	for _, g := range gg {
		res = append(res, uint16(g)-1)
	}
	return res
}

func c19ClassDef(k int) classdef.Table {
	// classes of the glyphs 1, 2, 3
	pats := [][3]uint16{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 2, 0}, {2, 1, 0}, {0, 1, 2}, {1, 2, 1}, {2, 1, 2}}
	res := classdef.Table{}
	for i, x := range pats[k] {
		if x != 0 {
			res[glyph.ID(i+1)] = x
		}
	}
	return res
}

const c19ClassDefs = 8

func c19NumClasses(cd classdef.Table) int {
	n := 0
	for _, k := range cd {
		n = max(n, int(k))
	}
	return n + 1
}

// c19Ctx2 makes format 2 subtables; classes are glyph numbers minus 1.  It returns nil
// if a rule uses a class which does not exist.
func c19Ctx2(chained bool, cov []glyph.ID, bcd, icd, lcd classdef.Table, rules []c19Rule) gtab.Subtable {
	ok := func(cd classdef.Table, gg []glyph.ID) bool {
		for _, g := range gg {
			if int(g)-1 >= c19NumClasses(cd) {
				return false
			}
		}
		return true
	}
	for _, r := range rules {
		if !ok(icd, r.in) || chained && (!ok(bcd, r.back) || !ok(lcd, r.look)) {
			return nil
		}
	}
	n := c19NumClasses(icd)
	if chained {
		st := &gtab.ChainedSeqContext2{Cov: covOf(cov...), Backtrack: bcd, Input: icd, Lookahead: lcd, Rules: make([][]*gtab.ChainedClassSeqRule, n)}
		for _, r := range rules {
			cc := c19Classes(r.in)
			st.Rules[cc[0]] = append(st.Rules[cc[0]], &gtab.ChainedClassSeqRule{Backtrack: c19Classes(r.back), Input: cc[1:], Lookahead: c19Classes(r.look), Actions: r.act})
		}
		return st
	}
	st := &gtab.SeqContext2{Cov: covOf(cov...), Input: icd, Rules: make([][]*gtab.ClassSeqRule, n)}
	for _, r := range rules {
		cc := c19Classes(r.in)
		st.Rules[cc[0]] = append(st.Rules[cc[0]], &gtab.ClassSeqRule{Input: cc[1:], Actions: r.act})
	}
	return st
}

func c19Value(k int) *gtab.GposValueRecord {
	vals := []funit.Int16{0, 1, -1, 32767, -32768}
	x, y, dx := vals[k%5], vals[k/5%5], vals[k/25%5]
	if x == 0 && y == 0 && dx == 0 {
		return nil
	}
	return &gtab.GposValueRecord{XPlacement: x, YPlacement: y, XAdvance: dx}
}

func init() {
	fonts := c19Fonts()

	style := func(c *explore.Ctx) (*c19Font, c19Style, gtab.LookupFlags) {
		x := explore.PickDev(c, "font", fonts[:6])
		s := c19Style{glyphs: c.Dev("glyphs", 4), ranges: c.DevBool("ranges"), noise: c.Dev("noise", 3), bare: c.DevBool("bare")}
		f := c.Dev("flags", 8)
		fl := gtab.LookupFlags(0)
		for i, b := range []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, gtab.IgnoreBaseGlyphs} {
			if f>>i&1 != 0 {
				fl |= b
			}
		}
		return x, s, fl
	}
	one := func(c *explore.Ctx, tp int, sub func() gtab.Subtable) {
		x, s, fl := style(c)
		st := sub()
		if st == nil {
			c.Skip()
		}
		c.Exec()
		c19List(c, x, gtab.LookupList{lk(tp, int(fl), st)}, s)
	}

	gsub1 := func(c *explore.Ctx) {
		one(c, 1, func() gtab.Subtable {
			m := map[glyph.ID]glyph.ID{}
			for g := 1; g <= 3+boolInt(c.Thorough); g++ {
				if k := c.Choose("to", 8); k > 0 {
					m[glyph.ID(g)] = glyph.ID(k - 1)
				}
			}
			if len(m) == 0 {
				return nil
			}
			return c19Gsub1(m)
		})
	}
	runs := func(c *explore.Ctx) {
		one(c, 1, func() gtab.Subtable {
			// runs of consecutive glyphs
			m := map[glyph.ID]glyph.ID{}
			n := c.Choose("n", c19N)
			a := c.Choose("a", c19N-n)
			b := c19N - 1 - n
			if c.Thorough {
				b = c.Choose("b", c19N-n)
			} else if b > 2 {
				b = []int{0, b / 2, b}[c.Choose("b", 3)]
			}
			for i := 0; i <= n; i++ {
				m[glyph.ID(a+i)] = glyph.ID(b + i)
			}
			if k := c.Choose("other", 4); k > 0 {
				m[glyph.ID(k*4-1)] = 5
			}
			return c19Gsub1(m)
		})
	}
	lists3 := c19Lists(1, 3, 3)
	gsub2 := func(c *explore.Ctx) {
		one(c, 2, func() gtab.Subtable {
			m := multi{}
			for g := 1; g <= 2; g++ {
				if k := c.Choose("to", len(lists3)+1); k > 0 {
					m[glyph.ID(g)] = lists3[k-1]
				}
			}
			if len(m) == 0 {
				return nil
			}
			return sub2(m)
		})
	}
	gsub3 := func(c *explore.Ctx) {
		one(c, 3, func() gtab.Subtable {
			m := multi{}
			for _, g := range []glyph.ID{2, 9} {
				if k := c.Choose("to", 33); k > 0 {
					m[g] = c19Subset(k - 1)
				}
			}
			if len(m) == 0 {
				return nil
			}
			return sub3(m)
		})
	}
	lists2 := c19Lists(1, 3, 2)
	gsub4 := func(c *explore.Ctx) {
		one(c, 4, func() gtab.Subtable {
			var ll []lig
			n := 1 + c.Choose("n", 3)
			for i := 0; i < n; i++ {
				menu := lists2
				if i > 0 && !c.Thorough {
					menu = menu[:4-i]
				}
				if i > 1 {
					menu = menu[:min(len(menu), 6)]
				}
				ll = append(ll, lig{explore.Pick(c, "in", menu), glyph.ID(2 + c.Choose("out", 2))})
			}
			return sub4(ll...)
		})
	}
	acts := [][]gtab.SeqLookup{{{SequenceIndex: 0, LookupListIndex: 1}}, nil, {{SequenceIndex: 0, LookupListIndex: 1}, {SequenceIndex: 1, LookupListIndex: 0}}, {{SequenceIndex: 65535, LookupListIndex: 65535}}, {{SequenceIndex: 2, LookupListIndex: 3}, {SequenceIndex: 2, LookupListIndex: 3}, {SequenceIndex: 0, LookupListIndex: 9}}}
	context := func(c *explore.Ctx) {
		kind := c.Choose("kind", 3)
		one(c, 5, func() gtab.Subtable {
			if kind == 2 {
				st := &gtab.SeqContext3{Actions: explore.Pick(c, "act", acts)}
				n := 1 + c.Choose("n", 2+boolInt(c.Thorough))
				for i := 0; i < n; i++ {
					st.Input = append(st.Input, setOf(c19Subset(c.Choose("set", 8))...))
				}
				return st
			}
			var rules []c19Rule
			n := 1 + c.Choose("n", 2)
			for i := 0; i < n; i++ {
				menu := lists2
				if !c.Thorough && n > 1 {
					menu = menu[:4]
				}
				if kind == 1 {
					menu = lists3
				}
				if i > 0 {
					menu = menu[:6]
				}
				if i > 0 && !c.Thorough {
					menu = menu[2:4]
				}
				rules = append(rules, c19Rule{in: explore.Pick(c, "in", menu), act: explore.Pick(c, "act", acts)})
			}
			if kind == 0 {
				return c19Ctx1(false, rules)
			}
			cov := c19Subset(3)
			if c.Thorough || n == 1 {
				cov = c19Subset(c.Choose("cov", 4) * 3)
			}
			return c19Ctx2(false, cov, nil, c19ClassDef(c.Choose("classes", c19ClassDefs)), nil, rules)
		})
	}
	chained := func(c *explore.Ctx) {
		kind := c.Choose("kind", 3)
		one(c, 6, func() gtab.Subtable {
			if kind == 2 {
				st := &gtab.ChainedSeqContext3{Actions: acts[c.Choose("act", 2)]}
				sets := func(lo int) []coverage.Set {
					var res []coverage.Set
					n := lo + c.Choose("n", 3-lo)
					for i := 0; i < n; i++ {
						res = append(res, setOf(c19Subset(explore.Pick(c, "set", []int{1, 2, 3, 0}))...))
					}
					return res
				}
				st.Backtrack, st.Input, st.Lookahead = sets(0), sets(1), sets(0)
				return st
			}
			var rules []c19Rule
			menu := c19Lists(0, 2, 2)
			if kind == 1 {
				menu = [][]glyph.ID{nil, gids(1), gids(2), gids(3), gids(1, 2), gids(2, 3)}
			}
			if !c.Thorough {
				menu = [][]glyph.ID{nil, gids(2), gids(1, 2)}
			}
			r := c19Rule{back: explore.Pick(c, "back", menu), in: explore.Pick(c, "in", menu[1:]), look: explore.Pick(c, "look", menu), act: acts[0]}
			rules = append(rules, r)
			switch c.Choose("more", 4) {
			case 1:
				rules = append(rules, c19Rule{in: r.in[:1], act: acts[1]})
			case 2:
				rules = append(rules, c19Rule{back: r.look, in: gids(1, 1), look: r.back, act: acts[2]})
			case 3:
				rules = append([]c19Rule{{back: gids(2), in: gids(2), act: acts[2]}}, rules...)
			}
			if kind == 0 {
				return c19Ctx1(true, rules)
			}
			cds := c.Choose("classes", 4+2*boolInt(c.Thorough))
			cd := []int{1, 3, 5}
			p := [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 1, 1}, {2, 1, 0}}[cds]
			return c19Ctx2(true, gids(1, 3), c19ClassDef(cd[p[0]]), c19ClassDef(cd[p[1]]), c19ClassDef(cd[p[2]]), rules)
		})
	}
	gpos1 := func(c *explore.Ctx) {
		kind := c.Choose("kind", 2)
		one(c, 1, func() gtab.Subtable {
			v := c19Value(c.Choose("value", 125))
			if kind == 0 {
				return &gtab.Gpos1_1{Cov: covOf(c19Subset(c.Choose("set", 8))...), Adjust: v}
			}
			gg := explore.Pick(c, "glyphs", [][]glyph.ID{{1}, {8, 9}, {1, 2, 3}})
			st := &gtab.Gpos1_2{Cov: covOf(gg...)}
			for i := range gg {
				w := v
				if i == 1 {
					w = c19Value(c.Choose("value2", 5) * 31)
				}
				st.Adjust = append(st.Adjust, w)
			}
			return st
		})
	}
	gpos2 := func(c *explore.Ctx) {
		kind := c.Choose("kind", 2)
		one(c, 2, func() gtab.Subtable {
			pa := func() *gtab.PairAdjust {
				return &gtab.PairAdjust{First: c19Value(c.Choose("first", 3) * 42), Second: c19Value(c.Choose("second", 2) * 77)}
			}
			if kind == 0 {
				st := gtab.Gpos2_1{}
				n := 1 + c.Choose("n", 2+boolInt(c.Thorough))
				for i := 0; i < n; i++ {
					st[glyph.Pair{Left: glyph.ID(1 + c.Choose("left", 2)), Right: glyph.ID(2*i + c.Choose("right", 2))}] = pa()
				}
				return st
			}
			k1, k2 := c.Choose("classes", 10), 0
			if c.Thorough {
				k2 = c.Choose("classes", 10)
			} else {
				k2 = (k1*7 + c.Choose("classes", 3)) % 10
			}
			cd := func(k int) classdef.Table {
				switch k {
				case 8:
					return classdef.Table{1: 2, 5: 2} // an empty class
				case 9:
					return classdef.Table{1: 1, 3: 3}
				}
				return c19ClassDef(k)
			}
			st := &gtab.Gpos2_2{Cov: setOf(c19Subset(c.Choose("cov", 3) * 3)...), Class1: cd(k1), Class2: cd(k2)}
			p := pa()
			for i := 0; i < c19NumClasses(st.Class1); i++ {
				var row []*gtab.PairAdjust
				for j := 0; j < c19NumClasses(st.Class2); j++ {
					if (i+j)%2 == 0 {
						row = append(row, p)
					} else {
						row = append(row, &gtab.PairAdjust{First: c19Value(i*25 + j*5)})
					}
				}
				st.Adjust = append(st.Adjust, row)
			}
			return st
		})
	}
	vals := []funit.Int16{0, 7, -7, 32767, -32768}
	gpos34 := func(c *explore.Ctx) {
		kind := c.Choose("kind", 2)
		one(c, 3+kind, func() gtab.Subtable {
			if kind == 0 {
				gg := c19Subset(1 + c.Choose("glyphs", 15))
				st := &gtab.Gpos3_1{Cov: covOf(gg...)}
				a, b := explore.Pick(c, "x", vals), explore.Pick(c, "y", vals)
				for i := range gg {
					r := gtab.EntryExitRecord{Entry: anchor.Table{X: a, Y: b}, Exit: anchor.Table{X: b, Y: funit.Int16(i)}}
					if i%2 == 1 {
						r.Entry, r.Exit = r.Exit, r.Entry
					}
					st.Records = append(st.Records, r)
				}
				return st
			}
			st := &gtab.Gpos4_1{}
			a, b := explore.Pick(c, "x", vals), explore.Pick(c, "y", vals)
			marks := c.Choose("marks", 5)
			var mg []glyph.ID
			n := 0
			for i := 0; i < marks; i++ {
				mg = append(mg, glyph.ID(3*i+2))
				k := c.Choose("class", n+1)
				n = max(n, k+1)
				st.MarkArray = append(st.MarkArray, markarray.Record{Class: uint16(k), Table: anchor.Table{X: a, Y: funit.Int16(i)}})
			}
			bg := c19Subset(c.Choose("bases", 8))
			for range bg {
				aa := []anchor.Table{}
				for i := 0; i < n; i++ {
					aa = append(aa, anchor.Table{X: funit.Int16(i), Y: b})
				}
				st.BaseArray = append(st.BaseArray, aa)
			}
			st.MarkCov, st.BaseCov = covOf(mg...), covOf(bg...)
			return st
		})
	}

	manyRules := func(c *explore.Ctx) {
		kind := c.Choose("kind", 4)
		n := 1 + 3*c.Choose("n", 20)
		firsts := 1 + c.Choose("firsts", 4)
		x, s, fl := style(c)
		c.Exec()
		var ll []lig
		var rules []c19Rule
		for i := 0; i < n; i++ {
			in := gids(1+(i*7)%firsts, 1+i%15, 1+i/15)
			ll = append(ll, lig{in, glyph.ID(1 + (i*5)%15)})
			r := c19Rule{in: in, act: acts[i%len(acts)]}
			if kind > 1 {
				r.back, r.look = gids(1+i%3), gids(1+i%5, 2)
			}
			if kind == 3 {
				r.in = gids(1+(i*7)%3, 1+i%3, 1+i/15%3)
				r.look = gids(1 + i%2)
			}
			rules = append(rules, r)
		}
		var st gtab.Subtable
		tp := 4
		switch kind {
		case 0:
			st = sub4(ll...)
		case 1:
			st, tp = c19Ctx1(false, rules), 5
		case 2:
			st, tp = c19Ctx1(true, rules), 6
		case 3:
			st, tp = c19Ctx2(true, gids(1, 2, 3), c19ClassDef(5), c19ClassDef(3), c19ClassDef(1), rules), 6
		}
		c19List(c, x, gtab.LookupList{lk(tp, int(fl), st)}, s)
	}

	// several subtables and lookups
	kinds := map[string][]gtab.Subtable{}
	{
		r1 := c19Rule{in: gids(1, 2), act: acts[0]}
		r2 := c19Rule{back: gids(2, 1), in: gids(2), look: gids(1), act: acts[2]}
		r3 := c19Rule{in: gids(14), act: acts[1]}
		r4 := c19Rule{back: gids(3), in: gids(1), look: gids(2, 3), act: acts[0]}
		kinds["GSUB5"] = []gtab.Subtable{c19Ctx1(false, []c19Rule{r1}), c19Ctx1(false, []c19Rule{r3, r1, r2}), c19Ctx2(false, gids(1, 2), nil, c19ClassDef(3), nil, []c19Rule{r1, r4, r2}), c19Ctx2(false, gids(1), nil, c19ClassDef(0), nil, []c19Rule{{in: gids(1), act: acts[1]}}), &gtab.SeqContext3{Input: []coverage.Set{setOf(1, 2), setOf()}, Actions: acts[2]}, &gtab.SeqContext3{Input: []coverage.Set{setOf(14)}}}
		kinds["GSUB6"] = []gtab.Subtable{c19Ctx1(true, []c19Rule{r1}), c19Ctx1(true, []c19Rule{r3, r4, r2}), c19Ctx1(true, []c19Rule{{back: gids(14, 8), in: gids(1)}}), c19Ctx2(true, gids(1, 2), c19ClassDef(3), c19ClassDef(1), c19ClassDef(5), []c19Rule{r2, r4}), c19Ctx2(true, gids(1), c19ClassDef(0), c19ClassDef(3), c19ClassDef(0), []c19Rule{r1}), &gtab.ChainedSeqContext3{Input: []coverage.Set{setOf(1)}}, &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{setOf(1, 2), setOf(3)}, Input: []coverage.Set{setOf(14), setOf(1)}, Lookahead: []coverage.Set{setOf()}, Actions: acts[2]}}
		kinds["GPOS1"] = []gtab.Subtable{&gtab.Gpos1_1{Cov: covOf(1, 2), Adjust: c19Value(33)}, &gtab.Gpos1_1{Cov: covOf(14)}, &gtab.Gpos1_2{Cov: covOf(8, 9), Adjust: []*gtab.GposValueRecord{nil, c19Value(31)}}, &gtab.Gpos1_2{Cov: covOf(14), Adjust: []*gtab.GposValueRecord{c19Value(1)}}}
		p := &gtab.PairAdjust{First: c19Value(5), Second: c19Value(1)}
		q := &gtab.PairAdjust{}
		kinds["GPOS2"] = []gtab.Subtable{gtab.Gpos2_1{{Left: 1, Right: 2}: p, {Left: 14, Right: 8}: q}, gtab.Gpos2_1{{Left: 0, Right: 1}: q}, &gtab.Gpos2_2{Cov: setOf(1, 2), Class1: c19ClassDef(3), Class2: c19ClassDef(1), Adjust: [][]*gtab.PairAdjust{{p, q}, {q, q}, {q, p}}}, &gtab.Gpos2_2{Cov: setOf(1), Class1: classdef.Table{}, Class2: classdef.Table{}, Adjust: [][]*gtab.PairAdjust{{p}}}}
		kinds["GPOS3"] = []gtab.Subtable{&gtab.Gpos3_1{Cov: covOf(1, 14), Records: []gtab.EntryExitRecord{{Entry: anchor.Table{X: 1, Y: 2}}, {Exit: anchor.Table{X: -3, Y: 4}}}}, &gtab.Gpos3_1{Cov: covOf(12), Records: make([]gtab.EntryExitRecord, 1)}}
		kinds["GPOS4"] = []gtab.Subtable{&gtab.Gpos4_1{MarkCov: covOf(9, 15), BaseCov: covOf(1, 14), MarkArray: []markarray.Record{{Class: 1}, {Class: 0, Table: anchor.Table{X: 5, Y: -5}}}, BaseArray: [][]anchor.Table{{{X: 1}, {Y: 2}}, {{}, {}}}}, &gtab.Gpos4_1{MarkCov: covOf(15), BaseCov: covOf(), MarkArray: []markarray.Record{{}}, BaseArray: [][]anchor.Table{}}, &gtab.Gpos4_1{MarkCov: covOf(), BaseCov: covOf(3), BaseArray: [][]anchor.Table{nil}}}
		kinds["GSUB1"] = []gtab.Subtable{c19Gsub1(map[glyph.ID]glyph.ID{1: 2, 2: 3, 3: 4}), sub12(1, 14, 14, 1)}
		kinds["GSUB2"] = []gtab.Subtable{sub2(multi{1: gids(2, 2), 14: gids(14)})}
		kinds["GSUB3"] = []gtab.Subtable{sub3(multi{1: gids(2, 14), 8: nil})}
		kinds["GSUB4"] = []gtab.Subtable{sub4(lg(3, 1, 2), lg(4, 1), lg(5, 14)), sub4(lg(5, 1), lg(6, 2), lg(7, 3))}
	}
	names := []string{"GSUB5", "GSUB6", "GPOS1", "GPOS2", "GPOS3", "GPOS4", "GSUB1", "GSUB2", "GSUB3", "GSUB4"}
	subtables := func(c *explore.Ctx) {
		kind := names[c.Choose("kind", 6)]
		x, s, fl := style(c)
		n := 1 + c.Choose("n", 3)
		l := lk(int(kind[4]-'0'), int(fl))
		for i := 0; i < n; i++ {
			l.Subtables = append(l.Subtables, explore.Pick(c, "sub", kinds[kind]))
		}
		c.Exec()
		c19List(c, x, gtab.LookupList{l}, s)
	}
	lookups := func(c *explore.Ctx) {
		x, s, fl := style(c)
		table := explore.Pick(c, "table", []string{"GSUB", "GPOS"})
		var menu []string
		for _, n := range names {
			if n[:4] == table {
				menu = append(menu, n)
			}
		}
		n := 1 + c.Choose("n", 3)
		var ll gtab.LookupList
		for i := 0; i < n; i++ {
			kind := explore.Pick(c, "kind", menu)
			l := lk(int(kind[4]-'0'), int(fl), explore.Pick(c, "sub", kinds[kind]))
			fl = 0
			ll = append(ll, l)
		}
		c.Exec()
		c19List(c, x, ll, s)
	}

	// glyph lists against a reference
	items := []string{"A", "C", `"B"`, `"DAB"`, `""`, "5", "-", "0", `"\"\\q"`, "+3", "nope", "16", `"é"`, `"Z"`, "-1", "-2"}
	glyphLists := func(c *explore.Ctx) {
		x := explore.Pick(c, "font", fonts)
		n := 1 + c.Choose("n", 2+boolInt(c.Thorough))
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, explore.Pick(c, "item", items))
		}
		set := c.Bool("set")
		c.Exec()
		for _, last := range append([]string{"E"}, items...) {
			want, ok := c19RefList(x, append(parts, last))
			text := strings.Join(append(slices.Clone(parts), last), " ")
			var wantST gtab.Subtable
			if set {
				text = "GSUB3: 1 -> [" + text + "]"
				slices.Sort(want)
				wantST = &gtab.Gsub3_1{Cov: covOf(1), Alternates: [][]glyph.ID{slices.Compact(want)}}
			} else {
				text = "GSUB2: 1 -> " + text
				wantST = &gtab.Gsub2_1{Cov: covOf(1), Repl: [][]glyph.ID{want}}
				ok = ok && len(want) > 0
			}
			ll, err := c19Parse(c, x, text)
			if ok != (err == nil) {
				c.Fail("meaning", "error %v for %q, want %v", err, text, want)
			}
			if ok {
				if len(ll) != 1 || len(ll[0].Subtables) != 1 {
					c.Fail("meaning", "%d lookups for %q", len(ll), text)
				}
				if d := deepDiff(wantST, ll[0].Subtables[0]); d != "" {
					c.Fail("meaning", "%s for %q", d, text)
				}
				c19Back(c, x, ll, text)
			}
		}
	}

	// arbitrary texts
	toks := []string{"A", "\"AB\"", "1", "-1", ",", ";", ":", "[", "]", "@", "/", "&", "=", "-", "->", "|", "||", "\n", "class", "inputclass", "mark", "base", "to", "first", "second", "x", "_", "\"A", "?", "GSUB1", "GPOS4", "::", "\"Z\"", "[A]", "nope", "-marks"}
	heads := []string{"", "GSUB1:", "GSUB2:", "GSUB3:", "GSUB4:", "GSUB5:", "GSUB6:", "GPOS1:", "GPOS2:", "GPOS3:", "GPOS4:"}
	starts := []string{"", "A ->", "A -> B", "[A] ->", "/A/", "class :c: = [A] /A/ :c: ->", "A B ->", "| A | ->", "| A |", "|", "/A/ first A; second B;", "mark A: 0@0,0", "A: 1,2 to", "\n-marks\n"}
	tokens := func(c *explore.Ctx) {
		head := explore.Pick(c, "head", heads)
		start := explore.Pick(c, "start", starts)
		n := 1
		if c.Thorough {
			n = 2
		}
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, explore.Pick(c, "token", toks))
		}
		c.Exec()
		x := fonts[len(head+start)%2]
		base := head + " " + start + " " + strings.Join(parts, " ")
		for _, t := range append([]string{""}, toks...) {
			for _, u := range append([]string{""}, toks...) {
				if len(t) > 1 && len(u) > 1 {
					continue
				}
				if c.Thorough && (len(t) > 1 && u != "" || len(u) > 1) {
					continue
				}
				c19Any(c, x, base+" "+t+" "+u)
			}
		}
	}
	bytes := func(c *explore.Ctx) {
		alpha := []string{"A", "1", "9", "-", ">", "+", "\"", "\\", "n", "\n", "\t", " ", "#", "|", ":", ";", ",", "[", "]", "/", "@", "&", "=", "_", ".", "\x00", "\x80", "\xff", "é", "\u2028", "\U0001F600", "x", "!"}
		head := explore.Pick(c, "head", []string{"", "GSUB1: A -> ", "GSUB3: A -> [", "GSUB1", "GPOS1: A -> x", "GSUB2: A -> \""})
		n := 2
		if c.Thorough {
			n = 3
		}
		s := head
		for i := 0; i < n; i++ {
			s += explore.Pick(c, "char", alpha)
		}
		c.Exec()
		for _, t := range append([]string{""}, alpha...) {
			c19Any(c, fonts[0], s+t)
			c19Any(c, fonts[4], s+t+"\n")
		}
	}

	// mutations of valid texts
	var valid []string
	for _, n := range names {
		l := lk(int(n[4]-'0'), 0, kinds[n]...)
		if n < "GSUB5" && n > "GSUB" {
			for _, st := range kinds[n] {
				valid = append(valid, c19Render(fonts[0], gtab.LookupList{lk(int(n[4]-'0'), 8, st)}, c19Style{}))
			}
			continue
		}
		l.Meta.LookupFlags = gtab.IgnoreLigatures
		valid = append(valid, c19Render(fonts[0], gtab.LookupList{l}, c19Style{noise: 2}))
		for i, st := range kinds[n] {
			valid = append(valid, c19Render(fonts[0], gtab.LookupList{lk(int(n[4]-'0'), 0, st)}, c19Style{glyphs: i % 4, noise: i % 3}))
		}
	}
	split := regexp.MustCompile(`"(?:[^"\\]|\\.)*"|->|\|\||[A-Za-z_.][A-Za-z_.0-9]*|[+-]?[0-9]+|[ \t]+|#[^\n]*|.|\n`)
	mutate := func(c *explore.Ctx) {
		text := explore.Pick(c, "text", valid)
		procs := explore.Pick(c, "procs", []int{0, 1, 2, 16})
		words := split.FindAllString(text, -1)
		i := c.Choose("pos", len(words))
		c.Exec()
		if procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		}
		x := fonts[0]
		pre, post := strings.Join(words[:i], ""), strings.Join(words[i+1:], "")
		c19Any(c, x, pre)
		c19Any(c, x, pre+post)
		c19Any(c, x, pre+words[i]+words[i]+post)
		if i+1 < len(words) {
			c19Any(c, x, pre+words[i+1]+words[i]+strings.Join(words[i+2:], ""))
		}
		for _, t := range toks {
			if procs > 0 && len(t)%2 == 1 && !c.Thorough {
				continue
			}
			c19Any(c, x, pre+" "+t+" "+post)
			c19Any(c, x, pre+words[i]+" "+t+" "+post)
			if c.Thorough && procs == 0 {
				for _, u := range toks {
					c19Any(c, x, pre+" "+t+" "+u+" "+post)
				}
			}
		}
		for k := 1; k < len(words[i]); k++ {
			c19Any(c, x, pre+words[i][:k])
			c19Any(c, x, pre+words[i][:k]+post)
		}
	}
	prefixes := func(c *explore.Ctx) {
		text := explore.Pick(c, "text", valid)
		x := explore.Pick(c, "font", fonts)
		c.Exec()
		for k := 0; k <= len(text); k++ {
			c19Any(c, x, text[:k])
			c19Any(c, x, text[k:])
		}
	}
	big := func(c *explore.Ctx) {
		k := c.Choose("kind", 9)
		n := explore.Pick(c, "n", []int{1, 100, 65534, 65535, 65536, 65537, 200000})
		c.Exec()
		s := ""
		switch k {
		case 0:
			s = "GPOS2: /A/ first " + strings.Repeat(",", n) + "A; second " + strings.Repeat(",", n) + "A;"
		case 1:
			s = "GSUB2: A -> " + strings.Repeat("A ", n)
		case 2:
			s = "GSUB5: A -> " + strings.Repeat("1@0 ", n)
		case 3:
			s = "GPOS2: /A/ first " + strings.Repeat(",", n) + "A; second;"
		case 4:
			s = strings.Repeat("\n", n) + "?"
		case 5:
			s = "GSUB1: A -> \"" + strings.Repeat("A", n)
		case 6:
			s = "GPOS4: " + strings.Repeat("mark ", n)
		case 7:
			s = strings.Repeat("GSUB1: A -> B\n", n/10)
		case 8:
			s = "GSUB1: 1 -> " + strings.Repeat("9", n)
		}
		c19Any(c, fonts[0], s)
	}

	run.Register(&run.Property{
		ID:    "C19",
		Level: "model_checking",
		Rule:  "an independent writer for the documented syntax and the parser agree on every lookup list, describing and parsing gives the list back, all texts are parsed or refused with a line number without panic, hang or goroutine left behind, and every parsed text survives describing and parsing",
		Assumptions: []string{
			"the parser and the lexer share one unbuffered channel and nothing else, so schedules differ only in the order of independent steps and one schedule represents all (GOMAXPROCS 1, 2, 8 and 16 are tried in addition)",
			"lookup lists which the language cannot express (several subtables in GSUB 1-4, unsorted alternates, constant GSUB 1.2, advances in y direction, attachment classes) are outside of the property",
		},
		Drivers: []run.Driver{
			{Name: "gsub1", Run: gsub1, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "all partial maps of 4 glyphs to 7 glyphs; <= 1 (thorough 2) deviations out of font (6), glyph notation (4), ranges, white space (3), optional syntax, flags (8)"},
			{Name: "gsub1-runs", Run: runs, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "all runs of consecutive glyphs; same deviations"},
			{Name: "gsub2", Run: gsub2, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "up to 2 glyphs with all replacements of length <= 3 over 3 glyphs; same deviations"},
			{Name: "gsub3", Run: gsub3, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "up to 2 glyphs with all subsets of 5 glyphs; same deviations"},
			{Name: "gsub4", Run: gsub4, Dev: 1, DevThorough: 1, Weight: 1, Bounds: "up to 3 ligatures of length <= 3 over 2 glyphs; same deviations"},
			{Name: "context", Run: context, Dev: 1, DevThorough: 1, Weight: 2, Bounds: "3 formats, up to 2 rules of length <= 3, 5 action lists, 8 class definitions, all sets over 3 glyphs; same deviations"},
			{Name: "chained", Run: chained, Dev: 1, DevThorough: 2, Weight: 2, Bounds: "3 formats, backtrack, input and lookahead of length <= 2, up to 2 rules; same deviations"},
			{Name: "gpos1", Run: gpos1, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "2 formats, all value records over 5 numbers; same deviations"},
			{Name: "gpos2", Run: gpos2, Dev: 1, DevThorough: 1, Weight: 2, Bounds: "2 formats, up to 3 pairs, 10 x 10 class definitions (with empty classes); same deviations"},
			{Name: "gpos34", Run: gpos34, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "up to 4 cursive glyphs, up to 4 marks in up to 4 classes, up to 3 bases; same deviations"},
			{Name: "subtables", Run: subtables, Dev: 2, DevThorough: 3, Weight: 1, Bounds: "1-3 subtables out of 2-7 per type; <= 2 (thorough 3) deviations"},
			{Name: "lookups", Run: lookups, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "1-3 lookups of all types"},
			{Name: "many-rules", Run: manyRules, Dev: 1, DevThorough: 2, Weight: 1, Bounds: "1-60 ligatures or context rules for 1-4 first glyphs"},
			{Name: "glyph-lists", Run: glyphLists, Weight: 1, Bounds: "all sequences of 2-4 items out of 16 (names, strings, numbers, hyphens, unknown ones) as list and set, 8 fonts, against a reference"},
			{Name: "tokens", Run: tokens, Weight: 3, Bounds: "11 heads x 14 beginnings x all sequences of 3 (thorough 4) tokens out of 36"},
			{Name: "bytes", Run: bytes, Weight: 1, Bounds: "6 beginnings x all strings of 3 (thorough 4) characters out of 33, with NUL, control and invalid UTF-8"},
			{Name: "mutate", Run: mutate, Weight: 2, Bounds: fmt.Sprintf("%d valid texts x all tokens x deletion, repetition, exchange, truncation, replacement by and insertion of 36 tokens (thorough pairs of tokens) x GOMAXPROCS 1, 2, 8, 16", len(valid))},
			{Name: "prefixes", Run: prefixes, Weight: 0.5, Bounds: "all prefixes and suffixes of the valid texts, 8 fonts"},
			{Name: "big", Run: big, Weight: 0.5, Bounds: "9 kinds of long texts up to 400 kB"},
		},
	})
}

// c19RefList is the meaning of a glyph list; ok is false if it is not valid.
func c19RefList(x *c19Font, parts []string) (res []glyph.ID, ok bool) {
	hyphen := false
	for _, p := range parts {
		var next []glyph.ID
		switch {
		case p == "-":
			if hyphen {
				return nil, false
			}
			hyphen = true
			continue
		case p[0] == '"':
			esc := false
			for _, r := range p[1 : len(p)-1] {
				if r == '\\' && !esc {
					esc = true
					continue
				}
				esc = false
				g := x.chars[r]
				if g == 0 {
					return nil, false
				}
				next = append(next, g)
			}
		case unicode.IsLetter(rune(p[0])):
			g, found := x.lookup(p)
			if !found {
				return nil, false
			}
			next = append(next, g)
		default:
			k, err := strconv.Atoi(p)
			if err != nil || k < 0 || k >= c19N {
				return nil, false
			}
			next = append(next, glyph.ID(k))
		}
		for _, g := range next {
			if !hyphen {
				res = append(res, g)
				continue
			}
			if len(res) == 0 {
				return nil, false
			}
			for last := res[len(res)-1]; last != g; {
				if last < g {
					last++
				} else {
					last--
				}
				res = append(res, last)
			}
			hyphen = false
		}
	}
	return res, !hyphen
}
