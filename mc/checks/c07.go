package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"slices"
	"sort"
	"strings"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"golang.org/x/text/language"

	"verif/mc/explore"
	"verif/mc/run"
)

// maxRepl returns the largest number of glyphs which a lookup can substitute
// for a single glyph, and whether positioning data is present which the
// library declares as unimplemented.
func maxRepl(ll gtab.LookupList) (n int, unimpl bool) {
	n = 1
	bad := func(rr ...*gtab.GposValueRecord) {
		for _, r := range rr {
			if r != nil && (r.YAdvance != 0 || r.XPlacementDevOffs != 0 || r.YPlacementDevOffs != 0 || r.XAdvanceDevOffs != 0 || r.YAdvanceDevOffs != 0) {
				unimpl = true
			}
		}
	}
	for _, l := range ll {
		for _, st := range l.Subtables {
			switch st := st.(type) {
			case *gtab.Gsub2_1:
				for _, r := range st.Repl {
					n = max(n, len(r))
				}
			case *gtab.Gpos1_1:
				bad(st.Adjust)
			case *gtab.Gpos1_2:
				bad(st.Adjust...)
			case gtab.Gpos2_1:
				for _, a := range st {
					if a != nil {
						bad(a.First, a.Second)
					}
				}
			case *gtab.Gpos2_2:
				for _, row := range st.Adjust {
					for _, a := range row {
						if a != nil {
							bad(a.First, a.Second)
						}
					}
				}
			case *gtab.Gpos5_1:
				unimpl = true
			}
		}
	}
	return n, unimpl
}

func sortedText(seq []glyph.Info) []rune {
	var res []rune
	for _, g := range seq {
		res = append(res, g.Text...)
	}
	slices.Sort(res)
	return res
}

// sharedText makes all Text slices share one backing array, the way a caller
// does who slices a []rune.
func (s shapeInput) sharedText() []glyph.Info {
	out := make([]glyph.Info, len(s))
	copy(out, s)
	var all []rune
	for i := range out {
		all = append(all, out[i].Text...)
	}
	k := 0
	for i := range out {
		n := len(out[i].Text)
		out[i].Text = all[k : k+n]
		k += n
	}
	return out
}

func infosCopy(seq []glyph.Info) []glyph.Info { return shapeInput(seq).clone() }

var c07Stat struct{ apply int64 }

// c07Opt selects the amount of history which is explored.
type c07Opt struct {
	pairs  bool // all ordered pairs of sequences on one context
	orders int  // number of map iteration orders
}

// c07Check applies the lookups to all the sequences and checks the claims of
// property C07.
func c07Check(c *explore.Ctx, key string, ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, seqs []shapeInput, opt c07Opt) {
	n, unimpl := maxRepl(ll)
	if unimpl {
		c.ObsStr("unimplemented positioning data")
		return
	}
	var cur shapeInput
	what := "Apply"
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(error); ok {
				c.Fail(key+":panic", "%s panics for %s: %v\n%s%s", what, clip(seqString(cur, true), 600), r, clip(shapeDesc(ll, gd, lookups), 4000), debug.Stack())
			}
			panic(r)
		}
	}()
	before := dump(ll)
	gdBefore := dump(gd)
	fresh := make([][]glyph.Info, len(seqs))
	h := uint64(14695981039346656037)
	for i, seq := range seqs {
		cur = seq
		what = "Apply on a fresh context"
		got := gtab.NewContext(ll, gd, lookups).Apply(seq.clone())
		c07Stat.apply++
		// conservation of text
		if a, b := sortedText(seq), sortedText(got); !slices.Equal(a, b) {
			c.Fail(key+":text", "text is not conserved: %q becomes %q\ninput  %s\noutput %s\n%s", string(a), string(b), seqString(seq, false), clip(seqString(got, false), 2000), shapeDesc(ll, gd, lookups))
		}
		// length
		limit := len(seq)
		for range lookups {
			limit += limit * 64 * (n - 1)
			limit = min(limit, 1<<40)
		}
		if len(got) > limit || len(seq) > 0 && len(got) == 0 {
			c.Fail(key+":length", "%d glyphs become %d (no more than %d glyphs replace one glyph)\n%s", len(seq), len(got), n, shapeDesc(ll, gd, lookups))
		}
		fresh[i] = infosCopy(got)
		for _, g := range got {
			h = (h ^ uint64(g.GID)<<1 ^ uint64(uint16(g.XOffset))<<20 ^ uint64(len(g.Text))<<40) * 1099511628211
		}
		// shared backing arrays
		what = "Apply with shared text"
		got = gtab.NewContext(ll, gd, lookups).Apply(seq.sharedText())
		if !seqEqual(got, fresh[i]) {
			c.Fail(key+":sharedText", "different results when the input texts are slices of one array\ninput  %s\ngot    %s\nexpect %s\n%s", seqString(seq, true), clip(seqString(got, true), 2000), clip(seqString(fresh[i], true), 2000), shapeDesc(ll, gd, lookups))
		}
		c07Stat.apply++
	}
	// histories on a single context
	ctx := gtab.NewContext(ll, gd, lookups)
	prev := -1
	step := func(i int, keyx string) {
		cur = seqs[i]
		what = "Apply on a context which has been used before"
		got := ctx.Apply(seqs[i].clone())
		c07Stat.apply++
		if !seqEqual(got, fresh[i]) {
			p := "(nothing)"
			if prev >= 0 {
				p = seqString(seqs[prev], false)
			}
			c.Fail(key+keyx, "the result depends on earlier calls\nprevious %s\ninput    %s\ngot      %s\nexpect   %s\n%s", clip(p, 600), seqString(seqs[i], true), clip(seqString(got, true), 2000), clip(seqString(fresh[i], true), 2000), shapeDesc(ll, gd, lookups))
		}
		prev = i
	}
	if opt.pairs {
		for i := range seqs {
			for j := range seqs {
				step(i, ":history")
				step(j, ":history")
			}
		}
	} else {
		for i := range seqs {
			step(i, ":history")
		}
		for i := range seqs {
			step(len(seqs)-1-i, ":history")
		}
	}
	// map iteration orders
	for o := 1; o <= opt.orders; o++ {
		explore.SetMapOrder(o)
		for i, seq := range seqs {
			cur = seq
			got := gtab.NewContext(ll, gd, lookups).Apply(seq.clone())
			if !seqEqual(got, fresh[i]) {
				explore.SetMapOrder(0)
				c.Fail(key+":maporder", "the result depends on the order of map iterations\ninput  %s\norder %d: %s\nelse:    %s\n%s", seqString(seq, true), o, seqString(got, true), seqString(fresh[i], true), shapeDesc(ll, gd, lookups))
			}
			c07Stat.apply++
		}
	}
	explore.SetMapOrder(0)
	if after := dump(ll); after != before {
		c.Fail(key+":tables", "Apply changes the lookup tables\nbefore %s\nafter  %s\n", before, after)
	}
	if after := dump(gd); after != gdBefore {
		c.Fail(key+":tables", "Apply changes the GDEF table\nbefore %s\nafter  %s\n", gdBefore, after)
	}
	c.Obs([]byte(fmt.Sprint(h)))
}

// repSeq repeats a pattern up to n glyphs.
func repSeq(n int, pattern ...glyph.ID) shapeInput {
	gids := make([]glyph.ID, n)
	for i := range gids {
		gids[i] = pattern[i%len(pattern)]
	}
	seq := make(shapeInput, n)
	for i := range seq {
		seq[i].GID = gids[i]
		seq[i].Advance = 500
		seq[i].Text = []rune{rune(0x4E00 + i)}
	}
	return seq
}

// c07Gdefs lists GDEF tables.
var c07Gdefs = c07GdefMenu()

func c07GdefMenu() []*gdef.Table {
	return []*gdef.Table{
		c06Gdef(),
		nil,
		{},
		{GlyphClass: classdef.Table{gA: 3, gB: 3, gM: 3}},
		{GlyphClass: classdef.Table{gA: 1, gB: 77, gM: 3, 0: 3, 65535: 3}, MarkAttachClass: classdef.Table{gM: 0xFFFF, 0: 255}},
		{GlyphClass: classdef.Table{gA: 1, gM: 3, gB: 2}, MarkAttachClass: nil, MarkGlyphSets: []coverage.Set{nil}},
		{MarkAttachClass: classdef.Table{gM: 1}, MarkGlyphSets: []coverage.Set{setOf(gM), {}}},
	}
}

// c07Struct is one adversarial table in a shape which the readers can deliver.
type c07Struct struct {
	name string
	ll   func() gtab.LookupList
}

func actN(n int, a ...gtab.SeqLookup) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for i := 0; i < n; i++ {
		res = append(res, a[i%len(a)])
	}
	return res
}

var c07Structs = []c07Struct{
	{"subst11", func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, &gtab.Gsub1_1{Cov: setOf(0, gA, 65535), Delta: 1}, &gtab.Gsub1_1{Cov: setOf(gB), Delta: 65535})}
	}},
	{"subst12", func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, sub12(0, 65535, 65535, 0, gA, 65535))}
	}},
	{"multiEmpty", func() gtab.LookupList {
		return gtab.LookupList{lk(2, 0, sub2(multi{0: {}, gA: nil, gB: {0, 65535}, 65535: {gA, gA, gA}}))}
	}},
	{"multiEmptyNested", func() gtab.LookupList {
		return gtab.LookupList{
			ctxLookup(false, 0, 0, ctxRule{in: singles(gA, gB), acts: []gtab.SeqLookup{act(0, 1), act(1, 1), act(2, 1)}}),
			lk(2, 0, sub2(multi{gA: {}, gB: {gA, gB}, gM: {gM, gM}})),
		}
	}},
	{"altEmpty", func() gtab.LookupList {
		return gtab.LookupList{lk(3, 0, sub3(multi{0: {}, gA: nil, gB: {65535}}))}
	}},
	{"ligOne", func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, sub4(lig{[]glyph.ID{gA}, 65535}, lig{[]glyph.ID{0, 0}, gA}, lig{[]glyph.ID{65535, gA, 0}, 0}))}
	}},
	{"ligNone", func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, &gtab.Gsub4_1{Cov: covOf(gA, gB), Repl: [][]gtab.Ligature{nil, {}}}), lk(4, 0, &gtab.Gsub4_1{})}
	}},
	{"noSubtables", func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0), lk(7, 0), lk(99, 0xFFFF)}
	}},
	{"ctx1nil", func() gtab.LookupList {
		return gtab.LookupList{lk(5, 0, &gtab.SeqContext1{Cov: covOf(0, gA, gB, 65535), Rules: [][]*gtab.SeqRule{nil, {}, {{}}, {{Actions: actN(3, act(0, 1), act(5, 1), act(65535, 65535))}}}}), lk(2, 0, sub2(multi{65535: {gA, gA}, gA: {gB, 65535}}))}
	}},
	{"ctx2class", func() gtab.LookupList {
		return gtab.LookupList{lk(5, 0, &gtab.SeqContext2{Cov: covOf(0, gA, gB, 65535), Input: classdef.Table{0: 65535, gA: 1, gB: 2, 65535: 3},
			Rules: [][]*gtab.ClassSeqRule{{{Input: []uint16{65535}}}, {{Input: []uint16{99}}, {Input: []uint16{2}, Actions: actN(2, act(1, 1), act(2, 1))}}, nil}}), lk(1, 0, sub12(gB, 65535))}
	}},
	{"ctx3", func() gtab.LookupList {
		return gtab.LookupList{lk(5, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA, 65535), {}}}, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA, 0)}, Actions: actN(2, act(0, 1), act(0, 0))}), lk(2, 0, sub2(multi{gA: {gA, gA}, 0: {}}))}
	}},
	{"chain1", func() gtab.LookupList {
		return gtab.LookupList{lk(6, 0, &gtab.ChainedSeqContext1{Cov: covOf(0, gA, gB, 65535), Rules: [][]*gtab.ChainedSeqRule{nil, {}, {{}},
			{{Backtrack: []glyph.ID{0, 65535}, Lookahead: []glyph.ID{65535}}, {Lookahead: []glyph.ID{gA}, Actions: actN(4, act(0, 1), act(1, 1))}}}}), lk(2, 0, sub2(multi{65535: {gA, 65535, gA}, gA: {gB, 65535}}))}
	}},
	{"chain2class", func() gtab.LookupList {
		return gtab.LookupList{lk(6, 0, &gtab.ChainedSeqContext2{Cov: covOf(0, gA, gB, 65535), Input: classdef.Table{0: 7, gA: 1, gB: 65535}, Backtrack: classdef.Table{gA: 65535}, Lookahead: nil,
			Rules: [][]*gtab.ChainedClassSeqRule{{{Input: []uint16{0}, Lookahead: []uint16{0}}}, {{Backtrack: []uint16{65535}, Actions: actN(1, act(0, 2))}, {Lookahead: []uint16{0, 1}}}}})}
	}},
	{"chain3empty", func() gtab.LookupList {
		return gtab.LookupList{lk(6, 0, &gtab.ChainedSeqContext3{Input: []coverage.Set{setOf(gA, 0, 65535)}, Backtrack: []coverage.Set{{}}}, &gtab.ChainedSeqContext3{Input: []coverage.Set{setOf(gA, 0, 65535)}, Lookahead: []coverage.Set{setOf(gA, gB)}, Actions: actN(70, act(0, 0))})}
	}},
	{"reverse", func() gtab.LookupList {
		return gtab.LookupList{lk(8, 0, sub8([]glyph.ID{0, gA, 65535}, []glyph.ID{65535, 0, gA}, []coverage.Table{covOf(gA, 0)}, nil), sub8([]glyph.ID{gB}, []glyph.ID{0}, []coverage.Table{{}}, []coverage.Table{{}}))}
	}},
	{"reverseNested", func() gtab.LookupList {
		return gtab.LookupList{
			lk(5, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA), setOf(gA, gB)}, Actions: actN(3, act(1, 1), act(0, 1), act(0, 2))}),
			lk(8, 0, sub8([]glyph.ID{gA, gB}, []glyph.ID{gB, gM}, []coverage.Table{covOf(gA)}, []coverage.Table{covOf(gB)})),
			lk(8, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA)}, Actions: actN(3, act(0, 2))}, sub8([]glyph.ID{gA}, []glyph.ID{gB}, nil, nil)),
		}
	}},
	{"reverseWithMultiple", func() gtab.LookupList {
		// a malformed lookup which mixes subtable types
		return gtab.LookupList{lk(8, 0, sub2(multi{gA: {gA, gB, gA}}), sub4(lig{[]glyph.ID{gB, gB, gA}, gA}), sub8([]glyph.ID{gB}, []glyph.ID{gA}, nil, nil))}
	}},
	{"pos11", func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, &gtab.Gpos1_1{Cov: covOf(0, gA, 65535)}, &gtab.Gpos1_1{Cov: covOf(gB), Adjust: vr(32767, -32768, 32767)})}
	}},
	{"pos12nil", func() gtab.LookupList {
		return gtab.LookupList{lk(1, 0, &gtab.Gpos1_2{Cov: covOf(0, gA, 65535), Adjust: []*gtab.GposValueRecord{nil, nil, vr(-32768, 1, -32768)}})}
	}},
	{"pos21", func() gtab.LookupList {
		return gtab.LookupList{lk(2, 0, gtab.Gpos2_1{{Left: 0, Right: 65535}: {}, {Left: gA, Right: gA}: {Second: vr(1, 1, 1)}, {Left: 65535, Right: gB}: {First: vr(1, 1, 1)}}, gtab.Gpos2_1(nil))}
	}},
	{"pos22class", func() gtab.LookupList {
		return gtab.LookupList{lk(2, 0, &gtab.Gpos2_2{Cov: setOf(0, gA, gB, 65535), Class1: classdef.Table{gA: 1, gB: 9, 0: 65535}, Class2: classdef.Table{gA: 7, 0: 65535, gB: 1},
			Adjust: [][]*gtab.PairAdjust{{{}, {First: vr(1, 2, 3)}}, {{Second: vr(1, 2, 3)}, {}}}}, &gtab.Gpos2_2{Cov: setOf(gA)})}
	}},
	{"pos3", func() gtab.LookupList {
		return gtab.LookupList{lk(3, 0, &gtab.Gpos3_1{}), lk(3, 0, &gtab.Gpos3_1{Cov: covOf(gA, 65535), Records: []gtab.EntryExitRecord{{Entry: anch(1, 2)}, {Exit: anch(3, 4)}}})}
	}},
	{"pos4class", func() gtab.LookupList {
		return gtab.LookupList{lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(0, gM, 65535), BaseCov: covOf(gA, gB),
			MarkArray: []markarray.Record{markRec(2, 1, 1), markRec(65535, 1, 1), markRec(1, 1, 1)},
			BaseArray: [][]anchor.Table{{anch(1, 1), anch(-32768, 32767)}, {}}})}
	}},
	{"pos6class", func() gtab.LookupList {
		return gtab.LookupList{lk(6, 0, &gtab.Gpos6_1{Mark1Cov: covOf(0, gM, 65535), Mark2Cov: covOf(gM, gA),
			Mark1Array: []markarray.Record{markRec(2, 1, 1), markRec(65535, 1, 1), markRec(1, 1, 1)},
			Mark2Array: [][]anchor.Table{{anch(1, 1), anch(-32768, 32767)}, {}}})}
	}},
	{"mixed", func() gtab.LookupList {
		// the reader does not relate actions and lookup types
		return gtab.LookupList{
			lk(7, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA, gB, 0, 65535), setOf(gA, gM, 0)}, Actions: actN(9, act(0, 1), act(1, 2), act(1, 0), act(0, 3))}),
			lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(gM, 0), BaseCov: covOf(gA), MarkArray: []markarray.Record{markRec(0, 1, 1), markRec(1, 1, 1)}, BaseArray: [][]anchor.Table{{anch(5, 5)}}}),
			lk(2, 0, gtab.Gpos2_1{{Left: gA, Right: gM}: {First: vr(1, 2, 3), Second: vr(3, 4, 5)}}),
			lk(8, 0, &gtab.ChainedSeqContext3{Input: []coverage.Set{setOf(gA)}, Lookahead: []coverage.Set{setOf(gA, 0)}, Actions: actN(99, act(0, 0), act(0, 3))}),
		}
	}},
	{"selfRef", func() gtab.LookupList {
		return gtab.LookupList{
			lk(6, 0, &gtab.ChainedSeqContext3{Input: []coverage.Set{setOf(gA, gB)}, Actions: actN(3, act(0, 0))}),
			lk(5, 0, &gtab.SeqContext1{Cov: covOf(gA, gB), Rules: [][]*gtab.SeqRule{{{Input: []glyph.ID{gA}, Actions: actN(2, act(0, 2), act(1, 2))}}, {{Actions: actN(5, act(0, 2))}}}}),
			lk(5, 0, &gtab.SeqContext2{Cov: covOf(gA, gB), Input: classdef.Table{gA: 1}, Rules: [][]*gtab.ClassSeqRule{{{Actions: actN(5, act(0, 1))}}, {{Input: []uint16{1}, Actions: actN(5, act(1, 1), act(0, 0))}}}}),
		}
	}},
	{"growBack", func() gtab.LookupList {
		// growth inside self-referential contexts
		return gtab.LookupList{
			lk(5, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA)}, Actions: []gtab.SeqLookup{act(0, 1), act(0, 0), act(1, 0), act(2, 0)}}),
			lk(2, 0, sub2(multi{gA: {gA, gA, gA}})),
		}
	}},
	{"shrink", func() gtab.LookupList {
		return gtab.LookupList{
			lk(5, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(gA), setOf(gA, gB), setOf(gA, gB, gM)}, Actions: []gtab.SeqLookup{act(1, 1), act(0, 1), act(2, 1), act(0, 0), act(1, 2), act(2, 2)}}),
			lk(4, 0, sub4(lig{[]glyph.ID{gA, gA}, gA}, lig{[]glyph.ID{gA, gB}, gB}, lig{[]glyph.ID{gB, gM}, gA})),
			lk(2, 0, sub2(multi{gA: {gA, gB}, gB: {gA, gA, gM}})),
		}
	}},
}

// c07Seqs lists the sequences which are applied to adversarial tables.
func c07Seqs(thorough bool) []shapeInput {
	n := 3
	if thorough {
		n = 4
	}
	seqs := append([]shapeInput(nil), cachedSeqs("c07", []glyph.ID{gA, gB, gM, 0, 65535}, n, c06Adv)...)
	for _, k := range []int{7, 20, 65, 200} {
		seqs = append(seqs, repSeq(k, gA), repSeq(k, gB), repSeq(k, gA, gB), repSeq(k, gA, gM), repSeq(k, gA, gB, gM, 0, 65535), repSeq(k, 65535), repSeq(k, 0))
	}
	return seqs
}

func allLookups(ll gtab.LookupList) []gtab.LookupIndex {
	var res []gtab.LookupIndex
	for i := range ll {
		res = append(res, gtab.LookupIndex(i))
	}
	return res
}

func init() {
	structs := func(c *explore.Ctx) {
		s := explore.Pick(c, "table", c07Structs)
		gd := explore.Pick(c, "gdef", c07Gdefs)
		flags := explore.Pick(c, "flags", []int{0, igBase, igMarks, igLig, useSet, 1 << 8, 0xFF00, 0xFFFF})
		set := 0
		if flags&useSet != 0 {
			set = explore.Pick(c, "set", []int{0, 1, 2, 65535})
		}
		order := c.Choose("lookups", 3)
		c.Exec()
		ll := s.ll()
		for _, l := range ll {
			withFlags(l, flags, set)
		}
		var lookups []gtab.LookupIndex
		switch order {
		case 0:
			lookups = []gtab.LookupIndex{0}
		case 1:
			lookups = append([]gtab.LookupIndex{65535}, allLookups(ll)...)
		case 2:
			for i := len(ll) - 1; i >= 0; i-- {
				lookups = append(lookups, gtab.LookupIndex(i), gtab.LookupIndex(len(ll)), gtab.LookupIndex(i))
			}
		}
		// keep the size of the output within limits
		maxLen := 200
		if n, _ := maxRepl(ll); n > 1 {
			switch {
			case len(lookups) > 1:
				maxLen = 7
				lookups = lookups[:min(len(lookups), 3)]
			case flags != 0 || gd != c07Gdefs[0]:
				maxLen = 20
			}
		} else if flags != 0 && !c.Thorough {
			maxLen = 65
		}
		seqs := c07Seqs(c.Thorough)
		for len(seqs[len(seqs)-1]) > maxLen {
			seqs = seqs[:len(seqs)-1]
		}
		orders := 1
		if c.Thorough {
			orders = 3
		}
		c07Check(c, "structs", ll, gd, lookups, seqs, c07Opt{orders: orders})
	}

	// histories: all pairs of sequences on one context
	history := func(c *explore.Ctx) {
		type entry struct {
			name string
			ll   func() gtab.LookupList
		}
		var menu []entry
		for _, s := range c07Structs {
			menu = append(menu, entry(s))
		}
		for _, p := range c06Menu {
			for _, f := range []int{0, igMarks} {
				menu = append(menu, entry{p.name, func() gtab.LookupList { return p.ll(f, 0) }})
			}
		}
		e := explore.Pick(c, "table", menu)
		gd := explore.Pick(c, "gdef", c07Gdefs[:2])
		where := 0
		flags := 0
		if gd != nil {
			where = c.Choose("flagged", 3)
			flags = explore.Pick(c, "flags", []int{igMarks, igBase, useSet})
		}
		c.Exec()
		ll := e.ll()
		if where != 0 {
			// the flags of the first lookup stay, or are cleared
			for i, l := range ll {
				if where == 1 && i == len(ll)-1 || where == 2 && i > 0 {
					withFlags(l, flags, 0)
				}
			}
			ll = append(ll, lk(4, flags, sub4(lig{[]glyph.ID{gA, gB}, gA}, lig{[]glyph.ID{gM, gA}, gM})))
		}
		n := 3
		if c.Thorough {
			n = 4
		}
		seqs := append([]shapeInput(nil), cachedSeqs("c07", []glyph.ID{gA, gB, gM}, n, c06Adv)...)
		seqs = append(seqs, repSeq(30, gA), repSeq(70, gA), repSeq(70, gA, gB), repSeq(12, gA, gB, gM))
		c07Check(c, "history", ll, gd, allLookups(ll), seqs, c07Opt{pairs: true, orders: explore.MapOrders})
	}

	// nested actions with valid and invalid indices
	nested := func(num int) func(c *explore.Ctx) {
		return func(c *explore.Ctx) {
			kind := c.Choose("kind", 6)
			in := explore.Pick(c, "in", [][]glyph.ID{{gA}, {gA, gA}, {gA, gB}, {gA, gB, gA}})
			ahead := [][]glyph.ID(nil)
			if kind >= 3 && c.Bool("lookahead") {
				ahead = singles(gA)
			}
			children := [][2]*gtab.LookupTable{
				{lk(2, 0, sub2(multi{gA: {gA, gB, gA}, gB: {gA, gB}})), lk(4, 0, sub4(lig{[]glyph.ID{gA, gB}, gA}, lig{[]glyph.ID{gB, gA}, gB}, lig{[]glyph.ID{gA, gA}, gB}))},
				{lk(2, 0, sub2(multi{gA: {gA, gA}, gB: {}})), ctxLookup(false, 2, 0, ctxRule{in: [][]glyph.ID{{gA}, {gA, gB}}, acts: []gtab.SeqLookup{act(1, 1), act(0, 2), act(0, 0)}})},
				{lk(4, 0, sub4(lig{[]glyph.ID{gA, gA, gB}, gA}, lig{[]glyph.ID{gA, gA}, gA}, lig{[]glyph.ID{gA, gB}, gB})), ctxLookup(false, 4, 0, ctxRule{in: singles(gA, gB), acts: []gtab.SeqLookup{act(0, 1), act(1, 0), act(1, 1)}})},
				{lk(8, 0, sub8([]glyph.ID{gA, gB}, []glyph.ID{gB, gA}, nil, nil)), lk(2, 0, sub2(multi{gA: {gB}, gB: {gA, gA, gA, gA}}))},
			}
			ch := explore.Pick(c, "children", children)
			var acts []gtab.SeqLookup
			for i := 0; i < num; i++ {
				acts = append(acts, act(explore.Pick(c, "seqIdx", []int{0, 1, 2, 3, 65535}), explore.Pick(c, "lookup", []int{0, 1, 2, 3, 65535})))
			}
			c.Exec()
			ll := gtab.LookupList{ctxLookup(false, kind, 0, ctxRule{in: singles(in...), ahead: ahead, acts: acts}), ch[0], ch[1]}
			n := 3
			lookups := []gtab.LookupIndex{0}
			if num == 1 {
				n = 4
				lookups = []gtab.LookupIndex{0, 2, 0}
			}
			if c.Thorough && num <= 2 {
				n = 8 - 2*num
			}
			seqs := append([]shapeInput(nil), cachedSeqs("c07n", []glyph.ID{gA, gB}, n, nil)...)
			seqs = append(seqs, repSeq(9, gA), repSeq(9, gA, gB))
			if c.Thorough && num == 1 {
				seqs = append(seqs, repSeq(25, gA), repSeq(25, gA, gB))
			}
			c07Check(c, "nested", ll, nil, lookups, seqs, c07Opt{})
		}
	}

	// number of actions around the budget
	budget := func(c *explore.Ctx) {
		kind := c.Choose("kind", 6)
		num := c.Choose("num", 140)
		what := explore.Pick(c, "action", []int{0, 1, 2, 3})
		wrap := explore.Pick(c, "depth", []int{0, 1, 2, 63, 70})
		c.Exec()
		ll := gtab.LookupList{}
		// a chain of contexts in front of the rule with many actions
		for i := 0; i < wrap; i++ {
			ll = append(ll, ctxLookup(false, (kind+i)%6, 0, ctxRule{in: singles(gA), acts: []gtab.SeqLookup{act(0, i+1), act(0, i+1)}}))
		}
		b := len(ll)
		target := []int{b, b + 1, b + 2, b + 3}[what]
		ll = append(ll, ctxLookup(false, kind, 0, ctxRule{in: singles(gA, gA), acts: actN(num, act(0, target), act(1, target))}, ctxRule{in: singles(gA), acts: actN(num, act(0, target))}),
			lk(2, 0, sub2(multi{gA: {gA, gA}})),
			lk(4, 0, sub4(lig{[]glyph.ID{gA, gA}, gA})),
			lk(1, 0, sub12(gA, gB, gB, gA)))
		seqs := []shapeInput{repSeq(1, gA), repSeq(2, gA), repSeq(3, gA), repSeq(3, gA, gB), repSeq(9, gA), repSeq(10, gA, gA, gB)}
		if num%16 == 0 || c.Thorough && num%5 == 0 {
			seqs = append(seqs, repSeq(200, gA), repSeq(200, gA, gA, gA, gB))
		}
		seqs = append(seqs, repSeq(2, gA), repSeq(1, gB))
		c07Check(c, "budget", ll, nil, []gtab.LookupIndex{0, gtab.LookupIndex(b + 2)}, seqs, c07Opt{})
	}

	// mutated binary tables
	wordValues := func(orig, size int) []int {
		vals := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, size, size - 1, size - 2, size - 4, orig + 1, orig - 1, orig + 2, orig - 2, orig + 4, orig - 4, orig ^ 0x8000, orig << 8}
		var res []int
		for _, v := range vals {
			v &= 0xFFFF
			if v != orig && !slices.Contains(res, v) {
				res = append(res, v)
			}
		}
		return res
	}
	info := func(ll gtab.LookupList) *gtab.Info {
		all := allLookups(ll)
		return &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{tagDflt: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: all}},
			LookupList:  ll,
		}
	}
	setW := func(b []byte, off, v int) { b[off], b[off+1] = byte(v>>8), byte(v) }
	mutate := func(pairs bool) func(c *explore.Ctx) {
		return func(c *explore.Ctx) {
			p := explore.Pick(c, "program", c06Menu)
			flags := 0
			set := 0
			if !pairs {
				flags = explore.Pick(c, "flags", []int{0, igMarks, useSet})
			}
			ll := p.ll(flags, set)
			// a second lookup which changes the length of the sequence
			tp := gtab.Type(gtab.TypeGsub)
			if p.gpos {
				tp = gtab.TypeGpos
			} else {
				ll = append(ll, lk(2, 0, sub2(multi{gA: {gA, gB}, gM: {gA}})))
			}
			data := info(ll).Encode()
			// skip the script list, the feature list and the headers:
			// mutations in there do not change what the lookups do.
			start := int(be16val(data, 8))
			words := (len(data) - start) / 2
			off := start + 2*c.Choose("word", words)
			vals := wordValues(int(be16val(data, off)), len(data))
			if pairs {
				// fewer values
				vals = vals[:min(len(vals), 12)]
			}
			v := explore.Pick(c, "value", vals)
			off2, v2 := -1, 0
			if pairs {
				rest := (len(data) - off - 2) / 2
				if rest == 0 {
					c.Skip()
				}
				off2 = off + 2 + 2*c.Choose("word2", rest)
				vals = wordValues(int(be16val(data, off2)), len(data))
				v2 = explore.Pick(c, "value2", []int{vals[0], vals[1], vals[2], 0xFFFF, 0xFFFE, len(data) - 2, int(be16val(data, off2)) + 2, int(be16val(data, off2)) - 2})
			}
			c.Exec()
			setW(data, off, v)
			if pairs {
				setW(data, off2, v2)
			}
			if c.Verbose {
				c.Log("%s: word at %d (%#x) = %d, word at %d = %d\n%s", p.name, off, off, v, off2, v2, hexDump(data))
			}
			inf, err := gtab.Read(bytes.NewReader(data), tp)
			if err != nil {
				c.ObsStr("rejected")
				return
			}
			seqs := cachedSeqs("c07m", []glyph.ID{gA, gB, gM}, 3, c06Adv)
			if c.Thorough && !pairs {
				seqs = cachedSeqs("c07m", []glyph.ID{gA, gB, gM}, 4, c06Adv)
			}
			seqs = append(append([]shapeInput(nil), seqs...), repSeq(9, gA, gB, gM), repSeq(3, 0), repSeq(3, 65535))
			c07Check(c, "mutated", inf.LookupList, c06Gdef(), allLookups(inf.LookupList), seqs, c07Opt{})
		}
	}

	// mutated GDEF tables
	gdefMut := func(c *explore.Ctx) {
		data := c06Gdef().Encode()
		off := 2 * c.Choose("word", len(data)/2)
		v := explore.Pick(c, "value", wordValues(int(be16val(data, off)), len(data)))
		off2 := -1
		if c.Thorough {
			if rest := (len(data) - off - 2) / 2; rest > 0 {
				off2 = off + 2 + 2*c.Choose("word2", rest)
			}
		}
		v2 := 0
		if off2 >= 0 {
			v2 = explore.Pick(c, "value2", wordValues(int(be16val(data, off2)), len(data)))
		}
		c.Exec()
		setW(data, off, v)
		if off2 >= 0 {
			setW(data, off2, v2)
		}
		gd, err := gdef.Read(bytes.NewReader(data))
		if err != nil {
			c.ObsStr("rejected")
			return
		}
		var progs []gtab.LookupList
		for _, flags := range []int{igMarks, igBase, igLig, useSet, 1 << 8} {
			for set := 0; set < 3; set++ {
				if set > 0 && flags != useSet {
					continue
				}
				progs = append(progs, gtab.LookupList{
					withFlags(lk(4, 0, sub4(lig{[]glyph.ID{gA, gB}, gX}, lig{[]glyph.ID{gM, gA}, gX})), flags, set),
					withFlags(ctxLookup(false, 5, 0, ctxRule{back: singles(gB), in: singles(gA, gM), acts: []gtab.SeqLookup{act(1, 2)}}), flags, set),
					withFlags(lk(2, 0, sub2(multi{gM: {gM, gB}})), flags, set),
				})
			}
		}
		seqs := cachedSeqs("c07g", []glyph.ID{gA, gB, gM}, 3, nil)
		for _, ll := range progs {
			c07Check(c, "gdef", ll, gd, []gtab.LookupIndex{0, 1, 2}, seqs, c07Opt{})
		}
		ll := gtab.LookupList{lk(4, igMarks, &gtab.Gpos4_1{MarkCov: covOf(gM), BaseCov: covOf(gA, gB), MarkArray: []markarray.Record{markRec(1, 10, 20)},
			BaseArray: [][]anchor.Table{{anch(1, 1), anch(300, 700)}, {anch(2, 2), anch(0, 0)}}})}
		c07Check(c, "gdef", ll, gd, []gtab.LookupIndex{0}, seqs, c07Opt{})
	}

	run.Register(&run.Property{
		ID: "C07", Level: "model_checking",
		Rule: "For every lookup table and every glyph sequence within the bounds: Context.Apply returns (no panic, no hang), the multiset of the characters attached to the glyphs is the same before and after, the output length is bounded by (input length) x (1 + 64 (r-1)) per lookup, where r is the length of the longest replacement, the result is the same on a fresh context, on a context with any previous call, for shared text buffers and for every map iteration order, and the tables are not changed. The same for Layouter.Layout on fonts, and for FindLookups.",
		Assumptions: []string{
			"tables with positioning data which the library declares unimplemented (vertical advance, device offsets, GPOS 5) are skipped",
			"the order of map iterations is controlled in the runtime (all 8 start offsets of a map with up to 8 entries, in all insertion orders where stated)",
		},
		Drivers: append([]run.Driver{
			{Name: "structs", Run: structs, Weight: 3, Bounds: fmt.Sprintf("%d adversarial lookup lists x 7 GDEF tables x 8 flags x 4 filter sets x 3 lookup orders x all sequences of length <= 3 (thorough 4) over {A, B, M, 0, 65535} and 28 periodic sequences of length 7-200", len(c07Structs))},
			{Name: "history", Run: history, Weight: 2, Bounds: fmt.Sprintf("%d adversarial and 44 regular lookup lists x 2 GDEF tables: all ordered pairs of 44 sequences on a single context, 8 map orders", len(c07Structs))},
			{Name: "nested1", Run: nested(1), Weight: 1, Bounds: "6 context formats x 4 inputs x 4 pairs of child lookups x 1 action with 5 sequence indices and 5 lookup indices (including invalid ones) x all sequences of length <= 4 (thorough 6) over 2 glyphs, two of length 9 (thorough also 25)"},
			{Name: "nested2", Run: nested(2), Weight: 2, Bounds: "the same with all pairs of actions, all sequences of length <= 3 (thorough 4)"},
			{Name: "nested3", Run: nested(3), Weight: 6, ThoroughOnly: true, Bounds: "the same with all triples of actions, all sequences of length <= 3"},
			{Name: "budget", Run: budget, Weight: 2, Bounds: "6 context formats x 0-139 actions x 4 action kinds x chains of 0, 1, 2, 63, 70 contexts x 10 sequences of length 1-200"},
			{Name: "mutate1", Run: mutate(false), Weight: 4, Bounds: "22 encoded lookup lists (all types and formats) x 3 flags: every 16-bit word of the lookup list replaced by up to 31 boundary values x 43 sequences"},
			{Name: "mutate2", Run: mutate(true), Weight: 6, ThoroughOnly: true, Bounds: "the same with all pairs of words, 12 x 8 values"},
			{Name: "gdef", Run: gdefMut, Weight: 2, Bounds: "an encoded GDEF table with every word (thorough: every pair of words) replaced by up to 31 values x 8 programs x all sequences of length <= 3"},
		}, c07Layout()...),
	})
}

func be16val(b []byte, off int) uint16 { return uint16(b[off])<<8 | uint16(b[off+1]) }

// c07Layout has the drivers which work on fonts.
func c07Layout() []run.Driver {
	// fonts where the tables refer to glyphs which do not exist
	layout := func(c *explore.Ctx) {
		kind := c.Choose("kind", fkCount)
		g := &fontGen{c: c, dims: dimSet("glyphs")}
		f := g.font(kind)
		n := glyph.ID(f.NumGlyphs())
		cm := c.Choose("cmap", 4)
		gs := c.Choose("gsub", 5)
		gp := c.Choose("gpos", 4)
		gd := c.Choose("gdef", 3)
		c.Exec()
		sub := cmap.Format4{'A': 1, 'B': min(2, n-1), 'f': min(3, n-1), 'i': min(4, n-1), 'Z': 0}
		switch cm {
		case 1:
			sub['x'], sub['y'] = n, 65535
		case 2:
			sub = cmap.Format4{'A': n, 'B': n + 1, 'f': 65535, 'i': 65534}
		case 3:
			sub = cmap.Format4{}
		}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: sub.Encode(0)}
		var ll gtab.LookupList
		switch gs {
		case 1:
			ll = gtab.LookupList{lk(1, 0, &gtab.Gsub1_1{Cov: setOf(0, 1, 2), Delta: n})}
		case 2:
			ll = gtab.LookupList{lk(2, 0, sub2(multi{1: {65535, n, 1}, 0: {0, n}}))}
		case 3:
			ll = gtab.LookupList{lk(4, 0, sub4(lig{[]glyph.ID{1, 1}, 65535}, lig{[]glyph.ID{0, 0, 0}, n}))}
		case 4:
			ll = gtab.LookupList{ctxLookup(false, 2, 0, ctxRule{in: [][]glyph.ID{{0, 1, n}}, acts: actN(70, act(0, 1))}), lk(2, 0, sub2(multi{0: {0, n}, 1: {1, 1}}))}
		}
		f.Gsub = nil
		if ll != nil {
			f.Gsub = &gtab.Info{ScriptList: gtab.ScriptListInfo{tagDflt: {Required: 0, Optional: []gtab.FeatureIndex{7}}}, FeatureList: gtab.FeatureListInfo{{Tag: "liga", Lookups: []gtab.LookupIndex{0, 99}}}, LookupList: ll}
		}
		ll = nil
		switch gp {
		case 1:
			ll = gtab.LookupList{lk(1, 0, &gtab.Gpos1_1{Cov: covOf(0, 1, n, 65535), Adjust: vr(1, 2, 3)})}
		case 2:
			ll = gtab.LookupList{lk(2, 0, gtab.Gpos2_1{{Left: n, Right: 1}: {First: vr(1, 2, 3)}, {Left: 65535, Right: 65535}: {First: vr(1, 2, 3)}})}
		case 3:
			ll = gtab.LookupList{lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(1, 65535), BaseCov: covOf(0, n), MarkArray: []markarray.Record{markRec(0, 1, 1), markRec(1, 1, 1)}, BaseArray: [][]anchor.Table{{anch(1, 1)}, {anch(2, 2), anch(3, 3)}}})}
		}
		f.Gpos = nil
		if ll != nil {
			f.Gpos = &gtab.Info{ScriptList: gtab.ScriptListInfo{tagDflt: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}}, FeatureList: gtab.FeatureListInfo{{Tag: "kern", Lookups: []gtab.LookupIndex{0, 99}}}, LookupList: ll}
		}
		switch gd {
		case 0:
			f.Gdef = nil
		case 1:
			f.Gdef = &gdef.Table{GlyphClass: classdef.Table{0: 1, 1: 3, n: 3, 65535: 1}}
		case 2:
			f.Gdef = &gdef.Table{GlyphClass: classdef.Table{0: 3, n: 3, 65535: 3}}
		}
		strs := c07Strings([]rune{'A', 'x', 'y'}, 3)
		strs = append(strs, "", "\xff\xfe", "A\x00B", "\U0010FFFFA", "fi", "ABfiZ", strings.Repeat("A", 200), strings.Repeat("Ax", 100))
		if gs == 4 {
			// the text gets much longer
			strs = c07Strings([]rune{'A', 'x'}, 2)
			strs = append(strs, "ABfiZ", strings.Repeat("A", 20), strings.Repeat("Ax", 5))
		}
		c07LayoutCheck(c, "layout", f, strs, 1)
	}

	// regular fonts with layout tables, in all feature dimensions
	fonts := func(c *explore.Ctx) {
		kind := c.Choose("kind", fkCount)
		g := &fontGen{c: c, dims: dimSet("glyphs", "widths", "cmap", "gsub", "gpos", "gdef")}
		f := g.font(kind)
		c.Exec()
		var chars []rune
		for r := range g.chars {
			chars = append(chars, r)
		}
		slices.Sort(chars)
		if len(chars) > 7 {
			chars = chars[:7]
		}
		chars = append(chars, 'f', 'i', 0x0301, 0xE000)
		slices.Sort(chars)
		chars = slices.Compact(chars)
		n := 2
		if c.Thorough {
			n = 3
		}
		c07LayoutCheck(c, "fonts", f, append(c07Strings(chars, n), "ffi fi", "Afi\u0301\u0301A", strings.Repeat("fi", 100)), explore.MapOrders)
	}

	// FindLookups: all insertion orders and all iteration orders
	find := func(c *explore.Ctx) {
		all := []language.Tag{tagDflt, tagLatn, tagDeu, tagCyrl, language.MustParse("und-Arab-x-arab"), language.MustParse("en-Latn-x-latn-eng")}
		n := 1 + c.Choose("n", 4)
		var tags []language.Tag
		last := 0
		for i := 0; i < n; i++ {
			if last >= len(all) {
				c.Skip()
			}
			k := last + c.Choose("tag", len(all)-last)
			tags = append(tags, all[k])
			last = k + 1
		}
		lang := explore.Pick(c, "lang", []language.Tag{language.Und, language.English, language.German, language.MustParse("de-CH"), language.Russian, language.Arabic, language.Japanese, tagDflt, tagLatn, tagDeu, tagCyrl, language.MustParse("und-Cyrl"), language.MustParse("sr-Latn")})
		c.Exec()
		sel := map[string]bool{"aaaa": true, "bbbb": false, "cccc": true, "dddd": true, "eeee": true, "ffff": true}
		var want []gtab.LookupIndex
		have := false
		permute(len(tags), func(perm []int) {
			sl := gtab.ScriptListInfo{}
			for _, i := range perm {
				sl[tags[i]] = &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{gtab.FeatureIndex(slices.Index(all, tags[i]))}}
			}
			inf := &gtab.Info{ScriptList: sl}
			for i := range all {
				inf.FeatureList = append(inf.FeatureList, &gtab.Feature{Tag: "aaaa", Lookups: []gtab.LookupIndex{gtab.LookupIndex(i), gtab.LookupIndex(10 + i), 3, 99}})
				inf.LookupList = append(inf.LookupList, lk(1, 0), lk(1, 0), lk(1, 0))
			}
			for o := 1; o <= explore.MapOrders; o++ {
				explore.SetMapOrder(o)
				got := inf.FindLookups(lang, sel)
				explore.SetMapOrder(0)
				if !have {
					want, have = got, true
				} else if !slices.Equal(got, want) {
					c.Fail("find:maporder", "FindLookups(%s) for a script list with %v depends on the order of map iterations: %v or %v", lang, tags, want, got)
				}
			}
		})
		c.ObsStr(fmt.Sprint(want))
	}
	return []run.Driver{
		{Name: "layout", Run: layout, Weight: 3, Dev: 1, DevThorough: 1, Bounds: "5 kinds of fonts x 6 glyph complements x 4 character maps x 5 GSUB x 4 GPOS x 3 GDEF tables which refer to glyphs which do not exist x 47 strings, on fresh and reused layouters"},
		{Name: "fonts", Run: fonts, Weight: 2, Dev: 2, DevThorough: 3, Bounds: "5 kinds of fonts with <= 2 (thorough 3) feature deviations x all strings of length <= 2 (thorough 3) over the mapped characters; fresh and reused layouters, all 8 map orders"},
		{Name: "find", Run: find, Weight: 1, Bounds: "all script lists with 1-4 of 6 language systems x 13 languages x all insertion orders x 8 iteration orders"},
	}
}

func permute(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// c07Strings lists all strings over the given characters of length 0 to n.
func c07Strings(chars []rune, n int) []string {
	res := []string{""}
	last := res
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, r := range chars {
				next = append(next, s+string(r))
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

func c07LayoutCheck(c *explore.Ctx, key string, f *sfnt.Font, strs []string, orders int) {
	_, u1 := maxRepl(lookupsOf(f.Gsub))
	_, u2 := maxRepl(lookupsOf(f.Gpos))
	if u1 || u2 {
		c.ObsStr("unimplemented")
		return
	}
	var cur string
	desc := func() string {
		return fmt.Sprintf("%d glyphs\nGSUB:\n%sGPOS:\n%sGDEF: %s", f.NumGlyphs(), dumpLL(lookupsOf(f.Gsub)), dumpLL(lookupsOf(f.Gpos)), dump(f.Gdef))
	}
	defer func() {
		explore.SetMapOrder(0)
		if r := recover(); r != nil {
			if _, ok := r.(error); ok {
				c.Fail(key+":panic", "layout of %q panics: %v\n%s\n%s", cur, r, desc(), debug.Stack())
			}
			panic(r)
		}
	}()
	mk := func() *sfnt.Layouter {
		l, err := f.NewLayouter(language.Und, nil, nil)
		if err != nil {
			return nil
		}
		return l
	}
	if mk() == nil {
		c.ObsStr("no layouter")
		return
	}
	before := dump(f.Gsub) + dump(f.Gpos) + dump(f.Gdef)
	fresh := make([][]glyph.Info, len(strs))
	h := uint64(14695981039346656037)
	for i, s := range strs {
		cur = s
		got := mk().Layout(s)
		want := []rune(s)
		slices.Sort(want)
		if !slices.Equal(sortedText(got), want) {
			c.Fail(key+":text", "layout of %q does not conserve the text: %s\n%s", s, clip(seqString(got, false), 1000), desc())
		}
		fresh[i] = infosCopy(got)
		for _, g := range got {
			h = (h ^ uint64(g.GID)<<1 ^ uint64(uint16(g.XOffset))<<20 ^ uint64(uint16(g.Advance))<<40) * 1099511628211
		}
	}
	l := mk()
	check := func(i int, what, prev string) {
		cur = strs[i]
		if got := l.Layout(strs[i]); !seqEqual(got, fresh[i]) {
			c.Fail(key+":history", "layout of %q after %q (%s)\ngot    %s\nexpect %s\n%s", strs[i], prev, what, clip(seqString(got, true), 1000), clip(seqString(fresh[i], true), 1000), desc())
		}
	}
	if len(strs) <= 24 || c.Thorough && len(strs) <= 64 {
		for i := range strs {
			for j := range strs {
				check(i, "reused", strs[max(j-1, 0)])
				check(j, "reused", strs[i])
			}
		}
	} else {
		for i := range strs {
			check(i, "reused", strs[max(i-1, 0)])
		}
		for i := len(strs) - 1; i >= 0; i-- {
			check(i, "reused", strs[min(i+1, len(strs)-1)])
		}
	}
	for o := 1; o <= orders; o++ {
		explore.SetMapOrder(o)
		l = mk()
		for i := range strs {
			check(i, fmt.Sprintf("map order %d", o), "")
		}
		explore.SetMapOrder(0)
	}
	if after := dump(f.Gsub) + dump(f.Gpos) + dump(f.Gdef); after != before {
		c.Fail(key+":tables", "Layout changes the tables of the font\nbefore %s\nafter  %s", before, after)
	}
	c.Obs([]byte(fmt.Sprint(h)))
}

func lookupsOf(info *gtab.Info) gtab.LookupList {
	if info == nil {
		return nil
	}
	return info.LookupList
}

var _ = sort.Ints
var _ funit.Int16
