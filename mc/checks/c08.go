package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
	"seehuhn.de/go/sfnt/parser"

	"verif/mc/explore"
	"verif/mc/run"
)

// refused calls f and reports whether it panicked.
func refused(f func()) (why string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			why, ok = fmt.Sprint(e), true
		}
	}()
	f()
	return "", false
}

var c08Tags sync.Map

// c08Tag returns the language tag which the library uses for an OpenType
// script and language.
func c08Tag(script, lang string) language.Tag {
	if t, ok := c08Tags.Load(script + "/" + lang); ok {
		return t.(language.Tag)
	}
	b := makeScriptGsub([]refLangSys{{script, lang, 0, "[]"}}, [][]int{nil}, 1)
	info, err := gtab.Read(bytes.NewReader(b), gtab.TypeGsub)
	if err != nil {
		panic(err)
	}
	for tag := range info.ScriptList {
		c08Tags.Store(script+"/"+lang, tag)
		return tag
	}
	panic("no tag for " + script + "/" + lang)
}

type c08Sys struct {
	script, lang string
	req          int
	opt          []int
}

func (s c08Sys) ref() refLangSys { return refLangSys{s.script, s.lang, s.req, fmt.Sprint(s.opt)} }

func c08Scripts(ss []c08Sys) gtab.ScriptListInfo {
	res := gtab.ScriptListInfo{}
	for _, s := range ss {
		f := &gtab.Features{Required: gtab.FeatureIndex(s.req)}
		for _, o := range s.opt {
			f.Optional = append(f.Optional, gtab.FeatureIndex(o))
		}
		res[c08Tag(s.script, s.lang)] = f
	}
	return res
}

// c08Norm replaces representations which the binary format cannot
// distinguish: missing value records in a column where other records are
// present, explicit entries for class 0.
func c08Norm(ll gtab.LookupList) {
	zero := func(vs []**gtab.GposValueRecord) {
		some := false
		for _, v := range vs {
			some = some || *v != nil
		}
		for _, v := range vs {
			if some && *v == nil {
				*v = &gtab.GposValueRecord{}
			}
		}
	}
	pairs := func(adj []*gtab.PairAdjust) {
		var v1, v2 []**gtab.GposValueRecord
		for _, a := range adj {
			v1 = append(v1, &a.First)
			v2 = append(v2, &a.Second)
		}
		zero(v1)
		zero(v2)
	}
	for _, l := range ll {
		for _, st := range l.Subtables {
			switch st := st.(type) {
			case *gtab.Gpos1_2:
				var vs []**gtab.GposValueRecord
				for i := range st.Adjust {
					vs = append(vs, &st.Adjust[i])
				}
				zero(vs)
			case gtab.Gpos2_1:
				var adj []*gtab.PairAdjust
				for _, a := range st {
					adj = append(adj, a)
				}
				pairs(adj)
			case *gtab.Gpos2_2:
				var adj []*gtab.PairAdjust
				for _, row := range st.Adjust {
					adj = append(adj, row...)
				}
				pairs(adj)
				c08NormClass(st.Class1)
				c08NormClass(st.Class2)
			case *gtab.SeqContext2:
				c08NormClass(st.Input)
			case *gtab.ChainedSeqContext2:
				c08NormClass(st.Input)
				c08NormClass(st.Backtrack)
				c08NormClass(st.Lookahead)
			}
		}
	}
}

func c08NormClass(t classdef.Table) {
	for g, c := range t {
		if c == 0 {
			delete(t, g)
		}
	}
}

// c08MayRefuse returns true if there is data which does not fit into 16-bit
// offsets, or where a reader or writer may reasonably give up: a subtable, a
// script list or a feature list of more than 64 KiB, lists which cannot be
// arranged within 64 KiB of the header, or too many lookups.
func c08MayRefuse(info *gtab.Info, ss []c08Sys) bool {
	scripts := map[string]bool{}
	sl := 2
	for _, s := range ss {
		if !scripts[s.script] {
			scripts[s.script] = true
			sl += 10
		}
		if s.lang != "" {
			sl += 6
		}
		sl += 6 + 2*len(s.opt)
	}
	fl := 2
	for _, f := range info.FeatureList {
		fl += 10 + 2*len(f.Lookups)
	}
	ext := 2
	total := 2
	n := 0
	for _, l := range info.LookupList {
		ext += 2 + 6 + 2*len(l.Subtables)
		n += 1 + len(l.Subtables)
		total += 2 + 6 + 2*len(l.Subtables)
		if l.Meta.LookupFlags&0x10 != 0 {
			ext += 2
			total += 2
		}
		for _, st := range l.Subtables {
			size := refSubSize(st)
			if size > 0xFFFF {
				return true
			}
			if st, ok := st.(*gtab.Gpos2_2); ok && len(st.Adjust) > 0 && len(st.Adjust)*len(st.Adjust[0]) > 0xFFFF {
				return true
			}
			ext += 8
			total += size
		}
	}
	lens := []int{sl, fl, total}
	sort.Ints(lens)
	return sl > 0xFFFF || fl > 0xFFFF || ext > 0xFFFF || n > 6000 || 10+lens[0]+lens[1] > 0xFFFF
}

type c08Case struct {
	gpos bool
	mk   func() *gtab.Info
	ss   []c08Sys // nil if the script list is empty
}

func c08Type(gpos bool) gtab.Type {
	if gpos {
		return gtab.TypeGpos
	}
	return gtab.TypeGsub
}

// c08Check encodes the table and compares both the library's and the
// reference decoder's view of the result with the original.
func c08Check(c *explore.Ctx, key string, cs c08Case) {
	info, want := cs.mk(), cs.mk()
	desc := func() string {
		var tps []string
		for i, l := range want.LookupList {
			if i > 8 {
				tps = append(tps, "...")
				break
			}
			s := fmt.Sprintf("%d:", l.Meta.LookupType)
			for j, st := range l.Subtables {
				if j > 4 {
					s += "..."
					break
				}
				s += fmt.Sprintf(" %s(%d)", strings.TrimPrefix(fmt.Sprintf("%T", st), "*gtab."), refSubSize(st))
			}
			tps = append(tps, s)
		}
		return fmt.Sprintf("%d lookups [%s]", len(want.LookupList), strings.Join(tps, "; "))
	}
	var data []byte
	if why, bad := refused(func() { data = info.Encode() }); bad {
		if !c08MayRefuse(want, cs.ss) {
			c.Fail(key+":refused", "%s: Encode panics: %s", desc(), why)
		}
		c.ObsStr("refused")
		return
	}
	if d := deepDiff(want, info); d != "" {
		c.Fail(key+":modified", "%s: Encode modifies the table: %s", desc(), d)
	}
	c.Obs(data)
	c08Norm(want.LookupList)

	ref, err := refGtab(data, cs.gpos)
	if err != nil {
		c.Fail(key+":malformed", "%s: %v", desc(), err)
	}
	ls := map[string]refLangSys{}
	for _, s := range cs.ss {
		ls[s.script+s.lang] = s.ref()
	}
	if len(ref.Scripts) != len(ls) {
		c.Fail(key+":scripts", "%d of %d scripts/languages written", len(ref.Scripts), len(ls))
	}
	for _, g := range ref.Scripts {
		if w, ok := ls[g.script+g.lang]; !ok || w != g {
			c.Fail(key+":scripts", "%v written, want %v", g, w)
		}
	}
	if d := deepDiff(want.FeatureList, ref.Features); d != "" {
		c.Fail(key+":features", "%s", d)
	}
	if d := deepDiff(want.LookupList, ref.Lookups); d != "" {
		c.Fail(key+":written", "%s: %s", desc(), d)
	}
	got, err := gtab.Read(bytes.NewReader(data), c08Type(cs.gpos))
	if err != nil {
		c.Fail(key+":unreadable", "%s: %v", desc(), err)
	}
	if d := deepDiff(want, got); d != "" {
		c.Fail(key+":roundtrip", "%s: %s", desc(), d)
	}
}

func c08Marker(gpos bool) *gtab.LookupTable {
	if gpos {
		return lk(1, 2, &gtab.Gpos1_1{Cov: covOf(3, 4), Adjust: &gtab.GposValueRecord{XAdvance: 7}})
	}
	return lk(1, 2, &gtab.Gsub1_1{Cov: setOf(3, 4), Delta: 9})
}

var c08Latn = []c08Sys{{"latn", "", 0xFFFF, []int{0}}, {"latn", "DEU ", 0, []int{}}}

// c08Sub checks a subtable: it is used twice in a lookup, before and after
// other lookups, so that sizes and offsets are visible.
func c08Sub(c *explore.Ctx, key string, gpos bool, tp int, mk func() gtab.Subtable) {
	c.Exec()
	c08Check(c, key, c08Case{gpos, func() *gtab.Info {
		l := lk(tp, 0x0310, mk(), mk())
		l.Meta.MarkFilteringSet = 0x0105
		return &gtab.Info{
			ScriptList:  c08Scripts(c08Latn),
			FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{1, 0}}},
			LookupList:  gtab.LookupList{l, c08Marker(gpos), lk(tp, 0, mk())},
		}
	}, c08Latn})
}

func c08Cov(gg []int) coverage.Table {
	return covOf(gids(gg...)...)
}

func c08Set(gg []int) coverage.Set {
	return setOf(gids(gg...)...)
}

var c08Covs = [][]int{
	{}, {0}, {5}, {0xFFFF}, {0, 0xFFFF}, {1, 2, 3}, {1, 2, 3, 4}, {2, 4, 6}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9},
	{1, 2, 3, 4, 9, 10, 11, 12}, {0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF}, {0xFE, 0xFF, 0x100, 0x101, 0x102}, {1, 2, 3, 5, 6, 7}, {1, 2, 3, 5, 6, 7, 8},
}

var c08Few = [][]int{{0, 0xFFFF}, {1, 2, 3, 4}, {258}, {}}

func c08Glyphs(n int) [][]int {
	return [][]int{{}, {7}, {0, 0xFFFF}, {1, 2, 3}, {1, 2, 3, 4}}[n : n+1]
}

// c08Val is a fixed sequence of values with distinct high and low bytes.
func c08Val(i int) int { return (0x0102 + i*0x0D35) & 0xFFFF }

func c08List(start, n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(c08Val(start + i))
	}
	return res
}

func c08Acts(start, n int) []gtab.SeqLookup {
	res := make([]gtab.SeqLookup, n)
	for i := range res {
		res[i] = gtab.SeqLookup{SequenceIndex: uint16(c08Val(start + i)), LookupListIndex: gtab.LookupIndex(c08Val(start + i + 7))}
	}
	return res
}

func c08U16(start, n int) []uint16 {
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(c08Val(start + i))
	}
	return res
}

// c08Rec makes a value record with the given fields.
func c08Rec(fields, start int) *gtab.GposValueRecord {
	if fields < 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	set := func(bit int) int {
		if fields&(1<<bit) == 0 {
			return 0
		}
		return c08Val(start + bit)
	}
	v.XPlacement = funit.Int16(set(0))
	v.YPlacement = funit.Int16(set(1))
	v.XAdvance = funit.Int16(set(2))
	v.YAdvance = funit.Int16(set(3))
	v.XPlacementDevOffs = uint16(set(4))
	v.YPlacementDevOffs = uint16(set(5))
	v.XAdvanceDevOffs = uint16(set(6))
	v.YAdvanceDevOffs = uint16(set(7))
	return v
}

var c08Classes = []classdef.Table{
	{}, {5: 1}, {0: 2, 0x200: 1}, {1: 1, 2: 1, 3: 1, 4: 1, 5: 2}, {1: 1, 2: 2, 3: 3, 4: 1}, {1: 1, 2: 1, 3: 1, 9: 0x0102},
	{4: 0, 8: 1}, {8: 1, 0xFF00: 0}, {3: 0},
}

func cloneClass(t classdef.Table) classdef.Table {
	res := classdef.Table{}
	for g, c := range t {
		res[g] = c
	}
	return res
}

// c08RuleSets chooses the shapes of the rules for n rule sets; a shape is a
// number below shapes.
func c08RuleSets(c *explore.Ctx, n, shapes int) [][]int {
	res := make([][]int, n)
	for i := range res {
		switch k := c.Choose("rules", 4); k {
		case 0:
			// nil
		case 1:
			res[i] = []int{}
		case 2:
			res[i] = []int{c.Choose("rule", shapes)}
		case 3:
			if n > 2 {
				c.Skip()
			}
			res[i] = []int{c.Choose("rule", shapes), c.Choose("rule2", 3)}
		}
	}
	return res
}

func c08Map[T any](rs [][]int, f func(i, shape int) T) [][]T {
	res := make([][]T, len(rs))
	k := 0
	for i, r := range rs {
		if r == nil {
			continue
		}
		res[i] = []T{}
		for _, s := range r {
			k += 3
			res[i] = append(res[i], f(k, s))
		}
	}
	return res
}

func c08Lists(c *explore.Ctx, label string, lo, hi int, menu [][]int) [][]int {
	n := lo + c.Choose("n"+label, hi-lo+1)
	res := make([][]int, n)
	for i := range res {
		res[i] = explore.Pick(c, label, menu)
	}
	return res
}

func c08SubDrivers() []run.Driver {
	var res []run.Driver
	add := func(name string, gpos bool, tp int, weight float64, bounds string, gen func(c *explore.Ctx) func() gtab.Subtable) {
		key := "c08:" + name
		res = append(res, run.Driver{Name: name, Weight: weight, Bounds: bounds, Run: func(c *explore.Ctx) {
			c08Sub(c, key, gpos, tp, gen(c))
		}})
	}
	add("gsub1", false, 1, 1, "formats 1 and 2: 14 coverage tables x 5 deltas / 3 substitution lists", func(c *explore.Ctx) func() gtab.Subtable {
		cov := explore.Pick(c, "cov", c08Covs)
		k := c.Choose("subst", 8)
		return func() gtab.Subtable {
			if k < 5 {
				return &gtab.Gsub1_1{Cov: c08Set(cov), Delta: []glyph.ID{0, 1, 0x7FFF, 0x8000, 0xFFFF}[k]}
			}
			l := c08List(k, len(cov))
			if k == 7 {
				for i := range l {
					l[i] = 0xFFFF
				}
			}
			return &gtab.Gsub1_2{Cov: c08Cov(cov), SubstituteGlyphIDs: l}
		}
	})
	for tp := 2; tp <= 3; tp++ {
		add(fmt.Sprintf("gsub%d", tp), false, tp, 1, "0-4 glyphs x lists of length 0, 1, 2, 3, 5", func(c *explore.Ctx) func() gtab.Subtable {
			cov := c08Glyphs(c.Choose("n", 5))[0]
			lens := make([]int, len(cov))
			for i := range lens {
				lens[i] = explore.Pick(c, "len", []int{1, 0, 2, 3, 5})
			}
			return func() gtab.Subtable {
				var repl [][]glyph.ID
				for i, n := range lens {
					repl = append(repl, c08List(11*i, n))
				}
				if tp == 2 {
					return &gtab.Gsub2_1{Cov: c08Cov(cov), Repl: repl}
				}
				return &gtab.Gsub3_1{Cov: c08Cov(cov), Alternates: repl}
			}
		})
	}
	add("gsub4", false, 4, 1, "0-3 glyphs x 0-2 (3 for one glyph) ligatures of 1-4 components", func(c *explore.Ctx) func() gtab.Subtable {
		cov := c08Glyphs(c.Choose("n", 4))[0]
		most := 2
		if len(cov) < 2 {
			most = 3
		}
		lens := make([][]int, len(cov))
		for i := range lens {
			lens[i] = make([]int, c.Choose("ligs", most+1))
			for j := range lens[i] {
				lens[i][j] = c.Choose("comps", 4)
			}
		}
		return func() gtab.Subtable {
			st := &gtab.Gsub4_1{Cov: c08Cov(cov), Repl: make([][]gtab.Ligature, len(cov))}
			k := 0
			for i := range lens {
				for _, n := range lens[i] {
					k += 5
					st.Repl[i] = append(st.Repl[i], gtab.Ligature{In: c08List(k, n), Out: glyph.ID(c08Val(k + 4))})
				}
			}
			return st
		}
	})
	add("gsub8", false, 8, 1, "14 input coverage tables x backtrack and lookahead lists of 0-2 coverage tables out of 4", func(c *explore.Ctx) func() gtab.Subtable {
		in := explore.Pick(c, "cov", c08Covs)
		back := c08Lists(c, "back", 0, 2, c08Few)
		ahead := c08Lists(c, "ahead", 0, 2, c08Few)
		return func() gtab.Subtable {
			return &gtab.Gsub8_1{Input: c08Cov(in), Backtrack: mapSlice(back, c08Cov), Lookahead: mapSlice(ahead, c08Cov),
				SubstituteGlyphIDs: c08List(3, len(in))}
		}
	})
	for _, gpos := range []bool{false, true} {
		name, ctx, chain := "gsub", 5, 6
		if gpos {
			name, ctx, chain = "gpos", 7, 8
		}
		add(name+"-ctx1", gpos, ctx, 1, "0-3 glyphs x missing, empty, one or two rules with 0-2 input glyphs and 0-2 actions", func(c *explore.Ctx) func() gtab.Subtable {
			cov := c08Glyphs(c.Choose("n", 4))[0]
			rs := c08RuleSets(c, len(cov), 9)
			return func() gtab.Subtable {
				return &gtab.SeqContext1{Cov: c08Cov(cov), Rules: c08Map(rs, func(k, s int) *gtab.SeqRule {
					return &gtab.SeqRule{Input: c08List(k, s%3), Actions: c08Acts(k, s/3)}
				})}
			}
		})
		add(name+"-ctx2", gpos, ctx, 2, "9 class tables x 4 coverage tables x 0-3 rule sets", func(c *explore.Ctx) func() gtab.Subtable {
			cov := explore.Pick(c, "cov", c08Few)
			cd := explore.Pick(c, "classes", c08Classes)
			n := c.Choose("sets", min(4, cd.NumClasses()+1))
			rs := c08RuleSets(c, n, 9)
			return func() gtab.Subtable {
				return &gtab.SeqContext2{Cov: c08Cov(cov), Input: cloneClass(cd), Rules: c08Map(rs, func(k, s int) *gtab.ClassSeqRule {
					return &gtab.ClassSeqRule{Input: c08U16(k, s%3), Actions: c08Acts(k, s/3)}
				})}
			}
		})
		add(name+"-ctx3", gpos, ctx, 1, "1-3 input coverage tables out of 14 (first) and 4, 0-2 actions", func(c *explore.Ctx) func() gtab.Subtable {
			in := [][]int{explore.Pick(c, "first", c08Covs)}
			in = append(in, c08Lists(c, "input", 0, 2, c08Few)...)
			n := c.Choose("actions", 3)
			return func() gtab.Subtable {
				return &gtab.SeqContext3{Input: mapSlice(in, c08Set), Actions: c08Acts(5, n)}
			}
		})
		shape := func(s int) (b, i, a, n int) { return s % 3, s / 3 % 3, s / 9 % 3, s / 27 }
		add(name+"-chain1", gpos, chain, 1, "0-2 glyphs x missing, empty, one or two rules with 0-2 backtrack, input, lookahead glyphs and actions", func(c *explore.Ctx) func() gtab.Subtable {
			cov := c08Glyphs(c.Choose("n", 3))[0]
			rs := c08RuleSets(c, len(cov), 81)
			return func() gtab.Subtable {
				return &gtab.ChainedSeqContext1{Cov: c08Cov(cov), Rules: c08Map(rs, func(k, s int) *gtab.ChainedSeqRule {
					b, i, a, n := shape(s)
					return &gtab.ChainedSeqRule{Backtrack: c08List(k, b), Input: c08List(k+1, i), Lookahead: c08List(k+2, a), Actions: c08Acts(k, n)}
				})}
			}
		})
		add(name+"-chain2", gpos, chain, 2, "9 input class tables x 3 (thorough 5) backtrack and lookahead class tables x 2 coverage tables x 0-2 rule sets", func(c *explore.Ctx) func() gtab.Subtable {
			cov := explore.Pick(c, "cov", c08Few[:2])
			var cd [3]classdef.Table
			few := 3
			if c.Thorough {
				few = 5
			}
			cd[1] = explore.Pick(c, "input classes", c08Classes)
			cd[0] = explore.Pick(c, "backtrack classes", c08Classes[:few])
			cd[2] = explore.Pick(c, "lookahead classes", c08Classes[:few])
			n := c.Choose("sets", min(3, cd[1].NumClasses()+1))
			shapes := 81
			if n == 2 {
				if len(cd[0])+len(cd[2]) > 0 {
					c.Skip()
				}
				cd[0], cd[2] = c08Classes[3], c08Classes[1]
				if !c.Thorough {
					shapes = 27
				}
			}
			rs := c08RuleSets(c, n, shapes)
			return func() gtab.Subtable {
				return &gtab.ChainedSeqContext2{Cov: c08Cov(cov), Input: cloneClass(cd[1]), Backtrack: cloneClass(cd[0]), Lookahead: cloneClass(cd[2]),
					Rules: c08Map(rs, func(k, s int) *gtab.ChainedClassSeqRule {
						b, i, a, n := shape(s)
						return &gtab.ChainedClassSeqRule{Backtrack: c08U16(k, b), Input: c08U16(k+1, i), Lookahead: c08U16(k+2, a), Actions: c08Acts(k, n)}
					})}
			}
		})
		add(name+"-chain3", gpos, chain, 1, "0-2 backtrack, 1-2 input and 0-2 lookahead coverage tables out of 4, 0-2 actions", func(c *explore.Ctx) func() gtab.Subtable {
			back := c08Lists(c, "back", 0, 2, c08Few)
			in := c08Lists(c, "input", 1, 2, c08Few)
			ahead := c08Lists(c, "ahead", 0, 2, c08Few)
			n := c.Choose("actions", 3)
			return func() gtab.Subtable {
				return &gtab.ChainedSeqContext3{Backtrack: mapSlice(back, c08Set), Input: mapSlice(in, c08Set), Lookahead: mapSlice(ahead, c08Set),
					Actions: c08Acts(5, n)}
			}
		})
	}

	add("gpos1", true, 1, 2, "all 256 sets of fields x 14 coverage tables (format 1), missing and zero records; all 256 x 6 sets of fields for two records (format 2)", func(c *explore.Ctx) func() gtab.Subtable {
		if c.Choose("format", 2) == 0 {
			cov := explore.Pick(c, "cov", c08Covs)
			f := c.Choose("fields", 257) - 1
			return func() gtab.Subtable { return &gtab.Gpos1_1{Cov: c08Cov(cov), Adjust: c08Rec(f, 1)} }
		}
		cov := explore.Pick(c, "cov", c08Covs)
		f1, f2 := 0, 0
		if len(cov) > 0 {
			f1 = c.Choose("fields", 257) - 1
		}
		if len(cov) > 1 {
			f2 = explore.Pick(c, "fields2", []int{0, 1, 0x86, 0xFF, 0x18, -1})
		}
		return func() gtab.Subtable {
			st := &gtab.Gpos1_2{Cov: c08Cov(cov)}
			for i := range cov {
				f := f1
				if i > 0 {
					f = f2
				}
				st.Adjust = append(st.Adjust, c08Rec(f, i*3))
			}
			return st
		}
	})
	add("gpos2-1", true, 2, 3, "14 sets of pairs x 257 sets of fields x 7 sets of fields for the second glyph x uniform or mixed records (2 patterns)", func(c *explore.Ctx) func() gtab.Subtable {
		pairs := explore.Pick(c, "pairs", [][][2]int{
			{}, {{0, 0}}, {{5, 7}}, {{0xFFFF, 0xFFFF}}, {{5, 7}, {5, 0x107}}, {{5, 7}, {6, 7}}, {{5, 0xFFFF}, {6, 0}, {6, 1}},
			{{1, 0x100}, {1, 1}, {2, 0x80}, {2, 0x7F}, {3, 9}}, {{0, 5}, {0xFFFF, 5}}, {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}},
			{{1, 3}, {3, 1}, {5, 2}, {7, 2}}, {{0x101, 1}, {0x102, 1}, {0x103, 1}, {0x104, 1}, {0x106, 1}}, {{0x7FFF, 0x8000}, {0x8000, 0x7FFF}},
			{{2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 0x1001}},
		})
		f1 := c.Choose("fields", 257) - 1
		f2 := explore.Pick(c, "fields2", []int{-1, 0, 1, 4, 0x86, 0xFF, 0x18})
		mixed := 0
		if len(pairs) > 1 {
			mixed = c.Choose("mixed", 3)
		}
		return func() gtab.Subtable {
			st := gtab.Gpos2_1{}
			for i, p := range pairs {
				g1, g2 := f1, f2
				if mixed == 2 && i%2 == 1 {
					g1, g2 = 0x23, -1
				}
				if mixed == 1 && i%2 == 1 {
					g1 = 4
					if f2 >= 0 {
						g2 = 0
					}
				}
				st[glyph.Pair{Left: glyph.ID(p[0]), Right: glyph.ID(p[1])}] = &gtab.PairAdjust{First: c08Rec(g1, i*5), Second: c08Rec(g2, i*5+2)}
			}
			return st
		}
	})
	add("gpos2-2", true, 2, 3, "0-3 x 1-3 classes x 10 sets of fields x 5 sets of fields x 9 x 9 class tables x 4 coverage tables", func(c *explore.Ctx) func() gtab.Subtable {
		n1 := c.Choose("classes1", 4)
		n2 := 0
		if n1 > 0 {
			n2 = 1 + c.Choose("classes2", 3)
		}
		f1 := explore.Pick(c, "fields", []int{4, -1, 0, 1, 2, 8, 0x10, 0x80, 0xFF, 0x5A})
		f2 := explore.Pick(c, "fields2", []int{-1, 0, 4, 0xFF, 0x21})
		cov := explore.Pick(c, "cov", c08Few)
		cd1 := explore.Pick(c, "class1", c08Classes)
		cd2 := explore.Pick(c, "class2", c08Classes)
		return func() gtab.Subtable {
			st := &gtab.Gpos2_2{Cov: c08Set(cov), Class1: cloneClass(cd1), Class2: cloneClass(cd2)}
			for i := 0; i < n1; i++ {
				var row []*gtab.PairAdjust
				for j := 0; j < n2; j++ {
					row = append(row, &gtab.PairAdjust{First: c08Rec(f1, i*3+j), Second: c08Rec(f2, i*3+j+20)})
				}
				st.Adjust = append(st.Adjust, row)
			}
			return st
		}
	})
	anchors := []anchor.Table{{}, anch(1, 2), anch(-1, 0), anch(0, 0x7FFF), anch(-32768, -32768)}
	add("gpos3", true, 3, 1, "0-3 glyphs x 5 entry and exit anchors", func(c *explore.Ctx) func() gtab.Subtable {
		cov := c08Glyphs(c.Choose("n", 4))[0]
		st := &gtab.Gpos3_1{Cov: c08Cov(cov)}
		for range cov {
			st.Records = append(st.Records, gtab.EntryExitRecord{Entry: explore.Pick(c, "entry", anchors), Exit: explore.Pick(c, "exit", anchors)})
		}
		return func() gtab.Subtable {
			return &gtab.Gpos3_1{Cov: c08Cov(cov), Records: append([]gtab.EntryExitRecord{}, st.Records...)}
		}
	})
	type markShape struct {
		marks, bases []int
		arr          []markarray.Record
		rows         [][]anchor.Table
	}
	marks := func(c *explore.Ctx) markShape {
		var m markShape
		m.marks = explore.Pick(c, "marks", [][]int{{}, {9}, {8, 9}, {0, 0xFFFF}, {8, 9, 10, 11}})
		nc := 1 + c.Choose("classes", 3)
		for i := range m.marks {
			k := i % nc
			if i == 0 {
				k = c.Choose("class", nc)
			}
			m.arr = append(m.arr, markarray.Record{Class: uint16(k), Table: anchors[(i+c.Choose("anchor", 2)*4)%5]})
		}
		m.bases = explore.Pick(c, "bases", [][]int{{}, {1}, {1, 2}, {0, 0xFFFF}})
		if len(m.bases) == 0 && nc > 1 {
			c.Skip() // the number of classes is determined by the base array
		}
		for range m.bases {
			var row []anchor.Table
			for j := 0; j < nc; j++ {
				if c.Bool("base") {
					row = append(row, anch(0x0102*(j+1), -0x0301))
				} else {
					row = append(row, anchor.Table{})
				}
			}
			m.rows = append(m.rows, row)
		}
		return m
	}
	add("gpos4", true, 4, 1, "0-4 marks x 1-3 classes x 0-2 bases x all patterns of missing anchors", func(c *explore.Ctx) func() gtab.Subtable {
		m := marks(c)
		return func() gtab.Subtable {
			return &gtab.Gpos4_1{MarkCov: c08Cov(m.marks), BaseCov: c08Cov(m.bases), MarkArray: m.arr, BaseArray: m.rows}
		}
	})
	add("gpos6", true, 6, 1, "0-4 marks x 1-3 classes x 0-2 bases x all patterns of missing anchors", func(c *explore.Ctx) func() gtab.Subtable {
		m := marks(c)
		return func() gtab.Subtable {
			return &gtab.Gpos6_1{Mark1Cov: c08Cov(m.marks), Mark2Cov: c08Cov(m.bases), Mark1Array: m.arr, Mark2Array: m.rows}
		}
	})
	add("gpos5", true, 5, 1, "0-2 marks x 1-2 classes x 0-2 ligatures of 0-2 components x all patterns of missing anchors", func(c *explore.Ctx) func() gtab.Subtable {
		mk := explore.Pick(c, "marks", [][]int{{}, {9}, {8, 9}})
		nc := 1 + c.Choose("classes", 2)
		st := &gtab.Gpos5_1{}
		for i := range mk {
			st.MarkArray = append(st.MarkArray, markarray.Record{Class: uint16(c.Choose("class", nc)), Table: anchors[i+1]})
		}
		ligs := explore.Pick(c, "ligs", [][]int{{}, {1}, {1, 2}, {0, 0xFFFF}})
		some := false
		for range ligs {
			var comps [][]anchor.Table
			for k := c.Choose("comps", 3); k > 0; k-- {
				some = true
				var row []anchor.Table
				for j := 0; j < nc; j++ {
					if c.Bool("anchor") {
						row = append(row, anch(0x0102*(j+1), -0x0301))
					} else {
						row = append(row, anchor.Table{})
					}
				}
				comps = append(comps, row)
			}
			st.LigArray = append(st.LigArray, comps)
		}
		if !some && nc > 1 {
			c.Skip()
		}
		return func() gtab.Subtable {
			return &gtab.Gpos5_1{MarkCov: c08Cov(mk), LigCov: c08Cov(ligs), MarkArray: st.MarkArray, LigArray: st.LigArray}
		}
	})
	return res
}

// c08Tiny is a menu of small lookups of all types.
func c08Tiny(gpos bool) []func() *gtab.LookupTable {
	ctx := []func(tp, chain int) *gtab.LookupTable{
		func(tp, chain int) *gtab.LookupTable {
			return lk(tp, 0, &gtab.SeqContext1{Cov: covOf(5), Rules: [][]*gtab.SeqRule{{{Input: c08List(1, 2), Actions: c08Acts(1, 2)}}}})
		},
		func(tp, chain int) *gtab.LookupTable {
			return lk(tp, 0, &gtab.SeqContext2{Cov: covOf(5), Input: classdef.Table{5: 1, 6: 1}, Rules: [][]*gtab.ClassSeqRule{nil, {{Input: c08U16(1, 2), Actions: c08Acts(1, 2)}}}})
		},
		func(tp, chain int) *gtab.LookupTable {
			return lk(tp, 0, &gtab.SeqContext3{Input: []coverage.Set{setOf(5), setOf(1, 2, 3, 4)}, Actions: c08Acts(1, 2)})
		},
		func(tp, chain int) *gtab.LookupTable {
			return lk(chain, 0, &gtab.ChainedSeqContext1{Cov: covOf(5), Rules: [][]*gtab.ChainedSeqRule{{{Backtrack: c08List(9, 1), Input: c08List(1, 2), Actions: c08Acts(1, 2)}}}})
		},
		func(tp, chain int) *gtab.LookupTable {
			return lk(chain, 0, &gtab.ChainedSeqContext2{Cov: covOf(5), Input: classdef.Table{5: 1, 6: 1}, Backtrack: classdef.Table{9: 3}, Lookahead: classdef.Table{},
				Rules: [][]*gtab.ChainedClassSeqRule{nil, {{Input: c08U16(1, 2), Lookahead: c08U16(7, 1), Actions: c08Acts(1, 2)}}}})
		},
		func(tp, chain int) *gtab.LookupTable {
			return lk(chain, 0, &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{setOf(6)}, Input: []coverage.Set{setOf(5), setOf(1, 2, 3, 4)}, Lookahead: []coverage.Set{setOf(7)}, Actions: c08Acts(1, 2)})
		},
	}
	var res []func() *gtab.LookupTable
	tp, chain := 5, 6
	if gpos {
		tp, chain = 7, 8
	}
	for _, f := range ctx {
		res = append(res, func() *gtab.LookupTable { return f(tp, chain) })
	}
	if !gpos {
		return append(res,
			func() *gtab.LookupTable { return lk(1, 0, &gtab.Gsub1_1{Cov: setOf(1, 2, 3, 4), Delta: 5}) },
			func() *gtab.LookupTable { return lk(1, 0, sub12(1, 9, 7, 8)) },
			func() *gtab.LookupTable { return lk(2, 0, sub2(multi{5: {1, 2, 3}})) },
			func() *gtab.LookupTable { return lk(3, 0, sub3(multi{5: {1, 2, 3}, 6: {}})) },
			func() *gtab.LookupTable { return lk(4, 0, sub4(lg(9, 1, 2, 3), lg(8, 1, 2))) },
			func() *gtab.LookupTable {
				return lk(8, 0, sub8([]glyph.ID{5, 6}, []glyph.ID{7, 8}, []coverage.Table{covOf(1)}, []coverage.Table{covOf(2, 3, 4, 5)}))
			},
			func() *gtab.LookupTable { return lk(1, 0) },
			func() *gtab.LookupTable {
				return lk(1, 0, &gtab.Gsub1_1{Cov: setOf(1), Delta: 5}, sub12(1, 9, 7, 8), &gtab.Gsub1_1{Cov: setOf(2, 4), Delta: 6})
			},
		)
	}
	return append(res,
		func() *gtab.LookupTable { return lk(1, 0, &gtab.Gpos1_1{Cov: covOf(1, 2), Adjust: vr(1, 2, 3)}) },
		func() *gtab.LookupTable {
			return lk(1, 0, &gtab.Gpos1_2{Cov: covOf(1, 2), Adjust: []*gtab.GposValueRecord{vr(1, 0, 3), vr(0, 2, 0)}})
		},
		func() *gtab.LookupTable {
			return lk(2, 0, gtab.Gpos2_1{{Left: 1, Right: 2}: {First: vr(0, 0, 3)}, {Left: 2, Right: 2}: {First: vr(0, 0, 4)}})
		},
		func() *gtab.LookupTable {
			return lk(2, 0, &gtab.Gpos2_2{Cov: setOf(1, 2), Class1: classdef.Table{1: 1}, Class2: classdef.Table{},
				Adjust: [][]*gtab.PairAdjust{{{First: vr(1, 0, 0)}}, {{First: vr(2, 0, 0)}}}})
		},
		func() *gtab.LookupTable {
			return lk(3, 0, &gtab.Gpos3_1{Cov: covOf(5), Records: []gtab.EntryExitRecord{{Entry: anch(1, 2)}}})
		},
		func() *gtab.LookupTable {
			return lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(5), BaseCov: covOf(1, 2), MarkArray: []markarray.Record{markRec(0, 1, 2)}, BaseArray: [][]anchor.Table{{anch(1, 2)}, {anch(3, 4)}}})
		},
		func() *gtab.LookupTable {
			return lk(5, 0, &gtab.Gpos5_1{MarkCov: covOf(5), LigCov: covOf(1), MarkArray: []markarray.Record{markRec(0, 1, 2)}, LigArray: [][][]anchor.Table{{{anch(1, 2)}, {anch(3, 4)}}}})
		},
		func() *gtab.LookupTable {
			return lk(6, 0, &gtab.Gpos6_1{Mark1Cov: covOf(5), Mark2Cov: covOf(1, 2), Mark1Array: []markarray.Record{markRec(0, 1, 2)}, Mark2Array: [][]anchor.Table{{anch(1, 2)}, {anch(3, 4)}}})
		},
		func() *gtab.LookupTable { return lk(2, 0) },
		func() *gtab.LookupTable {
			return lk(1, 0, &gtab.Gpos1_1{Cov: covOf(1), Adjust: vr(1, 2, 3)}, &gtab.Gpos1_1{Cov: covOf(2), Adjust: nil})
		},
	)
}

func init() {
	flagMenu := []struct{ flags, set int }{{0, 0}, {1, 0}, {8, 0}, {0x10, 0}, {0x10, 3}, {0xFF1F, 0xFFFF}, {0x0300, 0}}

	lists := func(c *explore.Ctx) {
		gpos := c.Bool("gpos")
		menu := c08Tiny(gpos)
		n := c.Choose("lookups", 4)
		if n == 3 && !c.Thorough {
			menu = menu[len(menu)/2-4:]
		}
		type choice struct{ k, f int }
		var ch []choice
		for i := 0; i < n; i++ {
			x := choice{k: c.Choose("lookup", len(menu))}
			if n < 3 {
				x.f = c.Choose("flags", len(flagMenu))
			} else {
				x.f = (x.k*3 + i) % len(flagMenu)
			}
			ch = append(ch, x)
		}
		ss := [][]c08Sys{c08Latn, nil, {{"DFLT", "", 0xFFFF, []int{0, 2, 1}}, {"cyrl", "", 1, []int{0xFFFE}}, {"latn", "", 0, []int{}}, {"latn", "ROM ", 0xFFFF, []int{}}}}[c.Choose("scripts", 3)]
		feats := c.Choose("features", 4)
		c.Exec()
		c08Check(c, "c08:lists", c08Case{gpos, func() *gtab.Info {
			info := &gtab.Info{ScriptList: c08Scripts(ss)}
			for i, x := range ch {
				l := menu[x.k]()
				l.Meta.LookupFlags = gtab.LookupFlags(flagMenu[x.f].flags)
				l.Meta.MarkFilteringSet = uint16(flagMenu[x.f].set)
				info.LookupList = append(info.LookupList, l)
				_ = i
			}
			for i := 0; i < feats; i++ {
				f := &gtab.Feature{Tag: []string{"kern", "ab  ", "\x00zzz"}[i]}
				for j := 0; j < (i*2)%5; j++ {
					f.Lookups = append(f.Lookups, gtab.LookupIndex(0x0102*j))
				}
				info.FeatureList = append(info.FeatureList, f)
			}
			return info
		}, ss})
	}

	// subtables of a given size (multiple of 2, at least 18)
	sized := func(kind, size int) (int, gtab.Subtable) {
		switch kind {
		case 0: // 16+2n
			return 3, sub3(multi{5: c08List(1, (size-16)/2)})
		case 1: // 6+2+2+2+4+6 = 22 + 2n
			return 5, &gtab.SeqContext1{Cov: covOf(5), Rules: [][]*gtab.SeqRule{{{Input: c08List(1, (size-20)/2)}}}}
		case 2: // 6+4+2+2+8+6
			return 6, &gtab.ChainedSeqContext1{Cov: covOf(5), Rules: [][]*gtab.ChainedSeqRule{{{Lookahead: c08List(1, (size-26)/2)}}}}
		case 3: // 16+2+4 + 4n
			st := gtab.Gpos2_1{}
			for i := 0; i < (size-20)/4; i++ {
				st[glyph.Pair{Left: 5, Right: glyph.ID(i)}] = &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(c08Val(i))}}
			}
			return 2, st
		case 4:
			_, st := func() (int, gtab.Subtable) {
				return 7, &gtab.SeqContext1{Cov: covOf(5), Rules: [][]*gtab.SeqRule{{{Input: c08List(1, (size-20)/2)}}}}
			}()
			return 7, st
		case 5:
			return 8, &gtab.ChainedSeqContext1{Cov: covOf(5), Rules: [][]*gtab.ChainedSeqRule{{{Lookahead: c08List(1, (size-26)/2)}}}}
		}
		panic("kind")
	}
	sizeMenu := [][]int{
		{30}, {}, {20000}, {60000}, {30000, 30000}, {30000, 30000, 30000}, {20000, 20000, 20000, 20000}, {40000, 40000, 40000},
		{65000, 64, 64}, {64, 64, 65500}, nil,
	}
	for i := 0; i < 40; i++ {
		sizeMenu[10] = append(sizeMenu[10], 64+2*i)
	}
	big := func(c *explore.Ctx) {
		gpos := c.Bool("gpos")
		kinds := []int{0, 1, 2}
		if gpos {
			kinds = []int{3, 4, 5}
		}
		k := c.Choose("kinds", 5) // 0-2: all lookups of the same kind, 3, 4: mixed
		n := 1 + c.Choose("lookups", 3)
		if c.Thorough && c.Bool("four") {
			n = 4
			if k != 3 {
				c.Skip()
			}
		}
		if n == 3 && k < 3 && !c.Thorough {
			c.Skip()
		}
		menu := sizeMenu
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, c.Choose("size", len(menu)))
		}
		if n == 3 && !c.Thorough && (k == 4 || ch[0] > 7) {
			c.Skip()
		}
		c.Exec()
		c08Check(c, "c08:big", c08Case{gpos, func() *gtab.Info {
			info := &gtab.Info{ScriptList: c08Scripts(c08Latn), FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{0}}}}
			for i, s := range ch {
				kind := k
				if k >= 3 {
					kind = (i + k - 3 + s) % 3
				}
				l := lk(kinds[kind]%3+1, 0)
				l.Meta.LookupType = []uint16{3, 5, 6, 2, 7, 8}[kinds[kind]]
				for _, size := range menu[s] {
					_, st := sized(kinds[kind], size)
					l.Subtables = append(l.Subtables, st)
				}
				if i%2 == 1 {
					l.Meta.LookupFlags = 0x10
					l.Meta.MarkFilteringSet = uint16(i)
				}
				info.LookupList = append(info.LookupList, l)
			}
			return info
		}, c08Latn})
	}

	// The offsets of lookups and subtables around the 16-bit limit.
	edges := func(c *explore.Ctx) {
		kind := c.Choose("kind", 6)
		shape := c.Choose("shape", 6)
		d := 2 * (c.Choose("excess", 24) - 12)
		flag := c.Bool("filter set")
		c.Exec()
		c08Check(c, "c08:edges", c08Case{kind >= 3, func() *gtab.Info {
			info := &gtab.Info{ScriptList: c08Scripts(c08Latn)}
			add := func(sizes ...int) {
				l := lk([]int{3, 5, 6, 2, 7, 8}[kind], 0)
				if flag {
					l.Meta.LookupFlags = 0x10
					l.Meta.MarkFilteringSet = 1
				}
				for _, s := range sizes {
					_, st := sized(kind, s)
					l.Subtables = append(l.Subtables, st)
				}
				info.LookupList = append(info.LookupList, l)
			}
			switch shape {
			case 0: // the second lookup is at the limit
				add(65536 - 20 + d)
				add(40)
			case 1: // two large lookups
				add(32768+d, 32768)
				add(65000, 40)
			case 2: // the second subtable is at the limit
				add(65536-10+d-30, 40, 60)
			case 3: // the third lookup is at the limit
				add(32768 + d)
				add(32768 - 40)
				add(32768 + 100)
			case 4: // the last subtable of the last lookup
				add(40)
				add(32768-10+d, 32768-40, 100, 60)
			case 5: // the largest lookup must be replaced
				add(40, 60)
				add(30000, 30000, 5536-40+d, 40)
				add(65000)
			}
			return info
		}, c08Latn})
	}

	many := func(c *explore.Ctx) {
		gpos := c.Bool("gpos")
		n := explore.Pick(c, "lookups", []int{300, 100, 299, 37})
		k := explore.Pick(c, "subtables", []int{1, 0, 2, 19})
		size := explore.Pick(c, "size", []int{26, 228, 700, 2000})
		shape := c.Choose("shape", 3)
		c.Exec()
		c08Check(c, "c08:many", c08Case{gpos, func() *gtab.Info {
			info := &gtab.Info{ScriptList: c08Scripts(c08Latn)}
			for i := 0; i < n; i++ {
				kind := i % 3
				if gpos {
					kind += 3
				}
				l := lk([]int{3, 5, 6, 2, 7, 8}[kind], i&0x1F)
				if i&0x10 != 0 {
					l.Meta.MarkFilteringSet = uint16(i)
				}
				m := k
				s := size
				switch shape {
				case 1: // one large lookup in the middle
					if i == n/2 {
						s = 60000
						m = 3
					}
				case 2: // different sizes
					s = 26 + (i*16)%size
				}
				for j := 0; j < m; j++ {
					_, st := sized(kind, s+4*(j%5))
					l.Subtables = append(l.Subtables, st)
				}
				info.LookupList = append(info.LookupList, l)
				info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: fmt.Sprintf("f%03d", i), Lookups: []gtab.LookupIndex{gtab.LookupIndex(i)}})
			}
			return info
		}, c08Latn})
	}

	// --- script and feature lists ---

	optMenu := [][]int{{}, {0}, {2, 1}, {0xFFFE, 0, 0x0102}}
	scripts := func(c *explore.Ctx) {
		s := c.Choose("script", len(refOtScripts))
		langs := c.Choose("langs", 5)
		req := explore.Pick(c, "required", []int{0xFFFF, 0, 0x0102})
		opt := explore.Pick(c, "optional", optMenu)
		c.Exec()
		script := refOtScripts[s][0]
		var ss []c08Sys
		add := func(script, lang string) { ss = append(ss, c08Sys{script, lang, req, opt}) }
		switch langs {
		case 0:
			add(script, "")
		case 1:
			add(script, "DEU ")
		case 2:
			add(script, "")
			add(script, "ROM ")
			add(script, "MOL ")
		case 3: // all languages
			add(script, "")
			for i, l := range refOtLangs {
				ss = append(ss, c08Sys{script, l[0], (req + i) % 0xFFFF, optMenu[i%4]})
			}
		case 4: // together with all other scripts
			for i, x := range refOtScripts {
				if i != s {
					ss = append(ss, c08Sys{x[0], "", i, optMenu[i%4]})
				}
				if i%3 == 1 {
					add(x[0], "TRK ")
				}
			}
		}
		c08Check(c, "c08:scripts", c08Case{false, func() *gtab.Info {
			return &gtab.Info{ScriptList: c08Scripts(ss), FeatureList: gtab.FeatureListInfo{{Tag: "test"}}, LookupList: gtab.LookupList{c08Marker(false)}}
		}, ss})
	}
	langs := func(c *explore.Ctx) {
		l := c.Choose("lang", len(refOtLangs))
		req := explore.Pick(c, "required", []int{0xFFFF, 0, 0x0102})
		opt := explore.Pick(c, "optional", optMenu)
		c.Exec()
		var ss []c08Sys
		for i, x := range refOtScripts {
			if i%7 == l%7 {
				ss = append(ss, c08Sys{x[0], refOtLangs[l][0], req, opt})
			}
			if i%5 == 2 {
				ss = append(ss, c08Sys{x[0], "", 3, []int{i}})
			}
		}
		c08Check(c, "c08:scripts", c08Case{false, func() *gtab.Info {
			return &gtab.Info{ScriptList: c08Scripts(ss), FeatureList: gtab.FeatureListInfo{{Tag: "test"}}, LookupList: gtab.LookupList{c08Marker(false)}}
		}, ss})
	}

	seqInts := func(n int) []int {
		res := make([]int, n)
		for i := range res {
			res[i] = i % 0xFFFF
		}
		return res
	}
	// sizes of the three lists around the limits
	headers := func(c *explore.Ctx) {
		type dim struct{ sc, fe, lo int }
		sc := explore.Pick(c, "script list", []int{0, 1, 2, 3, 4, 5, 6})
		fe := c.Choose("feature list", 9)
		lo := c.Choose("lookup list", 5)
		d := 2 * (c.Choose("excess", 9) - 4)
		usesD := sc == 3 || sc == 4 || fe == 3 || fe == 4 || fe == 7 || lo == 3
		if !usesD && d != -8 {
			c.Skip()
		}
		c.Exec()
		var ss []c08Sys
		switch sc {
		case 0:
		case 1:
			ss = c08Latn
		case 2: // 30000 bytes
			ss = []c08Sys{{"latn", "", 0, seqInts(10000)}, {"latn", "DEU ", 0xFFFF, seqInts(5000)}}
		case 3: // the second script is at the limit
			ss = []c08Sys{{"cyrl", "", 0, seqInts((65536 - 2 - 12 - 4 - 6 + d) / 2)}, {"latn", "", 1, []int{7}}}
		case 4: // the second language is at the limit
			ss = []c08Sys{{"latn", "", 0, seqInts((65536 - 4 - 6 - 6 + d) / 2)}, {"latn", "DEU ", 1, []int{7}}}
		case 5: // many features in the last list
			ss = []c08Sys{{"latn", "", 0, seqInts(0xFFFF)}}
		case 6: // more features than can be counted
			ss = []c08Sys{{"latn", "", 0, seqInts(0x10001)}}
		}
		c08Check(c, "c08:headers", c08Case{false, func() *gtab.Info {
			info := &gtab.Info{ScriptList: c08Scripts(ss)}
			feat := func(tag string, n int) {
				f := &gtab.Feature{Tag: tag}
				for _, i := range seqInts(n) {
					f.Lookups = append(f.Lookups, gtab.LookupIndex(i))
				}
				info.FeatureList = append(info.FeatureList, f)
			}
			switch fe {
			case 0:
			case 1:
				info.FeatureList = gtab.FeatureListInfo{}
			case 2:
				feat("test", 2)
			case 3: // the last offset is at the limit
				feat("aaaa", (65536-2-12-4+d)/2)
				feat("bbbb", 1)
			case 4: // many features
				for i := 0; i < 6553+d/2; i++ {
					feat(fmt.Sprintf("%04x", i), i&1)
				}
			case 5: // many lookups in the last feature
				feat("aaaa", 3)
				feat("bbbb", 0xFFFF)
			case 6: // more lookups than can be counted
				feat("aaaa", 3)
				feat("bbbb", 0x10001)
			case 7: // the lookup list is at the limit
				feat("aaaa", (65536-10-38-8-4+d)/2)
			case 8: // 10000 bytes
				feat("aaaa", 5000)
			}
			switch lo {
			case 0:
			case 1:
				info.LookupList = gtab.LookupList{}
			case 2:
				info.LookupList = gtab.LookupList{c08Marker(false)}
			case 3: // 65 KB
				_, st := sized(0, 65536-20+d)
				info.LookupList = gtab.LookupList{lk(3, 0, st), c08Marker(false)}
			case 4: // 200 KB
				for i := 0; i < 4; i++ {
					_, st := sized(0, 50000)
					info.LookupList = append(info.LookupList, lk(3, 0, st))
				}
			}
			return info
		}, ss})
	}

	// --- coverage tables, class definitions, GDEF ---

	covCheck := func(c *explore.Ctx, mk func() coverage.Table, valid bool) {
		t := mk()
		var b []byte
		var n int
		why, bad := refused(func() { n = t.EncodeLen(); b = t.Encode() })
		if !valid {
			if !bad {
				c.Fail("c08:cov-invalid", "invalid coverage table %v is encoded as %s", t, hexDump(b))
			}
			return
		}
		if bad {
			c.Fail("c08:cov-refused", "coverage table with %d glyphs %s: %s", len(t), clip(fmt.Sprint(t.Glyphs()), 200), why)
		}
		c.Obs(b)
		d := func() string {
			return fmt.Sprintf("%d glyphs %s, encoded as %s", len(t), clip(fmt.Sprint(mk().Glyphs()), 200), clip(hexDump(b), 200))
		}
		if n != len(b) {
			c.Fail("c08:cov-size", "%s: EncodeLen is %d, %d bytes written", d(), n, len(b))
		}
		pad := []byte{9, 9, 9}
		r := &gtRd{b: cat(pad, b, pad)}
		var got coverage.Table
		if why, bad := refused(func() { got = r.covTable(3, -1) }); bad {
			c.Fail("c08:cov-malformed", "%s: %s", d(), why)
		}
		if x := deepDiff(mk(), got); x != "" || deepDiff(mk(), t) != "" {
			c.Fail("c08:cov-written", "%s: %s", d(), x)
		}
		if r.end != 3+len(b) && len(t) > 0 {
			c.Fail("c08:cov-size", "%s: %d bytes used", d(), r.end-3)
		}
		lib, err := coverage.Read(parser.New(bytes.NewReader(cat(pad, b, pad))), 3)
		if err != nil {
			c.Fail("c08:cov-unreadable", "%s: %v", d(), err)
		}
		if x := deepDiff(mk(), lib); x != "" {
			c.Fail("c08:cov-roundtrip", "%s: %s", d(), x)
		}
		set := mk().ToSet()
		lib2, err := coverage.ReadSet(parser.New(bytes.NewReader(cat(pad, b, pad))), 3)
		if err != nil {
			c.Fail("c08:cov-unreadable", "%s: ReadSet: %v", d(), err)
		}
		if x := deepDiff(set, lib2); x != "" {
			c.Fail("c08:cov-roundtrip", "%s: ReadSet: %s", d(), x)
		}
		if x := deepDiff(mk(), set.ToTable()); x != "" {
			c.Fail("c08:cov-roundtrip", "%s: ToTable: %s", d(), x)
		}
		if x := deepDiff(mk().Glyphs(), set.Glyphs()); x != "" {
			c.Fail("c08:cov-roundtrip", "%s: Glyphs: %s", d(), x)
		}
		idx := mk()
		for i, g := range set.Glyphs() {
			if idx[g] != i {
				c.Fail("c08:cov-roundtrip", "%s: Glyphs", d())
			}
		}
	}
	covSmall := func(c *explore.Ctx) {
		bits := 10
		if c.Thorough {
			bits = 15
		}
		base := explore.Pick(c, "base", []int{0, 0x10000 - bits, 0xF8, 0x7FFA})
		mask := c.Choose("glyphs", 1<<bits)
		c.Exec()
		covCheck(c, func() coverage.Table {
			t := coverage.Table{}
			for i := 0; i < bits; i++ {
				if mask>>i&1 != 0 {
					t[glyph.ID(base+i)] = len(t)
				}
			}
			return t
		}, true)
	}
	covInvalid := func(c *explore.Ctx) {
		gg := explore.Pick(c, "glyphs", [][]int{{0}, {5}, {0, 1}, {3, 0xFFFF}, {1, 2, 3}, {0, 7, 9}, {1, 2, 3, 4}})
		t := coverage.Table{}
		valid := true
		for i, g := range gg {
			k := c.Choose("index", len(gg)+3) - 1
			t[glyph.ID(g)] = k
			valid = valid && k == i
		}
		c.Exec()
		covCheck(c, func() coverage.Table {
			s := coverage.Table{}
			for g, k := range t {
				s[g] = k
			}
			return s
		}, valid)
	}
	covBig := func(c *explore.Ctx) {
		n := explore.Pick(c, "count", []int{65536, 65535, 32768, 32767, 21846, 1000, 255, 256, 257})
		pat := c.Choose("pattern", 6)
		base := c.Choose("base", 3)
		c.Exec()
		gg := map[int]bool{}
		for i := 0; i < n; i++ {
			g := 0
			switch pat {
			case 0:
				g = i
			case 1:
				g = 2 * i
			case 2:
				g = i + i/3 // runs of 3
			case 3:
				g = i + i/4
			case 4:
				g = i + i/2
			case 5:
				g = i + i/100
			}
			switch base {
			case 1:
				g = 65535 - g
			case 2:
				g += 77
			}
			if g >= 0 && g < 65536 {
				gg[g] = true
			}
		}
		covCheck(c, func() coverage.Table {
			t := coverage.Table{}
			for g := 0; g < 65536; g++ {
				if gg[g] {
					t[glyph.ID(g)] = len(t)
				}
			}
			return t
		}, true)
	}

	clsCheck := func(c *explore.Ctx, mk func() classdef.Table, mayRefuse bool) {
		t := mk()
		var b []byte
		var n int
		pad := []byte{9, 9, 9}
		why, bad := refused(func() { n = t.AppendLen(); b = t.Append(pad) })
		d := func() string {
			return fmt.Sprintf("%d glyphs %s, encoded as %s", len(t), clip(fmt.Sprint(mk()), 200), clip(hexDump(b), 200))
		}
		if bad {
			if !mayRefuse {
				c.Fail("c08:class-refused", "%s: %s", d(), why)
			}
			return
		}
		c.Obs(b)
		if deepDiff(mk(), t) != "" {
			c.Fail("c08:class-modified", "%s", d())
		}
		if !bytes.HasPrefix(b, pad) || n != len(b)-3 {
			c.Fail("c08:class-size", "%s: AppendLen is %d, %d bytes written", d(), n, len(b)-3)
		}
		want := mk()
		c08NormClass(want)
		r := &gtRd{b: cat(b, pad)}
		var got classdef.Table
		if why, bad := refused(func() { got = r.classes(3) }); bad {
			c.Fail("c08:class-malformed", "%s: %s", d(), why)
		}
		if x := deepDiff(want, got); x != "" {
			c.Fail("c08:class-written", "%s: %s", d(), x)
		}
		lib, err := classdef.Read(parser.New(bytes.NewReader(cat(b, pad))), 3)
		if err != nil {
			c.Fail("c08:class-unreadable", "%s: %v", d(), err)
		}
		if x := deepDiff(want, lib); x != "" {
			c.Fail("c08:class-roundtrip", "%s: %s", d(), x)
		}
	}
	clsSmall := func(c *explore.Ctx) {
		n := 5
		if c.Thorough {
			n = 8
		}
		base := explore.Pick(c, "base", []int{0, 0x10000 - n, 0xFC})
		var cls []int
		for i := 0; i < n; i++ {
			cls = append(cls, explore.Pick(c, "class", []int{-1, 1, 2, 0, 0x0102}[:4+boolInt(!c.Thorough)]))
		}
		far := explore.Pick(c, "far", []int{-1, 20, 0x8000})
		if far == 0x8000 { // these are slow
			for _, k := range cls[4:] {
				if k >= 0 {
					c.Skip()
				}
			}
		}
		c.Exec()
		clsCheck(c, func() classdef.Table {
			t := classdef.Table{}
			for i, k := range cls {
				if k >= 0 {
					t[glyph.ID(base+i)] = uint16(k)
				}
			}
			if far >= 0 {
				t[glyph.ID(base+far)] = 1
			}
			return t
		}, false)
	}
	clsBig := func(c *explore.Ctx) {
		n := explore.Pick(c, "count", []int{65536, 65535, 65534, 43690, 21845, 256, 255})
		pat := c.Choose("pattern", 7)
		base := c.Choose("base", 3)
		c.Exec()
		clsCheck(c, func() classdef.Table {
			t := classdef.Table{}
			for i := 0; i < n; i++ {
				k := 1
				switch pat {
				case 1:
					k = i & 1
				case 2:
					k = 1 + i&1
				case 3:
					k = 1 + i/3&1
				case 4:
					k = i & 0xFFFF
				case 5:
					k = boolInt(i == 0 || i == n-1)
				case 6:
					k = 1 + i/4&1
					if i == 5000 {
						k = 0
					}
				}
				g := i
				switch base {
				case 1:
					g = 65536 - n + i
				case 2:
					g = min(i+1, 65535)
				}
				t[glyph.ID(g)] = uint16(k)
			}
			return t
		}, n == 65536 && base != 2 && (pat == 2 || pat == 4))
	}

	gdefs := func(c *explore.Ctx) {
		cls := func(label string) func() classdef.Table {
			k := c.Choose(label, 9)
			return func() classdef.Table {
				switch k {
				case 0:
					return nil
				case 1:
					return classdef.Table{}
				case 2:
					return classdef.Table{1: 1, 2: 2, 3: 3, 4: 3}
				case 3:
					return classdef.Table{0: 3, 0xFFFF: 3}
				case 4, 5, 6, 7, 8:
					// classes with exactly 6+2n bytes
					n := []int{30000, 32752, 32753, 32758, 65535}[k-4]
					t := classdef.Table{}
					for i := 0; i < n; i++ {
						t[glyph.ID(i)] = uint16(1 + i&1)
					}
					return t
				}
				panic("classes")
			}
		}
		gc := cls("glyph classes")
		mc := cls("mark classes")
		sets := c.Choose("sets", 9)
		c.Exec()
		mk := func() *gdef.Table {
			t := &gdef.Table{GlyphClass: gc(), MarkAttachClass: mc()}
			switch sets {
			case 0:
			case 1:
				t.MarkGlyphSets = []coverage.Set{}
			case 2:
				t.MarkGlyphSets = []coverage.Set{{}}
			case 3:
				t.MarkGlyphSets = []coverage.Set{setOf(1, 2), setOf(5), setOf(1, 2, 3, 4)}
			case 4:
				t.MarkGlyphSets = []coverage.Set{setOf(0, 0xFFFF), {}}
			case 5: // more than 64 KiB
				for i := 0; i < 3; i++ {
					s := coverage.Set{}
					for j := i; j < 60000; j += 2 {
						s[glyph.ID(j)] = true
					}
					t.MarkGlyphSets = append(t.MarkGlyphSets, s)
				}
				t.MarkGlyphSets = append(t.MarkGlyphSets, setOf(9))
			case 6:
				for i := 0; i < 300; i++ {
					t.MarkGlyphSets = append(t.MarkGlyphSets, setOf(glyph.ID(i), glyph.ID(i+3)))
				}
			case 7:
				for i := 0; i < 65535; i++ {
					t.MarkGlyphSets = append(t.MarkGlyphSets, setOf(glyph.ID(i)))
				}
			case 8:
				for i := 0; i < 65537; i++ {
					t.MarkGlyphSets = append(t.MarkGlyphSets, nil)
				}
			}
			return t
		}
		want, t := mk(), mk()
		var b []byte
		d := func() string {
			return fmt.Sprintf("GDEF with %d/%d glyphs with classes, %d mark glyph sets, encoded as %s", len(want.GlyphClass), len(want.MarkAttachClass), len(want.MarkGlyphSets), clip(hexDump(b), 100))
		}
		why, bad := refused(func() { b = t.Encode() })
		if bad {
			size := 14
			if want.MarkAttachClass != nil || want.MarkGlyphSets != nil {
				size += refClassSizes(want.GlyphClass)
			}
			if want.MarkGlyphSets != nil {
				size += refClassSizes(want.MarkAttachClass)
			}
			if size <= 0xFFFF && sets != 8 {
				c.Fail("c08:gdef-refused", "%s: %s", d(), why)
			}
			return
		}
		c.Obs(b)
		if x := deepDiff(want, t); x != "" {
			c.Fail("c08:gdef-modified", "%s: %s", d(), x)
		}
		ref, err := refGdef(b)
		if err != nil {
			c.Fail("c08:gdef-malformed", "%s: %v", d(), err)
		}
		lib, err := gdef.Read(bytes.NewReader(b))
		if err != nil {
			c.Fail("c08:gdef-unreadable", "%s: %v", d(), err)
		}
		for i, got := range []*gdef.Table{ref, lib} {
			key := []string{"c08:gdef-written", "c08:gdef-roundtrip"}[i]
			if x := deepDiff(want, got); x != "" {
				c.Fail(key, "%s: %s", d(), x)
			}
			// Missing and empty class tables mean different things to the shaper.
			if (want.GlyphClass == nil) != (got.GlyphClass == nil) || (want.MarkAttachClass == nil) != (got.MarkAttachClass == nil) {
				c.Fail(key, "%s: missing class table", d())
			}
		}
	}

	drivers := c08SubDrivers()
	drivers = append(drivers,
		run.Driver{Name: "limits", Run: c08Limits, Weight: 6, Bounds: "36 ways to make a subtable large x all sizes within 8 elements of the 64 KiB limit and twice the limit"},
		run.Driver{Name: "lists", Run: lists, Weight: 4, Bounds: "all sequences of 0-2 (and some/thorough: all of 3) lookups of 14/16 kinds x 7 flags x 3 script lists x 4 feature lists"},
		run.Driver{Name: "big", Run: big, Weight: 12, Bounds: "GSUB/GPOS lists of 1-3 (thorough 4) lookups x 11 sets of subtable sizes (0-120 KB) x 5 combinations of subtable types"},
		run.Driver{Name: "edges", Run: edges, Weight: 3, Bounds: "6 subtable types x 6 arrangements x all even sizes within 24 bytes of the 64 KiB limit"},
		run.Driver{Name: "many", Run: many, Weight: 4, Bounds: "37-300 lookups x 0-19 subtables x 4 sizes x 3 arrangements"},
		run.Driver{Name: "scripts", Run: scripts, Weight: 3, Bounds: "all scripts x 5 sets of languages (one of them: all languages) x 3 required x 4 optional features"},
		run.Driver{Name: "langs", Run: langs, Weight: 2, Bounds: "all languages x 1/7 of all scripts x 3 required x 4 optional features"},
		run.Driver{Name: "headers", Run: headers, Weight: 4, Bounds: "7 script lists x 9 feature lists x 5 lookup lists x sizes around the 16-bit limits"},
		run.Driver{Name: "coverage", Run: covSmall, Weight: 1, Bounds: "all subsets of 10 (thorough 15) consecutive glyphs at 4 places"},
		run.Driver{Name: "coverage-invalid", Run: covInvalid, Weight: 1, Bounds: "all index assignments for 7 sets of up to 4 glyphs"},
		run.Driver{Name: "coverage-big", Run: covBig, Weight: 1, Bounds: "9 sizes up to 65536 glyphs x 6 patterns x 3 positions"},
		run.Driver{Name: "classdef", Run: clsSmall, Weight: 2, Bounds: "all class assignments (missing, 0, 1, 2, 0x0102) to 5 glyphs (thorough: without 0x0102, 8 glyphs) at 3 places x 3 distant glyphs"},
		run.Driver{Name: "classdef-big", Run: clsBig, Weight: 1, Bounds: "7 sizes up to 65536 glyphs x 7 patterns x 3 positions"},
		run.Driver{Name: "gdef", Run: gdefs, Weight: 3, Bounds: "9 x 9 class tables x 9 lists of mark glyph sets, up to more than 64 KiB"},
	)
	run.Register(&run.Property{
		ID:    "C08",
		Level: "model_checking",
		Rule:  "an encoded table, read with an independent strict decoder (bounds and overlap with headers, array sizes against coverage tables, sorting, smallest format) and with the library's reader, equals the original; a panic of the encoder is accepted only if a part which must be within 64 KiB is larger than that",
		Assumptions: []string{
			"well-formed content: arrays match their coverage tables, one language tag per script and language, no more class rule sets than classes, a missing record for the second glyph of a pair equals an all-zero record if other pairs of the subtable have one (the format cannot express the difference), base anchors at (0,0) mean \"no anchor\", a mark filtering set only together with its flag",
			"device table offsets in value records are opaque numbers (device tables are not supported by the library)",
		},
		Drivers: drivers,
	})
}

// c08Limits checks subtables around the 64 KiB limit.
func c08Limits(c *explore.Ctx) {
	type maker struct {
		name string
		gpos bool
		tp   int
		mk   func(n int) gtab.Subtable
	}
	covN := func(n int) coverage.Table { // alternating glyphs
		t := coverage.Table{}
		for i := 0; i < n && 2*i < 65536; i++ {
			t[glyph.ID(2*i)] = i
		}
		return t
	}
	covR := func(n int) coverage.Table { // a range
		t := coverage.Table{}
		for i := 0; i < n; i++ {
			t[glyph.ID(i)] = i
		}
		return t
	}
	alt := func(n int) classdef.Table {
		t := classdef.Table{}
		for i := 0; i < n; i++ {
			t[glyph.ID(i)] = uint16(1 + i&1)
		}
		return t
	}
	one := covOf
	var mm []maker
	add := func(gpos bool, tp int, name string, mk func(n int) gtab.Subtable) {
		mm = append(mm, maker{name, gpos, tp, mk})
	}
	add(false, 1, "1.1 coverage", func(n int) gtab.Subtable { return &gtab.Gsub1_1{Cov: covN(min(n, 32768)).ToSet(), Delta: 1} })
	add(false, 1, "1.2 range", func(n int) gtab.Subtable { return &gtab.Gsub1_2{Cov: covR(n), SubstituteGlyphIDs: c08List(0, n)} })
	add(false, 2, "2.1 one sequence", func(n int) gtab.Subtable { return sub2(multi{5: c08List(1, n)}) })
	add(false, 2, "2.1 many sequences", func(n int) gtab.Subtable {
		st := &gtab.Gsub2_1{Cov: covR(n)}
		for i := 0; i < n; i++ {
			st.Repl = append(st.Repl, c08List(i, 1))
		}
		return st
	})
	add(false, 3, "3.1 one set", func(n int) gtab.Subtable { return sub3(multi{5: c08List(1, n)}) })
	add(false, 3, "3.1 many sets", func(n int) gtab.Subtable {
		st := &gtab.Gsub3_1{Cov: covN(n)}
		for i := range st.Cov {
			_ = i
			st.Alternates = append(st.Alternates, c08List(len(st.Alternates), 1))
		}
		return st
	})
	add(false, 4, "4.1 one ligature", func(n int) gtab.Subtable {
		return &gtab.Gsub4_1{Cov: one(5), Repl: [][]gtab.Ligature{{{In: c08List(1, n), Out: 3}}}}
	})
	add(false, 4, "4.1 one set", func(n int) gtab.Subtable {
		st := &gtab.Gsub4_1{Cov: one(5), Repl: [][]gtab.Ligature{{}}}
		for i := 0; i < n; i++ {
			st.Repl[0] = append(st.Repl[0], gtab.Ligature{In: c08List(i, 1), Out: glyph.ID(i)})
		}
		return st
	})
	add(false, 4, "4.1 many sets", func(n int) gtab.Subtable {
		st := &gtab.Gsub4_1{Cov: covR(n)}
		for i := 0; i < n; i++ {
			st.Repl = append(st.Repl, []gtab.Ligature{{In: c08List(i, 1), Out: glyph.ID(i)}})
		}
		return st
	})
	add(false, 8, "8.1 range", func(n int) gtab.Subtable { return &gtab.Gsub8_1{Input: covR(n), SubstituteGlyphIDs: c08List(0, n)} })
	add(false, 8, "8.1 contexts", func(n int) gtab.Subtable {
		st := &gtab.Gsub8_1{Input: one(5), SubstituteGlyphIDs: c08List(0, 1)}
		for i := 0; i < n; i++ {
			st.Backtrack = append(st.Backtrack, one(glyph.ID(i)))
		}
		return st
	})
	add(false, 8, "8.1 coverage", func(n int) gtab.Subtable {
		return &gtab.Gsub8_1{Input: one(5), SubstituteGlyphIDs: c08List(0, 1), Backtrack: []coverage.Table{covN(n / 3), covN(n / 3)}, Lookahead: []coverage.Table{covN(n - 2*(n/3)), one(9)}}
	})
	for _, gpos := range []bool{false, true} {
		tp, ch := 5, 6
		if gpos {
			tp, ch = 7, 8
		}
		add(gpos, tp, "context 1 input", func(n int) gtab.Subtable {
			return &gtab.SeqContext1{Cov: one(5), Rules: [][]*gtab.SeqRule{{{Input: c08List(1, n)}}}}
		})
		add(gpos, tp, "context 1 actions", func(n int) gtab.Subtable {
			return &gtab.SeqContext1{Cov: one(5), Rules: [][]*gtab.SeqRule{{{Actions: c08Acts(1, n)}}}}
		})
		add(gpos, tp, "context 1 rules", func(n int) gtab.Subtable {
			st := &gtab.SeqContext1{Cov: one(5), Rules: [][]*gtab.SeqRule{{}}}
			for i := 0; i < n; i++ {
				st.Rules[0] = append(st.Rules[0], &gtab.SeqRule{Input: c08List(i, 1)})
			}
			return st
		})
		add(gpos, tp, "context 1 rule sets", func(n int) gtab.Subtable {
			st := &gtab.SeqContext1{Cov: covR(n)}
			for i := 0; i < n; i++ {
				st.Rules = append(st.Rules, []*gtab.SeqRule{{Input: c08List(i, 1)}})
			}
			return st
		})
		add(gpos, tp, "context 2 classes", func(n int) gtab.Subtable {
			return &gtab.SeqContext2{Cov: one(5), Input: alt(n), Rules: [][]*gtab.ClassSeqRule{nil, {{Input: c08U16(1, 1)}}}}
		})
		add(gpos, tp, "context 2 coverage", func(n int) gtab.Subtable {
			return &gtab.SeqContext2{Cov: covN(n), Input: alt(3), Rules: [][]*gtab.ClassSeqRule{nil, {{Input: c08U16(1, 1)}}}}
		})
		add(gpos, tp, "context 2 input", func(n int) gtab.Subtable {
			return &gtab.SeqContext2{Cov: one(5), Input: alt(3), Rules: [][]*gtab.ClassSeqRule{nil, {{Input: c08U16(1, n)}}}}
		})
		add(gpos, tp, "context 2 rules", func(n int) gtab.Subtable {
			st := &gtab.SeqContext2{Cov: one(5), Input: alt(3), Rules: [][]*gtab.ClassSeqRule{nil, {}}}
			for i := 0; i < n; i++ {
				st.Rules[1] = append(st.Rules[1], &gtab.ClassSeqRule{Actions: c08Acts(i, 1)})
			}
			return st
		})
		add(gpos, tp, "context 3 actions", func(n int) gtab.Subtable {
			return &gtab.SeqContext3{Input: []coverage.Set{setOf(5)}, Actions: c08Acts(1, n)}
		})
		add(gpos, tp, "context 3 input", func(n int) gtab.Subtable {
			st := &gtab.SeqContext3{}
			for i := 0; i < n; i++ {
				st.Input = append(st.Input, setOf(glyph.ID(i)))
			}
			return st
		})
		add(gpos, tp, "context 3 coverage", func(n int) gtab.Subtable {
			return &gtab.SeqContext3{Input: []coverage.Set{covN(n - n/2).ToSet(), covN(n / 2).ToSet(), setOf(5)}}
		})
		for k, name := range []string{"backtrack", "input", "lookahead", "actions", "rules", "rule sets"} {
			add(gpos, ch, "chained 1 "+name, func(n int) gtab.Subtable {
				r := &gtab.ChainedSeqRule{Actions: c08Acts(1, 1)}
				st := &gtab.ChainedSeqContext1{Cov: one(5), Rules: [][]*gtab.ChainedSeqRule{{r}}}
				switch k {
				case 0:
					r.Backtrack = c08List(1, n)
				case 1:
					r.Input = c08List(1, n)
				case 2:
					r.Lookahead = c08List(1, n)
				case 3:
					r.Actions = c08Acts(1, n)
				case 4:
					for i := 1; i < n; i++ {
						st.Rules[0] = append(st.Rules[0], &gtab.ChainedSeqRule{Actions: c08Acts(i, 1)})
					}
				case 5:
					st.Cov = covR(n)
					for i := 1; i < n; i++ {
						st.Rules = append(st.Rules, []*gtab.ChainedSeqRule{{Actions: c08Acts(i, 1)}})
					}
				}
				return st
			})
		}
		for k, name := range []string{"backtrack", "input", "lookahead", "actions", "rules", "coverage", "backtrack classes", "input classes", "lookahead classes"} {
			add(gpos, ch, "chained 2 "+name, func(n int) gtab.Subtable {
				r := &gtab.ChainedClassSeqRule{Actions: c08Acts(1, 1)}
				st := &gtab.ChainedSeqContext2{Cov: one(5), Backtrack: alt(2), Input: alt(3), Lookahead: alt(4), Rules: [][]*gtab.ChainedClassSeqRule{nil, {r}}}
				switch k {
				case 0:
					r.Backtrack = c08U16(1, n)
				case 1:
					r.Input = c08U16(1, n)
				case 2:
					r.Lookahead = c08U16(1, n)
				case 3:
					r.Actions = c08Acts(1, n)
				case 4:
					for i := 1; i < n; i++ {
						st.Rules[1] = append(st.Rules[1], &gtab.ChainedClassSeqRule{Actions: c08Acts(i, 1)})
					}
				case 5:
					st.Cov = covN(n)
				case 6:
					st.Backtrack = alt(n)
				case 7:
					st.Input = alt(n)
				case 8:
					st.Lookahead = alt(n)
				}
				return st
			})
		}
		for k, name := range []string{"backtrack", "input", "lookahead", "actions", "coverage"} {
			add(gpos, ch, "chained 3 "+name, func(n int) gtab.Subtable {
				st := &gtab.ChainedSeqContext3{Backtrack: []coverage.Set{setOf(5)}, Input: []coverage.Set{setOf(6)}, Lookahead: []coverage.Set{setOf(7)}, Actions: c08Acts(1, 1)}
				var many []coverage.Set
				if k < 3 {
					for i := 0; i < n; i++ {
						many = append(many, setOf(glyph.ID(i)))
					}
				}
				switch k {
				case 0:
					st.Backtrack = many
				case 1:
					st.Input = many
				case 2:
					st.Lookahead = many
				case 3:
					st.Actions = c08Acts(1, n)
				case 4:
					st.Backtrack = append(st.Backtrack, covN(n/3).ToSet(), setOf(1, 3))
					st.Input = append(st.Input, covN(n/3).ToSet(), setOf(1, 4))
					st.Lookahead = append(st.Lookahead, covN(n-2*(n/3)).ToSet(), setOf(1, 5))
				}
				return st
			})
		}
	}
	rec := func(i int) *gtab.GposValueRecord {
		return &gtab.GposValueRecord{XAdvance: funit.Int16(c08Val(i))}
	}
	add(true, 1, "1.1 coverage", func(n int) gtab.Subtable { return &gtab.Gpos1_1{Cov: covN(min(n, 32768)), Adjust: rec(1)} })
	add(true, 1, "1.2", func(n int) gtab.Subtable {
		st := &gtab.Gpos1_2{Cov: covR(n)}
		for i := 0; i < n; i++ {
			st.Adjust = append(st.Adjust, rec(i))
		}
		return st
	})
	add(true, 1, "1.2 empty records", func(n int) gtab.Subtable {
		return &gtab.Gpos1_2{Cov: covN(min(n, 32768)), Adjust: make([]*gtab.GposValueRecord, min(n, 32768))}
	})
	add(true, 2, "2.1 right", func(n int) gtab.Subtable {
		st := gtab.Gpos2_1{}
		for i := 0; i < n; i++ {
			st[glyph.Pair{Left: 5, Right: glyph.ID(i)}] = &gtab.PairAdjust{First: rec(i)}
		}
		return st
	})
	add(true, 2, "2.1 left", func(n int) gtab.Subtable {
		st := gtab.Gpos2_1{}
		for i := 0; i < n; i++ {
			st[glyph.Pair{Left: glyph.ID(i), Right: 5}] = &gtab.PairAdjust{First: rec(i)}
		}
		return st
	})
	pairs := func(n1, n2, f int) gtab.Subtable {
		st := &gtab.Gpos2_2{Cov: setOf(1), Class1: alt(1), Class2: alt(2)}
		for i := 0; i < n1; i++ {
			var row []*gtab.PairAdjust
			for j := 0; j < n2; j++ {
				row = append(row, &gtab.PairAdjust{First: c08Rec(f, i+j)})
			}
			st.Adjust = append(st.Adjust, row)
		}
		return st
	}
	add(true, 2, "2.2 class 1", func(n int) gtab.Subtable { return pairs(n, 1, 4) })
	add(true, 2, "2.2 class 2", func(n int) gtab.Subtable { return pairs(1, n, 4) })
	add(true, 2, "2.2 classes", func(n int) gtab.Subtable { return pairs(n/180, 180, 4) })
	add(true, 2, "2.2 empty records", func(n int) gtab.Subtable { return pairs(n, 2, -1) })
	add(true, 2, "2.2 class tables", func(n int) gtab.Subtable {
		st := pairs(2, 2, 4).(*gtab.Gpos2_2)
		st.Class1 = alt(n)
		return st
	})
	add(true, 2, "2.2 coverage", func(n int) gtab.Subtable {
		st := pairs(2, 2, 4).(*gtab.Gpos2_2)
		st.Cov = covN(n).ToSet()
		return st
	})
	add(true, 3, "3.1", func(n int) gtab.Subtable {
		st := &gtab.Gpos3_1{Cov: covR(n)}
		for i := 0; i < n; i++ {
			st.Records = append(st.Records, gtab.EntryExitRecord{Entry: anch(1, i+1), Exit: anch(i, 1)})
		}
		return st
	})
	add(true, 3, "3.1 empty", func(n int) gtab.Subtable {
		return &gtab.Gpos3_1{Cov: covR(n), Records: make([]gtab.EntryExitRecord, n)}
	})
	marksN := func(n int) []markarray.Record {
		res := make([]markarray.Record, n)
		for i := range res {
			res[i] = markRec(0, i, 1)
		}
		return res
	}
	rowsN := func(n, m int, empty bool) [][]anchor.Table {
		res := make([][]anchor.Table, n)
		for i := range res {
			res[i] = make([]anchor.Table, m)
			for j := range res[i] {
				if !empty || i == n-1 && j == m-1 {
					res[i][j] = anch(i, 1+j)
				}
			}
		}
		return res
	}
	for k, name := range []string{"marks", "bases", "classes", "empty", "both", "coverage"} {
		f := func(n int) (c1, c2 coverage.Table, marks []markarray.Record, rows [][]anchor.Table) {
			c1, c2, marks, rows = one(9), one(5), marksN(1), rowsN(1, 1, false)
			switch k {
			case 0:
				c1, marks = covR(n), marksN(n)
			case 1:
				c2, rows = covR(n), rowsN(n, 1, false)
			case 2:
				rows = rowsN(1, n, false)
			case 3:
				c2, rows = covR(n), rowsN(n, 1, true)
			case 4:
				c1, marks = covR(n), marksN(n)
				c2, rows = covR(n), rowsN(n, 2, true)
			case 5:
				n = min(n, 13000)
				c1, marks = covN(n/2), marksN(n/2)
				c2, rows = covN(n-n/2), rowsN(n-n/2, 1, true)
			}
			return
		}
		add(true, 4, "4.1 "+name, func(n int) gtab.Subtable {
			c1, c2, marks, rows := f(n)
			return &gtab.Gpos4_1{MarkCov: c1, BaseCov: c2, MarkArray: marks, BaseArray: rows}
		})
		add(true, 6, "6.1 "+name, func(n int) gtab.Subtable {
			c1, c2, marks, rows := f(n)
			return &gtab.Gpos6_1{Mark1Cov: c1, Mark2Cov: c2, Mark1Array: marks, Mark2Array: rows}
		})
		add(true, 5, "5.1 "+name, func(n int) gtab.Subtable {
			c1, c2, marks, rows := f(n)
			st := &gtab.Gpos5_1{MarkCov: c1, LigCov: c2, MarkArray: marks}
			for _, row := range rows {
				st.LigArray = append(st.LigArray, [][]anchor.Table{row})
			}
			return st
		})
	}
	add(true, 5, "5.1 components", func(n int) gtab.Subtable {
		return &gtab.Gpos5_1{MarkCov: one(9), LigCov: one(5), MarkArray: marksN(1), LigArray: [][][]anchor.Table{rowsN(n, 1, false)}}
	})
	add(true, 5, "5.1 empty components", func(n int) gtab.Subtable {
		return &gtab.Gpos5_1{MarkCov: one(9), LigCov: one(5), MarkArray: marksN(1), LigArray: [][][]anchor.Table{rowsN(n, 1, true)}}
	})

	k := c.Choose("kind", len(mm))
	m := mm[k]
	w := c.Choose("size", 22)
	if !c.Thorough && w < 16 && (w < 5 || w > 9) {
		c.Skip()
	}
	c.Exec()
	// the number of elements where the size exceeds 64 KiB
	lo, hi := 1, 65536
	for lo < hi {
		mid := (lo + hi) / 2
		if refSubSize(m.mk(mid)) > 0xFFFF {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	n := lo - 8 + w
	switch w {
	case 16:
		n = lo / 2
	case 17:
		n = 2 * lo
	case 18:
		n = 65535
	case 19:
		n = 65536
	case 20, 21: // several subtables, which need extension subtables
		n = lo/2 + 3
		for n > 1 && refSubSize(m.mk(n)) > 0x9000 {
			n = n / 2
		}
		c.Exec()
		c.Log("%s: 3 lookups, %d elements, %d bytes", m.name, n, refSubSize(m.mk(n)))
		c08Check(c, "c08:limits", c08Case{m.gpos, func() *gtab.Info {
			info := &gtab.Info{
				ScriptList:  c08Scripts(c08Latn),
				FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{1, 0}}},
			}
			for i := 0; i < 3; i++ {
				l := lk(m.tp, 1<<i, m.mk(n), m.mk(n+i))
				if w == 21 {
					l.Subtables = l.Subtables[:1]
				}
				info.LookupList = append(info.LookupList, l)
			}
			return info
		}, c08Latn})
		return
	}
	if n > 65536 || n < 1 {
		c.Skip()
	}
	c.Log("%s: %d elements, %d bytes", m.name, n, refSubSize(m.mk(n)))
	c08Check(c, "c08:limits", c08Case{m.gpos, func() *gtab.Info {
		return &gtab.Info{
			ScriptList:  c08Scripts(c08Latn),
			FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{1, 0}}},
			LookupList:  gtab.LookupList{lk(m.tp, 0, m.mk(n)), c08Marker(m.gpos)},
		}
	}, c08Latn})
}
