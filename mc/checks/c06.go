package checks

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/testcases"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"golang.org/x/text/language"

	"verif/mc/explore"
	"verif/mc/run"
)

// the glyph alphabet of C06
const (
	gA glyph.ID = iota + 1
	gB
	gM
	gN
	gL
	gX
	gY
	gZ
)

// dump writes a value in full, following pointers, with sorted maps.
func dump(v any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			dumpTo(b, v.Elem())
		}
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(" ")
			}
			first = false
			b.WriteString(t.Field(i).Name + ":")
			dumpTo(b, v.Field(i))
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			dumpTo(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var p strings.Builder
			dumpTo(&p, k)
			p.WriteString(":")
			dumpTo(&p, v.MapIndex(k))
			parts = append(parts, p.String())
		}
		sort.Strings(parts)
		b.WriteString("{" + strings.Join(parts, " ") + "}")
	default:
		fmt.Fprint(b, v)
	}
}

func dumpLL(ll gtab.LookupList) string {
	var b strings.Builder
	for i, l := range ll {
		fmt.Fprintf(&b, "  lookup %d: type %d flags 0x%04x", i, l.Meta.LookupType, uint16(l.Meta.LookupFlags))
		if l.Meta.MarkFilteringSet != 0 {
			fmt.Fprintf(&b, " set %d", l.Meta.MarkFilteringSet)
		}
		b.WriteByte('\n')
		for _, st := range l.Subtables {
			fmt.Fprintf(&b, "    %s\n", clip(dump(st), 2000))
		}
	}
	return b.String()
}

// shapeInput is a pre-computed input sequence.
type shapeInput []glyph.Info

// allSeqs returns all sequences over the alphabet with lengths up to n.
// Every glyph has its own text (zero, one or two characters).
func allSeqs(alphabet []glyph.ID, n int, advance func(glyph.ID) int) []shapeInput {
	var res []shapeInput
	var rec func(cur []glyph.ID)
	rec = func(cur []glyph.ID) {
		res = append(res, mkSeq(cur, advance))
		if len(cur) == n {
			return
		}
		for _, g := range alphabet {
			rec(append(cur[:len(cur):len(cur)], g))
		}
	}
	rec(nil)
	// shortest first
	sort.SliceStable(res, func(i, j int) bool { return len(res[i]) < len(res[j]) })
	return res
}

func mkSeq(gids []glyph.ID, advance func(glyph.ID) int) shapeInput {
	seq := make(shapeInput, len(gids))
	for i, g := range gids {
		seq[i].GID = g
		switch i % 5 {
		case 1:
			seq[i].Text = []rune{rune('a' + 2*i), rune('b' + 2*i)}
		case 3:
			// no text
		default:
			seq[i].Text = []rune{rune('a' + 2*i)}
		}
		if advance != nil {
			seq[i].Advance = funit.Int16(advance(g))
		}
	}
	return seq
}

func (s shapeInput) clone() []glyph.Info {
	out := make([]glyph.Info, len(s))
	copy(out, s)
	for i := range out {
		if out[i].Text != nil {
			out[i].Text = append([]rune(nil), out[i].Text...)
		}
	}
	return out
}

var c06Stat struct{ judged, undefined int64 }

// shapeCheck compares the library with the reference for all the given
// sequences.
func shapeCheck(c *explore.Ctx, key string, ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, seqs []shapeInput, pos bool) {
	var cur shapeInput
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(error); ok {
				c.Fail(key+":panic", "Apply panics for %s: %v\n%s%s", seqString(cur, pos), r, shapeDesc(ll, gd, lookups), debug.Stack())
			}
			panic(r)
		}
	}()
	h := uint64(14695981039346656037)
	for _, seq := range seqs {
		cur = seq
		want, unspec := refShape(ll, gd, lookups, seq)
		if unspec != "" {
			c06Stat.undefined++
			continue
		}
		c06Stat.judged++
		got := gtab.NewContext(ll, gd, lookups).Apply(seq.clone())
		if !seqEqual(got, want) {
			c.Fail(key, "input  %s\ngot    %s\nexpect %s\n%s", seqString(seq, pos), seqString(got, pos), seqString(want, pos), shapeDesc(ll, gd, lookups))
		}
		for _, g := range got {
			h = (h ^ uint64(g.GID)<<1 ^ uint64(uint16(g.XOffset))<<20 ^ uint64(len(g.Text))<<40) * 1099511628211
			h = (h ^ uint64(uint16(g.YOffset)) ^ uint64(uint16(g.Advance))<<20) * 1099511628211
		}
	}
	c.Obs([]byte(fmt.Sprint(h)))
}

func shapeDesc(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex) string {
	return fmt.Sprintf("lookups %v of\n%s  GDEF %s\n", lookups, dumpLL(ll), dump(gd))
}

// constructors for lookups

func lk(tp, flags int, sub ...gtab.Subtable) *gtab.LookupTable {
	return &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp), LookupFlags: gtab.LookupFlags(flags)}, Subtables: sub}
}

func covOf(gids ...glyph.ID) coverage.Table {
	s := append([]glyph.ID(nil), gids...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	t := coverage.Table{}
	for i, g := range s {
		t[g] = i
	}
	return t
}

func setOf(gids ...glyph.ID) coverage.Set {
	s := coverage.Set{}
	for _, g := range gids {
		s[g] = true
	}
	return s
}

// sub12 makes a GSUB 1.2 subtable from pairs.
func sub12(pairs ...glyph.ID) *gtab.Gsub1_2 {
	m := map[glyph.ID]glyph.ID{}
	var from []glyph.ID
	for i := 0; i < len(pairs); i += 2 {
		m[pairs[i]] = pairs[i+1]
		from = append(from, pairs[i])
	}
	st := &gtab.Gsub1_2{Cov: covOf(from...), SubstituteGlyphIDs: make([]glyph.ID, len(from))}
	for g, i := range st.Cov {
		st.SubstituteGlyphIDs[i] = m[g]
	}
	return st
}

type multi map[glyph.ID][]glyph.ID

func sub2(m multi) *gtab.Gsub2_1 {
	var from []glyph.ID
	for g := range m {
		from = append(from, g)
	}
	st := &gtab.Gsub2_1{Cov: covOf(from...), Repl: make([][]glyph.ID, len(from))}
	for g, i := range st.Cov {
		st.Repl[i] = m[g]
	}
	return st
}

func sub3(m multi) *gtab.Gsub3_1 {
	st := sub2(m)
	return &gtab.Gsub3_1{Cov: st.Cov, Alternates: st.Repl}
}

type lig struct {
	in  []glyph.ID
	out glyph.ID
}

func sub4(ligs ...lig) *gtab.Gsub4_1 {
	m := map[glyph.ID][]gtab.Ligature{}
	var from []glyph.ID
	for _, l := range ligs {
		if _, ok := m[l.in[0]]; !ok {
			from = append(from, l.in[0])
		}
		m[l.in[0]] = append(m[l.in[0]], gtab.Ligature{In: l.in[1:], Out: l.out})
	}
	st := &gtab.Gsub4_1{Cov: covOf(from...), Repl: make([][]gtab.Ligature, len(from))}
	for g, i := range st.Cov {
		st.Repl[i] = m[g]
	}
	return st
}

func sub8(in []glyph.ID, out []glyph.ID, back, ahead []coverage.Table) *gtab.Gsub8_1 {
	return &gtab.Gsub8_1{Input: covOf(in...), SubstituteGlyphIDs: out, Backtrack: back, Lookahead: ahead}
}

// ctxRule is a format independent contextual rule.  For formats 1 and 2 the
// sets must have a single element.
type ctxRule struct {
	back, in, ahead [][]glyph.ID
	acts            []gtab.SeqLookup
}

// The class definitions which are used for format 2 contexts.  Glyphs which
// are not listed belong to class 0.
var (
	ctxInClass    = classdef.Table{gA: 1, gB: 2, gM: 3, gN: 4, gL: 5, gX: 6, gY: 7}
	ctxBackClass  = classdef.Table{gA: 3, gB: 1, gM: 2, gN: 5, gL: 4, gX: 6, gY: 7}
	ctxAheadClass = classdef.Table{gA: 2, gB: 3, gM: 1, gN: 4, gL: 7, gX: 5, gY: 6}
)

func first(xs []glyph.ID) glyph.ID { return xs[0] }

// ctxSubtable builds a contextual subtable with the given rules.  Format 3
// subtables hold one rule each.
func ctxSubtables(chained bool, format int, rules []ctxRule) []gtab.Subtable {
	return ctxSubtablesCD(chained, format, rules, ctxClasses[0])
}

// ctxClasses lists class definition tables (backtrack, input, lookahead) for
// format 2 contexts.
var ctxClasses = [][3]classdef.Table{
	{ctxBackClass, ctxInClass, ctxAheadClass},
	// several glyphs per class
	{{gA: 1, gM: 1}, {gA: 1, gB: 1, gM: 2}, {gB: 2, gM: 2, gA: 1}},
	// class 0 is used
	{{gA: 1}, {gA: 1, gM: 2}, {gB: 1}},
	{{gM: 1, gB: 2}, {gM: 1, gB: 1}, {gM: 2, gA: 1}},
}

func ctxSubtablesCD(chained bool, format int, rules []ctxRule, cd [3]classdef.Table) []gtab.Subtable {
	numRules := 0
	for _, r := range rules {
		numRules = max(numRules, int(cd[1][r.in[0][0]])+1)
	}
	var starts []glyph.ID
	for _, r := range rules {
		for _, g := range r.in[0] {
			if !containsGID(starts, g) {
				starts = append(starts, g)
			}
		}
	}
	cls := func(t classdef.Table) func([]glyph.ID) uint16 {
		return func(s []glyph.ID) uint16 { return t[s[0]] }
	}
	switch {
	case format == 1 && !chained:
		st := &gtab.SeqContext1{Cov: covOf(starts...), Rules: make([][]*gtab.SeqRule, len(starts))}
		for _, r := range rules {
			i := st.Cov[r.in[0][0]]
			st.Rules[i] = append(st.Rules[i], &gtab.SeqRule{Input: mapSlice(r.in[1:], first), Actions: r.acts})
		}
		return []gtab.Subtable{st}
	case format == 1:
		st := &gtab.ChainedSeqContext1{Cov: covOf(starts...), Rules: make([][]*gtab.ChainedSeqRule, len(starts))}
		for _, r := range rules {
			i := st.Cov[r.in[0][0]]
			st.Rules[i] = append(st.Rules[i], &gtab.ChainedSeqRule{Backtrack: mapSlice(r.back, first),
				Input: mapSlice(r.in[1:], first), Lookahead: mapSlice(r.ahead, first), Actions: r.acts})
		}
		return []gtab.Subtable{st}
	case format == 2 && !chained:
		st := &gtab.SeqContext2{Cov: covOf(starts...), Input: cd[1], Rules: make([][]*gtab.ClassSeqRule, numRules)}
		for _, r := range rules {
			i := cd[1][r.in[0][0]]
			st.Rules[i] = append(st.Rules[i], &gtab.ClassSeqRule{Input: mapSlice(r.in[1:], cls(cd[1])), Actions: r.acts})
		}
		return []gtab.Subtable{st}
	case format == 2:
		st := &gtab.ChainedSeqContext2{Cov: covOf(starts...), Input: cd[1], Backtrack: cd[0],
			Lookahead: cd[2], Rules: make([][]*gtab.ChainedClassSeqRule, numRules)}
		for _, r := range rules {
			i := cd[1][r.in[0][0]]
			st.Rules[i] = append(st.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: mapSlice(r.back, cls(cd[0])),
				Input: mapSlice(r.in[1:], cls(cd[1])), Lookahead: mapSlice(r.ahead, cls(cd[2])), Actions: r.acts})
		}
		return []gtab.Subtable{st}
	}
	set := func(s []glyph.ID) coverage.Set { return setOf(s...) }
	var res []gtab.Subtable
	for _, r := range rules {
		if chained {
			res = append(res, &gtab.ChainedSeqContext3{Backtrack: mapSlice(r.back, set), Input: mapSlice(r.in, set),
				Lookahead: mapSlice(r.ahead, set), Actions: r.acts})
		} else {
			res = append(res, &gtab.SeqContext3{Input: mapSlice(r.in, set), Actions: r.acts})
		}
	}
	return res
}

func containsGID(xs []glyph.ID, g glyph.ID) bool {
	for _, x := range xs {
		if x == g {
			return true
		}
	}
	return false
}

// ctxLookup makes a contextual lookup; kind 0-2 are the contextual formats
// 1-3, kind 3-5 are the chained contextual formats 1-3.
func ctxLookup(gpos bool, kind, flags int, rules ...ctxRule) *gtab.LookupTable {
	tp := 5
	if kind >= 3 {
		tp = 6
	}
	if gpos {
		tp += 2
	}
	return lk(tp, flags, ctxSubtables(kind >= 3, kind%3+1, rules)...)
}

func singles(gids ...glyph.ID) [][]glyph.ID {
	var res [][]glyph.ID
	for _, g := range gids {
		res = append(res, []glyph.ID{g})
	}
	return res
}

// words lists all words over the alphabet with lengths lo to hi.
func words(alphabet []glyph.ID, lo, hi int) [][]glyph.ID {
	var res [][]glyph.ID
	var rec func(cur []glyph.ID)
	rec = func(cur []glyph.ID) {
		if len(cur) >= lo {
			res = append(res, cur)
		}
		if len(cur) == hi {
			return
		}
		for _, g := range alphabet {
			rec(append(cur[:len(cur):len(cur)], g))
		}
	}
	rec(nil)
	sort.SliceStable(res, func(i, j int) bool { return len(res[i]) < len(res[j]) })
	return res
}

func act(idx, lookup int) gtab.SeqLookup {
	return gtab.SeqLookup{SequenceIndex: uint16(idx), LookupListIndex: gtab.LookupIndex(lookup)}
}

// the default GDEF table of C06
func c06Gdef() *gdef.Table {
	return &gdef.Table{
		GlyphClass:      classdef.Table{gA: 1, gB: 1, gM: 3, gN: 3, gL: 2, gX: 1, gY: 2, gZ: 3},
		MarkAttachClass: classdef.Table{gM: 1, gN: 2},
		MarkGlyphSets:   []coverage.Set{setOf(gM), setOf(gN, gZ)},
	}
}

const (
	igBase  = 0x02
	igLig   = 0x04
	igMarks = 0x08
	useSet  = 0x10
)

var c06SeqCache = map[string][]shapeInput{}

func cachedSeqs(name string, alphabet []glyph.ID, n int, adv func(glyph.ID) int) []shapeInput {
	key := fmt.Sprint(name, alphabet, n)
	s, ok := c06SeqCache[key]
	if !ok {
		s = allSeqs(alphabet, n, adv)
		c06SeqCache[key] = s
	}
	return s
}

func c06Adv(g glyph.ID) int {
	if g == gM || g == gN {
		return 3 * int(g)
	}
	return 500 + 10*int(g)
}

func vr(x, y, dx int) *gtab.GposValueRecord {
	return &gtab.GposValueRecord{XPlacement: funit.Int16(x), YPlacement: funit.Int16(y), XAdvance: funit.Int16(dx)}
}

// c06Menu lists self-contained programs, using glyphs A, B and M.
type shapeProg struct {
	name string
	gpos bool
	ll   func(flags, set int) gtab.LookupList
}

func withFlags(l *gtab.LookupTable, flags, set int) *gtab.LookupTable {
	l.Meta.LookupFlags = gtab.LookupFlags(flags)
	l.Meta.MarkFilteringSet = uint16(set)
	return l
}

func anch(x, y int) anchor.Table { return anchor.Table{X: funit.Int16(x), Y: funit.Int16(y)} }

func markRec(class, x, y int) markarray.Record {
	return markarray.Record{Class: uint16(class), Table: anch(x, y)}
}

var c06Menu = []shapeProg{
	{"1.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(1, 0, &gtab.Gsub1_1{Cov: setOf(gA, gM), Delta: 5}), f, s)}
	}},
	{"1.1neg", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(1, 0, &gtab.Gsub1_1{Cov: setOf(gB, gM), Delta: 0xFFFF}), f, s)}
	}},
	{"1.2", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(1, 0, sub12(gA, gB, gB, gM, gM, gA)), f, s)}
	}},
	{"2.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(2, 0, sub2(multi{gA: {gB, gA}, gM: {gM, gA, gA}, gB: {gX}})), f, s)}
	}},
	{"3.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(3, 0, sub3(multi{gA: {gB, gX}, gM: {}, gB: {gY}}), sub3(multi{gM: {gZ, gX}})), f, s)}
	}},
	{"4.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(4, 0, sub4(lig{[]glyph.ID{gA, gM, gB}, gX}, lig{[]glyph.ID{gA, gB}, gY}, lig{[]glyph.ID{gB, gB}, gZ}, lig{[]glyph.ID{gM, gA}, gX})), f, s)}
	}},
	{"4.1+4.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(4, 0, sub4(lig{[]glyph.ID{gA, gA, gA}, gX}, lig{[]glyph.ID{gM, gM}, gA}), sub4(lig{[]glyph.ID{gA, gA}, gY}, lig{[]glyph.ID{gM}, gB})), f, s)}
	}},
	{"5.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 0, 0, ctxRule{in: singles(gA, gB), acts: []gtab.SeqLookup{act(1, 1)}}, ctxRule{in: singles(gM, gA), acts: []gtab.SeqLookup{act(0, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"5.2", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 1, 0, ctxRule{in: singles(gA, gA, gB), acts: []gtab.SeqLookup{act(2, 1)}}, ctxRule{in: singles(gA, gM), acts: []gtab.SeqLookup{act(1, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"5.3", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 2, 0, ctxRule{in: [][]glyph.ID{{gA, gM}, {gB, gA}}, acts: []gtab.SeqLookup{act(0, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"6.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 3, 0, ctxRule{back: singles(gB), in: singles(gA, gA), ahead: singles(gM), acts: []gtab.SeqLookup{act(1, 1)}}, ctxRule{in: singles(gA), ahead: singles(gB), acts: []gtab.SeqLookup{act(0, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"6.2", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 4, 0, ctxRule{back: singles(gM, gB), in: singles(gA), acts: []gtab.SeqLookup{act(0, 1)}}, ctxRule{in: singles(gB), ahead: singles(gA, gM), acts: []gtab.SeqLookup{act(0, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"6.3", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(false, 5, 0, ctxRule{back: [][]glyph.ID{{gA, gM}}, in: [][]glyph.ID{{gB}, {gA, gB}}, ahead: [][]glyph.ID{{gM, gA}}, acts: []gtab.SeqLookup{act(1, 1)}}), f, s), lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ))}
	}},
	{"8.1", false, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(8, 0, sub8([]glyph.ID{gA, gB, gM}, []glyph.ID{gB, gM, gA}, []coverage.Table{covOf(gA, gM)}, nil),
			sub8([]glyph.ID{gA, gB, gM}, []glyph.ID{gX, gY, gA}, nil, []coverage.Table{covOf(gA, gX)})), f, s)}
	}},
	{"p1.1", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(1, 0, &gtab.Gpos1_1{Cov: covOf(gA, gM), Adjust: vr(1, 2, 4)}), f, s)}
	}},
	{"p1.2", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(1, 0, &gtab.Gpos1_2{Cov: covOf(gA, gM), Adjust: []*gtab.GposValueRecord{vr(1, 2, 4), nil}},
			&gtab.Gpos1_1{Cov: covOf(gB), Adjust: vr(8, 16, 32)}), f, s)}
	}},
	{"p2.1", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(2, 0, gtab.Gpos2_1{
			{Left: gA, Right: gB}: {First: vr(1, 2, 4)},
			{Left: gA, Right: gA}: {First: vr(8, 16, 32), Second: vr(64, 128, 256)},
			{Left: gM, Right: gB}: {Second: vr(1, 2, 4)},
			{Left: gB, Right: gM}: {},
		}), f, s)}
	}},
	{"p2.2", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(2, 0, &gtab.Gpos2_2{Cov: setOf(gA, gM), Class1: classdef.Table{gM: 1, gB: 1}, Class2: classdef.Table{gB: 1, gA: 2},
			Adjust: [][]*gtab.PairAdjust{
				{{}, {First: vr(1, 2, 4)}, {First: vr(8, 16, 32), Second: vr(64, 128, 256)}},
				{{First: vr(3, 5, 7)}, {}, {Second: vr(11, 13, 17)}},
			}}, gtab.Gpos2_1{{Left: gB, Right: gB}: {First: vr(512, 0, 0)}, {Left: gA, Right: gB}: {First: vr(1024, 0, 0)}}), f, s)}
	}},
	{"p4.1", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(gM), BaseCov: covOf(gA, gB),
			MarkArray: []markarray.Record{markRec(1, 10, 20)},
			BaseArray: [][]anchor.Table{{anch(1, 1), anch(300, 700)}, {anch(2, 2), anch(0, 0)}}}), f, s)}
	}},
	{"p6.1", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(6, 0, &gtab.Gpos6_1{Mark1Cov: covOf(gM, gB), Mark2Cov: covOf(gM),
			Mark1Array: []markarray.Record{markRec(0, 10, 20), markRec(1, 30, 40)},
			Mark2Array: [][]anchor.Table{{anch(100, 900), anch(110, 910)}}}), f, s)}
	}},
	{"p7", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(true, 0, 0, ctxRule{in: singles(gA, gB), acts: []gtab.SeqLookup{act(0, 1), act(1, 1)}}), f, s), lk(1, 0, &gtab.Gpos1_1{Cov: covOf(gA, gB, gM), Adjust: vr(1, 2, 4)})}
	}},
	{"p8", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(ctxLookup(true, 5, 0, ctxRule{back: [][]glyph.ID{{gA}}, in: [][]glyph.ID{{gB, gM}, {gA}}, acts: []gtab.SeqLookup{act(0, 1), act(1, 2)}}), f, s),
			lk(2, 0, gtab.Gpos2_1{{Left: gB, Right: gA}: {First: vr(8, 16, 32), Second: vr(64, 128, 256)}}),
			lk(1, 0, &gtab.Gpos1_1{Cov: covOf(gA), Adjust: vr(1, 2, 4)})}
	}},
	{"p9", true, func(f, s int) gtab.LookupList {
		return gtab.LookupList{withFlags(lk(3, 0, &gtab.Gpos3_1{Cov: covOf(gA, gB), Records: []gtab.EntryExitRecord{
			{Entry: anch(10, 20), Exit: anch(310, -20)}, {Entry: anch(-5, 0), Exit: anch(0, 100)}}}), f, s)}
	}},
}

// c06Flags lists the lookup flag combinations.
func c06Flags(c *explore.Ctx) (flags, set int) {
	flags = c.Choose("ignore", 8) << 1
	switch c.Choose("marks", 8) {
	case 1:
		flags |= 1 << 8
	case 2:
		flags |= 2 << 8
	case 3:
		flags |= useSet
	case 4:
		flags |= useSet
		set = 1
	case 5:
		flags |= useSet | 1<<8
		set = 1
	case 6:
		flags |= 3 << 8
	case 7:
		flags |= 1 // right-to-left
	}
	return flags, set
}

func init() {
	documented := func(c *explore.Ctx) {
		gen, err := testcases.NewFontGen()
		if err != nil {
			c.Fail("gen", "%v", err)
		}
		var idx []int
		for i, tc := range testcases.Gsub {
			if tc.Name[0] >= '1' && tc.Name[0] <= '3' && tc.Name[1] == '_' {
				idx = append(idx, i)
			}
		}
		i := explore.Pick(c, "case", idx)
		c.Exec()
		tc := testcases.Gsub[i]
		font, err := gen.GsubTestFont(i)
		if err != nil {
			c.Fail("documented:parse", "%s: %v", tc.Name, err)
		}
		var seq shapeInput
		for _, r := range tc.In {
			seq = append(seq, glyph.Info{GID: gen.CMap.Lookup(r), Text: []rune{r}})
		}
		lookups := font.Gsub.FindLookups(language.AmericanEnglish, nil)
		str := func(seq []glyph.Info) (out, text string) {
			for _, g := range seq {
				out += string(gen.Rev[g.GID])
				text += string(g.Text)
			}
			return out, text
		}
		text := tc.Text
		if text == "" {
			text = tc.In
		}
		want, unspec := refShape(font.Gsub.LookupList, font.Gdef, lookups, seq)
		if unspec != "" {
			c.Log("%s: reference undefined: %s", tc.Name, unspec)
		} else if o, t := str(want); o != tc.Out || t != text {
			c.Fail("documented:reference", "%s: reference gives %s (%s), documented is %s (%s)", tc.Name, o, t, tc.Out, text)
		}
		got := gtab.NewContext(font.Gsub.LookupList, font.Gdef, lookups).Apply(seq.clone())
		if o, t := str(got); o != tc.Out || t != text {
			c.Fail("documented", "%s: %s -> %s (%s), documented is %s (%s)", tc.Name, tc.In, o, t, tc.Out, text)
		}
		c.ObsStr(tc.Name)
		// all sequences over the characters of the test case
		var alphabet []glyph.ID
		for _, r := range tc.In {
			if g := gen.CMap.Lookup(r); !containsGID(alphabet, g) {
				alphabet = append(alphabet, g)
			}
		}
		if len(alphabet) <= 4 {
			shapeCheck(c, "documented:all", font.Gsub.LookupList, font.Gdef, lookups, allSeqs(alphabet, 6, nil), false)
		}
	}

	abm := []glyph.ID{gA, gB, gM}

	// every lookup type with all flags and all assignments of glyph classes
	flagsDrv := func(c *explore.Ctx) {
		prog := explore.Pick(c, "program", c06Menu)
		gd := &gdef.Table{GlyphClass: classdef.Table{gX: 1, gY: 2, gZ: 3}}
		for _, g := range abm {
			if cl := c.Choose(fmt.Sprintf("class %d", g), 5); cl > 0 {
				gd.GlyphClass[g] = uint16(cl)
			}
		}
		flags, set := c06Flags(c)
		c.Exec()
		ll := prog.ll(flags, set)
		n := 3
		if c.Thorough {
			n = 5
		}
		adv := c06Adv
		if !prog.gpos {
			adv = nil
		}
		seqs := cachedSeqs(fmt.Sprint("flags", prog.gpos), abm, n, adv)
		lookups := []gtab.LookupIndex{0}
		for _, ac := range []classdef.Table{{gA: 1, gM: 1, gB: 2}, {gM: 2}, nil} {
			gd.MarkAttachClass = ac
			gd.MarkGlyphSets = []coverage.Set{setOf(gM), setOf(gA, gB)}
			shapeCheck(c, "flags:"+prog.name, ll, gd, lookups, seqs, prog.gpos)
			if flags>>8 == 0 {
				break
			}
		}
	}

	// fixed GDEF variants, longer sequences with more glyphs
	longDrv := func(c *explore.Ctx) {
		prog := explore.Pick(c, "program", c06Menu)
		flags, set := c06Flags(c)
		gds := []*gdef.Table{c06Gdef(), nil, {}, {GlyphClass: classdef.Table{gM: 3, gN: 3}}}
		k := c.Choose("gdef", 3)
		gd := gds[k]
		c.Exec()
		n := 5
		if c.Thorough {
			n = 6
		}
		adv := c06Adv
		if !prog.gpos {
			adv = nil
		}
		alphabet := []glyph.ID{gA, gB, gM, gN}
		if k > 0 && n > 4 {
			n = 4
		}
		shapeCheck(c, "long:"+prog.name, prog.ll(flags, set), gd, []gtab.LookupIndex{0}, cachedSeqs(fmt.Sprint("long", prog.gpos), alphabet, n, adv), prog.gpos)
	}

	// pairs of ligatures
	ligDrv := func(c *explore.Ctx) {
		alphabet := abm
		tails := words(alphabet, 0, 3)
		t1 := explore.Pick(c, "first", tails)
		t2 := explore.Pick(c, "second", tails)
		flags := explore.Pick(c, "flags", []int{0, igMarks})
		layout := c.Choose("layout", 2)
		c.Exec()
		l1 := lig{append([]glyph.ID{gA}, t1...), gX}
		l2 := lig{append([]glyph.ID{gA}, t2...), gY}
		var l *gtab.LookupTable
		switch layout {
		case 0: // one subtable
			l = lk(4, flags, sub4(l1, l2))
		case 1: // two subtables
			l = lk(4, flags, sub4(l1), sub4(l2))
		}
		n := 5
		if c.Thorough {
			n = 6
		}
		shapeCheck(c, "ligatures", gtab.LookupList{l}, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("lig", abm, n, nil), false)
	}

	// contextual rules in all formats
	marker := func() *gtab.LookupTable { return lk(1, 0, sub12(gA, gX, gB, gY, gM, gZ)) }
	ctxDrv := func(c *explore.Ctx) {
		kind := c.Choose("kind", 6)
		in := explore.Pick(c, "input", words(abm, 1, 3))
		r := ctxRule{in: singles(in...)}
		if kind >= 3 {
			hi := 1
			if c.Thorough {
				hi = 2
			}
			r.back = singles(explore.Pick(c, "backtrack", words(abm, 0, hi))...)
			r.ahead = singles(explore.Pick(c, "lookahead", words(abm, 0, hi))...)
		}
		if kind%3 == 2 { // sets of glyphs
			switch c.Choose("sets", 3) {
			case 1:
				for i := range r.in {
					if r.in[i][0] == gA {
						r.in[i] = []glyph.ID{gA, gM}
					}
				}
			case 2:
				for _, x := range [][][]glyph.ID{r.back, r.ahead} {
					for i := range x {
						if x[i][0] != gM {
							x[i] = []glyph.ID{gA, gB}
						}
					}
				}
				r.in[0] = []glyph.ID{gA, gB, gM}
			}
		}
		var cd [3]classdef.Table
		wide := false
		if kind%3 == 1 {
			wide = c.Bool("wide coverage")
			cd = explore.Pick(c, "classes", ctxClasses)
		}
		r.acts = []gtab.SeqLookup{act(c.Choose("index", len(in)+1), 1)}
		flags := explore.Pick(c, "flags", []int{0, igMarks})
		c.Exec()
		n := 5
		if c.Thorough {
			n = 6
			if len(r.back)+len(r.ahead) > 2 {
				n = 5
			}
		} else if kind == 4 && wide {
			n = 4
		}
		ll := gtab.LookupList{ctxLookup(false, kind, flags, r), marker()}
		if kind%3 == 1 {
			ll[0].Subtables = ctxSubtablesCD(kind >= 3, 2, []ctxRule{r}, cd)
			if wide {
				// further glyphs are covered, some without rules
				switch st := ll[0].Subtables[0].(type) {
				case *gtab.SeqContext2:
					st.Cov = covOf(gA, gB, gM)
				case *gtab.ChainedSeqContext2:
					st.Cov = covOf(gA, gB, gM)
				}
			}
		}
		shapeCheck(c, fmt.Sprintf("context:%d", kind), ll, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("ctx", abm, n, nil), false)
	}

	// two rules, overlapping
	rulesDrv := func(c *explore.Ctx) {
		kind := c.Choose("kind", 6)
		ab := []glyph.ID{gA, gM}
		mk := func(name string, tag int) ctxRule {
			r := ctxRule{in: singles(append([]glyph.ID{gA}, explore.Pick(c, name+" input", words(ab, 0, 2))...)...)}
			if kind >= 3 {
				switch c.Choose(name+" context", 5) {
				case 1:
					r.back = singles(gA)
				case 2:
					r.back = singles(gM)
				case 3:
					r.ahead = singles(gA)
				case 4:
					r.ahead = singles(gM)
				}
			}
			r.acts = []gtab.SeqLookup{act(len(r.in)-1, tag)}
			return r
		}
		r1, r2 := mk("first", 1), mk("second", 2)
		flags := explore.Pick(c, "flags", []int{0, igMarks})
		split := c.Bool("two subtables")
		c.Exec()
		var l *gtab.LookupTable
		if split {
			l = lk(5+kind/3, flags, append(ctxSubtables(kind >= 3, kind%3+1, []ctxRule{r1}), ctxSubtables(kind >= 3, kind%3+1, []ctxRule{r2})...)...)
		} else {
			l = ctxLookup(false, kind, flags, r1, r2)
		}
		ll := gtab.LookupList{l, marker(), lk(1, 0, sub12(gA, gL, gM, gN))}
		n := 6
		if c.Thorough {
			n = 7
		}
		shapeCheck(c, fmt.Sprintf("rules:%d", kind), ll, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("rules", ab, n, nil), false)
	}

	// nested lookups which change the length of the sequence
	type child struct {
		name string
		ll   []*gtab.LookupTable // the first one is the entry point, indices are relative
	}
	children := []child{
		{"A>X M>Z", []*gtab.LookupTable{marker()}},
		{"A>AA", []*gtab.LookupTable{lk(2, 0, sub2(multi{gA: {gA, gA}}))}},
		{"A>MAM", []*gtab.LookupTable{lk(2, 0, sub2(multi{gA: {gM, gA, gM}}))}},
		{"M>AA", []*gtab.LookupTable{lk(2, 0, sub2(multi{gM: {gA, gA}}))}},
		{"AA>A", []*gtab.LookupTable{lk(4, 0, sub4(lig{[]glyph.ID{gA, gA}, gA}))}},
		{"-marks AA>X", []*gtab.LookupTable{lk(4, igMarks, sub4(lig{[]glyph.ID{gA, gA}, gX}))}},
		{"AM>A, AMM>A", []*gtab.LookupTable{lk(4, 0, sub4(lig{[]glyph.ID{gA, gM, gM}, gA}, lig{[]glyph.ID{gA, gM}, gA}))}},
		{"AAA>M", []*gtab.LookupTable{lk(4, 0, sub4(lig{[]glyph.ID{gA, gA, gA}, gM}, lig{[]glyph.ID{gM, gA}, gM}))}},
		{"ctx AA: 0:A>AA 1:mark", []*gtab.LookupTable{
			ctxLookup(false, 0, 0, ctxRule{in: singles(gA, gA), acts: []gtab.SeqLookup{act(0, 1), act(1, 2)}}),
			lk(2, 0, sub2(multi{gA: {gA, gA}})), marker()}},
		{"-marks ctx AA: 0:AA>A 0:mark", []*gtab.LookupTable{
			ctxLookup(false, 5, igMarks, ctxRule{in: singles(gA, gA), acts: []gtab.SeqLookup{act(0, 1), act(0, 2)}}),
			lk(4, igMarks, sub4(lig{[]glyph.ID{gA, gA}, gA})), marker()}},
		{"chain M|A|: mark", []*gtab.LookupTable{
			ctxLookup(false, 3, 0, ctxRule{back: singles(gM), in: singles(gA), acts: []gtab.SeqLookup{act(0, 1)}}, ctxRule{in: singles(gA), ahead: singles(gM), acts: []gtab.SeqLookup{act(0, 1)}}), marker()}},
		{"-marks chain |A|A: mark", []*gtab.LookupTable{
			ctxLookup(false, 5, igMarks, ctxRule{in: singles(gA), ahead: singles(gA), acts: []gtab.SeqLookup{act(0, 1)}}), marker()}},
		{"-marks class chain |A|A: mark", []*gtab.LookupTable{
			ctxLookup(false, 4, igMarks, ctxRule{in: singles(gA), ahead: singles(gA), acts: []gtab.SeqLookup{act(0, 1)}}), marker()}},
	}
	nestedDrv := func(numActs int) func(c *explore.Ctx) {
		return func(c *explore.Ctx) {
			kind := explore.Pick(c, "kind", []int{0, 2, 4, 5})
			am := []glyph.ID{gA, gM}
			in := explore.Pick(c, "input", words(am, 1, 3))
			flags := explore.Pick(c, "flags", []int{0, igMarks})
			if flags == igMarks && containsGID(in, gM) {
				c.Skip() // never matches
			}
			ll := gtab.LookupList{nil}
			var acts []gtab.SeqLookup
			for i := 0; i < numActs; i++ {
				idx := c.Choose(fmt.Sprintf("index %d", i), 3)
				ch := explore.Pick(c, fmt.Sprintf("child %d", i), children)
				base := len(ll)
				acts = append(acts, act(idx, base))
				ll = append(ll, rebase(ch.ll, base)...)
			}
			c.Exec()
			r := ctxRule{in: singles(in...), acts: acts}
			ll[0] = ctxLookup(false, kind, flags, r)
			n := 6
			if numActs == 3 {
				n = 5
			}
			shapeCheck(c, fmt.Sprintf("nested:%d", kind), ll, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("nested", am, n, nil), false)
		}
	}

	// several lookups in a row, in all orders
	orderDrv := func(c *explore.Ctx) {
		gpos := c.Bool("gpos")
		var menu []shapeProg
		for _, p := range c06Menu {
			if p.gpos == gpos {
				menu = append(menu, p)
			}
		}
		if gpos {
			// GSUB lookups have no advances; use the same length everywhere
		}
		k := 2
		var ll gtab.LookupList
		var top []gtab.LookupIndex
		for i := 0; i < k; i++ {
			p := explore.Pick(c, fmt.Sprintf("program %d", i), menu)
			f := explore.Pick(c, fmt.Sprintf("flags %d", i), []int{0, igMarks, igBase, useSet})
			base := len(ll)
			top = append(top, gtab.LookupIndex(base))
			ll = append(ll, rebase(p.ll(f, 0), base)...)
		}
		order := explore.Pick(c, "order", [][]int{{0, 1}, {1, 0}, {0, 1, 0}, {1, 1}})
		c.Exec()
		var lookups []gtab.LookupIndex
		for _, o := range order {
			lookups = append(lookups, top[o])
		}
		lookups = append(lookups, 999) // does not exist
		adv := c06Adv
		if !gpos {
			adv = nil
		}
		n := 4
		if c.Thorough {
			n = 5
		}
		shapeCheck(c, "order", ll, c06Gdef(), lookups, cachedSeqs(fmt.Sprint("order", gpos), abm, n, adv), gpos)
	}

	// attachment of marks
	attachDrv := func(c *explore.Ctx) {
		// classes of the marks M and N, base anchors
		mc := c.Choose("class M", 2)
		nc := c.Choose("class N", 2)
		rows := [][]anchor.Table{{anch(300, 700), anch(250, -100)}, {anch(0, 5), anch(0, 0)}, {anch(0, 0), anch(-7, 0)}}
		ra := explore.Pick(c, "base A", rows)
		rb := explore.Pick(c, "base B", rows)
		bases := explore.Pick(c, "bases", [][]glyph.ID{{gA}, {gA, gB}, {gA, gL}})
		attach := c.Choose("lookups", 6)
		flags := explore.Pick(c, "flags", []int{0, 1 << 8, useSet, igLig})
		withGdef := c.Choose("gdef", 2) == 0
		c.Exec()
		var ba [][]anchor.Table
		for i := range bases {
			if i == 0 {
				ba = append(ba, ra)
			} else {
				ba = append(ba, rb)
			}
		}
		p4 := lk(4, flags, &gtab.Gpos4_1{MarkCov: covOf(gM, gN), BaseCov: covOf(bases...),
			MarkArray: []markarray.Record{markRec(mc, 10, 20), markRec(nc, -30, 40)}, BaseArray: ba})
		p4b := lk(4, 0, &gtab.Gpos4_1{MarkCov: covOf(gN), BaseCov: covOf(gB),
			MarkArray: []markarray.Record{markRec(0, 1, 2)}, BaseArray: [][]anchor.Table{{anch(50, 60)}}},
			&gtab.Gpos4_1{MarkCov: covOf(gM, gN), BaseCov: covOf(bases...),
				MarkArray: []markarray.Record{markRec(mc, 10, 20), markRec(nc, -30, 40)}, BaseArray: ba})
		p6 := lk(6, flags, &gtab.Gpos6_1{Mark1Cov: covOf(gM, gN), Mark2Cov: covOf(gM),
			Mark1Array: []markarray.Record{markRec(mc, 11, 21), markRec(nc, -31, 41)}, Mark2Array: [][]anchor.Table{ra}})
		move := lk(1, 0, &gtab.Gpos1_1{Cov: covOf(gA, gM), Adjust: vr(1000, 2000, 100)})
		ll := gtab.LookupList{p4, p6, move, p4b}
		lookups := [][]gtab.LookupIndex{{0}, {1}, {0, 1}, {2, 0}, {2, 0, 1}, {3}}[attach]
		gd := c06Gdef()
		if !withGdef {
			gd = nil
		}
		n := 4
		if c.Thorough {
			n = 5
		}
		shapeCheck(c, "attach", ll, gd, lookups, cachedSeqs("attach", []glyph.ID{gA, gB, gM, gN, gL}, n, c06Adv), true)
	}

	// cursive attachment
	cursiveDrv := func(c *explore.Ctx) {
		anchors := []anchor.Table{anch(300, 700), anch(0, 5), anch(-7, 0)}
		n := 2
		marks := c.Choose("marks covered", 2) == 1
		if c.Thorough && !marks {
			anchors = append(anchors, anch(-250, -100), anch(3000, 1))
		}
		if marks {
			n = 3
		}
		recs := make([]gtab.EntryExitRecord, n)
		for i := range recs {
			recs[i].Entry = explore.Pick(c, "entry", anchors)
			recs[i].Exit = explore.Pick(c, "exit", anchors)
			if i == 2 {
				break
			}
		}
		flags := explore.Pick(c, "flags", []int{0, igMarks, igBase, useSet, 1 << 8, igMarks | igBase | igLig})
		order := c.Choose("lookups", 5)
		c.Exec()
		cov := covOf(gA, gB)
		if marks {
			cov = covOf(gA, gB, gM)
		}
		// coverage indices follow the glyph order
		cu := lk(3, flags, &gtab.Gpos3_1{Cov: cov, Records: recs})
		cu2 := lk(3, flags, &gtab.Gpos3_1{Cov: covOf(gB), Records: []gtab.EntryExitRecord{{Entry: anch(1, 2), Exit: anch(3, 4)}}}, cu.Subtables[0])
		move := lk(1, 0, &gtab.Gpos1_1{Cov: covOf(gA, gM), Adjust: vr(1000, 2000, 100)})
		nest := ctxLookup(true, 0, flags, ctxRule{in: singles(gA, gB), acts: []gtab.SeqLookup{act(0, 0), act(1, 0)}})
		ll := gtab.LookupList{cu, cu2, move, nest}
		lookups := [][]gtab.LookupIndex{{0}, {1}, {2, 0}, {0, 2, 1}, {3}}[order]
		k := 4
		if c.Thorough {
			k = 5
		}
		shapeCheck(c, "cursive", ll, c06Gdef(), lookups, cachedSeqs("cursive", []glyph.ID{gA, gB, gM, gL}, k, c06Adv), true)
	}

	// Rules of the OpenType specification which the library does not implement.
	openDrv := func(c *explore.Ctx) {
		which := c.Choose("case", 3)
		var st gtab.Subtable
		tp, flags := 3, 0
		rec := gtab.EntryExitRecord{Entry: anch(10, 20), Exit: anch(300, 70)}
		in := []glyph.Info{{GID: gA, Advance: 500}, {GID: gB, Advance: 600}}
		var want, key string
		ok := func([]glyph.Info) bool { return true }
		switch which {
		case 0:
			key, want = "cursive-rtl", "with flag RIGHT_TO_LEFT the last glyph stays on the baseline and the first is raised by 20-70"
			flags = 1
			st = &gtab.Gpos3_1{Cov: covOf(gA, gB), Records: []gtab.EntryExitRecord{rec, rec}}
			ok = func(out []glyph.Info) bool { return out[0].YOffset == -50 && out[1].YOffset == 0 }
		case 1:
			key, want = "cursive-null", "a glyph without exit anchor is not connected to the next glyph"
			st = &gtab.Gpos3_1{Cov: covOf(gA, gB), Records: []gtab.EntryExitRecord{{Entry: rec.Entry}, rec}}
			ok = func(out []glyph.Info) bool { return out[0].Advance == 500 && out[1].YOffset == 0 }
		case 2:
			key, want = "mark-to-ligature", "the mark is attached to the last component of the ligature"
			tp = 5
			in = []glyph.Info{{GID: gL, Advance: 500}, {GID: gM}}
			st = &gtab.Gpos5_1{MarkCov: covOf(gM), LigCov: covOf(gL), MarkArray: []markarray.Record{markRec(0, 1, 2)},
				LigArray: [][][]anchor.Table{{{anch(100, 200)}, {anch(300, 400)}}}}
			ok = func(out []glyph.Info) bool { return out[1].XOffset == 300-1-500 && out[1].YOffset == 400-2 }
		}
		c.Exec()
		ll := gtab.LookupList{lk(tp, flags, st)}
		out := gtab.NewContext(ll, c06Gdef(), []gtab.LookupIndex{0}).Apply(in)
		c.ObsStr(key)
		if !ok(out) {
			c.Fail(key, "%s; got %s\n%s", want, seqString(out, true), dumpLL(ll))
		}
	}

	// pair adjustments
	pairDrv := func(c *explore.Ctx) {
		recs := []*gtab.PairAdjust{{}, {First: vr(1, 2, 4)}, {Second: vr(8, 16, 32)}, {First: vr(64, 128, 256), Second: vr(3, 5, 7)}}
		var entries [4]*gtab.PairAdjust
		pairs := []glyph.Pair{{Left: gA, Right: gA}, {Left: gA, Right: gB}, {Left: gB, Right: gA}, {Left: gA, Right: gM}}
		for i := range entries {
			if k := c.Choose(fmt.Sprint("pair ", pairs[i]), len(recs)+1); k > 0 {
				entries[i] = recs[k-1]
			}
		}
		format := c.Choose("format", 2)
		flags := explore.Pick(c, "flags", []int{0, igMarks, igBase})
		c.Exec()
		var st gtab.Subtable
		if format == 0 {
			t := gtab.Gpos2_1{}
			for i, e := range entries {
				if e != nil {
					t[pairs[i]] = e
				}
			}
			st = t
		} else {
			at := func(i int) *gtab.PairAdjust {
				if entries[i] == nil {
					return &gtab.PairAdjust{}
				}
				return entries[i]
			}
			// class 0 = other glyphs
			st = &gtab.Gpos2_2{Cov: setOf(gA, gB), Class1: classdef.Table{gA: 1, gM: 1}, Class2: classdef.Table{gA: 1, gB: 2, gM: 3},
				Adjust: [][]*gtab.PairAdjust{{at(3), at(2), at(1), at(0)}, {at(0), at(0), at(1), at(3)}}}
		}
		ll := gtab.LookupList{lk(2, flags, st, gtab.Gpos2_1{{Left: gB, Right: gB}: {First: vr(512, 0, 0), Second: vr(1024, 0, 0)}, {Left: gA, Right: gB}: {First: vr(2048, 0, 0)}})}
		n := 4
		if c.Thorough {
			n = 6
		}
		shapeCheck(c, "pairs", ll, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("pairs", abm, n, c06Adv), true)
	}

	// reverse chaining
	reverseDrv := func(c *explore.Ctx) {
		covs := []coverage.Table{covOf(gA), covOf(gB), covOf(gM), covOf(gA, gX)}
		mk := func(name string, hi int) []coverage.Table {
			var t []coverage.Table
			for i, n := 0, c.Choose(name+" length", hi+1); i < n; i++ {
				t = append(t, explore.Pick(c, name, covs))
			}
			return t
		}
		in := explore.Pick(c, "input", [][]glyph.ID{{gA}, {gA, gB}, {gM, gA}})
		out := explore.Pick(c, "output", [][]glyph.ID{{gX, gY}, {gB, gA}, {gA, gM}})
		hi := 1
		if c.Thorough {
			hi = 2
		}
		back, ahead := mk("backtrack", hi), mk("lookahead", 2)
		flags := explore.Pick(c, "flags", []int{0, igMarks})
		c.Exec()
		sort.Slice(in, func(i, j int) bool { return in[i] < in[j] })
		l := lk(8, flags, sub8(in, out[:len(in)], back, ahead), sub8([]glyph.ID{gB}, []glyph.ID{gX}, []coverage.Table{covOf(gA)}, nil))
		shapeCheck(c, "reverse", gtab.LookupList{l}, c06Gdef(), []gtab.LookupIndex{0}, cachedSeqs("reverse", abm, 5, nil), false)
	}

	run.Register(&run.Property{
		ID: "C06", Level: "model_checking",
		Rule: "For every program and every glyph sequence within the bounds, gtab.NewContext(...).Apply gives the same glyph ids, text, offsets and advances as the reference shaper (shaperef.go), which works on nodes with identity instead of positions; the reference itself is checked against sections 1-3 of the repository's test cases. Executions in which the outcome is not defined (an ignored glyph of an active context is replaced and a later action refers to a position behind it; more than 60 nested actions; missing mark filtering sets; marks attached across glyphs without GDEF classes) are not judged.",
		Assumptions: []string{
			"GSUB type 8 lookups process the sequence from the end (OpenType specification)",
			"GSUB type 3 selects the first alternate (documented in section 1 of the test cases)",
			"nested lookups match input inside the parent match only (section 2 of the test cases); backtrack and lookahead glyphs can come from the whole sequence",
			"mark-to-base attachment adds to earlier offsets, mark-to-mark attachment replaces them; an anchor at (0,0) of a base means that there is no anchor",
			"cursive attachment connects a glyph to the next and previous glyphs which the lookup flags do not ignore; lookups with flag RIGHT_TO_LEFT and glyphs without entry or exit anchor are judged in driver cursive-open only",
		},
		Drivers: []run.Driver{
			{Name: "documented", Run: documented, Weight: 1, Bounds: "all test cases of sections 1-3, on the documented input and on all sequences of up to 6 of their input glyphs"},
			{Name: "flags", Run: flagsDrv, Weight: 3, Bounds: "23 programs (all lookup types and formats) x 5^3 glyph class assignments x 64 lookup flag combinations x up to 3 mark attachment class tables x all sequences of length <= 3 (thorough 5) over 3 glyphs"},
			{Name: "long", Run: longDrv, Weight: 3, Bounds: "23 programs x 64 flag combinations x all sequences of length <= 5 (thorough 6) over 4 glyphs, and of length <= 4 with 2 further GDEF tables"},
			{Name: "ligatures", Run: ligDrv, Weight: 3, Bounds: "all pairs of ligatures with 1-4 components over 3 glyphs, in one or two subtables, with and without ignored marks x all sequences of length <= 5 (thorough 6)"},
			{Name: "context", Run: ctxDrv, Weight: 3, Bounds: "6 context formats x all inputs of length 1-3 over 3 glyphs x backtrack and lookahead of length <= 1 (thorough 2) x all action positions x with and without ignored marks x all sequences of length <= 5 (thorough 6)"},
			{Name: "rules", Run: rulesDrv, Weight: 3, Bounds: "6 context formats x all pairs of rules (input <= 3, backtrack/lookahead <= 1) x one or two subtables x all sequences of length <= 6 (thorough 7) over 2 glyphs"},
			{Name: "nested1", Run: nestedDrv(1), Weight: 1, Bounds: "4 context formats x inputs of length 1-3 x 1 action from 13 child lookups (length changing, nested contexts) x 3 positions x all sequences of length <= 6 over 2 glyphs"},
			{Name: "nested2", Run: nestedDrv(2), Weight: 3, Bounds: "the same with all pairs of actions"},
			{Name: "nested3", Run: nestedDrv(3), Weight: 6, ThoroughOnly: true, Bounds: "the same with all triples of actions and sequences of length <= 5"},
			{Name: "order", Run: orderDrv, Weight: 2, Bounds: "all pairs of programs x 4 flag combinations each x 4 orders x all sequences of length <= 4 (thorough 5) over 3 glyphs"},
			{Name: "attach", Run: attachDrv, Weight: 2, Bounds: "GPOS 4 and 6 with 2 mark classes, 3 anchor rows, missing anchors, 6 lookup orders (including moved bases and marks) x 4 flags x all sequences of length <= 4 (thorough 5) over 5 glyphs"},
			{Name: "pairs", Run: pairDrv, Weight: 2, Bounds: "GPOS 2.1 and 2.2: all assignments of 5 records to 4 pairs x 3 flags x all sequences of length <= 4 (thorough 6)"},
			{Name: "cursive", Run: cursiveDrv, Weight: 2, Bounds: "GPOS 3 with 2 or 3 covered glyphs x all entry and exit anchors from 3 (thorough 5 for 2 glyphs) x 6 flags x 5 lookup orders (two subtables, moved glyphs, nested) x all sequences of length <= 4 (thorough 5) over 4 glyphs"},
			{Name: "cursive-open", Run: openDrv, Weight: 1, Bounds: "three known deviations from the specification"},
			{Name: "reverse", Run: reverseDrv, Weight: 2, Bounds: "GSUB 8: backtrack <= 1 (thorough 2), lookahead <= 2 over 4 coverage tables x 9 substitutions x all sequences of length <= 5"},
		},
	})
}

// rebase copies lookups, adding base to all lookup indices in nested actions.
func rebase(ll []*gtab.LookupTable, base int) []*gtab.LookupTable {
	acts := func(in []gtab.SeqLookup) []gtab.SeqLookup {
		var out []gtab.SeqLookup
		for _, a := range in {
			a.LookupListIndex += gtab.LookupIndex(base)
			out = append(out, a)
		}
		return out
	}
	var res []*gtab.LookupTable
	for _, l := range ll {
		nl := &gtab.LookupTable{Meta: l.Meta}
		for _, st := range l.Subtables {
			switch st := st.(type) {
			case *gtab.SeqContext1:
				n := &gtab.SeqContext1{Cov: st.Cov}
				for _, rr := range st.Rules {
					n.Rules = append(n.Rules, mapSlice(rr, func(r *gtab.SeqRule) *gtab.SeqRule {
						return &gtab.SeqRule{Input: r.Input, Actions: acts(r.Actions)}
					}))
				}
				nl.Subtables = append(nl.Subtables, n)
			case *gtab.SeqContext2:
				n := &gtab.SeqContext2{Cov: st.Cov, Input: st.Input}
				for _, rr := range st.Rules {
					n.Rules = append(n.Rules, mapSlice(rr, func(r *gtab.ClassSeqRule) *gtab.ClassSeqRule {
						return &gtab.ClassSeqRule{Input: r.Input, Actions: acts(r.Actions)}
					}))
				}
				nl.Subtables = append(nl.Subtables, n)
			case *gtab.SeqContext3:
				nl.Subtables = append(nl.Subtables, &gtab.SeqContext3{Input: st.Input, Actions: acts(st.Actions)})
			case *gtab.ChainedSeqContext1:
				n := &gtab.ChainedSeqContext1{Cov: st.Cov}
				for _, rr := range st.Rules {
					n.Rules = append(n.Rules, mapSlice(rr, func(r *gtab.ChainedSeqRule) *gtab.ChainedSeqRule {
						return &gtab.ChainedSeqRule{Backtrack: r.Backtrack, Input: r.Input, Lookahead: r.Lookahead, Actions: acts(r.Actions)}
					}))
				}
				nl.Subtables = append(nl.Subtables, n)
			case *gtab.ChainedSeqContext2:
				n := &gtab.ChainedSeqContext2{Cov: st.Cov, Backtrack: st.Backtrack, Input: st.Input, Lookahead: st.Lookahead}
				for _, rr := range st.Rules {
					n.Rules = append(n.Rules, mapSlice(rr, func(r *gtab.ChainedClassSeqRule) *gtab.ChainedClassSeqRule {
						return &gtab.ChainedClassSeqRule{Backtrack: r.Backtrack, Input: r.Input, Lookahead: r.Lookahead, Actions: acts(r.Actions)}
					}))
				}
				nl.Subtables = append(nl.Subtables, n)
			case *gtab.ChainedSeqContext3:
				nl.Subtables = append(nl.Subtables, &gtab.ChainedSeqContext3{Backtrack: st.Backtrack, Input: st.Input,
					Lookahead: st.Lookahead, Actions: acts(st.Actions)})
			default:
				nl.Subtables = append(nl.Subtables, st)
			}
		}
		res = append(res, nl)
	}
	return res
}
