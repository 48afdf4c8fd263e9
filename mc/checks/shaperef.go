package checks

// A reference implementation of the OpenType rules for applying GSUB and GPOS
// lookups.  The glyph sequence is a list of nodes with identity, and matched
// contexts refer to nodes (not to positions), so that insertions and
// deletions need no position fix-ups.
//
// The reference stops with a reason in sh.unspec when it reaches a
// situation for which neither the OpenType specification nor sections 1 to 3
// of the repository's GSUB test cases define the outcome.

import (
	"fmt"
	"strings"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

type rNode struct {
	gid        glyph.ID
	text       []rune
	xo, yo, ad int
}

type rFrame struct {
	in    []*rNode // the input sequence of the matched rule
	end   *rNode   // first node after the match (nil: end of the sequence)
	ambig int      // entries in[ambig:] are not defined
}

type rShaper struct {
	ll     gtab.LookupList
	gd     *gdef.Table
	seq    []*rNode
	frames []*rFrame
	count  int
	unspec string
}

type rUnspec struct{}

func (sh *rShaper) undefined(why string) {
	sh.unspec = why
	panic(rUnspec{})
}

// refShape applies the lookups.  If unspec is non-empty, the outcome is not
// defined.
func refShape(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, in []glyph.Info) (out []glyph.Info, unspec string) {
	sh := &rShaper{ll: ll, gd: gd}
	for _, g := range in {
		sh.seq = append(sh.seq, &rNode{gid: g.GID, text: append([]rune(nil), g.Text...),
			xo: int(g.XOffset), yo: int(g.YOffset), ad: int(g.Advance)})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(rUnspec); !ok {
					panic(r)
				}
			}
		}()
		for _, li := range lookups {
			if int(li) < len(ll) {
				sh.lookup(ll[li])
			}
		}
	}()
	if sh.unspec != "" {
		return nil, sh.unspec
	}
	for _, n := range sh.seq {
		for _, v := range []int{n.xo, n.yo, n.ad} {
			if v < -32768 || v > 32767 {
				return nil, "overflow"
			}
		}
		out = append(out, glyph.Info{GID: n.gid, Text: n.text,
			XOffset: funit.Int16(n.xo), YOffset: funit.Int16(n.yo), Advance: funit.Int16(n.ad)})
	}
	return out, ""
}

func (sh *rShaper) idx(n *rNode) int {
	for i, m := range sh.seq {
		if m == n {
			return i
		}
	}
	return len(sh.seq) // nil is the end of the sequence
}

func (sh *rShaper) at(i int) *rNode {
	if i >= 0 && i < len(sh.seq) {
		return sh.seq[i]
	}
	return nil
}

func (sh *rShaper) class(gid glyph.ID) int {
	if sh.gd == nil || sh.gd.GlyphClass == nil {
		return 0
	}
	return int(sh.gd.GlyphClass[gid])
}

// ignored implements the lookup flags.
func (sh *rShaper) ignored(meta *gtab.LookupMetaInfo, gid glyph.ID) bool {
	f := int(meta.LookupFlags)
	switch sh.class(gid) {
	case 1: // base
		return f&0x0002 != 0
	case 2: // ligature
		return f&0x0004 != 0
	case 3: // mark
		if f&0x0008 != 0 {
			return true
		}
		if f&0x0010 != 0 {
			sets := sh.gd.MarkGlyphSets
			if int(meta.MarkFilteringSet) >= len(sets) {
				sh.undefined("mark filtering set index out of range")
			}
			return !sets[meta.MarkFilteringSet][gid]
		}
		if f&0xFF00 != 0 {
			return int(sh.gd.MarkAttachClass[gid]) != f>>8
		}
	}
	return false
}

func (sh *rShaper) lookup(l *gtab.LookupTable) {
	reverse := false
	for _, st := range l.Subtables {
		if _, ok := st.(*gtab.Gsub8_1); ok {
			reverse = true
		}
	}
	if reverse {
		for i := len(sh.seq) - 1; i >= 0; i-- {
			if !sh.ignored(l.Meta, sh.seq[i].gid) {
				sh.apply(l, sh.seq[i], nil)
			}
		}
		return
	}
	cur := sh.at(0)
	for cur != nil {
		next := sh.at(sh.idx(cur) + 1)
		if !sh.ignored(l.Meta, cur.gid) {
			if resume, ok := sh.apply(l, cur, nil); ok {
				next = resume
			}
		}
		cur = next
	}
}

// apply tries the subtables at node n.  Input glyphs must lie before end.
// The first return value is the node where the scan continues.
func (sh *rShaper) apply(l *gtab.LookupTable, n, end *rNode) (*rNode, bool) {
	for _, st := range l.Subtables {
		if resume, ok := sh.subtable(l, st, n, end); ok {
			return resume, true
		}
	}
	return nil, false
}

// following finds the next glyph after position i which is not ignored.
func (sh *rShaper) following(l *gtab.LookupTable, i, limit int) int {
	for i++; i < limit; i++ {
		if !sh.ignored(l.Meta, sh.seq[i].gid) {
			return i
		}
	}
	return -1
}

func (sh *rShaper) preceding(l *gtab.LookupTable, i int) int {
	for i--; i >= 0; i-- {
		if !sh.ignored(l.Meta, sh.seq[i].gid) {
			return i
		}
	}
	return -1
}

type gidPred func(gid glyph.ID) bool

type rRule struct {
	back, in, ahead []gidPred // in excludes the first glyph
	actions         []gtab.SeqLookup
}

func isGlyph(want glyph.ID) gidPred  { return func(g glyph.ID) bool { return g == want } }
func inSet(s coverage.Set) gidPred   { return func(g glyph.ID) bool { return s[g] } }
func inCov(t coverage.Table) gidPred { return func(g glyph.ID) bool { _, ok := t[g]; return ok } }
func ofClass(cd map[glyph.ID]uint16, c uint16) gidPred {
	return func(g glyph.ID) bool { return cd[g] == c }
}

func mapSlice[A, B any](xs []A, f func(A) B) []B {
	var out []B
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

// matchRule matches a contextual rule at node n.
func (sh *rShaper) matchRule(l *gtab.LookupTable, r *rRule, n, end *rNode) *rFrame {
	limit := sh.idx(end)
	i := sh.idx(n)
	fr := &rFrame{in: []*rNode{n}, ambig: 1 << 30}
	for _, pred := range r.in {
		i = sh.following(l, i, limit)
		if i < 0 || !pred(sh.seq[i].gid) {
			return nil
		}
		fr.in = append(fr.in, sh.seq[i])
	}
	last := i
	for _, pred := range r.ahead {
		i = sh.following(l, i, len(sh.seq))
		if i < 0 || !pred(sh.seq[i].gid) {
			return nil
		}
	}
	i = sh.idx(n)
	for _, pred := range r.back {
		i = sh.preceding(l, i)
		if i < 0 || !pred(sh.seq[i].gid) {
			return nil
		}
	}
	// ignored glyphs following the match are part of the matched range
	last++
	for last < limit && sh.ignored(l.Meta, sh.seq[last].gid) {
		last++
	}
	fr.end = sh.at(last)
	return fr
}

func (sh *rShaper) context(l *gtab.LookupTable, rules []*rRule, n, end *rNode) (*rNode, bool) {
	for _, r := range rules {
		fr := sh.matchRule(l, r, n, end)
		if fr == nil {
			continue
		}
		sh.frames = append(sh.frames, fr)
		if len(sh.frames) == 1 {
			sh.count = 0
		}
		for _, act := range r.actions {
			if sh.count++; sh.count > 60 {
				sh.undefined("too many nested actions")
			}
			if int(act.SequenceIndex) >= fr.ambig {
				sh.undefined("sequence index after a replaced ignored glyph")
			}
			if int(act.SequenceIndex) >= len(fr.in) || int(act.LookupListIndex) >= len(sh.ll) {
				continue
			}
			target := fr.in[act.SequenceIndex]
			child := sh.ll[act.LookupListIndex]
			if sh.ignored(child.Meta, target.gid) {
				continue
			}
			sh.apply(child, target, fr.end)
		}
		sh.frames = sh.frames[:len(sh.frames)-1]
		return fr.end, true
	}
	return nil, false
}

// replace substitutes the nodes old (in order) with the given new nodes.  The
// new nodes go to the position of the first old node.
func (sh *rShaper) replace(old, repl []*rNode) {
	isOld := func(n *rNode) bool {
		for _, o := range old {
			if o == n {
				return true
			}
		}
		return false
	}
	var out []*rNode
	for _, n := range sh.seq {
		if n == old[0] {
			out = append(out, repl...)
		}
		if !isOld(n) {
			out = append(out, n)
		}
	}
	start := sh.idx(old[0])
	for _, fr := range sh.frames {
		before, members := 0, 0
		for _, m := range fr.in {
			if sh.idx(m) < start {
				before++
			}
			if isOld(m) {
				members++
			}
		}
		if members < len(old) && before < fr.ambig {
			// a glyph which was ignored when matching the context is
			// replaced
			fr.ambig = before
		}
		var in []*rNode
		done := false
		for _, m := range fr.in {
			if isOld(m) {
				if !done {
					in = append(in, repl...)
					done = true
				}
				continue
			}
			in = append(in, m)
		}
		fr.in = in
	}
	sh.seq = out
}

func (sh *rShaper) substitute(n *rNode, gids ...glyph.ID) *rNode {
	var repl []*rNode
	for i, gid := range gids {
		m := &rNode{gid: gid}
		if i == 0 {
			*m = *n
			m.gid = gid
		}
		repl = append(repl, m)
	}
	next := sh.at(sh.idx(n) + 1)
	sh.replace([]*rNode{n}, repl)
	return next
}

func (n *rNode) adjust(v *gtab.GposValueRecord) {
	if v != nil {
		n.xo += int(v.XPlacement)
		n.yo += int(v.YPlacement)
		n.ad += int(v.XAdvance)
	}
}

// subtable applies a single subtable.
func (sh *rShaper) subtable(l *gtab.LookupTable, st gtab.Subtable, n, end *rNode) (*rNode, bool) {
	gid := n.gid
	pos := sh.idx(n)
	limit := sh.idx(end)
	after := sh.at(pos + 1)
	acts := func(a []gtab.SeqLookup) []gtab.SeqLookup { return a }

	switch st := st.(type) {
	case *gtab.Gsub1_1:
		if !st.Cov[gid] {
			return nil, false
		}
		return sh.substitute(n, gid+st.Delta), true

	case *gtab.Gsub1_2:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		return sh.substitute(n, st.SubstituteGlyphIDs[k]), true

	case *gtab.Gsub2_1:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		if len(st.Repl[k]) == 0 {
			sh.undefined("empty replacement")
		}
		return sh.substitute(n, st.Repl[k]...), true

	case *gtab.Gsub3_1:
		k, ok := st.Cov[gid]
		if !ok || len(st.Alternates[k]) == 0 {
			return nil, false
		}
		return sh.substitute(n, st.Alternates[k][0]), true

	case *gtab.Gsub4_1:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
	ligLoop:
		for _, lig := range st.Repl[k] {
			i := pos
			comp := []*rNode{n}
			for _, want := range lig.In {
				i = sh.following(l, i, limit)
				if i < 0 || sh.seq[i].gid != want {
					continue ligLoop
				}
				comp = append(comp, sh.seq[i])
			}
			resume := sh.at(i + 1)
			m := &rNode{gid: lig.Out}
			for _, c := range comp {
				m.text = append(m.text, c.text...)
			}
			sh.replace(comp, []*rNode{m})
			return resume, true
		}
		return nil, false

	case *gtab.SeqContext1:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		return sh.context(l, mapSlice(st.Rules[k], func(r *gtab.SeqRule) *rRule {
			return &rRule{in: mapSlice(r.Input, isGlyph), actions: acts(r.Actions)}
		}), n, end)

	case *gtab.SeqContext2:
		if _, ok := st.Cov[gid]; !ok {
			return nil, false
		}
		cls := int(st.Input[gid])
		if cls >= len(st.Rules) {
			return nil, false
		}
		return sh.context(l, mapSlice(st.Rules[cls], func(r *gtab.ClassSeqRule) *rRule {
			return &rRule{in: mapSlice(r.Input, func(c uint16) gidPred { return ofClass(st.Input, c) }), actions: r.Actions}
		}), n, end)

	case *gtab.SeqContext3:
		if !st.Input[0][gid] {
			return nil, false
		}
		return sh.context(l, []*rRule{{in: mapSlice(st.Input[1:], inSet), actions: st.Actions}}, n, end)

	case *gtab.ChainedSeqContext1:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		return sh.context(l, mapSlice(st.Rules[k], func(r *gtab.ChainedSeqRule) *rRule {
			return &rRule{back: mapSlice(r.Backtrack, isGlyph), in: mapSlice(r.Input, isGlyph),
				ahead: mapSlice(r.Lookahead, isGlyph), actions: r.Actions}
		}), n, end)

	case *gtab.ChainedSeqContext2:
		if _, ok := st.Cov[gid]; !ok {
			return nil, false
		}
		cls := int(st.Input[gid])
		if cls >= len(st.Rules) {
			return nil, false
		}
		return sh.context(l, mapSlice(st.Rules[cls], func(r *gtab.ChainedClassSeqRule) *rRule {
			return &rRule{
				back:    mapSlice(r.Backtrack, func(c uint16) gidPred { return ofClass(st.Backtrack, c) }),
				in:      mapSlice(r.Input, func(c uint16) gidPred { return ofClass(st.Input, c) }),
				ahead:   mapSlice(r.Lookahead, func(c uint16) gidPred { return ofClass(st.Lookahead, c) }),
				actions: r.Actions}
		}), n, end)

	case *gtab.ChainedSeqContext3:
		if !st.Input[0][gid] {
			return nil, false
		}
		return sh.context(l, []*rRule{{back: mapSlice(st.Backtrack, inSet), in: mapSlice(st.Input[1:], inSet),
			ahead: mapSlice(st.Lookahead, inSet), actions: st.Actions}}, n, end)

	case *gtab.Gsub8_1:
		k, ok := st.Input[gid]
		if !ok {
			return nil, false
		}
		r := &rRule{back: mapSlice(st.Backtrack, inCov), ahead: mapSlice(st.Lookahead, inCov)}
		if sh.matchRule(l, r, n, end) == nil {
			return nil, false
		}
		return sh.substitute(n, st.SubstituteGlyphIDs[k]), true

	case *gtab.Gpos1_1:
		if _, ok := st.Cov[gid]; !ok {
			return nil, false
		}
		n.adjust(st.Adjust)
		return after, true

	case *gtab.Gpos1_2:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		n.adjust(st.Adjust[k])
		return after, true

	case gtab.Gpos2_1:
		i := sh.following(l, pos, limit)
		if i < 0 {
			return nil, false
		}
		adj, ok := st[glyph.Pair{Left: gid, Right: sh.seq[i].gid}]
		if !ok {
			return nil, false
		}
		return sh.pair(n, sh.seq[i], adj), true

	case *gtab.Gpos2_2:
		i := sh.following(l, pos, limit)
		if !st.Cov[gid] || i < 0 {
			return nil, false
		}
		c1, c2 := int(st.Class1[gid]), int(st.Class2[sh.seq[i].gid])
		if c1 >= len(st.Adjust) || c2 >= len(st.Adjust[c1]) {
			return nil, false
		}
		return sh.pair(n, sh.seq[i], st.Adjust[c1][c2]), true

	case *gtab.Gpos3_1:
		k, ok := st.Cov[gid]
		if !ok {
			return nil, false
		}
		if l.Meta.LookupFlags&1 != 0 {
			sh.undefined("cursive attachment from right to left") // see driver cursive-open
		}
		rec := st.Records[k]
		if j := sh.preceding(l, pos); j >= 0 {
			if k, ok := st.Cov[sh.seq[j].gid]; ok {
				exit := st.Records[k].Exit
				if exit == (anchor.Table{}) || rec.Entry == (anchor.Table{}) {
					sh.undefined("cursive attachment without anchor") // see driver cursive-open
				}
				n.yo = sh.seq[j].yo + int(exit.Y) - int(rec.Entry.Y)
			}
		}
		if j := sh.following(l, pos, limit); j >= 0 {
			next := sh.seq[j]
			if k, ok := st.Cov[next.gid]; ok {
				entry := st.Records[k].Entry
				if entry == (anchor.Table{}) || rec.Exit == (anchor.Table{}) {
					sh.undefined("cursive attachment without anchor")
				}
				// the exit of n and the entry of next must meet
				n.ad = n.xo + int(rec.Exit.X) - next.xo - int(entry.X)
				for _, m := range sh.seq[pos+1 : j] {
					n.ad -= m.ad
				}
			}
		}
		return after, true

	case *gtab.Gpos4_1:
		k, ok := st.MarkCov[gid]
		if !ok {
			return nil, false
		}
		// the preceding base glyph
		j := pos - 1
		for ; j >= 0; j-- {
			g := sh.seq[j].gid
			_, covered := st.BaseCov[g]
			if sh.gd == nil || sh.gd.GlyphClass == nil {
				if covered {
					break
				}
				if _, ok := st.MarkCov[g]; !ok {
					sh.undefined("mark attachment across unclassified glyphs")
				}
				continue
			}
			isMark := sh.class(g) == 3
			if isMark && covered {
				sh.undefined("mark glyph used as base")
			}
			if !isMark && sh.ignored(l.Meta, g) {
				sh.undefined("mark attachment across ignored base glyphs")
			}
			if !isMark {
				break
			}
		}
		if j < 0 {
			return nil, false
		}
		if sh.class(gid) != 3 && sh.gd != nil && sh.gd.GlyphClass != nil {
			sh.undefined("attached glyph is not a mark")
		}
		base, ok := st.BaseCov[sh.seq[j].gid]
		if !ok {
			if sh.class(sh.seq[j].gid) == 4 {
				sh.undefined("mark attachment across component glyphs")
			}
			return nil, false
		}
		rec := st.MarkArray[k]
		bAnchor := st.BaseArray[base][rec.Class]
		if bAnchor.X == 0 && bAnchor.Y == 0 {
			return nil, false // no anchor
		}
		dx, dy := sh.attach(j, pos, int(bAnchor.X)-int(rec.X), int(bAnchor.Y)-int(rec.Y))
		n.xo += dx
		n.yo += dy
		return after, true

	case *gtab.Gpos6_1:
		k, ok := st.Mark1Cov[gid]
		if !ok {
			return nil, false
		}
		// the preceding mark glyph, subject to the lookup flags
		j := pos - 1
		for ; j >= 0; j-- {
			g := sh.seq[j].gid
			if !sh.ignored(l.Meta, g) {
				break
			}
			if sh.class(g) != 3 {
				sh.undefined("mark attachment across ignored base glyphs")
			}
		}
		if j < 0 {
			return nil, false
		}
		m2, ok := st.Mark2Cov[sh.seq[j].gid]
		if !ok {
			return nil, false
		}
		rec := st.Mark1Array[k]
		anch := st.Mark2Array[m2][rec.Class]
		if anch.X == 0 && anch.Y == 0 {
			return nil, false
		}
		n.xo, n.yo = sh.attach(j, pos, int(anch.X)-int(rec.X), int(anch.Y)-int(rec.Y))
		return after, true
	}
	sh.undefined(fmt.Sprintf("subtable type %T", st))
	return nil, false
}

// attach computes the offset which moves the anchor of the glyph at position
// pos onto the anchor of the glyph at position j.
func (sh *rShaper) attach(j, pos, dx, dy int) (int, int) {
	dx += sh.seq[j].xo
	dy += sh.seq[j].yo
	for _, m := range sh.seq[j:pos] {
		dx -= m.ad
	}
	return dx, dy
}

func (sh *rShaper) pair(first, second *rNode, adj *gtab.PairAdjust) *rNode {
	first.adjust(adj.First)
	if adj.Second == nil {
		return second
	}
	second.adjust(adj.Second)
	return sh.at(sh.idx(second) + 1)
}

// seqString formats a glyph sequence for error messages.
func seqString(seq []glyph.Info, pos bool) string {
	var b strings.Builder
	for i, g := range seq {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d%q", g.GID, string(g.Text))
		if pos {
			fmt.Fprintf(&b, "(%d,%d,%d)", g.XOffset, g.YOffset, g.Advance)
		}
	}
	return b.String()
}

func seqEqual(a, b []glyph.Info) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].GID != b[i].GID || a[i].XOffset != b[i].XOffset || a[i].YOffset != b[i].YOffset ||
			a[i].Advance != b[i].Advance || len(a[i].Text) != len(b[i].Text) {
			return false
		}
		for j := range a[i].Text {
			if a[i].Text[j] != b[i].Text[j] {
				return false
			}
		}
	}
	return true
}
