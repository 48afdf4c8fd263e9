ID="c07-text-alias"; PROP="C07"
EDITS=[("opentype/gtab/gsub.go","""		matchPos = append(matchPos, a)
		text = append(text, seq[a].Text...)
		p := a + 1
""","""		matchPos = append(matchPos, a)
		text = seq[a].Text
		p := a + 1
""")]
PKG="opentype/gtab"
TEST='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestSeedDemo(t *testing.T) {
	// The texts of the input glyphs are slices of one array.
	rr := []rune("abc")
	seq := []glyph.Info{{GID: 1, Text: rr[0:1]}, {GID: 2, Text: rr[1:2]}, {GID: 3, Text: rr[2:3]}}
	meta := &LookupMetaInfo{LookupType: 4, LookupFlags: 0}
	ll := LookupList{{Meta: meta, Subtables: []Subtable{&Gsub4_1{Cov: coverage.Table{1: 0},
		Repl: [][]Ligature{{{In: []glyph.ID{3, 3}, Out: 9}, {In: []glyph.ID{2, 9}, Out: 9}, {In: []glyph.ID{2}, Out: 8}}}}}}}
	seq = NewContext(ll, nil, []LookupIndex{0}).Apply(seq)
	_ = seq
	// two ligatures which skip a mark
	var all []rune
	rr = []rune("abcd")
	seq = []glyph.Info{{GID: 1, Text: rr[0:1]}, {GID: 7, Text: rr[1:2]}, {GID: 2, Text: rr[2:3]}, {GID: 5, Text: rr[3:4]}}
	ll[0].Subtables[0].(*Gsub4_1).Repl[0] = []Ligature{{In: []glyph.ID{7, 9}, Out: 9}, {In: []glyph.ID{7, 2, 5}, Out: 9}}
	ll[0].Subtables = append(ll[0].Subtables, &Gsub4_1{Cov: coverage.Table{7: 0}, Repl: [][]Ligature{{{In: []glyph.ID{2}, Out: 8}}}})
	seq = NewContext(ll, nil, []LookupIndex{0}).Apply(seq)
	for _, g := range seq { all = append(all, g.Text...) }
	if string(all) != "abcd" { t.Errorf("got %q", string(all)) }
	if string(rr) != "abcd" { t.Errorf("the caller's text is now %q", string(rr)) }
	// an attempt which fails after matching two glyphs, with spare capacity
	a := make([]rune, 1, 4)
	a[0] = 'a'
	seq = []glyph.Info{{GID: 1, Text: a[:1]}, {GID: 4, Text: []rune{'m'}}, {GID: 2, Text: a[1:2]}}
	a[:2][1] = 'z'
	gd := &markGdef
	meta.LookupFlags = IgnoreMarks
	ll = LookupList{{Meta: meta, Subtables: []Subtable{&Gsub4_1{Cov: coverage.Table{1: 0}, Repl: [][]Ligature{{{In: []glyph.ID{2}, Out: 9}}}}}}}
	seq = NewContext(ll, gd, []LookupIndex{0}).Apply(seq)
	all = nil
	for _, g := range seq { all = append(all, g.Text...) }
	if len(all) != 3 { t.Errorf("got %q", string(all)) }
	// ignored mark between the components: the text of the mark gets overwritten
	rr = []rune("amb")
	seq = []glyph.Info{{GID: 1, Text: rr[0:1]}, {GID: 4, Text: rr[1:2]}, {GID: 2, Text: rr[2:3]}}
	seq = NewContext(ll, gd, []LookupIndex{0}).Apply(seq)
	n := map[rune]int{}
	for _, g := range seq { for _, r := range g.Text { n[r]++ } }
	if n['a'] != 1 || n['m'] != 1 || n['b'] != 1 { t.Errorf("characters %v", n) }
}
'''
TEST=TEST.replace('import (','import ("seehuhn.de/go/sfnt/opentype/gdef";"seehuhn.de/go/sfnt/opentype/classdef";')+'var markGdef = gdef.Table{GlyphClass: classdef.Table{1: 1, 2: 1, 4: 3}}\n'
NEEDS="a ligature across an ignored mark where the Text slices of the input glyphs share one backing array (slices of a []rune)"
BREAKS="the text of the mark is overwritten: characters are lost and duplicated"
