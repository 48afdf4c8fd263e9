package checks

import (
	"fmt"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// An independent, strict decoder for GSUB, GPOS and GDEF tables, written from
// the OpenType specification.  It refuses everything which a well-formed
// table does not contain: offsets outside the table, offsets into headers,
// arrays which do not match their coverage tables, unsorted records, and
// coverage or class definition tables which are not in the smaller of the two
// formats.

type gtErr string

type gtRd struct {
	b    []byte
	gpos bool
	end  int // the end of the data used so far
	ext  int // number of extension subtables
}

func (r *gtRd) fail(format string, args ...any) { panic(gtErr(fmt.Sprintf(format, args...))) }

func (r *gtRd) u16(p int) int {
	if p < 0 || p+2 > len(r.b) {
		r.fail("read at %d of %d bytes", p, len(r.b))
	}
	r.end = max(r.end, p+2)
	return int(r.b[p])<<8 | int(r.b[p+1])
}

func (r *gtRd) u32(p int) int { return r.u16(p)<<16 | r.u16(p+2) }

func (r *gtRd) gid(p int) glyph.ID { return glyph.ID(r.u16(p)) }

func (r *gtRd) gids(p, n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = r.gid(p + 2*i)
	}
	return res
}

func (r *gtRd) u16s(p, n int) []uint16 {
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(r.u16(p + 2*i))
	}
	return res
}

// off reads an offset at p, relative to base, which must point behind a
// header of the given length.
func (r *gtRd) off(base, p, header int) int {
	o := r.u16(p)
	if o < header {
		r.fail("offset %d at %d points into a header of %d bytes", o, p, header)
	}
	return base + o
}

// cov decodes a coverage table.
func (r *gtRd) cov(p int) []glyph.ID {
	format, n := r.u16(p), r.u16(p+2)
	var gg []glyph.ID
	switch format {
	case 1:
		gg = r.gids(p+4, n)
	case 2:
		for i := 0; i < n; i++ {
			q := p + 4 + 6*i
			a, b, k := r.u16(q), r.u16(q+2), r.u16(q+4)
			if b < a {
				r.fail("coverage range %d-%d", a, b)
			}
			if k != len(gg) {
				r.fail("coverage index %d instead of %d", k, len(gg))
			}
			for g := a; g <= b; g++ {
				gg = append(gg, glyph.ID(g))
			}
		}
	default:
		r.fail("coverage format %d", format)
	}
	runs := 0
	for i, g := range gg {
		if i > 0 && g <= gg[i-1] {
			r.fail("coverage glyph %d after %d", g, gg[i-1])
		}
		if i == 0 || int(g) != int(gg[i-1])+1 {
			runs++
		}
	}
	size := 4 + 2*n
	if format == 2 {
		size = 4 + 6*n
	}
	best := 4 + min(2*len(gg), 6*runs)
	if size != best {
		r.fail("coverage table uses %d bytes (format %d), the other format %d", size, format, best)
	}
	return gg
}

func (r *gtRd) covTable(p, n int) coverage.Table {
	gg := r.cov(p)
	if n >= 0 && len(gg) != n {
		r.fail("%d covered glyphs for %d entries", len(gg), n)
	}
	t := coverage.Table{}
	for i, g := range gg {
		t[g] = i
	}
	return t
}

func (r *gtRd) covSet(p int) coverage.Set {
	t := coverage.Set{}
	for _, g := range r.cov(p) {
		t[g] = true
	}
	return t
}

func refClassSizes(t map[glyph.ID]uint16) int {
	lo, hi := 65536, -1
	for g, c := range t {
		if c != 0 {
			lo, hi = min(lo, int(g)), max(hi, int(g))
		}
	}
	if hi < 0 {
		return 4
	}
	segs := 0
	for g := lo; g <= hi; g++ {
		c := t[glyph.ID(g)]
		if c != 0 && (g == lo || t[glyph.ID(g-1)] != c) {
			segs++
		}
	}
	f1 := 6 + 2*(hi-lo+1)
	f2 := 4 + 6*segs
	if hi-lo+1 > 0xFFFF {
		return f2
	}
	return min(f1, f2)
}

// classes decodes a class definition table.
func (r *gtRd) classes(p int) classdef.Table {
	t := classdef.Table{}
	var size int
	switch format := r.u16(p); format {
	case 1:
		a, n := r.u16(p+2), r.u16(p+4)
		if a+n > 65536 {
			r.fail("class definition for %d glyphs from %d", n, a)
		}
		for i := 0; i < n; i++ {
			if c := r.u16(p + 6 + 2*i); c != 0 {
				t[glyph.ID(a+i)] = uint16(c)
			}
		}
		size = 6 + 2*n
	case 2:
		n := r.u16(p + 2)
		prev := -1
		for i := 0; i < n; i++ {
			q := p + 4 + 6*i
			a, b, c := r.u16(q), r.u16(q+2), r.u16(q+4)
			if a <= prev || b < a {
				r.fail("class range %d-%d after %d", a, b, prev)
			}
			prev = b
			if c != 0 {
				for g := a; g <= b; g++ {
					t[glyph.ID(g)] = uint16(c)
				}
			}
		}
		size = 4 + 6*n
	default:
		r.fail("class definition format %d", format)
	}
	if best := refClassSizes(t); size != best {
		r.fail("class definition uses %d bytes, %d are possible", size, best)
	}
	return t
}

func (r *gtRd) value(p *int, format int) *gtab.GposValueRecord {
	if format > 0xFF {
		r.fail("value format %04x", format)
	}
	if format == 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	next := func(bit int) int {
		if format&bit == 0 {
			return 0
		}
		*p += 2
		return r.u16(*p - 2)
	}
	v.XPlacement = funit.Int16(next(1))
	v.YPlacement = funit.Int16(next(2))
	v.XAdvance = funit.Int16(next(4))
	v.YAdvance = funit.Int16(next(8))
	v.XPlacementDevOffs = uint16(next(0x10))
	v.YPlacementDevOffs = uint16(next(0x20))
	v.XAdvanceDevOffs = uint16(next(0x40))
	v.YAdvanceDevOffs = uint16(next(0x80))
	return v
}

func (r *gtRd) anchor(p int) anchor.Table {
	if f := r.u16(p); f != 1 {
		r.fail("anchor format %d", f)
	}
	return anchor.Table{X: funit.Int16(r.u16(p + 2)), Y: funit.Int16(r.u16(p + 4))}
}

func (r *gtRd) anchorOpt(base, p, header int) anchor.Table {
	if r.u16(p) == 0 {
		return anchor.Table{}
	}
	return r.anchor(r.off(base, p, header))
}

func (r *gtRd) marks(p, n, classes int) []markarray.Record {
	k := r.u16(p)
	if k != n {
		r.fail("%d mark records for %d marks", k, n)
	}
	var res []markarray.Record
	for i := 0; i < k; i++ {
		rec := markarray.Record{Class: uint16(r.u16(p + 2 + 4*i))}
		rec.Table = r.anchor(r.off(p, p+4+4*i, 2+4*k))
		res = append(res, rec)
	}
	return res
}

func (r *gtRd) actions(p, n int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for i := 0; i < n; i++ {
		res = append(res, gtab.SeqLookup{
			SequenceIndex:   uint16(r.u16(p + 4*i)),
			LookupListIndex: gtab.LookupIndex(r.u16(p + 4*i + 2)),
		})
	}
	return res
}

// rules calls f for every rule of an array of rule sets; base is the start of
// the subtable, p the position of the count and array of offsets.  The
// function must return the end of the data of the rule.
func (r *gtRd) rules(base, p int, set func(n int), rule func(p int)) int {
	n := r.u16(p)
	set(n)
	for i := 0; i < n; i++ {
		if r.u16(p+2+2*i) == 0 {
			set(-1)
			continue
		}
		q := r.off(base, p+2+2*i, p+2+2*n-base)
		k := r.u16(q)
		set(-1)
		for j := 0; j < k; j++ {
			rule(r.off(q, q+2+2*j, 2+2*k))
		}
	}
	return n
}

func (r *gtRd) context(p, format int) gtab.Subtable {
	switch format {
	case 1:
		st := &gtab.SeqContext1{}
		n := r.rules(p, p+4, func(n int) {
			if n < 0 {
				st.Rules = append(st.Rules, nil)
			}
		}, func(q int) {
			k, m := r.u16(q), r.u16(q+2)
			if k == 0 {
				r.fail("rule without input")
			}
			i := len(st.Rules) - 1
			st.Rules[i] = append(st.Rules[i], &gtab.SeqRule{Input: r.gids(q+4, k-1), Actions: r.actions(q+2+2*k, m)})
		})
		st.Cov = r.covTable(r.off(p, p+2, 6+2*n), n)
		return st
	case 2:
		st := &gtab.SeqContext2{}
		n := r.rules(p, p+6, func(n int) {
			if n < 0 {
				st.Rules = append(st.Rules, nil)
			}
		}, func(q int) {
			k, m := r.u16(q), r.u16(q+2)
			if k == 0 {
				r.fail("rule without input")
			}
			i := len(st.Rules) - 1
			st.Rules[i] = append(st.Rules[i], &gtab.ClassSeqRule{Input: r.u16s(q+4, k-1), Actions: r.actions(q+2+2*k, m)})
		})
		st.Cov = r.covTable(r.off(p, p+2, 8+2*n), -1)
		st.Input = r.classes(r.off(p, p+4, 8+2*n))
		return st
	case 3:
		n, m := r.u16(p+2), r.u16(p+4)
		if n == 0 {
			r.fail("context without input")
		}
		st := &gtab.SeqContext3{}
		for i := 0; i < n; i++ {
			st.Input = append(st.Input, r.covSet(r.off(p, p+6+2*i, 6+2*n+4*m)))
		}
		st.Actions = r.actions(p+6+2*n, m)
		return st
	}
	r.fail("context format %d", format)
	return nil
}

func (r *gtRd) chained(p, format int) gtab.Subtable {
	// parts reads backtrack, input (without the first glyph) and lookahead
	parts := func(q int, seq func(part, p, n int)) []gtab.SeqLookup {
		n := r.u16(q)
		seq(0, q+2, n)
		q += 2 + 2*n
		n = r.u16(q)
		if n == 0 {
			r.fail("rule without input")
		}
		seq(1, q+2, n-1)
		q += 2 + 2*(n-1)
		n = r.u16(q)
		seq(2, q+2, n)
		q += 2 + 2*n
		return r.actions(q+2, r.u16(q))
	}
	switch format {
	case 1:
		st := &gtab.ChainedSeqContext1{}
		n := r.rules(p, p+4, func(n int) {
			if n < 0 {
				st.Rules = append(st.Rules, nil)
			}
		}, func(q int) {
			var pp [3][]glyph.ID
			acts := parts(q, func(k, p, n int) { pp[k] = r.gids(p, n) })
			i := len(st.Rules) - 1
			st.Rules[i] = append(st.Rules[i], &gtab.ChainedSeqRule{Backtrack: pp[0], Input: pp[1], Lookahead: pp[2], Actions: acts})
		})
		st.Cov = r.covTable(r.off(p, p+2, 6+2*n), n)
		return st
	case 2:
		st := &gtab.ChainedSeqContext2{}
		n := r.rules(p, p+10, func(n int) {
			if n < 0 {
				st.Rules = append(st.Rules, nil)
			}
		}, func(q int) {
			var pp [3][]uint16
			acts := parts(q, func(k, p, n int) { pp[k] = r.u16s(p, n) })
			i := len(st.Rules) - 1
			st.Rules[i] = append(st.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: pp[0], Input: pp[1], Lookahead: pp[2], Actions: acts})
		})
		st.Cov = r.covTable(r.off(p, p+2, 12+2*n), -1)
		st.Backtrack = r.classes(r.off(p, p+4, 12+2*n))
		st.Input = r.classes(r.off(p, p+6, 12+2*n))
		st.Lookahead = r.classes(r.off(p, p+8, 12+2*n))
		return st
	case 3:
		st := &gtab.ChainedSeqContext3{}
		q := p + 2
		var offs [3][]int
		for k := range offs {
			n := r.u16(q)
			for i := 0; i < n; i++ {
				offs[k] = append(offs[k], q+2+2*i)
			}
			q += 2 + 2*n
		}
		m := r.u16(q)
		st.Actions = r.actions(q+2, m)
		q += 2 + 4*m
		for k, dst := range []*[]coverage.Set{&st.Backtrack, &st.Input, &st.Lookahead} {
			for _, o := range offs[k] {
				*dst = append(*dst, r.covSet(r.off(p, o, q-p)))
			}
		}
		return st
	}
	r.fail("chained context format %d", format)
	return nil
}

func (r *gtRd) gsub(p, tp int) gtab.Subtable {
	format := r.u16(p)
	if tp != 1 && tp != 5 && tp != 6 && format != 1 {
		r.fail("GSUB %d format %d", tp, format)
	}
	list := func(q int) []glyph.ID { return r.gids(q+2, r.u16(q)) }
	switch tp {
	case 1:
		switch format {
		case 1:
			return &gtab.Gsub1_1{Cov: r.covSet(r.off(p, p+2, 6)), Delta: r.gid(p + 4)}
		case 2:
			n := r.u16(p + 4)
			return &gtab.Gsub1_2{Cov: r.covTable(r.off(p, p+2, 6+2*n), n), SubstituteGlyphIDs: r.gids(p+6, n)}
		}
		r.fail("GSUB 1 format %d", format)
	case 2, 3:
		n := r.u16(p + 4)
		cov := r.covTable(r.off(p, p+2, 6+2*n), n)
		var repl [][]glyph.ID
		for i := 0; i < n; i++ {
			repl = append(repl, list(r.off(p, p+6+2*i, 6+2*n)))
		}
		if tp == 2 {
			return &gtab.Gsub2_1{Cov: cov, Repl: repl}
		}
		return &gtab.Gsub3_1{Cov: cov, Alternates: repl}
	case 4:
		n := r.u16(p + 4)
		st := &gtab.Gsub4_1{Cov: r.covTable(r.off(p, p+2, 6+2*n), n), Repl: make([][]gtab.Ligature, n)}
		for i := range st.Repl {
			q := r.off(p, p+6+2*i, 6+2*n)
			k := r.u16(q)
			for j := 0; j < k; j++ {
				s := r.off(q, q+2+2*j, 2+2*k)
				m := r.u16(s + 2)
				if m == 0 {
					r.fail("ligature without components")
				}
				st.Repl[i] = append(st.Repl[i], gtab.Ligature{In: r.gids(s+4, m-1), Out: r.gid(s)})
			}
		}
		return st
	case 5:
		return r.context(p, format)
	case 6:
		return r.chained(p, format)
	case 8:
		st := &gtab.Gsub8_1{}
		q := p + 4
		nb := r.u16(q)
		na := r.u16(q + 2 + 2*nb)
		no := r.u16(q + 4 + 2*nb + 2*na)
		header := 10 + 2*(nb+na+no)
		for i := 0; i < nb; i++ {
			st.Backtrack = append(st.Backtrack, r.covTable(r.off(p, q+2+2*i, header), -1))
		}
		for i := 0; i < na; i++ {
			st.Lookahead = append(st.Lookahead, r.covTable(r.off(p, q+4+2*nb+2*i, header), -1))
		}
		st.SubstituteGlyphIDs = r.gids(q+6+2*nb+2*na, no)
		st.Input = r.covTable(r.off(p, p+2, header), no)
		return st
	}
	r.fail("GSUB lookup type %d", tp)
	return nil
}

func (r *gtRd) gposSub(p, tp int) gtab.Subtable {
	format := r.u16(p)
	if tp > 2 && tp < 7 && format != 1 {
		r.fail("GPOS %d format %d", tp, format)
	}
	switch tp {
	case 1:
		vf := r.u16(p + 4)
		switch format {
		case 1:
			q := p + 6
			v := r.value(&q, vf)
			return &gtab.Gpos1_1{Cov: r.covTable(r.off(p, p+2, q-p), -1), Adjust: v}
		case 2:
			st := &gtab.Gpos1_2{}
			q := p + 8
			n := r.u16(p + 6)
			for i := 0; i < n; i++ {
				st.Adjust = append(st.Adjust, r.value(&q, vf))
			}
			st.Cov = r.covTable(r.off(p, p+2, q-p), n)
			return st
		}
		r.fail("GPOS 1 format %d", format)
	case 2:
		vf1, vf2 := r.u16(p+4), r.u16(p+6)
		switch format {
		case 1:
			n := r.u16(p + 8)
			gg := r.cov(r.off(p, p+2, 10+2*n))
			if len(gg) != n {
				r.fail("%d pair sets for %d glyphs", n, len(gg))
			}
			st := gtab.Gpos2_1{}
			for i, g := range gg {
				q := r.off(p, p+10+2*i, 10+2*n)
				k := r.u16(q)
				q += 2
				prev := -1
				for j := 0; j < k; j++ {
					h := r.u16(q)
					if h <= prev {
						r.fail("second glyph %d after %d", h, prev)
					}
					prev = h
					q += 2
					v1 := r.value(&q, vf1)
					v2 := r.value(&q, vf2)
					st[glyph.Pair{Left: g, Right: glyph.ID(h)}] = &gtab.PairAdjust{First: v1, Second: v2}
				}
			}
			return st
		case 2:
			st := &gtab.Gpos2_2{}
			n1, n2 := r.u16(p+12), r.u16(p+14)
			q := p + 16
			for i := 0; i < n1; i++ {
				var row []*gtab.PairAdjust
				for j := 0; j < n2; j++ {
					v1 := r.value(&q, vf1)
					v2 := r.value(&q, vf2)
					row = append(row, &gtab.PairAdjust{First: v1, Second: v2})
				}
				st.Adjust = append(st.Adjust, row)
			}
			st.Cov = r.covSet(r.off(p, p+2, q-p))
			st.Class1 = r.classes(r.off(p, p+8, q-p))
			st.Class2 = r.classes(r.off(p, p+10, q-p))
			return st
		}
		r.fail("GPOS 2 format %d", format)
	case 3:
		n := r.u16(p + 4)
		st := &gtab.Gpos3_1{Cov: r.covTable(r.off(p, p+2, 6+4*n), n)}
		for i := 0; i < n; i++ {
			st.Records = append(st.Records, gtab.EntryExitRecord{
				Entry: r.anchorOpt(p, p+6+4*i, 6+4*n),
				Exit:  r.anchorOpt(p, p+8+4*i, 6+4*n),
			})
		}
		return st
	case 4, 5, 6:
		nc := r.u16(p + 6)
		c1 := r.covTable(r.off(p, p+2, 12), -1)
		c2 := r.covTable(r.off(p, p+4, 12), -1)
		marks := r.marks(r.off(p, p+8, 12), len(c1), nc)
		q := r.off(p, p+10, 12)
		n := r.u16(q)
		if n != len(c2) {
			r.fail("%d base records for %d glyphs", n, len(c2))
		}
		rows := func(q, header, n int) [][]anchor.Table {
			var res [][]anchor.Table
			for i := 0; i < n; i++ {
				row := make([]anchor.Table, nc)
				for j := range row {
					row[j] = r.anchorOpt(q, q+2+2*(i*nc+j), 2+2*n*nc)
				}
				res = append(res, row)
			}
			return res
		}
		switch tp {
		case 4:
			return &gtab.Gpos4_1{MarkCov: c1, BaseCov: c2, MarkArray: marks, BaseArray: rows(q, 2, n)}
		case 6:
			return &gtab.Gpos6_1{Mark1Cov: c1, Mark2Cov: c2, Mark1Array: marks, Mark2Array: rows(q, 2, n)}
		}
		st := &gtab.Gpos5_1{MarkCov: c1, LigCov: c2, MarkArray: marks}
		for i := 0; i < n; i++ {
			s := r.off(q, q+2+2*i, 2+2*n)
			st.LigArray = append(st.LigArray, rows(s, 2, r.u16(s)))
		}
		return st
	case 7:
		return r.context(p, format)
	case 8:
		return r.chained(p, format)
	}
	r.fail("GPOS lookup type %d", tp)
	return nil
}

type refGtabTable struct {
	Scripts  []refLangSys
	Features gtab.FeatureListInfo
	Lookups  gtab.LookupList
	Ext      int // number of extension subtables
}

// refGtab decodes a GSUB or GPOS table.
func refGtab(b []byte, gpos bool) (res *refGtabTable, err error) {
	r := &gtRd{b: b, gpos: gpos}
	defer func() {
		if e := recover(); e != nil {
			ge, ok := e.(gtErr)
			if !ok {
				panic(e)
			}
			res, err = nil, fmt.Errorf("%s", string(ge))
		}
	}()
	if r.u32(0) != 0x00010000 {
		r.fail("version %08x", r.u32(0))
	}
	res = &refGtabTable{}
	if r.u16(4) == 0 && r.u16(6) == 0 && r.u16(8) == 0 {
		return res, nil
	}
	// Missing lists are allowed only if the other lists are empty, too.
	list := func(p int) int {
		if r.u16(p) == 0 {
			return -1
		}
		return r.off(0, p, 10)
	}
	count := func(p int) int {
		if p < 0 {
			return 0
		}
		return r.u16(p)
	}
	sl := list(4)
	for i := 0; i < count(sl); i++ {
		r.off(sl, sl+6+6*i, 2+6*r.u16(sl))
	}
	scripts, err := refScriptList(b)
	if err != nil {
		return nil, err
	}
	res.Scripts = scripts

	fl := list(6)
	n := count(fl)
	for i := 0; i < n; i++ {
		p := fl + 2 + 6*i
		tag := cat(be16(r.u16(p)), be16(r.u16(p+2)))
		q := r.off(fl, p+4, 2+6*n)
		f := &gtab.Feature{Tag: string(tag)}
		if r.u16(q) != 0 {
			r.fail("feature parameters")
		}
		k := r.u16(q + 2)
		for j := 0; j < k; j++ {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(r.u16(q+4+2*j)))
		}
		res.Features = append(res.Features, f)
	}

	ll := list(8)
	n = count(ll)
	for i := 0; i < n; i++ {
		p := r.off(ll, ll+2+2*i, 2+2*n)
		tp, flags, k := r.u16(p), r.u16(p+2), r.u16(p+4)
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp), LookupFlags: gtab.LookupFlags(flags)}}
		header := 6 + 2*k
		if flags&0x10 != 0 {
			l.Meta.MarkFilteringSet = uint16(r.u16(p + header))
			header += 2
		}
		extType := 7
		if gpos {
			extType = 9
		}
		for j := 0; j < k; j++ {
			q := r.off(p, p+6+2*j, header)
			t := tp
			if tp == extType {
				if r.u16(q) != 1 {
					r.fail("extension format %d", r.u16(q))
				}
				t = r.u16(q + 2)
				o := r.u32(q + 4)
				if o < 8 {
					r.fail("extension offset %d", o)
				}
				if t == extType || j > 0 && t != int(l.Meta.LookupType) {
					r.fail("extension lookup type %d", t)
				}
				l.Meta.LookupType = uint16(t)
				q += o
				res.Ext++
			}
			if gpos {
				l.Subtables = append(l.Subtables, r.gposSub(q, t))
			} else {
				l.Subtables = append(l.Subtables, r.gsub(q, t))
			}
		}
		res.Lookups = append(res.Lookups, l)
	}
	if (sl < 0 || fl < 0 || ll < 0) && count(sl)+count(fl)+count(ll) > 0 {
		r.fail("missing list")
	}
	return res, nil
}

// refGdef decodes a GDEF table.
func refGdef(b []byte) (res *gdef.Table, err error) {
	r := &gtRd{b: b}
	defer func() {
		if e := recover(); e != nil {
			ge, ok := e.(gtErr)
			if !ok {
				panic(e)
			}
			res, err = nil, fmt.Errorf("%s", string(ge))
		}
	}()
	version := r.u32(0)
	header := 12
	switch version {
	case 0x00010000:
	case 0x00010002:
		header = 14
	case 0x00010003:
		header = 18
	default:
		r.fail("version %08x", version)
	}
	res = &gdef.Table{}
	if r.u16(4) != 0 {
		res.GlyphClass = r.classes(r.off(0, 4, header))
	}
	if r.u16(6) != 0 || r.u16(8) != 0 {
		r.fail("unexpected attachment or caret list")
	}
	if r.u16(10) != 0 {
		res.MarkAttachClass = r.classes(r.off(0, 10, header))
	}
	if version >= 0x00010002 && r.u16(12) != 0 {
		p := r.off(0, 12, header)
		if r.u16(p) != 1 {
			r.fail("mark glyph sets format %d", r.u16(p))
		}
		n := r.u16(p + 2)
		res.MarkGlyphSets = []coverage.Set{}
		for i := 0; i < n; i++ {
			o := r.u32(p + 4 + 4*i)
			if o < 4+4*n {
				r.fail("mark glyph set offset %d", o)
			}
			res.MarkGlyphSets = append(res.MarkGlyphSets, r.covSet(p+o))
		}
	}
	return res, nil
}

func refCovSize(gg []glyph.ID) int {
	runs := 0
	for i, g := range gg {
		if i == 0 || int(g) != int(gg[i-1])+1 {
			runs++
		}
	}
	return 4 + min(2*len(gg), 6*runs)
}

// refSubSize returns the number of bytes needed for a subtable, without
// sharing of data.
func refSubSize(st gtab.Subtable) int {
	cov := func(t coverage.Table) int { return refCovSize(t.Glyphs()) }
	covs := func(tt []coverage.Table) (n int) {
		for _, t := range tt {
			n += 2 + cov(t)
		}
		return
	}
	sets := func(tt []coverage.Set) (n int) {
		for _, t := range tt {
			n += 2 + refCovSize(t.Glyphs())
		}
		return
	}
	bits := func(v *gtab.GposValueRecord) int {
		if v == nil {
			return 0
		}
		f := 0
		for i, x := range []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance), int(v.YAdvance),
			int(v.XPlacementDevOffs), int(v.YPlacementDevOffs), int(v.XAdvanceDevOffs), int(v.YAdvanceDevOffs)} {
			if x != 0 {
				f |= 1 << i
			}
		}
		if f == 0 {
			f = 1
		}
		return f
	}
	size := func(f int) (n int) {
		for ; f != 0; f &= f - 1 {
			n += 2
		}
		return
	}
	anchors := func(rows [][]anchor.Table) int {
		n := 2
		for _, row := range rows {
			for _, a := range row {
				n += 2
				if a != (anchor.Table{}) {
					n += 6
				}
			}
		}
		return n
	}
	n := 0
	switch st := st.(type) {
	case *gtab.Gsub1_1:
		return 6 + refCovSize(st.Cov.Glyphs())
	case *gtab.Gsub1_2:
		return 6 + 2*len(st.SubstituteGlyphIDs) + cov(st.Cov)
	case *gtab.Gsub2_1:
		for _, r := range st.Repl {
			n += 4 + 2*len(r)
		}
		return 6 + n + cov(st.Cov)
	case *gtab.Gsub3_1:
		for _, r := range st.Alternates {
			n += 4 + 2*len(r)
		}
		return 6 + n + cov(st.Cov)
	case *gtab.Gsub4_1:
		for _, r := range st.Repl {
			n += 4
			for _, l := range r {
				n += 6 + 2*len(l.In)
			}
		}
		return 6 + n + cov(st.Cov)
	case *gtab.Gsub8_1:
		return 10 + cov(st.Input) + covs(st.Backtrack) + covs(st.Lookahead) + 2*len(st.SubstituteGlyphIDs)
	case *gtab.SeqContext1:
		for _, rr := range st.Rules {
			n += 4
			for _, r := range rr {
				n += 6 + 2*len(r.Input) + 4*len(r.Actions)
			}
		}
		return 6 + n + cov(st.Cov)
	case *gtab.SeqContext2:
		for _, rr := range st.Rules {
			n += 4
			for _, r := range rr {
				n += 6 + 2*len(r.Input) + 4*len(r.Actions)
			}
		}
		return 8 + n + cov(st.Cov) + refClassSizes(st.Input)
	case *gtab.SeqContext3:
		return 6 + sets(st.Input) + 4*len(st.Actions)
	case *gtab.ChainedSeqContext1:
		for _, rr := range st.Rules {
			n += 4
			for _, r := range rr {
				n += 10 + 2*len(r.Input) + 2*len(r.Backtrack) + 2*len(r.Lookahead) + 4*len(r.Actions)
			}
		}
		return 6 + n + cov(st.Cov)
	case *gtab.ChainedSeqContext2:
		for _, rr := range st.Rules {
			n += 4
			for _, r := range rr {
				n += 10 + 2*len(r.Input) + 2*len(r.Backtrack) + 2*len(r.Lookahead) + 4*len(r.Actions)
			}
		}
		return 12 + n + cov(st.Cov) + refClassSizes(st.Input) + refClassSizes(st.Backtrack) + refClassSizes(st.Lookahead)
	case *gtab.ChainedSeqContext3:
		return 10 + sets(st.Input) + sets(st.Backtrack) + sets(st.Lookahead) + 4*len(st.Actions)
	case *gtab.Gpos1_1:
		return 6 + size(bits(st.Adjust)) + cov(st.Cov)
	case *gtab.Gpos1_2:
		f := 0
		for _, v := range st.Adjust {
			f |= bits(v)
		}
		return 8 + len(st.Adjust)*size(f) + cov(st.Cov)
	case gtab.Gpos2_1:
		f1, f2 := 0, 0
		left := coverage.Set{}
		for p, a := range st {
			f1 |= bits(a.First)
			f2 |= bits(a.Second)
			left[p.Left] = true
		}
		return 10 + 4*len(left) + len(st)*(2+size(f1)+size(f2)) + refCovSize(left.Glyphs())
	case *gtab.Gpos2_2:
		f1, f2 := 0, 0
		for _, row := range st.Adjust {
			for _, a := range row {
				f1 |= bits(a.First)
				f2 |= bits(a.Second)
				n++
			}
		}
		return 16 + n*(size(f1)+size(f2)) + refCovSize(st.Cov.Glyphs()) + refClassSizes(st.Class1) + refClassSizes(st.Class2)
	case *gtab.Gpos3_1:
		for _, r := range st.Records {
			n += 4
			if r.Entry != (anchor.Table{}) {
				n += 6
			}
			if r.Exit != (anchor.Table{}) {
				n += 6
			}
		}
		return 6 + n + cov(st.Cov)
	case *gtab.Gpos4_1:
		return 12 + cov(st.MarkCov) + cov(st.BaseCov) + 2 + 10*len(st.MarkArray) + anchors(st.BaseArray)
	case *gtab.Gpos6_1:
		return 12 + cov(st.Mark1Cov) + cov(st.Mark2Cov) + 2 + 10*len(st.Mark1Array) + anchors(st.Mark2Array)
	case *gtab.Gpos5_1:
		n = 2
		for _, l := range st.LigArray {
			n += 2 + anchors(l)
		}
		return 12 + cov(st.MarkCov) + cov(st.LigCov) + 2 + 10*len(st.MarkArray) + n
	}
	panic(fmt.Sprintf("%T", st))
}
