package checks

import (
	"bytes"
	"fmt"

	"verif/mc/explore"
)

// c02GtabFile wraps lookups in a minimal GSUB or GPOS table.  All subtable
// offsets of a lookup are sent to the same subtable, and all lookups share
// one lookup table.
func c02GtabFile(tp, nLookups, nSub int, sub []byte) []byte {
	head := be16(1, 0, 10, 12, 14)
	lists := be16(0, 0)
	ll := be16(nLookups)
	pos := 2 + 2*nLookups
	for range nLookups {
		ll = append(ll, be16(pos)...)
	}
	ll = append(ll, be16(tp, 0, nSub)...)
	for range nSub {
		ll = append(ll, be16(6+2*nSub)...)
	}
	return cat(head, lists, ll, sub)
}

// rep16 returns the words, repeated n times.
func rep16(n int, words ...int) []byte { return bytes.Repeat(be16(words...), n) }

// covRange encodes a coverage table (or set) for the glyphs 0, ..., n-1.
func c02Cov(n int) []byte { return be16(2, 1, 0, n-1, 0) }

func c02Class(n, class int) []byte { return be16(2, 1, 0, n-1, class) }

// c02Bomb is a family of inputs of increasing size.
type c02Bomb struct {
	dec  string
	name string
	mk   func(n int) []byte // n is in the range 1..65536
}

const c02GSUB, c02GPOS = "gtab.Read(GSUB)", "gtab.Read(GPOS)"

func c02Bombs() []c02Bomb {
	var res []c02Bomb
	add := func(dec, name string, mk func(n int) []byte) {
		res = append(res, c02Bomb{dec, name, mk})
	}

	// one big subtable per type, where all the offsets of one level agree
	type sub struct {
		gpos bool
		tp   int
		name string
		mk   func(n int) []byte
	}
	var subs []sub
	s := func(gpos bool, tp int, name string, mk func(n int) []byte) {
		subs = append(subs, sub{gpos, tp, name, mk})
	}
	lim := func(n, m int) int { return min(n, m) }
	s(false, 1, "1.1", func(n int) []byte { return cat(be16(1, 6, 5), c02Cov(n)) })
	s(false, 1, "1.2", func(n int) []byte {
		n = lim(n, 32000)
		return cat(be16(2, 6+2*n, n), rep16(n, 7), c02Cov(n))
	})
	s(false, 1, "1.2 pruned", func(n int) []byte { return cat(be16(2, 8, 1, 5), c02Cov(n)) })
	for tp := 2; tp <= 3; tp++ {
		s(false, tp, "multiple", func(n int) []byte {
			n = lim(n, 32000)
			// n sequences, all equal to one of n glyphs
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 3))
		})
		s(false, tp, "short sequences", func(n int) []byte {
			n = lim(n, 32000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(2, 3, 4))
		})
		s(false, tp, "empty sequences", func(n int) []byte {
			n = lim(n, 32000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(0))
		})
	}
	s(false, 4, "ligature sets", func(n int) []byte {
		n = lim(n, 20000)
		// n sets, which are all the same, with n ligatures, which are all
		// the same, with n components
		return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(9, n), rep16(n, 3))
	})
	s(false, 4, "ligature sets 2", func(n int) []byte {
		n = lim(n, 20000)
		return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(9, 1))
	})
	s(false, 4, "no components", func(n int) []byte {
		n = lim(n, 20000)
		return cat(be16(1, 8, 1, 18), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(9, 0), rep16(65535, 3))
	})
	s(false, 4, "no components, no data", func(n int) []byte {
		n = lim(n, 20000)
		return cat(be16(1, 8, 1, 18), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(9, 0))
	})
	s(false, 4, "overlapping sets", func(n int) []byte {
		n = lim(n, 20000)
		return cat(be16(1, 6+2*n, n), rep16(n, 4), be16(2, 1, 0, n-1, 0))
	})
	s(false, 8, "reverse", func(n int) []byte {
		n = lim(n, 15000)
		// n backtrack coverage tables
		return cat(be16(1, 10+4*n, n), rep16(n, 10+4*n), be16(0, 1, 5), rep16(n, 0), c02Cov(1))
	})
	s(false, 8, "reverse, long coverage", func(n int) []byte {
		k := 2000
		return cat(be16(1, 10+2*k, k), rep16(k, 10+2*k), be16(0, 1, 5), c02Cov(n))
	})
	s(false, 8, "reverse, substitutes", func(n int) []byte {
		n = lim(n, 30000)
		return cat(be16(1, 10+2*n, 0, 0, n), rep16(n, 5), c02Cov(n))
	})
	for _, gpos := range []bool{false, true} {
		ctx, chain := 5, 6
		if gpos {
			ctx, chain = 7, 8
		}
		s(gpos, ctx, "context 1", func(n int) []byte {
			n = lim(n, 15000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(n, 1), rep16(n-1, 3), be16(0, 0))
		})
		s(gpos, ctx, "context 1, short rules", func(n int) []byte {
			n = lim(n, 15000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(1, 0))
		})
		s(gpos, ctx, "context 1, one set", func(n int) []byte {
			n = lim(n, 30000)
			return cat(be16(1, 8, 1, 18), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(1, n), rep16(n, 0, 0))
		})
		s(gpos, ctx, "context 1, no sets", func(n int) []byte {
			n = lim(n, 30000)
			return cat(be16(1, 6+2*n, n), rep16(n, 0), c02Cov(n))
		})
		s(gpos, ctx, "context 2", func(n int) []byte {
			n = lim(n, 15000)
			// the class definition has n classes, if n is small
			return cat(be16(2, 18+2*n, 8+2*n, n), rep16(n, 28+2*n), c02Class(1, n), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(n, 1), rep16(n-1, 3), be16(0, 0))
		})
		s(gpos, ctx, "context 2, long class", func(n int) []byte {
			return cat(be16(2, 20, 10, 1, 30), c02Class(n, 1), c02Cov(n), be16(1, 4, 1, 0))
		})
		s(gpos, ctx, "context 2, no sets", func(n int) []byte {
			k := lim(n, 30000)
			return cat(be16(2, 18+2*k, 8+2*k, k), rep16(k, 0), c02Class(n, k), c02Cov(n))
		})
		s(gpos, ctx, "context 3", func(n int) []byte {
			k := lim(n, 30000)
			return cat(be16(3, k, 0), rep16(k, 6+2*k), c02Cov(1))
		})
		s(gpos, ctx, "context 3, long coverage", func(n int) []byte {
			k := 2000
			return cat(be16(3, k, 0), rep16(k, 6+2*k), c02Cov(n))
		})
		s(gpos, chain, "chain 1", func(n int) []byte {
			n = lim(n, 7000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(n), rep16(n, 3), be16(n), rep16(n-1, 3), be16(n), rep16(n, 3), be16(1, 0, 0))
		})
		s(gpos, chain, "chain 1, short rules", func(n int) []byte {
			n = lim(n, 15000)
			return cat(be16(1, 6+2*n, n), rep16(n, 16+2*n), c02Cov(n), be16(n), rep16(n, 2+2*n), be16(0, 1, 0, 0))
		})
		s(gpos, chain, "chain 1, no input", func(n int) []byte {
			n = lim(n, 15000)
			return cat(be16(1, 8, 1, 18), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(0, 0), rep16(65535, 0), be16(0, 0))
		})
		s(gpos, chain, "chain 2", func(n int) []byte {
			n = lim(n, 7000)
			return cat(be16(2, 22+2*n, 12+2*n, 12+2*n, 12+2*n, n), rep16(n, 32+2*n), c02Class(1, n), c02Cov(1), be16(n), rep16(n, 2+2*n), be16(n), rep16(n, 3), be16(n), rep16(n-1, 3), be16(n), rep16(n, 3), be16(1, 0, 0))
		})
		s(gpos, chain, "chain 2, long classes", func(n int) []byte {
			return cat(be16(2, 24, 14, 14, 14, 1, 34), c02Class(n, 1), c02Cov(n), be16(1, 4, 0, 1, 0, 0))
		})
		s(gpos, chain, "chain 2, many sets", func(n int) []byte {
			k := lim(n, 15000)
			return cat(be16(2, 22+2*k, 12+2*k, 12+2*k, 12+2*k, k), rep16(k, 32+2*k), c02Class(n, k), c02Cov(n), be16(1, 4, 0, 1, 0, 0))
		})
		s(gpos, chain, "chain 3", func(n int) []byte {
			k := lim(n, 10000)
			return cat(be16(3, k), rep16(k, 10+6*k), be16(k), rep16(k, 10+6*k), be16(k), rep16(k, 10+6*k), be16(0), c02Cov(1))
		})
		s(gpos, chain, "chain 3, long coverage", func(n int) []byte {
			k := 2000
			return cat(be16(3, 0, k), rep16(k, 10+2*k), be16(0, 0), c02Cov(n))
		})
	}
	s(true, 1, "1.1", func(n int) []byte { return cat(be16(1, 8, 4, 50), c02Cov(n)) })
	s(true, 1, "1.2", func(n int) []byte {
		n = lim(n, 30000)
		return cat(be16(2, 8+2*n, 4, n), rep16(n, 50), c02Cov(n))
	})
	s(true, 1, "1.2 no values", func(n int) []byte { return cat(be16(2, 8, 0, n), c02Cov(n)) })
	s(true, 2, "pairs 1", func(n int) []byte {
		n = lim(n, 15000)
		return cat(be16(1, 10+2*n, 4, 0, n), rep16(n, 20+2*n), c02Cov(n), be16(n), rep16(n, 3, 50))
	})
	s(true, 2, "pairs 1, different glyphs", func(n int) []byte {
		n = lim(n, 15000)
		b := cat(be16(1, 10+2*n, 4, 0, n), rep16(n, 20+2*n), c02Cov(n), be16(n))
		for i := range n {
			b = append(b, be16(i, 50)...)
		}
		return b
	})
	s(true, 2, "pairs 1, no values", func(n int) []byte {
		n = lim(n, 15000)
		b := cat(be16(1, 10+2*n, 0, 0, n), rep16(n, 20+2*n), c02Cov(n), be16(n))
		for i := range n {
			b = append(b, be16(i)...)
		}
		return b
	})
	s(true, 2, "pairs 1, empty", func(n int) []byte {
		n = lim(n, 15000)
		return cat(be16(1, 10+2*n, 0, 0, n), rep16(n, 20+2*n), c02Cov(n), be16(0))
	})
	s(true, 2, "pairs 2, no values", func(n int) []byte {
		return cat(be16(2, 26, 0, 0, 16, 16, 255, n/255), c02Class(1, 255), c02Cov(n))
	})
	s(true, 2, "pairs 2, no columns", func(n int) []byte {
		return cat(be16(2, 26, 0, 0, 16, 16, n, 0), c02Class(1, 255), c02Cov(1))
	})
	s(true, 2, "pairs 2, no rows", func(n int) []byte {
		return cat(be16(2, 26, 0, 0, 16, 16, 0, n), c02Class(1, 255), c02Cov(1))
	})
	s(true, 2, "pairs 2, many", func(n int) []byte {
		return cat(be16(2, 26, 0, 0, 16, 16, n, n), c02Class(1, 255), c02Cov(1))
	})
	s(true, 2, "pairs 2, long classes", func(n int) []byte {
		return cat(be16(2, 30, 4, 0, 20, 20, 1, 2, 5, 6), c02Class(n, 1), c02Cov(n))
	})
	s(true, 3, "cursive", func(n int) []byte {
		n = lim(n, 15000)
		return cat(be16(1, 6+4*n, n), rep16(2*n, 16+4*n), c02Cov(n), be16(1, 5, 6))
	})
	for tp := 4; tp <= 6; tp += 2 {
		s(true, tp, "mark", func(n int) []byte {
			n = lim(n, 8000)
			marks := cat(be16(n), rep16(n, 0, 2+4*n), be16(1, 5, 6))
			bases := cat(be16(n), rep16(n, 2+2*n), be16(1, 5, 6))
			return cat(be16(1, 12, 12, 1, 22, 22+len(marks)), c02Cov(n), marks, bases)
		})
		s(true, tp, "mark, many classes", func(n int) []byte {
			marks := cat(be16(1, 0, 6), be16(1, 5, 6))
			bases := cat(be16(0))
			return cat(be16(1, 12, 12, n, 22, 22+len(marks)), c02Cov(1), marks, bases)
		})
		s(true, tp, "mark, many classes 2", func(n int) []byte {
			n = lim(n, 25000)
			marks := cat(be16(1, 0, 6), be16(1, 5, 6))
			bases := cat(be16(1), rep16(n, 2+2*n), be16(1, 5, 6))
			return cat(be16(1, 12, 12, n, 22, 22+len(marks)), c02Cov(1), marks, bases)
		})
		s(true, tp, "mark, no classes", func(n int) []byte {
			marks := cat(be16(n), rep16(n, 0, 2+4*n), be16(1, 5, 6))
			return cat(be16(1, 12, 12, 0, 24, 22), c02Cov(n), be16(n), marks)
		})
	}
	s(true, 5, "ligatures", func(n int) []byte {
		n = lim(n, 10000)
		// n ligatures, all the same, with n components
		marks := be16(1, 0, 6, 1, 5, 6)
		ligs := cat(be16(n), rep16(n, 2+2*n), be16(n), rep16(n, 2+2*n), be16(1, 5, 6))
		return cat(be16(1, 12, 12, 1, 22, 22+len(marks)), c02Cov(n), marks, ligs)
	})
	s(true, 5, "ligatures, no classes", func(n int) []byte {
		k := lim(n, 25000)
		marks := be16(0)
		ligs := cat(be16(k), rep16(k, 2+2*k), be16(n))
		return cat(be16(1, 12, 12, 0, 22, 22+len(marks)), c02Cov(k), marks, ligs)
	})
	s(true, 5, "ligatures, null offsets", func(n int) []byte {
		n = lim(n, 10000)
		marks := be16(1, 0, 6, 1, 5, 6)
		ligs := cat(be16(n), rep16(n, 2+2*n), be16(n), rep16(n, 0))
		return cat(be16(1, 12, 12, 1, 22, 22+len(marks)), c02Cov(n), marks, ligs)
	})
	for _, x := range subs {
		dec, ext := c02GSUB, 7
		if x.gpos {
			dec, ext = c02GPOS, 9
		}
		add(dec, x.name+", one", func(n int) []byte { return c02GtabFile(x.tp, 1, 1, x.mk(n)) })
		add(dec, x.name+", shared subtables", func(n int) []byte { return c02GtabFile(x.tp, 1, 5990, x.mk(n)) })
		add(dec, x.name+", shared lookups", func(n int) []byte { return c02GtabFile(x.tp, 75, 75, x.mk(n)) })
		add(dec, x.name+", extension", func(n int) []byte {
			return c02GtabFile(ext, 1, 5990, cat(be16(1, x.tp), be32(8), x.mk(n)))
		})
	}
	for _, dec := range []string{c02GSUB, c02GPOS} {
		add(dec, "empty lookups", func(n int) []byte { n = lim(n, 30000); return c02GtabFile(1, n, 0, nil) })
		add(dec, "extension to itself", func(n int) []byte {
			ext := 7
			if dec == c02GPOS {
				ext = 9
			}
			return c02GtabFile(ext, 1, 5990, cat(be16(1, ext), be32(0)))
		})
		add(dec, "scripts", func(n int) []byte {
			n = lim(n, 10000)
			b := be16(n)
			for i := range n {
				b = append(b, []byte{'a' + byte(i&15), 'a' + byte(i>>4&15), 'a' + byte(i>>8&15), 'a' + byte(i>>12)}...)
				b = append(b, be16(2+6*n)...)
			}
			k := 900
			b = append(b, be16(4+6*k, k)...)
			for i := range k {
				b = append(b, []byte{'A' + byte(i&15), 'A' + byte(i>>4&15), 'A' + byte(i>>8&15), ' '}...)
				b = append(b, be16(4+6*k)...)
			}
			b = append(b, be16(0, 0, n)...)
			b = append(b, rep16(n, 1)...)
			b = append(be16(1, 0, 14, 10, 12), cat(be16(0, 0), b)...)
			return b
		})
		for _, tags := range []string{"latnDEU ", "DFLTROM ", "cyrlRUS "} {
			add(dec, "one script "+tags, func(n int) []byte {
				n = lim(n, 10000)
				b := be16(n)
				for range n {
					b = append(b, tags[:4]...)
					b = append(b, be16(2+6*n)...)
				}
				k := 900
				b = append(b, be16(4+6*k, k)...)
				for range k {
					b = append(b, tags[4:]...)
					b = append(b, be16(4+6*k)...)
				}
				b = append(b, be16(0, 0, n)...)
				b = append(b, rep16(n, 1)...)
				b = append(be16(1, 0, 14, 10, 12), cat(be16(0, 0), b)...)
				return b
			})
		}
		add(dec, "features", func(n int) []byte {
			n = lim(n, 10000)
			b := be16(n)
			for range n {
				b = append(b, "test"...)
				b = append(b, be16(2+6*n)...)
			}
			b = append(b, be16(0, n)...)
			b = append(b, rep16(n, 1)...)
			return append(be16(1, 0, 10, 14, 12), cat(be16(0, 0), b)...)
		})
	}

	add("coverage.Read", "range", c02Cov)
	add("coverage.ReadSet", "range", c02Cov)
	add("coverage.ReadSet", "repeated range", func(n int) []byte { return cat(be16(2, n), rep16(n, 0, 0xFFFE, 0)) })
	add("coverage.Read", "repeated range", func(n int) []byte { return cat(be16(2, n), rep16(n, 0, 0xFFFE, 0)) })
	add("coverage.ReadSet", "adjacent ranges", func(n int) []byte { return cat(be16(2, n), rep16(n, 0xFFFF, 0xFFFF, 0)) })
	add("classdef.Read", "range", func(n int) []byte { return c02Class(n, n) })
	add("classdef.Read", "repeated range", func(n int) []byte { return cat(be16(2, n), rep16(n, 0, 0xFFFF, 1)) })
	add("classdef.Read", "repeated range 0", func(n int) []byte { return cat(be16(2, n), rep16(n, 0, 0xFFFF, 0)) })
	add("classdef.Read", "list", func(n int) []byte { return cat(be16(1, 1, n), rep16(n, 2)) })
	add("classdef.Read", "list at the end", func(n int) []byte { return cat(be16(1, 0xFFFF, n), rep16(n, 2)) })
	add("gdef.Read", "mark sets", func(n int) []byte {
		n = lim(n, 60000)
		return cat(be16(1, 2, 0, 0, 0, 0, 14), be16(1, n), bytes.Repeat(be32(4+4*n), n), c02Cov(n))
	})
	add("gdef.Read", "small mark sets", func(n int) []byte {
		n = lim(n, 60000)
		return cat(be16(1, 2, 0, 0, 0, 0, 14), be16(1, n), bytes.Repeat(be32(4+4*n), n), c02Cov(1))
	})
	add("gdef.Read", "many mark sets", func(n int) []byte {
		return cat(be16(1, 2, 0, 0, 0, 0, 14), be16(1, 65535), bytes.Repeat(be32(4+4*65535), 65535), c02Cov(n))
	})
	add("gdef.Read", "many mark sets, format 1", func(n int) []byte {
		cov := be16(1, n)
		for i := range n {
			cov = append(cov, be16(i)...)
		}
		return cat(be16(1, 2, 0, 0, 0, 0, 14), be16(1, 65535), bytes.Repeat(be32(4+4*65535), 65535), cov)
	})
	add("gdef.Read", "classes", func(n int) []byte {
		return cat(be16(1, 0, 12, 0, 0, 12), c02Class(n, 1))
	})
	for _, enc := range [][]int{{3, 1, 0x409}, {1, 0, 0}} {
		add("name.Decode", fmt.Sprint("shared strings ", enc), func(n int) []byte {
			k := 5000
			b := be16(0, k, 6+12*k)
			for i := range k {
				b = append(b, be16(enc[0], enc[1], enc[2], i%26, n, 0)...)
			}
			return append(b, make([]byte, n)...)
		})
		add("name.Decode", fmt.Sprint("no storage ", enc), func(n int) []byte {
			return cat(be16(0, n, 0xFFFF), bytes.Repeat(be16(enc[0], enc[1], enc[2], 1, 100, 0), n))
		})
		add("name.Decode", fmt.Sprint("different strings ", enc), func(n int) []byte {
			k := 5000
			b := be16(0, k, 6+12*k)
			for i := range k {
				b = append(b, be16(enc[0], enc[1], enc[2], i%26, max(n-i, 1), 0)...)
			}
			return append(b, make([]byte, n)...)
		})
		add("name.Decode", fmt.Sprint("large storage ", enc), func(n int) []byte {
			// all the languages and all the IDs
			var recs []byte
			k := 0
			for lang := 0; lang < 0x3000 && k < 5000; lang++ {
				if enc[0] == 3 && lang&0x3FF > 0x92 || enc[0] == 1 && lang > 150 {
					continue
				}
				for id := 1; id < 26 && k < 5000; id++ {
					recs = append(recs, be16(enc[0], enc[1], lang, id, max(n-k*7, 1), k*7%n/2)...)
					k++
				}
			}
			return cat(be16(0, k, 6+12*k), recs, bytes.Repeat([]byte{65}, 2*n))
		})
	}
	add("name.Decode", "languages", func(n int) []byte {
		return cat(be16(1, 0, 0xFFFF, n), make([]byte, 4*n))
	})
	add("cmap.Decode", "shared subtables", func(n int) []byte {
		n = lim(n, 65535)
		b := be16(0, n)
		for i := range n {
			b = append(b, be16(3, i)...)
			b = append(b, be32(4+8*n)...)
		}
		return append(b, be16(4, 40, 0, 4, 4, 1, 0, 0xFFFE, 0xFFFF, 0, 0, 0xFFFF, 1, 1, 0, 0, 0, 0, 0, 0)...)
	})
	add("cmap.Decode", "format 4 overlapping segments", func(n int) []byte {
		n = lim(n, 8000)
		l := 16 + 8*n
		return cat(be16(0, 1, 3, 1), be32(12), be16(4, l, 0, 2*n, 0, 0, 0), rep16(n, 0xFFFE), be16(0), rep16(n, 0), rep16(n, 1), rep16(n, 0))
	})
	add("cmap.Decode", "format 4 segments", func(n int) []byte {
		n = lim(n, 8000)
		l := 16 + 8*n
		b := cat(be16(0, 1, 3, 1), be32(12), be16(4, l, 0, 2*n, 0, 0, 0))
		for i := range n {
			b = append(b, be16(i*8+7)...)
		}
		b = append(b, 0, 0)
		for i := range n {
			b = append(b, be16(i*8)...)
		}
		return append(b, cat(rep16(n, 1), rep16(n, 0))...)
	})
	for _, f := range []int{12, 13, 8, 10} {
		add("cmap.Decode", fmt.Sprint("repeated segments, format ", f), func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(16+12*n, 0, n), bytes.Repeat(be32(0, 0xFFFE, 0), n))
		})
		add("cmap.Decode", fmt.Sprint("large segments, format ", f), func(n int) []byte {
			b := cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(16+12*n, 0, n))
			for i := range n {
				b = append(b, be32(i<<16, i<<16+0xFFFF, 0)...)
			}
			return b
		})
		add("cmap.Decode", fmt.Sprint("long segment, format ", f), func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(28, 0, 1, 0, 16*n, 0))
		})
		add("cmap.Decode", fmt.Sprint("wide segment, format ", f), func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(28, 0, 1, 0, 65537*n, 0))
		})
		add("cmap.Decode", fmt.Sprint("wrapping segments, format ", f), func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(40, 0, 2, 0, 0xFFFFFFFE, 5, 0xFFFFFFFF, 0xFFFFFFFF, 1))
		})
		add("cmap.Decode", fmt.Sprint("number of segments, format ", f), func(n int) []byte {
			return cat(be16(0, 1, 3, 10), be32(12), be16(f, 0), be32(16, 0, n*65537))
		})
	}
	add("cmap.Decode", "format 6", func(n int) []byte {
		k := lim(n, 32000)
		return cat(be16(0, 1, 3, 1), be32(12), be16(6, 10+2*k, 0, 60000, n), rep16(k, 3))
	})
	add("glyf.Decode", "flags", func(n int) []byte {
		// n+1 points with repeated flags
		g := cat(be16(1, 0, 0, 10, 10, n, 0))
		for left := n + 1; left > 0; left -= 256 {
			g = append(g, 8|0x30, byte(min(left, 256)-1))
		}
		if len(g)%2 != 0 {
			g = append(g, 0)
		}
		return c02Glyf(1, g, be32(0, len(g)))
	})
	add("glyf.Decode", "contours", func(n int) []byte {
		n = lim(n, 32767)
		g := cat(be16(n, 0, 0, 10, 10))
		for i := range n {
			g = append(g, be16(i)...)
		}
		g = append(g, be16(0)...)
		for left := n; left > 0; left -= 256 {
			g = append(g, 8|0x30, byte(min(left, 256)-1))
		}
		if len(g)%2 != 0 {
			g = append(g, 0)
		}
		return c02Glyf(1, g, be32(0, len(g)))
	})
	add("glyf.Decode", "contours without points", func(n int) []byte {
		n = lim(n, 32767)
		g := cat(be16(n, 0, 0, 10, 10), rep16(n, 0xFFFF), be16(0, 0))
		return c02Glyf(1, g, be32(0, len(g)))
	})
	add("glyf.Decode", "shared glyphs", func(n int) []byte {
		g := cat(be16(1, 0, 0, 10, 10, 0, 0), []byte{0x31, 0})
		n = lim(n, 8000)
		return cat(be16(1, 8*n), bytes.Repeat(be32(0, len(g)), n), g)
	})
	add("glyf.Decode", "components", func(n int) []byte {
		g := cat(be16(-1, 0, 0, 10, 10), rep16(n, 0x22, 0, 0), be16(0x02, 0, 0))
		if len(g)%4 != 0 {
			g = append(g, 0, 0)
		}
		return c02Glyf(1, g, be32(0, len(g)))
	})
	add("glyf.Decode", "endless components", func(n int) []byte {
		g := cat(be16(-1, 0, 0, 10, 10), rep16(n, 0x22, 0, 0))
		return c02Glyf(1, g, be32(0, len(g)))
	})
	add("glyf.Decode", "loca", func(n int) []byte {
		n = lim(n, 30000)
		return c02Glyf(0, nil, rep16(n, 0))
	})
	add("hmtx.Decode", "widths", func(n int) []byte {
		return cat(be32(0x10000), make([]byte, 30), be16(n), rep16(n, 500, 0))
	})
	add("hmtx.Decode", "missing widths", func(n int) []byte { return cat(be32(0x10000), make([]byte, 30), be16(n), be16(1, 2, 3)) })
	add("maxp.Read", "glyphs", func(n int) []byte { return cat(be32(0x5000), be16(n)) })
	add("post.Read", "names", func(n int) []byte {
		b := cat(be32(0x20000, 0, 0, 0, 0, 0, 0, 0), be16(n), rep16(n, 258), []byte{255}, bytes.Repeat([]byte{65}, 255))
		return b
	})
	add("post.Read", "different names", func(n int) []byte {
		n = lim(n, 65535-258)
		b := cat(be32(0x20000, 0, 0, 0, 0, 0, 0, 0), be16(n))
		for i := range n {
			b = append(b, be16(258+i)...)
		}
		return append(b, bytes.Repeat(append([]byte{255}, bytes.Repeat([]byte{65}, 255)...), n)...)
	})
	add("post.Read", "no names", func(n int) []byte {
		return cat(be32(0x20000, 0, 0, 0, 0, 0, 0, 0), be16(1, n))
	})
	add("kern.Read", "overlapping", func(n int) []byte {
		return cat(be16(0, n), rep16(n, 0, 14, 1, 0xFFFF, 0, 0, 0), rep16(3*65535, 0))
	})
	add("kern.Read", "overlapping pairs", func(n int) []byte {
		return cat(be16(0, n), rep16(n, 0, 14, 1, lim(n, 5), 0, 0, 0), rep16(3*65535, 0))
	})
	add("kern.Read", "subtables", func(n int) []byte {
		return cat(be16(0, n), rep16(n, 0, 14, 1, 0, 0, 0, 0))
	})
	add("kern.Read", "length", func(n int) []byte {
		return cat(be16(0, 65535), be16(0, n, 1, 0, 0, 0, 0), rep16(65535, 0))
	})

	// CFF
	cs := func(name string, mk func(n int) *cffFile) {
		add("cff.Read", name, func(n int) []byte { return mk(n).build() })
	}
	call := func(k int) []byte { // call subroutine number k of a short list
		return append(dInt(k-107), 10)
	}
	gcall := func(k int) []byte { return append(dInt(k-107), 29) }
	for _, global := range []bool{false, true} {
		cs(fmt.Sprintf("nested subroutines, global=%t", global), func(n int) *cffFile {
			f := simpleFile(2)
			var subrs [][]byte
			f1 := call
			if global {
				f1 = gcall
			}
			subrs = append(subrs, []byte{11})
			for i := 1; i < 9; i++ {
				subrs = append(subrs, append(bytes.Repeat(f1(i-1), n/10+1), 11))
			}
			f.charStrings[1] = append(f1(8), 14)
			if global {
				f.gsubrs = subrs
			} else {
				f.fds[0].subrs = subrs
			}
			return f
		})
		cs(fmt.Sprintf("nested drawing, global=%t", global), func(n int) *cffFile {
			f := simpleFile(2)
			f1 := call
			if global {
				f1 = gcall
			}
			subrs := [][]byte{{140, 140, 5, 11}}
			for i := 1; i < 9; i++ {
				subrs = append(subrs, append(bytes.Repeat(f1(i-1), n/1000+2), 11))
			}
			f.charStrings[1] = append([]byte{139, 22}, append(f1(8), 14)...)
			if global {
				f.gsubrs = subrs
			} else {
				f.fds[0].subrs = subrs
			}
			return f
		})
		cs(fmt.Sprintf("shared drawing, global=%t", global), func(n int) *cffFile {
			// all glyphs use the same long subroutine
			f := simpleFile(229)
			f1 := call
			if global {
				f1 = gcall
			}
			subrs := [][]byte{append(bytes.Repeat([]byte{140, 140, 5}, 20000), 11), append(bytes.Repeat(f1(0), n/100+1), 11)}
			for i := 1; i < 229; i++ {
				f.charStrings[i] = append([]byte{139, 22}, append(f1(1), 14)...)
			}
			if global {
				f.gsubrs = subrs
			} else {
				f.fds[0].subrs = subrs
			}
			return f
		})
	}
	cs("recursive subroutine", func(n int) *cffFile {
		f := simpleFile(2)
		f.fds[0].subrs = [][]byte{append(bytes.Repeat(call(0), n), 11)}
		f.charStrings[1] = append(call(0), 14)
		return f
	})
	cs("private dictionaries", func(n int) *cffFile {
		f := cidFile(2)
		f.fds = nil
		for range 256 {
			f.fds = append(f.fds, cffFileFD{noSub: true, priv: bytes.Repeat(dOp(6, dInt(1), dInt(2)), n/300)})
		}
		return f
	})
	cs("large strings", func(n int) *cffFile {
		f := simpleFile(2)
		for range n {
			f.strings = append(f.strings, []byte("A"))
		}
		return f
	})
	cs("long dictionary", func(n int) *cffFile {
		f := simpleFile(2)
		f.top = append(f.top, bytes.Repeat(dOp(1204, dInt(1)), n/3)...)
		return f
	})
	cs("long operand list", func(n int) *cffFile {
		f := simpleFile(2)
		f.top = append(f.top, dOp(1204, bytes.Repeat(dInt(1), n/2))...)
		return f
	})
	cs("long real", func(n int) *cffFile {
		f := simpleFile(2)
		f.top = append(f.top, dOp(1204, append(append([]byte{30}, bytes.Repeat([]byte{0x11}, n)...), 0xFF))...)
		return f
	})
	cs("long operator", func(n int) *cffFile {
		f := simpleFile(2)
		f.charStrings[1] = append(append([]byte{139, 22}, bytes.Repeat(cat(dInt(1), dInt(2), []byte{5}), n)...), 14)
		return f
	})
	cs("many operands", func(n int) *cffFile {
		f := simpleFile(2)
		f.charStrings[1] = append(append([]byte{139, 22}, bytes.Repeat(dInt(1), n)...), 5, 14)
		return f
	})
	cs("stems", func(n int) *cffFile {
		f := simpleFile(2)
		f.charStrings[1] = append(bytes.Repeat([]byte{139, 140, 1}, n), 14)
		return f
	})
	for _, count := range []bool{false, true} {
		cs(fmt.Sprintf("roll, count=%t", count), func(n int) *cffFile {
			f := simpleFile(2)
			arg := cat([]byte{255}, be32(n<<16|0xFFFF&n))
			if count {
				f.charStrings[1] = cat(dInt(1), dInt(2), dInt(1), arg, []byte{12, 30, 14})
			} else {
				f.charStrings[1] = cat(dInt(1), dInt(2), arg, dInt(1), []byte{12, 30, 14})
			}
			return f
		})
	}
	patchPrivate := func(name string, mk func(n int) *cffFile, size func(n int) int) {
		add("cff.Read", name, func(n int) []byte {
			b := mk(n).build()
			// the size of the Private DICT
			i := bytes.Index(b, cat(dInt5(len(mk(n).fds[0].priv)+6)))
			if i < 0 {
				panic("private size not found")
			}
			copy(b[i:], dInt5(size(n)))
			return b
		})
	}
	simple2 := func(n int) *cffFile { return simpleFile(2) }
	patchPrivate("private size", simple2, func(n int) int { return n * 32768 })
	patchPrivate("private size -1", simple2, func(n int) int { return -n })
	patchPrivate("private size, CID", func(n int) *cffFile { return cidFile(2) }, func(n int) int { return n * 32768 })
	// all the font dictionaries of a CID font share the private dictionary
	add("cff.Read", "shared private dictionary", func(n int) []byte {
		f := cidFile(2)
		f.fds = []cffFileFD{{priv: bytes.Repeat(dOp(10, dInt(0)), n)}}
		for range 255 {
			f.fds = append(f.fds, f.fds[0])
			f.fds[len(f.fds)-1].priv = nil
		}
		b := f.build()
		// point all font dictionaries to the first private dictionary
		first := dOp(18, dInt5(3*0+len(f.fds[0].priv)+6))
		i := bytes.Index(b, first[:5])
		if i < 0 {
			panic("private size not found")
		}
		entry := bytes.Clone(b[i : i+11])
		for j := range 256 {
			copy(b[i+11*j:], entry)
		}
		return b
	})
	add("cff.Read", "shared subroutines", func(n int) []byte {
		f := cidFile(2)
		f.fds = []cffFileFD{{priv: dOp(10, dInt(0))}}
		for range n - 1 {
			f.fds[0].subrs = append(f.fds[0].subrs, []byte{11})
		}
		for range 255 {
			f.fds = append(f.fds, f.fds[0])
			f.fds[len(f.fds)-1].priv = nil
			f.fds[len(f.fds)-1].subrs = nil
		}
		b := f.build()
		first := dInt5(len(f.fds[0].priv) + 6)
		i := bytes.Index(b, first)
		entry := bytes.Clone(b[i : i+11])
		for j := range 256 {
			copy(b[i+11*j:], entry)
		}
		return b
	})
	return res
}

func c02Amplify(c *explore.Ctx) {
	if c02BombList == nil {
		c02BombList = c02Bombs()
	}
	bomb := explore.Pick(c, "input", c02BombList)
	sizes := []int{1, 2, 300, 65535, 65536}
	if c.Thorough {
		sizes = []int{1, 2, 3, 10, 100, 255, 256, 257, 1000, 5000, 10000, 20000, 32767, 32768, 65535, 65536}
	}
	n := explore.Pick(c, "n", sizes)
	c.Log("%s: %s, n=%d", bomb.dec, bomb.name, n)
	c.Exec()
	c02Run(c, c02Find(bomb.dec), bomb.mk(n))
}

var c02BombList []c02Bomb
