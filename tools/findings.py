# open findings: dicts with Property, Key, Status="known", What
KNOWN = [
 {"Property": "C05", "Key": "seac", "Status": "known", "What": "endchar with four arguments (TN5177 appendix C, implied seac: accented character built from two StandardEncoding glyphs) is decoded as an empty path, the four arguments are silently ignored (cff/t2decode.go, case t2endchar); supporting it needs access to other glyphs of the font and a decision how to merge their hints, so it was not repaired here"},
 {"Property": "C06", "Key": "cursive-rtl", "Status": "known", "What": "cursive attachment (GPOS 3) ignores the lookup flag RIGHT_TO_LEFT (opentype/gtab/gpos.go, Gpos3_1.apply): two connected glyphs with exit height 70 and entry height 20 give offsets 0 and 50, but with the flag the last glyph should stay on the baseline, which gives -50 and 0; a repair has to move the chain of glyphs which are connected already, which is a new feature"},
 {"Property": "C06", "Key": "cursive-null", "Status": "known", "What": "a NULL entry or exit anchor of GPOS 3 is treated as an anchor at (0,0) (opentype/gtab/gpos.go, readGpos3_1 and Gpos3_1.apply): a covered glyph without exit anchor is moved on top of the next covered glyph; EntryExitRecord cannot represent the difference, so a repair would have to change the public data structure"},
 {"Property": "C06", "Key": "mark-to-ligature", "Status": "known", "What": "mark-to-ligature attachment (GPOS 5) is read and written, but never applied (opentype/gtab/gpos5.go, Gpos5_1.apply is not implemented): the mark stays where it is; attaching to the right component needs bookkeeping about ligature components which the shaper does not have"},
]
# (property, substring of the fix commit's subject)
FIXES = [
 ("C11", "glyf: reject inconsistent contour"),
 ("C09", "cmap: Format4.Lookup must not alias"),
 ("C09", "cmap: apply idDelta"),
 ("C09", "cmap: translate Mac Roman"),
 ("C09", "cmap: do not let format 12 groups wrap"),
 ("C12", "hmtx: keep the direction"),
 ("C12", "hmtx: derive minRightSideBearing"),
 ("C12", "cff: include the extrema"),
 ("C12", "write the IsItalic flag"),
 ("C12", "WidthsPDF must agree"),
 ("C02", "Font.Widths must not panic"),
 ("C09", "cmap: Format0.CodeRange"),
 ("C14", "name: read Windows names stored"),
 ("C14", "name: make the encoded table independent"),
 ("C14", "post: store repeated"),
 ("C14", "gtab: keep script tags"),
 ("C08", "gtab: make the choice of OpenType tags"),
 ("C13", "cff: choose integer default and nominal widths"),
 ("C13", "cff: keep fractional underline position and thickness"),
 ("C13", "cff: only omit FontMatrix and BlueScale if they equal the default"),
 ("C13", "cff: accept integer operands in FontMatrix"),
 ("C13", "cff: avoid overflow in delta-encoded arrays"),
 ("C13", "cff: support the full range of real numbers in DICTs"),
 ("C13", "cff: refuse to write charset entries which do not fit into 16 bits"),
 ("C13", "cff: do not change italic angles"),
 ("C04", "cff: do not accumulate rounding errors in stem hints"),
 ("C04", "cff: refuse to write numbers outside the range of Type 2 charstrings"),
 ("C05", "cff: do not clamp charstring operands to +-32000"),
 ("C05", "cff: correct the Type 2 mul operator"),
 ("C05", "cff: flex1 returns to the starting x or y position"),
 ("C05", "cff: allow roll with a count of zero"),
 ("C05", "cff: report missing operands in Type 2 charstrings"),
 ("C03", "header: count only the tables"),
 ("C18", "header, cff: report short writes"),
 ("C06", "gtab: do not mix up matched and skipped glyphs when a ligature does not match"),
 ("C06", "gtab: use the correct sequence positions in ChainedSeqContext3"),
 ("C06", "gtab: skip ignored glyphs before the lookahead of nested ChainedSeqContext3 lookups"),
 ("C06", "gtab: update the end of a context when a ligature removes trailing ignored glyphs"),
 ("C07", "gtab: ignore actions with invalid sequence index, drop unfinished actions after the limit"),
 ("C06", "gtab: apply GSUB type 8 lookups in reverse order"),
 ("C06", "gtab: attach marks to the preceding glyph only, and follow the position of this glyph"),
 ("C06", "gtab: do not match ignored glyphs in ChainedSeqContext3"),
 ("C07", "gtab: no panic for classes, mark filtering sets and replacements which do not exist"),
 ("C02", "gtab: read and write mark-to-ligature attachment subtables (GPOS 5.1)"),
 ("C07", "Layouter: do not panic for glyphs which do not exist"),
 ("C07", "gtab: FindLookups does not depend on the order of map iterations"),
 ("C10", "Subset: keep the character map"),
 ("C10", "Subset: components of composite glyphs get their own glyph index"),
 ("C10", "Subset: keep ligatures, lookup indices and the order of coverage tables"),
 ("C10", "Subset: use the new glyph indices in kerning pairs"),
 ("C10", "Subset: do not write to the argument, and allow for short lists of glyph names"),
 ("C10", "cff: write encodings where the encoded glyphs are not contiguous"),
 ("C01", "Read accepts TrueType fonts where all glyphs are blank"),
 ("C08", "gtab: extension subtables for large lookups and for pair and context lookups"),
 ("C08", "gtab: header offsets for large or missing script, feature and lookup lists"),
 ("C08", "gtab: ignore missing optional features in script lists"),
 ("C08", "gtab: do not confuse invalid subtable formats with other lookup types"),
 ("C08", "gtab: refuse to write data which does not fit into 16-bit offsets and counts"),
 ("C08", "gdef: refuse to write tables which are too large for 16-bit offsets"),
 ("C08", "classdef: class definitions which cover all 65536 glyph indices"),
 ("C08", "coverage: refuse tables with duplicate coverage indices"),
 ("C08", "gtab: header offsets for empty lists"),
 ("C15", "standard ligatures can be switched off by the caller"),
 ("C15", "kern: read subtables with more than 10920 pairs"),
 ("C15", "fonts with more than 6000 kerning pairs can be written again"),
 ("C20", "keep glyph names of TrueType fonts with a short names list"),
 ("C20", "glyph names for cmaps with codes or glyphs outside the font"),
 ("C20", "ligature rules do not replace existing glyph names"),
 ("C20", "glyph names do not depend on the map iteration order"),
 ("C20", "derive glyph names from substitutions in any order"),
 ("C20", "GlyphName for TrueType fonts with a short names list"),
 ("C19", "builder: no goroutine is left behind after an error inside a string"),
 ("C19", "builder: all errors carry a line number"),
 ("C19", "builder: parse descriptions for fonts without a cmap table"),
 ("C19", "builder: limit the size of class pair tables"),
 ("C19", "builder: write the flag for ignoring ligatures in the form the parser reads"),
 ("C19", "builder: separate flags and class definitions"),
 ("C19", "builder: describe several class pair or mark subtables in one lookup"),
 ("C19", "builder: do not shorten ligatures to ranges"),
 ("C19", "builder: describe ranges of unnamed glyphs"),
 ("C19", "builder: quote characters in the form the parser reads"),
 ("C19", "builder: use glyph names only if the parser can read them"),
 ("C01", "fonts in bold weight are bold when they are read, not only after a write/read cycle"),
 ("C01", "TrueType fonts without advance widths are unchanged by a write/read cycle"),
 ("C01", "fractional underline positions in CFF data are rounded when they are read"),
 ("C01", "version strings with more than three decimals are rounded when they are read"),
 ("C01", "use the same script for legacy kerning as after a write/read cycle"),
 ("C01", "fractional widths in CFF data are rounded when there is no hmtx table"),
 ("C02", "overlapping strings in the name table can use excessive memory"),
 ("C02", "overlapping kern subtables take quadratic time to read"),
 ("C02", "cff.Read allocates memory for Private DICTs longer than the file"),
 ("C02", "nested CFF subroutines can use unbounded time and memory"),
 ("C02", "overlapping data in font tables can use unbounded memory"),
 ("C02", "nested CFF subroutines are not limited by cff.Read"),
 ("C02", "gtab.Read returns tables which cannot be encoded"),
 ("C02", "MakeGlyphNames panics if the GSUB table refers to missing glyphs"),
 ("C06", "cursive attachment ignores the lookup flags"),
 ("C12", "os2: read the code page ranges"),
]
