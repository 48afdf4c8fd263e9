BME = "bounded model checking of the real code: explicit-state exhaustive enumeration (DFS over all choice sequences) of "
CLAIMED = {
 "C04": ("model_checking", BME + "glyph programs (all short sequences of segment kinds, runs beyond the stack limit, numbers, stems, masks, widths); the emitted charstrings are executed by an independent strict Type 2 interpreter",
         "exhaustive within the bounds listed in evidence/C04.json; nothing is claimed beyond them"),
 "C05": ("model_checking", BME + "Type 2 charstrings: operators with all operand counts, numbers, widths, hints, arithmetic, stack and storage programs, subroutine tables, nesting, token sequences and single-fault mutations; judged by an independent interpreter, itself compared with x/image",
         "exhaustive within the bounds listed in evidence/C05.json; nothing is claimed beyond them"),
 "C09": ("model_checking", BME + "character maps, cmap key sets and file-format subtables; each execution is judged by an independent specification decoder and by x/image",
         "exhaustive within the bounds listed in evidence/C09.json; nothing is claimed beyond them"),
 "C11": ("model_checking", BME + "glyf/loca glyph sets, glyph descriptions, flag and delta forms; judged by an independent TrueType decoder",
         "exhaustive within the bounds listed in evidence/C11.json; nothing is claimed beyond them"),
 "C12": ("model_checking", BME + "hmtx/hhea, head, maxp, OS/2 (all versions) and post records, width vectors with every constant tail, caret slopes and whole fonts; every derived field and metric query is recomputed independently from the outlines",
         "exhaustive within the bounds listed in evidence/C12.json; nothing is claimed beyond them"),
 "C13": ("model_checking", BME + "CFF fonts (charsets, encodings, FDSelect functions, DICT numbers, private dictionaries, widths, INDEX sizes) and hand-assembled CFF files; judged by field-by-field comparison and by an independent CFF reader",
         "exhaustive within the bounds listed in evidence/C13.json; nothing is claimed beyond them"),
 "C14": ("model_checking", BME + "name, post and script-list tables: all language ids, name ids, code points and bytes of both codecs, glyph-name lists, all OpenType script/language pairs; judged by own table readers, x/text and x/image",
         "exhaustive within the bounds listed in evidence/C14.json; nothing is claimed beyond them"),
 "C17": ("model_checking", BME + "parser operation sequences and read chunkings against a reference model of the byte stream",
         "exhaustive within the bounds listed in evidence/C17.json; nothing is claimed beyond them"),
 "C03": ("model_checking", BME + "table maps (counts, tags, lengths, contents) and whole fonts; the written bytes are judged by an independent container reader and complete fonts by x/image",
         "exhaustive within the bounds listed in evidence/C03.json; nothing is claimed beyond them"),
 "C18": ("fault_enumeration", "exhaustive fault-point enumeration on the real code: every byte position of every corpus font as fault or truncation point, for six kinds of failing writers, nine kinds of truncated or failing readers, every window of failing offsets and every ReadAt call",
         "exhaustive within the bounds listed in evidence/C18.json; nothing is claimed beyond them"),
 "C06": ("model_checking", BME + "conformance: the real shaper is run on every glyph sequence up to length 5-7 over small alphabets, for all programs in 14 bounded program spaces (lookup types, flags, GDEF classes, overlapping rules, nested length-changing lookups), and compared with an independent reference shaper which is itself checked against the documented test cases",
         "exhaustive within the bounds listed in evidence/C06.json; nothing is claimed beyond them"),
 "C07": ("model_checking", BME + "conformance-free invariants on the real shaper: adversarial lookup lists, all nested actions with valid and invalid indices, action budgets, mutated encoded tables (every 16-bit word, thorough: every pair), GDEF mutations, call histories on one context or layouter, all map iteration orders of a controlled runtime; every result is checked for termination, size bound, text conservation, independence of history and of shared buffers",
         "exhaustive within the bounds listed in evidence/C07.json; nothing is claimed beyond them"),
 "C10": ("model_checking", BME + "fonts and glyph lists: every duplicate-free list over fonts with up to 7 glyphs, for all GSUB/GPOS programs, composite graphs, FDSelect functions, encodings and character map formats within the bounds; the subset and the subset after Write/Read are compared with the original font through the index map, layout tables by shaping all short glyph sequences, with controlled map iteration orders",
         "exhaustive within the bounds listed in evidence/C10.json; nothing is claimed beyond them"),
 "C08": ("model_checking", BME + "for every subtable type the shapes of its arrays and menus of values (all field masks of value records; all index/rule/anchor patterns up to a small size), all subtable kinds around the 64 KiB limit, all lookup lists up to 3 lookups out of a menu, all combinations of large subtables around the limits of 16-bit offsets, up to 300 lookups, all script and language tags, the sizes of script/feature/lookup lists around their limits, all small and many large coverage tables, class definitions and GDEF tables are encoded with the real encoder; the bytes are decoded by an independent strict decoder and by the library, and both must give the original structure; declared sizes, sorting and the choice of the smaller format are checked",
         "exhaustive within the bounds listed in evidence/C08.json; nothing is claimed beyond them"),
 "C15": ("model_checking", BME + "the whole layout pipeline (cmap choice, GSUB, GPOS, legacy kern, widths, GDEF classes, mark widths) explored over fonts x tables x texts x language choices x switches against an independent reference composition; map iteration order controlled",
         "exhaustive within the bounds listed in evidence/C15.json; nothing is claimed beyond them"),
 "C20": ("model_checking", BME + "fonts with every pattern of missing, duplicate and invalid names over small alphabets, character maps, GSUB 1/3/4 rule sets and chains, CID-keyed fonts, and family/width/weight/style strings, under 8 controlled map iteration orders; names judged by a reference for inference, uniqueness and stability",
         "exhaustive within the bounds listed in evidence/C20.json; nothing is claimed beyond them"),
 "C19": ("model_checking", BME + "lookup descriptions (all lookup types, notations, flags, rule sets within bounds) and of arbitrary token sequences, byte strings and mutations; the parsed lookups are compared with the described ones, explain-parse is a fixed point, errors carry line numbers and no goroutine remains",
         "exhaustive within the bounds listed in evidence/C19.json; nothing is claimed beyond them"),
 "C01": ("model_checking", BME + "font values (5 kinds, 27 feature dimensions, bounded number of deviations; all boundary values of scalar fields; 1..65535 glyphs) and font files (single-byte mutations, missing, exchanged and foreign tables); the font read back is compared with an independent normal form, the second generation with the first, and the bytes under 8 map iteration orders",
         "exhaustive within the bounds listed in evidence/C01.json; nothing is claimed beyond them"),
 "C02": ("model_checking", BME + "all one-byte, one-field and two-field changes and truncations of a corpus of valid tables and fonts, all short word sequences behind the fixed start of each kind of table, all pairs of CFF operators, mixtures of tables of different fonts, and about 400 families of inputs with shared or overlapping data, under allocation and time limits, using all accessors on the results",
         "exhaustive within the bounds listed in evidence/C02.json; nothing is claimed beyond them"),
 "C16": ("model_checking", BME + "all pairs of read-only operations on shared fonts under all schedules with at most one preemption at the scheduling points, with a scheduler which is invisible to the race detector; all sequences of two operations on fonts in read-only memory; each operation twice in new processes",
         "exhaustive within the bounds listed in evidence/C16.json; nothing is claimed beyond them"),
}
NOT = {}
NOTES = "run.sh PROPERTY quick|thorough builds /verif/mc against /repo's working tree and runs the explorer; run.sh replay FILE re-runs one reported violation."
