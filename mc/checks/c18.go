package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"

	"verif/mc/explore"
	"verif/mc/run"
)

var errInjected = errors.New("injected fault")

// faultWriter accepts k bytes and then fails.
type faultWriter struct {
	k        int
	mode     int
	accepted []byte
	faults   int
}

var faultWriterModes = []string{
	"accepts the first part of the failing write",
	"rejects the failing write as a whole",
	"fails once, accepting a part, and works again afterwards",
	"accepts a part of one write without reporting an error",
	"fails once, rejecting a whole write, and works again afterwards",
	"accepts all bytes of the failing write, but reports an error",
}

func (w *faultWriter) Write(p []byte) (int, error) {
	room := w.k - len(w.accepted)
	if (w.mode == 2 || w.mode == 3 || w.mode == 4) && w.faults > 0 || len(p) <= room {
		w.accepted = append(w.accepted, p...)
		return len(p), nil
	}
	w.faults++
	switch w.mode {
	case 1, 4:
		return 0, errInjected
	case 5:
		if w.faults == 1 {
			w.accepted = append(w.accepted, p...)
			return len(p), errInjected
		}
		return 0, errInjected
	}
	if room < 0 {
		room = 0
	}
	w.accepted = append(w.accepted, p[:room]...)
	if w.mode == 3 {
		return room, nil
	}
	return room, errInjected
}

// faultAt is an io.ReaderAt which fails for every access touching offsets >= k.
type faultAt struct {
	data   []byte
	k      int
	part   bool
	faults int
}

func (r *faultAt) Read(p []byte) (int, error) { panic("Read called on a ReaderAt") }

func (r *faultAt) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	end := off + int64(len(p))
	if len(p) > 0 && end > int64(r.k) {
		r.faults++
		n := 0
		if r.part && off < int64(r.k) {
			n = copy(p, r.data[off:r.k])
		}
		return n, errInjected
	}
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// stream is an io.Reader which delivers data and then err.
type stream struct {
	data   []byte
	step   int
	joined bool // return the error together with the last bytes
	err    error
	faults int
}

func (r *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.data)
	if n > len(p) {
		n = len(p)
	}
	if r.step > 0 && n > r.step {
		n = r.step
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if n == 0 || r.joined && len(r.data) == 0 {
		r.faults++
		return n, r.err
	}
	return n, nil
}

type c18Item struct {
	name string
	f    *sfnt.Font // nil for files which are not written by the library
	data []byte
	// end of the data of the last table
	end int
	// the font found in the complete file
	ref *sfnt.Font
	// number of ReadAt calls needed to read the file
	accesses int
}

// c18Corpus builds the corpus.
func c18Corpus(thorough bool) []*c18Item {
	var items []*c18Item
	add := func(name string, f *sfnt.Font, data []byte) {
		it := &c18Item{name: name, f: f, data: data}
		n := rdU16(data, 4)
		for i := range n {
			it.end = max(it.end, rdU32(data, 12+16*i+8)+rdU32(data, 12+16*i+12))
		}
		ref, err := sfnt.Read(bytes.NewReader(data))
		if err != nil {
			panic(fmt.Sprintf("corpus font %s: %v", name, err))
		}
		it.ref = ref
		items = append(items, it)
	}
	// each entry lists the values of feature dimensions
	specs := []map[string]int{
		{},
		{"gsub": 2, "gpos": 2, "gdef": 2, "cmap": 1, "strings": 1, "tttables": 1, "ttshape": 1, "cffshape": 2, "private": 1, "names": 3, "encoding": 1, "fdmatrix": 1},
		{"gsub": 3, "gpos": 4, "tttables": 2, "ttshape": 2, "composite": 1, "cffshape": 1, "names": 1, "encoding": 2, "cmap": 6, "strings": 3, "fdselect": 1, "cids": 2},
	}
	if thorough {
		specs = append(specs,
			map[string]int{"gsub": 5, "gpos": 3, "gdef": 1, "cmap": 5, "names": 2, "ttshape": 3, "private": 2},
			map[string]int{"glyphs": 5, "gsub": 1, "gpos": 1, "names": 3, "widths": 2},
			map[string]int{"glyphs": 1, "cmap": 3, "strings": 5},
			map[string]int{"glyphs": 2, "strings": 4},
			map[string]int{"widths": 1, "glyphs": 5, "names": 1, "ttshape": 1, "cffshape": 1})
	}
	for kind := range fkCount {
		for i, sp := range specs {
			f := fixedFont(kind, sp)
			buf := &bytes.Buffer{}
			if _, err := f.Write(buf); err != nil {
				panic(fmt.Sprintf("corpus font %s/%d: %v", fkNames[kind], i, err))
			}
			add(fmt.Sprintf("%s/%d", fkNames[kind], i), f, buf.Bytes())
		}
	}
	// fonts where the last table is not parsed and has an odd length
	for i := 1; i <= 4; i++ {
		f := fixedFont(fkTT, map[string]int{"names": i % 2})
		f.Outlines.(*glyf.Outlines).Tables["gasp"] = []byte{0, 1, 0, 1, 0xFF, 0xFF, 0, 3, 0, 0, 0, 0}[:8+i]
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			panic(err)
		}
		add(fmt.Sprintf("TrueType gasp/%d", i), f, buf.Bytes())
	}
	// a font with a legacy kern table, and one without the optional tables
	buf := &bytes.Buffer{}
	f := fixedFont(fkTT, nil)
	if _, err := f.Write(buf); err != nil {
		panic(err)
	}
	t, err := refContainer(buf.Bytes(), header.ScalerTypeTrueType)
	if err != nil {
		panic(err)
	}
	t["kern"] = cat(be16(0, 1, 0, 14+12, 1, 2, 12, 1, 0, 1, 3, -50, 3, 4, 20))
	add("TrueType+kern", nil, sfntAssemble(header.ScalerTypeApple, t))
	delete(t, "kern")
	for _, k := range []string{"OS/2", "name", "post", "cmap"} {
		delete(t, k)
	}
	add("TrueType minimal", nil, sfntAssemble(header.ScalerTypeTrueType, t))
	buf.Reset()
	if err := fixedFont(fkCFF, nil).WriteOpenTypeCFFPDF(buf); err != nil {
		panic(err)
	}
	add("CFF minimal", nil, bytes.Clone(buf.Bytes()))
	return items
}

// fixedFont makes the font with the given feature values.
func fixedFont(kind int, vals map[string]int) *sfnt.Font {
	g := &fontGen{fixed: vals}
	if vals == nil {
		g.fixed = map[string]int{}
	}
	return g.font(kind)
}

func init() {
	var corpus []*c18Item
	corpusFor := ""
	fullCache := map[string]*bytes.Buffer{}
	load := func(c *explore.Ctx) []*c18Item {
		key := fmt.Sprint(c.Thorough)
		if corpusFor != key {
			corpus = c18Corpus(c.Thorough)
			corpusFor = key
		}
		return corpus
	}

	writers := func(c *explore.Ctx) {
		var items []*c18Item
		for _, it := range load(c) {
			if it.f != nil {
				items = append(items, it)
			}
		}
		it := items[c.Choose("font", len(items))]
		o, isCFF := it.f.Outlines.(*cff.Outlines)
		_, isTT := it.f.Outlines.(*glyf.Outlines)
		w := c.Choose("writer", 3)
		var do func(w io.Writer) (int64, error)
		hasCount := true
		switch {
		case w == 0:
			do = it.f.Write
		case w == 1 && isTT:
			do = func(w io.Writer) (int64, error) { return it.f.WriteTrueTypePDF(w) }
		case w == 2 && isTT:
			do = func(w io.Writer) (int64, error) {
				return it.f.WriteTrueTypePDF(w, "zzzz", []byte{1, 2, 3, 4, 5}, "cvt ", []byte{})
			}
		case w == 1 && isCFF:
			hasCount = false
			do = func(w io.Writer) (int64, error) { return 0, it.f.WriteOpenTypeCFFPDF(w) }
		case w == 2 && isCFF:
			hasCount = false
			do = func(w io.Writer) (int64, error) {
				return 0, (&cff.Font{FontInfo: it.f.GetFontInfo(), Outlines: o}).Write(w)
			}
		}
		fullKey := fmt.Sprint(it.name, w, c.Thorough)
		full, ok := fullCache[fullKey]
		if !ok {
			full = &bytes.Buffer{}
			if _, err := do(full); err != nil {
				c.Fail("c18:write", "%s: fault-free write: %v", it.name, err)
			}
			fullCache[fullKey] = full
		}
		mode := c.Choose("mode", len(faultWriterModes))
		k := c.Choose("k", full.Len()+1)
		c.Exec()
		c.Log("%s, writer %d, k=%d of %d: %s", it.name, w, k, full.Len(), faultWriterModes[mode])
		fw := &faultWriter{k: k, mode: mode}
		n, err := do(fw)
		if k >= full.Len() {
			if err != nil || fw.faults > 0 {
				c.Fail("c18:write-success", "%s: error %v although nothing failed", it.name, err)
			}
			if hasCount && n != int64(full.Len()) || len(fw.accepted) != full.Len() {
				c.Fail("c18:write-count", "%s: count %d, file length %d", it.name, n, full.Len())
			}
		} else {
			if fw.faults == 0 {
				c.Fail("c18:write-short", "%s: only %d of %d bytes written", it.name, len(fw.accepted), full.Len())
			}
			if err == nil {
				c.Fail("c18:write-error", "%s: fault at byte %d of %d not reported (%s)", it.name, k, full.Len(), faultWriterModes[mode])
			}
			if hasCount && n != int64(len(fw.accepted)) {
				c.Fail("c18:write-count", "%s: count %d, but %d bytes were accepted (%s)", it.name, n, len(fw.accepted), faultWriterModes[mode])
			}
		}
		c.ObsStr(fmt.Sprint(it.name, w, mode, k, n))
	}

	modes := []string{"truncated ReaderAt", "truncated stream", "truncated stream, one byte at a time", "truncated stream, EOF with data",
		"failing ReaderAt", "failing ReaderAt with partial data", "failing stream", "failing stream, error with data", "failing stream, 7 bytes at a time"}
	readers := func(c *explore.Ctx) {
		items := load(c)
		it := items[c.Choose("font", len(items))]
		mode := c.Choose("mode", len(modes))
		k := c.Choose("k", len(it.data)+1)
		c.Exec()
		c.Log("%s, k=%d of %d: %s", it.name, k, len(it.data), modes[mode])
		var r io.Reader
		faults := func() int { return 0 }
		mk := func(step int, joined bool, err error) {
			s := &stream{data: it.data[:k], step: step, joined: joined, err: err}
			r = s
			if err != io.EOF {
				faults = func() int { return s.faults }
			}
		}
		switch mode {
		case 0:
			r = bytes.NewReader(it.data[:k])
		case 1:
			mk(0, false, io.EOF)
		case 2:
			mk(1, false, io.EOF)
		case 3:
			mk(0, true, io.EOF)
		case 4, 5:
			a := &faultAt{data: it.data, k: k, part: mode == 5}
			r, faults = a, func() int { return a.faults }
		case 6:
			mk(0, false, errInjected)
		case 7:
			mk(0, true, errInjected)
		case 8:
			mk(7, false, errInjected)
		}
		f, err := sfnt.Read(r)
		must := k < it.end
		if mode >= 4 {
			must = faults() > 0 || k < it.end && mode >= 6
		}
		if must && err == nil {
			c.Fail("c18:read-error", "%s: no error (%s at %d of %d, table data ends at %d)", it.name, modes[mode], k, len(it.data), it.end)
		}
		if !must && err != nil && (mode < 4 || k >= len(it.data)) {
			c.Fail("c18:read-success", "%s: %v (%s at %d of %d, table data ends at %d)", it.name, err, modes[mode], k, len(it.data), it.end)
		}
		if err == nil {
			if d := fontDiff(it.ref, f); d != "" {
				c.Fail("c18:read-different", "%s: %s (%s at %d of %d)", it.name, d, modes[mode], k, len(it.data))
			}
		}
		c.ObsStr(fmt.Sprint(it.name, mode, k, err != nil))
	}

	// faults which affect a single table: every access which touches a window
	// of offsets fails, all other accesses work
	windows := func(c *explore.Ctx) {
		items := load(c)
		it := items[c.Choose("font", len(items))]
		width := explore.Pick(c, "width", []int{1, 16})
		k := c.Choose("k", len(it.data))
		c.Exec()
		c.Log("%s, offsets %d+%d fail", it.name, k, width)
		a := &windowAt{data: it.data, lo: k, hi: k + width}
		f, err := sfnt.Read(a)
		if a.faults > 0 && err == nil {
			c.Fail("c18:window-error", "%s: an I/O error for offsets %d+%d was not reported", it.name, k, width)
		}
		if a.faults == 0 {
			if err != nil {
				c.Fail("c18:window-success", "%s: %v", it.name, err)
			}
			if d := fontDiff(it.ref, f); d != "" {
				c.Fail("c18:read-different", "%s: %s", it.name, d)
			}
		}
		c.ObsStr(fmt.Sprint(it.name, width, k, err != nil, a.faults))
	}

	// the n-th access fails, whatever it is
	accesses := func(c *explore.Ctx) {
		items := load(c)
		it := items[c.Choose("font", len(items))]
		if it.accesses == 0 {
			a := &nthAt{data: it.data, n: -1}
			if _, err := sfnt.Read(a); err != nil {
				c.Fail("c18:corpus", "%v", err)
			}
			it.accesses = a.count
		}
		n := c.Choose("n", it.accesses)
		mode := c.Choose("mode", 4)
		c.Exec()
		c.Log("%s, access %d of %d fails, mode %d", it.name, n, it.accesses, mode)
		a := &nthAt{data: it.data, n: n, part: mode&1 != 0, once: mode&2 != 0}
		_, err := sfnt.Read(a)
		if err == nil {
			c.Fail("c18:access-error", "%s: the failure of access %d of %d was not reported", it.name, n, it.accesses)
		}
		c.ObsStr(fmt.Sprint(it.name, n, mode, err != nil))
	}

	cffRead := func(c *explore.Ctx) {
		var items []*c18Item
		for _, it := range load(c) {
			if strings.HasPrefix(it.name, "C") {
				items = append(items, it)
			}
		}
		it := items[c.Choose("font", len(items))]
		t, err := refContainer(it.data, header.ScalerTypeCFF)
		if err != nil {
			c.Fail("c18:corpus", "%v", err)
		}
		data := t["CFF "]
		part := c.Bool("trunc")
		k := c.Choose("k", len(data)+1)
		c.Exec()
		c.Log("%s CFF data, k=%d of %d, truncated %v", it.name, k, len(data), part)
		ref, err := cff.Read(bytes.NewReader(data))
		if err != nil {
			c.Fail("c18:corpus", "%v", err)
		}
		var f *cff.Font
		faults := 0
		if part {
			f, err = cff.Read(bytes.NewReader(data[:k]))
		} else {
			a := &faultAt{data: data, k: k}
			f, err = cff.Read(io.NewSectionReader(a, 0, int64(len(data))))
			faults = a.faults
		}
		if faults > 0 && err == nil {
			c.Fail("c18:cff-error", "%s: fault at %d of %d not reported by cff.Read", it.name, k, len(data))
		}
		if err == nil {
			if d := cffFontDiff(ref, f); d != "" {
				c.Fail("c18:cff-different", "%s: cff.Read of %d of %d bytes: %s", it.name, k, len(data), d)
			}
		} else if k == len(data) {
			c.Fail("c18:cff-success", "%s: %v", it.name, err)
		}
		c.ObsStr(fmt.Sprint(it.name, part, k, err != nil))
	}

	tables := func(c *explore.Ctx) {
		// header.Write with faults, for tables of all lengths modulo 4
		n := 1 + c.Choose("tables", 3)
		t := map[string][]byte{}
		for i := range n {
			t[[]string{"aaaa", "head", "OS/2"}[i]] = bytes.Repeat([]byte{byte(i + 1)}, explore.Pick(c, "len", []int{0, 1, 2, 3, 4, 13}))
		}
		full := &bytes.Buffer{}
		if _, err := header.Write(full, header.ScalerTypeTrueType, t); err != nil {
			c.Fail("c18:write", "%v", err)
		}
		mode := c.Choose("mode", len(faultWriterModes))
		k := c.Choose("k", full.Len()+1)
		c.Exec()
		fw := &faultWriter{k: k, mode: mode}
		m, err := header.Write(fw, header.ScalerTypeTrueType, t)
		if (err != nil) != (k < full.Len()) {
			c.Fail("c18:header-error", "error %v for fault at %d of %d (%s)", err, k, full.Len(), faultWriterModes[mode])
		}
		if m != int64(len(fw.accepted)) {
			c.Fail("c18:header-count", "count %d, but %d bytes were accepted (%s)", m, len(fw.accepted), faultWriterModes[mode])
		}
		if !bytes.HasPrefix(full.Bytes(), fw.accepted) {
			c.Fail("c18:header-data", "the accepted bytes are not the start of the file (%s)", faultWriterModes[mode])
		}
		c.ObsStr(fmt.Sprint(n, mode, k, m, full.Len()))
	}

	run.Register(&run.Property{
		ID: "C18", Level: "fault_enumeration",
		Rule: "one execution = one (font, operation, fault mode, fault position): the real reader or writer runs against an injector which fails at exactly that byte; the returned error and byte count are compared with what the injector did, and a font which is returned without error must equal the font in the complete file; distinct observations are distinct outcomes",
		Assumptions: []string{
			"truncation inside the padding after the last table need not be noticed",
			"a ReaderAt fault must be reported if the library touched a failing offset",
		},
		Drivers: []run.Driver{
			{Name: "writers", Run: writers, Weight: 2, Frontier: 3, Bounds: "19 (thorough 44) fonts x every writer (Write, PDF writers, cff.Font.Write) x 6 fault modes x every fault position 0..len"},
			{Name: "header-write", Run: tables, Weight: 1, Bounds: "1-3 tables of 6 lengths each x 6 fault modes x every fault position"},
			{Name: "readers", Run: readers, Weight: 2, Frontier: 2, Bounds: "22 (thorough 47) files x 9 reader kinds (seekable, streaming, truncated, failing, with partial data) x every position 0..len"},
			{Name: "windows", Run: windows, Weight: 2, Frontier: 2, Bounds: "22 (thorough 47) files x every window of 1 or 16 failing offsets, all other offsets readable"},
			{Name: "accesses", Run: accesses, Weight: 1, Frontier: 2, Bounds: "22 (thorough 47) files x every ReadAt call made while reading the file: it fails (once or for good, with or without partial data)"},
			{Name: "cff", Run: cffRead, Weight: 1, Frontier: 2, Bounds: "the CFF data of the corpus fonts, truncated or failing at every position"},
		},
	})
}

// windowAt fails for accesses which touch [lo, hi).
type windowAt struct {
	data   []byte
	lo, hi int
	faults int
}

func (r *windowAt) Read(p []byte) (int, error) { panic("Read called on a ReaderAt") }

func (r *windowAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	end := min(off+int64(len(p)), int64(len(r.data)))
	if off < int64(r.hi) && int64(r.lo) < end {
		r.faults++
		return 0, errInjected
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// nthAt fails at access number n.
type nthAt struct {
	data       []byte
	n, count   int
	part, once bool
}

func (r *nthAt) Read(p []byte) (int, error) { panic("Read called on a ReaderAt") }

func (r *nthAt) ReadAt(p []byte, off int64) (int, error) {
	i := r.count
	r.count++
	n := 0
	if off < int64(len(r.data)) {
		n = copy(p, r.data[off:])
	}
	if i == r.n || r.n >= 0 && i > r.n && !r.once {
		if !r.part {
			n = 0
		}
		return n / 2, errInjected
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
