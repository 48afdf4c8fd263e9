package checks

import (
	"fmt"
	"math"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------------------
// An independent reader for CFF data, written from Adobe TN5176.

type refReal struct {
	isInt bool
	i     int64
	f     float64
	digs  int // number of significant digits used for reals
}

func (r refReal) val() float64 {
	if r.isInt {
		return float64(r.i)
	}
	return r.f
}

type refCFFDict struct {
	keys []int
	args map[int][]refReal
}

func (d *refCFFDict) num(op int, def float64) float64 {
	if a, ok := d.args[op]; ok && len(a) == 1 {
		return a[0].val()
	}
	return def
}

func (d *refCFFDict) int(op int, def int) int {
	if a, ok := d.args[op]; ok && len(a) == 1 && a[0].isInt {
		return int(a[0].i)
	}
	return def
}

func refParseDict(b []byte) (*refCFFDict, error) {
	d := &refCFFDict{args: map[int][]refReal{}}
	var st []refReal
	for i := 0; i < len(b); {
		c := int(b[i])
		switch {
		case c <= 21:
			op := c
			i++
			if c == 12 {
				if i >= len(b) {
					return nil, fmt.Errorf("truncated escape")
				}
				op = 1200 + int(b[i])
				i++
			}
			if _, dup := d.args[op]; dup {
				return nil, fmt.Errorf("duplicate operator %d", op)
			}
			if len(st) == 0 {
				return nil, fmt.Errorf("operator %d without operands", op)
			}
			if len(st) > 48 {
				return nil, fmt.Errorf("operator %d with %d operands", op, len(st))
			}
			d.keys = append(d.keys, op)
			d.args[op] = st
			st = nil
		case c == 28:
			if i+3 > len(b) {
				return nil, fmt.Errorf("truncated")
			}
			st = append(st, refReal{isInt: true, i: int64(rdI16(b, i+1))})
			i += 3
		case c == 29:
			if i+5 > len(b) {
				return nil, fmt.Errorf("truncated")
			}
			st = append(st, refReal{isInt: true, i: int64(int32(rdU32(b, i+1)))})
			i += 5
		case c == 30:
			i++
			s := ""
			n := 0
			done := false
			for !done {
				if i >= len(b) {
					return nil, fmt.Errorf("truncated real")
				}
				for _, nib := range []byte{b[i] >> 4, b[i] & 15} {
					if done {
						if nib != 15 {
							return nil, fmt.Errorf("junk after end of real")
						}
						continue
					}
					switch {
					case nib < 10:
						s += string('0' + rune(nib))
						n++
					case nib == 10:
						s += "."
					case nib == 11:
						s += "e"
					case nib == 12:
						s += "e-"
					case nib == 14:
						s += "-"
					case nib == 15:
						done = true
					default:
						return nil, fmt.Errorf("reserved nibble")
					}
				}
				i++
			}
			f, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven)
			if err != nil {
				return nil, fmt.Errorf("bad real %q", s)
			}
			v, _ := f.Float64()
			st = append(st, refReal{f: v, digs: n})
		case c >= 32 && c <= 246:
			st = append(st, refReal{isInt: true, i: int64(c) - 139})
			i++
		case c >= 247 && c <= 254:
			if i+2 > len(b) {
				return nil, fmt.Errorf("truncated")
			}
			v := (int64(c)-247)*256 + int64(b[i+1]) + 108
			if c >= 251 {
				v = -(int64(c)-251)*256 - int64(b[i+1]) - 108
			}
			st = append(st, refReal{isInt: true, i: v})
			i += 2
		default:
			return nil, fmt.Errorf("reserved byte %d", c)
		}
	}
	if len(st) > 0 {
		return nil, fmt.Errorf("trailing operands")
	}
	return d, nil
}

// section of the file which has been accounted for
type refSpan struct {
	from, to int
	what     string
}

type refFD struct {
	dict, priv *refCFFDict
	subrs      [][]byte
	matrix     [6]float64
	defW, nomW float64
}

type refCFFFont struct {
	name        string
	top         *refCFFDict
	strings     [][]byte
	gsubrs      [][]byte
	charStrings [][]byte
	charset     []int
	isCID       bool
	encoding    [256]int // gid
	fdSelect    []int
	fds         []refFD
	matrix      [6]float64
	spans       []refSpan
	formats     string
}

func (r *refCFFFont) sid(s int) (string, error) {
	if s < 0 {
		return "", fmt.Errorf("negative SID")
	}
	if s < len(cffStdStrings) {
		return cffStdStrings[s], nil
	}
	s -= len(cffStdStrings)
	if s >= len(r.strings) {
		return "", fmt.Errorf("SID %d out of range", s+len(cffStdStrings))
	}
	return string(r.strings[s]), nil
}

func (r *refCFFFont) str(op int) (string, bool, error) {
	a, ok := r.top.args[op]
	if !ok {
		return "", false, nil
	}
	if len(a) != 1 || !a[0].isInt {
		return "", true, fmt.Errorf("bad string operand for %d", op)
	}
	s, err := r.sid(int(a[0].i))
	return s, true, err
}

func (r *refCFFFont) glyphName(gid int) string {
	s, err := r.sid(r.charset[gid])
	if err != nil {
		return "?" + err.Error()
	}
	return s
}

// refIndex reads an INDEX and returns the end position.
func refIndex(b []byte, pos int) ([][]byte, int, error) {
	if pos+2 > len(b) {
		return nil, 0, fmt.Errorf("INDEX at %d beyond end", pos)
	}
	n := rdU16(b, pos)
	if n == 0 {
		return nil, pos + 2, nil
	}
	if pos+3 > len(b) {
		return nil, 0, fmt.Errorf("truncated INDEX")
	}
	sz := int(b[pos+2])
	if sz < 1 || sz > 4 {
		return nil, 0, fmt.Errorf("bad offSize %d", sz)
	}
	base := pos + 3 + (n+1)*sz - 1
	if base+1 > len(b) {
		return nil, 0, fmt.Errorf("truncated INDEX offsets")
	}
	off := make([]int, n+1)
	for i := range off {
		v := 0
		for j := 0; j < sz; j++ {
			v = v<<8 | int(b[pos+3+i*sz+j])
		}
		off[i] = v
		if i == 0 && v != 1 {
			return nil, 0, fmt.Errorf("first INDEX offset is %d", v)
		}
		if i > 0 && v < off[i-1] {
			return nil, 0, fmt.Errorf("INDEX offsets decrease")
		}
		if base+v > len(b) {
			return nil, 0, fmt.Errorf("INDEX data beyond end")
		}
	}
	res := make([][]byte, n)
	for i := range res {
		res[i] = b[base+off[i] : base+off[i+1]]
	}
	return res, base + off[n], nil
}

func refMatrix(d *refCFFDict, def [6]float64) ([6]float64, error) {
	a, ok := d.args[1207]
	if !ok {
		return def, nil
	}
	var m [6]float64
	if len(a) != 6 {
		return m, fmt.Errorf("FontMatrix with %d entries", len(a))
	}
	for i := range m {
		m[i] = a[i].val()
	}
	return m, nil
}

var refStdEncoding, refExpertEncoding = func() (a, b [256]int) {
	set := func(t *[256]int, code, sid, n int) {
		for i := 0; i < n; i++ {
			t[code+i] = sid + i
		}
	}
	for _, r := range [][3]int{{32, 1, 95}, {161, 96, 15}, {177, 111, 4}, {182, 115, 8}, {191, 123, 1}, {193, 124, 8}, {202, 132, 2},
		{205, 134, 4}, {225, 138, 1}, {227, 139, 1}, {232, 140, 4}, {241, 144, 1}, {245, 145, 1}, {248, 146, 4}} {
		set(&a, r[0], r[1], r[2])
	}
	for _, r := range [][3]int{{32, 1, 1}, {33, 229, 2}, {36, 231, 8}, {44, 13, 3}, {47, 99, 1}, {48, 239, 10}, {58, 27, 2}, {60, 249, 4},
		{65, 253, 5}, {73, 258, 1}, {76, 259, 4}, {82, 263, 3}, {86, 266, 1}, {87, 109, 2}, {89, 267, 3}, {93, 270, 34}, {161, 304, 3},
		{166, 307, 5}, {172, 312, 1}, {175, 313, 1}, {178, 314, 2}, {182, 316, 3}, {188, 158, 1}, {189, 155, 1}, {190, 163, 1},
		{191, 319, 7}, {200, 326, 1}, {201, 150, 1}, {202, 164, 1}, {203, 169, 1}, {204, 327, 52}} {
		set(&b, r[0], r[1], r[2])
	}
	return
}()

var refExpertCharset, refExpertSubset = func() (a, b []int) {
	seq := func(rs ...int) (t []int) {
		for i := 0; i < len(rs); i += 2 {
			for v := rs[i]; v <= rs[i+1]; v++ {
				t = append(t, v)
			}
		}
		return
	}
	a = seq(0, 1, 229, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 266, 109, 110, 267, 318, 158, 158, 155, 155, 163, 163, 319, 326, 150, 150, 164, 164, 169, 169, 327, 378)
	b = seq(0, 1, 231, 232, 235, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 251, 253, 266, 109, 110, 267, 270, 272, 272, 300, 302, 305, 305, 314, 315,
		158, 158, 155, 155, 163, 163, 320, 326, 150, 150, 164, 164, 169, 169, 327, 346)
	return
}()

var refDefaultMatrix = [6]float64{0.001, 0, 0, 0.001, 0, 0}

// refParseCFF reads a CFF file with one font.
func refParseCFF(b []byte) (*refCFFFont, error) {
	r := &refCFFFont{}
	if len(b) < 4 || b[0] != 1 || b[2] < 4 || b[3] < 1 || b[3] > 4 {
		return nil, fmt.Errorf("bad header % x", b[:min(4, len(b))])
	}
	if limit := uint64(1) << (8 * uint(b[3])); uint64(len(b)) > limit {
		return nil, fmt.Errorf("header offSize %d for %d bytes", b[3], len(b))
	}
	span := func(from, to int, what string) { r.spans = append(r.spans, refSpan{from, to, what}) }
	pos := int(b[2])
	span(0, pos, "header")
	var names, tops [][]byte
	var err error
	rd := func(what string) (res [][]byte) {
		if err != nil {
			return nil
		}
		start := pos
		res, pos, err = refIndex(b, pos)
		if err != nil {
			err = fmt.Errorf("%s: %w", what, err)
		}
		span(start, pos, what)
		return
	}
	names = rd("Name INDEX")
	tops = rd("Top DICT INDEX")
	r.strings = rd("String INDEX")
	r.gsubrs = rd("Global Subr INDEX")
	if err != nil {
		return nil, err
	}
	if len(names) != 1 || len(tops) != 1 {
		return nil, fmt.Errorf("%d names, %d top dicts", len(names), len(tops))
	}
	r.name = string(names[0])
	if r.top, err = refParseDict(tops[0]); err != nil {
		return nil, fmt.Errorf("top dict: %w", err)
	}
	if r.top.int(1206, 2) != 2 {
		return nil, fmt.Errorf("charstring type")
	}
	ros, isCID := r.top.args[1230]
	r.isCID = isCID
	if isCID && (len(ros) != 3 || r.top.keys[0] != 1230) {
		return nil, fmt.Errorf("bad ROS")
	}
	readAt := func(op int, what string) ([][]byte, error) {
		p := r.top.int(op, -1)
		if p < 4 || p > len(b) {
			return nil, fmt.Errorf("%s at %d", what, p)
		}
		res, end, err := refIndex(b, p)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", what, err)
		}
		span(p, end, what)
		return res, nil
	}
	if r.charStrings, err = readAt(17, "CharStrings"); err != nil {
		return nil, err
	}
	n := len(r.charStrings)
	if n == 0 {
		return nil, fmt.Errorf("no glyphs")
	}

	// charset
	switch p := r.top.int(15, 0); {
	case p <= 2:
		if isCID {
			return nil, fmt.Errorf("predefined charset in a CID font")
		}
		var tab []int
		switch p {
		case 0:
			for i := 0; i < 229; i++ {
				tab = append(tab, i)
			}
		case 1:
			tab = refExpertCharset
		case 2:
			tab = refExpertSubset
		}
		if n > len(tab) {
			return nil, fmt.Errorf("predefined charset too short")
		}
		r.charset = tab[:n]
		r.formats += fmt.Sprintf("cs:p%d ", p)
	default:
		if p >= len(b) {
			return nil, fmt.Errorf("charset at %d", p)
		}
		r.charset = append(r.charset, 0)
		q := p + 1
		need := func(k int) bool { return q+k <= len(b) }
		for len(r.charset) < n {
			switch b[p] {
			case 0:
				if !need(2) {
					return nil, fmt.Errorf("truncated charset")
				}
				r.charset = append(r.charset, rdU16(b, q))
				q += 2
			case 1, 2:
				k := 2 + int(b[p])
				if !need(k) {
					return nil, fmt.Errorf("truncated charset")
				}
				first, left := rdU16(b, q), int(b[q+2])
				if b[p] == 2 {
					left = rdU16(b, q+2)
				}
				q += k
				for i := 0; i <= left; i++ {
					r.charset = append(r.charset, first+i)
				}
				if len(r.charset) > n || first+left > 65535 {
					return nil, fmt.Errorf("charset range too long")
				}
			default:
				return nil, fmt.Errorf("charset format %d", b[p])
			}
		}
		span(p, q, "charset")
		r.formats += fmt.Sprintf("cs:%d ", b[p])
	}
	seen := make(map[int]bool, n)
	for _, s := range r.charset {
		if seen[s] {
			return nil, fmt.Errorf("SID/CID %d repeated", s)
		}
		seen[s] = true
	}

	// encoding
	if !isCID {
		bySID := make(map[int]int, n)
		for gid, s := range r.charset {
			bySID[s] = gid
		}
		switch p := r.top.int(16, 0); p {
		case 0, 1:
			tab := &refStdEncoding
			if p == 1 {
				tab = &refExpertEncoding
			}
			for code, s := range tab {
				if s != 0 {
					r.encoding[code] = bySID[s]
				}
			}
			r.formats += fmt.Sprintf("enc:p%d ", p)
		default:
			if p < 4 || p+2 > len(b) {
				return nil, fmt.Errorf("encoding at %d", p)
			}
			f := b[p]
			cnt := int(b[p+1])
			q := p + 2
			gid := 1
			put := func(code int) error {
				if gid >= n {
					return fmt.Errorf("encoding for glyph %d of %d", gid, n)
				}
				if code > 255 || r.encoding[code] != 0 {
					return fmt.Errorf("code %d encoded twice or too large", code)
				}
				r.encoding[code] = gid
				gid++
				return nil
			}
			for i := 0; i < cnt; i++ {
				switch f & 127 {
				case 0:
					if q >= len(b) {
						return nil, fmt.Errorf("truncated encoding")
					}
					if err := put(int(b[q])); err != nil {
						return nil, err
					}
					q++
				case 1:
					if q+2 > len(b) {
						return nil, fmt.Errorf("truncated encoding")
					}
					for j := 0; j <= int(b[q+1]); j++ {
						if err := put(int(b[q]) + j); err != nil {
							return nil, err
						}
					}
					q += 2
				default:
					return nil, fmt.Errorf("encoding format %d", f)
				}
			}
			if f&128 != 0 {
				if q >= len(b) || q+1+3*int(b[q]) > len(b) {
					return nil, fmt.Errorf("truncated supplement")
				}
				k := int(b[q])
				q++
				for i := 0; i < k; i++ {
					code, s := int(b[q]), rdU16(b, q+1)
					q += 3
					g, ok := bySID[s]
					if !ok {
						return nil, fmt.Errorf("supplement for missing SID %d", s)
					}
					if r.encoding[code] != 0 {
						return nil, fmt.Errorf("supplement overrides code %d", code)
					}
					r.encoding[code] = g
				}
			}
			span(p, q, "Encoding")
			r.formats += fmt.Sprintf("enc:%d ", f)
		}
	}

	// font dicts
	readPriv := func(fd *refFD, what string) error {
		a := fd.dict.args[18]
		if len(a) != 2 || !a[0].isInt || !a[1].isInt {
			return fmt.Errorf("%s: no Private", what)
		}
		sz, p := int(a[0].i), int(a[1].i)
		if sz < 0 || p < 4 || p+sz > len(b) {
			return fmt.Errorf("%s: Private at %d+%d of %d", what, p, sz, len(b))
		}
		span(p, p+sz, what+" Private")
		var err error
		if fd.priv, err = refParseDict(b[p : p+sz]); err != nil {
			return fmt.Errorf("%s: private dict: %w", what, err)
		}
		if so := fd.priv.int(19, 0); so != 0 {
			if p+so < 4 || p+so > len(b) {
				return fmt.Errorf("%s: Subrs at %d", what, p+so)
			}
			var end int
			if fd.subrs, end, err = refIndex(b, p+so); err != nil {
				return fmt.Errorf("%s: Subrs: %w", what, err)
			}
			span(p+so, end, "Subrs")
		}
		fd.defW = fd.priv.num(20, 0)
		fd.nomW = fd.priv.num(21, 0)
		return nil
	}
	r.fdSelect = make([]int, n)
	if isCID {
		if r.matrix, err = refMatrix(r.top, [6]float64{1, 0, 0, 1, 0, 0}); err != nil {
			return nil, err
		}
		fa, err := readAt(1236, "FDArray")
		if err != nil {
			return nil, err
		}
		if len(fa) < 1 || len(fa) > 256 {
			return nil, fmt.Errorf("%d font dicts", len(fa))
		}
		for i, fb := range fa {
			var fd refFD
			if fd.dict, err = refParseDict(fb); err != nil {
				return nil, fmt.Errorf("font dict %d: %w", i, err)
			}
			if fd.matrix, err = refMatrix(fd.dict, refDefaultMatrix); err != nil {
				return nil, err
			}
			if err = readPriv(&fd, fmt.Sprintf("FD %d", i)); err != nil {
				return nil, err
			}
			r.fds = append(r.fds, fd)
		}
		p := r.top.int(1237, -1)
		if p < 4 || p >= len(b) {
			return nil, fmt.Errorf("FDSelect at %d", p)
		}
		switch b[p] {
		case 0:
			if p+1+n > len(b) {
				return nil, fmt.Errorf("truncated FDSelect")
			}
			for i := 0; i < n; i++ {
				r.fdSelect[i] = int(b[p+1+i])
			}
			span(p, p+1+n, "FDSelect")
		case 3:
			k := rdU16(b, p+1)
			if k == 0 || p+5+3*k > len(b) {
				return nil, fmt.Errorf("FDSelect with %d ranges", k)
			}
			for i := 0; i < k; i++ {
				from, to := rdU16(b, p+3+3*i), rdU16(b, p+3+3*i+3)
				if i == 0 && from != 0 || from >= to || i == k-1 && to != n || to > n {
					return nil, fmt.Errorf("FDSelect range %d-%d of %d", from, to, n)
				}
				for g := from; g < to; g++ {
					r.fdSelect[g] = int(b[p+5+3*i])
				}
			}
			span(p, p+5+3*k, "FDSelect")
		default:
			return nil, fmt.Errorf("FDSelect format %d", b[p])
		}
		r.formats += fmt.Sprintf("fds:%d ", b[p])
		for g, fd := range r.fdSelect {
			if fd >= len(r.fds) {
				return nil, fmt.Errorf("glyph %d uses FD %d of %d", g, fd, len(r.fds))
			}
		}
	} else {
		if r.matrix, err = refMatrix(r.top, refDefaultMatrix); err != nil {
			return nil, err
		}
		fd := refFD{dict: r.top}
		if err = readPriv(&fd, "top"); err != nil {
			return nil, err
		}
		r.fds = []refFD{fd}
	}

	// no two structures overlap (identical spans, e.g. shared Subrs, are fine)
	ss := append([]refSpan(nil), r.spans...)
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].from < ss[j].from })
	for i := 1; i < len(ss); i++ {
		a, c := ss[i-1], ss[i]
		if c.from < a.to && !(a.from == c.from && a.to == c.to && a.what == c.what) && c.to > c.from {
			return nil, fmt.Errorf("%s (%d-%d) overlaps %s (%d-%d)", a.what, a.from, a.to, c.what, c.from, c.to)
		}
	}
	return r, nil
}

// ---------------------------------------------------------------------------
// An independent Type 2 charstring interpreter, written from Adobe TN5177.
// All arithmetic is done on 16.16 fixed point numbers.

type t2Op struct {
	op   byte // m l c h n
	args []int64
	mask []byte
}

type t2Result struct {
	ops          []t2Op
	hstem, vstem []int64
	hasWidth     bool
	width        int64 // relative to nominalWidthX
	maxStack     int
	maxDepth     int
	operators    map[string]int
	random       bool // the random operator was used
	inexact      bool // an arithmetic result was rounded
	unspec       bool // the result is not determined by the specification
}

func (r *t2Result) String() string {
	s := ""
	f := func(x int64) string { return fmt.Sprintf("%g", float64(x)/65536) }
	if r.hasWidth {
		s += "w=" + f(r.width) + " "
	}
	for _, x := range r.hstem {
		s += "h" + f(x) + " "
	}
	for _, x := range r.vstem {
		s += "v" + f(x) + " "
	}
	for _, o := range r.ops {
		s += string(o.op)
		for i, a := range o.args {
			if i > 0 {
				s += ","
			}
			s += f(a)
		}
		if o.mask != nil {
			s += fmt.Sprintf("%x", o.mask)
		}
		s += " "
	}
	return s
}

type t2Machine struct {
	gsubrs, subrs [][]byte
	strict        bool // require exact operand counts
	st            []int64
	res           *t2Result
	x, y          int64
	store         [32]int64
	stored        [32]bool
	moved         bool
	hintsDone     bool // no further stem operators allowed
	widthDone     bool
	steps         int
	depth         int
	ended         bool
}

type t2Error struct{ kind string }

func (e *t2Error) Error() string { return e.kind }

func t2err(kind string, args ...any) error { return &t2Error{fmt.Sprintf(kind, args...)} }

func t2Bias(n int) int {
	switch {
	case n < 1240:
		return 107
	case n < 33900:
		return 1131
	}
	return 32768
}

// t2Run executes a charstring.
func t2Run(code []byte, subrs, gsubrs [][]byte, strict bool) (*t2Result, error) {
	m := &t2Machine{gsubrs: gsubrs, subrs: subrs, strict: strict, res: &t2Result{operators: map[string]int{}}}
	if err := m.run(code); err != nil {
		return m.res, err
	}
	if !m.ended {
		return m.res, t2err("no endchar")
	}
	return m.res, nil
}

func (m *t2Machine) push(x int64) error {
	m.st = append(m.st, x)
	if len(m.st) > m.res.maxStack {
		m.res.maxStack = len(m.st)
	}
	if len(m.st) > 48 {
		return t2err("stack overflow")
	}
	return nil
}

func (m *t2Machine) width(present bool) {
	if m.widthDone {
		return
	}
	m.widthDone = true
	if present {
		m.res.hasWidth = true
		m.res.width = m.st[0]
		m.st = m.st[1:]
	}
}

func (m *t2Machine) move(dx, dy int64) {
	m.x += dx
	m.y += dy
	m.inRange(m.x, m.y)
	m.moved = true
	m.hintsDone = true
	m.res.ops = append(m.res.ops, t2Op{op: 'm', args: []int64{m.x, m.y}})
}

func (m *t2Machine) line(dx, dy int64) {
	m.x += dx
	m.y += dy
	m.inRange(m.x, m.y)
	m.res.ops = append(m.res.ops, t2Op{op: 'l', args: []int64{m.x, m.y}})
}

func (m *t2Machine) curve(a, b, c, d, e, f int64) {
	x1, y1 := m.x+a, m.y+b
	x2, y2 := x1+c, y1+d
	m.x, m.y = x2+e, y2+f
	m.inRange(a, b, c, d, e, f, x1, y1, x2, y2, m.x, m.y)
	m.res.ops = append(m.res.ops, t2Op{op: 'c', args: []int64{x1, y1, x2, y2, m.x, m.y}})
}

func (m *t2Machine) stems(list *[]int64) {
	var pos int64
	for i := 0; i+1 < len(m.st); i += 2 {
		pos += m.st[i]
		m.inRange(pos, pos+m.st[i+1])
		*list = append(*list, pos)
		pos += m.st[i+1]
		*list = append(*list, pos)
	}
}

func (m *t2Machine) run(code []byte) error {
	m.depth++
	defer func() { m.depth-- }()
	m.res.maxDepth = max(m.res.maxDepth, m.depth)
	if m.depth > 11 {
		return t2err("subroutines nested too deeply")
	}
	need := func(n int) error {
		if len(m.st) < n {
			return t2err("stack underflow")
		}
		return nil
	}
	exact := func(ok bool) error {
		if m.strict && !ok {
			return t2err("illegal operand count %d", len(m.st))
		}
		return nil
	}
	for i := 0; i < len(code); {
		if m.steps++; m.steps > 1<<20 {
			return t2err("too many steps")
		}
		b := int(code[i])
		// numbers
		if b == 28 || b >= 32 {
			var v int64
			var l int
			switch {
			case b == 28:
				if l = 3; i+l <= len(code) {
					v = int64(rdI16(code, i+1)) << 16
				}
			case b <= 246:
				l = 1
				v = int64(b-139) << 16
			case b <= 250:
				if l = 2; i+l <= len(code) {
					v = int64((b-247)*256+int(code[i+1])+108) << 16
				}
			case b <= 254:
				if l = 2; i+l <= len(code) {
					v = int64(-(b-251)*256-int(code[i+1])-108) << 16
				}
			default:
				if l = 5; i+l <= len(code) {
					v = int64(int32(rdU32(code, i+1)))
				}
			}
			if i+l > len(code) {
				return t2err("truncated number")
			}
			i += l
			if err := m.push(v); err != nil {
				return err
			}
			continue
		}
		op := b
		i++
		if b == 12 {
			if i >= len(code) {
				return t2err("truncated operator")
			}
			op = 1200 + int(code[i])
			i++
		}
		m.res.operators[fmt.Sprint(op)]++
		draws := false
		var err error
		switch op {
		case 21, 22, 4: // moveto
			k := 2
			if op != 21 {
				k = 1
			}
			m.width(len(m.st) > k)
			if err = need(k); err == nil {
				err = exact(len(m.st) == k)
			}
			if err == nil {
				switch op {
				case 21:
					m.move(m.st[0], m.st[1])
				case 22:
					m.move(m.st[0], 0)
				case 4:
					m.move(0, m.st[0])
				}
			}
			m.st = m.st[:0]
		case 5:
			draws = true
			if err = need(2); err == nil {
				err = exact(len(m.st)%2 == 0)
			}
			if err == nil && m.moved {
				for j := 0; j+1 < len(m.st); j += 2 {
					m.line(m.st[j], m.st[j+1])
				}
			}
			m.st = m.st[:0]
		case 6, 7:
			draws = true
			err = need(1)
			for j, v := range m.st {
				if (j%2 == 0) == (op == 6) {
					m.line(v, 0)
				} else {
					m.line(0, v)
				}
			}
			m.st = m.st[:0]
		case 8, 24, 25:
			draws = true
			minArgs := 6
			if op != 8 {
				minArgs = 8
			}
			if err = need(minArgs); err == nil {
				n := len(m.st)
				err = exact(op == 8 && n%6 == 0 || op == 24 && n%6 == 2 || op == 25 && n%2 == 0)
			}
			if err == nil {
				s := m.st
				if op == 25 {
					for len(s) >= 8 {
						m.line(s[0], s[1])
						s = s[2:]
					}
				}
				for len(s) >= 6 {
					m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
					s = s[6:]
				}
				if op == 24 && len(s) >= 2 {
					m.line(s[0], s[1])
				}
			}
			m.st = m.st[:0]
		case 27, 26: // hhcurveto, vvcurveto
			draws = true
			if err = need(4); err == nil {
				err = exact(len(m.st)%4 <= 1)
			}
			if err == nil {
				s := m.st
				var first int64
				if len(s)%4 == 1 {
					first, s = s[0], s[1:]
				}
				for ; len(s) >= 4; s = s[4:] {
					if op == 27 {
						m.curve(s[0], first, s[1], s[2], s[3], 0)
					} else {
						m.curve(first, s[0], s[1], s[2], 0, s[3])
					}
					first = 0
				}
			}
			m.st = m.st[:0]
		case 31, 30: // hvcurveto, vhcurveto
			draws = true
			if err = need(4); err == nil {
				err = exact(len(m.st)%4 <= 1)
			}
			if err == nil {
				s := m.st
				h := op == 31
				for len(s) >= 4 {
					var last int64
					if len(s) == 5 {
						last = s[4]
					}
					if h {
						m.curve(s[0], 0, s[1], s[2], last, s[3])
					} else {
						m.curve(0, s[0], s[1], s[2], s[3], last)
					}
					h = !h
					s = s[4:]
				}
			}
			m.st = m.st[:0]
		case 1235: // flex
			draws = true
			if err = need(13); err == nil {
				err = exact(len(m.st) == 13)
				s := m.st
				m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
				m.curve(s[6], s[7], s[8], s[9], s[10], s[11])
			}
			m.st = m.st[:0]
		case 1234: // hflex
			draws = true
			if err = need(7); err == nil {
				err = exact(len(m.st) == 7)
				s := m.st
				y0 := m.y
				m.curve(s[0], 0, s[1], s[2], s[3], 0)
				m.curve(s[4], 0, s[5], y0-m.y, s[6], 0)
			}
			m.st = m.st[:0]
		case 1236: // hflex1
			draws = true
			if err = need(9); err == nil {
				err = exact(len(m.st) == 9)
				s := m.st
				y0 := m.y
				m.curve(s[0], s[1], s[2], s[3], s[4], 0)
				m.curve(s[5], 0, s[6], s[7], s[8], y0-(m.y+s[7]))
			}
			m.st = m.st[:0]
		case 1237: // flex1
			draws = true
			if err = need(11); err == nil {
				err = exact(len(m.st) == 11)
				s := m.st
				x0, y0 := m.x, m.y
				var dx, dy int64
				for j := 0; j < 10; j += 2 {
					dx += s[j]
					dy += s[j+1]
				}
				m.curve(s[0], s[1], s[2], s[3], s[4], s[5])
				px, py := m.x+s[6]+s[8], m.y+s[7]+s[9]
				if absI(dx) > absI(dy) {
					m.curve(s[6], s[7], s[8], s[9], s[10], y0-py)
				} else {
					m.curve(s[6], s[7], s[8], s[9], x0-px, s[10])
				}
			}
			m.st = m.st[:0]
		case 1, 18, 3, 23: // stems
			if m.hintsDone {
				err = t2err("stem operator too late")
				break
			}
			m.width(len(m.st)%2 == 1)
			if err = need(2); err == nil {
				err = exact(len(m.st)%2 == 0)
			}
			if op == 1 || op == 18 {
				m.stems(&m.res.hstem)
			} else {
				m.stems(&m.res.vstem)
			}
			m.st = m.st[:0]
		case 19, 20: // masks
			m.width(len(m.st)%2 == 1)
			if len(m.st) > 0 {
				if m.hintsDone {
					err = t2err("stem operator too late")
					break
				}
				err = exact(len(m.st)%2 == 0)
				m.stems(&m.res.vstem)
			}
			m.hintsDone = true
			m.st = m.st[:0]
			k := ((len(m.res.hstem)+len(m.res.vstem))/2 + 7) / 8
			if k == 0 {
				err = t2err("mask without stems")
				break
			}
			if i+k > len(code) {
				err = t2err("truncated mask")
				break
			}
			c := byte('h')
			if op == 20 {
				c = 'n'
			}
			m.res.ops = append(m.res.ops, t2Op{op: c, mask: append([]byte{}, code[i:i+k]...)})
			i += k
		case 1203, 1204, 1210, 1211, 1212, 1215, 1224, 1228: // binary
			if err = need(2); err != nil {
				break
			}
			k := len(m.st) - 2
			a, c := m.st[k], m.st[k+1]
			m.st = m.st[:k]
			bool1 := func(v bool) int64 {
				if v {
					return 1 << 16
				}
				return 0
			}
			switch op {
			case 1203, 1204, 1215:
				m.res.unspec = m.res.unspec || m.res.inexact
			case 1212:
				m.res.unspec = m.res.unspec || m.res.inexact
				m.res.inexact = m.res.inexact || c != 0 && (a<<16)%c != 0
			case 1224:
				m.res.unspec = m.res.unspec || m.res.inexact
				m.res.inexact = m.res.inexact || (a*c)&0xffff != 0
			}
			switch op {
			case 1203:
				m.st = append(m.st, bool1(a != 0 && c != 0))
			case 1204:
				m.st = append(m.st, bool1(a != 0 || c != 0))
			case 1210:
				m.st = append(m.st, a+c)
			case 1211:
				m.st = append(m.st, a-c)
			case 1212:
				if c == 0 {
					err = t2err("division by zero")
					break
				}
				m.st = append(m.st, int64(math.Round(float64(a)/float64(c)*65536)))
			case 1215:
				m.st = append(m.st, bool1(a == c))
			case 1224:
				p := a * c
				m.st = append(m.st, (p+1<<15)>>16)
			case 1228:
				m.st = append(m.st, c, a)
			}
		case 1205, 1209, 1214, 1226, 1218, 1227: // unary
			if err = need(1); err != nil {
				break
			}
			k := len(m.st) - 1
			a := m.st[k]
			switch op {
			case 1205:
				m.res.unspec = m.res.unspec || m.res.inexact
				m.st[k] = 0
				if a == 0 {
					m.st[k] = 1 << 16
				}
			case 1209:
				m.st[k] = absI(a)
			case 1214:
				m.st[k] = -a
			case 1226:
				if a < 0 {
					err = t2err("sqrt of a negative number")
					break
				}
				m.res.unspec = m.res.unspec || m.res.inexact
				m.st[k] = int64(math.Round(math.Sqrt(float64(a)/65536) * 65536))
				m.res.inexact = m.res.inexact || m.st[k]*m.st[k] != a<<16
			case 1218:
				m.st = m.st[:k]
			case 1227:
				err = m.push(a)
			}
		case 1223: // random
			m.res.random = true
			err = m.push(40501)
		case 1229: // index
			if err = need(2); err != nil {
				break
			}
			k := len(m.st) - 1
			m.integer(m.st[k])
			j := int(m.st[k] >> 16)
			if j < 0 {
				j = 0
			}
			if k-1-j < 0 {
				err = t2err("stack underflow")
				break
			}
			m.st[k] = m.st[k-1-j]
		case 1230: // roll
			if err = need(2); err != nil {
				break
			}
			k := len(m.st) - 2
			m.integer(m.st[k], m.st[k+1])
			n, j := int(m.st[k]>>16), int(m.st[k+1]>>16)
			m.st = m.st[:k]
			if n < 0 {
				err = t2err("negative roll count")
				break
			}
			if err = need(n); err != nil || n == 0 {
				break
			}
			s := m.st[k-n:]
			for ; j > 0; j-- { // towards the top
				t := s[n-1]
				copy(s[1:], s[:n-1])
				s[0] = t
			}
			for ; j < 0; j++ {
				t := s[0]
				copy(s, s[1:])
				s[n-1] = t
			}
		case 1220: // put
			if err = need(2); err != nil {
				break
			}
			k := len(m.st) - 2
			m.integer(m.st[k+1])
			v, j := m.st[k], int(m.st[k+1]>>16)
			m.st = m.st[:k]
			if j < 0 || j > 31 {
				err = t2err("transient array index")
				break
			}
			m.store[j] = v
			m.stored[j] = true
		case 1221: // get
			if err = need(1); err != nil {
				break
			}
			k := len(m.st) - 1
			m.integer(m.st[k])
			j := int(m.st[k] >> 16)
			if j < 0 || j > 31 {
				err = t2err("transient array index")
				break
			}
			if !m.stored[j] {
				err = t2err("undefined transient array element")
				break
			}
			m.st[k] = m.store[j]
		case 1222: // ifelse
			if err = need(4); err != nil {
				break
			}
			k := len(m.st) - 4
			s1, s2, v1, v2 := m.st[k], m.st[k+1], m.st[k+2], m.st[k+3]
			m.res.unspec = m.res.unspec || m.res.inexact
			if v1 > v2 {
				s1 = s2
			}
			m.st = append(m.st[:k], s1)
		case 10, 29: // callsubr, callgsubr
			if err = need(1); err != nil {
				break
			}
			k := len(m.st) - 1
			tab := m.subrs
			if op == 29 {
				tab = m.gsubrs
			}
			m.integer(m.st[k])
			idx := int(m.st[k]>>16) + t2Bias(len(tab))
			m.st = m.st[:k]
			if idx < 0 || idx >= len(tab) {
				err = t2err("bad subroutine index")
				break
			}
			if err = m.run(tab[idx]); err == nil && m.ended {
				return nil
			}
		case 11: // return
			if m.depth == 1 {
				return t2err("return outside subroutine")
			}
			return nil
		case 14: // endchar
			m.width(len(m.st) == 1 || len(m.st) == 5)
			if len(m.st) == 4 {
				return t2err("seac")
			}
			if err = exact(len(m.st) == 0); err != nil {
				return err
			}
			m.ended = true
			return nil
		case 1200: // dotsection: deprecated, does nothing
			if len(m.st) > 0 || !m.widthDone {
				m.res.unspec = true
			}
			m.st = m.st[:0]
		default:
			err = t2err("unknown operator %d", op)
		}
		m.inRange(m.st...)
		if err == nil && draws && !m.moved {
			err = t2err("drawing before the first moveto")
		}
		if err != nil {
			return err
		}
	}
	if m.depth > 1 {
		return t2err("subroutine without return")
	}
	return nil
}

// integer marks the result as unspecified if an operand which must be an
// integer is a fraction.
func (m *t2Machine) integer(xx ...int64) {
	for _, x := range xx {
		if x&0xffff != 0 || m.res.inexact {
			m.res.unspec = true
		}
	}
}

// inRange marks the result as unspecified if a number does not fit into 16.16
// fixed point format.
func (m *t2Machine) inRange(xx ...int64) {
	for _, x := range xx {
		if x != int64(int32(x)) {
			m.res.unspec = true
		}
	}
}

func absI(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
