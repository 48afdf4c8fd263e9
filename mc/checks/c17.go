package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"seehuhn.de/go/sfnt/parser"

	"verif/mc/explore"
	"verif/mc/run"
)

// ---- the model: a byte slice and an offset ----

type c17model struct {
	data []byte
	pos  int64
}

// take returns the n bytes at the cursor and advances, or reports that this
// would pass the end of the input.
func (m *c17model) take(n int64) ([]byte, bool) {
	if n == 0 {
		return nil, true
	}
	if m.pos+n > int64(len(m.data)) {
		return nil, false
	}
	b := m.data[m.pos : m.pos+n]
	m.pos += n
	return b, true
}

// c17reader is a ReadSeekSizer over a slice; how many bytes each Read call
// returns is decided by the policy.
type c17reader struct {
	data   []byte
	pos    int64
	policy func(want, avail int) (n int, eof bool)
}

func (r *c17reader) Size() int64 { return int64(len(r.data)) }

func (r *c17reader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		r.pos = off
	case io.SeekCurrent:
		r.pos += off
	case io.SeekEnd:
		r.pos = int64(len(r.data)) + off
	}
	if r.pos < 0 {
		r.pos = 0
		return 0, errors.New("negative seek")
	}
	return r.pos, nil
}

func (r *c17reader) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	if r.pos >= int64(len(r.data)) {
		return 0, io.EOF
	}
	avail := len(r.data) - int(r.pos)
	if avail > len(buf) {
		avail = len(buf)
	}
	n, eof := avail, false
	if r.policy != nil {
		n, eof = r.policy(len(buf), avail)
	}
	copy(buf, r.data[r.pos:r.pos+int64(n)])
	r.pos += int64(n)
	if eof && r.pos >= int64(len(r.data)) {
		return n, io.EOF
	}
	return n, nil
}

type c17op struct {
	kind string
	arg  int
}

func c17data(n, variant int) []byte {
	b := make([]byte, n)
	for i := range b {
		x := uint32(i)*2654435761 + 12345
		b[i] = byte(x>>24) ^ byte(x>>13)
	}
	if variant == 1 {
		// plant small counts at the interesting offsets so that
		// ReadUint16Slice succeeds, also across the buffer boundary
		for i, off := range []int{0, 1, 1020, 1022, 1023, 1024, 2046, 2047, 2048, n - 4, n - 2} {
			if off >= 0 && off+2 <= n {
				v := []int{1, 0, 3, 1, 2, 600, 511, 1, 4, 1, 0}[i]
				b[off], b[off+1] = byte(v>>8), byte(v)
			}
		}
	}
	return b
}

// c17step performs one operation on the parser and the model and compares.
func c17step(c *explore.Ctx, p *parser.Parser, m *c17model, op c17op) {
	fail := func(key, format string, a ...any) {
		c.Fail("c17:"+key, "%s(%d): %s", op.kind, op.arg, fmt.Sprintf(format, a...))
	}
	start := m.pos
	size := int64(len(m.data))
	failed := false
	var got any
	var want any
	var err error
	ok := true
	switch op.kind {
	case "seek":
		err = p.SeekPos(int64(op.arg))
		m.pos = int64(op.arg)
		if err != nil {
			fail("seek", "unexpected error %v", err)
		}
	case "discard":
		err = p.Discard(op.arg)
		m.pos += int64(op.arg)
		if err != nil {
			fail("discard", "unexpected error %v", err)
		}
	case "u8":
		var v uint8
		v, err = p.ReadUint8()
		var b []byte
		b, ok = m.take(1)
		if ok {
			got, want = v, b[0]
		}
	case "u16":
		var v uint16
		v, err = p.ReadUint16()
		var b []byte
		b, ok = m.take(2)
		if ok {
			got, want = v, uint16(b[0])*256+uint16(b[1])
		}
	case "i16":
		var v int16
		v, err = p.ReadInt16()
		var b []byte
		b, ok = m.take(2)
		if ok {
			w := int(b[0])*256 + int(b[1])
			if w >= 32768 {
				w -= 65536
			}
			got, want = v, int16(w)
		}
	case "u32":
		var v uint32
		v, err = p.ReadUint32()
		var b []byte
		b, ok = m.take(4)
		if ok {
			got, want = v, uint32(b[0])*(1<<24)+uint32(b[1])*65536+uint32(b[2])*256+uint32(b[3])
		}
	case "slice":
		var v []uint16
		v, err = p.ReadUint16Slice()
		var b []byte
		b, ok = m.take(2)
		if ok {
			n := int64(b[0])*256 + int64(b[1])
			b, ok = m.take(2 * n)
			if ok {
				w := make([]uint16, n)
				for i := range w {
					w[i] = uint16(b[2*i])*256 + uint16(b[2*i+1])
				}
				got, want = fmt.Sprint(v), fmt.Sprint(w)
			}
		}
		if !ok {
			// how much of a slice is consumed before the failure is not
			// specified
			failed = true
		}
	case "bytes":
		var v []byte
		v, err = p.ReadBytes(op.arg)
		var b []byte
		b, ok = m.take(int64(op.arg))
		if ok {
			if !bytes.Equal(v, b) {
				fail("bytes", "at %d: got %s want %s", start, hexDump(v), hexDump(b))
			}
		}
	case "read":
		buf := make([]byte, op.arg)
		var n int
		n, err = p.Read(buf)
		var b []byte
		b, ok = m.take(int64(op.arg))
		if ok {
			if n != op.arg {
				fail("read", "at %d: short count %d with error %v", start, n, err)
			}
			if !bytes.Equal(buf, b) {
				i := firstDiff(buf, b)
				fail("read", "at %d: wrong data at offset %d", start, i)
			}
		} else {
			if n >= op.arg || n < 0 {
				fail("read", "at %d: count %d although only %d bytes are left", start, n, size-start)
			}
			if n > 0 && (start+int64(n) > size || !bytes.Equal(buf[:n], m.data[start:start+int64(n)])) {
				fail("read", "at %d: wrong partial data", start)
			}
			// the position is just past the last byte consumed
			m.pos = start + int64(n)
		}
	}
	if ok && err != nil {
		fail("spurious-error", "at %d of %d: error %v", start, size, err)
	}
	if !ok {
		if err == nil {
			fail("missing-error", "at %d of %d: read past the end succeeded", start, size)
		}
		if !errors.Is(err, io.ErrUnexpectedEOF) {
			fail("wrong-error", "at %d of %d: error %v is not ErrUnexpectedEOF", start, size, err)
		}
	}
	if got != want {
		fail("value", "at %d: got %v want %v", start, got, want)
	}
	pos := p.Pos()
	if failed {
		if pos < start || pos > max(size, start) {
			fail("pos", "at %d of %d: position %d after failed read", start, size, pos)
		}
		m.pos = pos
	}
	if pos != m.pos {
		fail("pos", "at %d of %d: position %d, want %d (err=%v)", start, size, pos, m.pos, err)
	}
	if p.Size() != size {
		fail("size", "size %d want %d", p.Size(), size)
	}
}

func c17ops(n int, small bool) []c17op {
	var ops []c17op
	add := func(kind string, args ...int) {
		for _, a := range args {
			ops = append(ops, c17op{kind, a})
		}
	}
	add("u8", 0)
	add("u16", 0)
	add("i16", 0)
	add("u32", 0)
	add("slice", 0)
	if small {
		add("seek", 0, 1023, 1024, n-1, n)
		add("bytes", 0, 3, 1023, 1024)
		add("read", 1, 1024, 1025)
		add("discard", 1, 1022)
	} else {
		seeks := map[int]bool{}
		for _, s := range []int{0, 1, 1022, 1023, 1024, 1025, 2047, 2048, n - 2, n - 1, n, n + 1, n + 2000} {
			if s >= 0 && !seeks[s] {
				seeks[s] = true
				add("seek", s)
			}
		}
		add("bytes", 0, 1, 2, 3, 500, 1023, 1024)
		add("read", 0, 1, 7, 1023, 1024, 1025, 2048, 2500)
		add("discard", 0, 1, 3, 1021, 1024, 1500)
	}
	var res []c17op
	for _, o := range ops {
		if o.arg >= 0 {
			res = append(res, o)
		}
	}
	return res
}

var c17lengths = []int{0, 1, 3, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 5000}

func init() {
	histories := func(depthQ, depthT int) func(c *explore.Ctx) {
		return func(c *explore.Ctx) {
			n := explore.Pick(c, "length", c17lengths)
			v := c.Choose("data", 2)
			data := c17data(n, v)
			p := parser.New(&c17reader{data: data})
			m := &c17model{data: data}
			ops := c17ops(n, false)
			depth := depthQ
			if c.Thorough {
				depth = depthT
			}
			for i := 0; i < depth; i++ {
				op := ops[c.Choose("op", len(ops))]
				c.Log("%s(%d) at %d", op.kind, op.arg, m.pos)
				c17step(c, p, m, op)
			}
			c.ObsStr(fmt.Sprint(n, m.pos))
		}
	}
	short := func(c *explore.Ctx) {
		n := explore.Pick(c, "length", []int{3, 1023, 1024, 1025, 2049, 3072})
		data := c17data(n, 1)
		ops := c17ops(n, true)
		depth := 2
		if c.Thorough {
			depth = 3
		}
		var seq []c17op
		for i := 0; i < depth; i++ {
			seq = append(seq, ops[c.Choose("op", len(ops))])
		}
		reader := &c17reader{data: data}
		base := c.Choose("reader", 4)
		zeros, calls := 0, 0
		reader.policy = func(want, avail int) (int, bool) {
			def := avail
			switch base {
			case 1:
				def = 1
			case 2:
				def = min(avail, 7)
			case 3: // returns EOF together with the last bytes
				return avail, true
			}
			if base == 1 && avail > 8 {
				def = min(avail-4, 251) // keep executions short
			}
			calls++
			if calls > 12 {
				return def, false
			}
			switch c.Dev("read-result", 5) {
			case 1:
				return 1, false
			case 2:
				return max(1, avail/2), false
			case 3:
				if zeros < 2 { // a reader may return 0, nil occasionally
					zeros++
					return 0, false
				}
				return def, false
			case 4:
				return max(1, avail-1), true
			}
			return def, false
		}
		p := parser.New(reader)
		m := &c17model{data: data}
		for _, op := range seq {
			c.Log("%s(%d) at %d", op.kind, op.arg, m.pos)
			c17step(c, p, m, op)
		}
		c.ObsStr(fmt.Sprint(n, m.pos, base))
	}
	pumped := func(c *explore.Ctx) {
		n := explore.Pick(c, "length", []int{1025, 2048, 3072, 5000})
		data := c17data(n, 0)
		ops := c17ops(n, false)
		a := ops[c.Choose("a", len(ops))]
		b := ops[c.Choose("b", len(ops))]
		start := explore.Pick(c, "start", []int{0, 1, 1023, 1024})
		chunk := explore.Pick(c, "chunk", []int{0, 1000, 333})
		c.Exec()
		r := &c17reader{data: data}
		if chunk > 0 {
			r.policy = func(want, avail int) (int, bool) { return min(avail, chunk), false }
		}
		p := parser.New(r)
		m := &c17model{data: data}
		c17step(c, p, m, c17op{"seek", start})
		c.Log("start %d, repeat %v %v", start, a, b)
		for i := 0; i < 600 && m.pos <= int64(n)+1; i++ {
			c17step(c, p, m, a)
			c17step(c, p, m, b)
			if i > 40 && (a.kind == "seek" || b.kind == "seek") {
				break
			}
		}
		c.ObsStr(fmt.Sprint(n, m.pos))
	}
	run.Register(&run.Property{
		ID: "C17", Level: "model_checking",
		Rule: "one execution = one history of parser operations replayed on a fresh parser.Parser and on a slice model, compared (value, error, position, size) after every operation; distinct observations are final (length, position) pairs",
		Assumptions: []string{
			"position after a failed ReadUint16Slice is not specified by the property; it only has to stay between the start and the end of the input",
			"the underlying reader honours io.Reader/io.Seeker; readers which return errors other than EOF are part of C18",
		},
		Drivers: []run.Driver{
			{Name: "histories", Run: histories(3, 4), Frontier: 4096, Weight: 3,
				Bounds:         "all histories of 3 operations over an alphabet of ~38 operations (SeekPos at 13 offsets, Discard, all fixed-size reads, ReadBytes, Read) for 11 input lengths x 2 contents",
				BoundsThorough: "all histories of 4 operations over the same alphabet"},
			{Name: "short-reads", Run: short, Frontier: 4096, Dev: 2, Weight: 2,
				Bounds: "histories of 2 (thorough: 3) operations with 4 base readers and up to 2 deviations in the result of the first 12 underlying Read calls (1 byte, half, 0 bytes, all but one byte, EOF with data)"},
			{Name: "pumped", Run: pumped, Weight: 1,
				Bounds: "all pairs of operations repeated up to 600 times from 4 start offsets with 3 chunkings"},
		},
	})
}
