package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"verif/mc/explore"
	"verif/mc/run"
)

// C16: concurrent use of fonts.

// c16Op is a read-only operation.  It may call y at scheduling points.  The
// returned function describes the result; it is called after all operations
// have finished, so that later changes of the result are noticed.
type c16Op struct {
	name string
	run  func(f *sfnt.Font, y func()) func() string
}

// yieldWriter has a scheduling point before and after each write.  It keeps
// the slices it was given until the end of the write, as a real writer would.
type yieldWriter struct {
	y   func()
	buf []byte
	n   int
}

func (w *yieldWriter) Write(p []byte) (int, error) {
	w.y()
	w.buf = append(w.buf, p...)
	w.n++
	w.y()
	return len(p), nil
}

func c16Hash(b []byte) string { return fmt.Sprintf("%d:%016x", len(b), hashStr(string(b))) }

func (w *yieldWriter) result(n int64, err error) func() string {
	return func() string { return fmt.Sprintf("%d %v %d %s", n, err, w.n, c16Hash(w.buf)) }
}

func c16Render(v any) func() string { return func() string { return fmt.Sprintf("%v", v) } }

func c16Seqs(n int) [][]glyph.ID {
	var res [][]glyph.ID
	n = min(n, 8)
	for a := range n {
		res = append(res, []glyph.ID{glyph.ID(a)})
		for b := range n {
			res = append(res, []glyph.ID{glyph.ID(a), glyph.ID(b)})
			res = append(res, []glyph.ID{glyph.ID(a), glyph.ID((a + b) % n), glyph.ID((a + 2*b + 1) % n), glyph.ID(b)})
		}
	}
	return res
}

func c16Apply(f *sfnt.Font, info *gtab.Info, y func()) func() string {
	if info == nil {
		return c16Render("none")
	}
	var all []gtab.LookupIndex
	for i := range info.LookupList {
		all = append(all, gtab.LookupIndex(i))
	}
	var res [][]glyph.Info
	for k := 0; k <= len(all); k++ {
		sel := all
		if k < len(all) {
			sel = all[k : k+1]
		}
		ctx := gtab.NewContext(info.LookupList, f.Gdef, sel)
		for _, s := range c16Seqs(f.NumGlyphs()) {
			seq := make([]glyph.Info, len(s))
			for i, g := range s {
				seq[i] = glyph.Info{GID: g, Text: []rune{rune('a' + i)}, Advance: 100}
			}
			res = append(res, slices.Clone(ctx.Apply(seq)))
		}
		y()
	}
	return func() string {
		var sb strings.Builder
		for _, s := range res {
			sb.WriteString(seqString(s, true))
			sb.WriteByte('\n')
		}
		return c16Hash([]byte(sb.String()))
	}
}

func c16Layout(f *sfnt.Font, y func(), lang language.Tag, gsub, gpos map[string]bool) func() string {
	l, err := f.NewLayouter(lang, gsub, gpos)
	if err != nil {
		return c16Render(err)
	}
	y()
	texts := []string{"", "A", "fi", "ffi office", "AVAB", "ABCabcdefgxyz\u00c4\u0416\u0303", "a\u0301b\u0302 \U0001F600", "zyxabAAf"}
	var res [][]glyph.Info
	for _, s := range texts {
		r := l.Layout(s)
		y()
		res = append(res, slices.Clone(r))
	}
	return func() string {
		var sb strings.Builder
		for _, s := range res {
			sb.WriteString(seqString(s, true))
			sb.WriteByte('\n')
		}
		return sb.String()
	}
}

func c16Subset(f *sfnt.Font, y func(), mode int) func() string {
	var gg []glyph.ID
	n := f.NumGlyphs()
	switch mode {
	case 0:
		gg = []glyph.ID{0}
	case 1:
		for i := range n {
			gg = append(gg, glyph.ID(i))
		}
	case 2:
		gg = []glyph.ID{0}
		for i := n - 1; i > 0; i -= 2 {
			gg = append(gg, glyph.ID(i))
		}
	}
	s := f.Subset(gg)
	y()
	w := &yieldWriter{y: y}
	k, err := s.Write(w)
	w2 := &yieldWriter{y: func() {}}
	return func() string {
		k2, err2 := s.Write(w2)
		return fmt.Sprint(gg) + w.result(k, err)() + "/" + w2.result(k2, err2)()
	}
}

var c16Ops = []c16Op{
	{"Write", func(f *sfnt.Font, y func()) func() string {
		w := &yieldWriter{y: y}
		return w.result(f.Write(w))
	}},
	{"PDF", func(f *sfnt.Font, y func()) func() string {
		w := &yieldWriter{y: y}
		if f.IsGlyf() {
			return w.result(f.WriteTrueTypePDF(w))
		}
		return w.result(0, f.WriteOpenTypeCFFPDF(w))
	}},
	{"AsCFF", func(f *sfnt.Font, y func()) func() string {
		if !f.IsCFF() {
			return c16Render("no CFF")
		}
		w := &yieldWriter{y: y}
		g := f.AsCFF()
		y()
		err := g.Write(w)
		return w.result(0, err)
	}},
	{"Subset0", func(f *sfnt.Font, y func()) func() string { return c16Subset(f, y, 0) }},
	{"Subset1", func(f *sfnt.Font, y func()) func() string { return c16Subset(f, y, 1) }},
	{"Subset2", func(f *sfnt.Font, y func()) func() string { return c16Subset(f, y, 2) }},
	{"Clone", func(f *sfnt.Font, y func()) func() string {
		g := f.Clone()
		// change the top-level fields of the clone
		g.FamilyName += "X"
		g.UnitsPerEm++
		g.IsBold = !g.IsBold
		g.Gsub = nil
		y()
		g.CMapTable = nil
		w := &yieldWriter{y: y}
		return w.result(g.Write(w))
	}},
	{"BBox", func(f *sfnt.Font, y func()) func() string {
		a := f.FontBBox()
		b := f.FontBBoxPDF()
		y()
		bb := f.GlyphBBoxes()
		y()
		var cc []any
		for i := range f.NumGlyphs() {
			cc = append(cc, f.GlyphBBox(glyph.ID(i)))
			switch o := f.Outlines.(type) {
			case *glyf.Outlines:
				cc = append(cc, o.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i)))
			case *cff.Outlines:
				cc = append(cc, o.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i)), o.BBox())
			}
		}
		return c16Render([]any{a, b, bb, cc})
	}},
	{"Widths", func(f *sfnt.Font, y func()) func() string {
		a := f.Widths()
		y()
		b := f.WidthsPDF()
		y()
		m := f.WidthsMapPDF()
		y()
		var cc []float64
		for i := range f.NumGlyphs() {
			cc = append(cc, f.GlyphWidth(glyph.ID(i)), f.GlyphWidthPDF(glyph.ID(i)))
		}
		return c16Render([]any{a, b, m, cc, f.IsFixedPitch()})
	}},
	{"Names", func(f *sfnt.Font, y func()) func() string {
		a := f.MakeGlyphNames()
		y()
		b := slices.Clone(f.MakeGlyphNames())
		for i := range b {
			b[i] += "x" // our copy
		}
		var cc []string
		for i := range f.NumGlyphs() {
			cc = append(cc, f.GlyphName(glyph.ID(i)))
		}
		return c16Render([]any{a, b, cc, f.FullName(), f.Subfamily(), f.PostScriptName(), f.BuiltinEncoding()})
	}},
	{"Info", func(f *sfnt.Font, y func()) func() string {
		a := f.GetFontInfo()
		y()
		s := fmt.Sprintf("%+v %d %t %t", *a, f.NumGlyphs(), f.IsGlyf(), f.IsCFF())
		return c16Render(s)
	}},
	{"CMap", func(f *sfnt.Font, y func()) func() string {
		st, err := f.CMapTable.GetBest()
		if err != nil {
			return c16Render(err)
		}
		y()
		lo, hi := st.CodeRange()
		var res []any
		for r := lo; r <= min(hi, lo+500); r++ {
			if g := st.Lookup(r); g != 0 {
				res = append(res, r, g)
			}
		}
		return c16Render([]any{lo, hi, res})
	}},
	{"Layout", func(f *sfnt.Font, y func()) func() string {
		return c16Layout(f, y, language.MustParse("en-Latn"), nil, nil)
	}},
	{"Layout2", func(f *sfnt.Font, y func()) func() string {
		return c16Layout(f, y, language.German, map[string]bool{"liga": true, "smcp": true, "ss01": true, "calt": true, "test": true}, map[string]bool{"kern": true, "mark": true, "mkmk": true, "cpsp": true, "test": true})
	}},
	{"Apply", func(f *sfnt.Font, y func()) func() string {
		a := c16Apply(f, f.Gsub, y)
		b := c16Apply(f, f.Gpos, y)
		return func() string { return a() + b() }
	}},
	{"Explain", func(f *sfnt.Font, y func()) func() string {
		var a string
		if f.Gsub != nil {
			a = builder.ExplainGsub(f)
		}
		y()
		var b []string
		if f.Gpos != nil {
			b = builder.ExplainGpos(f)
		}
		return c16Render([]any{a, b})
	}},
	{"Encode", func(f *sfnt.Font, y func()) func() string {
		var res [][]byte
		if f.Gsub != nil {
			res = append(res, f.Gsub.Encode())
		}
		y()
		if f.Gpos != nil {
			res = append(res, f.Gpos.Encode())
		}
		y()
		if f.Gdef != nil {
			res = append(res, f.Gdef.Encode())
		}
		res = append(res, f.CMapTable.Encode())
		if o, ok := f.Outlines.(*glyf.Outlines); ok {
			e := o.Glyphs.Encode()
			res = append(res, e.GlyfData, e.LocaData)
		}
		return func() string { return c16Hash(bytes.Join(res, []byte("|"))) }
	}},
}

// c16Do runs an operation, including a final description of the panic, if any.
func c16Do(op *c16Op, f *sfnt.Font, y func()) (res func() string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprintf("panic: %v", r)
			res = func() string { return s }
		}
	}()
	r := op.run(f, y)
	return func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return r()
	}
}

// The fonts.

type c16Font struct {
	name string
	mk   func() *sfnt.Font
	data []byte // if set, the font is read from here
}

func (x *c16Font) get() *sfnt.Font {
	if x.mk != nil {
		return x.mk()
	}
	f, err := sfnt.Read(bytes.NewReader(x.data))
	if err != nil {
		panic(err)
	}
	return f
}

var c16FontList []*c16Font

func c16Fonts() []*c16Font {
	if c16FontList != nil {
		return c16FontList
	}
	var res []*c16Font
	for kind := range fkCount {
		for i, vals := range []map[string]int{
			{"gsub": 2, "gpos": 2, "cmap": 1, "gdef": 1},
			{"gsub": 3, "gpos": 1, "cmap": 2, "gdef": 2, "names": 1, "tttables": 1, "private": 1, "encoding": 1, "widths": 1, "strings": 1},
			{"gsub": 5, "gpos": 3, "cmap": 3, "names": 2, "cffshape": 2, "ttshape": 2, "cids": 1, "fdselect": 1, "tttables": 2},
			{"gpos": 4, "names": 3, "cids": 2, "fdselect": 2, "cmap": 4, "composite": 1, "encoding": 2, "fontmatrix": 1, "times": 1},
		} {
			x := &c16Font{name: fmt.Sprintf("%s/%d", fkNames[kind], i), mk: func() *sfnt.Font { return fixedFont(kind, vals) }}
			res = append(res, x)
			buf := &bytes.Buffer{}
			if _, err := x.mk().Write(buf); err == nil {
				res = append(res, &c16Font{name: x.name + "/read", data: buf.Bytes()})
			}
		}
	}
	// all lookup types
	for _, kind := range []int{fkTT, fkCFF} {
		for gp := range 2 {
			x := &c16Font{name: fmt.Sprintf("%s/lookups %d", fkNames[kind], gp), mk: func() *sfnt.Font {
				f := fixedFont(kind, map[string]int{"cmap": 1, "gdef": 2})
				info := &gtab.Info{FeatureList: gtab.FeatureListInfo{{Tag: "test"}}}
				sys := c08Sys{script: "latn", req: 0xFFFF, opt: []int{0}}
				info.ScriptList = c08Scripts([]c08Sys{sys})
				for i, mk := range c08Tiny(gp == 1) {
					info.LookupList = append(info.LookupList, mk())
					info.FeatureList[0].Lookups = append(info.FeatureList[0].Lookups, gtab.LookupIndex(i))
				}
				if gp == 1 {
					f.Gpos = info
				} else {
					f.Gsub = info
				}
				return f
			}}
			res = append(res, x)
			var data []byte
			func() {
				defer func() { recover() }()
				buf := &bytes.Buffer{}
				if _, err := x.mk().Write(buf); err == nil {
					data = buf.Bytes()
				}
			}()
			if data != nil {
				if _, err := sfnt.Read(bytes.NewReader(data)); err == nil {
					res = append(res, &c16Font{name: x.name + "/read", data: data})
				}
			}
		}
	}
	// the standard glyph names, legacy kerning
	for _, x := range res {
		if x.name != "TrueType/0/read" {
			continue
		}
		t, _ := sfntTables(x.data)
		n := map[string][]byte{}
		for k, v := range t {
			n[k] = v
		}
		n["post"] = cat(be32(0x10000), make([]byte, 28))
		add := func(name string) {
			data := sfntAssemble(c01Scaler(t), n)
			if _, err := sfnt.Read(bytes.NewReader(data)); err == nil {
				res = append(res, &c16Font{name: name, data: data})
			}
		}
		add("post 1")
		delete(n, "GPOS")
		delete(n, "GSUB")
		n["kern"] = kernTable([]kernSub{{}})
		n["kern"] = cat(be16(0, 1, 0, 14+12, 1, 2, 12, 1, 0, 1, 3, -50, 3, 4, 20))
		add("post 1, kern")
	}
	c16FontList = res
	return res
}

// The scheduler.  Only one goroutine runs at any time.  Control is passed on
// without any synchronisation which is visible to the race detector, so that
// all conflicting accesses of different goroutines are reported, no matter how
// far they are apart.
type c16Sched struct {
	turn  int
	count [4]int
	done  [4]bool
	n     int
	// plan[k] says that the goroutine which runs in phase k is interrupted at
	// its given scheduling point; -1 means never.
	plan  []int
	phase int
	stuck bool
}

//go:norace
//go:noinline
func (s *c16Sched) mine(id int) bool { return s.turn == id || s.stuck }

//go:norace
//go:noinline
func (s *c16Sched) setStuck() { s.stuck = true }

//go:norace
//go:noinline
func (s *c16Sched) next(id int) {
	for i := 1; i <= s.n; i++ {
		k := (id + i) % s.n
		if k != id && !s.done[k] {
			s.turn = k
			s.phase++
			return
		}
	}
}

// point returns true if control was passed on.
//
//go:norace
//go:noinline
func (s *c16Sched) point(id int) bool {
	if s.stuck {
		return false
	}
	s.count[id]++
	if s.phase < len(s.plan) && s.plan[s.phase] >= 0 && s.count[id] > s.plan[s.phase] {
		before := s.turn
		s.next(id)
		return s.turn != before
	}
	return false
}

//go:norace
//go:noinline
func (s *c16Sched) finish(id int) {
	s.done[id] = true
	s.next(id)
}

//go:norace
//go:noinline
func (s *c16Sched) points(id int) int { return s.count[id] }

func (s *c16Sched) wait(id int) {
	for i := 0; !s.mine(id); i++ {
		runtime.Gosched()
		if i > 100000 {
			// the running goroutine waits for a lock held by this one
			time.Sleep(time.Millisecond)
			if i > 100300 {
				s.setStuck()
			}
		}
	}
}

// c16Run runs the operations concurrently.
func c16Run(f *sfnt.Font, ops []*c16Op, first int, plan []int) (res []func() string, s *c16Sched) {
	s = &c16Sched{turn: first, n: len(ops), plan: plan}
	res = make([]func() string, len(ops))
	var wg sync.WaitGroup
	for id, op := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.wait(id)
			res[id] = c16Do(op, f, func() {
				if s.point(id) {
					s.wait(id)
				}
			})
			s.finish(id)
		}()
	}
	wg.Wait()
	return res, s
}

type c16Expect struct {
	res    string
	points int
}

var c16Cache = map[string]c16Expect{}

// c16Alone runs an operation alone, on a font of its own.
func c16Alone(x *c16Font, op *c16Op) c16Expect {
	key := x.name + "|" + op.name
	if e, ok := c16Cache[key]; ok {
		return e
	}
	n := 0
	res := c16Do(op, x.get(), func() { n++ })()
	e := c16Expect{res, n}
	c16Cache[key] = e
	return e
}

func c16Compare(c *explore.Ctx, x *c16Font, ops []*c16Op, first int, plan []int, res []func() string) {
	for i, op := range ops {
		got := res[i]()
		if want := c16Alone(x, op).res; got != want {
			c.Fail("result:"+op.name, "%s: wrong result in a concurrent call: order %v starting with %d, preemptions %v\ngot    %s\nexpect %s", x.name, c16OpNames(ops), first, plan, clip(got, 500), clip(want, 500))
		}
		c.ObsStr(got)
	}
}

func c16OpNames(ops []*c16Op) []string {
	var res []string
	for _, op := range ops {
		res = append(res, op.name)
	}
	return res
}

// c16Few returns true for the fonts which are used for preemptions in the quick
// check.
func c16Few(x *c16Font) bool {
	return slices.Contains([]string{"TrueType+composites/0", "TrueType/1/read", "CFF/1", "CFF/0/read", "CID/3/2", "CID/1/0/read", "TrueType/lookups 0", "CFF/lookups 1", "post 1, kern"}, x.name)
}

// c16Pairs explores the schedules of two operations.
func c16Pairs(c *explore.Ctx) {
	fonts := c16Fonts()
	x := explore.Pick(c, "font", fonts)
	a := &c16Ops[c.Choose("A", len(c16Ops))]
	b := &c16Ops[c.Choose("B", len(c16Ops))]
	na := c16Alone(x, a).points
	if !c.Thorough && !c16Few(x) {
		na = 0
	}
	i := c.Choose("preempt A", na+1) - 1
	plan := []int{i}
	if i >= 0 && c.Thorough {
		nb := c16Alone(x, b).points
		plan = append(plan, c.Choose("preempt B", nb+1)-1)
	}
	c.Log("%s: A=%s B=%s, A is interrupted at scheduling points %v", x.name, a.name, b.name, plan)
	c.Exec()
	f := x.get()
	ops := []*c16Op{a, b}
	res, _ := c16Run(f, ops, 0, plan)
	c16Compare(c, x, ops, 0, plan, res)
	if i >= 0 {
		return
	}
	if d := fontDiff(f, x.get()); d != "" {
		c.Fail("changed", "%s: font changed by %s and %s: %s", x.name, a.name, b.name, d)
	}
}

// c16Triples explores round-robin schedules of three operations.
func c16Triples(c *explore.Ctx) {
	x := explore.Pick(c, "font", c16Fonts())
	var ops []*c16Op
	for i := range 3 {
		ops = append(ops, &c16Ops[c.Choose(fmt.Sprint("op", i), len(c16Ops))])
	}
	plan := explore.Pick(c, "plan", [][]int{{-1}, {0, 0, 0, 1, 1, 1, 2, 2, 2}, {1, 2}})
	c.Log("%s: %v, plan %v", x.name, c16OpNames(ops), plan)
	c.Exec()
	f := x.get()
	res, _ := c16Run(f, ops, 0, plan)
	c16Compare(c, x, ops, 0, plan, res)
}

// A c16Job is run in a process of its own, so that the first use of global
// variables is observed.
type c16Job struct {
	Font, A, B int
	Data       []byte
	Name       string
}

func init() {
	name := os.Getenv("VERIF_C16_JOB")
	if name == "" {
		return
	}
	b, err := os.ReadFile(name)
	if err != nil {
		os.Exit(3)
	}
	var j c16Job
	if json.Unmarshal(b, &j) != nil {
		os.Exit(3)
	}
	runtime.GOMAXPROCS(1)
	x := &c16Font{name: j.Name, data: j.Data}
	f := x.get()
	ops := []*c16Op{&c16Ops[j.A], &c16Ops[j.B]}
	c16Run(f, ops, 0, []int{-1})
	os.Exit(0)
}

func c16Fresh(c *explore.Ctx) {
	var fonts []*c16Font
	for _, x := range c16Fonts() {
		if x.data == nil {
			continue
		}
		if !c.Thorough && !slices.Contains([]string{"CFF/0/read", "TrueType+composites/0/read"}, x.name) {
			continue
		}
		fonts = append(fonts, x)
	}
	x := explore.Pick(c, "font", fonts)
	a := c.Choose("A", len(c16Ops))
	b := c.Choose("B", len(c16Ops))
	if !c.Thorough && a != b {
		c.Skip()
	}
	c.Log("%s: %s, %s in a new process", x.name, c16Ops[a].name, c16Ops[b].name)
	c.Exec()
	tmp, err := os.CreateTemp("", "c16-")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	json.NewEncoder(tmp).Encode(c16Job{A: a, B: b, Data: x.data, Name: x.name})
	tmp.Close()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_C16_JOB="+tmp.Name(), "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.Fail("fresh:"+run.CrashSite(string(out)), "%s: %s, %s: %v\n%s", x.name, c16Ops[a].name, c16Ops[b].name, err, clip(string(out), 3000))
	}
	c.ObsStr("ok")
}

// arena is memory which can be made read-only.
type arena struct {
	blocks [][]byte
	pos    int
	keep   []any
	memo   map[arenaKey]unsafe.Pointer
}

type arenaKey struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

const arenaBlock = 1 << 20

func (a *arena) alloc(n int) unsafe.Pointer {
	n = (n + 15) &^ 15
	if n == 0 {
		n = 16
	}
	if len(a.blocks) == 0 || a.pos+n > len(a.blocks[len(a.blocks)-1]) {
		b, err := syscall.Mmap(-1, 0, max(n, arenaBlock), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		a.blocks = append(a.blocks, b)
		a.pos = 0
	}
	p := unsafe.Pointer(&a.blocks[len(a.blocks)-1][a.pos])
	a.pos += n
	return p
}

func (a *arena) protect() {
	for _, b := range a.blocks {
		if err := syscall.Mprotect(b, syscall.PROT_READ); err != nil {
			panic(err)
		}
	}
}

func (a *arena) free() {
	for _, b := range a.blocks {
		syscall.Munmap(b)
	}
}

// copy stores a deep copy of src in dst; both are addressable.
func (a *arena) copy(dst, src reflect.Value) {
	t := src.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		key := arenaKey{src.UnsafePointer(), t.Elem(), 0}
		p, ok := a.memo[key]
		if !ok {
			p = a.alloc(int(t.Elem().Size()))
			a.memo[key] = p
			a.copy(reflect.NewAt(t.Elem(), p).Elem(), src.Elem())
		}
		dst.Set(reflect.NewAt(t.Elem(), p).Convert(t))
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		full := src.Slice3(0, src.Cap(), src.Cap())
		n := full.Len()
		et := t.Elem()
		key := arenaKey{src.UnsafePointer(), et, n + 1}
		p, ok := a.memo[key]
		if !ok {
			p = a.alloc(int(et.Size()) * n)
			a.memo[key] = p
			for i := range n {
				a.copy(reflect.NewAt(et, unsafe.Add(p, i*int(et.Size()))).Elem(), a.exported(full.Index(i)))
			}
		}
		h := (*[3]uintptr)(dst.Addr().UnsafePointer())
		h[0], h[1], h[2] = uintptr(p), uintptr(src.Len()), uintptr(n)
	case reflect.String:
		if src.Len() == 0 {
			return
		}
		s := src.String()
		p := a.alloc(len(s))
		copy(unsafe.Slice((*byte)(p), len(s)), s)
		h := (*[2]uintptr)(dst.Addr().UnsafePointer())
		h[0], h[1] = uintptr(p), uintptr(len(s))
	case reflect.Struct:
		for i := range t.NumField() {
			a.copy(a.exported(dst.Field(i)), a.exported(src.Field(i)))
		}
	case reflect.Array:
		for i := range t.Len() {
			a.copy(a.exported(dst.Index(i)), a.exported(src.Index(i)))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMapWithSize(t, src.Len())
		it := src.MapRange()
		for it.Next() {
			m.SetMapIndex(a.heapCopy(it.Key()), a.heapCopy(it.Value()))
		}
		a.keep = append(a.keep, m.Interface())
		dst.Set(m)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		v := a.heapCopy(src.Elem())
		dst.Set(v)
		a.keep = append(a.keep, dst.Interface())
	default: // basic types and functions
		dst.Set(src)
	}
}

// heapCopy returns a deep copy, only the top level of which is on the heap.
func (a *arena) heapCopy(v reflect.Value) reflect.Value {
	s := reflect.New(v.Type())
	s.Elem().Set(v)
	d := reflect.New(v.Type())
	a.copy(d.Elem(), s.Elem())
	return d.Elem()
}

// exported allows access to unexported fields.
func (a *arena) exported(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
}

// c16Freeze returns a copy of f in read-only memory.
func c16Freeze(f *sfnt.Font) (*sfnt.Font, *arena) {
	a := &arena{memo: map[arenaKey]unsafe.Pointer{}}
	a.keep = append(a.keep, f)
	var g *sfnt.Font
	a.copy(reflect.ValueOf(&g).Elem(), reflect.ValueOf(&f).Elem())
	a.protect()
	return g, a
}

// c16Frozen runs sequences of operations on a font in read-only memory.
func c16Frozen(c *explore.Ctx) {
	x := explore.Pick(c, "font", c16Fonts())
	n := 2
	if c.Thorough {
		n = 3
	}
	var ops []*c16Op
	for i := range n {
		ops = append(ops, &c16Ops[c.Choose(fmt.Sprint("op", i), len(c16Ops))])
	}
	c.Log("%s: %v on read-only memory", x.name, c16OpNames(ops))
	c.Exec()
	f := x.get()
	g, a := c16Freeze(f)
	defer a.free()
	for _, op := range ops {
		var res string
		fault := ""
		func() {
			old := debug.SetPanicOnFault(true)
			defer debug.SetPanicOnFault(old)
			defer func() {
				if r := recover(); r != nil {
					fault = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}()
			res = op.run(g, func() {})()
		}()
		want := c16Alone(x, op).res
		if fault != "" {
			if strings.Contains(fault, "unexpected fault address") || strings.Contains(fault, "invalid memory address") && !strings.HasPrefix(want, "panic:") {
				c.Fail("write:"+op.name, "%s: %s writes to the font: %s", x.name, op.name, clip(fault, 3000))
			}
			if strings.HasPrefix(want, "panic:") {
				continue
			}
			c.Fail("panic:"+op.name, "%s: %s", x.name, clip(fault, 3000))
		}
		if res != want && !strings.HasPrefix(want, "panic:") {
			c.Fail("result:"+op.name, "%s: %s after other operations %v\ngot    %s\nexpect %s", x.name, op.name, c16OpNames(ops), clip(res, 500), clip(want, 500))
		}
		c.ObsStr(res)
	}
	if d := fontDiff(f, g); d != "" {
		c.Fail("changed", "%s: font changed by %v: %s", x.name, c16OpNames(ops), d)
	}
	runtime.KeepAlive(a)
}

func init() {
	one := func() { runtime.GOMAXPROCS(1) }
	run.Register(&run.Property{
		ID:    "C16",
		Level: "model_checking",
		Rule:  "two or three goroutines perform read-only operations on the same font; every explored schedule is free of data races (race detector, without happens-before edges from the scheduler), all results equal the results of the same operation on a font of its own, and no operation writes to a font in read-only memory",
		Assumptions: []string{
			"preemption points are the beginning and end of operations and of all writes to the destination, and the calls inside composed operations; since no operation writes to memory reachable from the font (checked by the driver frozen, except for the interior of maps, which is compared), finer interleavings give the same results",
			"the standard library and golang.org/x/text are safe for concurrent use",
		},
		Drivers: []run.Driver{
			{Name: "fresh", Run: c16Fresh, Init: one, Weight: 3,
				Bounds:         "2 fonts; each operation twice, concurrently, as the first thing in a new process",
				BoundsThorough: "all fonts which were read from files; all pairs of operations"},
			{Name: "frozen", Run: c16Frozen, Init: one, Weight: 4,
				Bounds:         fmt.Sprintf("all fonts, all sequences of 2 out of %d operations on a font in read-only memory", len(c16Ops)),
				BoundsThorough: "sequences of 3 operations"},
			{Name: "pairs", Run: c16Pairs, Init: one, Weight: 6,
				Bounds:         "all fonts, all ordered pairs of operations; 9 fonts: all schedules with at most one preemption",
				BoundsThorough: "all fonts, at most two preemptions"},
			{Name: "triples", Run: c16Triples, Init: one, Weight: 3, ThoroughOnly: true,
				BoundsThorough: "all fonts, all triples of operations, three schedules each"},
		},
	})
}

var _ = io.Discard
