// Package explore implements bounded-exhaustive stateless exploration.
//
// A driver is a function which builds one scenario by asking the context for
// choices and then runs the code under test.  Run enumerates every sequence of
// choices the driver can make: each execution replays a prefix of choices and
// takes alternative 0 at every later choice point; all other alternatives of
// the new choice points are scheduled as new prefixes.
package explore

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"
)

// Ctx is handed to the driver for one execution.
type Ctx struct {
	choices []int32
	sizes   []int32
	isDev   []bool
	prefix  []int32
	dev     int
	maxDev  int

	shard, shards int
	frontier      int // 0: none; otherwise product of sizes at which the owner is decided
	prod          int
	owned         bool
	decided       bool

	Thorough bool
	Verbose  bool
	logs     []string
	labels   []string

	obs    uint64
	hasObs bool

	rec []int32 // shared record of the current choices (survives a crash)
}

type skip struct{}
type notMine struct{}

// Failure is the panic value used to report a violated oracle.
type Failure struct {
	Key string
	Msg string
}

// Diverged is raised when a prefix cannot be replayed.
type Diverged struct{ Msg string }

func (c *Ctx) choose(label string, n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: choice %q with %d alternatives", label, n))
	}
	if dev && c.dev >= c.maxDev {
		return 0
	}
	if n == 1 {
		return 0
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = int(c.prefix[i])
		if v >= n {
			panic(Diverged{fmt.Sprintf("choice %d (%s): prefix has %d of %d", i, label, v, n)})
		}
	}
	c.choices = append(c.choices, int32(v))
	c.sizes = append(c.sizes, int32(n))
	c.isDev = append(c.isDev, dev)
	if c.Verbose {
		c.labels = append(c.labels, fmt.Sprintf("%s=%d/%d", label, v, n))
	}
	if i+1 < len(c.rec) {
		c.rec[i+1] = int32(v)
		c.rec[0] = int32(i + 1)
	}
	if dev && v != 0 {
		c.dev++
	}
	if c.frontier > 0 && !c.decided {
		c.prod *= n
		if c.prod >= c.frontier {
			c.decide()
		}
	}
	return v
}

func (c *Ctx) hash() uint64 {
	h := fnv.New64a()
	var b [4]byte
	for _, x := range c.choices {
		binary.LittleEndian.PutUint32(b[:], uint32(x))
		h.Write(b[:])
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func (c *Ctx) decide() {
	c.decided = true
	if c.shards > 1 && int(c.hash()%uint64(c.shards)) != c.shard {
		panic(notMine{})
	}
}

// Choose picks one of n alternatives; all of them are explored.
func (c *Ctx) Choose(label string, n int) int { return c.choose(label, n, false) }

// Bool picks false or true.
func (c *Ctx) Bool(label string) bool { return c.choose(label, 2, false) == 1 }

// Dev picks one of n alternatives, where every alternative other than 0 counts
// as a deviation.  Only executions within the deviation bound are explored.
func (c *Ctx) Dev(label string, n int) int { return c.choose(label, n, true) }

// DevBool is Dev with two alternatives.
func (c *Ctx) DevBool(label string) bool { return c.choose(label, 2, true) == 1 }

// Deviations returns the number of deviations so far.
func (c *Ctx) Deviations() int { return c.dev }

// Pick chooses an element of a slice.
func Pick[T any](c *Ctx, label string, xs []T) T { return xs[c.Choose(label, len(xs))] }

// PickDev chooses an element of a slice, all but the first being deviations.
func PickDev[T any](c *Ctx, label string, xs []T) T { return xs[c.Dev(label, len(xs))] }

// Skip abandons the scenario (for example because it is equivalent to another
// one, or not part of the domain).
func (c *Ctx) Skip() { panic(skip{}) }

// Exec marks the end of scenario construction.  With several worker processes
// only the owner of the scenario continues.
func (c *Ctx) Exec() {
	if !c.decided {
		c.decide()
	}
}

// Fail reports a violation of the property.  The key identifies the failing
// call site or input class.
func (c *Ctx) Fail(key, format string, args ...any) {
	panic(Failure{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Obs records an observation; the number of distinct observations is counted.
func (c *Ctx) Obs(data []byte) {
	h := fnv.New64a()
	h.Write(data)
	c.obs = c.obs*1099511628211 ^ h.Sum64()
	c.hasObs = true
}

// ObsStr is Obs for strings.
func (c *Ctx) ObsStr(s string) { c.Obs([]byte(s)) }

// Log describes the scenario; it is only evaluated in verbose mode.
func (c *Ctx) Log(format string, args ...any) {
	if c.Verbose {
		c.logs = append(c.logs, fmt.Sprintf(format, args...))
	}
}

// Protect runs f; a panic in f is reported as a violation with the given key.
func (c *Ctx) Protect(key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, notMine, Failure, Diverged:
				panic(r)
			}
			panic(Failure{Key: key + ":panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))})
		}
	}()
	f()
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "/verif/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Outcome is the result of a single execution.
type Outcome struct {
	Choices, Sizes []int32
	IsDev          []bool
	Failure        *Failure
	Skipped        bool
	NotMine        bool
	Obs            uint64
	HasObs         bool
	Logs, Labels   []string
}

// Options configure an exploration.
type Options struct {
	MaxDev   int
	Shard    int
	Shards   int
	Frontier int
	Thorough bool
	Verbose  bool
	Deadline time.Time
	Rec      []int32
	OnStart  func()
	OnFail   func(o *Outcome) (stop bool)
	OnLeaf   func(o *Outcome)
}

// Stats summarises an exploration.
type Stats struct {
	Executions int64
	Nodes      int64
	Edges      int64
	Skipped    int64
	MaxDepth   int
	Complete   bool
}

// RunOne executes the driver once.
func RunOne(driver func(*Ctx), prefix []int32, opt *Options) *Outcome {
	c := &Ctx{
		prefix: prefix, maxDev: opt.MaxDev, shard: opt.Shard, shards: opt.Shards,
		frontier: opt.Frontier, prod: 1, Thorough: opt.Thorough, Verbose: opt.Verbose,
	}
	if opt.Rec != nil {
		opt.Rec[0] = 0
		c.rec = opt.Rec
	}
	o := &Outcome{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case skip:
					o.Skipped = true
				case notMine:
					o.NotMine = true
				case Failure:
					o.Failure = &r
				case Diverged:
					o.Failure = &Failure{Key: "HARNESS:diverged", Msg: r.Msg}
				default:
					o.Failure = &Failure{Key: "panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
				}
			}
		}()
		driver(c)
		if !c.decided {
			// short scenario which never reached the frontier
			c.decide()
		}
	}()
	o.Choices, o.Sizes, o.IsDev = c.choices, c.sizes, c.isDev
	o.Obs, o.HasObs, o.Logs, o.Labels = c.obs, c.hasObs, c.logs, c.labels
	return o
}

// Run explores all executions of the driver.
func Run(driver func(*Ctx), opt *Options) *Stats {
	st := &Stats{Complete: true}
	stack := [][]int32{nil}
	for len(stack) > 0 {
		if !opt.Deadline.IsZero() && st.Executions%16 == 0 && time.Now().After(opt.Deadline) {
			st.Complete = false
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if opt.OnStart != nil {
			opt.OnStart()
		}
		o := RunOne(driver, prefix, opt)
		for i := len(o.Choices) - 1; i >= len(prefix); i-- {
			for alt := o.Sizes[i] - 1; alt >= 1; alt-- {
				p := make([]int32, i+1)
				copy(p, o.Choices[:i])
				p[i] = alt
				stack = append(stack, p)
			}
		}
		if len(o.Choices) > st.MaxDepth {
			st.MaxDepth = len(o.Choices)
		}
		if o.NotMine {
			continue
		}
		if o.Skipped {
			st.Skipped++
			continue
		}
		st.Executions++
		n := int64(len(o.Choices) - len(prefix))
		if len(prefix) > 0 {
			n++
		}
		st.Nodes += n
		st.Edges += n
		if o.Failure != nil {
			if opt.OnFail(o) {
				st.Complete = false
				return st
			}
		}
		if opt.OnLeaf != nil {
			opt.OnLeaf(o)
		}
	}
	return st
}
