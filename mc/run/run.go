// Package run contains the supervisor and worker processes which execute the
// drivers of a property, collect evidence, and report violations.
package run

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/explore"
)

// Driver is one bounded-exhaustive harness of a property.
type Driver struct {
	Name string
	Run  func(c *explore.Ctx)
	// deviation bounds
	Dev, DevThorough int
	// Frontier is the size product at which a scenario is assigned to a
	// worker (for drivers which do not call Exec).  0 means that the driver
	// calls Exec.
	Frontier int
	// Wrap, if set, is called around each execution (e.g. a synctest bubble).
	Bounds         string // description of alphabet and bounds
	BoundsThorough string
	ThoroughOnly   bool
	// Weight is the share of the time budget.
	Weight float64
	// Init is called once per worker.
	Init func()
	// Hang overrides the watchdog limit in seconds.
	Hang int
}

// Property groups the drivers which decide a property.
type Property struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Drivers     []Driver
	// Main, if set, is used to run the worker (for example under testing.Main).
	Procs int
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

type msg struct {
	Type    string // "fail", "done", "hang", "mem", "driver"
	Driver  string
	Choices []int32
	Key     string
	Msg     string
	Logs    []string
	Labels  []string

	Stats   explore.Stats
	Obs     int64
	ObsFile string
	Sample  [][]string
	Wall    float64
}

// Replay is the replay artefact.
type Replay struct {
	Property, Driver string
	Choices          []int32
	MaxDev           int
	Thorough         bool
	Key, Message     string
	Scenario, Labels []string
}

// Main is the entry point.
func Main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "internal: shard/shards")
	rec := flag.String("rec", "", "internal: record file")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("driver", "", "run only drivers matching this regexp")
	budget := flag.Float64("budget", 0, "time budget in seconds")
	procs := flag.Int("procs", 0, "number of worker processes")
	maxFail := flag.Int("maxfail", 12, "number of distinct failures to collect per driver")
	verifDir := flag.String("dir", "/verif", "verif directory")
	cpuprof := flag.String("cpuprofile", "", "profile (worker)")
	flag.Parse()

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := registry[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 300
		if thorough {
			*budget = 780
		}
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var drivers []*Driver
	for i := range p.Drivers {
		d := &p.Drivers[i]
		if d.ThoroughOnly && !thorough {
			continue
		}
		if re != nil && !re.MatchString(d.Name) {
			continue
		}
		drivers = append(drivers, d)
	}
	if *worker != "" {
		if *cpuprof != "" && strings.HasPrefix(*worker, "0/") {
			f, _ := os.Create(*cpuprof)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		doWorker(p, drivers, thorough, *worker, *rec, *budget, *maxFail)
		return
	}
	if *procs == 0 {
		*procs = runtime.NumCPU()
		if *procs > 8 {
			*procs = 8
		}
		if p.Procs > 0 {
			*procs = p.Procs
		}
	}
	os.Exit(supervise(p, drivers, *tier, *procs, *budget, *verifDir, *maxFail, *only, *cpuprof))
}

const recLen = 4096

func openRec(name string) []int32 {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return make([]int32, recLen)
	}
	defer f.Close()
	f.Truncate(recLen * 4)
	b, err := syscall.Mmap(int(f.Fd()), 0, recLen*4, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return make([]int32, recLen)
	}
	return unsafe.Slice((*int32)(unsafe.Pointer(&b[0])), recLen)
}

func readRec(name string) (driver int, choices []int32) {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 8 {
		return -1, nil
	}
	driver = int(int32(binary.LittleEndian.Uint32(b)))
	n := int(binary.LittleEndian.Uint32(b[4:]))
	for i := 0; i < n && 8+4*i+4 <= len(b); i++ {
		choices = append(choices, int32(binary.LittleEndian.Uint32(b[8+4*i:])))
	}
	return driver, choices
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|\d+`)

func failKey(f *explore.Failure) string {
	if f.Key == "panic" {
		// use the topmost frame in the repository as the key
		for _, l := range strings.Split(f.Msg, "\n") {
			if strings.HasPrefix(l, "/repo/") {
				l = strings.Fields(l)[0]
				l = l[:strings.LastIndex(l, ":")]
				return "panic@" + strings.TrimPrefix(l, "/repo/")
			}
		}
		return "panic@harness:" + digits.ReplaceAllString(firstLine(f.Msg), "N")
	}
	if f.Key != "" {
		return f.Key
	}
	return digits.ReplaceAllString(strings.SplitN(f.Msg, "\n", 2)[0], "N")
}

func devBound(d *Driver, thorough bool) int {
	if thorough && d.DevThorough != 0 {
		return d.DevThorough
	}
	return d.Dev
}

func doWorker(p *Property, drivers []*Driver, thorough bool, shardSpec, recName string, budget float64, maxFail int) {
	debug.SetMaxStack(256 << 20)
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	var mu sync.Mutex
	send := func(m *msg) {
		mu.Lock()
		defer mu.Unlock()
		enc.Encode(m)
	}
	var shard, shards int
	fmt.Sscanf(shardSpec, "%d/%d", &shard, &shards)

	rec := openRec(recName)
	var started atomic.Int64
	var current atomic.Pointer[Driver]
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			s := started.Load()
			d := current.Load()
			if s == 0 || d == nil {
				continue
			}
			hang := 60
			if d.Hang > 0 {
				hang = d.Hang
			}
			typ := ""
			if time.Now().Unix()-s > int64(hang) {
				typ = "hang"
			} else {
				var ms [1]uint64
				ms[0] = heapBytes()
				if ms[0] > 3<<30 {
					typ = "mem"
				}
			}
			if typ != "" {
				n := int(rec[1])
				ch := append([]int32{}, rec[2:2+n]...)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				send(&msg{Type: typ, Driver: d.Name, Choices: ch, Msg: string(buf)})
				os.Exit(3)
			}
		}
	}()

	totalW := 0.0
	for _, d := range drivers {
		totalW += weight(d)
	}
	start := time.Now()
	usedW := 0.0
	for di, d := range drivers {
		if d.Init != nil {
			d.Init()
		}
		rec[0] = int32(di)
		// unused time is passed on to later drivers
		usedW += weight(d)
		deadline := start.Add(time.Duration(budget * usedW / totalW * float64(time.Second)))
		current.Store(d)
		t0 := time.Now()
		obs := map[uint64]struct{}{}
		var samples [][]string
		fails := map[string]int{}
		var nextSample int64 = 1
		var leaves int64
		opt := &explore.Options{
			MaxDev: devBound(d, thorough), Shard: shard, Shards: shards, Frontier: d.Frontier,
			Thorough: thorough, Deadline: deadline, Rec: rec[1:],
			OnStart: func() { started.Store(time.Now().Unix()) },
		}
		opt.OnFail = func(o *explore.Outcome) bool {
			key := failKey(o.Failure)
			fails[key]++
			if fails[key] > 1 {
				return false
			}
			// replay
			vo := *opt
			vo.Verbose = true
			vo.Shards, vo.Frontier = 0, 0
			again := 0
			var last *explore.Outcome
			for i := 0; i < 5; i++ {
				o2 := explore.RunOne(d.Run, o.Choices, &vo)
				if o2.Failure != nil {
					again++
					last = o2
				}
			}
			m := &msg{Type: "fail", Driver: d.Name, Choices: o.Choices, Key: key, Msg: o.Failure.Msg}
			if last != nil {
				m.Logs, m.Labels = last.Logs, last.Labels
			}
			if again < 5 {
				m.Msg += fmt.Sprintf("\n(reproduced in %d of 5 re-executions)", again)
			}
			if again == 0 {
				m.Type = "flaky"
			}
			send(m)
			return len(fails) >= maxFail
		}
		opt.OnLeaf = func(o *explore.Outcome) {
			leaves++
			if o.HasObs && len(obs) < 1<<20 {
				obs[o.Obs] = struct{}{}
			}
			if shard == 0 && leaves == nextSample && len(samples) < 4 {
				nextSample *= 23
				vo := *opt
				vo.Verbose = true
				vo.Shards, vo.Frontier = 0, 0
				o2 := explore.RunOne(d.Run, o.Choices, &vo)
				s := append([]string{}, o2.Labels...)
				s = append(s, o2.Logs...)
				if len(s) > 40 {
					s = append(s[:40], "...")
				}
				for i := range s {
					if len(s[i]) > 300 {
						s[i] = s[i][:300] + "..."
					}
				}
				samples = append(samples, s)
			}
		}
		st := explore.Run(d.Run, opt)
		started.Store(0)
		current.Store(nil)
		obsFile := fmt.Sprintf("%s.obs%d", recName, di)
		if f, err := os.Create(obsFile); err == nil {
			w := bufio.NewWriter(f)
			for h := range obs {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], h)
				w.Write(b[:])
			}
			w.Flush()
			f.Close()
		}
		send(&msg{Type: "driver", Driver: d.Name, Stats: *st, ObsFile: obsFile, Sample: samples, Wall: time.Since(t0).Seconds()})
	}
	send(&msg{Type: "done"})
	out.Close()
}

func weight(d *Driver) float64 {
	if d.Weight > 0 {
		return d.Weight
	}
	return 1
}

type known struct {
	Property, Key, Status, What, Commit string
}

func loadKnown(dir string) map[string]known {
	res := map[string]known{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return res
	}
	var l []known
	if err := json.Unmarshal(b, &l); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(2)
	}
	for _, k := range l {
		if k.Status == "known" {
			res[k.Property+" "+k.Key] = k
		}
	}
	return res
}

func supervise(p *Property, drivers []*Driver, tier string, procs int, budget float64, dir string, maxFail int, only, cpuprof string) int {
	start := time.Now()
	thorough := tier == "thorough"
	scratch, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	exe, _ := os.Executable()

	type drvRes struct {
		st     explore.Stats
		obs    map[uint64]struct{}
		sample [][]string
		wall   float64
		seen   int
	}
	results := map[string]*drvRes{}
	for _, d := range drivers {
		results[d.Name] = &drvRes{obs: map[uint64]struct{}{}, st: explore.Stats{Complete: true}}
	}
	var mu sync.Mutex
	var fails []*msg
	var notes []string
	failSeen := map[string]bool{}
	addFail := func(m *msg) {
		k := m.Driver + " " + m.Key
		if failSeen[k] {
			return
		}
		failSeen[k] = true
		fails = append(fails, m)
	}
	internalErr := ""

	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			recName := filepath.Join(scratch, fmt.Sprintf("rec%d", i))
			args := []string{"-prop", p.ID, "-tier", tier, "-worker", fmt.Sprintf("%d/%d", i, procs),
				"-rec", recName, "-budget", strconv.FormatFloat(budget, 'f', 1, 64), "-maxfail", strconv.Itoa(maxFail)}
			if only != "" {
				args = append(args, "-driver", only)
			}
			if cpuprof != "" {
				args = append(args, "-cpuprofile", cpuprof)
			}
			cmd := exec.Command(exe, args...)
			pr, pw, _ := os.Pipe()
			cmd.ExtraFiles = []*os.File{pw}
			var stderr bytes.Buffer
			cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 20}
			if os.Getenv("GOMAXPROCS") == "" {
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			}
			if err := cmd.Start(); err != nil {
				mu.Lock()
				internalErr = err.Error()
				mu.Unlock()
				pw.Close()
				return
			}
			pw.Close()
			dec := json.NewDecoder(pr)
			done := false
			reported := false
			for {
				var m msg
				if err := dec.Decode(&m); err != nil {
					break
				}
				mu.Lock()
				switch m.Type {
				case "fail":
					addFail(&m)
				case "flaky":
					notes = append(notes, fmt.Sprintf("not reproducible: %s %s: %s", m.Driver, m.Key, firstLine(m.Msg)))
				case "driver":
					r := results[m.Driver]
					r.st.Executions += m.Stats.Executions
					r.st.Nodes += m.Stats.Nodes
					r.st.Edges += m.Stats.Edges
					r.st.Skipped += m.Stats.Skipped
					r.st.Complete = r.st.Complete && m.Stats.Complete
					if m.Stats.MaxDepth > r.st.MaxDepth {
						r.st.MaxDepth = m.Stats.MaxDepth
					}
					if m.Wall > r.wall {
						r.wall = m.Wall
					}
					r.sample = append(r.sample, m.Sample...)
					r.seen++
					if b, err := os.ReadFile(m.ObsFile); err == nil {
						for j := 0; j+8 <= len(b); j += 8 {
							r.obs[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
						}
						os.Remove(m.ObsFile)
					}
				case "hang", "mem":
					reported = true
					mu.Unlock()
					bad, detail := isolate(exe, p, m.Driver, m.Choices, thorough, scratch, i)
					mu.Lock()
					if bad {
						m.Key = m.Type + ":" + detail
						addFail(&m)
					} else {
						notes = append(notes, fmt.Sprintf("%s not reproducible: %s", m.Type, m.Driver))
						r := results[m.Driver]
						r.st.Complete = false
					}
				case "done":
					done = true
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			if !done && !reported {
				di, choices := readRec(recName)
				mu.Lock()
				if di < 0 || di >= len(drivers) {
					internalErr = fmt.Sprintf("worker failed: %v\n%s", err, tail(stderr.String()))
				} else {
					mu.Unlock()
					d := drivers[di]
					bad, detail := isolate(exe, p, d.Name, choices, thorough, scratch, i)
					mu.Lock()
					if bad {
						addFail(&msg{Driver: d.Name, Choices: choices, Key: "crash:" + detail, Msg: fmt.Sprintf("process crashed: %v\n%s", err, tail(stderr.String()))})
					} else {
						internalErr = fmt.Sprintf("worker failed in %s (not reproducible): %v\n%s", d.Name, err, tail(stderr.String()))
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	kn := loadKnown(dir)
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Driver != fails[j].Driver {
			return fails[i].Driver < fails[j].Driver
		}
		return fails[i].Key < fails[j].Key
	})
	violations := 0
	knownSeen := map[string]bool{}
	rdir := filepath.Join(dir, "out", "replay")
	os.MkdirAll(rdir, 0o755)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for _, m := range fails {
		if k, ok := kn[p.ID+" "+m.Key]; ok {
			if !knownSeen[m.Key] {
				knownSeen[m.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, k.What, m.Key)
			}
			continue
		}
		if strings.HasPrefix(m.Key, "HARNESS:") {
			internalErr = fmt.Sprintf("%s: %s: %s", m.Driver, m.Key, m.Msg)
			continue
		}
		violations++
		h := fnv.New32a()
		h.Write([]byte(m.Driver + m.Key))
		name := filepath.Join(rdir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
		d := findDriver(p, m.Driver)
		rep := Replay{Property: p.ID, Driver: m.Driver, Choices: m.Choices, MaxDev: devBound(d, thorough), Thorough: thorough,
			Key: m.Key, Message: m.Msg, Scenario: m.Logs, Labels: m.Labels}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(name, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		fmt.Printf("  driver %s, %s: %s\n", m.Driver, m.Key, firstLines(m.Msg, 12))
	}

	// evidence
	var states, edges, execs, distinct, skipped int64
	var samples []any
	per := []any{}
	exhaustive := true
	for _, d := range drivers {
		r := results[d.Name]
		if r.seen < procs {
			r.st.Complete = false
		}
		states += r.st.Nodes
		edges += r.st.Edges
		execs += r.st.Executions
		skipped += r.st.Skipped
		distinct += int64(len(r.obs))
		exhaustive = exhaustive && r.st.Complete
		bounds := d.Bounds
		if thorough && d.BoundsThorough != "" {
			bounds = d.BoundsThorough
		}
		per = append(per, map[string]any{
			"driver": d.Name, "nodes": r.st.Nodes, "executions": r.st.Executions, "distinct_observations": len(r.obs),
			"pruned": r.st.Skipped, "max_choices": r.st.MaxDepth, "deviation_bound": devBound(d, thorough), "exhaustive": r.st.Complete,
			"bounds": bounds, "wall_s": round(r.wall),
		})
		for _, s := range r.sample {
			samples = append(samples, map[string]any{"driver": d.Name, "scenario": s})
		}
		fmt.Printf("%-28s executions=%-9d nodes=%-9d distinct=%-8d pruned=%-8d depth=%-3d dev<=%d complete=%v %.1fs\n",
			d.Name, r.st.Executions, r.st.Nodes, len(r.obs), r.st.Skipped, r.st.MaxDepth, devBound(d, thorough), r.st.Complete, r.wall)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"samples": samples, "drivers": per, "exhaustive": exhaustive, "distinct_nontrivial": distinct, "pruned": skipped,
		"rule": p.Rule,
	}
	if p.Level == "model_checking" {
		cov["states"] = states + int64(len(drivers))
		cov["transitions"] = edges
		cov["traces_validated_against_impl"] = execs
	} else {
		cov["evaluations"] = execs
		cov["choice_nodes"] = states
	}
	if len(samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if only == "" {
		if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			internalErr = err.Error()
		}
	}
	fmt.Printf("%s %s: executions=%d nodes=%d distinct=%d exhaustive=%v violations=%d wall=%.1fs\n", p.ID, tier, execs, states, distinct, exhaustive, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if internalErr != "" {
		fmt.Fprintln(os.Stderr, "internal error:", internalErr)
		return 2
	}
	return 0
}

func findDriver(p *Property, name string) *Driver {
	for i := range p.Drivers {
		if p.Drivers[i].Name == name {
			return &p.Drivers[i]
		}
	}
	return nil
}

// isolate re-runs a single execution in a process of its own.
func isolate(exe string, p *Property, driver string, choices []int32, thorough bool, scratch string, id int) (bad bool, detail string) {
	name := filepath.Join(scratch, fmt.Sprintf("iso%d.json", id))
	d := findDriver(p, driver)
	b, _ := json.Marshal(Replay{Property: p.ID, Driver: driver, Choices: choices, MaxDev: devBound(d, thorough), Thorough: thorough})
	os.WriteFile(name, b, 0o600)
	hang := 60
	if d.Hang > 0 {
		hang = d.Hang
	}
	cmd := exec.Command(exe, "-replay", name)
	var out bytes.Buffer
	cmd.Stdout = &limitWriter{w: &out, n: 1 << 20}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return false, ""
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	t0 := time.Now()
	for {
		select {
		case err := <-ch:
			if err == nil {
				return false, ""
			}
			return true, CrashSite(out.String())
		case <-time.After(200 * time.Millisecond):
			if time.Since(t0) > time.Duration(hang)*time.Second {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				cmd.Process.Kill()
				<-ch
				return true, CrashSite(out.String())
			}
		}
	}
}

var frameRe = regexp.MustCompile(`/repo/([^ :]+\.go):\d+`)

// CrashSite returns the source file mentioned first in a stack trace.
func CrashSite(s string) string {
	if m := frameRe.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return "unknown"
}

func doReplay(name string) int {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	d := findDriver(p, r.Driver)
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown driver")
		return 2
	}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			if heapBytes() > 3<<30 {
				fmt.Println("memory limit exceeded")
				buf := make([]byte, 1<<16)
				os.Stdout.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(1)
			}
		}
	}()
	if d.Init != nil {
		d.Init()
	}
	o := explore.RunOne(d.Run, r.Choices, &explore.Options{MaxDev: r.MaxDev, Thorough: r.Thorough, Verbose: true})
	for _, l := range o.Labels {
		fmt.Println("choice", l)
	}
	for _, l := range o.Logs {
		fmt.Println(l)
	}
	if o.Failure != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", r.Property, name, failKey(o.Failure), o.Failure.Msg)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n    ")
	if len(r) > 3000 {
		r = r[:3000] + "..."
	}
	return r
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}
