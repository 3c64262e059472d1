//go:build go1.21

// Command mcmain explores the behaviours of netscrape for one property.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// Violation describes how a property was broken.
type Violation struct {
	Unit     string
	Mode     string
	Kind     string // result, deadlock, panic, livelock, race, hang, crash
	Msg      string
	Schedule string
	Config   string
	Trace    []string
}

// UnitResult is what the exploration of a unit covered.
type UnitResult struct {
	Unit       string
	Execs      int
	States     int
	Trans      int
	Validated  int
	Histories  int
	Exhaustive bool
	Skipped    bool
	Diverged   int
	Samples    []string
	Notes      []string
	Viol       *Violation
	Wall       float64
}

// Result is the outcome of a check.
type Result struct {
	Check      string
	Units      []UnitResult
	RaceUnits  int
	Violations []Violation
	Notes      []string
	Wall       float64
}

// Unit is a part of a check that one worker explores.
type Unit struct {
	Name string
	Race bool
	Run  func(r *R)
}

// check builds the units of a property.
type check func() []Unit

var checks = map[string]check{}

var (
	fCheck   = flag.String("check", "", "")
	fTier    = flag.String("tier", "quick", "")
	fMode    = flag.String("mode", "main", "")
	fScratch = flag.String("scratch", "", "")
	fStarted = flag.Int("started", 0, "")
	fWorker  = flag.Bool("worker", false, "")
	fUnit    = flag.String("unit", "", "")
	fReplay  = flag.String("replay", "", "")
	fV       = flag.Bool("v", false, "")
	fBudget  = flag.Float64("budget", 0, "")
)

func thorough() bool { return *fTier == "thorough" }
func raceMode() bool { return *fMode == "race" }

// pick returns q for quick runs and t for thorough ones.
func pick(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

// R collects the result of a unit.
type R struct {
	UnitResult
	unit     string
	deadline time.Time
	hist     map[string]bool
}

func (r *R) expired() bool { return time.Now().After(r.deadline) }

// Sample keeps a few samples of what was covered.
func (r *R) Sample(s string) {
	if len(r.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		r.Samples = append(r.Samples, s)
	}
}

// Fail records a violation.
func (r *R) Fail(kind, msg string, trace []string, schedule string) {
	if r.Viol == nil {
		if len(msg) > 6000 {
			msg = msg[:6000] + "…"
		}
		if len(trace) > 400 {
			trace = append(trace[:400:400], "…")
		}
		r.Viol = &Violation{Unit: r.unit, Mode: *fMode, Kind: kind, Msg: msg, Trace: trace, Schedule: schedule}
	}
}

func units(id string) []Unit {
	c := checks[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", id)
		os.Exit(2)
	}
	us := append(c(), errUnit(id)...)
	seen := map[string]bool{}
	for _, u := range us {
		if seen[u.Name] {
			fmt.Fprintf(os.Stderr, "duplicate unit %q\n", u.Name)
			os.Exit(2)
		}
		seen[u.Name] = true
	}
	return us
}

func main() {
	flag.Parse()
	if err := vs.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *fWorker {
		worker()
		return
	}
	parent()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	us := units(*fCheck)
	out := os.NewFile(uintptr(dupStdout()), "out")
	enc := json.NewEncoder(out)
	var mu sync.Mutex
	var cur *R
	go func() { // watchdog
		last, lastCPU := -1, cpuTime()
		ppid := os.Getppid()
		for {
			time.Sleep(500 * time.Millisecond)
			if os.Getppid() != ppid {
				os.Exit(3)
			}
			n := vs.Execs
			c := cpuTime()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if n != last {
				last, lastCPU = n, c
				if ms.HeapAlloc < 3<<30 {
					continue
				}
			}
			limit := 30 * time.Second
			if raceMode() {
				limit = 60 * time.Second
			}
			if c-lastCPU > limit || ms.HeapAlloc >= 3<<30 {
				mu.Lock()
				if cur != nil {
					why := "an operation spins forever"
					if ms.HeapAlloc >= 3<<30 {
						why = "an operation uses unbounded memory"
					}
					r := &R{unit: cur.unit}
					r.Unit = cur.unit
					r.Fail("hang", why, []string{lastLabel}, "")
					_ = enc.Encode(&r.UnitResult)
					os.Exit(3)
				}
				mu.Unlock()
			}
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var i int
		var secs float64
		if n, _ := fmt.Sscan(in.Text(), &i, &secs); n != 2 {
			os.Exit(2)
		}
		r := runUnit(us[i], secs, func(r *R) { mu.Lock(); cur = r; mu.Unlock() })
		mu.Lock()
		cur = nil
		if err := enc.Encode(&r.UnitResult); err != nil {
			os.Exit(2)
		}
		mu.Unlock()
	}
}

// lastLabel describes what the worker is doing.
var lastLabel string

func runUnit(u Unit, secs float64, set func(*R)) *R {
	t := time.Now()
	r := &R{unit: u.Name, deadline: t.Add(time.Duration(secs * float64(time.Second))), hist: map[string]bool{}}
	r.Unit = u.Name
	r.Exhaustive = true
	set(r)
	u.Run(r)
	r.Histories = len(r.hist)
	r.Wall = time.Since(t).Seconds()
	return r
}

// dupStdout keeps output of the code under test away from the protocol.
func dupStdout() int {
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(2)
	}
	syscall.CloseOnExec(fd)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		_ = syscall.Dup2(int(null.Fd()), 1)
	}
	return fd
}

type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startWorker(n int) *proc {
	cmd := exec.Command(os.Args[0], "-worker", "-check", *fCheck, "-tier", *fTier, "-mode", *fMode, "-scratch", *fScratch)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GORACE=halt_on_error=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 exitcode=0 log_path=%s/race%d", *fScratch, n),
		fmt.Sprintf("VERIF_RACELOG=%s/race%d", *fScratch, n))
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal(err)
	}
	t := &tail{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	return &proc{cmd, bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20), t}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

// runOn lets p run unit i; a crash of the worker is a violation.
func (p *proc) runOn(i int, name string, secs float64) (r UnitResult, alive bool) {
	fmt.Fprintf(p.in, "%d %f\n", i, secs)
	_ = p.in.Flush()
	line, err := p.out.ReadBytes('\n')
	if err == nil {
		if json.Unmarshal(line, &r) == nil {
			return r, r.Viol == nil || r.Viol.Kind != "hang"
		}
	}
	_ = p.cmd.Process.Kill()
	werr := p.cmd.Wait()
	s := p.err.String()
	if i := strings.Index(s, "fatal error"); i > 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	r = UnitResult{Unit: name}
	r.Viol = &Violation{Unit: name, Mode: *fMode, Kind: "crash", Msg: fmt.Sprintf("the process ended: %v\n%s", werr, s)}
	return r, false
}

func (p *proc) stop() {
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

func parent() {
	start := time.Now()
	us := units(*fCheck)
	res := Result{Check: *fCheck}
	var todo []int
	for i, u := range us {
		if u.Race {
			res.RaceUnits++
		}
		if raceMode() && !u.Race {
			continue
		}
		if *fUnit != "" && !strings.Contains(u.Name, *fUnit) {
			continue
		}
		todo = append(todo, i)
	}
	if *fReplay != "" {
		replay(us)
		return
	}
	total := 360.0
	if thorough() {
		total = 700
	}
	if *fBudget > 0 {
		total = *fBudget
	}
	end := start.Add(time.Duration((total - float64(*fStarted)) * float64(time.Second)))
	if raceMode() && end.Before(start.Add(120*time.Second)) {
		end = start.Add(120 * time.Second)
	}
	var mu sync.Mutex
	next := 0
	stop := false
	nw := 8
	if nw > len(todo) {
		nw = len(todo)
	}
	results := map[int]UnitResult{}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			p := startWorker(k)
			defer func() { p.stop() }()
			for {
				mu.Lock()
				if next >= len(todo) || stop {
					mu.Unlock()
					return
				}
				i := todo[next]
				next++
				mu.Unlock()
				left := time.Until(end).Seconds()
				if left < 1 {
					mu.Lock()
					results[i] = UnitResult{Unit: us[i].Name, Skipped: true}
					mu.Unlock()
					continue
				}
				r, alive := p.runOn(i, us[i].Name, left)
				if *fV {
					fmt.Fprintf(os.Stderr, "%-60s execs=%d states=%d trans=%d hist=%d exh=%v %.2fs\n", r.Unit, r.Execs, r.States, r.Trans, r.Histories, r.Exhaustive, r.Wall)
				}
				if !alive {
					p.stop()
					p = startWorker(k)
				}
				if r.Viol != nil {
					// it must happen again, in fresh processes
					const n = 3
					var r2 [n]UnitResult
					var rw sync.WaitGroup
					for c := 0; c < n; c++ {
						rw.Add(1)
						go func(c int) {
							defer rw.Done()
							q := startWorker(100 + 10*k + c)
							r2[c], _ = q.runOn(i, us[i].Name, 600)
							q.stop()
						}(c)
					}
					rw.Wait()
					again := 0
					for c := range r2 {
						if r2[c].Viol != nil {
							again++
							if r2[c].Viol.Kind == r.Viol.Kind && len(r2[c].Viol.Trace) > 0 {
								r.Viol = r2[c].Viol
							}
						}
					}
					mu.Lock()
					if again == n {
						res.Violations = append(res.Violations, *r.Viol)
						stop = true
					} else {
						r.Exhaustive = false
						res.Notes = append(res.Notes, fmt.Sprintf("unit %s: not reproduced (%d of %d): %s %s", r.Unit, again, n, r.Viol.Kind, r.Viol.Msg))
						r.Viol = nil
					}
					mu.Unlock()
				}
				mu.Lock()
				results[i] = r
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	for _, i := range todo {
		r, ok := results[i]
		if !ok {
			r = UnitResult{Unit: us[i].Name, Skipped: true}
		}
		res.Units = append(res.Units, r)
	}
	sort.SliceStable(res.Violations, func(a, b int) bool { return res.Violations[a].Unit < res.Violations[b].Unit })
	res.Wall = time.Since(start).Seconds()
	_ = json.NewEncoder(os.Stdout).Encode(&res)
}

// replay runs the unit of a recorded violation again and prints its trace.
func replay(us []Unit) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fatal(err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	for i, u := range us {
		if u.Name != v.Unit {
			continue
		}
		p := startWorker(0)
		defer p.stop()
		r, _ := p.runOn(i, u.Name, 600)
		if r.Viol == nil {
			fmt.Printf("unit %s: no violation\n", u.Name)
			return
		}
		fmt.Printf("unit %s: %s: %s\n", u.Name, r.Viol.Kind, r.Viol.Msg)
		for _, l := range r.Viol.Trace {
			fmt.Println("  ", l)
		}
		if r.Viol.Schedule != "" {
			fmt.Printf("schedule: %s\n", r.Viol.Schedule)
		}
		return
	}
	fmt.Printf("no unit %q\n", v.Unit)
}
