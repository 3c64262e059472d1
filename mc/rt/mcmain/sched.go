//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	guuid "github.com/google/uuid"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() { guuid.SetRand(vs.Rand) }

// Op is an operation of a history: its name and arguments.
type Op struct {
	Name string
	Args []string
}

func (o Op) String() string { return o.Name + "(" + strings.Join(o.Args, ",") + ")" }

// Event is an operation that was performed.
type Event struct {
	Op     Op
	Res    string
	Thread int
	Begin  int
	End    int
	T0, T1 time.Duration
	Data   interface{}
}

func (e *Event) String() string {
	t := ""
	if e.T1 > 0 {
		t = fmt.Sprintf(" @%v..%v", e.T0, e.T1)
	}
	return fmt.Sprintf("[%d-%d]%s t%d %v = %s", e.Begin, e.End, t, e.Thread, e.Op, e.Res)
}

// H is the history of an execution.
type H struct {
	threads []*Th
	errs    []string
	V       map[string]interface{}
}

// Th is the history of one thread.
type Th struct {
	h    *H
	id   int
	evs  []*Event
	errs []string
}

// T returns the history of thread i.
func (h *H) T(i int) *Th {
	for len(h.threads) <= i {
		h.threads = append(h.threads, &Th{h: h, id: len(h.threads)})
	}
	return h.threads[i]
}

// Do performs an operation and records it.
func (t *Th) Do(op Op, f func() string) *Event {
	name := ""
	if vs.Tracing() {
		name = op.String()
	} else {
		name = op.Name
	}
	e := &Event{Op: op, Thread: t.id}
	e.Begin = vs.OpBegin(name)
	e.T0 = vs.Elapsed()
	e.Res = f()
	e.T1 = vs.Elapsed()
	e.End = vs.OpEnd(e.Res)
	t.evs = append(t.evs, e)
	return e
}

// Errf records that the execution broke the property.
func (t *Th) Errf(format string, args ...interface{}) {
	t.errs = append(t.errs, fmt.Sprintf(format, args...))
}

// Events returns all operations by start.
func (h *H) Events() []*Event {
	var evs []*Event
	for _, t := range h.threads {
		evs = append(evs, t.evs...)
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].Begin < evs[j].Begin })
	return evs
}

func (h *H) String() string {
	var s []string
	for _, e := range h.Events() {
		s = append(s, e.String())
	}
	return strings.Join(s, "; ")
}

// Sched explores all schedules of body with at most cfg.Bound deviations.
// body runs as thread 0; verdict judges a finished execution.
func (r *R) Sched(label string, cfg vs.Config, body func(h *H), verdict func(h *H) string) {
	if r.Viol != nil || r.expired() {
		if r.Viol == nil {
			r.Exhaustive = false
		}
		return
	}
	lastLabel = label
	cfg.Deadline = r.expired
	var h *H
	fn := func() {
		h = &H{V: map[string]interface{}{}}
		body(h)
	}
	judge := func(res vs.Result) (kind, msg string) {
		if res.Fail != nil {
			return res.Fail.Kind, res.Fail.Msg
		}
		if res.Races > 0 {
			return "race", "data race"
		}
		var errs []string
		errs = append(errs, h.errs...)
		for _, t := range h.threads {
			errs = append(errs, t.errs...)
		}
		if len(errs) > 0 {
			return "result", strings.Join(errs, "; ")
		}
		if m := verdict(h); m != "" {
			return "result", m
		}
		return "", ""
	}
	st := vs.ExploreAll(cfg, fn, func(res vs.Result) bool {
		if res.Diverged {
			return true
		}
		kind, msg := judge(res)
		if kind == "" {
			r.Validated++
			if len(r.Samples) < 2 {
				r.Sample(label + ": " + h.String())
			}
			return true
		}
		sched := vs.LastChoices()
		races := ""
		if kind == "race" {
			races = raceLog()
		}
		hist := h.String()
		c2 := cfg
		c2.Trace = true
		res2, err := vs.RunOnce(c2, sched, fn)
		trace := res2.Trace
		if err == nil && !res2.Diverged {
			if k2, m2 := judge(res2); k2 == kind && kind != "race" {
				msg = m2
				hist = h.String()
			}
		}
		if races != "" {
			msg += "\n" + races
		}
		r.Fail(kind, fmt.Sprintf("%s: %s\nhistory: %s", label, msg, hist), trace, sched)
		return false
	})
	r.Execs += st.Execs
	r.States += st.States
	r.Trans += st.Steps
	if st.Diverged > 0 {
		r.Diverged += st.Diverged
		if len(r.Notes) < 5 {
			r.Notes = append(r.Notes, "not deterministic: "+label)
		}
	}
	if !st.Complete {
		r.Exhaustive = false
	}
}

// raceLog returns what the race detector reported.
func raceLog() string {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return ""
	}
	ms, _ := filepath.Glob(p + "." + strconv.Itoa(os.Getpid()))
	s := ""
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		s += string(b)
	}
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Single runs body as the only harness thread; blocking forever and panics are violations.
func (r *R) Single(label string, cfg vs.Config, body func(h *H)) {
	r.Sched(label, cfg, func(h *H) { body(h) }, func(*H) string { return "" })
}
