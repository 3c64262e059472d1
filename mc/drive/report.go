package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Violation, UnitResult and Result mirror the types of mcmain.
type Violation struct {
	Unit     string
	Mode     string
	Kind     string
	Msg      string
	Schedule string
	Config   string
	Trace    []string
}

// UnitResult is what the exploration of a unit covered.
type UnitResult struct {
	Unit       string
	Execs      int
	States     int
	Trans      int
	Validated  int
	Histories  int
	Exhaustive bool
	Skipped    bool
	Diverged   int
	Samples    []string
	Notes      []string
	Viol       *Violation
	Wall       float64
}

// Result is the outcome of a check.
type Result struct {
	Check      string
	Units      []UnitResult
	RaceUnits  int
	Violations []Violation
	Notes      []string
	Wall       float64
	Race       *Result `json:"-"`
}

// known returns the known findings of property id: a line
// "known: property=<id> unit=<unit> kind=<kind> match=<text> :: <what fails>".
func known(verif, id string) [][4]string {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out [][4]string
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		var k [4]string
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		if i := strings.Index(l, " :: "); i >= 0 {
			k[3] = l[i+4:]
			l = l[:i]
		}
		if i := strings.Index(l, "match="); i >= 0 {
			k[2] = l[i+6:]
			l = l[:i]
		}
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "unit=") {
				k[0] = w[5:]
			}
			if strings.HasPrefix(w, "kind=") {
				k[1] = w[5:]
			}
		}
		if k[0] == "" || k[1] == "" || k[2] == "" {
			continue
		}
		out = append(out, k)
	}
	return out
}

func report(verif, id string, res *Result, start time.Time) int {
	var execs, states, trans, validated, hist, skipped, diverged, partial int
	var samples []interface{}
	var notes []string
	notes = append(notes, res.Notes...)
	exhaustive := *unitRe == ""
	type us struct {
		Unit       string  `json:"unit"`
		Executions int     `json:"executions"`
		States     int     `json:"states"`
		Trans      int     `json:"transitions"`
		Exhaustive bool    `json:"exhaustive"`
		Wall       float64 `json:"wall_s"`
	}
	var list []us
	for _, u := range res.Units {
		execs += u.Execs
		states += u.States
		trans += u.Trans
		validated += u.Validated
		hist += u.Histories
		diverged += u.Diverged
		if u.Skipped {
			skipped++
			exhaustive = false
			continue
		}
		if !u.Exhaustive {
			partial++
			exhaustive = false
		}
		list = append(list, us{u.Unit, u.Execs, u.States, u.Trans, u.Exhaustive, u.Wall})
		for _, s := range u.Samples {
			if len(samples) < 12 {
				samples = append(samples, u.Unit+": "+s)
			}
		}
		for _, n := range u.Notes {
			if len(notes) < 40 {
				notes = append(notes, u.Unit+": "+n)
			}
		}
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated,
		"executions": execs, "units": len(res.Units), "units_skipped": skipped, "units_cut_short": partial,
		"samples": samples, "exhaustive": exhaustive && len(res.Violations) == 0,
		"unit_details": list,
		"explanation": "states: distinct canonical states of the real objects (operation sequences) or scheduling points visited (interleavings). " +
			"transitions: operations executed from those states, or steps taken between scheduling points. " +
			"traces_validated_against_impl: executions of the real, instrumented code whose complete observable behaviour was compared with the reference model. " +
			"exhaustive: every unit enumerated its bounded space completely.",
	}
	if hist > 0 {
		cov["distinct_histories"] = hist
	}
	if diverged > 0 {
		cov["diverged_replays"] = diverged
	}
	if res.Race != nil {
		n, sk := 0, 0
		for _, u := range res.Race.Units {
			n += u.Execs
			if u.Skipped {
				sk++
			}
		}
		cov["race_detector_executions"] = n
		cov["race_detector_units"] = len(res.Race.Units)
		if sk > 0 {
			cov["race_detector_units_skipped"] = sk
		}
		notes = append(notes, res.Race.Notes...)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(filepath.Join(dir, "replay"), 0o755)

	ks := known(verif, id)
	bad := 0
	printed := map[string]bool{}
	var lines []string
	for i, v := range res.Violations {
		match := false
		for _, k := range ks {
			if k[0] == v.Unit && k[1] == v.Kind && strings.Contains(v.Msg, k[2]) {
				match = true
				if !printed[k[3]] {
					printed[k[3]] = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k[3]))
				}
				break
			}
		}
		if match {
			continue
		}
		bad++
		p := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
			logf("drive: %v", err)
			return 2
		}
		lines = append(lines, fmt.Sprintf("%s: %s: %s", v.Unit, v.Kind, v.Msg))
		for k, t := range v.Trace {
			if k == 60 {
				lines = append(lines, "    ...")
				break
			}
			lines = append(lines, "    "+t)
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, p))
	}
	ev := map[string]interface{}{
		"property": id, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the instrumentation (channels, select, sync, atomic, time, context, maps) keeps the meaning of the code; it is checked by the runtime's self test at the start of every run",
			"bounds (sizes, depths, threads, preemptions) are those of the units listed in unit_details and described in DESIGN.md",
		},
		"wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		logf("drive: %v", err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s: %d units (%d skipped, %d cut short), %d executions, %d states, %d transitions, exhaustive=%v, %.1fs\n",
		id, len(res.Units), skipped, partial, execs, states, trans, cov["exhaustive"], time.Since(start).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}
