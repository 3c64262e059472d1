//go:build go1.21

package vs

import (
	"fmt"
	"strconv"
	"strings"
)

// Result is the outcome of one execution.
type Result struct {
	Fail     *Failure
	Diverged bool
	Races    int
	Trace    []string
	Choices  string
	Elapsed  Duration
	Steps    int
	Cost     int
}

// Stats counts an exploration.
type Stats struct {
	Execs     int
	States    int // distinct choice points plus ends
	Steps     int
	MaxPoints int
	Diverged  int
	Complete  bool
}

func encode(cs []choice) string {
	n := len(cs)
	for n > 0 && cs[n-1].idx == 0 {
		n--
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%d/%d/%x", cs[i].idx, cs[i].n, cs[i].cost)
	}
	return b.String()
}

func decode(s string) ([]choice, error) {
	if s == "" {
		return nil, nil
	}
	var cs []choice
	for _, f := range strings.Split(s, ",") {
		p := strings.Split(f, "/")
		if len(p) != 3 {
			return nil, fmt.Errorf("bad choice %q", f)
		}
		i, err := strconv.Atoi(p[0])
		if err != nil {
			return nil, err
		}
		n, err := strconv.Atoi(p[1])
		if err != nil {
			return nil, err
		}
		c, err := strconv.ParseUint(p[2], 16, 64)
		if err != nil {
			return nil, err
		}
		cs = append(cs, choice{n, i, c})
	}
	return cs, nil
}

func result(x *exec, races int) Result {
	r := Result{Fail: x.fail, Diverged: x.diverged, Races: RaceErrors() - races, Trace: x.trace,
		Elapsed: Duration(x.now), Steps: x.steps}
	for _, c := range x.choices {
		r.Cost += c.costOf(c.idx)
	}
	return r
}

// Once runs fn under the schedule described by choices.
func RunOnce(cfg Config, choices string, fn func()) (Result, error) {
	p, err := decode(choices)
	if err != nil {
		return Result{}, err
	}
	Desc = cfg.MapDesc
	races := RaceErrors()
	x := run(&cfg, p, fn)
	r := result(x, races)
	r.Choices = encode(x.choices)
	return r, nil
}

// ExploreAll runs fn under every schedule with at most cfg.Bound deviations;
// check is called after each execution and returns false to stop.
func ExploreAll(cfg Config, fn func(), check func(Result) bool) Stats {
	st := Stats{}
	Desc = cfg.MapDesc
	var prefix []choice
	for {
		races := RaceErrors()
		x := run(&cfg, prefix, fn)
		st.Execs++
		st.Steps += x.steps
		st.States += len(x.choices) - len(prefix) + 1
		if len(x.choices) > st.MaxPoints {
			st.MaxPoints = len(x.choices)
		}
		r := result(x, races)
		if x.diverged || len(x.choices) < len(prefix) {
			st.Diverged++
			r.Diverged = true
		}
		r.Choices = ""
		cs := x.choices
		if r.Fail != nil || r.Races > 0 {
			r.Choices = encode(cs)
		} else {
			r.Choices = "?"
		}
		lastChoices = cs
		if !check(r) {
			return st
		}
		if r.Diverged {
			return st
		}
		// backtrack
		i := len(cs) - 1
		used := 0
		for _, c := range cs {
			used += c.costOf(c.idx)
		}
		for ; i >= 0; i-- {
			c := cs[i]
			used -= c.costOf(c.idx)
			j := c.idx + 1
			for ; j < c.n; j++ {
				if used+c.costOf(j) <= cfg.Bound {
					break
				}
			}
			if j < c.n {
				c.idx = j
				prefix = append(append([]choice(nil), cs[:i]...), c)
				break
			}
		}
		if i < 0 {
			st.Complete = true
			return st
		}
		if cfg.MaxExecs > 0 && st.Execs >= cfg.MaxExecs {
			return st
		}
		if cfg.Deadline != nil && st.Execs&63 == 0 && cfg.Deadline() {
			return st
		}
	}
}

var lastChoices []choice

// LastChoices returns the schedule of the execution just checked.
func LastChoices() string { return encode(lastChoices) }
