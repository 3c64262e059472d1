//go:build go1.21

package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// Sys is a real object together with its reference model. Do performs
// operation number op of the alphabet on both and returns how their results
// differ ("" if they agree); enabled is false if op is not possible now.
// Check compares everything that can be observed; it must not change the
// state. State returns a canonical form of object and model.
type Sys interface {
	Do(op int) (diff string, enabled bool)
	Check() string
	State() string
}

// SeqSpec is the state space of a sequential system.
type SeqSpec struct {
	Label   string
	New     func() Sys
	Ops     []string
	Depth   int
	Prefix  []int // operations every history starts with
	NoMerge bool  // visit every history, even if its state has been seen
	Desc    bool  // maps are iterated in descending order
	Max     int   // states
	Want    string
	Watch   bool // everything is observed after every operation of a history
}

// foreign reports whether diff is about a property other than want. A diff
// about several properties starts with "C0*:".
func foreign(diff, want string) bool {
	return !strings.HasPrefix(diff, "C0*:") && want != "" && len(diff) > 4 && diff[0] == 'C' && diff[3] == ':' && diff[:3] != want
}

func hash128(s string) [2]uint64 {
	a, b := fnv.New64a(), fnv.New64()
	_, _ = a.Write([]byte(s))
	_, _ = b.Write([]byte(s))
	return [2]uint64{a.Sum64(), b.Sum64()}
}

func (s *SeqSpec) names(h []int) string {
	var n []string
	for _, o := range h {
		n = append(n, s.Ops[o])
	}
	return strings.Join(n, "; ")
}

// BFS visits all states reachable by histories of up to Depth operations. In
// every state each operation of the alphabet is performed on the real object
// (rebuilt from the history) and on the model, and all observations compared.
// Histories that are shorter by one are visited again, with all observations
// made after every operation, which shows observations that have effects, and
// with a context that has ended for the last operation, which may make it fail
// without effect.
func (r *R) BFS(s SeqSpec) {
	r.bfs(s)
	s.Watch = true
	if s.Depth > len(s.Prefix)+1 {
		s.Depth--
	}
	r.bfs(s)
}

func (r *R) bfs(s SeqSpec) {
	if r.Viol != nil {
		return
	}
	type node struct {
		h []int
	}
	seen := map[[2]uint64]bool{}
	frontier := []node{{append([]int(nil), s.Prefix...)}}
	cfg := vs.Config{MapDesc: s.Desc, Horizon: 200000}
	first := true
	var diff, state string
	var enabled bool
	var hist []int
	var verify int // operations from here on are compared
	ended := false // the last operation has a context that has ended
	run := func() {
		defer func() {
			if foreign(diff, s.Want) {
				diff, enabled = "", false
			}
		}()
		diff, enabled, state = "", true, ""
		vs.Explore(false)
		sys := s.New()
		if len(hist) == 0 || s.Watch {
			if diff = sys.Check(); diff != "" {
				return
			}
		}
		for i, o := range hist {
			last := ended && i == len(hist)-1
			if last {
				live := bg
				var cancel func()
				bg, cancel = vs.WithCancel(live)
				cancel()
				defer func() { bg = live }()
			}
			refused = false
			d, en := sys.Do(o)
			if last {
				bg = context.Background()
				if refused || strings.Contains(d, context.Canceled.Error()) {
					// it may refuse to do anything at all
					enabled = false
					if d = sys.Check(); d != "" && !strings.HasPrefix(s.Ops[o], "bulk") {
						diff = "refused as its context has ended, but: " + d
					}
					return
				}
			}
			if !en {
				enabled = false
				return
			}
			if d != "" {
				diff = d
				if last {
					diff = "with a context that has ended: " + d
				}
				return
			}
			if i >= verify || s.Watch {
				if d = sys.Check(); d != "" {
					diff = d
					return
				}
			}
		}
		state = sys.State()
	}
	visit := func(h []int, from int) bool {
		hist, verify = h, from
		lastLabel = s.Label
		res, err := vs.RunOnce(cfg, "", run)
		r.Execs++
		if err != nil {
			r.Notes = append(r.Notes, err.Error())
			return false
		}
		if res.Fail != nil {
			r.Fail(res.Fail.Kind, fmt.Sprintf("%s: after [%s]: %s", s.Label, s.names(h), res.Fail.Msg), []string{s.names(h)}, "")
			return false
		}
		if diff != "" {
			r.Fail("result", fmt.Sprintf("%s: history [%s]: %s", s.Label, s.names(h), diff), []string{s.names(h)}, "")
			return false
		}
		return true
	}
	if len(s.Prefix) == 0 {
		if !visit(nil, 0) {
			return
		}
		seen[hash128(state)] = true
		r.States++
	} else {
		if !visit(s.Prefix, 0) || !enabled {
			return
		}
		seen[hash128(state)] = true
		r.States++
	}
	for d := len(s.Prefix); d < s.Depth; d++ {
		var next []node
		for _, n := range frontier {
			for o := range s.Ops {
				h := append(append(make([]int, 0, len(n.h)+1), n.h...), o)
				if s.Watch {
					ended = true
					ok := visit(h, len(h)-1)
					if ended = false; !ok {
						return
					}
				}
				if !visit(h, len(h)-1) {
					return
				}
				if !enabled {
					continue
				}
				r.Trans++
				r.Validated++
				if first || len(h) == s.Depth {
					if len(r.Samples) < 2 && len(h) >= 2 {
						r.Sample(s.Label + ": " + s.names(h))
					}
				}
				k := hash128(state)
				if s.NoMerge || !seen[k] {
					if !seen[k] {
						seen[k] = true
						r.States++
					}
					next = append(next, node{h})
				}
				if r.Execs&255 == 0 && (r.expired() || s.Max > 0 && len(seen) > s.Max) {
					r.Exhaustive = false
					r.Notes = append(r.Notes, fmt.Sprintf("%s: stopped at depth %d after %d states", s.Label, d+1, len(seen)))
					return
				}
			}
		}
		first = false
		frontier = next
		if len(frontier) == 0 {
			break
		}
	}
}

// Each runs f under the scheduler (as the only thread) and reports what it returns.
func (r *R) Each(label string, desc bool, f func() string) bool {
	if r.Viol != nil {
		return false
	}
	lastLabel = label
	var msg string
	res, err := vs.RunOnce(vs.Config{MapDesc: desc, Horizon: 500000}, "", func() {
		vs.Explore(false)
		msg = f()
	})
	r.Execs++
	if err != nil {
		r.Notes = append(r.Notes, err.Error())
		return false
	}
	if res.Fail != nil {
		r.Fail(res.Fail.Kind, label+": "+res.Fail.Msg, []string{label}, "")
		return false
	}
	if msg != "" {
		r.Fail("result", label+": "+msg, []string{label}, "")
		return false
	}
	r.Validated++
	return true
}

// wear repeats every pair of operations many times after a prefix, so that what
// happens only once so many operations were made shows.
func (r *R) wear(label string, desc bool, mk func() Sys, names []string, prefixes [][]int, want string) {
	k := len(names)
	n := pick(522, 2060)
	r.Batch(label, len(prefixes)*k*k, desc, func(i int) string {
		s := names[i%k] + ", " + names[i/k%k] + " again and again"
		for _, p := range prefixes[i/k/k] {
			s = names[p] + ", " + s
		}
		return s
	}, func(i int) string {
		s := mk()
		do := func(op int) string {
			d, _ := s.Do(op)
			if d != "" && foreign(d, want) {
				return "-"
			}
			return d
		}
		for _, p := range prefixes[i/k/k] {
			if d := do(p); d != "" {
				return strings.TrimPrefix(d, "-")
			}
		}
		two := [2]int{i % k, i / k % k}
		for c := 0; c < n; c++ {
			d := do(two[c&1])
			if d == "" && (c%16 < 4 || c == n-1) {
				if d = s.Check(); foreign(d, want) {
					d = "-"
				}
			}
			if d == "-" {
				return ""
			} else if d != "" {
				return fmt.Sprintf("operation %d: %s", c, d)
			}
		}
		return ""
	})
}
