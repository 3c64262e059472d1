//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

// Model is a sequential specification. Apply returns the states that are
// possible after op returned res (none if op cannot return res).
type Model interface {
	Apply(op Op, res string) []Model
	Key() string
}

// Linearize looks for an order of the events that respects their real-time
// order and that m allows. It returns "" if there is one.
func Linearize(m Model, evs []*Event) string {
	n := len(evs)
	if n > 60 {
		return "history too long"
	}
	pred := make([]uint64, n)
	for i, a := range evs {
		for j, b := range evs {
			if b.End < a.Begin {
				pred[i] |= 1 << uint(j)
			}
		}
	}
	seen := map[string]bool{}
	best := uint64(0)
	bestN := -1
	var rec func(done uint64, k int, m Model) bool
	rec = func(done uint64, k int, m Model) bool {
		if k > bestN {
			best, bestN = done, k
		}
		if k == n {
			return true
		}
		key := fmt.Sprintf("%x|%s", done, m.Key())
		if seen[key] {
			return false
		}
		seen[key] = true
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 != 0 || pred[i]&^done != 0 {
				continue
			}
			for _, m2 := range m.Apply(evs[i].Op, evs[i].Res) {
				if rec(done|1<<uint(i), k+1, m2) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, 0, m) {
		return ""
	}
	var rest []string
	for i, e := range evs {
		if best>>uint(i)&1 == 0 {
			rest = append(rest, e.String())
		}
	}
	return "no sequential order explains the results; at most explained up to: " + strings.Join(rest, "; ")
}

// histKey identifies a history up to things that do not matter for Linearize.
func histKey(evs []*Event) string {
	var b strings.Builder
	for i, a := range evs {
		var p uint64
		for j, o := range evs {
			if o.End < a.Begin {
				p |= 1 << uint(j)
			}
		}
		fmt.Fprintf(&b, "%d|%s|%s|%x;", i, a.Op, a.Res, p)
	}
	return b.String()
}

// Lin checks a history, remembering those found fine.
func (r *R) Lin(scope string, m Model, h *H) string {
	evs := h.Events()
	k := scope + "#" + histKey(evs)
	if r.hist[k] {
		return ""
	}
	s := Linearize(m, evs)
	if s == "" {
		r.hist[k] = true
	}
	return s
}
