//go:build go1.21

package main

import (
	"fmt"

	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// batchChunk is the number of inputs per execution.
const batchChunk = 512

// Batch evaluates f for all inputs below n under the scheduler, many per
// execution; name describes an input. Every input counts as a state.
func (r *R) Batch(label string, n int, desc bool, name func(i int) string, f func(i int) string) bool {
	const chunk = batchChunk
	for from := 0; from < n; from += chunk {
		if r.Viol != nil {
			return false
		}
		if r.expired() {
			r.Exhaustive = false
			r.Notes = append(r.Notes, fmt.Sprintf("%s: stopped after %d of %d", label, from, n))
			return false
		}
		to := from + chunk
		if to > n {
			to = n
		}
		cur := from
		msg := ""
		lastLabel = label
		res, err := vs.RunOnce(vs.Config{MapDesc: desc, Horizon: 1 << 30}, "", func() {
			vs.Explore(false)
			for cur = from; cur < to; cur++ {
				if msg = f(cur); msg != "" {
					return
				}
			}
		})
		r.Execs += cur - from
		r.States += cur - from
		r.Validated += cur - from
		if err != nil {
			r.Notes = append(r.Notes, err.Error())
			return false
		}
		if res.Fail != nil {
			r.Fail(res.Fail.Kind, label+": "+name(cur)+": "+res.Fail.Msg, []string{name(cur)}, "")
			return false
		}
		if msg != "" {
			r.Fail("result", label+": "+name(cur)+": "+msg, []string{name(cur)}, "")
			return false
		}
	}
	if n > 0 {
		r.Sample(label + ": " + name(n/2))
	}
	return true
}

// mixed splits i into digits for the given bases.
func mixed(i int, bases ...int) []int {
	out := make([]int, len(bases))
	for k, b := range bases {
		out[k] = i % b
		i /= b
	}
	return out
}

func product(bases ...int) int {
	n := 1
	for _, b := range bases {
		n *= b
	}
	return n
}

// lists returns all lists of up to max numbers below n.
func lists(n, max int) [][]int {
	out := [][]int{nil}
	last := [][]int{nil}
	for k := 0; k < max; k++ {
		var next [][]int
		for _, l := range last {
			for i := 0; i < n; i++ {
				next = append(next, append(l[:len(l):len(l)], i))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}
