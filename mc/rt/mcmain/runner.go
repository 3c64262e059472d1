//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	netscrape "github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// C16: the runner.

func init() { checks["C16"] = runnerUnits }

type rstore struct {
	store.Store
	n int
}

type rbroker struct {
	broker.Broker
	n int
}

type rmarsh struct {
	broker.Marshaler
	n int
}

type rplan struct {
	plan.Plan
	n int
}

// the options that numbers name: stores 0-1, brokers 3-4, marshalers 6-7; 2, 5 and 8 set nil
const nropts = 9

func ropt(i int) netscrape.Option {
	switch i {
	case 0, 1:
		return netscrape.WithStore(&rstore{n: i})
	case 2:
		return netscrape.WithStore(nil)
	case 3, 4:
		return netscrape.WithBroker(&rbroker{n: i})
	case 5:
		return netscrape.WithBroker(nil)
	case 6, 7:
		return netscrape.WithMarshaler(&rmarsh{n: i})
	}
	return netscrape.WithMarshaler(nil)
}

var roptNames = []string{"store A", "store B", "store nil", "broker A", "broker B", "broker nil", "marshaler A", "marshaler B", "marshaler nil"}

func roptList(l []int) string {
	var n []string
	for _, i := range l {
		n = append(n, roptNames[i])
	}
	return "[" + strings.Join(n, ", ") + "]"
}

func ropts(l []int) []netscrape.Option {
	o := make([]netscrape.Option, 0, len(l)+3) // part of a bigger list
	for _, i := range l {
		o = append(o, ropt(i))
	}
	return o
}

// rwant is what the options in the lists select.
func rwant(ls ...[]int) string {
	w := [3]int{2, 5, 8}
	for _, l := range ls {
		for _, i := range l {
			w[i/3] = i
		}
	}
	return fmt.Sprint(w)
}

// rgot is what the options given to the scraper select.
func rgot(os []netscrape.Option) string {
	var o netscrape.Options
	for _, f := range os {
		f(&o)
	}
	w := [3]int{2, 5, 8}
	if o.Store != nil {
		s, ok := o.Store.(*rstore)
		if !ok {
			return fmt.Sprintf("another store %T", o.Store)
		}
		w[0] = s.n
	}
	if o.Broker != nil {
		b, ok := o.Broker.(*rbroker)
		if !ok {
			return fmt.Sprintf("another broker %T", o.Broker)
		}
		w[1] = b.n
	}
	if o.Marshaler != nil {
		m, ok := o.Marshaler.(*rmarsh)
		if !ok {
			return fmt.Sprintf("another marshaler %T", o.Marshaler)
		}
		w[2] = m.n
	}
	return fmt.Sprint(w)
}

// tscraper records how it is called.
type tscraper struct {
	calls []string
	err   error
	plan  plan.Plan
	ctx   int
	hook  func()
	kept  []context.Context
}

func (s *tscraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	if s.hook != nil {
		s.hook()
	}
	d := ""
	if !isCtx(ctx, s.ctx) {
		d += " with another context"
	}
	if p != s.plan {
		d += " with another plan"
	}
	s.calls = append(s.calls, rgot(opts)+d)
	s.kept = append(s.kept, ctx)
	return s.err
}

var errScrape = errors.New("scraping failed")

type rcall struct {
	opts []int
	plan int // 0: none, 1: one of ours, 2: a plan of the repository
	fail bool
	err  error // instead of errScrape
	ctx  int   // the context, see withEnd
}

func (c rcall) String() string {
	s := fmt.Sprintf("Run(%s, plan %d, scraper fails %t)", roptList(c.opts), c.plan, c.fail)
	if c.err != nil {
		s += " with " + errName(c.err)
	}
	return s + endNames[c.ctx]
}

func runOnceCall(run *netscrape.Runner, ctor []int, k int, c rcall) string {
	s := &tscraper{ctx: k}
	if c.fail {
		s.err = errScrape
		if c.err != nil {
			s.err = c.err
		}
	}
	switch c.plan {
	case 1:
		s.plan = &rplan{n: k}
	case 2:
		p, err := simple.NewSimple()
		if err != nil {
			return err.Error()
		}
		s.plan = p
	}
	ctx, cancel := withEnd(namedCtx(k), c.ctx)
	defer cancel()
	err := run.Run(ctx, s.plan, s, ropts(c.opts)...)
	if c.plan == 0 {
		if !errors.Is(err, netscrape.ErrMissingPlan) || len(s.calls) > 0 {
			return fmt.Sprintf("run %d without a plan: error %v, scraper calls %v", k, err, s.calls)
		}
		return ""
	}
	if len(s.calls) != 1 {
		return fmt.Sprintf("run %d: the scraper was called %d times", k, len(s.calls))
	}
	// the context is that of the caller, also after the run
	for _, then := range []string{"after the run", "after its context was cancelled"} {
		d1, ok1 := ctx.Deadline()
		d2, ok2 := s.kept[0].Deadline()
		if s.kept[0].Err() != ctx.Err() || ok1 != ok2 || !d1.Equal(d2) {
			return fmt.Sprintf("run %d: %s the scraper's context has error %v and deadline %v %v, that of the caller %v and %v %v", k, then, s.kept[0].Err(), d2, ok2, ctx.Err(), d1, ok1)
		}
		cancel()
	}
	if want := rwant(ctor, c.opts); s.calls[0] != want {
		return fmt.Sprintf("run %d: the scraper was called with options %s, want %s", k, s.calls[0], want)
	}
	if fmt.Sprintf("%T", err) != fmt.Sprintf("%T", s.err) || !sameErr(err, s.err) {
		return fmt.Sprintf("run %d returned %v, the scraper %v", k, err, s.err)
	}
	return ""
}

func runs(ctor []int, calls []rcall) string {
	run, err := netscrape.NewRunner(ropts(ctor)...)
	if err != nil {
		return "NewRunner: " + err.Error()
	}
	for k, c := range calls {
		if d := runOnceCall(run, ctor, k, c); d != "" {
			return d
		}
	}
	return ""
}

func runnerUnits() []Unit {
	us := []Unit{
		{Name: "options", Run: func(r *R) {
			ls := lists(nropts, 2)
			bases := []int{len(ls), len(ls), 3, 2, len(endNames)}
			mk := func(i int) ([]int, rcall) {
				d := mixed(i, bases...)
				return ls[d[0]], rcall{ls[d[1]], d[2], d[3] == 1, nil, d[4]}
			}
			r.Batch("run", product(bases...), false, func(i int) string { c, x := mk(i); return fmt.Sprintf("runner with %s: %v", roptList(c), x) },
				func(i int) string { c, x := mk(i); return runs(c, []rcall{x}) })
		}},
		{Name: "long", Run: func(r *R) {
			ls := lists(nropts, pick(4, 5))
			r.Batch("run", 2*len(ls), false, func(i int) string { return fmt.Sprintf("runner %t: %s", i%2 == 0, roptList(ls[i/2])) }, func(i int) string {
				if i%2 == 0 {
					return runs(ls[i/2], []rcall{{nil, 1, false, nil, 0}})
				}
				return runs([]int{0, 3, 6}, []rcall{{ls[i/2], 1, false, nil, 0}})
			})
		}},
		{Name: "errors", Run: func(r *R) {
			es := oddErrors()
			r.Batch("run", 2*len(es), false, func(i int) string { return "the scraper fails with " + errName(es[i/2]) }, func(i int) string {
				c := rcall{nil, 1 + i%2, true, es[i/2], 0}
				return runs([]int{0, 3}, []rcall{c, c, {[]int{1}, 1, false, nil, 0}, {nil, 0, true, es[i/2], 0}})
			})
		}},
		{Name: "histories", Run: func(r *R) {
			var alpha []rcall
			for _, o := range [][]int{nil, {1}, {2}, {4}, {5}, {7}, {8}, {1, 4, 7}, {4, 1}} {
				alpha = append(alpha, rcall{o, 1, false, nil, 0}, rcall{o, 1, true, nil, 0})
			}
			alpha = append(alpha, rcall{nil, 0, false, nil, 0}, rcall{[]int{1, 4, 7}, 0, true, nil, 0}, rcall{nil, 1, false, nil, 1}, rcall{[]int{1}, 1, false, nil, 2}, rcall{[]int{1}, 0, false, nil, 1})
			ctors := [][]int{nil, {0, 3, 6}, {3}, {0, 6}}
			n := len(alpha)
			bases := []int{len(ctors), n, n, n}
			if thorough() {
				bases = append(bases, n)
			}
			mk := func(i int) ([]int, []rcall) {
				d := mixed(i, bases...)
				var cs []rcall
				for _, k := range d[1:] {
					cs = append(cs, alpha[k])
				}
				return ctors[d[0]], cs
			}
			r.Batch("runs", product(bases...), false, func(i int) string { c, x := mk(i); return fmt.Sprintf("runner with %s: %v", roptList(c), x) },
				func(i int) string { c, x := mk(i); return runs(c, x) })
			r.Batch("runs again and again", 2*n*n, false, func(i int) string {
				return fmt.Sprintf("runner with %s: %v and %v again and again", roptList(ctors[i%2]), alpha[i/2%n], alpha[i/2/n])
			}, func(i int) string {
				var cs []rcall
				for k := 0; k < pick(260, 530); k++ {
					cs = append(cs, alpha[i/2%n], alpha[i/2/n])
				}
				return runs(ctors[i%2], cs)
			})
		}},
	}
	alpha := [][]int{nil, {1}, {4}, {7}, {1, 4, 7}, {2, 5, 8}}
	for _, ctor := range [][]int{nil, {0, 3, 6}, {3}} {
		ctor := ctor
		us = append(us, Unit{Name: "concurrent/" + roptList(ctor), Race: true, Run: func(r *R) {
			n := len(alpha)
			for i := 0; i < n*n*n; i++ {
				d := mixed(i, n, n, n)
				if d[0] > d[1] || d[1] > d[2] {
					continue
				}
				label := fmt.Sprintf("runner with %s: %s || %s || %s", roptList(ctor), roptList(alpha[d[0]]), roptList(alpha[d[1]]), roptList(alpha[d[2]]))
				r.Sched(label, vs.Config{Bound: pick(2, 3)}, func(h *H) {
					vs.Explore(false)
					run, err := netscrape.NewRunner(ropts(ctor)...)
					if err != nil {
						h.errs = append(h.errs, err.Error())
						return
					}
					for k := range d {
						k, t := k, h.T(k)
						vs.Thread(fmt.Sprintf("T%d", k), func() {
							p := &rplan{n: k}
							s := &tscraper{ctx: k, plan: p, err: fmt.Errorf("error %d", k), hook: vs.Yield}
							t.Do(Op{"run", []string{roptList(alpha[d[k]])}}, func() string {
								vs.Yield()
								err := run.Run(namedCtx(k), p, s, ropts(alpha[d[k]])...)
								if err != s.err {
									t.Errf("Run returned %v, the scraper %v", err, s.err)
								}
								return strings.Join(s.calls, " ")
							})
						})
					}
					vs.Explore(true)
					vs.Join()
					vs.Explore(false)
				}, func(h *H) string {
					for k := range d {
						if got, want := h.T(k).evs[0].Res, rwant(ctor, alpha[d[k]]); got != want {
							return fmt.Sprintf("the scraper of run %d was called with %s, want %s", k, got, want)
						}
					}
					return ""
				})
				if r.Viol != nil {
					return
				}
			}
		}})
	}
	return us
}
