//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/milosgajdos/netscrape/verifmc/vs"
)

// concSys is an object used by several threads.
type concSys struct {
	// start makes the object and its model.
	start func() (obj interface{}, m Model)
	// do performs an operation.
	do func(obj interface{}, op string) string
	// final is performed in order when all threads are done.
	final []string
}

// cfam is a family of programs: threads, each with a sequence of length operations.
type cfam struct {
	name            string
	ops             []string
	threads, length int
	bound           int
	starts          []string
}

func (r *R) concSys(label, scope string, s concSys, cfg vs.Config, threads [][]string) {
	var m Model
	r.Sched(label, cfg, func(h *H) {
		vs.Explore(false)
		var obj interface{}
		obj, m = s.start()
		for i, ops := range threads {
			ops, t := ops, h.T(i)
			vs.Thread(fmt.Sprintf("T%d", i), func() {
				for _, o := range ops {
					o := o
					t.Do(Op{o, nil}, func() string { return s.do(obj, o) })
				}
			})
		}
		fin := h.T(len(threads))
		vs.Explore(true)
		vs.Join()
		vs.Explore(false)
		for _, o := range s.final {
			o := o
			fin.Do(Op{o, nil}, func() string { return s.do(obj, o) })
		}
	}, func(h *H) string { return r.Lin(scope, m, h) })
}

// concFamilies returns the units of families of programs.
func concFamilies(fams []cfam, starts map[string]concSys) []Unit {
	var us []Unit
	for _, f := range fams {
		for _, sn := range f.starts {
			if _, ok := starts[sn]; !ok {
				panic("no start " + sn)
			}
			ps := programs(len(f.ops), f.threads, f.length)
			const parts = 4
			for p := 0; p < parts; p++ {
				f, sn, p := f, sn, p
				name := fmt.Sprintf("%s/%s/%d", f.name, sn, p)
				us = append(us, Unit{Name: name, Race: true, Run: func(r *R) {
					for i, prog := range ps {
						if i%parts != p {
							continue
						}
						var ts [][]string
						var names []string
						for _, seq := range prog {
							var t []string
							for _, k := range seq {
								t = append(t, f.ops[k])
							}
							ts = append(ts, t)
							names = append(names, strings.Join(t, "; "))
						}
						prg := strings.Join(names, " || ")
						r.concSys(name+": "+prg, sn+"|"+prg, starts[sn], vs.Config{Bound: f.bound, MapDesc: i%2 == 1}, ts)
						if r.Viol != nil {
							return
						}
					}
				}})
			}
		}
	}
	return us
}

// funcModel is a Model made of a deterministic step function.
type funcModel struct {
	state string
	step  func(state, op string) (res, next string)
}

func (m funcModel) Key() string { return m.state }

func (m funcModel) Apply(op Op, res string) []Model {
	want, next := m.step(m.state, op.Name)
	if want != res {
		return nil
	}
	return []Model{funcModel{next, m.step}}
}
