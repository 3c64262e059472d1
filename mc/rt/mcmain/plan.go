//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() {
	checks["C10"] = planUnits
}

// tres is a resource of our own.
type tres struct {
	u uuid.UID
	l string
}

func (r *tres) UID() uuid.UID   { return r.u }
func (r *tres) Group() string   { return r.l }
func (r *tres) Version() string { return "v" }
func (r *tres) Kind() string    { return "k" }

func mkRes(u, label string) plan.Resource {
	if label[len(label)-1]%2 == 0 {
		return &tres{suid(u), label}
	}
	r, err := entity.NewResource("t", "n", label, "v", "k", true, entity.WithUID(uid(u)))
	if err != nil {
		panic(err)
	}
	return r
}

func resStr(r plan.Resource) string {
	if r == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s(%q,%s%s)", r.Group(), r.UID(), r.Version(), r.Kind())
}

func resesStr(rs []plan.Resource) string {
	var out []string
	for _, r := range rs {
		out = append(out, resStr(r))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// pop is an operation on a plan.
type pop struct {
	kind  string // add, get, all, del
	uid   string
	label string
}

func (o pop) String() string { return fmt.Sprintf("%s(%q%s)", o.kind, o.uid, o.label) }

// do performs o; res has the resources to add.
func (o pop) do(p *simple.Simple, keep func([]plan.Resource)) string {
	switch o.kind {
	case "add":
		return errStr(p.Add(bg, mkRes(o.uid, o.label)))
	case "get":
		r, err := p.Get(bg, suid(o.uid))
		if err != nil {
			return errStr(err, plan.ErrResourceNotFound)
		}
		return resStr(r)
	case "all":
		rs, err := p.GetAll(bg)
		if err != nil {
			return errStr(err)
		}
		s := resesStr(rs)
		if keep != nil {
			keep(rs)
		}
		return s
	case "del":
		return errStr(p.Delete(bg, uid(o.uid)))
	}
	panic(o.kind)
}

// pmod is the model of a plan.
type pmod map[string]string

func (m pmod) Key() string {
	var out []string
	for u, l := range m {
		out = append(out, fmt.Sprintf("%s(%q,vk)", l, u))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (m pmod) do(o pop) string {
	switch o.kind {
	case "add":
		m[o.uid] = o.label
	case "get":
		l, ok := m[o.uid]
		if !ok {
			return plan.ErrResourceNotFound.Error()
		}
		return fmt.Sprintf("%s(%q,vk)", l, o.uid)
	case "all":
		return m.Key()
	case "del":
		delete(m, o.uid)
	}
	return "ok"
}

// planLarge lists plans of n resources while others change them.
func planLarge(r *R, n int) {
	byName := map[string]pop{}
	name := func(o pop) string {
		byName[o.String()] = o
		return o.String()
	}
	list := name(pop{"all", "", ""})
	at := []int{0, n / 2, n - 1, n}
	sys := concSys{
		start: func() (interface{}, Model) {
			s := newPsys(nil, nil)
			for i := 0; i < n; i++ {
				o := pop{"add", fmt.Sprintf("u%04d", i), "S"}
				s.m.do(o)
				if d := o.do(s.p, nil); d != "ok" {
					panic(d)
				}
			}
			return s.p, pmodL{s.m, byName}
		},
		do:    func(obj interface{}, op string) string { return byName[op].do(obj.(*simple.Simple), nil) },
		final: []string{list},
	}
	one := func(k, i int) string {
		u := fmt.Sprintf("u%04d", i)
		if k == 0 {
			return name(pop{"add", u, "T"})
		}
		return name(pop{"del", u, ""})
	}
	for _, i := range at {
		for _, j := range at {
			for k := 0; k < 8 && i != j && r.Viol == nil; k++ {
				t := []string{one(k&1, i), one(k>>1&1, j)}
				label := fmt.Sprintf("large/%d: %s || %v", n, list, t)
				r.concSys(label, label, sys, vs.Config{Bound: 3, MapDesc: k&4 != 0}, [][]string{{list}, t})
			}
		}
	}
}

type pmodL struct {
	pmod
	byName map[string]pop
}

func (m pmodL) Apply(op Op, res string) []Model {
	n := make(pmod, len(m.pmod))
	for k, v := range m.pmod {
		n[k] = v
	}
	if n.do(m.byName[op.Name]) != res {
		return nil
	}
	return []Model{pmodL{n, m.byName}}
}

type keptRes struct {
	rs   []plan.Resource
	want string
}

// psys is a plan and its model.
type psys struct {
	p    *simple.Simple
	m    pmod
	uids []string
	ops  []pop
	kept []keptRes
}

func newPsys(uids []string, ops []pop) *psys {
	p, err := simple.NewSimple()
	if err != nil {
		panic(err)
	}
	return &psys{p: p, m: pmod{}, uids: uids, ops: ops}
}

func (s *psys) one(o pop) string {
	var got string
	if p, bad := try(func() {
		got = o.do(s.p, func(rs []plan.Resource) { s.kept = append(s.kept, keptRes{rs, resesStr(rs)}) })
	}); bad {
		return fmt.Sprintf("%v panicked: %v", o, p)
	}
	if refused {
		return o.String() + ": " + got
	}
	return diffOf(o.String(), got, s.m.do(o))
}

func (s *psys) Do(op int) (string, bool) {
	if d := s.one(s.ops[op]); d != "" {
		return d, true
	}
	for _, k := range s.kept {
		if got := resesStr(k.rs); got != k.want {
			return fmt.Sprintf("%v changed a list returned earlier: %s, was %s", s.ops[op], got, k.want), true
		}
	}
	return "", true
}

func (s *psys) State() string { return Canon(s.p, map[string]string(s.m)) }

func (s *psys) Check() string {
	for i := 0; i < 2; i++ {
		s.kept = nil
		for _, u := range append([]string{"absent"}, s.uids...) {
			if d := s.one(pop{kind: "get", uid: u}); d != "" {
				return d
			}
		}
		if d := s.one(pop{kind: "all"}); d != "" {
			return d
		}
		if i == 0 {
			for _, k := range s.kept {
				for i := range k.rs {
					k.rs[i] = nil
				}
			}
		}
	}
	return s.one(pop{kind: "del", uid: "absent"})
}

func planOps(uids []string) []pop {
	var ops []pop
	for _, u := range uids {
		for n := 1; n <= 2; n++ {
			ops = append(ops, pop{"add", u, fmt.Sprintf("R%s%d", u, n)})
		}
		ops = append(ops, pop{"del", u, ""})
	}
	return append(ops, pop{"all", "", ""})
}

// planScript adds, replaces and deletes resources; everything is compared
// after every operation if there are at most full of them, or else at times.
// The resources are alike in everything but their UIDs if alike.
func planScript(uids []string, alike bool, full int) string {
	s := newPsys(uids, nil)
	n := len(uids)
	k := 0
	do := func(o pop) string {
		if d := s.one(o); d != "" {
			return d
		}
		if k++; n <= full || k%(n/2) <= 1 || n > 30 && k%97 == 0 {
			return s.Check()
		}
		return ""
	}
	for round := 0; round < 4; round++ {
		for i := range uids {
			u := uids[i]
			if round%2 == 1 {
				u = uids[n-1-i]
			}
			l := fmt.Sprintf("R%d.%d", round, i)
			if alike {
				l = fmt.Sprintf("R%d", round)
			}
			if d := do(pop{"add", u, l}); d != "" {
				return d
			}
		}
		for i, u := range uids {
			if round < 3 && i%3 != round {
				continue
			}
			if d := do(pop{"del", u, ""}); d != "" {
				return d
			}
		}
	}
	return s.Check()
}

func planUnits() []Unit {
	var us []Unit
	for _, sp := range []struct {
		name  string
		uids  []string
		depth int
		all   bool
		desc  bool
	}{
		{"two", []string{"a", "b"}, pick(8, 12), false, false},
		{"three", []string{"a", "b", "c"}, pick(6, 9), false, true},
		{"five", []string{"a", "b", "c", "d", "e"}, pick(5, 7), false, false},
		{"odd", []string{"", "absent "}, pick(7, 9), false, false},
		{"histories", []string{"a", "b"}, pick(6, 7), true, false},
	} {
		sp := sp
		ops := planOps(sp.uids)
		var names []string
		for _, o := range ops {
			names = append(names, o.String())
		}
		for i := range ops {
			spec := SeqSpec{Label: sp.name + "/" + names[i], Ops: names, Prefix: []int{i}, Depth: sp.depth, Desc: sp.desc, NoMerge: sp.all,
				New: func() Sys { return newPsys(sp.uids, ops) }}
			us = append(us, Unit{Name: "seq/" + spec.Label, Run: func(r *R) { r.BFS(spec) }})
		}
	}
	wops := planOps([]string{"a", "b"})
	var wnames []string
	for _, o := range wops {
		wnames = append(wnames, o.String())
	}
	us = append(us, Unit{Name: "seq/wear", Run: func(r *R) {
		r.wear("wear", true, func() Sys { return newPsys([]string{"a", "b"}, wops) }, wnames, [][]int{nil, {0}, {len(wops) / 2, 0}}, "")
	}})
	us = append(us, Unit{Name: "seq/names", Run: func(r *R) {
		sets := nameSets(30)
		r.Batch("names", 2*len(sets), false, func(i int) string { return sets[i/2].name }, func(i int) string { return planScript(sets[i/2].names, i%2 == 1, 64) })
	}}, Unit{Name: "seq/sizes", Run: func(r *R) {
		ns := sizes(pick(300, 1100))
		r.Batch("sizes", 2*len(ns), true, func(i int) string { return fmt.Sprint(ns[i/2]) }, func(i int) string { return planScript(sized(ns[i/2]).names, i%2 == 1, 8) })
	}})
	us = append(us, Unit{Name: "seq/families", Run: func(r *R) {
		for n := 1; n <= pick(40, 120); n += 1 + n/8 {
			for _, desc := range []bool{false, true} {
				n := n
				ok := r.Each(fmt.Sprintf("families/%d", n), desc, func() string {
					var uids []string
					for i := 0; i < n; i++ {
						uids = append(uids, fmt.Sprintf("u%d", i))
					}
					s := newPsys(uids, nil)
					for round := 0; round < 3; round++ {
						for i, u := range uids {
							if d := s.one(pop{"add", u, fmt.Sprintf("R%d.%d", round, i)}); d != "" {
								return d
							}
							if d := s.Check(); d != "" {
								return d
							}
						}
						for i := range uids {
							if i%3 != round {
								continue
							}
							if d := s.one(pop{"del", uids[(i*7)%n], ""}); d != "" {
								return d
							}
							if d := s.Check(); d != "" {
								return d
							}
						}
					}
					return ""
				})
				if !ok {
					return
				}
			}
		}
		r.Each("families/two plans", false, func() string {
			a, b := newPsys([]string{"a"}, nil), newPsys([]string{"a"}, nil)
			if d := a.one(pop{"add", "a", "R1"}); d != "" {
				return d
			}
			if _, err := b.p.Get(bg, uid("a")); !errors.Is(err, plan.ErrResourceNotFound) {
				return "two plans share resources"
			}
			return b.Check()
		})
	}})
	full := []pop{{"add", "a", "A1"}, {"add", "a", "A2"}, {"add", "a", "A3"}, {"add", "b", "B1"}, {"add", "b", "B2"},
		{"get", "a", ""}, {"get", "b", ""}, {"all", "", ""}, {"del", "a", ""}, {"del", "b", ""}, {"del", "absent", ""}}
	byName := map[string]pop{}
	var names []string
	for _, o := range full {
		names = append(names, o.String())
		byName[o.String()] = o
	}
	small := []string{names[0], names[1], names[3], names[5], names[7], names[8]}
	starts := map[string]concSys{}
	for name, adds := range map[string][]pop{"empty": nil, "one": {{"add", "a", "S1"}}, "two": {{"add", "a", "S1"}, {"add", "b", "S2"}}} {
		adds := adds
		starts[name] = concSys{
			start: func() (interface{}, Model) {
				s := newPsys(nil, nil)
				for _, o := range adds {
					if d := s.one(o); d != "" {
						panic(d)
					}
				}
				return s.p, pmodL{s.m, byName}
			},
			do:    func(obj interface{}, op string) string { return byName[op].do(obj.(*simple.Simple), nil) },
			final: []string{names[7], names[5], names[6], names[10]},
		}
	}
	if !raceMode() {
		us = append(us, Unit{Name: "large", Run: func(r *R) { planLarge(r, reach(pick(150, 1100), 1100, "plan/simple")) }})
	}
	all := []string{"empty", "one", "two"}
	switch {
	case raceMode() && thorough():
		return append(us, concFamilies([]cfam{{"pairs", names, 2, 1, 12, all}, {"triples", names, 3, 1, 4, all}, {"two each", names, 2, 2, 3, all[1:2]}}, starts)...)
	case raceMode():
		return append(us, concFamilies([]cfam{{"pairs", names, 2, 1, 6, all}, {"triples", small, 3, 1, 2, all[1:]}, {"two each", small, 2, 2, 1, all[1:2]}}, starts)...)
	case thorough():
		return append(us, concFamilies([]cfam{{"pairs", names, 2, 1, 20, all}, {"triples", names, 3, 1, 10, all}, {"two each", names, 2, 2, 10, all},
			{"three each", small, 2, 3, 6, all}, {"four", names, 4, 1, 4, all}, {"two each of three", small, 3, 2, 3, all[1:2]}}, starts)...)
	}
	return append(us, concFamilies([]cfam{{"pairs", names, 2, 1, 12, all}, {"triples", names, 3, 1, 6, all}, {"two each", names, 2, 2, 4, all},
		{"two each of three", small[:5], 3, 2, 1, all[1:2]}}, starts)...)
}
