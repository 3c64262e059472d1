//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/cache"
	cmem "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() {
	checks["C08"] = cacheUnits
	checks["C09"] = cacheConcUnits
}

// tlink is a link of our own.
type tlink struct {
	u, f, t uuid.UID
	a       attrs.Attrs
}

func (l *tlink) UID() uuid.UID      { return l.u }
func (l *tlink) From() uuid.UID     { return l.f }
func (l *tlink) To() uuid.UID       { return l.t }
func (l *tlink) Attrs() attrs.Attrs { return l.a }

// lspec describes a link. Links with the names N and N/x have the same UID, N.
type lspec struct{ from, to, name string }

func (l lspec) uid() string { return strings.SplitN(l.name, "/", 2)[0] }

func (l lspec) String() string { return fmt.Sprintf("%s(%q>%q)", l.name, l.from, l.to) }

func (l lspec) make() cache.Link {
	if l.name[len(l.name)-1]%2 == 0 {
		return &tlink{suid(l.uid()), suid(l.from), uid(l.to), fixed{"n", l.name}}
	}
	x, err := link.New(uid(l.from), suid(l.to), link.WithUID(suid(l.uid())), link.WithAttrs(fixed{"n", l.name}))
	if err != nil {
		panic(err)
	}
	return x
}

func linkStr(l cache.Link) string {
	if l == nil {
		return "<nil>"
	}
	s := lspec{l.From().String(), l.To().String(), l.UID().String()}
	if f, ok := l.Attrs().(fixed); ok && len(f) == 2 && strings.HasPrefix(f[1], s.name+"/") {
		s.name = f[1]
	}
	if a := attrStr(l.Attrs()); a != attrStr(fixed{"n", s.name}) {
		return s.String() + a
	}
	return s.String()
}

func linksStr(ls []cache.Link) string {
	var out []string
	for _, l := range ls {
		out = append(out, linkStr(l))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// cop is an operation on a link cache.
type cop struct {
	kind   string // put, from, to, del, clear
	bulk   bool
	upsert bool
	links  []lspec
	uids   []string
}

func (o cop) String() string {
	s := o.kind
	if o.bulk {
		s = "bulk" + s
	}
	if o.upsert {
		s += "^"
	}
	var a []string
	for _, l := range o.links {
		a = append(a, l.String())
	}
	for _, u := range o.uids {
		a = append(a, fmt.Sprintf("%q", u))
	}
	if n := len(a); n > 12 {
		a = append(a[:3:3], fmt.Sprintf("... %d in all ...", n), a[n-1])
	}
	return s + "(" + strings.Join(a, ",") + ")"
}

// cmod is the model of a link cache.
type cmod map[pair]string

func (m cmod) clone() cmod {
	n := make(cmod, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m cmod) get(u string, end int) string {
	var out []string
	for k, l := range m {
		if k[end] == u {
			out = append(out, lspec{k[0], k[1], l}.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (m cmod) Key() string {
	var out []string
	for k, l := range m {
		out = append(out, lspec{k[0], k[1], l}.String())
	}
	return join(out)
}

func (m cmod) do(o cop) string {
	switch o.kind {
	case "put":
		for _, l := range o.links {
			k := pair{l.from, l.to}
			if _, ok := m[k]; !ok || o.upsert {
				m[k] = l.name
			}
		}
	case "from", "to":
		end := 0
		if o.kind == "to" {
			end = 1
		}
		if !o.bulk {
			return m.get(o.uids[0], end)
		}
		var out []string
		for _, u := range o.uids {
			out = append(out, fmt.Sprintf("%q: %s", u, m.get(u, end)))
		}
		return strings.Join(out, "; ")
	case "del":
		for _, u := range o.uids {
			for k := range m {
				if k[0] == u || k[1] == u {
					delete(m, k)
				}
			}
		}
	case "clear":
		for k := range m {
			delete(m, k)
		}
	}
	return "ok"
}

// do performs o; keep gets the returned slices.
func (o cop) do(c *cmem.Links, keep func([]cache.Link)) string {
	var opts []cache.Option
	if o.upsert {
		opts = append(opts, cache.WithUpsert())
	}
	us := uidsOf(o.uids...)
	one := func(ls []cache.Link, err error) string {
		if err != nil {
			return errStr(err)
		}
		s := linksStr(ls)
		if keep != nil {
			keep(ls)
		}
		return s
	}
	many := func(m map[uuid.UID][]cache.Link, err error) string {
		if err != nil {
			return errStr(err)
		}
		var out []string
		for i, u := range us {
			out = append(out, fmt.Sprintf("%q: %s", o.uids[i], linksStr(m[u])))
		}
		for u := range m {
			known := false
			for _, v := range us {
				known = known || u == v
			}
			if !known {
				out = append(out, fmt.Sprintf("entry for %q, which was not asked for", u))
			}
		}
		if keep != nil {
			for _, u := range us {
				keep(m[u])
			}
		}
		return strings.Join(out, "; ")
	}
	switch {
	case o.kind == "put" && !o.bulk:
		return errStr(c.Put(bg, o.links[0].make(), opts...))
	case o.kind == "put":
		var ls []cache.Link
		for _, l := range o.links {
			ls = append(ls, l.make())
		}
		return given(ls, func(ls []cache.Link) string { return errStr(c.BulkPut(bg, ls, opts...)) })
	case o.kind == "from" && !o.bulk:
		return one(c.GetFrom(bg, us[0], opts...))
	case o.kind == "from":
		return given(us, func(l []uuid.UID) string { return many(c.BulkGetFrom(bg, l, opts...)) })
	case o.kind == "to" && !o.bulk:
		return one(c.GetTo(bg, us[0], opts...))
	case o.kind == "to":
		return given(us, func(l []uuid.UID) string { return many(c.BulkGetTo(bg, l, opts...)) })
	case o.kind == "del" && !o.bulk:
		return errStr(c.Delete(bg, us[0], opts...))
	case o.kind == "del":
		return given(us, func(l []uuid.UID) string { return errStr(c.BulkDelete(bg, l, opts...)) })
	case o.kind == "clear":
		return errStr(c.Clear(bg, opts...))
	}
	panic(o.kind)
}

type keptLinks struct {
	ls   []cache.Link
	want string
}

// csys is a link cache and its model.
type csys struct {
	c    *cmem.Links
	m    cmod
	uids []string
	ops  []cop
	kept []keptLinks
}

func newCsys(uids []string, ops []cop) *csys {
	c, err := cmem.NewLinks()
	if err != nil {
		panic(err)
	}
	return &csys{c: c, m: cmod{}, uids: uids, ops: ops}
}

func (s *csys) one(o cop) string {
	var got string
	if p, bad := try(func() {
		got = o.do(s.c, func(ls []cache.Link) { s.kept = append(s.kept, keptLinks{ls, linksStr(ls)}) })
	}); bad {
		return fmt.Sprintf("%v panicked: %v", o, p)
	}
	if refused {
		return o.String() + ": " + got
	}
	return diffOf(o.String(), got, s.m.do(o))
}

func (s *csys) Do(op int) (string, bool) {
	if d := s.one(s.ops[op]); d != "" {
		return d, true
	}
	for _, k := range s.kept {
		if got := linksStr(k.ls); got != k.want {
			return fmt.Sprintf("%v changed a list returned earlier: %s, was %s", s.ops[op], got, k.want), true
		}
	}
	return "", true
}

func (s *csys) State() string { return Canon(s.c, map[pair]string(s.m)) }

func (s *csys) Check() string {
	all := append([]string{"absent"}, s.uids...)
	for i := 0; i < 2; i++ {
		s.kept = nil
		for _, k := range []string{"from", "to"} {
			for _, u := range all {
				if d := s.one(cop{kind: k, uids: []string{u}}); d != "" {
					return d
				}
			}
			for _, us := range [][]string{all, {s.uids[0], s.uids[0], s.uids[1]}, nil} {
				if d := s.one(cop{kind: k, bulk: true, uids: us}); d != "" {
					return d
				}
			}
		}
		if i == 0 {
			// what callers do with returned lists is their own business
			for _, k := range s.kept {
				for i := range k.ls {
					k.ls[i] = nil
				}
				_ = append(k.ls[:0], lspec{"x", "y", "scribble"}.make())
			}
		}
	}
	return s.one(cop{kind: "del", uids: []string{"absent"}})
}

func cacheOps(uids []string, names int, bulk bool) []cop {
	var ops []cop
	for _, u := range uids {
		for _, v := range uids {
			for n := 1; n <= names; n++ {
				ops = append(ops, cop{kind: "put", links: []lspec{{u, v, fmt.Sprintf("L/%s%s%d", u, v, n)}}})
			}
			ops = append(ops, cop{kind: "put", upsert: true, links: []lspec{{u, v, fmt.Sprintf("U%s%s%d", u, v, names+1)}}})
		}
		ops = append(ops, cop{kind: "del", uids: []string{u}})
	}
	ops = append(ops, cop{kind: "clear"})
	if bulk {
		n := len(uids)
		a, b, z := uids[0], uids[1], uids[n-1]
		ls := []lspec{{a, b, "B1"}, {b, a, "B1/2"}, {a, b, "B1/3"}, {a, z, "B4"}, {z, z, "B4/5"}}
		ops = append(ops, cop{kind: "put", bulk: true, links: ls}, cop{kind: "put", bulk: true, upsert: true, links: ls},
			cop{kind: "put", bulk: true}, cop{kind: "del", bulk: true, uids: []string{"absent", z, a}},
			cop{kind: "del", bulk: true, uids: []string{b, b}}, cop{kind: "del", bulk: true})
	}
	return ops
}

func copNames(ops []cop) []string {
	var n []string
	for _, o := range ops {
		n = append(n, o.String())
	}
	return n
}

func cacheUnits() []Unit {
	var us []Unit
	for _, sp := range []struct {
		name  string
		uids  []string
		names int
		bulk  bool
		depth int
		desc  bool
		all   bool
	}{
		{"two", []string{"a", "b"}, 2, true, pick(5, 8), false, false},
		{"twodesc", []string{"a", "b"}, 1, true, pick(6, 10), true, false},
		{"three", []string{"a", "b", "c"}, 1, true, pick(4, 5), false, false},
		{"odd", []string{"", "absent "}, 1, true, pick(4, 8), true, false},
		{"histories", []string{"a", "b"}, 1, false, pick(4, 5), false, true},
	} {
		sp := sp
		ops := cacheOps(sp.uids, sp.names, sp.bulk)
		names := copNames(ops)
		for i := range ops {
			spec := SeqSpec{Label: sp.name + "/" + names[i], Ops: names, Prefix: []int{i}, Depth: sp.depth, Desc: sp.desc, NoMerge: sp.all,
				New: func() Sys { return newCsys(sp.uids, ops) }}
			us = append(us, Unit{Name: sp.name + "/" + names[i], Run: func(r *R) { r.BFS(spec) }})
		}
	}
	wops := cacheOps([]string{"a", "b"}, 1, true)
	for p, pre := range [][]int{nil, {2}, {0, 2}} {
		pre := pre
		us = append(us, Unit{Name: fmt.Sprintf("wear/%d", p), Run: func(r *R) {
			r.wear("wear", len(pre) == 1, func() Sys { return newCsys([]string{"a", "b"}, wops) }, copNames(wops), [][]int{pre}, "")
		}})
	}
	for _, desc := range []bool{false, true} {
		desc := desc
		name := fmt.Sprintf("families/desc=%v", desc)
		us = append(us, Unit{Name: name, Run: func(r *R) { cacheFamilies(r, name, desc) }})
	}
	return us
}

// cacheFamilies fills caches with stars, chains and complete graphs and takes them apart.
func cacheFamilies(r *R, label string, desc bool) {
	shapes := map[string]func(us []string) []lspec{
		"out": func(us []string) (ls []lspec) {
			for i, u := range us[1:] {
				ls = append(ls, lspec{us[0], u, fmt.Sprintf("O/%d", i)})
			}
			return
		},
		"in": func(us []string) (ls []lspec) {
			for i, u := range us[1:] {
				ls = append(ls, lspec{u, us[0], fmt.Sprintf("I/%d", i)})
			}
			return
		},
		"chain": func(us []string) (ls []lspec) {
			for i, u := range us {
				ls = append(ls, lspec{u, us[(i+1)%len(us)], fmt.Sprintf("C%d", i)})
			}
			return
		},
		"complete": func(us []string) (ls []lspec) {
			for i, u := range us {
				for j, v := range us {
					ls = append(ls, lspec{u, v, fmt.Sprintf("K%d", i*len(us)+j)})
				}
			}
			return
		},
	}
	var sets []nameSet
	for n := 2; n <= pick(14, 40); n += 1 + n/5 {
		sets = append(sets, sized(n))
	}
	for _, sh := range []string{"out", "in", "chain", "complete"} {
		for _, set := range sets {
			n := len(set.names)
			if sh == "complete" && n > 10 {
				break
			}
			for k := 0; k < n; k++ {
				for _, bulk := range []bool{false, true} {
					k, bulk := k, bulk
					ok := r.Each(fmt.Sprintf("%s/%s %d, %d, bulk=%v", label, sh, n, k, bulk), desc, func() string {
						return cacheScript(set.names, shapes[sh], k, bulk, true)
					})
					if !ok {
						return
					}
				}
			}
		}
	}
	names := nameSets(9)
	r.Batch(label+"/names", len(names), desc, func(i int) string { return names[i].name }, func(i int) string {
		for _, bulk := range []bool{false, true} {
			if d := cacheScript(names[i].names, shapes["complete"], i%len(names[i].names), bulk, true); d != "" {
				return d
			}
		}
		return ""
	})
	ns := sizes(pick(260, 1100))
	r.Batch(label+"/sizes", 6*len(ns), desc, func(i int) string { return fmt.Sprint(ns[i/6], i%6) }, func(i int) string {
		n := ns[i/6] + 1
		return cacheScript(sized(n).names, shapes[[]string{"out", "in", "chain"}[i%6/2]], (i*7)%n, i%2 == 1, false)
	})
	// two caches share nothing
	r.Each(label+"/two caches", desc, func() string {
		a, b := newCsys([]string{"a", "b"}, nil), newCsys([]string{"a", "b"}, nil)
		if d := a.one(cop{kind: "put", links: []lspec{{"a", "b", "L1"}}}); d != "" {
			return d
		}
		if d := b.Check(); d != "" {
			return d
		}
		if d := b.one(cop{kind: "clear"}); d != "" {
			return d
		}
		return a.Check()
	})
}

// cacheScript puts the links of a shape and takes them away again; k is where
// it starts. Everything is compared after every operation if deep.
func cacheScript(uids []string, shape func([]string) []lspec, k int, bulk, deep bool) string {
	s := newCsys(uids, nil)
	if !deep {
		n := len(uids)
		s.uids = uniq([]string{uids[0], uids[n/2], uids[n-1], uids[k]})
	}
	ls := shape(uids)
	again := make([]lspec, len(ls))
	for i, l := range ls {
		again[i] = lspec{l.from, l.to, "N" + l.name}
	}
	do := func(o cop) string {
		if o.bulk && !bulk {
			for i := range o.links {
				if d := s.one(cop{kind: o.kind, upsert: o.upsert, links: o.links[i : i+1]}); d != "" {
					return d
				}
			}
			for i := range o.uids {
				if d := s.one(cop{kind: o.kind, uids: o.uids[i : i+1]}); d != "" {
					return d
				}
			}
		} else if d := s.one(o); d != "" {
			return d
		}
		return s.Check()
	}
	for _, o := range []cop{
		{kind: "put", bulk: true, links: ls},
		{kind: "put", bulk: true, links: again},
		{kind: "put", upsert: true, bulk: true, links: again[k%len(ls):]},
		{kind: "del", uids: uids[k : k+1]},
		{kind: "put", bulk: true, links: again},
		{kind: "del", bulk: true, uids: uids[k:]},
		{kind: "put", bulk: true, links: ls},
		{kind: "clear"},
		{kind: "put", bulk: true, upsert: true, links: append(append([]lspec(nil), again...), ls...)},
		{kind: "from", bulk: true, uids: uids},
		{kind: "to", bulk: true, uids: uids},
		{kind: "del", bulk: true, uids: uids},
	} {
		if d := do(o); d != "" {
			return d
		}
	}
	return ""
}

// cacheLarge lets operations on n links and others run at the same time.
func cacheLarge(r *R, n, part, parts int) {
	node := func(i int) string { return fmt.Sprintf("u%04d", i) }
	ls := func(tag string, f func(i int) (string, string)) (out []lspec) {
		for i := 0; i < n; i++ {
			u, v := f(i)
			out = append(out, lspec{u, v, fmt.Sprint(tag, i)})
		}
		return out
	}
	out := func(i int) (string, string) { return "h", node(i) }
	in := func(i int) (string, string) { return node(i), "h" }
	own := func(i int) (string, string) { return node(i), node(i + n) }
	var us, vs2 []string
	for i := 0; i < n; i++ {
		us, vs2 = append(us, node(i)), append(vs2, node(i+n))
	}
	put := func(up bool, l []lspec) cop { return cop{kind: "put", bulk: true, upsert: up, links: l} }
	starts := map[string][]cop{
		"empty": nil,
		"out":   {put(false, ls("S", out))},
		"in":    {put(false, ls("S", in))},
		"own":   {put(false, ls("S", own))},
	}
	byName := map[string]cop{}
	name := func(o cop) string {
		byName[o.String()] = o
		return o.String()
	}
	type prog struct {
		start string
		ts    [][]string
	}
	var ps []prog
	larges := map[string][]cop{
		"empty": {put(false, ls("A", out)), put(false, ls("A", in))},
		"out":   {put(true, ls("A", out)), put(false, ls("A", out)), {kind: "from", uids: []string{"h"}}, {kind: "to", bulk: true, uids: us}, {kind: "del", bulk: true, uids: us}, {kind: "del", uids: []string{"h"}}, {kind: "clear"}},
		"in":    {put(true, ls("A", in)), {kind: "to", uids: []string{"h"}}, {kind: "from", bulk: true, uids: us}, {kind: "del", bulk: true, uids: us}, {kind: "del", uids: []string{"h"}}, {kind: "clear"}},
		"own":   {put(true, ls("A", own)), {kind: "from", bulk: true, uids: us}, {kind: "to", bulk: true, uids: vs2}, {kind: "del", bulk: true, uids: us}, {kind: "del", bulk: true, uids: vs2}, {kind: "clear"}},
	}
	for _, sn := range []string{"empty", "out", "in", "own"} {
		f := out
		switch sn {
		case "in":
			f = in
		case "own":
			f = own
		}
		for _, l := range larges[sn] {
			for _, k := range []string{"put", "put^", "from", "to", "del"} {
				for _, i := range []int{0, n / 2, n - 1} {
					for _, j := range []int{0, n / 2, n - 1} {
						if i == j {
							continue
						}
						one := func(i int) cop {
							u, v := f(i)
							o := cop{kind: strings.TrimSuffix(k, "^"), upsert: k == "put^"}
							switch k {
							case "from":
								o.uids = []string{u}
							case "to":
								o.uids = []string{v}
							case "del":
								o.uids = []string{node(i)}
							default:
								o.links = []lspec{{u, v, fmt.Sprint("X", i)}}
							}
							return o
						}
						ps = append(ps, prog{sn, [][]string{{name(l)}, {name(one(i)), name(one(j))}}})
					}
				}
			}
			for _, k := range larges[sn] {
				ps = append(ps, prog{sn, [][]string{{name(l)}, {name(k)}}})
			}
		}
	}
	var final []string
	for _, k := range []string{"from", "to"} {
		final = append(final, name(cop{kind: k, uids: []string{"h"}}), name(cop{kind: k, bulk: true, uids: us}), name(cop{kind: k, bulk: true, uids: vs2}))
	}
	for i, p := range ps {
		if i%parts != part || r.Viol != nil {
			continue
		}
		p := p
		sys := concSys{
			start: func() (interface{}, Model) {
				s := newCsys(nil, nil)
				for _, o := range starts[p.start] {
					s.m.do(o)
					if d := o.do(s.c, nil); d != "ok" {
						panic(d)
					}
				}
				return s.c, cmodL{s.m, byName}
			},
			do:    func(obj interface{}, op string) string { return byName[op].do(obj.(*cmem.Links), nil) },
			final: final,
		}
		label := fmt.Sprintf("large/%d: %s: %v", n, p.start, p.ts)
		r.concSys(label, label, sys, vs.Config{Bound: 2, MapDesc: i%2 == 1}, p.ts)
	}
}

func cacheConcUnits() []Unit {
	ab, ba, ac := []string{"a", "b"}, []string{"b", "a"}, []string{"a", "c"}
	l := func(from, to, name string) lspec { return lspec{from, to, name} }
	full := []cop{
		{kind: "put", links: []lspec{l("a", "b", "P1")}}, {kind: "put", links: []lspec{l("a", "b", "P2")}},
		{kind: "put", links: []lspec{l("b", "a", "P3")}}, {kind: "put", links: []lspec{l("a", "c", "P4")}},
		{kind: "put", upsert: true, links: []lspec{l("a", "b", "U5")}}, {kind: "put", upsert: true, links: []lspec{l("a", "b", "U6")}},
		{kind: "from", uids: ab[:1]}, {kind: "to", uids: ba[:1]}, {kind: "to", uids: ab[:1]},
		{kind: "del", uids: ab[:1]}, {kind: "del", uids: ba[:1]}, {kind: "clear"},
		{kind: "put", bulk: true, links: []lspec{l("a", "b", "B1"), l("c", "b", "B2"), l("a", "c", "B3")}},
		{kind: "put", bulk: true, upsert: true, links: []lspec{l("a", "c", "B4"), l("a", "b", "B5")}},
		{kind: "from", bulk: true, uids: ab}, {kind: "to", bulk: true, uids: ba}, {kind: "from", bulk: true, uids: ac},
		{kind: "del", bulk: true, uids: ab}, {kind: "del", bulk: true, uids: []string{"c", "b"}},
	}
	names := copNames(full)
	mid := []string{names[0], names[4], names[6], names[7], names[9], names[11], names[12], names[13], names[14], names[17]}
	small := []string{names[0], names[5], names[6], names[7], names[10], names[11], names[13]}
	byName := map[string]cop{}
	for _, o := range full {
		byName[o.String()] = o
	}
	var final []string
	for _, k := range []string{"from", "to"} {
		for _, u := range []string{"a", "b", "c"} {
			o := cop{kind: k, uids: []string{u}}
			byName[o.String()] = o
			final = append(final, o.String())
		}
	}
	del := cop{kind: "del", uids: []string{"absent"}}
	byName[del.String()] = del
	final = append(final, del.String())
	starts := map[string]concSys{}
	for name, ls := range map[string][]lspec{
		"empty": nil,
		"one":   {l("a", "b", "S1")},
		"many":  {l("a", "b", "S1"), l("b", "a", "S2"), l("a", "c", "S3"), l("c", "b", "S4"), l("a", "a", "S5")},
	} {
		ls := ls
		starts[name] = concSys{
			start: func() (interface{}, Model) {
				s := newCsys(nil, nil)
				for _, x := range ls {
					if d := s.one(cop{kind: "put", links: []lspec{x}}); d != "" {
						panic(d)
					}
				}
				return s.c, cmodL{s.m, byName}
			},
			do: func(obj interface{}, op string) string {
				o, ok := byName[op]
				if !ok {
					panic(op)
				}
				return o.do(obj.(*cmem.Links), nil)
			},
			final: final,
		}
	}
	all := []string{"empty", "one", "many"}
	switch {
	case raceMode() && thorough():
		return concFamilies([]cfam{{"pairs", names, 2, 1, 12, all}, {"triples", names, 3, 1, 3, all}, {"two each", mid, 2, 2, 3, all[1:2]}}, starts)
	case raceMode():
		return concFamilies([]cfam{{"pairs", names, 2, 1, 6, all}, {"triples", mid, 3, 1, 2, all[1:2]}, {"two each", small, 2, 2, 1, all[1:2]}}, starts)
	case thorough():
		return append(cacheLargeUnits(), concFamilies([]cfam{{"pairs", names, 2, 1, 20, all}, {"triples", names, 3, 1, 6, all}, {"two each", names, 2, 2, 6, all},
			{"three each", small, 2, 3, 4, all[1:]}, {"four", names, 4, 1, 3, all[1:]}, {"two each of three", small[:6], 3, 2, 2, all[1:2]},
			{"one and two", names, 2, 0, 8, all}}, starts)...)
	}
	us := concFamilies([]cfam{{"pairs", names, 2, 1, 12, all}, {"triples", names, 3, 1, 4, all}, {"two each", mid, 2, 2, 4, all[:2]},
		{"two each of three", small[:4], 3, 2, 1, all[1:2]}, {"one and two", names, 2, 0, 4, all[2:]}}, starts)
	return append(us, cacheLargeUnits()...)
}

func cacheLargeUnits() []Unit {
	var us []Unit
	for p := 0; p < 4; p++ {
		p := p
		us = append(us, Unit{Name: fmt.Sprintf("large/%d", p), Run: func(r *R) { cacheLarge(r, reach(pick(150, 520), 600, "cache/memory"), p, 4) }})
	}
	return us
}

type cmodL struct {
	cmod
	byName map[string]cop
}

func (m cmodL) Apply(op Op, res string) []Model {
	n := m.clone()
	if n.do(m.byName[op.Name]) != res {
		return nil
	}
	return []Model{cmodL{n, m.byName}}
}
