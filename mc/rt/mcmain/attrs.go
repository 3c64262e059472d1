//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"gonum.org/v1/gonum/graph/encoding"
)

// C19: attributes.

func init() { checks["C19"] = attrsUnits }

// dotStr is a list of DOT attributes in a canonical form.
func dotStr(l []encoding.Attribute) string {
	var s []string
	for _, a := range l {
		s = append(s, fmt.Sprintf("%q=%q,", a.Key, a.Value))
	}
	sort.Strings(s)
	return strings.Join(s, "")
}

// dotOf is the form of dotStr of attributes.
func dotOf(a attrs.Attrs) string {
	if a == nil {
		return "<nil>"
	}
	m, err := contentOf(a)
	if err != nil {
		return "error " + err.Error()
	}
	return dotLine(m)
}

func contentOf(a attrs.Attrs) (map[string]string, error) {
	ks, err := a.Keys(bg)
	m := map[string]string{}
	for _, k := range ks {
		if err != nil {
			break
		}
		m[k], err = a.Get(bg, k)
	}
	return m, err
}

func copyMap(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// dotLine is m in the form of dotStr.
func dotLine(m map[string]string) string {
	var l []encoding.Attribute
	for k, v := range m {
		l = append(l, encoding.Attribute{Key: k, Value: v})
	}
	return dotStr(l)
}

// sameAttrs compares everything that can be read from a with m.
func sameAttrs(a attrs.Attrs, m map[string]string, absent ...string) string {
	ks, err := a.Keys(bg)
	if err != nil {
		return "Keys: " + err.Error()
	}
	var want []string
	for k := range m {
		want = append(want, k)
	}
	sort.Strings(want)
	if d := diffOf("Keys", fmt.Sprintf("%q", sorted(ks)), fmt.Sprintf("%q", sorted(want))); d != "" {
		return d
	}
	for _, k := range append(want, absent...) {
		v, err := a.Get(bg, k)
		if err != nil {
			return fmt.Sprintf("Get(%q): %v", k, err)
		}
		if d := diffOf(fmt.Sprintf("Get(%q)", k), fmt.Sprintf("%q", v), fmt.Sprintf("%q", m[k])); d != "" {
			return d
		}
	}
	if d := diffOf("DOTAttrs", dotStr(memattrs.DOTAttrs(a)), dotLine(m)); d != "" {
		return d
	}
	if dot, ok := a.(attrs.DOT); ok {
		if d := diffOf("Attributes", dotStr(dot.Attributes()), dotLine(m)); d != "" {
			return d
		}
	}
	mm, err := attrs.ToMap(bg, a)
	if err != nil {
		return "ToMap: " + err.Error()
	}
	return diffOf("ToMap", mapStr(mm), mapStr(m))
}

// attSys are attributes in slots, each with the map it should be equal to,
// and a plain map of the user.
type attSys struct {
	a    []attrs.Attrs
	m    []map[string]string
	um   map[string]string // the user's map
	umm  map[string]string
	line string // what was done, so that shared state is never merged away
	ops  []attOp
	kept []func() string // results of earlier calls, which must not change
}

type attOp struct {
	name string
	f    func(s *attSys) (diff string, enabled bool)
	der  bool // derives one thing from another
}

func attOps(slots int, keys, vals []string) []attOp {
	var ops []attOp
	for i := 0; i < slots; i++ {
		i := i
		for _, k := range keys {
			for _, v := range vals {
				k, v := k, v
				ops = append(ops, attOp{fmt.Sprintf("set %d %q=%q", i, k, v), func(s *attSys) (string, bool) {
					if err := s.a[i].Set(bg, k, v); err != nil {
						return "Set: " + err.Error(), true
					}
					s.m[i][k] = v
					return "", true
				}, false})
			}
		}
		for j := 0; j < slots; j++ {
			j := j
			if i == j {
				continue
			}
			ops = append(ops, attOp{fmt.Sprintf("%d = copy of %d", j, i), func(s *attSys) (string, bool) {
				c, err := memattrs.NewCopyFrom(bg, s.a[i])
				if err != nil {
					return "NewCopyFrom: " + err.Error(), true
				}
				s.a[j], s.m[j] = c, copyMap(s.m[i])
				return "", true
			}, true})
		}
		ops = append(ops, attOp{fmt.Sprintf("%d = from map", i), func(s *attSys) (string, bool) {
			s.a[i], s.m[i] = memattrs.NewFromMap(s.um), copyMap(s.umm)
			return "", true
		}, true}, attOp{fmt.Sprintf("map = to map %d", i), func(s *attSys) (string, bool) {
			m, err := attrs.ToMap(bg, s.a[i])
			if err != nil {
				return "ToMap: " + err.Error(), true
			}
			s.um, s.umm = m, copyMap(s.m[i])
			return "", true
		}, true}, attOp{fmt.Sprintf("scribble over the keys and DOT attributes of %d", i), func(s *attSys) (string, bool) {
			ks, err := s.a[i].Keys(bg)
			if err != nil {
				return "Keys: " + err.Error(), true
			}
			for k := range ks {
				ks[k] = "scribble"
			}
			for _, l := range [][]encoding.Attribute{memattrs.DOTAttrs(s.a[i]), s.a[i].(attrs.DOT).Attributes()} {
				for k := range l {
					l[k] = encoding.Attribute{Key: "scribble", Value: "scribble"}
				}
			}
			return "", true
		}, false}, attOp{fmt.Sprintf("keep the keys and DOT attributes of %d", i), func(s *attSys) (string, bool) {
			if len(s.kept) > 1 {
				return "", false
			}
			ks, err := s.a[i].Keys(bg)
			if err != nil {
				return "Keys: " + err.Error(), true
			}
			l, l2 := memattrs.DOTAttrs(s.a[i]), s.a[i].(attrs.DOT).Attributes()
			get := func() string { return fmt.Sprintf("%q %s %s", sorted(ks), dotStr(l), dotStr(l2)) }
			was := get()
			s.kept = append(s.kept, func() string { return diffOf("a list returned earlier", get(), was) })
			return "", true
		}, true})
	}
	for _, k := range keys {
		k := k
		ops = append(ops, attOp{fmt.Sprintf("map[%q]=%q", k, "m"), func(s *attSys) (string, bool) {
			s.um[k], s.umm[k] = "m", "m"
			return "", true
		}, false})
	}
	k := keys[0]
	ops = append(ops, attOp{fmt.Sprintf("delete %q from map", k), func(s *attSys) (string, bool) {
		if _, ok := s.umm[k]; !ok {
			return "", false
		}
		delete(s.um, k)
		delete(s.umm, k)
		return "", true
	}, false})
	return ops
}

func (s *attSys) Do(op int) (string, bool) {
	o := s.ops[op]
	d, en := o.f(s)
	if o.der {
		s.line += fmt.Sprint(op, s.State())
	}
	return d, en
}

func (s *attSys) Check() string {
	for i, a := range s.a {
		if d := sameAttrs(a, s.m[i], "", "a", "absent"); d != "" {
			return fmt.Sprintf("attributes %d: %s", i, d)
		}
	}
	for _, k := range s.kept {
		if d := k(); d != "" {
			return d
		}
	}
	return diffOf("the user's map", mapStr(s.um), mapStr(s.umm))
}

func (s *attSys) State() string {
	b := mapStr(s.umm) + "/" + s.line
	for _, m := range s.m {
		b += "/" + mapStr(m)
	}
	return b
}

// attStarts are the ways in which attributes begin.
var attStarts = []struct {
	name string
	mk   func() (attrs.Attrs, map[string]string)
}{
	{"new", func() (attrs.Attrs, map[string]string) { return memattrs.New(), map[string]string{} }},
	{"from a map", func() (attrs.Attrs, map[string]string) {
		return memattrs.NewFromMap(map[string]string{"a": "0", "z": ""}), map[string]string{"a": "0", "z": ""}
	}},
	{"from a nil map", func() (attrs.Attrs, map[string]string) { return memattrs.NewFromMap(nil), map[string]string{} }},
	{"copy of nil", func() (attrs.Attrs, map[string]string) {
		a, err := memattrs.NewCopyFrom(bg, nil)
		if err != nil || a == nil {
			panic(fmt.Sprintf("copying from nil returns %v, %v", a, err))
		}
		return a, map[string]string{}
	}},
	{"copy of others", func() (attrs.Attrs, map[string]string) {
		a, err := memattrs.NewCopyFrom(bg, fixed{"a", "1", "", "2"})
		if err != nil {
			panic(err)
		}
		return a, map[string]string{"a": "1", "": "2"}
	}},
	{"those of an entity", func() (attrs.Attrs, map[string]string) {
		e, err := entity.New("t")
		if err != nil {
			panic(err)
		}
		return e.Attrs(), map[string]string{}
	}},
}

func attrsUnits() []Unit {
	var us []Unit
	for si, st := range attStarts {
		for _, desc := range []bool{false, true} {
			si, st, desc := si, st, desc
			name := "histories/" + st.name
			if desc {
				name += "/desc"
			}
			us = append(us, Unit{Name: name, Run: func(r *R) {
				run := func(label string, slots, depth int, nomerge bool, keys, vals []string) {
					ops := attOps(slots, keys, vals)
					var names []string
					for _, o := range ops {
						names = append(names, o.name)
					}
					r.BFS(SeqSpec{Label: label, Ops: names, Depth: depth, NoMerge: nomerge, Desc: desc, New: func() Sys {
						s := &attSys{ops: ops, um: map[string]string{"u": "0"}, umm: map[string]string{"u": "0"}}
						for k := 0; k < slots; k++ {
							x := st
							if k == 1 {
								x = attStarts[(si+1)%len(attStarts)]
							} else if k == 2 {
								x = attStarts[0]
							}
							a, m := x.mk()
							s.a, s.m = append(s.a, a), append(s.m, m)
						}
						return s
					}})
				}
				run("two attributes", 2, pick(3, 4), true, []string{"a", ""}, []string{"x", ""})
				run("two attributes, merged", 2, pick(5, 6), false, []string{"a"}, []string{"x", ""})
				run("three attributes, merged", 3, pick(3, 4), false, []string{"a", "b"}, []string{"x"})
			}})
		}
	}
	// all contents over some keys, made in every way
	keys := []string{"", "a", "A", "a b", "\"", "é\n", "name"}
	vals := []string{"", "x", "\"\\\n", "x"}
	us = append(us, Unit{Name: "contents", Run: func(r *R) {
		bases := []int{6, 2}
		for range keys {
			bases = append(bases, 1+len(vals))
		}
		if !thorough() {
			for i := range bases[2:] {
				bases[2+i] = 3
			}
		}
		for _, desc := range []bool{false, true} {
			r.Batch("contents", product(bases...), desc, func(i int) string { return fmt.Sprint("made in way, order, values: ", mixed(i, bases...)) }, func(i int) string {
				d := mixed(i, bases...)
				m := map[string]string{}
				var f fixed
				for k := range keys {
					at := k
					if d[1] == 1 {
						at = len(keys) - 1 - k
					}
					if v := d[2+at]; v > 0 {
						m[keys[at]] = vals[v-1]
						f = append(f, keys[at], vals[v-1])
					}
				}
				var a attrs.Attrs
				var err error
				switch d[0] {
				case 0:
					a = memattrs.New()
					for k := 0; k < len(f); k += 2 {
						if err := a.Set(bg, f[k], "first"); err != nil {
							return err.Error()
						}
					}
					for k := 0; k < len(f); k += 2 {
						if err := a.Set(bg, f[k], f[k+1]); err != nil {
							return err.Error()
						}
					}
				case 1:
					a = memattrs.NewFromMap(m)
				case 2:
					a, err = memattrs.NewCopyFrom(bg, f)
				case 3:
					a, err = memattrs.NewCopyFrom(bg, memattrs.NewFromMap(m))
				case 4:
					var n *gmem.Node
					if n, err = gmem.NewNode(1, &tent{suid("u"), "t", memattrs.NewFromMap(m)}); err == nil {
						if d := diffOf("Attributes of a node", dotStr(n.Attributes()), dotLine(m)); d != "" {
							return d
						}
						a = n.Attrs()
					}
				case 5:
					var x, y *gmem.Node
					if x, err = gmem.NewNode(1, &tent{suid("u"), "t", nil}); err != nil {
						return err.Error()
					}
					if y, err = gmem.NewNode(2, &tent{suid("v"), "t", fixed{}}); err != nil {
						return err.Error()
					}
					var e *gmem.Edge
					if e, err = gmem.NewEdge(x, y, graph.WithAttrs(memattrs.NewFromMap(m))); err == nil {
						if d := diffOf("Attributes of an edge", dotStr(e.Attributes()), dotLine(m)); d != "" {
							return d
						}
						a = e.Attrs()
					}
				}
				if err != nil {
					return err.Error()
				}
				if d := sameAttrs(a, m, "absent", "N", "b"); d != "" {
					return d
				}
				// our own attributes, converted
				return sameAttrs(f, m)
			})
		}
	}})
	us = append(us, Unit{Name: "many keys", Run: func(r *R) {
		for _, desc := range []bool{false, true} {
			r.Batch("many keys", reach(pick(70, 300), 600, "attrs", "attrs/memory"), desc, func(i int) string { return fmt.Sprint(i, " keys") }, func(i int) string {
				m := map[string]string{}
				a := memattrs.New()
				for k := 0; k < i; k++ {
					s := fmt.Sprintf("key%d", k*7919%1000)
					m[s] = strings.Repeat("v", k)
					if err := a.Set(bg, s, m[s]); err != nil {
						return err.Error()
					}
				}
				c, err := memattrs.NewCopyFrom(bg, a)
				if err != nil {
					return err.Error()
				}
				for _, x := range []attrs.Attrs{a, c, memattrs.NewFromMap(m)} {
					if d := sameAttrs(x, m, "key", "key1000"); d != "" {
						return d
					}
				}
				return ""
			})
		}
	}})
	us = append(us, Unit{Name: "names", Run: func(r *R) {
		sets := nameSets(9)
		for _, n := range sizes(pick(520, 5000)) {
			sets = append(sets, sized(n))
		}
		for _, desc := range []bool{false, true} {
			r.Batch("names", len(sets), desc, func(i int) string { return sets[i].name }, func(i int) string { return attNames(sets[i].names) })
		}
	}})
	// failing sources
	us = append(us, Unit{Name: "faults", Run: func(r *R) {
		ks := []string{"a", "b", "c", "d", "e", "f"}
		odd := append([]error{errAttrs}, oddErrors()...)
		bases := []int{4, len(ks) + 1, len(ks) + 1, len(odd)}
		r.Batch("faults", product(bases...), false, func(i int) string { return fmt.Sprint("call, keys, failing call, error: ", mixed(i, bases...)) }, func(i int) string {
			d := mixed(i, bases...)
			if d[2] > d[1] {
				return ""
			}
			n := 0
			f := failAttrs{keys: ks[:d[1]], at: d[2], n: &n, err: odd[d[3]]}
			var err error
			what := ""
			switch d[0] {
			case 0:
				what = "NewCopyFrom"
				_, err = memattrs.NewCopyFrom(bg, f)
			case 1:
				what = "ToMap"
				_, err = attrs.ToMap(bg, f)
			case 2:
				what = "NewCopyFrom of the attributes of an entity"
				e, eerr := entity.New("t", entity.WithAttrs(f))
				if eerr != nil {
					return eerr.Error()
				}
				_, err = memattrs.NewCopyFrom(bg, e.Attrs())
			case 3:
				what = "ToMap of the attributes of a link"
				l, lerr := link.New(uid("x"), uid("y"), link.WithAttrs(f))
				if lerr != nil {
					return lerr.Error()
				}
				_, err = attrs.ToMap(bg, l.Attrs())
			}
			if !sameErr(err, f.err) {
				return fmt.Sprintf("%s returned error %v, but the source failed with %v", what, err, f.err)
			}
			return ""
		})
		// without a failure
		for n := 0; n <= len(ks); n++ {
			n := n
			r.Each(fmt.Sprintf("no failure, %d keys", n), false, func() string {
				c := 0
				f := failAttrs{keys: ks[:n], at: 1000000, n: &c}
				m := map[string]string{}
				for _, k := range ks[:n] {
					m[k] = "v" + k
				}
				a, err := memattrs.NewCopyFrom(bg, f)
				if err != nil {
					return err.Error()
				}
				return sameAttrs(a, m)
			})
		}
	}}, failingAttrs())
	return us
}

// attNames has attributes with keys and values out of names.
func attNames(names []string) string {
	n := len(names)
	m := map[string]string{}
	var f fixed
	for k, s := range names {
		m[s] = names[(k+1)%n]
		f = append(f, s, m[s])
	}
	a := memattrs.New()
	for k := 0; k < 2*n; k += 2 {
		if err := a.Set(bg, f[k], f[k+1]+"?"); err != nil {
			return "Set: " + err.Error()
		}
		if err := a.Set(bg, f[k], f[k+1]); err != nil {
			return "Set: " + err.Error()
		}
	}
	fm := memattrs.NewFromMap(m)
	c1, err := memattrs.NewCopyFrom(bg, f)
	if err != nil {
		return "NewCopyFrom: " + err.Error()
	}
	c2, err := memattrs.NewCopyFrom(bg, a)
	if err != nil {
		return "NewCopyFrom: " + err.Error()
	}
	m2, err := attrs.ToMap(bg, f)
	if err != nil {
		return "ToMap: " + err.Error()
	}
	all := []attrs.Attrs{a, fm, c1, c2, memattrs.NewFromMap(m2)}
	want := copyMap(m)
	for i, x := range all {
		if d := sameAttrs(x, want, "absent", "absent too"); d != "" {
			return fmt.Sprintf("attributes %d: %s", i, d)
		}
	}
	if n > 600 {
		return ""
	}
	// names that are not keys are absent, and setting one changes just that
	for k := range names {
		x := memattrs.New()
		for j, s := range names {
			if j == k {
				continue
			}
			if err := x.Set(bg, s, "v"); err != nil {
				return "Set: " + err.Error()
			}
		}
		if v, err := x.Get(bg, names[k]); v != "" || err != nil {
			return fmt.Sprintf("Get(%q) of a key never set: %q, %v", names[k], v, err)
		}
		i := k % len(all)
		if err := all[i].Set(bg, names[k], "new"); err != nil {
			return "Set: " + err.Error()
		}
		for j, s := range names {
			w := want[s]
			if j <= k && j%len(all) == i {
				w = "new"
			}
			if v, err := all[i].Get(bg, s); v != w || err != nil {
				return fmt.Sprintf("attributes %d: Get(%q): %q, %v, want %q", i, s, v, err, w)
			}
		}
	}
	return diffOf("the user's map", mapStr(m), mapStr(want))
}
