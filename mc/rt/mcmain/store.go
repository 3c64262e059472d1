//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	smem "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() {
	checks["C06"] = storeUnits
	checks["C07"] = storeConcUnits
}

// fixed are attributes that never change and that need no lock.
type fixed []string

func (f fixed) Keys(context.Context) ([]string, error) {
	var ks []string
	for i := 0; i+1 < len(f); i += 2 {
		ks = append(ks, f[i])
	}
	return ks, nil
}

func (f fixed) Get(_ context.Context, k string) (string, error) {
	for i := 0; i+1 < len(f); i += 2 {
		if f[i] == k {
			return f[i+1], nil
		}
	}
	return "", nil
}

func (f fixed) Set(context.Context, string, string) error { return errors.New("fixed") }

// tent is an entity of our own; it has no DOT ID.
type tent struct {
	u uuid.UID
	t string
	a attrs.Attrs
}

func (e *tent) UID() uuid.UID      { return e.u }
func (e *tent) Type() string       { return e.t }
func (e *tent) Attrs() attrs.Attrs { return e.a }

// espec describes an entity; attrs "-" are nil.
type espec struct {
	uid, typ, attrs string
	impl            int
}

func kvs(s string) []string {
	if s == "" || s == "-" {
		return nil
	}
	var out []string
	for _, p := range strings.Split(s, ",") {
		i := strings.IndexByte(p, '=')
		out = append(out, p[:i], p[i+1:])
	}
	return out
}

func mkAttrsOf(s string, lockFree bool) attrs.Attrs {
	if s == "-" {
		return nil
	}
	if lockFree {
		return fixed(kvs(s))
	}
	return mkAttrs(kvs(s)...)
}

func canonAttrs(s string) string { return attrStr(fixed(kvs(s))) }

func (e espec) make(lockFree bool) store.Entity {
	a := mkAttrsOf(e.attrs, lockFree)
	switch e.impl {
	case 1:
		return &tent{suid(e.uid), e.typ, a}
	case 2:
		n, err := gmem.NewNode(3, &tent{suid(e.uid), e.typ, a})
		if err != nil {
			panic(err)
		}
		return n
	}
	opts := []entity.Option{entity.WithUID(uid(e.uid))}
	if a != nil {
		opts = append(opts, entity.WithAttrs(a))
	}
	x, err := entity.New(e.typ, opts...)
	if err != nil {
		panic(err)
	}
	return x
}

// sop is an operation on a store.
type sop struct {
	kind   string // add, get, del, link, unlink
	bulk   bool
	upsert bool
	attrs  string // option
	from   string
	uids   []string
	ents   []espec
}

func (o sop) String() string {
	s := o.kind
	if o.bulk {
		s = "bulk" + s
	}
	var a []string
	if o.from != "" {
		a = append(a, "from "+o.from)
	}
	for i, e := range o.ents {
		if i >= 4 && i < len(o.ents)-1 {
			if i == 4 {
				a = append(a, fmt.Sprintf("... %d in all ...", len(o.ents)))
			}
			continue
		}
		a = append(a, fmt.Sprintf("%s:%s[%s]%d", e.uid, e.typ, e.attrs, e.impl))
	}
	if n := len(o.uids); n > 8 {
		a = append(a, fmt.Sprintf("%q ... %d in all ... %q", o.uids[:3], n, o.uids[n-1]))
	} else if o.uids != nil {
		a = append(a, fmt.Sprintf("%q", o.uids))
	}
	if o.upsert {
		a = append(a, "upsert")
	}
	if o.attrs != "-" && o.attrs != "" {
		a = append(a, "attrs "+o.attrs)
	}
	return s + "(" + strings.Join(a, " ") + ")"
}

// smod is the model of a store.
type smod struct {
	dir   bool
	ents  map[string]string
	links map[pair]string
}

func (m *smod) clone() *smod {
	n := &smod{m.dir, make(map[string]string, len(m.ents)), make(map[pair]string, len(m.links))}
	for k, v := range m.ents {
		n.ents[k] = v
	}
	for k, v := range m.links {
		n.links[k] = v
	}
	return n
}

func (m *smod) key(u, v string) pair {
	if !m.dir && u > v {
		return pair{v, u}
	}
	return pair{u, v}
}

// do performs o on m itself and returns its result.
func (m *smod) do(o sop) string {
	optAttrs := ""
	if o.attrs != "-" {
		optAttrs = canonAttrs(o.attrs)
	}
	var got []string
	for _, e := range o.ents {
		if _, ok := m.ents[e.uid]; ok && !o.upsert {
			return store.ErrAlreadyExists.Error()
		}
		a := optAttrs
		if o.attrs == "-" {
			a = canonAttrs(e.attrs)
		}
		m.ents[e.uid] = fmt.Sprintf("%q %q %s", e.uid, e.typ, a)
	}
	for _, u := range o.uids {
		switch o.kind {
		case "get":
			e, ok := m.ents[u]
			if !ok {
				return store.ErrEntityNotFound.Error()
			}
			got = append(got, e)
		case "del":
			delete(m.ents, u)
			for k := range m.links {
				if k[0] == u || k[1] == u {
					delete(m.links, k)
				}
			}
		case "link":
			_, ok1 := m.ents[o.from]
			_, ok2 := m.ents[u]
			if !ok1 || !ok2 {
				return store.ErrEntityNotFound.Error()
			}
			if u == o.from {
				return "refused"
			}
			if _, ok := m.links[m.key(o.from, u)]; !ok {
				m.links[m.key(o.from, u)] = optAttrs
			}
		case "unlink":
			delete(m.links, m.key(o.from, u))
		}
	}
	if o.kind == "get" {
		return strings.Join(got, "; ")
	}
	return "ok"
}

func (m *smod) all() string {
	var es, ls []string
	for _, e := range m.ents {
		es = append(es, e)
	}
	for k, l := range m.links {
		ls = append(ls, fmt.Sprintf("%q-%q %s", k[0], k[1], l))
	}
	sort.Strings(es)
	sort.Strings(ls)
	return strings.Join(es, "; ") + " | " + strings.Join(ls, "; ")
}

func (m *smod) Key() string { return m.all() }

func entStr(e store.Entity) string {
	if e == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%q %q %s", e.UID(), e.Type(), attrStr(e.Attrs()))
}

// lastErr, if set, receives the errors of operations (not for use in threads).
var lastErr *error

func serr(err error) string {
	if lastErr != nil {
		*lastErr = err
	}
	s := errStr(err, store.ErrEntityNotFound, store.ErrAlreadyExists)
	if strings.HasPrefix(s, "error") {
		return "refused"
	}
	return s
}

// do performs o on a store.
func (o sop) do(st *smem.Memory, lockFree bool) string {
	var opts []store.Option
	if o.upsert {
		opts = append(opts, store.WithUpsert())
	}
	if o.attrs != "-" {
		opts = append(opts, store.WithAttrs(mkAttrsOf(o.attrs, lockFree)))
	}
	us := uidsOf(o.uids...)
	if !o.bulk {
		switch o.kind {
		case "add":
			return serr(st.Add(bg, o.ents[0].make(lockFree), opts...))
		case "get":
			e, err := st.Get(bg, us[0], opts...)
			if err != nil {
				return serr(err)
			}
			return entStr(e)
		case "del":
			return serr(st.Delete(bg, us[0], opts...))
		case "link":
			return serr(st.Link(bg, suid(o.from), us[0], opts...))
		case "unlink":
			return serr(st.Unlink(bg, uid(o.from), us[0], opts...))
		}
	}
	switch o.kind {
	case "add":
		var es []store.Entity
		for _, e := range o.ents {
			es = append(es, e.make(lockFree))
		}
		return given(es, func(l []store.Entity) string { return serr(st.BulkAdd(bg, l, opts...)) })
	case "get":
		return given(us, func(l []uuid.UID) string {
			es, err := st.BulkGet(bg, l, opts...)
			if err != nil {
				if es != nil {
					return "error and entities"
				}
				return serr(err)
			}
			var got []string
			for _, e := range es {
				got = append(got, entStr(e))
			}
			return strings.Join(got, "; ")
		})
	case "del":
		return given(us, func(l []uuid.UID) string { return serr(st.BulkDelete(bg, l, opts...)) })
	case "link":
		return given(us, func(l []uuid.UID) string { return serr(st.BulkLink(bg, uid(o.from), l, opts...)) })
	case "unlink":
		return given(us, func(l []uuid.UID) string { return serr(st.BulkUnlink(bg, suid(o.from), l, opts...)) })
	}
	panic(o.kind)
}

// storeAll is what the graph handle shows, in the form of (*smod).all.
func storeAll(st *smem.Memory, dir bool) string {
	h, err := st.Graph()
	if err != nil {
		return "Graph: " + err.Error()
	}
	g, ok := h.(gmem.Graph)
	if !ok {
		return fmt.Sprintf("Graph: %T", h)
	}
	ns, err := g.Nodes(bg)
	if err != nil {
		return "Nodes: " + err.Error()
	}
	var es, ls []string
	for _, n := range ns {
		gn, ok := n.(*gmem.Node)
		if !ok {
			return fmt.Sprintf("node %T", n)
		}
		es = append(es, entStr(gn))
	}
	ges, err := g.Edges(bg)
	if err != nil {
		return "Edges: " + err.Error()
	}
	for _, e := range ges {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		u, v := f.UID().String(), t.UID().String()
		if !dir && u > v {
			u, v = v, u
		}
		ls = append(ls, fmt.Sprintf("%q-%q %s", u, v, attrStr(e.Attrs())))
	}
	// the other views of the edges
	views := 0
	for _, n := range ns {
		ps, err := g.From(bg, n.UID())
		if err != nil {
			return "From: " + err.Error()
		}
		views += len(ps)
		for _, p := range ps {
			u, v := n.UID().String(), p.UID().String()
			e, err := g.Edge(bg, uid(u), suid(v))
			if err != nil {
				return fmt.Sprintf("Edge(%q,%q): %v", u, v, err)
			}
			if !dir && u > v {
				u, v = v, u
			}
			s := fmt.Sprintf("%q-%q %s", u, v, attrStr(e.Attrs()))
			found := false
			for _, l := range ls {
				found = found || l == s
			}
			if !found {
				return fmt.Sprintf("From shows %s, Edges does not", s)
			}
		}
	}
	want := len(ls)
	if !dir {
		want *= 2
	}
	if views != want {
		return fmt.Sprintf("From shows %d neighbours, %d links exist", views, len(ls))
	}
	sort.Strings(es)
	sort.Strings(ls)
	return strings.Join(es, "; ") + " | " + strings.Join(ls, "; ")
}

func newStore(dir bool) *smem.Memory {
	var st *smem.Memory
	var err error
	if dir {
		st, err = smem.NewStore(smem.WithGraph(newGraph(true)))
	} else {
		st, err = smem.NewStore()
	}
	if err != nil {
		panic(err)
	}
	return st
}

// ssys is a store and its model.
type ssys struct {
	st   *smem.Memory
	m    *smod
	uids []string
	ops  []sop
	kept kept
}

func newSsys(dir bool, uids []string, ops []sop) *ssys {
	return &ssys{st: newStore(dir), m: &smod{dir, map[string]string{}, map[pair]string{}}, uids: uids, ops: ops}
}

func (s *ssys) one(o sop) string {
	var got string
	if p, bad := try(func() { got = o.do(s.st, false) }); bad {
		return fmt.Sprintf("%v panicked: %v", o, p)
	}
	if refused {
		return o.String() + ": " + got
	}
	return diffOf(o.String(), got, s.m.do(o))
}

func (s *ssys) Do(op int) (string, bool) { return s.one(s.ops[op]), true }

func (s *ssys) State() string { return Canon(s.st, s.m.ents, s.m.links) }

func (s *ssys) Check() string {
	var d string
	if p, bad := try(func() { d = s.observe() }); bad {
		return fmt.Sprintf("a query panicked: %v", p)
	}
	return d
}

func (s *ssys) observe() string {
	if d := s.kept.check(); d != "" {
		return d
	}
	var present []string
	for _, u := range append([]string{"absent"}, s.uids...) {
		if d := s.one(sop{kind: "get", attrs: "-", uids: []string{u}}); d != "" {
			return d
		}
		if s.m.ents[u] != "" {
			present = append(present, u)
		}
	}
	bulks := [][]string{nil, present, append(append([]string(nil), present...), "absent")}
	if n := len(present); n > 0 {
		rev := []string{present[0]}
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, present[i])
		}
		bulks = append(bulks, rev)
	}
	for _, b := range bulks {
		if es, err := s.st.BulkGet(bg, uidsOf(b...)); err == nil {
			keep(&s.kept, "BulkGet", es)
		}
		if d := s.one(sop{kind: "get", bulk: true, attrs: "-", uids: b}); d != "" {
			return d
		}
	}
	if d := diffOf("graph handle", storeAll(s.st, s.m.dir), s.m.all()); d != "" {
		return d
	}
	// no query leaves the store locked
	return s.one(sop{kind: "del", attrs: "-", uids: []string{"absent"}})
}

// storeOps is an alphabet over uids.
func storeOps(uids []string, bulk, rich bool) []sop {
	var ops []sop
	kinds := func(i int, u string) []espec {
		return []espec{{u, "T" + u, "k=" + u, i % 3}, {u, "S" + u, "-", (i + 1) % 3}, {u, "S", "x=1,y=", (i + 2) % 3}}
	}
	for i, u := range uids {
		k := kinds(i, u)
		ops = append(ops,
			sop{kind: "add", attrs: "-", ents: k[:1]},
			sop{kind: "add", attrs: "-", upsert: true, ents: k[1:2]},
			sop{kind: "add", attrs: "o=1", upsert: true, ents: k[2:3]},
			sop{kind: "del", attrs: "-", uids: []string{u}})
		if rich {
			ops = append(ops,
				sop{kind: "add", attrs: "o=2", ents: k[2:3]},
				sop{kind: "add", attrs: "", ents: k[0:1]},
				sop{kind: "add", attrs: "-", ents: k[1:2]},
				sop{kind: "add", attrs: "-", upsert: true, ents: []espec{{u, "U", "k=" + u, 2}}})
		}
		for j, v := range uids {
			a := []string{"-", "l=" + u + v, "l=1"}[(i+j)%3]
			if i == j && !rich {
				continue
			}
			ops = append(ops, sop{kind: "link", attrs: a, from: u, uids: []string{v}},
				sop{kind: "unlink", attrs: "-", from: u, uids: []string{v}})
		}
	}
	if bulk {
		n := len(uids)
		rev := append([]string(nil), uids...)
		for i := range rev {
			rev[i] = uids[n-1-i]
		}
		var es, es2 []espec
		for i, u := range rev {
			es = append(es, espec{u, "B" + u, "b=" + u, i % 3})
			es2 = append(es2, espec{u, "C" + u, "-", (i + 1) % 3})
		}
		ops = append(ops,
			sop{kind: "add", bulk: true, attrs: "-", ents: es},
			sop{kind: "add", bulk: true, attrs: "-", ents: append(es2[:1:1], es[0])},
			sop{kind: "add", bulk: true, attrs: "o=3", upsert: true, ents: append(es2[:n:n], es[n-1])},
			sop{kind: "add", bulk: true, attrs: "-", ents: nil},
			sop{kind: "del", bulk: true, attrs: "-", uids: append([]string{"absent"}, rev...)},
			sop{kind: "del", bulk: true, attrs: "-", uids: []string{uids[0], uids[0]}},
			sop{kind: "link", bulk: true, attrs: "l=b", from: uids[0], uids: rev[:n-1]},
			sop{kind: "link", bulk: true, attrs: "-", from: uids[0], uids: append([]string{uids[1], "absent"}, rev[:n-1]...)},
			sop{kind: "link", bulk: true, attrs: "-", from: "absent", uids: nil},
			sop{kind: "link", bulk: true, attrs: "-", from: uids[n-1], uids: []string{uids[0], uids[n-1], uids[n/2]}},
			sop{kind: "unlink", bulk: true, attrs: "-", from: uids[0], uids: append([]string{"absent"}, uids...)},
			sop{kind: "unlink", bulk: true, attrs: "-", from: "absent", uids: uids})
	}
	return ops
}

func sopNames(ops []sop) []string {
	var n []string
	for _, o := range ops {
		n = append(n, o.String())
	}
	return n
}

func storeUnits() []Unit {
	var us []Unit
	for _, dir := range []bool{false, true} {
		for part := 0; part < 2; part++ {
			dir, part := dir, part
			name := fmt.Sprintf("%s/faults/%d", kindName(dir), part)
			us = append(us, Unit{Name: name, Run: func(r *R) { storeFaults(r, name, dir, part) }})
		}
	}
	for _, dir := range []bool{false, true} {
		dir := dir
		type space struct {
			name       string
			uids       []string
			bulk, rich bool
			depth      int
			desc       bool
			prefix     int // how many entities exist at the start
		}
		ab, abc := []string{"a", "b"}, []string{"a", "b", "c"}
		for _, sp := range []space{
			{"single2", ab, false, true, pick(5, 6), false, 0},
			{"bulk2", ab, true, false, pick(4, 6), true, 0},
			{"single3", abc, false, false, pick(4, 5), true, 0},
			{"bulk3", abc, true, false, pick(3, 5), false, 0},
			{"linked3", abc, true, false, pick(3, 4), false, 3},
			{"odd2", []string{"", " "}, true, true, pick(3, 5), false, 0},
		} {
			sp := sp
			ops := storeOps(sp.uids, sp.bulk, sp.rich)
			names := sopNames(ops)
			var prefix []int
			for i := 0; i < sp.prefix; i++ {
				for k, o := range ops {
					if o.kind == "add" && !o.bulk && !o.upsert && o.ents[0].uid == sp.uids[i] {
						prefix = append(prefix, k)
						break
					}
				}
			}
			base := kindName(dir) + "/" + sp.name
			for i := range ops {
				pre := append(append([]int(nil), prefix...), i)
				spec := SeqSpec{Label: base + "/" + names[i], Ops: names, Prefix: pre, Depth: len(prefix) + sp.depth, Desc: sp.desc,
					New: func() Sys { return newSsys(dir, sp.uids, ops) }}
				us = append(us, Unit{Name: fmt.Sprintf("%s/%d %s", base, i, names[i]), Run: func(r *R) { r.BFS(spec) }})
			}
		}
		for _, bulk := range []bool{false, true} {
			bulk := bulk
			wops := storeOps(ab, bulk, !bulk)
			if bulk { // bulk operations only
				var l []sop
				for _, o := range wops {
					if o.bulk {
						l = append(l, o)
					}
				}
				wops = l
			}
			for p := 0; p < 2; p++ {
				p := p
				name := fmt.Sprintf("%s/wear/bulk=%v/%d", kindName(dir), bulk, p)
				var pre []int
				for k, o := range wops {
					if p == 1 && o.kind == "add" && !o.upsert && len(pre) < 2 {
						pre = append(pre, k)
					}
				}
				us = append(us, Unit{Name: name, Run: func(r *R) {
					r.wear(name, p == 1, func() Sys { return newSsys(dir, ab, wops) }, sopNames(wops), [][]int{pre}, "")
				}})
			}
		}
		for _, desc := range []bool{false, true} {
			desc := desc
			name := fmt.Sprintf("%s/families/desc=%v", kindName(dir), desc)
			us = append(us, Unit{Name: name, Run: func(r *R) { storeFamilies(r, name, dir, desc) }})
		}
	}
	return us
}

// faultyGraph is a graph of which one call of one kind fails without effect.
type faultyGraph struct {
	gmem.Graph
	kind string
	n    int // calls of the kind
	at   int // the call which fails
	err  error
}

func (g *faultyGraph) fails(kind string) bool {
	if kind != g.kind {
		return false
	}
	g.n++
	return g.n == g.at
}

func (g *faultyGraph) NewNode(c context.Context, e graph.Entity, o ...graph.Option) (graph.Node, error) {
	if g.fails("NewNode") {
		return nil, g.err
	}
	return g.Graph.NewNode(c, e, o...)
}

func (g *faultyGraph) AddNode(c context.Context, n graph.Node, o ...graph.Option) error {
	if g.fails("AddNode") {
		return g.err
	}
	return g.Graph.AddNode(c, n, o...)
}

func (g *faultyGraph) RemoveNode(c context.Context, u uuid.UID, o ...graph.Option) error {
	if g.fails("RemoveNode") {
		return g.err
	}
	return g.Graph.RemoveNode(c, u, o...)
}

func (g *faultyGraph) Link(c context.Context, u, v uuid.UID, o ...graph.Option) (graph.Edge, error) {
	if g.fails("Link") {
		return nil, g.err
	}
	return g.Graph.Link(c, u, v, o...)
}

func (g *faultyGraph) Unlink(c context.Context, u, v uuid.UID, o ...graph.Option) error {
	if g.fails("Unlink") {
		return g.err
	}
	return g.Graph.Unlink(c, u, v, o...)
}

func (g *faultyGraph) Node(c context.Context, u uuid.UID) (graph.Node, error) {
	if g.fails("Node") {
		return nil, g.err
	}
	return g.Graph.Node(c, u)
}

// wholeGraph is a graph whose operations are not interrupted, so that other
// goroutines run only where the store itself lets them.
type wholeGraph struct {
	gmem.Graph
	on bool
}

func (g *wholeGraph) whole() func() {
	if !g.on {
		return func() {}
	}
	vs.Explore(false)
	return func() { vs.Explore(true) }
}

func (g *wholeGraph) NewNode(c context.Context, e graph.Entity, o ...graph.Option) (graph.Node, error) {
	defer g.whole()()
	return g.Graph.NewNode(c, e, o...)
}

func (g *wholeGraph) AddNode(c context.Context, n graph.Node, o ...graph.Option) error {
	defer g.whole()()
	return g.Graph.AddNode(c, n, o...)
}

func (g *wholeGraph) RemoveNode(c context.Context, u uuid.UID, o ...graph.Option) error {
	defer g.whole()()
	return g.Graph.RemoveNode(c, u, o...)
}

func (g *wholeGraph) Link(c context.Context, u, v uuid.UID, o ...graph.Option) (graph.Edge, error) {
	defer g.whole()()
	return g.Graph.Link(c, u, v, o...)
}

func (g *wholeGraph) Unlink(c context.Context, u, v uuid.UID, o ...graph.Option) error {
	defer g.whole()()
	return g.Graph.Unlink(c, u, v, o...)
}

func (g *wholeGraph) Node(c context.Context, u uuid.UID) (graph.Node, error) {
	defer g.whole()()
	return g.Graph.Node(c, u)
}

func (g *wholeGraph) Nodes(c context.Context) ([]graph.Node, error) {
	defer g.whole()()
	return g.Graph.Nodes(c)
}

func (g *wholeGraph) Edge(c context.Context, u, v uuid.UID) (graph.Edge, error) {
	defer g.whole()()
	return g.Graph.Edge(c, u, v)
}

// storeLarge lets bulk operations on n entities and others run at the same time.
func storeLarge(r *R, dir bool, n, part, parts int) {
	ent := func(i int, k string) espec {
		u := fmt.Sprintf("u%04d", i)
		return espec{u, u + k, "l=" + k, 1}
	}
	all := func(k string) sop {
		o := sop{kind: "add", bulk: true, attrs: "-"}
		for i := 0; i < n; i++ {
			o.ents = append(o.ents, ent(i, k))
		}
		return o
	}
	name := func(i int) string { return fmt.Sprintf("u%04d", i) }
	var us []string
	for i := 0; i < n; i++ {
		us = append(us, name(i))
	}
	hub := sop{kind: "add", attrs: "-", ents: []espec{{"h", "hub", "l=h", 1}}}
	bulk := func(kind string) sop {
		o := sop{kind: kind, bulk: true, attrs: "-", uids: us}
		if kind == "link" || kind == "unlink" {
			o.from = "h"
		}
		return o
	}
	up := all("2")
	up.upsert = true
	starts := map[string][]sop{"empty": {hub}, "full": {hub, all("1")}, "linked": {hub, all("1"), bulk("link")}}
	single := func(kind string, i, k int) sop {
		if kind == "add" {
			return sop{kind: kind, upsert: true, attrs: "-", ents: []espec{ent(i, fmt.Sprint("s", k))}}
		}
		o := sop{kind: kind, attrs: "-", uids: []string{name(i)}}
		if kind == "link" || kind == "unlink" {
			o.from = "h"
		}
		return o
	}
	type prog struct {
		start string
		ts    [][]sop
	}
	var ps []prog
	bulks := []struct {
		start string
		op    sop
	}{{"empty", all("3")}, {"full", up}, {"full", bulk("get")}, {"full", bulk("del")}, {"full", bulk("link")}, {"linked", bulk("unlink")}, {"linked", bulk("del")}}
	for _, b := range bulks {
		for _, k := range []string{"get", "add", "del", "link", "unlink"} {
			for _, i := range []int{0, n / 2, n - 1} {
				for _, j := range []int{0, n / 2, n - 1} {
					if i != j {
						ps = append(ps, prog{b.start, [][]sop{{b.op}, {single(k, i, 0), single(k, j, 1)}}})
					}
				}
			}
		}
		for _, c := range bulks {
			if b.start == c.start {
				ps = append(ps, prog{b.start, [][]sop{{b.op}, {c.op}}})
			}
		}
	}
	for _, p := range ps {
		for _, t := range append(p.ts, starts[p.start]) {
			for _, o := range t {
				storeOpByName[o.String()] = o
			}
		}
	}
	for i, p := range ps {
		if i%parts == part && r.Viol == nil {
			r.concStoreOf(fmt.Sprintf("large/%s/%d: %s: %v", kindName(dir), n, p.start, p.ts), dir, starts[p.start], vs.Config{Bound: 2}, p.ts, true)
		}
	}
}

// storeFaults performs each operation on stores whose graph fails in one call:
// the operation has to return the error, having done what precedes the failure.
func storeFaults(r *R, label string, dir bool, part int) {
	uids := []string{"a", "b", "c"}
	ops := storeOps(uids, true, true)
	for _, b := range [][]string{{"a", "b"}, {"b", "a", "c"}} {
		ops = append(ops, sop{kind: "get", attrs: "-", uids: b[:1]}, sop{kind: "get", bulk: true, attrs: "-", uids: b})
	}
	add := sop{kind: "add", bulk: true, attrs: "-", ents: []espec{{"a", "Ta", "k=a", 0}, {"b", "Tb", "-", 1}, {"c", "Tc", "x=1", 2}}}
	starts := [][]sop{nil, {add}, {add, {kind: "link", bulk: true, attrs: "l=0", from: "a", uids: []string{"b", "c"}}, {kind: "link", attrs: "-", from: "c", uids: []string{"b"}}}, {{kind: "add", attrs: "-", ents: add.ents[1:2]}}}
	kinds := map[string][]string{"add": {"NewNode", "AddNode"}, "del": {"RemoveNode"}, "link": {"Link"}, "unlink": {"Unlink"}, "get": {"Node"}}
	errs := append([]error{errors.New("the graph failed")}, oddErrors()...)
	const max = 4
	bases := []int{2, max, len(starts), len(errs), len(ops)}
	mk := func(i int) (sop, []sop, string, int, error) {
		d := mixed(i*2+part, bases...)
		o := ops[d[4]]
		ks := kinds[o.kind]
		if d[0] >= len(ks) || d[3] > 0 && !thorough() && (d[2] != 2 && d[2] != 0 || d[1] > 1) {
			return o, nil, "", 0, nil
		}
		return o, starts[d[2]], ks[d[0]], d[1] + 1, errs[d[3]]
	}
	r.Batch(label, product(bases...)/2, false, func(i int) string {
		o, start, kind, at, err := mk(i)
		return fmt.Sprintf("%v on %v, call %d of %s fails with %v", o, start, at, kind, err)
	}, func(i int) string {
		o, start, kind, at, fault := mk(i)
		if fault == nil {
			return ""
		}
		// run performs o on a new store of which call at fails.
		run := func(at int) (g *faultyGraph, s *ssys, got string, err error) {
			g = &faultyGraph{Graph: newGraph(dir).(gmem.Graph), err: fault}
			st, e := smem.NewStore(smem.WithGraph(g))
			if e != nil {
				panic(e)
			}
			s = &ssys{st: st, m: &smod{dir, map[string]string{}, map[pair]string{}}, uids: uids}
			for _, p := range start {
				if d := s.one(p); d != "" {
					return g, nil, d, nil
				}
			}
			g.kind, g.at = kind, at
			lastErr = &err
			defer func() { lastErr, g.kind, refused = nil, "", false }()
			got = o.do(st, false)
			return g, s, got, err
		}
		g, s, got, err := run(at)
		if s == nil {
			return "before: " + got
		}
		if g.n < at {
			if w := s.m.do(o); w != got {
				return diffOf("without a failure", got, w)
			}
			return s.Check()
		}
		switch {
		case err == nil:
			return fmt.Sprintf("returned %q, the error of its graph is lost", got)
		case sameErr(err, fault):
		case errors.Is(fault, graph.ErrDuplicateNode) && errors.Is(err, store.ErrAlreadyExists):
		case errors.Is(fault, graph.ErrNodeNotFound) && errors.Is(err, store.ErrEntityNotFound):
		default:
			return fmt.Sprintf("returned the error %v instead of %v", err, fault)
		}
		// up to the first failure
		n := len(o.ents) + len(o.uids)
		exact := false
		if at > 1 || n > 1 {
			c, _, cg, _ := run(0)
			exact = c.n == n && (cg == "ok" || o.kind == "get")
		}
		all := ""
		for j := 0; j < at && j < n || j == 0; j++ {
			if exact && j != at-1 && o.kind != "get" {
				continue
			}
			m := s.m.clone()
			p := o
			if o.kind != "get" {
				if p.ents != nil {
					p.ents = p.ents[:j]
				}
				if p.uids != nil {
					p.uids = p.uids[:j]
				}
				m.do(p)
			}
			t := &ssys{st: s.st, m: m, uids: s.uids}
			d := t.Check()
			if d == "" {
				return ""
			}
			all = d
		}
		return "after the failure: " + all
	})
}

// storeScript runs bulk operations on uids, the k-th of which exists already.
func storeScript(dir bool, uids []string, k int, deep bool) string {
	s := newSsys(dir, uids, nil)
	n := len(uids)
	if !deep {
		s.uids = uniq([]string{uids[0], uids[n/2], uids[n-1], uids[k]})
	}
	var es, up []espec
	for i, u := range uids {
		es = append(es, espec{u, "T" + u, fmt.Sprintf("k=%d,z=", i), i % 3})
		up = append(up, espec{u, "N" + u, fmt.Sprintf("k=%d", -i), (i + 1) % 3})
	}
	others := append(append([]string(nil), uids[:k]...), uids[k+1:]...)
	mixed := append(append(append([]string(nil), uids[:k]...), "gone"), uids[k:]...)
	rest := es[k+1:]
	for _, o := range []sop{
		{kind: "add", attrs: "-", ents: es[k : k+1]},
		{kind: "add", bulk: true, attrs: "-", ents: es},
		{kind: "get", bulk: true, attrs: "-", uids: uids},
		{kind: "add", bulk: true, attrs: "-", ents: rest},
		{kind: "get", bulk: true, attrs: "-", uids: uids},
		{kind: "get", bulk: true, attrs: "-", uids: mixed},
		{kind: "link", bulk: true, attrs: "l=1", from: uids[k], uids: others},
		{kind: "unlink", bulk: true, attrs: "-", from: uids[k], uids: uids[:k]},
		{kind: "link", bulk: true, attrs: "l=2", from: uids[k], uids: mixed},
		{kind: "add", bulk: true, attrs: "-", upsert: true, ents: up},
		{kind: "link", bulk: true, attrs: "l=3", from: uids[k], uids: uids},
		{kind: "add", attrs: "o=1", upsert: true, ents: es[k : k+1]},
		{kind: "del", bulk: true, attrs: "-", uids: mixed[:k+1]},
		{kind: "add", bulk: true, attrs: "-", ents: es[:k]},
		{kind: "del", attrs: "-", uids: uids[k : k+1]},
		{kind: "unlink", bulk: true, attrs: "-", from: uids[k], uids: uids},
		{kind: "add", attrs: "-", ents: es[k : k+1]},
		{kind: "link", bulk: true, attrs: "l=4", from: uids[k], uids: others},
		{kind: "del", attrs: "-", uids: uids[k : k+1]},
		{kind: "get", bulk: true, attrs: "-", uids: others},
		{kind: "del", bulk: true, attrs: "-", uids: uids},
	} {
		if d := s.one(o); d != "" {
			return d
		}
		if d := s.Check(); d != "" {
			return d
		}
	}
	return ""
}

// storeFamilies runs bulk operations on many entities.
func storeFamilies(r *R, label string, dir, desc bool) {
	for n := 1; n <= pick(16, 48); n += 1 + n/6 {
		uids := sized(n).names
		for k := 0; k < n; k++ {
			k := k
			// the k-th entity exists already
			if !r.Each(fmt.Sprintf("%s/bulk %d, %d", label, n, k), desc, func() string { return storeScript(dir, uids, k, true) }) {
				return
			}
		}
	}
	names := nameSets(9)
	r.Batch(label+"/names", 2*len(names), desc, func(i int) string { return names[i/2].name }, func(i int) string {
		us := names[i/2].names
		return storeScript(dir, us, i%2*len(us)/2, true)
	})
	ns := sizes(pick(260, 1100))
	r.Batch(label+"/sizes", 3*len(ns), desc, func(i int) string { return fmt.Sprint(ns[i/3], i%3) }, func(i int) string {
		n := ns[i/3]
		return storeScript(dir, sized(n).names, i%3*(n-1)/2, false)
	})
	// stores made with options
	r.Each(label+"/options", desc, func() string {
		g := newGraph(dir)
		st, err := smem.NewStore(smem.WithGraph(g), smem.WithUID(suid("mine")))
		if err != nil {
			return err.Error()
		}
		h, err := st.Graph()
		if err != nil || h != graph.Graph(g) {
			return fmt.Sprintf("graph handle is not the graph given: %v", err)
		}
		if st.UID().String() != "mine" {
			return "UID is not the one given"
		}
		st1, st2 := newStore(dir), newStore(dir)
		if st1.UID().String() == st2.UID().String() || st1.UID().String() == "" {
			return "two stores share a UID"
		}
		// entities of one store are not in another
		if err := st1.Add(bg, espec{"a", "t", "-", 0}.make(false)); err != nil {
			return err.Error()
		}
		if _, err := st2.Get(bg, uid("a")); !errors.Is(err, store.ErrEntityNotFound) {
			return "two stores share entities"
		}
		return ""
	})
}

// smodL makes smod a Model.
type smodL struct{ *smod }

func (m smodL) Apply(op Op, res string) []Model {
	if op.Name == "final" {
		if res != m.all() {
			return nil
		}
		return []Model{m}
	}
	n := m.clone()
	if n.do(storeOpByName[op.Name]) != res {
		return nil
	}
	return []Model{smodL{n}}
}

var storeOpByName = map[string]sop{}

func (r *R) concStore(label string, dir bool, start []sop, cfg vs.Config, threads [][]sop) {
	r.concStoreOf(label, dir, start, cfg, threads, false)
}

// concStoreOf is concStore with a choice of a graph whose operations are not interrupted.
func (r *R) concStoreOf(label string, dir bool, start []sop, cfg vs.Config, threads [][]sop, whole bool) {
	var m *smod
	scope := fmt.Sprintf("%v %v %v", dir, start, threads)
	r.Sched(label, cfg, func(h *H) {
		vs.Explore(false)
		m = &smod{dir, map[string]string{}, map[pair]string{}}
		st := newStore(dir)
		g := &wholeGraph{}
		if whole {
			var err error
			g.Graph = newGraph(dir)
			if st, err = smem.NewStore(smem.WithGraph(g)); err != nil {
				panic(err)
			}
		}
		for _, o := range start {
			if a, b := o.do(st, true), m.do(o); a != b {
				panic(o.String() + ": " + a + ", want " + b)
			}
		}
		for i, ops := range threads {
			ops, t := ops, h.T(i)
			vs.Thread(fmt.Sprintf("T%d", i), func() {
				for _, o := range ops {
					t.Do(Op{o.String(), nil}, func() string { return o.do(st, true) })
				}
			})
		}
		fin := h.T(len(threads))
		g.on = true
		vs.Explore(true)
		vs.Join()
		vs.Explore(false)
		g.on = false
		fin.Do(Op{"final", nil}, func() string { return storeAll(st, dir) })
		for _, u := range []string{"a", "b", "c"} {
			o := sop{kind: "get", attrs: "-", uids: []string{u}}
			fin.Do(Op{o.String(), nil}, func() string { return o.do(st, true) })
		}
		if err := st.Delete(bg, uid("absent")); err != nil {
			fin.Errf("Delete of an absent entity: %v", err)
		}
	}, func(h *H) string { return r.Lin(scope, smodL{m}, h) })
}

func storeConcUnits() []Unit {
	ent := func(u, k string) espec { return espec{u, u + k, "l=" + u + k, 1} }
	one := func(kind, from string, u ...string) sop { return sop{kind: kind, attrs: "-", from: from, uids: u} }
	bulk := func(kind, from string, u ...string) sop {
		return sop{kind: kind, bulk: true, attrs: "-", from: from, uids: u}
	}
	attr := func(o sop, a string) sop { o.attrs = a; return o }
	adds := func(up, bulk bool, es ...espec) sop {
		return sop{kind: "add", bulk: bulk, upsert: up, attrs: "-", ents: es}
	}
	full := []sop{
		adds(false, false, ent("a", "1")), adds(false, false, ent("a", "2")), adds(true, false, ent("a", "3")), adds(false, false, ent("b", "1")),
		one("get", "", "a"), one("del", "", "a"), one("del", "", "b"),
		attr(one("link", "a", "b"), "e=1"), attr(one("link", "b", "a"), "e=2"), one("unlink", "a", "b"),
		adds(false, true, ent("a", "4"), ent("b", "4")), adds(false, true, ent("b", "5"), ent("a", "5")),
		adds(true, true, ent("a", "6"), ent("b", "6")), adds(true, true, ent("b", "7"), ent("a", "7")),
		bulk("get", "", "a", "b"), bulk("get", "", "b", "a", "b"),
		bulk("del", "", "a", "b"), bulk("del", "", "b", "a"),
		attr(bulk("link", "a", "b", "c"), "e=3"), attr(bulk("link", "a", "c", "b"), "e=4"), bulk("unlink", "a", "b", "c"), bulk("unlink", "a", "c", "b"),
	}
	mid := []sop{full[0], full[2], full[4], full[5], full[7], full[10], full[12], full[13], full[14], full[16], full[18], full[20]}
	small := []sop{full[0], full[2], full[5], full[7], full[12], full[14], full[16], full[18]}
	all3 := adds(false, true, ent("a", "0"), ent("b", "0"), ent("c", "0"))
	getB, linkCA, delC := one("get", "", "b"), attr(one("link", "c", "a"), "e=5"), one("del", "", "c")
	// what a bulk operation and a thread of two others can see of each other
	halves := append(full[:len(full):len(full)], getB, linkCA, delC)
	var sees [][][]int
	looks := []int{4, len(full), 14, 5, 6, 7, 8, 9, 0}
	for i, o := range full {
		if !o.bulk {
			continue
		}
		for _, a := range looks {
			for _, b := range looks {
				if a != b && (a == 4 || a == len(full) || a == 14 || b == 4 || b == len(full) || b == 14) {
					sees = append(sees, [][]int{{i}, {a, b}})
				}
			}
		}
	}
	for _, o := range append(halves, all3) {
		storeOpByName[o.String()] = o
	}
	for _, u := range []string{"a", "b", "c"} {
		o := one("get", "", u)
		storeOpByName[o.String()] = o
	}
	starts := map[string][]sop{
		"empty":       nil,
		"a":           {adds(false, false, ent("a", "0"))},
		"a b c":       {all3},
		"a-b a-c b-c": {all3, attr(bulk("link", "a", "b", "c"), "e=0"), one("link", "b", "c")},
	}
	for _, s := range starts {
		for _, o := range s {
			storeOpByName[o.String()] = o
		}
	}
	type fam struct {
		name            string
		ops             []sop
		threads, length int
		bound           int
		starts          []string
		progs           [][][]int // instead of all of them
	}
	s4 := []string{"empty", "a", "a b c", "a-b a-c b-c"}
	var fams []fam
	switch {
	case raceMode() && thorough():
		fams = []fam{{"pairs", full, 2, 1, 3, s4, nil}, {"triples", mid, 3, 1, 1, s4[1:], nil}, {"two each", small, 2, 2, 1, s4[2:3], nil}}
	case raceMode():
		fams = []fam{{"pairs", full, 2, 1, 1, s4, nil}}
	case thorough():
		fams = []fam{{"pairs", full, 2, 1, 8, s4, nil}, {"triples", full, 3, 1, 2, s4, nil}, {"two each", mid, 2, 2, 2, s4, nil}, {"three each", small[:5], 2, 3, 1, s4[1:3], nil}, {"four", mid, 4, 1, 1, s4[1:3], nil}, {"halves", halves, 0, 0, 3, s4, sees}}
	default:
		fams = []fam{{"pairs", full, 2, 1, 4, s4, nil}, {"triples", mid, 3, 1, 2, s4[1:], nil}, {"two each", small, 2, 2, 1, s4[1:3], nil}, {"halves", halves, 0, 0, 2, s4, sees}}
	}
	var us []Unit
	for _, f := range fams {
		for _, dir := range []bool{false, true} {
			if dir && f.name != "pairs" {
				continue
			}
			for _, sn := range f.starts {
				ps := f.progs
				if ps == nil {
					ps = programs(len(f.ops), f.threads, f.length)
				}
				const parts = 4
				for p := 0; p < parts; p++ {
					f, dir, sn, p := f, dir, sn, p
					name := fmt.Sprintf("%s/%s/%s/%d", f.name, kindName(dir), sn, p)
					us = append(us, Unit{Name: name, Race: true, Run: func(r *R) {
						for i, prog := range ps {
							if i%parts != p {
								continue
							}
							var ts [][]sop
							for _, seq := range prog {
								var t []sop
								for _, k := range seq {
									t = append(t, f.ops[k])
								}
								ts = append(ts, t)
							}
							r.concStore(fmt.Sprintf("%s: %v", name, ts), dir, starts[sn], vs.Config{Bound: f.bound, MapDesc: i%2 == 1}, ts)
							if r.Viol != nil {
								return
							}
						}
					}})
				}
			}
		}
	}
	for p := 0; p < 4 && !raceMode(); p++ {
		p := p
		us = append(us, Unit{Name: fmt.Sprintf("large/%d", p), Run: func(r *R) {
			storeLarge(r, p%2 == 1, reach(pick(300, 1100), 1100, "store/memory", "graph/memory"), p/2, 2)
		}})
	}
	return us
}
