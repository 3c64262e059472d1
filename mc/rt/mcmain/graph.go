//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

func init() {
	checks["C01"] = func() []Unit { return graphUnits("C01") }
	checks["C02"] = func() []Unit { return graphUnits("C02") }
}

// dotGraph is what both kinds of in-memory graphs offer.
type anyGraph interface {
	gmem.Graph
	DOT() (string, error)
	DOTID() string
}

func newGraph(dir bool, opts ...graph.Option) anyGraph {
	var g anyGraph
	var err error
	if dir {
		g, err = gmem.NewWDG(opts...)
	} else {
		g, err = gmem.NewWUG(opts...)
	}
	if err != nil {
		panic(err)
	}
	return g
}

func newEntity(u uuid.UID, opts ...entity.Option) *entity.Entity {
	e, err := entity.New("t", append([]entity.Option{entity.WithUID(u)}, opts...)...)
	if err != nil {
		panic(err)
	}
	return e
}

type gedge struct {
	from, to string // as linked
	uid      string
	weight   float64
	attrs    string
}

func (e *gedge) String() string {
	return fmt.Sprintf("%s->%s(%q,%s,%s)", e.from, e.to, e.uid, bits(e.weight), e.attrs)
}

type pair [2]string

// gsys is an in-memory graph and what it should contain.
type gsys struct {
	dir     bool
	g       anyGraph
	uids    []string
	nodes   map[string]*gmem.Node
	edges   map[pair]*gedge
	looks   map[string]string // of the nodes, when they were added
	created map[int64]string
	held    map[string]*gmem.Node
	ops     []gop
	weight0 float64
	ended   bool // subgraphs are taken with a context that has ended
	subs    []keptSub
	kn, ke  kept   // lists of nodes and of edges
	lastOp  string // "C01" after an operation on nodes, "C02" after one on edges
}

type gop struct {
	name string
	do   func(s *gsys) (string, bool)
}

func newGsys(dir bool, uids []string, ops []gop, opts ...graph.Option) *gsys {
	return &gsys{dir: dir, g: newGraph(dir, opts...), uids: uids, nodes: map[string]*gmem.Node{}, edges: map[pair]*gedge{},
		looks: map[string]string{}, created: map[int64]string{}, held: map[string]*gmem.Node{}, ops: ops}
}

func (s *gsys) key(u, v string) pair {
	if !s.dir && u > v {
		return pair{v, u}
	}
	return pair{u, v}
}

func (s *gsys) Do(op int) (string, bool) { return s.ops[op].do(s) }

func (s *gsys) State() string { return Canon(s.g, s.nodes, s.edges, s.held, s.created) }

// newNode creates a node for u with the graph.
func (s *gsys) newNode(u string) (*gmem.Node, string) {
	s.lastOp = "C01"
	var opts []graph.Option
	k := len(s.created) % 3
	if s.nodes[u] != nil {
		k = 3
	}
	if k&1 != 0 {
		opts = append(opts, graph.WithDOTID("dot "+u))
	}
	if k&2 != 0 {
		opts = append(opts, graph.WithAttrs(mkAttrs("of", "option "+u)), graph.WithWeight(3), graph.WithUID(uid("other")))
	}
	n, err := s.g.NewNode(bg, newEntity(uid(u), entity.WithAttrs(mkAttrs("of", "entity "+u))), opts...)
	if err != nil {
		return nil, "C01: NewNode: " + err.Error()
	}
	gn, ok := n.(*gmem.Node)
	if !ok || gn == nil {
		return nil, fmt.Sprintf("C01: NewNode returned %T", n)
	}
	if old, ok := s.nodes[u]; ok {
		if gn != old {
			return nil, fmt.Sprintf("C01: NewNode(%q) did not return the stored node", u)
		}
		return gn, ""
	}
	if gn.UID().String() != u {
		return nil, fmt.Sprintf("C01: NewNode(%q) has UID %q", u, gn.UID())
	}
	for v, m := range s.nodes {
		if m.ID() == gn.ID() {
			return nil, fmt.Sprintf("C01: NewNode(%q) has ID %d, which node %q of the graph has", u, gn.ID(), v)
		}
	}
	if v, ok := s.created[gn.ID()]; ok {
		return nil, fmt.Sprintf("C01: NewNode(%q) has ID %d, which the node created for %q has", u, gn.ID(), v)
	}
	s.created[gn.ID()] = u
	dot, as := u, "entity "+u
	if k&1 != 0 {
		dot = "dot " + u
	}
	if k&2 != 0 {
		as = "option " + u
	}
	if d := diffOf(fmt.Sprintf("C01: NewNode(%q)", u), look(gn), fmt.Sprintf("%d %q t %q of=%q", gn.ID(), u, dot, as)); d != "" {
		return nil, d
	}
	return gn, ""
}

// look is what a node reports.
func look(n *gmem.Node) string {
	a, err := n.Attrs().Get(bg, "of")
	if err != nil {
		a = err.Error()
	}
	return fmt.Sprintf("%d %q %s %q of=%q", n.ID(), n.UID().String(), n.Type(), n.DOTID(), a)
}

// conflict reports whether another node has the ID of n.
func (s *gsys) conflict(u string, n *gmem.Node) bool {
	for v, m := range s.nodes {
		if v != u && m.ID() == n.ID() {
			return true
		}
	}
	return false
}

// addNode adds n, which has UID u.
func (s *gsys) addNode(u string, n *gmem.Node, upsert bool) string {
	s.lastOp = "C01"
	var err error
	var opts []graph.Option
	if upsert {
		opts = append(opts, graph.WithUpsert())
	}
	lk := look(n)
	p, panicked := try(func() { err = s.g.AddNode(bg, n, opts...) })
	_, present := s.nodes[u]
	switch {
	case present && !upsert:
		if panicked || !errors.Is(err, graph.ErrDuplicateNode) {
			return fmt.Sprintf("C01: AddNode(%q) of a present UID: %v %v", u, err, p)
		}
	case s.conflict(u, n):
		if !panicked {
			return fmt.Sprintf("C01: AddNode(%q) with the ID of another node did not panic (%v)", u, err)
		}
	default:
		if panicked || err != nil {
			return fmt.Sprintf("C01: AddNode(%q): %v %v", u, err, p)
		}
		s.nodes[u], s.looks[u] = n, lk
	}
	return ""
}

func (s *gsys) add(u string) string {
	n, d := s.newNode(u)
	if d != "" {
		return d
	}
	return s.addNode(u, n, false)
}

func mkNode(u string, id int64) *gmem.Node {
	n, err := gmem.NewNode(id, newEntity(suid(u)))
	if err != nil {
		panic(err)
	}
	return n
}

func (s *gsys) remove(u string) string {
	if s.lastOp = ""; s.nodes[u] == nil {
		s.lastOp = "C01"
	}
	var err error
	if p, bad := try(func() { err = s.g.RemoveNode(bg, suid(u)) }); bad || err != nil {
		return fmt.Sprintf("C01: RemoveNode(%q): %v %v", u, err, p)
	}
	delete(s.nodes, u)
	for k, e := range s.edges {
		if e.from == u || e.to == u {
			delete(s.edges, k)
		}
	}
	return ""
}

// linkOpts returns options number n and what they say.
func linkOpts(u, v string, n int) ([]graph.Option, *gedge) {
	e := &gedge{from: u, to: v}
	switch n % 5 {
	case 0:
		e.uid, e.weight, e.attrs = "E"+u+v, 1.5, attrStr(mkAttrs("k", u+v))
		return []graph.Option{graph.WithUID(suid(e.uid)), graph.WithWeight(1.5), graph.WithAttrs(mkAttrs("k", u+v))}, e
	case 1:
		return nil, e
	case 2:
		e.uid, e.weight = "D"+u+v, -2
		return []graph.Option{graph.WithDOTID(e.uid), graph.WithWeight(-2)}, e
	case 3:
		e.weight, e.attrs = math.Inf(1), attrStr(mkAttrs("x", "1", "y", ""))
		return []graph.Option{graph.WithAttrs(mkAttrs("x", "1", "y", "")), graph.WithWeight(math.Inf(1))}, e
	}
	e.uid, e.weight, e.attrs = "X"+v+u, 9, attrStr(mkAttrs("z", "9"))
	return []graph.Option{graph.WithUID(uid(e.uid)), graph.WithWeight(9), graph.WithAttrs(mkAttrs("z", "9"))}, e
}

func (s *gsys) link(u, v string, n int) string {
	s.lastOp = "C02"
	if s.edges[s.key(u, v)] != nil {
		n = 4
	}
	opts, want := linkOpts(u, v, n)
	return s.linkWith(u, v, opts, want)
}

// linkWith links u and v with options which make the edge want, unless there is one.
func (s *gsys) linkWith(u, v string, opts []graph.Option, want *gedge) string {
	s.lastOp = "C02"
	k := s.key(u, v)
	old := s.edges[k]
	if want.weight == 0 && s.weight0 != 0 {
		want.weight = s.weight0
	}
	var e graph.Edge
	var err error
	if p, bad := try(func() { e, err = s.g.Link(bg, uid(u), suid(v), opts...) }); bad {
		return fmt.Sprintf("C02: Link(%q,%q) panicked: %v", u, v, p)
	}
	if s.nodes[u] == nil || s.nodes[v] == nil {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Sprintf("C02: Link(%q,%q) with an absent node: %v", u, v, err)
		}
		return ""
	}
	if u == v {
		if err == nil {
			return fmt.Sprintf("C02: Link(%q,%q) of a node to itself succeeded", u, v)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("C02: Link(%q,%q): %v", u, v, err)
	}
	if old != nil {
		return s.edgeDiff(fmt.Sprintf("Link(%q,%q) of a linked pair", u, v), e, old, u, v)
	}
	if e == nil {
		return fmt.Sprintf("C02: Link(%q,%q) returned no edge", u, v)
	}
	if want.uid == "" {
		want.uid = e.UID().String()
		for _, o := range s.edges {
			if o.uid == want.uid {
				return fmt.Sprintf("C02: Link(%q,%q) has the UID of another edge", u, v)
			}
		}
	}
	s.edges[k] = want
	return s.edgeDiff(fmt.Sprintf("Link(%q,%q)", u, v), e, want, u, v)
}

// edgeDiff compares an edge with what it should be, seen from u to v ("" for either orientation).
func (s *gsys) edgeDiff(what string, e graph.Edge, want *gedge, u, v string) string {
	if e == nil {
		return "C02: " + what + ": no edge"
	}
	f, err := e.FromNode()
	if err != nil || f == nil {
		return fmt.Sprintf("C02: %s: FromNode: %v %v", what, f, err)
	}
	t, err := e.ToNode()
	if err != nil || t == nil {
		return fmt.Sprintf("C02: %s: ToNode: %v %v", what, t, err)
	}
	fu, tu := f.UID().String(), t.UID().String()
	if u == "" && v == "" && want != nil {
		if !(fu == want.from && tu == want.to) && (s.dir || !(fu == want.to && tu == want.from)) {
			return fmt.Sprintf("C02: %s: edge from %q to %q, want %v", what, fu, tu, want)
		}
	} else if fu != u || tu != v {
		return fmt.Sprintf("C02: %s: edge from %q to %q", what, fu, tu)
	}
	if s.nodes[fu] == nil || s.nodes[tu] == nil {
		return fmt.Sprintf("C02: %s: edge from %q to %q with an absent end", what, fu, tu)
	}
	if f != graph.Node(s.nodes[fu]) || t != graph.Node(s.nodes[tu]) {
		return fmt.Sprintf("C0*: %s: an end of the edge from %q to %q is not the node of the graph", what, fu, tu)
	}
	got := gedge{from: want.from, to: want.to, uid: e.UID().String(), weight: e.Weight(), attrs: attrStr(e.Attrs())}
	if got.String() != want.String() {
		return fmt.Sprintf("C02: %s: got %v, want %v", what, &got, want)
	}
	return ""
}

func (s *gsys) unlink(u, v string) string {
	s.lastOp = "C02"
	var err error
	if p, bad := try(func() { err = s.g.Unlink(bg, suid(u), uid(v)) }); bad || err != nil {
		return fmt.Sprintf("C02: Unlink(%q,%q): %v %v", u, v, err, p)
	}
	delete(s.edges, s.key(u, v))
	return ""
}

// strangeNode is a node of a foreign type.
type strangeNode struct{ *entity.Entity }

// wrappedNode is a foreign type with the methods of *gmem.Node.
type wrappedNode struct{ *gmem.Node }

func (s *gsys) foreign(u string, how int) string {
	s.lastOp = "C01"
	var n graph.Node
	switch how {
	case 0:
		n = strangeNode{newEntity(uid(u))}
	case 1:
		n = &wrappedNode{mkNode(u, 77)}
	case 2:
		n = wrappedNode{mkNode(u, 77)}
	case 3:
		n = *mkNode(u, 77)
	}
	for _, opts := range [][]graph.Option{nil, {graph.WithUpsert()}} {
		var err error
		if p, bad := try(func() { err = s.g.AddNode(bg, n, opts...) }); bad || !errors.Is(err, graph.ErrInvalidNode) {
			return fmt.Sprintf("C01: AddNode of a %T: %v %v", n, err, p)
		}
	}
	return ""
}

func (s *gsys) Check() string { return s.check(s.uids, true) }

// check compares all observations; pairs are looked up for all uids if deep.
func (s *gsys) check(uids []string, deep bool) (d string) {
	var nodes, edges string // differences of both kinds
	if p, bad := try(func() { s.observe(uids, deep, &nodes, &edges) }); bad && nodes == "" && edges == "" {
		return fmt.Sprintf("C0*: a query panicked: %v", p)
	}
	switch {
	case nodes == "":
		d = edges
	case edges == "":
		d = nodes
	default:
		return "C0*: " + nodes + "; " + edges
	}
	// what an operation on nodes does to edges matters to both, and the other way round
	if s.lastOp != "" && len(d) > 4 && d[:3] != s.lastOp {
		d = "C0*" + d[3:]
	}
	return d
}

// observe finds the first difference in nodes and the first one in edges.
func (s *gsys) observe(uids []string, deep bool, nodes, edges *string) {
	note := func(d string) {
		switch {
		case d == "":
		case d[:3] == "C0*":
			if *nodes == "" {
				*nodes = d
			}
			if *edges == "" {
				*edges = d
			}
		case d[:3] == "C01" && *nodes == "":
			*nodes = d
		case d[:3] != "C01" && *edges == "":
			*edges = d
		}
	}
	if d := s.kn.check(); d != "" {
		note("C01: " + d)
	}
	if d := s.ke.check(); d != "" {
		note("C02: " + d)
	}
	ns, err := s.g.Nodes(bg)
	if err != nil {
		note("C01: Nodes: " + err.Error())
	}
	keep(&s.kn, "Nodes", ns)
	seen := map[string]bool{}
	for _, n := range ns {
		u := n.UID().String()
		if seen[u] {
			note(fmt.Sprintf("C01: Nodes lists %q twice", u))
		}
		seen[u] = true
		if s.nodes[u] == nil {
			note(fmt.Sprintf("C01: Nodes lists %q, which is absent", u))
		}
		if n != graph.Node(s.nodes[u]) {
			note(fmt.Sprintf("C01: Nodes lists another node for %q", u))
		}
	}
	if len(seen) != len(s.nodes) {
		note(fmt.Sprintf("C01: Nodes lists %d of %d nodes", len(seen), len(s.nodes)))
	}
	for _, u := range append(append([]string(nil), uids...), "absent") {
		n, err := s.g.Node(bg, uid(u))
		if w := s.nodes[u]; w == nil {
			if !errors.Is(err, graph.ErrNodeNotFound) {
				note(fmt.Sprintf("C01: Node(%q) of an absent node: %v %v", u, n, err))
			}
		} else if err != nil || n != graph.Node(w) {
			note(fmt.Sprintf("C01: Node(%q): %v %v", u, n, err))
		} else if d := diffOf(fmt.Sprintf("C01: the node %q", u), look(w), s.looks[u]); d != "" {
			note(d)
		}
	}
	// edges
	es, err := s.g.Edges(bg)
	if err != nil {
		note("C02: Edges: " + err.Error())
	}
	keep(&s.ke, "Edges", es)
	got := map[pair]bool{}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		k := s.key(f.UID().String(), t.UID().String())
		if got[k] {
			note(fmt.Sprintf("C02: Edges lists %v twice", k))
			continue
		}
		got[k] = true
		w := s.edges[k]
		if w == nil {
			note(fmt.Sprintf("C02: Edges lists %v, which does not exist", k))
			continue
		}
		if d := s.edgeDiff("Edges", e, w, "", ""); d != "" {
			note(d)
		}
	}
	if len(got) != len(s.edges) {
		note(fmt.Sprintf("C02: Edges lists %d of %d edges", len(got), len(s.edges)))
	}
	all := append(append([]string(nil), uids...), "absent")
	for i, u := range all {
		if s.nodes[u] == nil && !deep {
			continue
		}
		fs, err := s.g.From(bg, suid(u))
		if err != nil && s.nodes[u] != nil {
			note(fmt.Sprintf("C02: From(%q): %v", u, err))
		}
		keep(&s.ke, "From", fs)
		var have []string
		for _, n := range fs {
			v := n.UID().String()
			have = append(have, fmt.Sprintf("%q", v))
			if s.nodes[v] != nil && n != graph.Node(s.nodes[v]) {
				note(fmt.Sprintf("C01: From(%q) shows another node for %q", u, v))
				note(fmt.Sprintf("C02: From(%q) shows another node for %q", u, v))
			}
		}
		var want []string
		for _, e := range s.edges {
			if e.from == u {
				want = append(want, fmt.Sprintf("%q", e.to))
			} else if e.to == u && !s.dir {
				want = append(want, fmt.Sprintf("%q", e.from))
			}
		}
		if d := diffOf(fmt.Sprintf("C02: From(%q)", u), join(have), join(want)); d != "" {
			note(d)
		}
		for j, v := range all {
			if !deep && !(j == i+1 || j == i-1 || j == 0 || i == 0) {
				continue
			}
			e, err := s.g.Edge(bg, uid(u), uid(v))
			w := s.edges[s.key(u, v)]
			switch {
			case s.nodes[u] == nil || s.nodes[v] == nil:
				if !errors.Is(err, graph.ErrNodeNotFound) {
					note(fmt.Sprintf("C02: Edge(%q,%q) with an absent node: %v %v", u, v, e, err))
				}
			case w == nil:
				if !errors.Is(err, graph.ErrEdgeNotExist) {
					note(fmt.Sprintf("C02: Edge(%q,%q) without an edge: %v %v", u, v, e, err))
				}
			case err != nil:
				note(fmt.Sprintf("C02: Edge(%q,%q): %v", u, v, err))
			default:
				if d := s.edgeDiff(fmt.Sprintf("Edge(%q,%q)", u, v), e, w, u, v); d != "" {
					note(d)
				}
			}
		}
	}
	// no query may leave the graph locked
	if err := s.g.RemoveNode(bg, uid("absent")); err != nil {
		note("C01: RemoveNode of an absent node: " + err.Error())
	}
	if err := s.g.Unlink(bg, uid("absent"), uid("absent too")); err != nil {
		note("C02: Unlink of absent nodes: " + err.Error())
	}
}

// graphOps is the alphabet: rich also has held nodes, explicit IDs and foreign nodes.
func graphOps(uids []string, nodes, edges, rich bool) []gop {
	var ops []gop
	op := func(name string, f func(s *gsys) string) {
		ops = append(ops, gop{name, func(s *gsys) (string, bool) { return f(s), true }})
	}
	opIf := func(name string, f func(s *gsys) (string, bool)) { ops = append(ops, gop{name, f}) }
	for i, u := range uids {
		u := u
		op(fmt.Sprintf("add(%q)", u), func(s *gsys) string { return s.add(u) })
		op(fmt.Sprintf("remove(%q)", u), func(s *gsys) string { return s.remove(u) })
		// another node in place of the stored one, with the same ID and with another
		opIf(fmt.Sprintf("upsertSameID(%q)", u), func(s *gsys) (string, bool) {
			if s.nodes[u] == nil {
				return "", false
			}
			return s.addNode(u, mkNode(u, s.nodes[u].ID()), true), true
		})
		if nodes {
			id := int64(1000 + i)
			op(fmt.Sprintf("upsertID(%q,%d)", u, id), func(s *gsys) string { return s.addNode(u, mkNode(u, id), true) })
		}
		if rich {
			op(fmt.Sprintf("new(%q)", u), func(s *gsys) string {
				n, d := s.newNode(u)
				s.held[u] = n
				return d
			})
			for _, up := range []bool{false, true} {
				up := up
				opIf(fmt.Sprintf("addHeld(%q,upsert=%v)", u, up), func(s *gsys) (string, bool) {
					if s.held[u] == nil {
						return "", false
					}
					return s.addNode(u, s.held[u], up), true
				})
			}
			for _, id := range []int64{0, 1} {
				id := id
				op(fmt.Sprintf("addID(%q,%d)", u, id), func(s *gsys) string { return s.addNode(u, mkNode(u, id), false) })
				if i == 0 {
					op(fmt.Sprintf("upsertID(%q,%d)", u, id), func(s *gsys) string { return s.addNode(u, mkNode(u, id), true) })
				}
			}
		}
	}
	for i, u := range uids {
		for j, v := range uids {
			u, v, n := u, v, i*3+j
			if edges || (i == 0 && j != 0) {
				op(fmt.Sprintf("link(%q,%q)", u, v), func(s *gsys) string { return s.link(u, v, n) })
				if i != j {
					op(fmt.Sprintf("unlink(%q,%q)", u, v), func(s *gsys) string { return s.unlink(u, v) })
				}
			}
		}
	}
	if rich {
		for how := 0; how < 4; how++ {
			how := how
			op(fmt.Sprintf("addForeign(%d)", how), func(s *gsys) string { return s.foreign(uids[0], how) })
		}
	}
	op("observe", func(s *gsys) string {
		s.lastOp = ""
		if d := s.check(s.uids, true); d != "" {
			return d
		}
		return s.check(s.uids, true)
	})
	return ops
}

func kindName(dir bool) string {
	if dir {
		return "directed"
	}
	return "undirected"
}

func opNames(ops []gop) []string {
	var n []string
	for _, o := range ops {
		n = append(n, o.name)
	}
	return n
}

func graphUnits(want string) []Unit {
	var us []Unit
	nodes := want == "C01"
	type space struct {
		name       string
		uids       []string
		rich       bool
		depth      int
		prefix     []string
		edges      bool
		desc       bool
		splitFirst bool
	}
	var spaces []space
	ab, abc := []string{"a", "b"}, []string{"a", "b", "c"}
	odd := []string{"", "absent "}
	if nodes {
		spaces = []space{
			{name: "rich2", uids: ab, rich: true, depth: pick(5, 6), splitFirst: true},
			{name: "core3", uids: abc, depth: pick(6, 8)},
			{name: "core3desc", uids: abc, depth: pick(5, 7), desc: true},
			{name: "odd2", uids: odd, rich: true, depth: pick(4, 5)},
			{name: "linked3", uids: abc, depth: pick(4, 5), rich: true, edges: true, prefix: []string{`add("a")`, `add("b")`, `add("c")`, `link("a","b")`}, desc: true},
		}
	} else {
		spaces = []space{
			{name: "core2", uids: ab, edges: true, depth: pick(8, 10)},
			{name: "core3", uids: abc, edges: true, depth: pick(6, 7)},
			{name: "linked3", uids: abc, edges: true, depth: pick(6, 7), prefix: []string{`add("a")`, `add("b")`, `add("c")`}},
			{name: "linked3desc", uids: abc, edges: true, depth: pick(5, 6), desc: true, prefix: []string{`add("a")`, `add("b")`, `add("c")`, `link("a","b")`, `link("b","c")`}},
			{name: "odd2", uids: odd, edges: true, depth: pick(7, 8)},
			{name: "rich2", uids: ab, edges: true, rich: true, depth: pick(4, 5), prefix: []string{`add("a")`, `add("b")`, `link("a","b")`}},
		}
	}
	for _, dir := range []bool{true, false} {
		dir := dir
		ops := graphOps(ab, nodes, true, false)
		names := opNames(ops)
		var pre []int
		for i, n := range names {
			if n == `add("a")` || n == `add("b")` {
				pre = append(pre, i)
			}
		}
		name := kindName(dir) + "/wear"
		us = append(us, Unit{Name: name, Run: func(r *R) {
			r.wear(name, dir, func() Sys { return newGsys(dir, ab, ops) }, names, [][]int{nil, pre}, want)
		}})
	}
	for _, dir := range []bool{true, false} {
		for _, sp := range spaces {
			dir, sp := dir, sp
			ops := graphOps(sp.uids, nodes, sp.edges, sp.rich)
			names := opNames(ops)
			var prefix []int
			for _, p := range sp.prefix {
				for i, n := range names {
					if n == p {
						prefix = append(prefix, i)
					}
				}
			}
			if len(prefix) != len(sp.prefix) {
				panic("prefix of " + sp.name)
			}
			spec := SeqSpec{Ops: names, Depth: sp.depth + len(prefix), Prefix: prefix, Desc: sp.desc, Want: want,
				New: func() Sys { return newGsys(dir, sp.uids, ops) }}
			base := kindName(dir) + "/" + sp.name
			if !sp.splitFirst {
				spec.Label = base
				us = append(us, Unit{Name: base, Run: func(r *R) { r.BFS(spec) }})
				continue
			}
			for i := range names {
				spec := spec
				spec.Prefix = append(append([]int(nil), prefix...), i)
				spec.Label = base + "/" + names[i]
				us = append(us, Unit{Name: spec.Label, Run: func(r *R) { r.BFS(spec) }})
			}
		}
		dir := dir
		if !nodes {
			us = append(us, Unit{Name: kindName(dir) + "/options", Run: func(r *R) { graphEdgeOptions(r, dir) }})
		}
		for _, desc := range []bool{false, true} {
			desc := desc
			name := fmt.Sprintf("%s/families/desc=%v", kindName(dir), desc)
			us = append(us, Unit{Name: name, Run: func(r *R) { graphFamilies(r, name, dir, desc, want) }})
		}
	}
	sort.SliceStable(us, func(i, j int) bool { return false })
	return us
}

// edgeWith are options that make an edge with the UID, weight and one
// attribute, and what they say.
func edgeWith(u, v, uidv string, dotid bool, w float64, key, val string) ([]graph.Option, *gedge) {
	e := &gedge{from: u, to: v, uid: uidv, weight: w, attrs: attrStr(mkAttrs(key, val))}
	opts := []graph.Option{graph.WithWeight(w), graph.WithAttrs(mkAttrs(key, val))}
	if dotid {
		opts = append(opts, graph.WithDOTID(uidv))
	} else {
		opts = append(opts, graph.WithUID(suid(uidv)))
	}
	return opts, e
}

// graphEdgeOptions links nodes with all pairs of weights, and with all pairs of special strings.
func graphEdgeOptions(r *R, dir bool) {
	ws := weights()
	ss := specials()
	life := func(o1, o2 func(u, v string) ([]graph.Option, *gedge)) string {
		s := newGsys(dir, []string{"a", "b", "c"}, nil)
		for _, u := range s.uids {
			if d := s.add(u); d != "" {
				return d
			}
		}
		link := func(u, v string, f func(u, v string) ([]graph.Option, *gedge)) func() string {
			return func() string { o, e := f(u, v); return s.linkWith(u, v, o, e) }
		}
		for _, f := range []func() string{
			link("a", "b", o1), link("a", "b", o2), link("b", "c", o2), link("b", "a", o2),
			func() string { return s.addNode("a", mkNode("a", 77), true) },
			func() string { return s.check(s.uids, true) },
			func() string { return s.unlink("a", "b") },
			link("b", "a", o1), link("a", "b", o2),
			func() string { return s.addNode("b", mkNode("b", s.nodes["b"].ID()), true) },
			func() string { return s.check(s.uids, true) },
		} {
			if d := f(); d != "" {
				if foreign(d, "C02") {
					return ""
				}
				return d
			}
		}
		return ""
	}
	name := kindName(dir) + "/options"
	r.Batch(name+"/weights", len(ws)*len(ws), false, func(i int) string { return fmt.Sprintf("edges with weights %v and %v", ws[i%len(ws)], ws[i/len(ws)]) }, func(i int) string {
		w1, w2 := ws[i%len(ws)], ws[i/len(ws)]
		with := func(tag string, w float64) func(u, v string) ([]graph.Option, *gedge) {
			return func(u, v string) ([]graph.Option, *gedge) { return edgeWith(u, v, tag+u+v, w == 1, w, "k", tag) }
		}
		return life(with("one", w1), with("two", w2))
	})
	r.Batch(name+"/strings", 3*len(ss), false, func(i int) string { return fmt.Sprintf("edges with %q, %d", ss[i/3], i%3) }, func(i int) string {
		x, y := ss[i/3], ss[(i/3+1)%len(ss)]
		with := func(x, y string) func(u, v string) ([]graph.Option, *gedge) {
			return func(u, v string) ([]graph.Option, *gedge) {
				switch i % 3 {
				case 0:
					return edgeWith(u, v, "uid"+u+v+y, true, 2, x, y)
				case 1:
					return edgeWith(u, v, "uid"+v+x, false, 3, "k"+u, x)
				}
				if x == "" {
					x = "x"
				}
				return edgeWith(u, v, x, y == "k", 4, "k", v)
			}
		}
		return life(with(x, y), with(y, x))
	})
	ks := dictStrings(pick(60, 150))
	r.Batch(name+"/attributes", 2*len(ks), false, func(i int) string { return fmt.Sprintf("edges with attribute %q, %d", ks[i/2], i%2) }, func(i int) string {
		v := []string{"7", "true"}[i%2]
		with := func(tag string) func(u, v string) ([]graph.Option, *gedge) {
			return func(u, v2 string) ([]graph.Option, *gedge) { return edgeWith(u, v2, tag+u+v2, false, 3, ks[i/2], v) }
		}
		return life(with("one"), with("two"))
	})
}

// graphFamilies runs long histories on larger graphs.
func graphFamilies(r *R, label string, dir, desc bool, want string) {
	max := pick(24, 64)
	each := func(name string, f func() string) bool {
		return r.Each(label+"/"+name, desc, func() string {
			d := f()
			if foreign(d, want) {
				return ""
			}
			return d
		})
	}
	shapes := map[string]func(n int) [][2]int{
		"chain": func(n int) (e [][2]int) {
			for i := 0; i+1 < n; i++ {
				e = append(e, [2]int{i, i + 1})
			}
			return
		},
		"star": func(n int) (e [][2]int) {
			for i := 1; i < n; i++ {
				if i%2 == 0 {
					e = append(e, [2]int{0, i})
				} else {
					e = append(e, [2]int{i, 0})
				}
			}
			return
		},
		"complete": func(n int) (e [][2]int) {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i != j {
						e = append(e, [2]int{i, j})
					}
				}
			}
			return
		},
	}
	var sets []nameSet
	for n := 2; n <= max; n += 1 + n/6 {
		sets = append(sets, sized(n))
	}
	for _, n := range sizes(pick(max, 2*max)) {
		if n > max/2 {
			sets = append(sets, sized(n))
		}
	}
	if !desc {
		sets = append(sets, nameSets(12)...)
	}
	for _, sh := range []string{"chain", "star", "complete"} {
		for _, set := range sets {
			n, uids := len(set.names), set.names
			if sh == "complete" && n > 12 || n < 2 {
				continue
			}
			sh := sh
			label := set.name + " " + sh
			build := func() (*gsys, string) {
				s := newGsys(dir, uids, nil)
				for _, u := range uids {
					if d := s.add(u); d != "" {
						return s, d
					}
				}
				for i, e := range shapes[sh](n) {
					if d := s.link(uids[e[0]], uids[e[1]], i); d != "" {
						return s, d
					}
				}
				return s, s.check(uids, true)
			}
			ok := each(label+" upsert", func() string {
				s, d := build()
				for i := 0; i < n && d == ""; i++ {
					id := s.nodes[uids[i]].ID()
					if i%2 == 1 {
						id = int64(5000 + i)
					}
					if d = s.addNode(uids[i], mkNode(uids[i], id), true); d == "" {
						d = s.check(uids, n < 10)
					}
				}
				// everything is still removable
				for i := n - 1; i >= 0 && d == ""; i-- {
					if d = s.remove(uids[i]); d == "" {
						d = s.check(uids, n < 10)
					}
				}
				return d
			})
			ok = ok && each(label+" remove and add", func() string {
				s, d := build()
				for i := 0; i < n && d == ""; i++ {
					k := (i * 7) % n
					if d = s.remove(uids[k]); d != "" {
						break
					}
					if d = s.check(uids, n < 8); d != "" {
						break
					}
					if d = s.add(uids[k]); d != "" {
						break
					}
					if d = s.link(uids[k], uids[(k+1)%n], i); d != "" {
						break
					}
					d = s.check(uids, n < 8)
				}
				return d
			})
			ok = ok && each(label+" unlink", func() string {
				s, d := build()
				for i, e := range shapes[sh](n) {
					if d != "" {
						break
					}
					u, v := uids[e[0]], uids[e[1]]
					if i%3 == 1 {
						u, v = v, u
					}
					if d = s.unlink(u, v); d == "" && i%4 == 3 {
						d = s.link(u, v, i)
					}
					if d == "" {
						d = s.check(uids, n < 8)
					}
				}
				return d
			})
			// IDs of many created nodes, some of them added, some removed
			ok = ok && each(label+" create", func() string {
				s, d := build()
				for i := 0; i < n && d == ""; i++ {
					u := fmt.Sprintf("c%d", i)
					var nd *gmem.Node
					if nd, d = s.newNode(u); d != "" {
						break
					}
					switch i % 3 {
					case 0:
						d = s.addNode(u, nd, false)
					case 1:
						d = s.addNode("e"+u, mkNode("e"+u, nd.ID()+2), true)
					case 2:
						d = s.remove(uids[i])
					}
				}
				return d
			})
			if !ok {
				return
			}
		}
	}
	// hubs with many neighbours come and go
	for _, n := range sizes(pick(260, 1100)) {
		if n <= max {
			continue
		}
		n, uids := n, sized(n+1).names
		for _, out := range []int{0, 1, 2} {
			out := out
			ok := each(fmt.Sprintf("hub %d.%d", n, out), func() string {
				s := newGsys(dir, uids, nil)
				probe := func() string { return s.check([]string{uids[0], uids[1], uids[n/2], uids[n]}, true) }
				fill := func(add bool) string {
					for i := 1; i <= n; i++ {
						if add {
							if d := s.add(uids[i]); d != "" {
								return d
							}
						}
						u, v := uids[0], uids[i]
						if out == 0 || out == 2 && i%2 == 1 {
							u, v = v, u
						}
						if d := s.link(u, v, i); d != "" {
							return d
						}
						if i == n/2 || i == n-1 {
							if d := probe(); d != "" {
								return d
							}
						}
					}
					return probe()
				}
				steps := []func() string{
					func() string { return s.add(uids[0]) },
					func() string { return fill(true) },
					func() string { return s.remove(uids[0]) },
					probe,
					func() string { return s.add(uids[0]) },
					probe,
					func() string { return s.link(uids[0], uids[n], 0) },
					probe,
					func() string { return fill(false) },
					func() string { return s.addNode(uids[0], mkNode(uids[0], 1<<40), true) },
					probe,
					func() string { return s.addNode(uids[0], mkNode(uids[0], 1<<40), true) },
					probe,
					func() string { return s.unlink(uids[0], uids[1]) },
					func() string { return s.unlink(uids[1], uids[0]) },
					probe,
					func() string { return s.remove(uids[n]) },
					probe,
					func() string { return s.remove(uids[0]) },
					probe,
				}
				for _, f := range steps {
					if d := f(); d != "" {
						return d
					}
				}
				return ""
			})
			if !ok {
				return
			}
		}
	}
	// IDs of all kinds
	ids := []int64{0, 1, 2, 3, 7, 63, 255, 256, 1000, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, math.MaxInt64 - 2, math.MaxInt64 - 1, math.MaxInt64, -1, -2, -3, -1000, -1 << 31, math.MinInt64 + 1, math.MinInt64}
	for _, n := range dict().Ints {
		if n > 3 {
			ids = append(ids, n-1, n, n+1)
		}
	}
	for i, x := range ids {
		for j, y := range ids {
			x, y := x, y
			if !each(fmt.Sprintf("IDs %d and %d", x, y), func() string { return graphIDs(dir, x, y, (i+j)%2 == 0) }) {
				return
			}
		}
	}
	_ = context.Canceled
}

// graphIDs has nodes with the IDs x and y among nodes with IDs of the graph's choice.
func graphIDs(dir bool, x, y int64, early bool) string {
	uids := []string{"a", "b", "c", "d", "e", "f"}
	s := newGsys(dir, uids, nil)
	check := func() string { return s.check(uids, true) }
	created := func(u string) func() string {
		return func() string { _, d := s.newNode(u); return d }
	}
	add := func(u string) func() string { return func() string { return s.add(u) } }
	with := func(u string, id int64, up bool) func() string {
		return func() string { return s.addNode(u, mkNode(u, id), up) }
	}
	link := func(u, v string) func() string { return func() string { return s.link(u, v, 1) } }
	remove := func(u string) func() string { return func() string { return s.remove(u) } }
	steps := []func() string{
		with("a", x, false), created("b"), created("c"), check, with("b", y, false), created("c"), created("d"), add("c"), check,
		link("a", "b"), link("c", "a"), check, with("a", y, true), check, with("a", x, true), check, created("d"), add("d"), created("e"), link("d", "b"),
		remove("a"), check, created("a"), add("e"), created("f"), with("b", x, true), check, created("f"), with("f", y, false), check,
		remove("b"), created("a"), created("b"), check, add("a"), add("b"), check, created("g"), created("h"), created("i"), check,
	}
	if early {
		steps = append([]func() string{created("f"), add("e"), created("d"), remove("e")}, steps...)
	}
	for _, f := range steps {
		if d := f(); d != "" {
			return d
		}
	}
	return ""
}
