//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"math"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() {
	checks["C03"] = subgraphUnits
}

// dist returns the distances from root.
func (s *gsys) dist(root string) map[string]int {
	d := map[string]int{root: 0}
	queue := []string{root}
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		for _, e := range s.edges {
			v := ""
			switch {
			case e.from == u:
				v = e.to
			case e.to == u && !s.dir:
				v = e.from
			default:
				continue
			}
			if _, ok := d[v]; !ok {
				d[v] = d[u] + 1
				queue = append(queue, v)
			}
		}
	}
	return d
}

// keptSub is a subgraph and what it was like.
type keptSub struct {
	sg        graph.Graph
	what, was string
	root      string
}

func subStr(sg graph.Graph) string {
	var l []string
	ns, err := sg.Nodes(bg)
	if err != nil {
		return err.Error()
	}
	for _, n := range ns {
		l = append(l, fmt.Sprintf("%q", n.UID().String()))
	}
	es, err := sg.(graph.Edger).Edges(bg)
	if err != nil {
		return err.Error()
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		l = append(l, fmt.Sprintf("%q>%q %x %s", f.UID().String(), t.UID().String(), bits(e.Weight()), attrStr(e.Attrs())))
	}
	return join(l)
}

// oldSubs checks that earlier subgraphs are as they were, and changes all but
// the last max of them, which is up to their owners.
func (s *gsys) oldSubs(max int) string {
	for _, k := range s.subs {
		if d := diffOf(k.what+" later", subStr(k.sg), k.was); d != "" {
			return d
		}
	}
	for len(s.subs) > max {
		k := s.subs[0]
		s.subs = s.subs[1:]
		if g, ok := k.sg.(interface {
			AddNode(context.Context, graph.Node, ...graph.Option) error
			RemoveNode(context.Context, uuid.UID, ...graph.Option) error
		}); ok {
			if err := g.AddNode(bg, mkNode("added to the subgraph", 1<<40)); err != nil {
				return k.what + ": AddNode: " + err.Error()
			}
			if err := g.RemoveNode(bg, uid(k.root)); err != nil {
				return k.what + ": RemoveNode: " + err.Error()
			}
		}
	}
	return ""
}

// subgraphDiff compares the subgraph for root and depth with what it should be.
func (s *gsys) subgraphDiff(root string, depth int, opts ...graph.Option) string {
	var sg graph.Graph
	var err error
	ctx := bg
	if s.ended {
		var cancel func()
		ctx, cancel = vs.WithCancel(bg)
		cancel()
	}
	if p, bad := try(func() { sg, err = s.g.SubGraph(ctx, uid(root), depth, opts...) }); bad {
		return fmt.Sprintf("C03: SubGraph(%q,%d) panicked: %v", root, depth, p)
	}
	if s.ended && errors.Is(err, context.Canceled) {
		return "" // it may refuse
	}
	if s.nodes[root] == nil {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Sprintf("C03: SubGraph(%q,%d) of an absent root: %v", root, depth, err)
		}
		return ""
	}
	if err != nil || sg == nil {
		return fmt.Sprintf("C03: SubGraph(%q,%d): %v %v", root, depth, sg, err)
	}
	what := fmt.Sprintf("C03: SubGraph(%q,%d)", root, depth)
	in := map[string]bool{}
	var want, have []string
	for u, d := range s.dist(root) {
		if d <= depth {
			in[u] = true
			want = append(want, fmt.Sprintf("%q", u))
		}
	}
	ns, err := sg.Nodes(bg)
	if err != nil {
		return what + ": Nodes: " + err.Error()
	}
	for _, n := range ns {
		u := n.UID().String()
		have = append(have, fmt.Sprintf("%q", u))
		if w := s.nodes[u]; w != nil && attrStr(n.Attrs()) != attrStr(w.Attrs()) {
			return fmt.Sprintf("%s: node %q has attributes %s", what, u, attrStr(n.Attrs()))
		}
	}
	if d := diffOf(what+": nodes", join(have), join(want)); d != "" {
		return d
	}
	es, ok := sg.(graph.Edger)
	if !ok {
		return what + ": no edges"
	}
	edges, err := es.Edges(bg)
	if err != nil {
		return what + ": Edges: " + err.Error()
	}
	expect := map[pair]*gedge{}
	for _, e := range s.edges {
		if in[e.from] && in[e.to] {
			expect[pair{e.from, e.to}] = e
			if !s.dir {
				expect[pair{e.to, e.from}] = e
			}
		}
	}
	seen := map[pair]bool{}
	for _, e := range edges {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		k := pair{f.UID().String(), t.UID().String()}
		w := expect[k]
		if w == nil {
			return fmt.Sprintf("%s: edge %v, which the graph does not have", what, k)
		}
		if seen[k] {
			return fmt.Sprintf("%s: edge %v twice", what, k)
		}
		seen[k] = true
		if bits(e.Weight()) != bits(w.weight) {
			return fmt.Sprintf("%s: edge %v has weight %v, want %v", what, k, e.Weight(), w.weight)
		}
		if attrStr(e.Attrs()) != w.attrs {
			return fmt.Sprintf("%s: edge %v has attributes %s, want %s", what, k, attrStr(e.Attrs()), w.attrs)
		}
	}
	for k := range expect {
		if !seen[k] {
			return fmt.Sprintf("%s: edge %v is missing", what, k)
		}
	}
	for _, u := range s.uids {
		n, err := sg.Node(bg, uid(u))
		if in[u] {
			if err != nil || n.UID().String() != u {
				return fmt.Sprintf("%s: Node(%q): %v %v", what, u, n, err)
			}
		} else if !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Sprintf("%s: Node(%q), which is not in it: %v", what, u, err)
		}
		for _, v := range s.uids {
			e, err := sg.Edge(bg, uid(u), uid(v))
			if w := expect[pair{u, v}]; w == nil {
				if err == nil {
					return fmt.Sprintf("%s: Edge(%q,%q), which the graph does not have", what, u, v)
				}
			} else if err != nil || bits(e.Weight()) != bits(w.weight) || attrStr(e.Attrs()) != w.attrs {
				return fmt.Sprintf("%s: Edge(%q,%q): %v", what, u, v, err)
			}
		}
	}
	if d := s.oldSubs(1); d != "" {
		return d
	}
	defer func() { s.subs = append(s.subs, keptSub{sg, what, subStr(sg), root}) }()
	// the attributes of its edges are its own
	for _, e := range edges {
		if e.Attrs() == nil {
			continue
		}
		if err := e.Attrs().Set(bg, "changed in the subgraph", "1"); err != nil {
			return what + ": " + err.Error()
		}
	}
	if d := s.edgeAttrsDiff(); d != "" {
		return what + " shares attributes with the graph: " + d
	}
	// ... and later changes of the graph do not show in it
	var before []string
	for _, e := range edges {
		before = append(before, attrStr(e.Attrs()))
	}
	for _, we := range s.edges {
		e, err := s.g.Edge(bg, uid(we.from), uid(we.to))
		if err == nil && e.Attrs() != nil {
			_ = e.Attrs().Set(bg, "changed in the graph", "2")
			we.attrs = attrStr(e.Attrs())
		}
	}
	for i, e := range edges {
		if attrStr(e.Attrs()) != before[i] {
			return what + " shares attributes with the graph"
		}
	}
	return ""
}

func (s *gsys) edgeAttrsDiff() string {
	es, err := s.g.Edges(bg)
	if err != nil {
		return err.Error()
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		w := s.edges[s.key(f.UID().String(), t.UID().String())]
		if w != nil && attrStr(e.Attrs()) != w.attrs {
			return fmt.Sprintf("%v has %s", w, attrStr(e.Attrs()))
		}
	}
	return ""
}

// subSys checks subgraphs after each operation.
type subSys struct {
	*gsys
	depth int
}

func (s *subSys) Check() string {
	for d := 0; d <= s.depth; d++ {
		for _, u := range append(append([]string(nil), s.uids...), "absent") {
			if diff := s.subgraphDiff(u, d); diff != "" {
				return diff
			}
		}
	}
	return s.after()
}

// after checks that the graph is as it was.
func (s *gsys) after() string {
	if d := s.oldSubs(1); d != "" {
		return d
	}
	if d := s.check(s.uids, true); d != "" {
		return "C03: the graph changed: " + d
	}
	return ""
}

// subOpts are the options of edge n.
func subOpts(s *gsys, u, v string, n int) string {
	ws := []float64{1.5, 0, -2, math.Inf(1), 3, 1, math.MaxFloat64, 1e-300}
	k := s.key(u, v)
	if s.edges[k] != nil {
		return ""
	}
	e := &gedge{from: u, to: v, weight: ws[n%len(ws)]}
	var a attrs.Attrs
	switch n % 3 {
	case 0:
		a = mkAttrs("k", u+v)
	case 1:
		a = mkAttrs("k", "", "l", v)
	default:
		a = mkAttrs()
	}
	e.attrs = attrStr(a)
	ed, err := s.g.Link(bg, uid(u), uid(v), graph.WithWeight(e.weight), graph.WithAttrs(a))
	if err != nil {
		return "C02: " + err.Error()
	}
	e.uid = ed.UID().String()
	s.edges[k] = e
	return ""
}

func names(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%c%d", 'a'+i%26, i))
	}
	return out
}

// addPlain adds node u with the given ID, or one the graph picks.
func (s *gsys) addPlain(u string, id int64) string {
	var n graph.Node
	var err error
	if id < 0 {
		n, err = s.g.NewNode(bg, newEntity(uid(u)), graph.WithAttrs(mkAttrs("of", u)))
	} else {
		n, err = gmem.NewNode(id, newEntity(uid(u)), graph.WithAttrs(mkAttrs("of", u)))
	}
	if err != nil {
		return "C01: " + err.Error()
	}
	if err := s.g.AddNode(bg, n); err != nil {
		return "C01: " + err.Error()
	}
	s.nodes[u] = n.(*gmem.Node)
	s.looks[u] = look(s.nodes[u])
	return ""
}

// nChanges is the number of changes.
const nChanges = 8

// change changes the graph in way k, mostly so that it has as many nodes and
// edges as before; ok is false if there is nothing to change.
func (s *gsys) change(k int) (d string, ok bool) {
	us := vs.SortedKeys(s.nodes)
	var es []*gedge
	for _, u := range us {
		for _, v := range us {
			if e := s.edges[s.key(u, v)]; e != nil && e.from == u && e.to == v {
				es = append(es, e)
			}
		}
	}
	if len(us) == 0 {
		return "", false
	}
	first, last := us[0], us[len(us)-1]
	relook := func(u string) { s.looks[u] = look(s.nodes[u]) }
	switch k {
	case 0:
		_ = s.nodes[first].Attrs().Set(bg, "of", "changed "+first)
		relook(first)
	case 1:
		s.nodes[last].SetDOTID("changed " + last)
		relook(last)
	case 2: // the attributes of an edge
		if len(es) == 0 {
			return "", false
		}
		we := es[0]
		e, err := s.g.Edge(bg, uid(we.from), uid(we.to))
		if err != nil {
			return "C02: " + err.Error(), true
		}
		_ = e.Attrs().Set(bg, "changed", "1")
		we.attrs = attrStr(e.Attrs())
	case 3: // another node with another ID
		return s.addNode(last, mkNode(last, 5000), true), true
	case 4: // another node with the same ID
		return s.addNode(first, mkNode(first, s.nodes[first].ID()), true), true
	case 5: // another edge instead
		if len(es) == 0 {
			return "", false
		}
		for _, u := range us {
			for _, v := range us {
				if u != v && s.edges[s.key(u, v)] == nil {
					if d := s.unlink(es[0].from, es[0].to); d != "" {
						return d, true
					}
					return s.link(u, v, 0), true
				}
			}
		}
		return "", false
	case 6: // the edge again, with other options
		if len(es) == 0 {
			return "", false
		}
		we := es[len(es)-1]
		if d := s.unlink(we.from, we.to); d != "" {
			return d, true
		}
		return s.link(we.to, we.from, 4), true
	case 7: // another node instead
		if d := s.remove(first); d != "" {
			return d, true
		}
		s.uids = append(s.uids[:len(s.uids):len(s.uids)], "new")
		if d := s.addPlain("new", -1); d != "" {
			return d, true
		}
		for _, u := range us[1:] {
			if d := s.link(u, "new", 3); d != "" {
				return d, true
			}
		}
	}
	return "", true
}

// subgraphOptions takes subgraphs of graphs whose edges have all pairs of
// weights, and special strings as attributes.
func subgraphOptions(r *R) {
	ws, ss := weights(), specials()
	one := func(dir bool, w1, w2 float64, x, y string) string {
		s := newGsys(dir, []string{"a", "b", "c", "d"}, nil)
		for _, u := range s.uids {
			if d := s.addPlain(u, -1); d != "" {
				return ""
			}
		}
		for _, e := range []struct {
			u, v, k, x string
			w          float64
		}{{"a", "b", x, y, w1}, {"b", "c", y, x, w2}, {"b", "a", "k", x, w2}, {"c", "d", "l", y, w1}} {
			o, we := edgeWith(e.u, e.v, "uid"+e.u+e.v, false, e.w, e.k, e.x)
			if d := s.linkWith(e.u, e.v, o, we); d != "" {
				return ""
			}
		}
		for _, root := range s.uids[:2] {
			for depth := 0; depth < 4; depth++ {
				s.ended = false
				if d := s.subgraphDiff(root, depth); d != "" && !foreign(d, "C03") {
					return d
				}
				s.ended = true
				if d := s.subgraphDiff(root, depth); d != "" && !foreign(d, "C03") {
					return "with a context that has ended: " + d
				}
			}
		}
		if d := s.after(); d != "" && !foreign(d, "C03") {
			return d
		}
		return ""
	}
	r.Batch("options/weights", 2*len(ws)*len(ws), false, func(i int) string {
		d := mixed(i, 2, len(ws), len(ws))
		return fmt.Sprintf("%s graph with weights %v and %v", kindName(d[0] == 1), ws[d[1]], ws[d[2]])
	}, func(i int) string {
		d := mixed(i, 2, len(ws), len(ws))
		return one(d[0] == 1, ws[d[1]], ws[d[2]], "k", "v")
	})
	r.Batch("options/strings", 2*len(ss), false, func(i int) string { return fmt.Sprintf("%s graph with attributes %q", kindName(i%2 == 1), ss[i/2]) }, func(i int) string {
		return one(i%2 == 1, 1, 2, ss[i/2], ss[(i/2+1)%len(ss)])
	})
	ks := dictStrings(pick(60, 150))
	r.Batch("options/attributes", 2*len(ks), false, func(i int) string {
		return fmt.Sprintf("%s graph with attribute %q", kindName(i%2 == 1), ks[i/2])
	}, func(i int) string {
		return one(i%2 == 1, 1, 2, ks[i/2], "7")
	})
}

// subgraphFaults takes subgraphs of graphs with edges whose attributes fail:
// edge bad, in its call at.
func subgraphFaults(r *R) {
	shapes := [][]string{{"ab"}, {"ab", "bc", "cd"}, {"ab", "ac", "ad"}, {"ab", "bc", "cd", "da", "ac"}, {"ab", "bc", "ca", "de"}, {"ab", "bc", "cd", "ad", "bd", "ac"}}
	odd := append([]error{errAttrs}, oddErrors()...)
	bases := []int{2, len(shapes), 6, 4, 5, 5, len(odd)}
	mk := func(i int) []int { return mixed(i, bases...) }
	desc := func(i int) string {
		d := mk(i)
		return fmt.Sprintf("%s graph of %v, the attributes of edge %d fail in call %d with %v, subgraph of %c up to %d", kindName(d[0] == 1), shapes[d[1]], d[2], d[3], odd[d[6]], 'a'+d[4], d[5])
	}
	r.Batch("faults", product(bases...), false, desc, func(i int) string {
		d := mk(i)
		dir, es, bad, at, root, depth := d[0] == 1, shapes[d[1]], d[2], d[3], string(rune('a'+d[4])), d[5]
		if bad >= len(es) || d[6] > 0 && (d[1] != 3 || at == 2) {
			return ""
		}
		g := newGraph(dir)
		known := map[string]bool{}
		adj := map[string][]string{}
		n := 0
		for k, e := range es {
			u, v := e[:1], e[1:]
			for _, x := range []string{u, v} {
				if !known[x] {
					known[x] = true
					nn, err := g.NewNode(bg, newEntity(uid(x)))
					if err == nil {
						err = g.AddNode(bg, nn)
					}
					if err != nil {
						return ""
					}
				}
			}
			var a attrs.Attrs = mkAttrs("k", e)
			if k == bad {
				a = failAttrs{keys: []string{"k", "l", "m"}, at: at, n: &n, err: odd[d[6]]}
			}
			if _, err := g.Link(bg, uid(u), uid(v), graph.WithAttrs(a)); err != nil {
				return ""
			}
			adj[u] = append(adj[u], v)
			if !dir {
				adj[v] = append(adj[v], u)
			}
		}
		if !known[root] {
			return ""
		}
		dist := map[string]int{root: 0}
		for q := []string{root}; len(q) > 0; q = q[1:] {
			for _, v := range adj[q[0]] {
				if _, ok := dist[v]; !ok {
					dist[v] = dist[q[0]] + 1
					q = append(q, v)
				}
			}
		}
		in := func(x string) bool { k, ok := dist[x]; return ok && k <= depth }
		sg, err := g.SubGraph(bg, uid(root), depth)
		fails := in(es[bad][:1]) && in(es[bad][1:])
		if fails && err == nil {
			return "the attributes of an edge of the subgraph failed, but SubGraph did not"
		}
		if !fails {
			if err != nil {
				return "SubGraph failed: " + err.Error()
			}
			ns, err := sg.Nodes(bg)
			if err != nil {
				return err.Error()
			}
			want := 0
			for x := range known {
				if in(x) {
					want++
				}
			}
			if len(ns) != want {
				return fmt.Sprintf("the subgraph has %d nodes, want %d", len(ns), want)
			}
		}
		// the graph is as it was and can be changed
		ns, err := g.Nodes(bg)
		if err != nil || len(ns) != len(known) {
			return fmt.Sprintf("the graph has %d nodes after that, want %d (%v)", len(ns), len(known), err)
		}
		ge, err := g.Edges(bg)
		if err != nil || len(ge) != len(es) {
			return fmt.Sprintf("the graph has %d edges after that, want %d (%v)", len(ge), len(es), err)
		}
		if err := g.Unlink(bg, uid(es[bad][:1]), uid(es[bad][1:])); err != nil {
			return err.Error()
		}
		sg, err = g.SubGraph(bg, uid(root), 9)
		if err != nil || sg == nil {
			return fmt.Sprintf("without the failing edge, SubGraph fails: %v", err)
		}
		return ""
	})
}

func subgraphUnits() []Unit {
	var us []Unit
	add := func(name string, f func(r *R)) { us = append(us, Unit{Name: name, Run: f}) }
	run := func(r *R, label string, desc bool, f func() string) bool {
		return r.Each(label, desc, func() string {
			d := f()
			if foreign(d, "C03") {
				return ""
			}
			return d
		}) && !r.expired()
	}
	add("faults", subgraphFaults)
	add("options", subgraphOptions)
	// all graphs of up to max nodes
	for _, dir := range []bool{true, false} {
		max := pick(4, 5)
		if !dir {
			max = pick(5, 6)
		}
		for n := 1; n <= max; n++ {
			var pairs [][2]int
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i < j || dir && i != j {
						pairs = append(pairs, [2]int{i, j})
					}
				}
			}
			for _, desc := range []bool{false, true} {
				parts := 1
				if n >= 4 {
					parts = 8
				}
				if len(pairs) > 14 {
					parts = 64
					if desc {
						continue
					}
				}
				for part := 0; part < parts; part++ {
					dir, n, desc, part, parts := dir, n, desc, part, parts
					name := fmt.Sprintf("all/%s/%d/desc=%v/%d", kindName(dir), n, desc, part)
					us0 := names(n)
					add(name, func(r *R) {
						for g := part; g < 1<<uint(len(pairs)); g += parts {
							g := g
							label := fmt.Sprintf("%s graph %x", name, g)
							ok := run(r, label, desc, func() string {
								s := newGsys(dir, us0, nil, graph.WithWeight(float64(g%3)))
								for i, u := range us0 {
									id := int64(-1)
									if g%4 == 1 {
										id = int64(n - i) // other IDs than the order of insertion
									}
									if g%4 == 2 {
										id = int64(i) * 1000003
									}
									if d := s.addPlain(u, id); d != "" {
										return d
									}
								}
								for b, p := range pairs {
									if g>>uint(b)&1 == 1 {
										if d := subOpts(s, us0[p[0]], us0[p[1]], b+g); d != "" {
											return d
										}
									}
								}
								for depth := 0; depth <= n; depth++ {
									for i, u := range us0 {
										var opts []graph.Option
										if (i+depth)%2 == 1 {
											opts = append(opts, graph.WithWeight(7))
										}
										if d := s.subgraphDiff(u, depth, opts...); d != "" {
											return d
										}
									}
								}
								if d := s.subgraphDiff("absent", 1); d != "" {
									return d
								}
								if d := s.after(); d != "" || (n == max && g%pick(8, 2) != 1) {
									return d
								}
								for k := 0; k < nChanges; k++ {
									if d, ok := s.change(k); d != "" {
										return d
									} else if !ok {
										continue
									}
									for _, u := range s.uids {
										if s.nodes[u] == nil {
											continue
										}
										for depth := 0; depth <= 2; depth++ {
											if d := s.subgraphDiff(u, depth); d != "" {
												return fmt.Sprintf("%s, after change %d", d, k)
											}
										}
									}
									if d := s.after(); d != "" {
										return d
									}
								}
								return ""
							})
							r.States++
							r.Trans += n * (n + 1)
							if g == 1 {
								r.Sample(label)
							}
							if !ok {
								r.Exhaustive = r.Viol == nil && g+parts >= 1<<uint(len(pairs))
								return
							}
						}
					})
				}
			}
		}
	}
	// histories
	for _, dir := range []bool{true, false} {
		for _, desc := range []bool{false, true} {
			dir, desc := dir, desc
			abc := []string{"a", "b", "c"}
			ops := graphOps(abc, false, true, false)
			for i, o := range ops {
				if o.name == "observe" {
					ops[i] = gop{"subgraphs", func(s *gsys) (string, bool) { return (&subSys{s, 2}).Check(), true }}
				}
			}
			spec := SeqSpec{Label: fmt.Sprintf("histories/%s/desc=%v", kindName(dir), desc), Ops: opNames(ops), Desc: desc, Want: "C03",
				Prefix: []int{0, 3, 6}, Depth: 3 + pick(4, 5), New: func() Sys { return &subSys{newGsys(dir, abc, ops), 2} }}
			add(spec.Label, func(r *R) { r.BFS(spec) })
		}
	}
	// larger graphs
	shapes := map[string]func(n int) [][2]int{
		"chain": func(n int) (e [][2]int) {
			for i := 0; i+1 < n; i++ {
				e = append(e, [2]int{i, i + 1})
			}
			return
		},
		"cycle": func(n int) (e [][2]int) {
			for i := 0; i < n; i++ {
				e = append(e, [2]int{i, (i + 1) % n})
			}
			return
		},
		"out": func(n int) (e [][2]int) {
			for i := 1; i < n; i++ {
				e = append(e, [2]int{0, i})
			}
			return
		},
		"in": func(n int) (e [][2]int) {
			for i := 1; i < n; i++ {
				e = append(e, [2]int{i, 0})
			}
			return
		},
		"tree": func(n int) (e [][2]int) {
			for i := 1; i < n; i++ {
				e = append(e, [2]int{(i - 1) / 2, i})
			}
			return
		},
		"grid": func(n int) (e [][2]int) {
			for i := 0; i < n; i++ {
				if (i+1)%4 != 0 && i+1 < n {
					e = append(e, [2]int{i, i + 1})
				}
				if i+4 < n {
					e = append(e, [2]int{i, i + 4})
				}
			}
			return
		},
		"complete": func(n int) (e [][2]int) {
			for i := 0; i < n && i < 9; i++ {
				for j := 0; j < n && j < 9; j++ {
					if i != j {
						e = append(e, [2]int{i, j})
					}
				}
			}
			return
		},
		"ladder": func(n int) (e [][2]int) { // two ways of different length to everything
			for i := 0; i+1 < n; i++ {
				e = append(e, [2]int{i, i + 1})
				if i+3 < n {
					e = append(e, [2]int{i, i + 3})
				}
				if i%5 == 4 {
					e = append(e, [2]int{i, i - 4})
				}
			}
			return
		},
	}
	for _, dir := range []bool{true, false} {
		dir := dir
		build := func(us0 []string, sh string) (*gsys, string) {
			s := newGsys(dir, us0, nil)
			for _, u := range us0 {
				if d := s.addPlain(u, -1); d != "" {
					return s, d
				}
			}
			for i, p := range shapes[sh](len(us0)) {
				if d := subOpts(s, us0[p[0]], us0[p[1]], i); d != "" {
					return s, d
				}
			}
			return s, ""
		}
		add("names/"+kindName(dir), func(r *R) {
			for i, set := range nameSets(8) {
				set := set
				ok := run(r, "names "+set.name, i%2 == 1, func() string {
					for _, sh := range []string{"complete", "chain"} {
						s, d := build(set.names, sh)
						for _, u := range set.names {
							for _, depth := range []int{0, 1, 2, math.MaxInt32, math.MaxInt} {
								if d == "" {
									d = s.subgraphDiff(u, depth)
								}
							}
						}
						if d == "" {
							d = s.after()
						}
						if d != "" {
							return d
						}
					}
					return ""
				})
				r.States++
				if !ok {
					return
				}
			}
		})
		add("sizes/"+kindName(dir), func(r *R) {
			for _, n := range sizes(pick(130, 520)) {
				for _, sh := range []string{"chain", "cycle", "out", "in", "tree"} {
					n, sh := n, sh
					ok := run(r, fmt.Sprintf("sizes %s %d", sh, n), n%2 == 1, func() string {
						s, d := build(names(n), sh)
						for _, depth := range []int{1, 2, n / 2, n - 2, n - 1, n, n + 1} {
							for _, i := range []int{0, n / 2, n - 1} {
								if d == "" && depth >= 0 {
									d = s.subgraphDiff(s.uids[i], depth)
								}
							}
						}
						if d == "" {
							d = s.after()
						}
						return d
					})
					r.States++
					if !ok {
						return
					}
				}
			}
		})
	}
	for _, dir := range []bool{true, false} {
		for _, sh := range []string{"chain", "cycle", "out", "in", "tree", "grid", "complete", "ladder"} {
			dir, sh := dir, sh
			name := fmt.Sprintf("families/%s/%s", kindName(dir), sh)
			add(name, func(r *R) {
				for _, desc := range []bool{false, true} {
					for n := 3; n <= pick(24, 64); n += 1 + n/5 {
						n := n
						us0 := names(n)
						ok := run(r, fmt.Sprintf("%s %d desc=%v", name, n, desc), desc, func() string {
							s := newGsys(dir, us0, nil)
							for _, u := range us0 {
								if d := s.addPlain(u, -1); d != "" {
									return d
								}
							}
							for i, p := range shapes[sh](n) {
								if d := subOpts(s, us0[p[0]], us0[p[1]], i); d != "" {
									return d
								}
							}
							for depth := 0; depth <= n+1; depth += 1 + depth/3 {
								for i := 0; i < n; i += 1 + n/7 {
									if d := s.subgraphDiff(us0[i], depth); d != "" {
										return d
									}
									r.Trans++
								}
							}
							// again after removing and upserting
							for i := 0; i < n; i += 3 {
								var d string
								if i%2 == 0 {
									d = s.addNode(us0[i], mkNode(us0[i], int64(10000+i)), true)
								} else {
									d = s.remove(us0[i])
								}
								if d == "" {
									d = s.subgraphDiff(us0[(i+1)%n], 2)
								}
								if d != "" {
									return d
								}
							}
							return s.after()
						})
						r.States++
						if !ok {
							return
						}
					}
				}
				r.Sample(name)
			})
		}
	}
	return us
}
