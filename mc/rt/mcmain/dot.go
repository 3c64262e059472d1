//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	fdot "gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"
)

func init() {
	checks["C04"] = dotUnits
}

// unq is the string that a DOT ID stands for.
func unq(s string) string {
	if t, err := strconv.Unquote(s); err == nil && strings.HasPrefix(s, `"`) {
		return t
	}
	return s
}

func dotAttrs(as []*ast.Attr) string {
	var out []string
	for _, a := range as {
		out = append(out, fmt.Sprintf("%q=%q", unq(a.Key), unq(a.Val)))
	}
	sort.Strings(out)
	return "[" + strings.Join(out, ",") + "]"
}

func attrsDot(a attrs.Attrs) string {
	if a == nil {
		return "[]"
	}
	ks, _ := a.Keys(bg)
	var out []string
	for _, k := range ks {
		v, _ := a.Get(bg, k)
		out = append(out, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(out)
	return "[" + strings.Join(out, ",") + "]"
}

// dotStmts reads DOT text; the statements are in a canonical order.
func dotStmts(text string) (head string, stmts []string, err error) {
	f, err := fdot.ParseBytes([]byte(text))
	if err != nil {
		return "", nil, err
	}
	if len(f.Graphs) != 1 {
		return "", nil, fmt.Errorf("%d graphs", len(f.Graphs))
	}
	g := f.Graphs[0]
	head = fmt.Sprintf("directed=%v id=%q", g.Directed, unq(g.ID))
	for _, st := range g.Stmts {
		switch st := st.(type) {
		case *ast.NodeStmt:
			if st.Node.Port != nil {
				return head, nil, fmt.Errorf("node with port: %v", st)
			}
			stmts = append(stmts, fmt.Sprintf("node %q %s", unq(st.Node.ID), dotAttrs(st.Attrs)))
		case *ast.EdgeStmt:
			a, ok1 := st.From.(*ast.Node)
			b, ok2 := st.To.Vertex.(*ast.Node)
			if !ok1 || !ok2 || st.To.To != nil || a.Port != nil || b.Port != nil || st.To.Directed != g.Directed {
				return head, nil, fmt.Errorf("strange edge: %v", st)
			}
			x, y := unq(a.ID), unq(b.ID)
			if !g.Directed && x > y {
				x, y = y, x
			}
			stmts = append(stmts, fmt.Sprintf("edge %q %q %s", x, y, dotAttrs(st.Attrs)))
		case *ast.AttrStmt:
			if len(st.Attrs) == 0 {
				continue
			}
			stmts = append(stmts, fmt.Sprintf("default %v %s", st.Kind, dotAttrs(st.Attrs)))
		case *ast.Attr:
			stmts = append(stmts, fmt.Sprintf("default graph [%q=%q]", unq(st.Key), unq(st.Val)))
		default:
			return head, nil, fmt.Errorf("strange statement: %v", st)
		}
	}
	sort.Strings(stmts)
	return head, stmts, nil
}

type dotWant struct {
	id                string
	graph, node, edge attrs.Attrs
}

// dotDiff compares the DOT text with the graph.
func (s *gsys) dotDiff(w dotWant) string {
	var text string
	var err error
	if p, bad := try(func() { text, err = s.g.DOT() }); bad || err != nil {
		return fmt.Sprintf("C04: DOT: %v %v", err, p)
	}
	head, stmts, err := dotStmts(text)
	if err != nil {
		return fmt.Sprintf("C04: malformed DOT text: %v\n%s", err, text)
	}
	if d := diffOf("C04: graph", head, fmt.Sprintf("directed=%v id=%q", s.dir, w.id)); d != "" {
		return d + "\n" + text
	}
	var want []string
	for _, d := range []struct {
		k string
		a attrs.Attrs
	}{{"graph", w.graph}, {"node", w.node}, {"edge", w.edge}} {
		if x := attrsDot(d.a); x != "[]" {
			want = append(want, "default "+d.k+" "+x)
		}
	}
	for _, n := range s.nodes {
		want = append(want, fmt.Sprintf("node %q %s", n.DOTID(), attrsDot(n.Attrs())))
	}
	for _, we := range s.edges {
		e, err := s.g.Edge(bg, uid(we.from), uid(we.to))
		if err != nil {
			return "C02: " + err.Error()
		}
		x, y := s.nodes[we.from].DOTID(), s.nodes[we.to].DOTID()
		if !s.dir && x > y {
			x, y = y, x
		}
		want = append(want, fmt.Sprintf("edge %q %q %s", x, y, attrsDot(e.Attrs())))
	}
	sort.Strings(want)
	if d := diffOf("C04: statements", strings.Join(stmts, "\n  "), strings.Join(want, "\n  ")); d != "" {
		return d + "\n" + text
	}
	return ""
}

// dotCheck checks the DOT text, twice, and that the graph is as it was and can be changed.
func (s *gsys) dotCheck(w dotWant) string {
	for i := 0; i < 2; i++ {
		if d := s.dotDiff(w); d != "" {
			return d
		}
	}
	if err := s.g.RemoveNode(bg, uid("absent")); err != nil {
		return "C04: " + err.Error()
	}
	if d := s.check(s.uids, true); d != "" {
		return "C04: the graph changed: " + d
	}
	return ""
}

// dotSys checks the DOT text after each operation.
type dotSys struct{ *gsys }

func (s dotSys) Check() string { return s.dotCheck(dotWant{id: s.g.DOTID()}) }

// dotOK reports whether s can be told apart in DOT: strings which already are
// quoted or HTML IDs are DOT syntax.
func dotOK(s string) bool {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return false
	}
	if len(s) >= 2 && s[0] == '<' && s[len(s)-1] == '>' {
		return false
	}
	return !strings.ContainsRune(s, utf8.RuneError) || !utf8.ValidString(s)
}

func dotStrings() []string {
	var out []string
	add := func(s string) {
		if dotOK(s) {
			out = append(out, s)
		}
	}
	for _, s := range []string{"", "node", "edge", "graph", "digraph", "subgraph", "strict", "NODE", "Edge", "GRAPH", "nOdE", "SubGraph",
		"-", "-1", "1.5", ".5", "-.5", "1.", "1a", "1.2.3", "--", "->", "a->b", "a--b", "//", "/*", "*/", "#", "a\nb", "a\\", `\`, `\"`, `"`, `a"b`, `\n`, `\\`, `"a`, `a"`,
		"<", ">", "<a", "a>", "a b", " ", "\t", "a;b", "{", "}", "[", "]", "=", ",", ":", "a:b", "a:n", "n", "_", "é", "日本", "🙂", "\x00", "\x7f", "\xff", "a\xffb", "+", "&amp;", "%", "$", "x/y/z",
		strings.Repeat("long ", 300), "label", "\u2028", "\ufeff"} {
		add(s)
	}
	for r := rune(0); r < 0x180; r++ {
		add(string(r))
		add("a" + string(r))
	}
	alpha := []string{`"`, `\`, "<", ">", "-", ".", "0", "a", " ", "\n", ";", "[", "]", "{", "}", "=", ",", ":", "/", "#", "+", "&", "é", "_", "\x00"}
	for _, x := range alpha {
		for _, y := range alpha {
			add(x + y)
			for _, z := range alpha {
				add(x + y + z)
				if thorough() {
					for _, t := range alpha {
						add(x + y + z + t)
					}
				}
			}
		}
	}
	return out
}

func dotOpt(g, n, e attrs.Attrs) graph.Option {
	o := graph.DOTOptions{}
	if g != nil {
		o.GraphAttrs = g.(*memattrs.Attrs)
	}
	if n != nil {
		o.NodeAttrs = n.(*memattrs.Attrs)
	}
	if e != nil {
		o.EdgeAttrs = e.(*memattrs.Attrs)
	}
	return graph.WithDOTOptions(o)
}

// put adds a node with the given entity and options.
func (s *gsys) put(u string, e graph.Entity, opts ...graph.Option) string {
	n, err := s.g.NewNode(bg, e, opts...)
	if err == nil {
		err = s.g.AddNode(bg, n)
	}
	if err != nil {
		return "C01: " + err.Error()
	}
	s.nodes[u] = n.(*gmem.Node)
	s.looks[u] = look(s.nodes[u])
	return ""
}

func (s *gsys) join(u, v string, opts ...graph.Option) string {
	e, err := s.g.Link(bg, uid(u), uid(v), opts...)
	if err != nil {
		return "C02: " + err.Error()
	}
	s.edges[s.key(u, v)] = &gedge{from: u, to: v, uid: e.UID().String(), weight: e.Weight(), attrs: attrStr(e.Attrs())}
	return ""
}

// readable are the strings which the DOT parser used here can read: its
// scanner takes U+FFFD for an encoding error, although it is well formed.
func readable(ss []string) []string {
	var out []string
	for _, s := range ss {
		if !strings.Contains(s, "\ufffd") {
			out = append(out, s)
		}
	}
	return out
}

func dotUnits() []Unit {
	var us []Unit
	run := func(r *R, label string, desc bool, f func() string) bool {
		return r.Each(label, desc, func() string {
			d := f()
			if foreign(d, "C04") {
				return ""
			}
			return d
		}) && !r.expired()
	}
	// every string in every place
	strs := readable(uniq(append(dotStrings(), specials()...)))
	places := []string{"graphid", "graphuid", "graphattr", "nodeattr", "edgeattr", "id", "setid", "uid", "attr", "linkattr", "setattr"}
	for _, dir := range []bool{true, false} {
		for _, place := range places {
			dir, place := dir, place
			name := fmt.Sprintf("strings/%s/%s", kindName(dir), place)
			us = append(us, Unit{Name: name, Run: func(r *R) {
				for i, x := range strs {
					x := x
					ok := run(r, fmt.Sprintf("%s %q", name, x), i%2 == 1, func() string {
						w := dotWant{id: "G"}
						var gopts []graph.Option
						gopts = append(gopts, graph.WithUID(uid("guid")))
						switch place {
						case "graphid":
							if x == "" {
								w.id = "guid"
							} else {
								w.id = x
								gopts = append(gopts, graph.WithDOTID(x))
							}
						case "graphuid":
							w.id = x
							gopts = []graph.Option{graph.WithUID(suid(x))}
						default:
							gopts = append(gopts, graph.WithDOTID("G"))
						}
						switch place {
						case "graphattr":
							w.graph = mkAttrs("k", x, x, "v", "j"+x+"=", x)
						case "nodeattr":
							w.node = mkAttrs("k", x, x, "v", "j"+x+"=", x)
							w.edge = mkAttrs("other", "1")
						case "edgeattr":
							w.edge = mkAttrs("k", x, x, "v", "j"+x+"=", x)
							w.graph = mkAttrs("other", "1")
						}
						gopts = append(gopts, dotOpt(w.graph, w.node, w.edge))
						s := newGsys(dir, []string{"p", "q"}, nil, gopts...)
						pu := "p"
						var eopts []entity.Option
						var nopts []graph.Option
						switch place {
						case "id":
							nopts = append(nopts, graph.WithDOTID(x))
						case "uid":
							pu = x
							if x == "q" {
								return ""
							}
							s.uids = []string{x, "q"}
						case "attr":
							eopts = append(eopts, entity.WithAttrs(mkAttrs("k", x, x, "v", "j"+x+x, x)))
						}
						if d := s.put(pu, newEntity(suid(pu), eopts...), nopts...); d != "" {
							return d
						}
						if d := s.put("q", newEntity(uid("q"))); d != "" {
							return d
						}
						var lopts []graph.Option
						if place == "linkattr" {
							lopts = append(lopts, graph.WithAttrs(mkAttrs("k", x, x, "v", "j"+x+x, x)))
						}
						if d := s.join(pu, "q", lopts...); d != "" {
							return d
						}
						switch place {
						case "setid":
							if d := s.dotDiff(w); d != "" {
								return d
							}
							s.nodes["q"].SetDOTID(x)
							s.looks["q"] = look(s.nodes["q"])
						case "setattr":
							if d := s.dotDiff(w); d != "" {
								return d
							}
							_ = s.nodes["q"].Attrs().Set(bg, x, x)
							s.looks["q"] = look(s.nodes["q"])
							e, _ := s.g.Edge(bg, uid(pu), uid("q"))
							_ = e.Attrs().Set(bg, "k"+x, x)
							s.edges[s.key(pu, "q")].attrs = attrStr(e.Attrs())
						}
						return s.dotCheck(w)
					})
					r.States++
					r.Trans += 2
					if !ok {
						return
					}
				}
				r.Sample(fmt.Sprintf("%s with %d strings such as %q", name, len(strs), strs[40]))
			}})
		}
	}
	// all graphs of up to 3 (4) nodes
	for _, dir := range []bool{true, false} {
		for _, desc := range []bool{false, true} {
			dir, desc := dir, desc
			name := fmt.Sprintf("all/%s/desc=%v", kindName(dir), desc)
			us = append(us, Unit{Name: name, Run: func(r *R) {
				max := pick(3, 4)
				if !dir {
					max = pick(4, 5)
				}
				for n := 0; n <= max; n++ {
					var pairs [][2]int
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							if i < j || dir && i != j {
								pairs = append(pairs, [2]int{i, j})
							}
						}
					}
					us0 := names(n)
					for g := 0; g < 1<<uint(len(pairs)); g++ {
						for v := 0; v < 8; v++ {
							g, v := g, v
							ok := run(r, fmt.Sprintf("%s n=%d graph %x variant %d", name, n, g, v), desc, func() string {
								var w dotWant
								if v&1 == 1 {
									w.graph = mkAttrs("rank", "same")
								}
								if v&2 == 2 {
									w.node = mkAttrs("shape", "box", "style", "")
								}
								if v&4 == 4 {
									w.edge = mkAttrs("color", "dark red")
								}
								w.id = fmt.Sprintf("g %d", v)
								s := newGsys(dir, us0, nil, graph.WithDOTID(w.id), dotOpt(w.graph, w.node, w.edge))
								for i, u := range us0 {
									id := int64(-1)
									if g%3 == 1 {
										id = int64(n - i)
									}
									if d := s.addPlain(u, id); d != "" {
										return d
									}
								}
								for b, p := range pairs {
									if g>>uint(b)&1 == 1 {
										if d := subOpts(s, us0[p[0]], us0[p[1]], b+g); d != "" {
											return d
										}
									}
								}
								if d := s.dotCheck(w); d != "" || v != 0 && v != 7 {
									return d
								}
								for k := 0; k < nChanges; k++ {
									if d, ok := s.change(k); d != "" {
										return d
									} else if !ok {
										continue
									}
									if d := s.dotCheck(w); d != "" {
										return fmt.Sprintf("%s\nafter change %d", d, k)
									}
								}
								for _, a := range []attrs.Attrs{w.graph, w.node, w.edge} {
									if a == nil {
										continue
									}
									_ = a.Set(bg, "fontsize", "7")
									if d := s.dotCheck(w); d != "" {
										return d
									}
								}
								return ""
							})
							r.States++
							r.Trans += 2
							if !ok {
								return
							}
						}
					}
				}
				r.Sample(name)
			}})
			// histories
			for _, sub := range []struct {
				name  string
				uids  []string
				depth int
			}{{"2", []string{"a", "b"}, pick(7, 9)}, {"3", []string{"a", "b", "c"}, pick(5, 6)}} {
				sub := sub
				ops := graphOps(sub.uids, true, true, false)
				for i, o := range ops {
					if o.name == "observe" {
						ops[i] = gop{"DOT", func(s *gsys) (string, bool) { return dotSys{s}.Check(), true }}
					}
				}
				spec := SeqSpec{Label: fmt.Sprintf("histories/%s/%s/desc=%v", sub.name, kindName(dir), desc), Ops: opNames(ops), Desc: desc, Want: "C04",
					Depth: sub.depth, New: func() Sys {
						return dotSys{newGsys(dir, sub.uids, ops, graph.WithUID(uid("G U")))}
					}}
				us = append(us, Unit{Name: spec.Label, Run: func(r *R) { r.BFS(spec) }})
			}
		}
	}
	// names that are easily confused
	for _, dir := range []bool{true, false} {
		dir := dir
		name := "names/" + kindName(dir)
		us = append(us, Unit{Name: name, Run: func(r *R) {
			for i, set := range nameSets(10) {
				set := set
				set.names = readable(set.names)
				ok := run(r, name+" "+set.name, i%2 == 1, func() string {
					s := newGsys(dir, set.names, nil, graph.WithDOTID("G"))
					var kv []string
					for _, u := range set.names {
						kv = append(kv, u, "v"+u)
					}
					for i, u := range set.names {
						if d := s.put(u, newEntity(uid(u), entity.WithAttrs(mkAttrs(kv[2*i:]...)))); d != "" {
							return d
						}
					}
					n := len(set.names)
					for i, u := range set.names {
						for k := 1; k < 4; k++ {
							if v := set.names[(i+k)%n]; u != v && s.edges[s.key(u, v)] == nil {
								if d := s.join(u, v, graph.WithAttrs(mkAttrs(kv[:2*i]...))); d != "" {
									return d
								}
							}
						}
					}
					return s.dotCheck(dotWant{id: "G"})
				})
				r.States++
				if !ok {
					return
				}
			}
			r.Sample(name)
		}})
	}
	// larger graphs, nodes without entities of their own kind
	for _, dir := range []bool{true, false} {
		dir := dir
		name := "large/" + kindName(dir)
		us = append(us, Unit{Name: name, Run: func(r *R) {
			for n := 5; n <= pick(40, 120); n += 1 + n/4 {
				n := n
				ok := run(r, fmt.Sprintf("%s %d", name, n), n%2 == 1, func() string {
					us0 := names(n)
					s := newGsys(dir, us0, nil, graph.WithDOTID("G"))
					for i, u := range us0 {
						var e graph.Entity
						var err error
						switch i % 3 {
						case 0:
							e = newEntity(uid(u))
						case 1:
							e, err = entity.NewResource("t", "n"+u, "grp"+u, "v1", "kind", true, entity.WithUID(uid(u)), entity.WithAttrs(mkAttrs("a", u)))
						case 2:
							res, _ := entity.NewResource("t", "n", "g", "v", "k", true)
							e, err = entity.NewObject("t", "name "+u, "ns", res, entity.WithUID(uid(u)))
						}
						if err != nil {
							return err.Error()
						}
						if d := s.put(u, e); d != "" {
							return d
						}
					}
					for i := range us0 {
						for _, k := range []int{1, 2, 5} {
							if j := (i*k + 1) % n; i != j && s.edges[s.key(us0[i], us0[j])] == nil {
								if d := subOpts(s, us0[i], us0[j], i+k); d != "" {
									return d
								}
							}
						}
					}
					return s.dotCheck(dotWant{id: "G"})
				})
				r.States++
				if !ok {
					return
				}
			}
			r.Sample(name)
		}})
	}
	return us
}
