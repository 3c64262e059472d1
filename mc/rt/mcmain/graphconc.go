//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func init() {
	checks["C05"] = graphConcUnits
}

// cg is a graph used by several threads. Nodes made before the threads start
// are known by their label; reg is not written afterwards.
type cg struct {
	dir  bool
	g    anyGraph
	reg  map[graph.Node]string
	held map[string]*gmem.Node
}

func (c *cg) label(n graph.Node) string {
	gn, ok := n.(*gmem.Node)
	if !ok || gn == nil {
		return fmt.Sprintf("?%T", n)
	}
	if l, ok := c.reg[n]; ok {
		return l
	}
	return fmt.Sprintf("~%s#%d", gn.UID(), gn.ID())
}

// quiet calls f without other threads running in between.
func quiet(f func() string) string {
	vs.Explore(false)
	s := f()
	vs.Explore(true)
	return s
}

func (c *cg) nodesStr(ns []graph.Node) string {
	var out []string
	for _, n := range ns {
		out = append(out, c.label(n))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (c *cg) edgeStr(e graph.Edge, oriented bool) string {
	if e == nil {
		return "<nil>"
	}
	f, err1 := e.FromNode()
	t, err2 := e.ToNode()
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("%v %v", err1, err2)
	}
	x, y := c.label(f), c.label(t)
	if !oriented && !c.dir && x > y {
		x, y = y, x
	}
	return fmt.Sprintf("%s:%v(%s>%s)", e.UID(), e.Weight(), x, y)
}

func gerr(err error) string {
	return errStr(err, graph.ErrNodeNotFound, graph.ErrEdgeNotExist, graph.ErrDuplicateNode, graph.ErrInvalidNode)
}

// cgop is an operation of a thread. n tells links apart.
type cgop struct {
	name string
	run  func(c *cg, t *Th, n int)
}

func opNewAdd(u string, add bool) cgop {
	name := "new(" + u + ")"
	if add {
		name = "newadd(" + u + ")"
	}
	return cgop{name, func(c *cg, t *Th, _ int) {
		var nd graph.Node
		t.Do(Op{"new", []string{u}}, func() string {
			var err error
			nd, err = c.g.NewNode(bg, newEntity(suid(u)))
			if err != nil {
				return gerr(err)
			}
			return c.label(nd)
		})
		if add && nd != nil {
			t.Do(Op{"add", []string{u, c.label(nd)}}, func() string { return gerr(c.g.AddNode(bg, nd)) })
		}
	}}
}

func opAdd(l string, upsert bool) cgop {
	name := "add"
	var opts []graph.Option
	if upsert {
		name = "ups"
		opts = append(opts, graph.WithUpsert())
	}
	return cgop{name + "(" + l + ")", func(c *cg, t *Th, _ int) {
		n := c.held[l]
		t.Do(Op{name, []string{l[:1], l}}, func() string { return gerr(c.g.AddNode(bg, n, opts...)) })
	}}
}

func opUID(name, u string, f func(c *cg, u string) string) cgop {
	return cgop{name + "(" + u + ")", func(c *cg, t *Th, _ int) {
		t.Do(Op{name, []string{u}}, func() string { return f(c, u) })
	}}
}

func opPair(name, u, v string, f func(c *cg, u, v string, n int) string) cgop {
	return cgop{name + "(" + u + "," + v + ")", func(c *cg, t *Th, n int) {
		t.Do(Op{name, []string{u, v, strconv.Itoa(n)}}, func() string { return f(c, u, v, n) })
	}}
}

func opSub(u string, d int) cgop {
	return cgop{fmt.Sprintf("sub(%s,%d)", u, d), func(c *cg, t *Th, _ int) {
		t.Do(Op{"sub", []string{u, strconv.Itoa(d)}}, func() string { return c.sub(u, d) })
	}}
}

func (c *cg) sub(u string, d int) string {
	sg, err := c.g.SubGraph(bg, uid(u), d)
	if err != nil {
		return gerr(err)
	}
	return quiet(func() string {
		ns, err := sg.Nodes(bg)
		if err != nil {
			return gerr(err)
		}
		var es []string
		for _, x := range ns {
			for _, y := range ns {
				e, err := sg.Edge(bg, x.UID(), y.UID())
				if err == nil {
					f, _ := e.FromNode()
					t, _ := e.ToNode()
					es = append(es, fmt.Sprintf("%s>%s:%v%s", c.label(f), c.label(t), e.Weight(), attrStr(e.Attrs())))
				}
			}
		}
		return c.nodesStr(ns) + " | " + join(es)
	})
}

func (c *cg) nodes() string {
	ns, err := c.g.Nodes(bg)
	if err != nil {
		return gerr(err)
	}
	return c.nodesStr(ns)
}

func (c *cg) edges() string {
	es, err := c.g.Edges(bg)
	if err != nil {
		return gerr(err)
	}
	var out []string
	for _, e := range es {
		out = append(out, c.edgeStr(e, false))
	}
	return join(out)
}

func (c *cg) node(u string) string {
	n, err := c.g.Node(bg, suid(u))
	if err != nil {
		return gerr(err)
	}
	return c.label(n)
}

func (c *cg) from(u string) string {
	ns, err := c.g.From(bg, uid(u))
	if err != nil {
		return ""
	}
	return c.nodesStr(ns)
}

func (c *cg) edge(u, v string) string {
	e, err := c.g.Edge(bg, suid(u), uid(v))
	if err != nil {
		return gerr(err)
	}
	return c.edgeStr(e, true)
}

// dot returns the DOT text; it is read when the execution is over.
func (c *cg) dot() string {
	s, err := c.g.DOT()
	if err != nil {
		return gerr(err)
	}
	return s
}

func (c *cg) link(u, v string, n int) string {
	e, err := c.g.Link(bg, uid(u), suid(v), graph.WithUID(suid(fmt.Sprintf("E%d", n))), graph.WithWeight(float64(n)), graph.WithAttrs(mkAttrs("e", strconv.Itoa(n))))
	if err != nil {
		if u == v && gerr(err) != graph.ErrNodeNotFound.Error() {
			return "refused"
		}
		return gerr(err)
	}
	return c.edgeStr(e, true)
}

func graphConcOps() map[string]cgop {
	m := map[string]cgop{}
	put := func(o cgop) { m[o.name] = o }
	for _, u := range []string{"a", "b", "c"} {
		put(opNewAdd(u, true))
		put(opNewAdd(u, false))
		for _, k := range []string{"0", "1", "2", "s"} {
			put(opAdd(u+k, false))
			put(opAdd(u+k, true))
		}
		put(opUID("rm", u, func(c *cg, u string) string { return gerr(c.g.RemoveNode(bg, suid(u))) }))
		put(opUID("node", u, func(c *cg, u string) string { return c.node(u) }))
		put(opUID("from", u, func(c *cg, u string) string { return c.from(u) }))
		put(opUID("nodes", "", func(c *cg, u string) string { return c.nodes() }))
		put(opUID("edges", "", func(c *cg, u string) string { return c.edges() }))
		put(opUID("dot", "", func(c *cg, u string) string { return c.dot() }))
		for d := 0; d <= 2; d++ {
			put(opSub(u, d))
		}
		for _, v := range []string{"a", "b", "c"} {
			put(opPair("link", u, v, func(c *cg, u, v string, n int) string { return c.link(u, v, n) }))
			put(opPair("unlink", u, v, func(c *cg, u, v string, n int) string { return gerr(c.g.Unlink(bg, uid(u), suid(v))) }))
			put(opPair("edge", u, v, func(c *cg, u, v string, n int) string { return c.edge(u, v) }))
		}
	}
	return m
}

// cgm is the model of a graph: the labels of its nodes and its edges.
type cgm struct {
	dir   bool
	nodes map[string]string
	edges map[pair]string // name:weight
	ids   string          // given to created nodes
}

func (m *cgm) clone() *cgm {
	n := &cgm{m.dir, make(map[string]string, len(m.nodes)+1), make(map[pair]string, len(m.edges)+1), m.ids}
	for k, v := range m.nodes {
		n.nodes[k] = v
	}
	for k, v := range m.edges {
		n.edges[k] = v
	}
	return n
}

func (m *cgm) key(u, v string) pair {
	if !m.dir && u > v {
		return pair{v, u}
	}
	return pair{u, v}
}

func (m *cgm) Key() string { return m.nodesStr() + "|" + m.edgesStr() + "|" + m.ids }

func (m *cgm) nodesStr() string {
	var out []string
	for _, l := range m.nodes {
		out = append(out, l)
	}
	return join(out)
}

func (m *cgm) edgesStr() string {
	var out []string
	for k, e := range m.edges {
		x, y := m.nodes[k[0]], m.nodes[k[1]]
		if !m.dir && x > y {
			x, y = y, x
		}
		out = append(out, fmt.Sprintf("%s(%s>%s)", e, x, y))
	}
	return join(out)
}

func (m *cgm) edgeStr(u, v string) string {
	if m.nodes[u] == "" || m.nodes[v] == "" {
		return graph.ErrNodeNotFound.Error()
	}
	e, ok := m.edges[m.key(u, v)]
	if !ok {
		return graph.ErrEdgeNotExist.Error()
	}
	return fmt.Sprintf("%s(%s>%s)", e, m.nodes[u], m.nodes[v])
}

func (m *cgm) succ(u string) []string {
	var out []string
	for k := range m.edges {
		if k[0] == u {
			out = append(out, k[1])
		} else if k[1] == u && !m.dir {
			out = append(out, k[0])
		}
	}
	sort.Strings(out)
	return out
}

func (m *cgm) from(u string) string {
	var out []string
	for _, v := range m.succ(u) {
		out = append(out, m.nodes[v])
	}
	return join(out)
}

func (m *cgm) sub(u string, depth int) string {
	if m.nodes[u] == "" {
		return graph.ErrNodeNotFound.Error()
	}
	in := map[string]bool{u: true}
	cur := []string{u}
	for d := 0; d < depth; d++ {
		var next []string
		for _, x := range cur {
			for _, y := range m.succ(x) {
				if !in[y] {
					in[y] = true
					next = append(next, y)
				}
			}
		}
		cur = next
	}
	var ns, es []string
	for x := range in {
		ns = append(ns, m.nodes[x])
		for _, y := range m.succ(x) {
			if in[y] {
				e := m.edges[m.key(x, y)]
				i := strings.IndexByte(e, ':')
				es = append(es, fmt.Sprintf("%s>%s%s%q=%q,", m.nodes[x], m.nodes[y], e[i:], "e", e[1:i]))
			}
		}
	}
	return join(ns) + " | " + join(es)
}

func (m *cgm) dot() string {
	var out []string
	for u, l := range m.nodes {
		a := "[]"
		if l[0] != '~' {
			a = fmt.Sprintf("[%q=%q]", "l", l)
		}
		out = append(out, fmt.Sprintf("node %q %s", u, a))
	}
	for k, e := range m.edges {
		i := strings.IndexByte(e, ':')
		out = append(out, fmt.Sprintf("edge %q %q [%q=%q]", k[0], k[1], "e", e[1:i]))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (m *cgm) drop(u string) *cgm {
	n := m.clone()
	delete(n.nodes, u)
	for k := range n.edges {
		if k[0] == u || k[1] == u {
			delete(n.edges, k)
		}
	}
	return n
}

// final is everything that can be observed.
func (m *cgm) final() string {
	s := m.nodesStr() + " / " + m.edgesStr()
	for _, u := range []string{"a", "b", "c"} {
		l := m.nodes[u]
		if l == "" {
			l = graph.ErrNodeNotFound.Error()
		}
		s += fmt.Sprintf(" / %s:%s>%s", u, l, m.from(u))
		for _, v := range []string{"a", "b", "c"} {
			if u != v {
				s += "," + m.edgeStr(u, v)
			}
		}
	}
	return s
}

func (c *cg) final() string {
	s := c.nodes() + " / " + c.edges()
	for _, u := range []string{"a", "b", "c"} {
		s += fmt.Sprintf(" / %s:%s>%s", u, c.node(u), c.from(u))
		for _, v := range []string{"a", "b", "c"} {
			if u != v {
				s += "," + c.edge(u, v)
			}
		}
	}
	return s
}

func (m *cgm) Apply(op Op, res string) []Model {
	want, next := "", m
	switch op.Name {
	case "new":
		if l := m.nodes[op.Args[0]]; l != "" {
			want = l
		} else {
			if !strings.HasPrefix(res, "~"+op.Args[0]+"#") {
				return nil
			}
			id := res[strings.IndexByte(res, '#'):] + "#"
			if strings.Contains(m.ids, id) {
				return nil // another created node has it
			}
			want = res
			next = m.clone()
			next.ids = joinIDs(m.ids, id)
		}
	case "add", "ups":
		u, l := op.Args[0], op.Args[1]
		if m.nodes[u] != "" && op.Name == "add" {
			want = graph.ErrDuplicateNode.Error()
		} else {
			want = "ok"
			next = m.clone()
			next.nodes[u] = l
		}
	case "rm":
		want, next = "ok", m.drop(op.Args[0])
	case "node":
		want = m.nodes[op.Args[0]]
		if want == "" {
			want = graph.ErrNodeNotFound.Error()
		}
	case "from":
		want = m.from(op.Args[0])
	case "nodes":
		want = m.nodesStr()
	case "edges":
		want = m.edgesStr()
	case "dot":
		want = m.dot()
	case "final":
		want = m.final()
	case "sub":
		d, _ := strconv.Atoi(op.Args[1])
		want = m.sub(op.Args[0], d)
	case "edge":
		want = m.edgeStr(op.Args[0], op.Args[1])
	case "unlink":
		want = "ok"
		k := m.key(op.Args[0], op.Args[1])
		if _, ok := m.edges[k]; ok {
			next = m.clone()
			delete(next.edges, k)
		}
	case "link":
		u, v := op.Args[0], op.Args[1]
		k := m.key(u, v)
		switch {
		case m.nodes[u] == "" || m.nodes[v] == "":
		case u == v:
			want = "refused"
		case m.edges[k] == "":
			next = m.clone()
			next.edges[k] = "E" + op.Args[2] + ":" + op.Args[2]
		}
		if want == "" {
			want = next.edgeStr(u, v)
		}
	default:
		panic(op.Name)
	}
	if res != want {
		return nil
	}
	return []Model{next}
}

// joinIDs adds an ID to a sorted list.
func joinIDs(ids, id string) string {
	l := append(strings.Fields(ids), id)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// cgInit makes a graph with the given nodes and links.
func cgInit(dir bool, nodes string, links []string) (*cg, *cgm) {
	c := &cg{dir: dir, g: newGraph(dir), reg: map[graph.Node]string{}, held: map[string]*gmem.Node{}}
	m := &cgm{dir: dir, nodes: map[string]string{}, edges: map[pair]string{}}
	mk := func(u, k string, id int64) int64 {
		l := u + k
		e := newEntity(uid(u), entity.WithAttrs(mkAttrs("l", l)))
		var n *gmem.Node
		if id >= 0 {
			var err error
			if n, err = gmem.NewNode(id, e); err != nil {
				panic(err)
			}
		} else {
			nn, err := c.g.NewNode(bg, e)
			if err != nil {
				panic(err)
			}
			n = nn.(*gmem.Node)
		}
		c.held[l] = n
		c.reg[n] = l
		if id < 0 {
			m.ids = joinIDs(m.ids, fmt.Sprintf("#%d#", n.ID()))
		}
		return n.ID()
	}
	for _, u := range []string{"a", "b", "c"} {
		id := mk(u, "0", -1)
		mk(u, "1", -1)
		mk(u, "2", -1)
		mk(u, "s", id)
	}
	for _, r := range nodes {
		l := string(r) + "0"
		if err := c.g.AddNode(bg, c.held[l]); err != nil {
			panic(err)
		}
		m.nodes[string(r)] = l
	}
	for i, l := range links {
		if s := c.link(l[:1], l[1:], i+1); s[0] != 'E' {
			panic(s)
		}
		if k := m.key(l[:1], l[1:]); m.edges[k] != "" {
			continue
		}
		m.edges[m.key(l[:1], l[1:])] = fmt.Sprintf("E%d:%d", i+1, i+1)
	}
	return c, m
}

type cgStart struct {
	name  string
	nodes string
	links []string
}

var cgStarts = []cgStart{
	{"empty", "", nil},
	{"a b", "ab", nil},
	{"a-b", "ab", []string{"ab"}},
	{"a-b-c", "abc", []string{"ab", "bc"}},
	{"a-b-c-a b-a", "abc", []string{"ab", "bc", "ca", "ba"}},
}

var dotCache = map[string]string{}

// conc explores the operations of threads on a graph.
func (r *R) concGraph(label string, dir bool, st cgStart, cfg vs.Config, threads [][]cgop) {
	r.concGraphOf(label, dir, st.name, func() (*cg, *cgm) { return cgInit(dir, st.nodes, st.links) }, cfg, threads)
}

// concGraphOf is concGraph with graphs that init makes.
func (r *R) concGraphOf(label string, dir bool, name string, init func() (*cg, *cgm), cfg vs.Config, threads [][]cgop) {
	var m *cgm
	scope := fmt.Sprintf("%v %s", dir, name)
	for _, t := range threads {
		scope += "|"
		for _, o := range t {
			scope += o.name + ";"
		}
	}
	r.Sched(label, cfg, func(h *H) {
		vs.Explore(false)
		var c *cg
		c, m = init()
		for i, ops := range threads {
			i, ops, t := i, ops, h.T(i)
			vs.Thread(fmt.Sprintf("T%d", i), func() {
				for k, o := range ops {
					o.run(c, t, 10*(i+1)+k)
				}
			})
		}
		fin := h.T(len(threads))
		vs.Explore(true)
		vs.Join()
		vs.Explore(false)
		fin.Do(Op{"final", nil}, c.final)
		fin.Do(Op{"dot", nil}, c.dot)
		// writers are let in
		if err := c.g.RemoveNode(bg, uid("absent")); err != nil {
			fin.Errf("RemoveNode of an absent node: %v", err)
		}
		for _, l := range []string{"a", "b", "c"} {
			n, err := c.g.NewNode(bg, newEntity(uid("new"+l)))
			if err == nil {
				err = c.g.AddNode(bg, n)
			}
			if err != nil {
				fin.Errf("adding a node afterwards: %v", err)
			}
		}
	}, func(h *H) string {
		for _, e := range h.Events() {
			switch {
			case e.Op.Name == "dot" && strings.Contains(e.Res, "{"):
				t, ok := dotCache[e.Res]
				if !ok {
					head, stmts, err := dotStmts(e.Res)
					if err != nil {
						return "malformed DOT text: " + err.Error() + "\n" + e.Res
					}
					if strings.HasPrefix(head, fmt.Sprintf("directed=%v ", dir)) {
						t = strings.Join(stmts, "; ")
					} else {
						t = head
					}
					if len(dotCache) > 20000 {
						dotCache = map[string]string{}
					}
					dotCache[e.Res] = t
				}
				e.Res = t
			}
		}
		return r.Lin(scope, m, h)
	})
}

// conc is a family of programs for threads over an alphabet.
type concFamily struct {
	name    string
	ops     []string
	threads int
	length  int
	bound   int
	starts  []int
}

// programs returns all multisets of threads, each with a sequence of length
// operations; with length 0, those of one thread with one operation and
// another with two.
func programs(nops, threads, length int) [][][]int {
	if length == 0 {
		var out [][][]int
		for a := 0; a < nops; a++ {
			for b := 0; b < nops; b++ {
				for c := 0; c < nops; c++ {
					out = append(out, [][]int{{a}, {b, c}})
				}
			}
		}
		return out
	}
	var seqs [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == length {
			seqs = append(seqs, append([]int(nil), cur...))
			return
		}
		for i := 0; i < nops; i++ {
			rec(append(cur, i))
		}
	}
	rec(nil)
	var out [][][]int
	var rec2 func(from int, cur [][]int)
	rec2 = func(from int, cur [][]int) {
		if len(cur) == threads {
			out = append(out, append([][]int(nil), cur...))
			return
		}
		for i := from; i < len(seqs); i++ {
			rec2(i, append(cur, seqs[i]))
		}
	}
	rec2(0, nil)
	return out
}

// graphLarge lets operations on a node with n neighbours, and the neighbours, run at the same time as others.
func graphLarge(r *R, dir bool, n, part, parts int) {
	all := graphConcOps()
	name := func(i int) string { return fmt.Sprintf("u%03d", i) }
	rm := func(u string) cgop {
		return opUID("rm", u, func(c *cg, u string) string { return gerr(c.g.RemoveNode(bg, suid(u))) })
	}
	unlink := func(u, v string) cgop {
		return opPair("unlink", u, v, func(c *cg, u, v string, n int) string { return gerr(c.g.Unlink(bg, uid(u), suid(v))) })
	}
	link := func(u, v string) cgop {
		return opPair("link", u, v, func(c *cg, u, v string, n int) string { return c.link(u, v, n) })
	}
	init := func() (*cg, *cgm) {
		c, m := cgInit(dir, "a", nil)
		add := func(u string) {
			nd, err := c.g.NewNode(bg, newEntity(uid(u), entity.WithAttrs(mkAttrs("l", u+"0"))))
			if err == nil {
				err = c.g.AddNode(bg, nd)
			}
			if err != nil {
				panic(err)
			}
			c.reg[nd] = u + "0"
			m.nodes[u] = u + "0"
			m.ids = joinIDs(m.ids, fmt.Sprintf("#%d#", nd.(*gmem.Node).ID()))
		}
		for i := 0; i < n; i++ {
			add(name(i))
			if s := c.link("a", name(i), 1000+i); s[0] != 'E' {
				panic(s)
			}
			m.edges[m.key("a", name(i))] = fmt.Sprintf("E%d:%d", 1000+i, 1000+i)
			if i > 0 && i%3 == 0 {
				if s := c.link(name(i-1), name(i), 5000+i); s[0] != 'E' {
					panic(s)
				}
				m.edges[m.key(name(i-1), name(i))] = fmt.Sprintf("E%d:%d", 5000+i, 5000+i)
			}
		}
		return c, m
	}
	k := 0
	for _, op := range []cgop{all["nodes()"], all["edges()"], all["from(a)"], all["rm(a)"], all["dot()"], all["sub(a,1)"], all["sub(a,2)"]} {
		for _, f := range []func(i int) cgop{func(i int) cgop { return rm(name(i)) }, func(i int) cgop { return unlink("a", name(i)) }, func(i int) cgop { return link(name(i), name((i+7)%n)) }} {
			for _, t := range [][]cgop{{f(0), f(n - 1)}, {f(n - 1), f(0)}, {f(n / 2), all["newadd(b)"]}, {all["newadd(b)"], f(n - 1)}, {f(0), rm("a")}} {
				if k++; k%parts != part || r.Viol != nil {
					continue
				}
				b := 2
				if strings.HasPrefix(op.name, "sub") {
					b = 1
				}
				r.concGraphOf(fmt.Sprintf("large/%s/%d: %s || %s; %s", kindName(dir), n, op.name, t[0].name, t[1].name), dir, fmt.Sprint("large ", n), init, vs.Config{Bound: b, MapDesc: k%2 == 1, Horizon: 1000000}, [][]cgop{{op}, t})
			}
		}
	}
}

func graphConcUnits() []Unit {
	all := graphConcOps()
	full := []string{"newadd(a)", "newadd(b)", "new(a)", "add(a1)", "ups(a1)", "ups(as)", "rm(a)", "rm(b)",
		"link(a,b)", "link(b,a)", "link(b,c)", "link(a,a)", "unlink(a,b)", "unlink(b,a)", "node(a)", "nodes()", "edges()",
		"edge(a,b)", "edge(b,a)", "from(a)", "from(b)", "sub(a,1)", "sub(a,2)", "dot()"}
	mid := []string{"newadd(a)", "ups(a1)", "rm(a)", "link(a,b)", "link(b,a)", "unlink(a,b)", "nodes()", "edges()", "from(a)", "sub(a,2)", "dot()"}
	small := []string{"newadd(a)", "ups(a1)", "rm(a)", "link(a,b)", "unlink(a,b)", "edges()", "sub(a,2)"}
	var fams []concFamily
	if raceMode() {
		fams = []concFamily{{"pairs", full, 2, 1, 2, []int{0, 2, 3, 4}}, {"triples", small, 3, 1, 1, []int{3}}}
		if thorough() {
			fams = []concFamily{{"pairs", full, 2, 1, 4, []int{0, 1, 2, 3, 4}}, {"triples", full, 3, 1, 1, []int{3}}, {"two each", small, 2, 2, 1, []int{3}}}
		}
	} else if thorough() {
		fams = []concFamily{
			{"pairs", full, 2, 1, 12, []int{0, 1, 2, 3, 4}},
			{"triples", full, 3, 1, 3, []int{0, 2, 3, 4}},
			{"two each", mid, 2, 2, 3, []int{1, 3}},
			{"one and two", full, 2, 0, 3, []int{0, 2, 3, 4}},
			{"three each", small, 2, 3, 1, []int{3}},
			{"four", mid, 4, 1, 2, []int{1, 3}},
		}
	} else {
		fams = []concFamily{
			{"pairs", full, 2, 1, 6, []int{0, 1, 2, 3, 4}},
			{"triples", full, 3, 1, 2, []int{0, 3}},
			{"two each", small, 2, 2, 2, []int{1, 3}},
			{"one and two", full, 2, 0, 2, []int{3}},
		}
	}
	var us []Unit
	for _, f := range fams {
		for _, dir := range []bool{true, false} {
			for _, si := range f.starts {
				st := cgStarts[si]
				ps := programs(len(f.ops), f.threads, f.length)
				const parts = 4
				for p := 0; p < parts; p++ {
					f, dir, st, p := f, dir, st, p
					name := fmt.Sprintf("%s/%s/%s/%d", f.name, kindName(dir), st.name, p)
					us = append(us, Unit{Name: name, Race: true, Run: func(r *R) {
						for i, prog := range ps {
							if i%parts != p {
								continue
							}
							var ts [][]cgop
							var names []string
							for _, seq := range prog {
								var t []cgop
								var n []string
								for _, k := range seq {
									t = append(t, all[f.ops[k]])
									n = append(n, f.ops[k])
								}
								ts = append(ts, t)
								names = append(names, strings.Join(n, ";"))
							}
							r.concGraph(name+": "+strings.Join(names, " || "), dir, st, vs.Config{Bound: f.bound, MapDesc: i%2 == 1}, ts)
							if r.Viol != nil {
								return
							}
						}
					}})
				}
			}
		}
	}
	for p := 0; p < 4 && !raceMode(); p++ {
		p := p
		us = append(us, Unit{Name: fmt.Sprintf("large/%d", p), Run: func(r *R) { graphLarge(r, p%2 == 1, reach(pick(40, 140), 270, "graph/memory"), p/2, 2) }})
	}
	return us
}
