//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/graph"
	gmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
	"github.com/milosgajdos/netscrape/verifmc/vs"
	"gonum.org/v1/gonum/graph/encoding"
)

// C20: constructed values.

func init() { checks["C20"] = valueUnits }

// vopts are the options given to a constructor: numbers of vopt.
type vopt struct {
	name string
	ent  func(a []attrs.Attrs) entity.Option
	lnk  func(a []attrs.Attrs) link.Option
	gr   func(a []attrs.Attrs) graph.Option
	mod  func(w *vwant)
}

// vwant is what the options ask for.
type vwant struct {
	uid    string // "" if not given
	attrs  int    // -1 if not given, else index of the attributes
	dot    string // "" if not given
	weight float64
}

// the contents of the attributes that can be given
var vattrs = []map[string]string{{"k": "v", "": "e"}, {"l": "w"}, {}}

func newVattrs() []attrs.Attrs {
	return []attrs.Attrs{memattrs.NewFromMap(vattrs[0]), fixed{"l", "w"}, memattrs.New()}
}

func voptUID(name string, u uuid.UID, want string) vopt {
	return vopt{name,
		func([]attrs.Attrs) entity.Option { return entity.WithUID(u) },
		func([]attrs.Attrs) link.Option { return link.WithUID(u) },
		func([]attrs.Attrs) graph.Option { return graph.WithUID(u) },
		func(w *vwant) { w.uid = want }}
}

func voptAttrs(name string, i int) vopt {
	get := func(a []attrs.Attrs) attrs.Attrs {
		if i < 0 {
			return nil
		}
		return a[i]
	}
	return vopt{name,
		func(a []attrs.Attrs) entity.Option { return entity.WithAttrs(get(a)) },
		func(a []attrs.Attrs) link.Option { return link.WithAttrs(get(a)) },
		func(a []attrs.Attrs) graph.Option { return graph.WithAttrs(get(a)) },
		func(w *vwant) { w.attrs = i }}
}

func voptDOT(d string) vopt {
	return vopt{fmt.Sprintf("DOTID %q", d),
		func([]attrs.Attrs) entity.Option { return entity.WithDOTID(d) },
		nil,
		func([]attrs.Attrs) graph.Option { return graph.WithDOTID(d) },
		func(w *vwant) { w.dot = d }}
}

func voptWeight(x float64) vopt {
	return vopt{fmt.Sprint("weight ", x), nil, nil,
		func([]attrs.Attrs) graph.Option { return graph.WithWeight(x) },
		func(w *vwant) { w.weight = x }}
}

var valueOpts = []vopt{
	voptUID("UID a", uid("a"), "a"),
	voptUID("UID b/\"", suid("b/\""), "b/\""),
	voptUID("UID nil", nil, ""),
	voptAttrs("attrs 0", 0),
	voptAttrs("attrs 1", 1),
	voptAttrs("attrs 2", 2),
	voptAttrs("attrs nil", -1),
	voptDOT("d"),
	voptDOT("x y/\"é"),
	voptDOT(""),
	voptWeight(2.5),
	voptWeight(0),
	voptWeight(math.NaN()),
	voptWeight(math.Copysign(0, -1)),
	voptWeight(math.Inf(-1)),
	{"merge", nil, func([]attrs.Attrs) link.Option { return link.WithMerge(true) }, nil, func(*vwant) {}},
	{"name", nil, nil, func([]attrs.Attrs) graph.Option { return graph.WithName("a name") }, func(*vwant) {}},
}

// made is a constructed value with all that it reports.
type made struct {
	uid    func() string
	attrs  func() attrs.Attrs // nil if it has none
	fields func() string      // everything but UID, attributes and DOT ID
	dot    func() string      // nil if it has none
	setDOT func(string)       // nil if it cannot be set
	more   func() string      // further checks of the value
	others func() string      // things that do not change with it
}

// vkind is a constructor.
type vkind struct {
	name string
	opts []int // the options it takes
	nf   int   // number of different field values
	// mk makes a value with the fields number f
	mk func(f int, o []int, a []attrs.Attrs) (made, error)
	// want is what it should report given the options; UID "" is a fresh one,
	// DOT ID "\x00" is the UID.
	want func(f int, o []int) (uid, fields, dot string, attrs map[string]string, shared bool)
}

func foldOpts(o []int) vwant {
	w := vwant{attrs: -1}
	for _, i := range o {
		valueOpts[i].mod(&w)
	}
	return w
}

func (w vwant) content() map[string]string {
	if w.attrs < 0 {
		return map[string]string{}
	}
	return vattrs[w.attrs]
}

func entOpts(o []int, a []attrs.Attrs) []entity.Option {
	var l []entity.Option
	for _, i := range o {
		l = append(l, valueOpts[i].ent(a))
	}
	return l
}

func graphOpts(o []int, a []attrs.Attrs) []graph.Option {
	var l []graph.Option
	for _, i := range o {
		l = append(l, valueOpts[i].gr(a))
	}
	return l
}

var vstr = []string{"", "a", "b/\"", "é c"}

type spaceEnt interface {
	space.Entity
	DOTID() string
	SetDOTID(string)
}

func entMade(e spaceEnt, fields func() string) made {
	return made{
		uid:    func() string { return e.UID().String() },
		attrs:  func() attrs.Attrs { return e.Attrs() },
		fields: fields,
		dot:    func() string { return e.DOTID() },
		setDOT: e.SetDOTID,
	}
}

const ownUID = "\x00"

// dotEnt is an entity of our own with a DOT ID.
type dotEnt struct {
	tent
	d string
}

func (e *dotEnt) DOTID() string     { return e.d }
func (e *dotEnt) SetDOTID(d string) { e.d = d }

// dotterEnt also has DOT attributes.
type dotterEnt struct{ dotEnt }

func (e *dotterEnt) Attributes() []encoding.Attribute { return nil }

// nodeEnts are the entities of nodes: with their DOT ID and attributes, and
// whether they share the attributes with the node.
var nodeEnts = []func() (graph.Entity, string, string){
	func() (graph.Entity, string, string) { return &tent{uid("n"), "t", memattrs.New()}, "n", "" },
	func() (graph.Entity, string, string) { return &tent{suid(""), "", nil}, "", "" },
	func() (graph.Entity, string, string) {
		return &tent{suid("x y"), "t", fixed{"p", "q"}}, "x y", `"p"="q",`
	},
	func() (graph.Entity, string, string) {
		return &dotEnt{tent{uid("n"), "t", fixed{"p", "q"}}, "own"}, "own", `"p"="q",`
	},
	func() (graph.Entity, string, string) {
		return &dotterEnt{dotEnt{tent{uid("n"), "t", nil}, "dotter"}}, "dotter", ""
	},
	func() (graph.Entity, string, string) {
		e, err := entity.New("t", entity.WithUID(uid("n")), entity.WithAttrs(memattrs.NewFromMap(map[string]string{"p": "q"})))
		if err != nil {
			panic(err)
		}
		return e, "n", `"p"="q",`
	},
	func() (graph.Entity, string, string) {
		e, err := entity.New("t", entity.WithUID(uid("n")), entity.WithDOTID("ent"))
		if err != nil {
			panic(err)
		}
		return e, "ent", ""
	},
	func() (graph.Entity, string, string) {
		e, err := entity.NewResource("t", "name", "g", "v", "k", true, entity.WithUID(uid("n")))
		if err != nil {
			panic(err)
		}
		return e, "g/v/k", ""
	},
	func() (graph.Entity, string, string) {
		e, err := entity.NewObject("t", "name", "ns", nil, entity.WithUID(uid("n")))
		if err != nil {
			panic(err)
		}
		return e, "n", ""
	},
}

func init() {
	nodeEnts = append(nodeEnts, func() (graph.Entity, string, string) {
		return &tent{suid(vstr[2]), vstr[2], nil}, vstr[2], ""
	}, func() (graph.Entity, string, string) {
		e, err := entity.NewObject("t", vstr[2], vstr[1], nil, entity.WithUID(suid(vstr[2])))
		if err != nil {
			panic(err)
		}
		return e, vstr[2], ""
	}, func() (graph.Entity, string, string) {
		return &dotEnt{tent{uid("n"), "t", nil}, vstr[2]}, vstr[2], ""
	})
}

func entRep(e graph.Entity) string {
	s := fmt.Sprintf("%q %q %s", e.UID().String(), e.Type(), attrStr(e.Attrs()))
	if d, ok := e.(graph.DOTEntity); ok {
		s += fmt.Sprintf(" %q", d.DOTID())
	}
	return s
}

// vkinds returns the constructors.
func vkinds() []vkind {
	var ks []vkind
	ent := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	ks = append(ks, vkind{"entity", ent, len(vstr),
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			e, err := entity.New(vstr[f], entOpts(o, a)...)
			if err != nil {
				return made{}, err
			}
			return entMade(e, func() string { return fmt.Sprintf("%q", e.Type()) }), nil
		},
		func(f int, o []int) (string, string, string, map[string]string, bool) {
			w := foldOpts(o)
			dot := w.dot
			if dot == "" {
				dot = ownUID
			}
			return w.uid, fmt.Sprintf("%q", vstr[f]), dot, w.content(), w.attrs >= 0
		}})
	ks = append(ks, vkind{"resource", ent, product(3, 3, 3, 3, 3, 2),
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			d := mixed(f, 3, 3, 3, 3, 3, 2)
			e, err := entity.NewResource(vstr[d[0]], vstr[d[1]], vstr[d[2]], vstr[d[3]], vstr[d[4]], d[5] == 1, entOpts(o, a)...)
			if err != nil {
				return made{}, err
			}
			return entMade(e, func() string {
				return fmt.Sprintf("%q %q %q %q %q %t", e.Type(), e.Name(), e.Group(), e.Version(), e.Kind(), e.Namespaced())
			}), nil
		},
		func(f int, o []int) (string, string, string, map[string]string, bool) {
			d := mixed(f, 3, 3, 3, 3, 3, 2)
			w := foldOpts(o)
			dot := w.dot
			if dot == "" {
				dot = vstr[d[2]] + "/" + vstr[d[3]] + "/" + vstr[d[4]]
			}
			return w.uid, fmt.Sprintf("%q %q %q %q %q %t", vstr[d[0]], vstr[d[1]], vstr[d[2]], vstr[d[3]], vstr[d[4]], d[5] == 1), dot, w.content(), w.attrs >= 0
		}})
	ob := []int{3, 3, 3, 3, 2, 2, 2}
	ks = append(ks, vkind{"object", ent, product(ob...),
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			d := mixed(f, ob...)
			v := &val{kind: "resource", uid: "r", typ: "rt", name: "rn", group: vstr[d[4]], ver: vstr[1+d[5]], rkind: vstr[2*d[6]]}
			var res space.Resource
			if d[3] > 0 {
				res = v.make(d[3] - 1).(space.Resource)
			}
			e, err := entity.NewObject(vstr[d[0]], vstr[d[1]], vstr[d[2]], res, entOpts(o, a)...)
			if err != nil {
				return made{}, err
			}
			m := entMade(e, func() string {
				s := fmt.Sprintf("%q %q %q", e.Type(), e.Name(), e.Namespace())
				if r := e.Resource(); r != nil {
					s += fmt.Sprintf(" %q %q %q %q %q", r.UID().String(), r.Name(), r.Group(), r.Version(), r.Kind())
				}
				return s
			})
			m.others = func() string { return fmt.Sprint(valOf(res, "resource")) }
			if res == nil {
				m.others = nil
			}
			return m, nil
		},
		func(f int, o []int) (string, string, string, map[string]string, bool) {
			d := mixed(f, ob...)
			w := foldOpts(o)
			dot := w.dot
			fields := fmt.Sprintf("%q %q %q", vstr[d[0]], vstr[d[1]], vstr[d[2]])
			g, v, k := vstr[d[4]], vstr[1+d[5]], vstr[2*d[6]]
			if d[3] > 0 {
				fields += fmt.Sprintf(" %q %q %q %q %q", "r", "rn", g, v, k)
			}
			if dot == "" {
				dot = ownUID
				if d[3] > 0 {
					dot = strings.Join([]string{g, v, k, vstr[d[2]], vstr[d[1]]}, "/")
				}
			}
			return w.uid, fields, dot, w.content(), w.attrs >= 0
		}})
	ks = append(ks, vkind{"link", []int{0, 1, 2, 3, 4, 5, 6, 15}, 16,
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			d := mixed(f, 4, 4)
			var l []link.Option
			for _, i := range o {
				l = append(l, valueOpts[i].lnk(a))
			}
			x, err := link.New(uid(vstr[d[0]]), suid(vstr[d[1]]), l...)
			if err != nil {
				return made{}, err
			}
			return made{
				uid:    func() string { return x.UID().String() },
				attrs:  func() attrs.Attrs { return x.Attrs() },
				fields: func() string { return fmt.Sprintf("%q %q", x.From().String(), x.To().String()) },
			}, nil
		},
		func(f int, o []int) (string, string, string, map[string]string, bool) {
			d := mixed(f, 4, 4)
			w := foldOpts(o)
			return w.uid, fmt.Sprintf("%q %q", vstr[d[0]], vstr[d[1]]), "", w.content(), w.attrs >= 0
		}})
	nodeMade := func(n *gmem.Node, e graph.Entity) made {
		return made{
			uid:    func() string { return n.UID().String() },
			attrs:  func() attrs.Attrs { return n.Attrs() },
			fields: func() string { return fmt.Sprintf("%q", n.Type()) },
			dot:    func() string { return n.DOTID() },
			setDOT: n.SetDOTID,
			more:   func() string { return diffOf("Attributes", dotStr(n.Attributes()), dotOf(n.Attrs())) },
			others: func() string { return fmt.Sprintf("%d %s", n.ID(), entRep(e)) },
		}
	}
	nodeWant := func(f int, o []int) (string, string, string, map[string]string, bool) {
		w := foldOpts(o)
		e, dot, as := nodeEnts[f]()
		if w.dot != "" {
			dot = w.dot
		}
		m := w.content()
		if w.attrs < 0 && as != "" {
			m = map[string]string{"p": "q"}
		}
		return e.UID().String() + "\x01", fmt.Sprintf("%q", e.Type()), dot, m, w.attrs >= 0
	}
	gn := []int{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16}
	ids := []int64{0, 1, -5, math.MaxInt64}
	ks = append(ks, vkind{"node", gn, len(nodeEnts),
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			e, _, _ := nodeEnts[f]()
			id := ids[(f+len(o))%len(ids)]
			n, err := gmem.NewNode(id, e, graphOpts(o, a)...)
			if err != nil {
				return made{}, err
			}
			m := nodeMade(n, e)
			more := m.more
			m.more = func() string {
				if n.ID() != id {
					return fmt.Sprintf("ID %d, want %d", n.ID(), id)
				}
				return more()
			}
			return m, nil
		}, nodeWant})
	for _, dir := range []bool{false, true} {
		dir := dir
		ks = append(ks, vkind{fmt.Sprintf("node of a graph, directed %t", dir), gn, len(nodeEnts),
			func(f int, o []int, a []attrs.Attrs) (made, error) {
				g, err := newValueGraph(dir)
				if err != nil {
					return made{}, err
				}
				e, _, _ := nodeEnts[f]()
				n, err := g.NewNode(bg, e, graphOpts(o, a)...)
				if err != nil {
					return made{}, err
				}
				return nodeMade(n.(*gmem.Node), e), nil
			}, nodeWant})
	}
	ge := []int{0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16}
	edgeWant := func(f int, o []int) (string, string, string, map[string]string, bool) {
		w := foldOpts(o)
		dot := w.dot
		if dot == "" {
			dot = ownUID
		} else {
			w.uid = dot
		}
		from, to := "x", "y"
		if f == 1 {
			from, to = "y", "x"
		}
		if f == 2 {
			to = "x"
		}
		return w.uid, fmt.Sprintf("%s->%s %s", from, to, bits(w.weight)), dot, w.content(), w.attrs >= 0
	}
	ks = append(ks, vkind{"edge", ge, 3,
		func(f int, o []int, a []attrs.Attrs) (made, error) {
			x, err := gmem.NewNode(7, &tent{uid("x"), "t", nil})
			if err != nil {
				return made{}, err
			}
			y, err := gmem.NewNode(9, &tent{uid("y"), "t", nil})
			if err != nil {
				return made{}, err
			}
			if f == 1 {
				x, y = y, x
			}
			if f == 2 {
				y = x
			}
			e, err := gmem.NewEdge(x, y, graphOpts(o, a)...)
			if err != nil {
				return made{}, err
			}
			return edgeMade(e), nil
		}, edgeWant})
	for _, dir := range []bool{false, true} {
		dir := dir
		ks = append(ks, vkind{fmt.Sprintf("edge of a graph, directed %t", dir), ge, 2,
			func(f int, o []int, a []attrs.Attrs) (made, error) {
				g, err := newValueGraph(dir)
				if err != nil {
					return made{}, err
				}
				for _, u := range []string{"x", "y"} {
					n, err := g.NewNode(bg, &tent{uid(u), "t", nil})
					if err != nil {
						return made{}, err
					}
					if err := g.AddNode(bg, n); err != nil {
						return made{}, err
					}
				}
				from, to := uid("x"), uid("y")
				if f == 1 {
					from, to = to, from
				}
				e, err := g.Link(bg, from, to, graphOpts(o, a)...)
				if err != nil {
					return made{}, err
				}
				return edgeMade(e.(*gmem.Edge)), nil
			}, edgeWant})
	}
	for _, dir := range []bool{false, true} {
		dir := dir
		ks = append(ks, vkind{fmt.Sprintf("graph, directed %t", dir), []int{0, 1, 2, 7, 8, 9, 10, 16}, 1,
			func(f int, o []int, a []attrs.Attrs) (made, error) {
				m := made{fields: func() string { return "" }}
				if dir {
					g, err := gmem.NewWDG(graphOpts(o, a)...)
					if err != nil {
						return m, err
					}
					m.uid, m.dot = func() string { return g.UID().String() }, func() string { return g.DOTID() }
					return m, nil
				}
				g, err := gmem.NewWUG(graphOpts(o, a)...)
				if err != nil {
					return m, err
				}
				m.uid, m.dot = func() string { return g.UID().String() }, func() string { return g.DOTID() }
				return m, nil
			},
			func(f int, o []int) (string, string, string, map[string]string, bool) {
				w := foldOpts(o)
				dot := w.dot
				if dot == "" {
					dot = ownUID
				}
				return w.uid, "", dot, nil, false
			}})
	}
	return ks
}

func newValueGraph(dir bool) (gmem.Graph, error) {
	if dir {
		g, err := gmem.NewWDG()
		return g, err
	}
	g, err := gmem.NewWUG()
	return g, err
}

func edgeMade(e *gmem.Edge) made {
	rep := func(e *gmem.Edge) string {
		return fmt.Sprintf("%q %q %s %s", e.UID().String(), e.DOTID(), bits(e.Weight()), attrStr(e.Attrs()))
	}
	return made{
		uid:   func() string { return e.UID().String() },
		attrs: func() attrs.Attrs { return e.Attrs() },
		fields: func() string {
			f, err := e.FromNode()
			if err != nil {
				return err.Error()
			}
			t, err := e.ToNode()
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%s->%s %s", f.UID(), t.UID(), bits(e.Weight()))
		},
		dot:    func() string { return e.DOTID() },
		setDOT: e.SetDOTID,
		more: func() string {
			if d := diffOf("Attributes", dotStr(e.Attributes()), dotOf(e.Attrs())); d != "" {
				return d
			}
			f, _ := e.FromNode()
			t, _ := e.ToNode()
			if f.(*gmem.Node).ID() != e.From().ID() || t.(*gmem.Node).ID() != e.To().ID() {
				return "From and To differ from FromNode and ToNode"
			}
			before := rep(e)
			r, ok := e.ReversedEdge().(*gmem.Edge)
			if !ok {
				return fmt.Sprintf("reversed edge is a %T", e.ReversedEdge())
			}
			rf, _ := r.FromNode()
			rt, _ := r.ToNode()
			if r.From().ID() != e.To().ID() || r.To().ID() != e.From().ID() || rf.UID().String() != t.UID().String() || rt.UID().String() != f.UID().String() {
				return "the reversed edge has other ends"
			}
			if d := diffOf("reversed edge", rep(r), before); d != "" {
				return d
			}
			rr := r.ReversedEdge()
			if rr.From().ID() != e.From().ID() || rr.To().ID() != e.To().ID() {
				return "an edge reversed twice has other ends"
			}
			return diffOf("edge after ReversedEdge", rep(e), before)
		},
	}
}

// checkValue makes two values with the fields f and options o.
func (k vkind) checkValue(f int, o []int, seen map[string]bool) string {
	uidW, fieldsW, dotW, attrsW, given := k.want(f, o)
	fixedUID := strings.HasSuffix(uidW, "\x01")
	uidW = strings.TrimSuffix(uidW, "\x01")
	given2 := make([]attrs.Attrs, 0)
	a := append(given2, newVattrs()...)
	var vs [2]made
	var us [2]string
	for i := range vs {
		x, err := k.mk(f, o, a)
		if err != nil {
			return "error " + err.Error()
		}
		vs[i] = x
		us[i] = x.uid()
		if uidW == "" && !fixedUID {
			if us[i] == "" || seen[us[i]] {
				return fmt.Sprintf("the UID %q is not fresh", us[i])
			}
			seen[us[i]] = true
		} else if d := diffOf("UID", us[i], uidW); d != "" {
			return d
		}
	}
	rep := func(i int, dot string, am map[string]string) string {
		x := vs[i]
		if d := diffOf("UID", x.uid(), us[i]); d != "" {
			return d
		}
		if d := diffOf("fields", x.fields(), fieldsW); d != "" {
			return d
		}
		if x.dot != nil {
			if dot == ownUID {
				dot = us[i]
			}
			if d := diffOf("DOTID", fmt.Sprintf("%q", x.dot()), fmt.Sprintf("%q", dot)); d != "" {
				return d
			}
		}
		if x.attrs != nil {
			if x.attrs() == nil {
				return "Attrs are nil"
			}
			if d := diffOf("Attrs", attrStr(x.attrs()), mapStr(am)); d != "" {
				return d
			}
		}
		if x.more != nil {
			return x.more()
		}
		return ""
	}
	for i := range vs {
		if d := rep(i, dotW, attrsW); d != "" {
			return d
		}
	}
	if x := vs[0]; x.setDOT != nil {
		others := ""
		if x.others != nil {
			others = x.others()
		}
		for _, s := range []string{"set", vstr[2], "", "again"} {
			x.setDOT(s)
			if d := rep(0, s, attrsW); d != "" {
				return fmt.Sprintf("after SetDOTID(%q): %s", s, d)
			}
			if d := rep(1, dotW, attrsW); d != "" {
				return fmt.Sprintf("after SetDOTID(%q) on another value: %s", s, d)
			}
			if x.others != nil {
				if d := diffOf(fmt.Sprintf("after SetDOTID(%q)", s), x.others(), others); d != "" {
					return d
				}
			}
		}
		dotW0 := "again"
		if d := rep(0, dotW0, attrsW); d != "" {
			return d
		}
	}
	if vs[0].attrs == nil {
		return ""
	}
	if _, ro := vs[0].attrs().(fixed); ro {
		return ""
	}
	if err := vs[0].attrs().Set(bg, "new", "value"); err != nil {
		return "Set: " + err.Error()
	}
	if v, err := vs[0].attrs().Get(bg, "new"); err != nil || v != "value" {
		return fmt.Sprintf("an attribute set to \"value\" is then %q, %v", v, err)
	}
	if !given {
		if d := rep(1, dotW, attrsW); d != "" {
			return "after setting an attribute of another value: " + d
		}
		z, err := k.mk(f, o, newVattrs())
		if err != nil {
			return "error " + err.Error()
		}
		return diffOf("attributes of a value made later", attrStr(z.attrs()), mapStr(attrsW))
	}
	return ""
}

func optNames(o []int) string {
	var s []string
	for _, i := range o {
		s = append(s, valueOpts[i].name)
	}
	return strings.Join(s, ", ")
}

// specialValues makes values of strings that are easily confused, and of the
// strings in the code.
func specialValues(r *R) {
	type save struct {
		v    string
		u, d vopt
		a    map[string]string
	}
	was := save{vstr[2], valueOpts[1], valueOpts[8], vattrs[0]}
	val := "7"
	set := func(s string) {
		vstr[2], valueOpts[1], valueOpts[8], vattrs[0] = s, voptUID(fmt.Sprintf("UID %q", s), suid(s), s), voptDOT(s), map[string]string{s: val, "k": s}
	}
	defer func() { vstr[2], valueOpts[1], valueOpts[8], vattrs[0] = was.v, was.u, was.d, was.a }()
	type item struct {
		k vkind
		f int
		o []int
	}
	var items []item
	for _, k := range vkinds() {
		has := map[int]bool{}
		for _, o := range k.opts {
			has[o] = true
		}
		var os [][]int
		for _, o := range [][]int{nil, {1}, {8}, {3}, {1, 8, 3}, {8, 1}} {
			ok := true
			for _, i := range o {
				ok = ok && has[i]
			}
			if ok {
				os = append(os, o)
			}
		}
		for f := 0; f < k.nf; f++ {
			if k.nf > 16 {
				n := 3
				if k.name == "resource" {
					n = 5
				}
				d := mixed(f, 3, 3, 3, 3, 3, 3)
				twos, zero := 0, false
				for _, x := range d[:n] {
					zero = zero || x == 0
					if x == 2 {
						twos++
					}
				}
				if zero || twos != 1 && twos != n {
					continue
				}
			}
			for _, o := range os {
				items = append(items, item{k, f, o})
			}
		}
	}
	var sp []string
	for _, s := range specials() {
		if s != "" {
			sp = append(sp, s)
		}
	}
	for _, n := range sizes(pick(300, 70000)) {
		sp = append(sp, longName(n, "x"))
	}
	seen := map[string]bool{}
	at := func(i int) item { set(sp[i/len(items)]); return items[i%len(items)] }
	r.Batch("values", len(sp)*len(items), false, func(i int) string {
		it := at(i)
		return fmt.Sprintf("%s of %.100q: fields %d, options [%.200s]", it.k.name, sp[i/len(items)], it.f, optNames(it.o))
	}, func(i int) string {
		if i%batchChunk == 0 {
			seen = map[string]bool{}
		}
		it := at(i)
		return it.k.checkValue(it.f, it.o, seen)
	})
	// attributes with names out of the code, and values that can be parsed
	sp, val = nil, "true"
	for _, s := range dictStrings(pick(60, 150)) {
		if s != "" {
			sp = append(sp, s)
		}
	}
	r.Batch("attributes", len(sp)*len(items), false, func(i int) string {
		it := at(i)
		return fmt.Sprintf("%s with attribute %q: fields %d, options [%.200s]", it.k.name, sp[i/len(items)], it.f, optNames(it.o))
	}, func(i int) string {
		if i%batchChunk == 0 {
			seen = map[string]bool{}
		}
		it := at(i)
		return it.k.checkValue(it.f, it.o, seen)
	})
}

func valueUnits() []Unit {
	var us []Unit
	for _, k := range vkinds() {
		k := k
		us = append(us, Unit{Name: "options/" + k.name, Run: func(r *R) {
			seen := map[string]bool{}
			ls := lists(len(k.opts), pick(4, 5))
			opt := func(l []int) []int {
				var o []int
				for _, i := range l {
					o = append(o, k.opts[i])
				}
				return o
			}
			// few fields with all lists of options
			fs := []int{0, 1}
			if k.nf > 2 {
				fs = append(fs, k.nf/2, k.nf-1)
			} else if k.nf == 1 {
				fs = fs[:1]
			}
			if strings.HasPrefix(k.name, "node") {
				fs = nil
				for i := 0; i < k.nf; i++ {
					fs = append(fs, i)
				}
			}
			small := len(lists(len(k.opts), 3))
			n := len(ls)
			if len(fs) > 2 && n > 200000/len(fs) || strings.Contains(k.name, " of a graph") {
				// the longest lists with one of the fields only
				n = small + (len(ls)-small)/len(fs)
			}
			at := func(i int) (int, []int) {
				l := i / len(fs)
				if n < len(ls) && i >= small*len(fs) {
					i -= small * len(fs)
					return fs[i%len(fs)], opt(ls[small+i])
				}
				return fs[i%len(fs)], opt(ls[l])
			}
			total := n * len(fs)
			if n < len(ls) {
				total = small*len(fs) + (len(ls) - small)
			}
			r.Batch(k.name, total, false,
				func(i int) string { f, o := at(i); return fmt.Sprintf("fields %d, options [%s]", f, optNames(o)) },
				func(i int) string {
					if i%batchChunk == 0 {
						seen = map[string]bool{} // UIDs begin anew with an execution
					}
					f, o := at(i)
					return k.checkValue(f, o, seen)
				})
			// all fields with short lists of options
			l2 := lists(len(k.opts), 1)
			at = func(i int) (int, []int) { return i % k.nf, opt(l2[i/k.nf]) }
			r.Batch(k.name+", fields", k.nf*len(l2), true,
				func(i int) string { f, o := at(i); return fmt.Sprintf("fields %d, options [%s]", f, optNames(o)) },
				func(i int) string {
					if i%batchChunk == 0 {
						seen = map[string]bool{} // UIDs begin anew with an execution
					}
					f, o := at(i)
					return k.checkValue(f, o, seen)
				})
		}})
	}
	us = append(us, Unit{Name: "special strings", Run: specialValues})
	us = append(us, Unit{Name: "message types", Run: func(r *R) {
		names := map[broker.Type]string{broker.Entity: "Entity", broker.Object: "Object", broker.Resource: "Resource", broker.Link: "Link"}
		const n = 70000
		r.Batch("type", n, false, func(i int) string { return fmt.Sprint("type ", i-n/2) }, func(i int) string {
			t := broker.Type(i - n/2)
			want, ok := names[t]
			if !ok {
				want = "Unknown"
			}
			if got := t.String(); got != want || fmt.Sprint(t) != want {
				return fmt.Sprintf("the message type %d has the name %q, want %q", int(t), got, want)
			}
			return ""
		})
	}})
	us = append(us, Unit{Name: "UIDs", Run: func(r *R) {
		seen := map[string]bool{}
		r.Batch("new UIDs", pick(200000, 1000000), false, func(i int) string { return fmt.Sprint("UID ", i) }, func(i int) string {
			if i%batchChunk == 0 {
				seen = map[string]bool{}
			}
			u := memuid.New()
			s := u.String()
			if s == "" || seen[s] || u.String() != s {
				return fmt.Sprintf("the UID %q is not fresh", s)
			}
			seen[s] = true
			return ""
		})
		r.Batch("a long history of new UIDs", 1, false, func(int) string { return "new UIDs" }, func(int) string {
			seen := map[string]bool{}
			for i := 0; i < pick(400000, 3000000); i++ {
				s := memuid.New().String()
				if seen[s] {
					return fmt.Sprintf("after %d UIDs, the UID %q is not fresh", i, s)
				}
				seen[s] = true
			}
			return ""
		})
		ss := []string{}
		for _, l := range lists(6, 4) {
			s := ""
			for _, c := range l {
				s += []string{"a", "A", " ", "\x00", "é", "\xff"}[c]
			}
			ss = append(ss, s)
		}
		r.Batch("UIDs from strings", len(ss), false, func(i int) string { return fmt.Sprintf("%q", ss[i]) }, func(i int) string {
			return diffOf("UID", memuid.NewFromString(ss[i]).String(), ss[i])
		})
	}})
	// values made at the same time
	ctors := []struct {
		name string
		mk   func() made
	}{}
	for _, k := range vkinds() {
		k := k
		if strings.HasPrefix(k.name, "node") || strings.Contains(k.name, " of a graph") {
			continue
		}
		ctors = append(ctors, struct {
			name string
			mk   func() made
		}{k.name, func() made {
			x, err := k.mk(0, nil, nil)
			if err != nil {
				panic(err)
			}
			return x
		}})
	}
	us = append(us, Unit{Name: "concurrent", Race: true, Run: func(r *R) {
		for i := range ctors {
			for j := i; j < len(ctors); j++ {
				pair := []int{i, j, i}
				r.Sched(fmt.Sprintf("%s || %s || %s", ctors[i].name, ctors[j].name, ctors[i].name), vs.Config{Bound: pick(3, 4)}, func(h *H) {
					vs.Explore(false)
					for t, c := range pair {
						t, c := h.T(t), ctors[c]
						vs.Thread(c.name, func() {
							t.Do(Op{"make", nil}, func() string {
								vs.Yield()
								x := c.mk()
								vs.Yield()
								u := x.uid()
								if x.attrs != nil {
									if err := x.attrs().Set(bg, "of", u); err != nil {
										t.Errf("Set: %v", err)
									}
									vs.Yield()
									if got, want := attrStr(x.attrs()), fmt.Sprintf("%q=%q,", "of", u); got != want {
										t.Errf("the attributes are %s, want %s", got, want)
									}
								}
								return u
							})
						})
					}
					vs.Explore(true)
					vs.Join()
					vs.Explore(false)
				}, func(h *H) string {
					seen := map[string]bool{}
					for t := range pair {
						u := h.T(t).evs[0].Res
						if u == "" || seen[u] {
							return fmt.Sprintf("the UID %q is not fresh", u)
						}
						seen[u] = true
					}
					return ""
				})
			}
		}
	}})
	return us
}
