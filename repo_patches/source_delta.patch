From b0079f60826618ea5e16bfeb7e3ea58d4f7e8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 01/27] fix: release the graph read lock taken by DOT

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From 84c1d8faf573947aee7aac230df313cf8baa9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 02/27] fix: keep entity attributes in graph nodes created
 without WithAttrs

---
 pkg/graph/memory/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/graph/memory/node.go b/pkg/graph/memory/node.go
index 6e360aa..3d91fe4 100644
--- a/pkg/graph/memory/node.go
+++ b/pkg/graph/memory/node.go
@@ -38,6 +38,9 @@ func NewNode(id int64, e graph.Entity, opts ...graph.Option) (*Node, error) {
 	}
 
 	a := nopts.Attrs
+	if a == nil {
+		a = e.Attrs()
+	}
 	if a == nil {
 		a = memattrs.New()
 	}
-- 
2.43.0


From 31527100b79dd769cf9e9ca9e0761646d04c8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 03/27] fix: make graph Link atomic and free of recursive read
 locking

---
 pkg/graph/memory/wg.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..6afe55f 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -188,33 +188,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -231,6 +225,12 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
+	return g.edge(uid, vid)
+}
+
+// edge returns edge between nodes with the given UIDs.
+// NOTE: it must be called with g.mu held.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
-- 
2.43.0


From ea9f3db2572e0d0a338bebcb36b341702875c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 04/27] fix: return error instead of panicking when linking a
 node to itself

---
 pkg/graph/memory/wg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 6afe55f..fb72e18 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -186,7 +186,8 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph
+// or if from and to is the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -210,6 +211,11 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	// NOTE: the underlying graphs do not support self edges
+	if f == t {
+		return nil, graph.ErrUnsupported
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From da201394f77d7c2a72c351921a75cd2339945f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 05/27] fix: make graph RemoveNode and Unlink atomic

---
 pkg/graph/memory/wg.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index fb72e18..60523cd 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -162,22 +162,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -299,26 +296,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 75212afc3bd75b20ea910b19083b6f09b93f716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 06/27] fix: hold the graph read lock for the whole of SubGraph

---
 pkg/graph/memory/wg.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 60523cd..5be8181 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -320,12 +320,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -351,11 +351,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
-- 
2.43.0


From 17253edcf4d5687969663853f91abdcca846f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 07/27] fix: give subgraph edges the weight and attributes of
 the edges they stand for

---
 pkg/graph/memory/wg.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 5be8181..fc84903 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -365,24 +365,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
+				if we := g.WeightedEdge(id, peer.ID()); we != nil {
+					e := we.(*Edge)
+
+					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+					if err != nil {
+						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+					}
+
+					opts := []graph.Option{
+						graph.WithAttrs(a),
+						graph.WithWeight(e.Weight()),
+					}
+
+					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 					}
 				}
 			}
-- 
2.43.0


From cb76f59dd51bd7ea1d37963a72c3124ad23c4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 08/27] fix: make AddNode reject duplicate UIDs and IDs and
 upsert nodes in the whole graph

---
 pkg/graph/memory/wg.go | 46 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index fc84903..afb094c 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -113,14 +113,11 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+	if node, ok := g.nodes[n.UID().String()]; ok {
+		if !gopts.Upsert {
+			return graph.ErrDuplicateNode
 		}
-
+		g.replaceNode(node.(*Node), gnode)
 		g.nodes[n.UID().String()] = n
 
 		return nil
@@ -132,6 +129,41 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	return nil
 }
 
+// replaceNode replaces node old with node n and keeps all of its edges.
+// It panics if n.ID() is used by a node other than old.
+// NOTE: it must be called with g.mu held.
+func (g *WG) replaceNode(old, n *Node) {
+	if old.ID() != n.ID() {
+		g.WeightedGraphBuilder.AddNode(n)
+	}
+
+	var edges []*Edge
+
+	wedges := g.WeightedGraphBuilder.WeightedEdges()
+	for wedges.Next() {
+		edge := *wedges.WeightedEdge().(*Edge)
+		if edge.from.ID() != old.ID() && edge.to.ID() != old.ID() {
+			continue
+		}
+		if edge.from.ID() == old.ID() {
+			edge.from = n
+		}
+		if edge.to.ID() == old.ID() {
+			edge.to = n
+		}
+		edges = append(edges, &edge)
+	}
+
+	g.WeightedGraphBuilder.RemoveNode(old.ID())
+	if old.ID() == n.ID() {
+		g.WeightedGraphBuilder.AddNode(n)
+	}
+
+	for _, edge := range edges {
+		g.SetWeightedEdge(edge)
+	}
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From 540f6db0c9492e2c498b61351a60a91171cbe818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 09/27] fix: never give the same ID to two new graph nodes

---
 pkg/graph/memory/wg.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index afb094c..c360350 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -28,6 +28,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is the lowest ID that has not been given to a new node yet
+	nextID *int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -55,6 +57,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
+		nextID:               new(int64),
 		dot:                  gopts.DOTOptions,
 	}, nil
 }
@@ -75,10 +78,10 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	}
 
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
+	id := g.newID()
 	g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
+	node, err := NewNode(id, ent, opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -93,6 +96,23 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 	return node, nil
 }
 
+// newID returns an ID which is neither used in the graph
+// nor has it been returned by an earlier call of newID.
+// NOTE: it must be called with g.mu held.
+func (g *WG) newID() int64 {
+	id := g.WeightedGraphBuilder.NewNode().ID()
+	if id < *g.nextID {
+		id = *g.nextID
+	}
+
+	for g.WeightedGraphBuilder.Node(id) != nil {
+		id++
+	}
+	*g.nextID = id + 1
+
+	return id
+}
+
 // AddNode adds node n to the graph.
 // AddNode allows to perform an upsert operation on the graph.
 // Upsert updates the node with the same UID if the node exists in the graph.
-- 
2.43.0


From bc6ca2dab38629303c71bb5f56d025340938952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 10/27] fix: write the graph DOT ID and DOT options in DOT

---
 pkg/graph/memory/wg.go | 45 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index c360350..649671c 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"sync"
 
+	"github.com/milosgajdos/netscrape/pkg/attrs"
 	"github.com/milosgajdos/netscrape/pkg/graph"
 	"github.com/milosgajdos/netscrape/pkg/uuid"
 	"gonum.org/v1/gonum/graph/encoding"
@@ -460,10 +461,52 @@ func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
-	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
+	da := dotAttrs{dotid: g.dotid, dot: g.dot}
+
+	var dg gonum.Graph = dotGraph{Graph: g.WeightedGraphBuilder, dotAttrs: da}
+	if d, ok := g.WeightedGraphBuilder.(gonum.Directed); ok {
+		dg = dotDigraph{Directed: d, dotAttrs: da}
+	}
+
+	b, err := dot.Marshal(dg, "", "", "  ")
 	if err != nil {
 		return "", fmt.Errorf("DOT marshal error: %w", err)
 	}
 
 	return string(b), nil
 }
+
+// dotAttrs provides DOT ID and DOT attributes of a graph to the DOT encoder.
+type dotAttrs struct {
+	dotid string
+	dot   graph.DOTOptions
+}
+
+// dotGraph is an undirected graph with DOT ID and DOT attributes.
+type dotGraph struct {
+	gonum.Graph
+	dotAttrs
+}
+
+// dotDigraph is a directed graph with DOT ID and DOT attributes.
+type dotDigraph struct {
+	gonum.Directed
+	dotAttrs
+}
+
+// DOTID returns the graph DOT ID.
+func (d dotAttrs) DOTID() string {
+	return d.dotid
+}
+
+// DOTAttributers implements dot.Attributers.
+func (d dotAttrs) DOTAttributers() (graph, node, edge encoding.Attributer) {
+	attributer := func(a attrs.DOT) encoding.Attributer {
+		if a == nil {
+			return memattrs.New()
+		}
+		return a
+	}
+
+	return attributer(d.dot.GraphAttrs), attributer(d.dot.NodeAttrs), attributer(d.dot.EdgeAttrs)
+}
-- 
2.43.0


From 9f8bad067bc07bb19b6baf71409e6256438e22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 11/27] fix: return all entities from store BulkGet

---
 pkg/store/memory/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..936b9f3 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -207,6 +207,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 			return nil, err
 		}
 		ents[i] = e
+		i++
 	}
 	return ents, nil
 }
-- 
2.43.0


From 18c5aa3091e768325712dc4df62b03ca3219c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 12/27] fix: replace the stored entity when adding it with
 upsert

---
 pkg/store/memory/store.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 936b9f3..7571540 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -86,6 +86,14 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		return err
 	}
 
+	// NOTE: NewNode returns the stored node if e already exists in the graph
+	if gn, ok := n.(*memory.Node); ok {
+		n, err = memory.NewNode(gn.ID(), e, graph.WithAttrs(aopts.Attrs))
+		if err != nil {
+			return err
+		}
+	}
+
 	return m.g.AddNode(ctx, n, graph.WithUpsert())
 }
 
-- 
2.43.0


From e8ee19fa694cb53b4de30bd191358a1aee1fa5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 13/27] fix: keep earlier links of the same entity when caching
 a link

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 7898a8dc7d8cee2a58ea2a71c3465d7a50ac67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/27] fix: index cached links by UID values

---
 pkg/cache/memory/links.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..5a44d62 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -11,9 +11,9 @@ import (
 // Links in is-memory cache.Link cache.
 type Links struct {
 	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
+	from map[string]map[string]cache.Link
 	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,8 +103,8 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, uid.String())
+	delete(c.from, uid.String())
 	return nil
 }
 
@@ -120,8 +120,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -148,7 +148,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -171,7 +171,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From ae9321fa031c12517bb80f0188d8814082fbf1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 15/27] fix: delete cached links from both indexes

---
 pkg/cache/memory/links.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 5a44d62..50a69c7 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,8 +103,17 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	delete(c.to, uid.String())
-	delete(c.from, uid.String())
+	id := uid.String()
+
+	for f := range c.to[id] {
+		delete(c.from[f], id)
+	}
+	for t := range c.from[id] {
+		delete(c.to[t], id)
+	}
+
+	delete(c.to, id)
+	delete(c.from, id)
 	return nil
 }
 
-- 
2.43.0


From 59180a760b99d47c17d98bc91ce57740883598fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 16/27] fix: serialize concurrent Unsubscribe calls

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From 9963a62fee98e4f7a871f9f554f9c580482e07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 17/27] fix: tie the broker goroutine to the session it was
 started for

---
 pkg/broker/memory/memory.go | 38 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..7bb3398 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -66,16 +66,21 @@ func New(opts ...broker.Option) (*Memory, error) {
 	}, nil
 }
 
-// run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+// run starts the broker session with the given exit and ctl channels.
+func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl chan sub) {
 	for {
 		select {
 		case <-ctx.Done():
+			m.Lock()
+			// NOTE: a newer session must be left open
+			if m.exit == exit {
+				m.close()
+			}
+			m.Unlock()
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +92,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +105,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -201,8 +203,16 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
+	m.close()
+
+	return nil
+}
+
+// close closes broker session.
+// NOTE: it must be called with the broker lock held.
+func (m *Memory) close() {
 	if !m.connected {
-		return nil
+		return
 	}
 
 	close(m.exit)
@@ -216,6 +226,4 @@ func (m *Memory) Close() error {
 	}
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From 732bf5681d4156f088ee60ef21ce6a842378bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 18/27] fix: drop all topics when closing broker session

---
 pkg/broker/memory/memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 7bb3398..51022c3 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -222,6 +222,8 @@ func (m *Memory) close() {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From b81878840664dc72e0471833d7b961f955a15f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 19/27] fix: publish and subscribe in the broker session found
 open

---
 pkg/broker/memory/memory.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 51022c3..0f90052 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -127,13 +127,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -145,6 +138,10 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -160,18 +157,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From 899b3cabac3ae5d6042ea9b2ab91fa889f826760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 20/27] fix: report messages which could not be published and
 keep the broker open

---
 pkg/broker/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 0f90052..cbc060c 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -113,9 +113,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From aa74ad55731d4bb5af5328bd68d9b6391f318e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 21/27] fix: do not receive on subscriptions of closed broker
 sessions

---
 pkg/broker/memory/subscriber.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..5b2555b 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,6 +69,12 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	select {
+	case <-s.queue.exit:
+		return broker.ErrSubscriptionInactive
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
 		return nil
-- 
2.43.0


From 55e960b108971ef75915e534ea573a6a7d1aed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 22/27] fix: use the options ingester and digester were created
 with

---
 pkg/broker/digester/simple/digester.go | 2 +-
 pkg/broker/ingester/simple/ingester.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 279129c38d3a29f708ab69674bea6bc75f2c64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 23/27] fix: stop digesting when the context is cancelled

---
 pkg/broker/digester/simple/digester.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index 32530f2..4c300d5 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -31,6 +31,9 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 }
 
-- 
2.43.0


From c9bf120074a8c662587f817a721f7f33b9b1d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 24/27] fix: pass all runner options to the scraper

---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..f2eebd9 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From f163546ba0bc9ffe1df7e10969c0984842939bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 25/27] fix: return ErrMissingPlan when running without a plan

---
 runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner.go b/runner.go
index f2eebd9..19b04e4 100644
--- a/runner.go
+++ b/runner.go
@@ -25,6 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
+	if p == nil {
+		return ErrMissingPlan
+	}
+
 	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
-- 
2.43.0


From e9dc93cd94e27ab942c07edf3bf2b05122bd1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 26/27] fix: return empty attributes when copying from nil

---
 pkg/attrs/memory/memory.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..d2ea06c 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,12 +21,12 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
-	keys, err := a.Keys(ctx)
-	if err != nil {
-		return nil, err
-	}
-
 	if a != nil {
+		keys, err := a.Keys(ctx)
+		if err != nil {
+			return nil, err
+		}
+
 		for _, k := range keys {
 			attrs[k], err = a.Get(ctx, k)
 			if err != nil {
-- 
2.43.0


From 6d66aa16ba668c29b1697d2ba4d4d1e967893e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 27/27] fix: two new nodes could be given the same ID once a
 node had nearly the highest one

---
 pkg/graph/memory/wg.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 649671c..38ed4dc 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -101,11 +101,7 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 // nor has it been returned by an earlier call of newID.
 // NOTE: it must be called with g.mu held.
 func (g *WG) newID() int64 {
-	id := g.WeightedGraphBuilder.NewNode().ID()
-	if id < *g.nextID {
-		id = *g.nextID
-	}
-
+	id := *g.nextID
 	for g.WeightedGraphBuilder.Node(id) != nil {
 		id++
 	}
-- 
2.43.0

