// Deterministic replacement of the map iterators for model checking.

//go:build go1.21

package iterator

import (
	"github.com/milosgajdos/netscrape/verifmc/vs"
	"gonum.org/v1/gonum/graph"
)

// Nodes implements the graph.Nodes interfaces.
type Nodes struct {
	nodes   map[int64]graph.Node
	keys    []int64
	started bool
	i       int
	pos     int
	curr    graph.Node
}

// NewNodes returns a Nodes initialized with the provided nodes.
func NewNodes(nodes map[int64]graph.Node) *Nodes { return &Nodes{nodes: nodes} }

// Len returns the remaining number of nodes to be iterated over.
func (n *Nodes) Len() int { return len(n.nodes) - n.pos }

func (n *Nodes) step() bool {
	if !n.started {
		n.started = true
		n.keys = vs.SortedKeys[map[int64]graph.Node](n.nodes)
	}
	for n.i < len(n.keys) {
		k := n.keys[n.i]
		n.i++
		if v, ok := n.nodes[k]; ok {
			n.curr = v
			return true
		}
	}
	return false
}

// Next returns whether the next call of Node will return a valid node.
func (n *Nodes) Next() bool {
	if n.pos >= len(n.nodes) {
		return false
	}
	ok := n.step()
	if ok {
		n.pos++
	}
	return ok
}

// Node returns the current node of the iterator.
func (n *Nodes) Node() graph.Node { return n.curr }

// Reset returns the iterator to its initial state.
func (n *Nodes) Reset() {
	n.curr = nil
	n.pos, n.i = 0, 0
	n.keys, n.started = nil, false
}

// NodeSlice returns all the remaining nodes in the iterator and advances
// the iterator.
func (n *Nodes) NodeSlice() []graph.Node {
	if n.Len() == 0 {
		return nil
	}
	nodes := make([]graph.Node, 0, n.Len())
	curr := n.curr
	for n.step() {
		nodes = append(nodes, n.curr)
	}
	n.curr = curr
	n.pos = len(n.nodes)
	return nodes
}

type edgeKeys interface {
	size() int
	keys() []int64
	has(k int64) bool
}

type edgeMap[T any] map[int64]T

func (m edgeMap[T]) size() int     { return len(m) }
func (m edgeMap[T]) keys() []int64 { return vs.SortedKeys[map[int64]T](m) }
func (m edgeMap[T]) has(k int64) bool {
	_, ok := m[k]
	return ok
}

// NodesByEdge implements the graph.Nodes interfaces.
type NodesByEdge struct {
	nodes   map[int64]graph.Node
	edges   edgeKeys
	keys    []int64
	started bool
	i       int
	pos     int
	curr    graph.Node
}

// NewNodesByEdge returns a NodesByEdge for the ends of edges.
func NewNodesByEdge(nodes map[int64]graph.Node, edges map[int64]graph.Edge) *NodesByEdge {
	return &NodesByEdge{nodes: nodes, edges: edgeMap[graph.Edge](edges)}
}

// NewNodesByWeightedEdge returns a NodesByEdge for the ends of edges.
func NewNodesByWeightedEdge(nodes map[int64]graph.Node, edges map[int64]graph.WeightedEdge) *NodesByEdge {
	return &NodesByEdge{nodes: nodes, edges: edgeMap[graph.WeightedEdge](edges)}
}

// NewNodesByLines returns a NodesByEdge for the ends of lines.
func NewNodesByLines(nodes map[int64]graph.Node, lines map[int64]map[int64]graph.Line) *NodesByEdge {
	return &NodesByEdge{nodes: nodes, edges: edgeMap[map[int64]graph.Line](lines)}
}

// NewNodesByWeightedLines returns a NodesByEdge for the ends of lines.
func NewNodesByWeightedLines(nodes map[int64]graph.Node, lines map[int64]map[int64]graph.WeightedLine) *NodesByEdge {
	return &NodesByEdge{nodes: nodes, edges: edgeMap[map[int64]graph.WeightedLine](lines)}
}

// Len returns the remaining number of nodes to be iterated over.
func (n *NodesByEdge) Len() int { return n.edges.size() - n.pos }

func (n *NodesByEdge) step() bool {
	if !n.started {
		n.started = true
		n.keys = n.edges.keys()
	}
	for n.i < len(n.keys) {
		k := n.keys[n.i]
		n.i++
		if n.edges.has(k) {
			n.curr = n.nodes[k]
			return true
		}
	}
	return false
}

// Next returns whether the next call of Node will return a valid node.
func (n *NodesByEdge) Next() bool {
	if n.pos >= n.edges.size() {
		return false
	}
	ok := n.step()
	if ok {
		n.pos++
	}
	return ok
}

// Node returns the current node of the iterator.
func (n *NodesByEdge) Node() graph.Node { return n.curr }

// Reset returns the iterator to its initial state.
func (n *NodesByEdge) Reset() {
	n.curr = nil
	n.pos, n.i = 0, 0
	n.keys, n.started = nil, false
}

// NodeSlice returns all the remaining nodes in the iterator and advances
// the iterator.
func (n *NodesByEdge) NodeSlice() []graph.Node {
	if n.Len() == 0 {
		return nil
	}
	nodes := make([]graph.Node, 0, n.Len())
	curr := n.curr
	for n.step() {
		nodes = append(nodes, n.curr)
	}
	n.curr = curr
	n.pos = n.edges.size()
	return nodes
}
