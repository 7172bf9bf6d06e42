// Package tree drives github.com/zijiren233/gencontainer/tree.
package tree

import (
	"strconv"
	"strings"

	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type node = *tree.Node[int]

// model is a binary tree as index arrays; -1 is none.
type model struct {
	w     []node
	par   []int
	child [][2]int
}

func at(m *model, i int) node {
	if i < 0 {
		return nil
	}
	return m.w[i]
}

func add(m *model, x node) int {
	m.w = append(m.w, x)
	m.par = append(m.par, -1)
	m.child = append(m.child, [2]int{-1, -1})
	return len(m.w) - 1
}

// set links c (a detached root, or -1) below p through the public operation.
func set(m *model, p, side, c int) {
	old := m.child[p][side]
	var r node
	if side == 0 {
		r = m.w[p].SetLeft(at(m, c))
	} else {
		r = m.w[p].SetRight(at(m, c))
	}
	nd.Assert(r == at(m, old), "SetLeft and SetRight return the replaced child")
	if old >= 0 {
		m.par[old] = -1
	}
	m.child[p][side] = c
	if c >= 0 {
		m.par[c] = p
	}
}

// arb builds any tree shape with n nodes, rooted at 0 and numbered level by level.
func arb(n int) *model {
	m := &model{}
	last := -1
	for i := 0; i < n; i++ {
		add(m, tree.NewNode(100+i))
		if i > 0 {
			p := 0
			if i > 1 {
				p = nd.Pick("parent", i)
			}
			s := nd.Pick("side", 2)
			nd.Assume(2*p+s > last)
			last = 2*p + s
			set(m, p, s, i)
		}
	}
	return m
}

func links(m *model) {
	for i, x := range m.w {
		nd.Assert(x.Parent == at(m, m.par[i]), "Parent link")
		nd.Assert(x.Left == at(m, m.child[i][0]), "Left link")
		nd.Assert(x.Right == at(m, m.child[i][1]), "Right link")
	}
}

func depth(m *model, i int) int {
	if i < 0 {
		return -1
	}
	d := 0
	for _, c := range m.child[i] {
		if h := depth(m, c); c >= 0 && h+1 > d {
			d = h + 1
		}
	}
	return d
}

func layer(m *model, i int) int {
	k := 0
	for m.par[i] >= 0 {
		i = m.par[i]
		k++
	}
	return k
}

func anc(m *model, a, b int) bool {
	for b >= 0 {
		if a == b {
			return true
		}
		b = m.par[b]
	}
	return false
}

func pre(m *model, i int, out []int) []int {
	if i < 0 {
		return out
	}
	out = append(out, i)
	out = pre(m, m.child[i][0], out)
	return pre(m, m.child[i][1], out)
}

func same(got []node, m *model, want []int, what string) {
	nd.Assert(len(got) == len(want), what+" visits every node once")
	for i, x := range got {
		nd.Assert(x == m.w[want[i]], what+" order")
	}
}

// traversals checks the walks and measures from node i.
func traversals(m *model, i int) {
	p := pre(m, i, nil)
	same(m.w[i].TraversalDFS(), m, p, "TraversalDFS")
	var b []int
	base := layer(m, i)
	for l := 0; l <= depth(m, i); l++ {
		for _, k := range p {
			if layer(m, k) == base+l {
				b = append(b, k)
			}
		}
	}
	same(m.w[i].TraversalBFS(), m, b, "TraversalBFS")
	nd.Assert(m.w[i].MaxDepth() == depth(m, i), "MaxDepth")
	nd.Assert(m.w[i].Layer() == base, "Layer")
}

// HTreeBuild: BuildTree lays the values out as a complete binary tree, level by level.
//
//gosym:check C17 split=1
//gosym:quick MAXN=9
//gosym:thorough MAXN=16
func HTreeBuild() {
	n := nd.Case("n", nd.Param("MAXN")+1)
	var v []int
	for i := 0; i < n; i++ {
		v = append(v, nd.Int("v"))
	}
	r := tree.BuildTree(v)
	if n == 0 {
		nd.Assert(r == nil, "no values, no tree")
		nd.Assert(len(r.TraversalBFS()) == 0, "an empty tree has no nodes breadth first")
		nd.Assert(len(r.TraversalDFS()) == 0, "an empty tree has no nodes depth first")
		nd.Assert(r.MaxDepth() == 0, "an empty tree has depth 0")
		return
	}
	nd.Assert(r.Parent == nil, "the root has no parent")
	w := make([]node, n)
	w[0] = r
	for i := 0; i < n; i++ {
		x := w[i]
		nd.Assert(x.Val == v[i], "values in level order")
		for s, c := range []node{x.Left, x.Right} {
			k := 2*i + 1 + s
			if k < n {
				nd.Assert(c != nil && c.Parent == x, "complete tree")
				w[k] = c
			} else {
				nd.Assert(c == nil, "no extra nodes")
			}
		}
	}
	b := r.TraversalBFS()
	nd.Assert(len(b) == n, "TraversalBFS visits every node of a built tree")
	for i, x := range b {
		nd.Assert(x == w[i], "TraversalBFS of a built tree follows the values")
	}
	d := 0
	for 1<<(d+1) <= n {
		d++
	}
	nd.Assert(r.MaxDepth() == d, "MaxDepth of a complete tree")
}

// HTreeWalk: on any shape, the traversals from every node visit its subtree once, in pre-order and level by level; Layer and MaxDepth count edges.
//
//gosym:check C17 split=2
//gosym:quick MAXN=7
//gosym:thorough MAXN=9
func HTreeWalk() {
	n := 1 + nd.Case("n", nd.Param("MAXN"))
	i := nd.Case("from", n)
	m := arb(n)
	links(m)
	if n > 1 && m.child[0][0] < 0 && m.child[0][1] >= 0 {
		nd.Cover("right child only")
	}
	traversals(m, i)
	links(m)
}

// HTreeDraw: DrawTree shows the nodes below the starting one level by level, each level on its own line.
//
//gosym:check C17 split=2
//gosym:quick MAXN=5 FULL=20
//gosym:thorough MAXN=7 FULL=70
func HTreeDraw() {
	var m *model
	i := 0
	if nd.Case("shape", 2) == 0 {
		n := 1 + nd.Case("n", nd.Param("MAXN"))
		i = nd.Case("from", n)
		m = arb(n)
	} else {
		n := 1 + nd.Case("n", nd.Param("FULL"))
		m = &model{}
		for k := 0; k < n; k++ {
			add(m, tree.NewNode(100+k))
			if k > 0 {
				set(m, (k-1)/2, (k-1)%2, k)
			}
		}
	}
	rows := strings.Split(strings.TrimRight(m.w[i].DrawTree(), "\t\n"), "\n")
	level := []int{i}
	for d := 0; len(level) > 0; d++ {
		nd.Assert(d < len(rows), "DrawTree has a line for every level")
		cols := strings.Split(strings.TrimRight(rows[d], "\t"), "\t")
		nd.Assert(len(cols) == len(level), "a line of DrawTree holds one level")
		var next []int
		for k, x := range level {
			nd.Assert(cols[k] == strconv.Itoa(100+x), "DrawTree shows the values from left to right")
			for _, c := range m.child[x] {
				if c >= 0 {
					next = append(next, c)
				}
			}
		}
		level = next
		if len(level) == 0 {
			nd.Assert(d == len(rows)-1, "DrawTree has no further lines")
		}
	}
	links(m)
}

// HTreeRelations: every predicate and relative agrees with the links, for every pair of nodes.
//
//gosym:check C18 split=3
//gosym:quick MAXN=6
//gosym:thorough MAXN=7
func HTreeRelations() {
	n := 1 + nd.Case("n", nd.Param("MAXN"))
	i, j := nd.Case("i", n), nd.Case("j", n)
	m := arb(n)
	if n > 1 {
		k := nd.Pick("detach", n)
		if k > 0 { // a forest of two trees
			p := m.par[k]
			s := 0
			if m.child[p][1] == k {
				s = 1
			}
			set(m, p, s, -1)
			nd.Cover("two trees")
		}
	}
	x, y := m.w[i], m.w[j]
	p := m.par[i]
	l, r := m.child[i][0], m.child[i][1]
	nd.Assert(x.IsRoot() == (p < 0), "IsRoot")
	nd.Assert(x.HasParent() == (p >= 0), "HasParent")
	nd.Assert(x.IsLeaf() == (l < 0 && r < 0), "IsLeaf")
	nd.Assert(x.HasLeft() == (l >= 0), "HasLeft")
	nd.Assert(x.HasRight() == (r >= 0), "HasRight")
	nd.Assert(x.HasChild() == (l >= 0 || r >= 0), "HasChild")
	nd.Assert(x.HasBothChild() == (l >= 0 && r >= 0), "HasBothChild")
	nd.Assert(x.IsLeft() == (p >= 0 && m.child[p][0] == i), "IsLeft")
	nd.Assert(x.IsRight() == (p >= 0 && m.child[p][1] == i), "IsRight")
	sib := func(k int) int {
		q := m.par[k]
		if q < 0 {
			return -1
		}
		if m.child[q][0] == k {
			return m.child[q][1]
		}
		return m.child[q][0]
	}
	s, u, g := sib(i), -1, -1
	if p >= 0 {
		u, g = sib(p), m.par[p]
	}
	nd.Assert(x.Sibling() == at(m, s), "Sibling")
	nd.Assert(x.Uncle() == at(m, u), "Uncle")
	nd.Assert(x.Grandparent() == at(m, g), "Grandparent")
	nd.Assert(x.HasSibling() == (s >= 0), "HasSibling")
	nd.Assert(x.HasUncle() == (u >= 0), "HasUncle")
	nd.Assert(x.HasGrandparent() == (g >= 0), "HasGrandparent")
	nd.Assert(x.IsLeftRelation(y) == (l == j), "IsLeftRelation")
	nd.Assert(x.IsRightRelation(y) == (r == j), "IsRightRelation")
	nd.Assert(x.IsChildRelation(y) == (l == j || r == j), "IsChildRelation")
	nd.Assert(x.IsSiblingRelation(y) == (s == j), "IsSiblingRelation")
	nd.Assert(x.IsUncleRelation(y) == (u == j), "IsUncleRelation")
	nd.Assert(x.IsGrandparentRelation(y) == (g == j), "IsGrandparentRelation")
	nd.Assert(x.IsAncestorRelation(y) == anc(m, i, j), "IsAncestorRelation")
	nd.Assert(x.IsDescendantRelation(y) == (i != j && anc(m, i, j)), "IsDescendantRelation")
	nd.Assert(x.Layer() == layer(m, i), "Layer")
	nd.Assert(!x.IsLeftRelation(nil) && !x.IsRightRelation(nil) && !x.IsChildRelation(nil), "no node is no child")
	nd.Assert(!x.IsAncestorRelation(nil) && !x.IsDescendantRelation(nil), "no node is not below any")
	links(m)
}

// HTreeRelink: SetLeft and SetRight return what they replace and detach it, keep its subtree, and re-attach subtrees elsewhere with all links consistent.
//
//gosym:check C18 split=3
//gosym:quick MAXN=4 OPS=2
//gosym:thorough MAXN=5 OPS=3
func HTreeRelink() {
	n := 2 + nd.Case("n", nd.Param("MAXN")-1)
	ops := nd.Param("OPS")
	p0 := nd.Case("p", n)
	m := arb(n)
	for k := 0; k < ops; k++ {
		p := p0
		if k > 0 {
			p = nd.Pick("p", n)
		}
		s := nd.Pick("s", 2)
		c := nd.Pick("c", n+1) - 1
		if c >= 0 { // a detached root that is not an ancestor of its new parent, or the child that is there
			nd.Assume(m.child[p][s] == c || m.par[c] < 0 && !anc(m, c, p))
			nd.Cover("re-attached")
		}
		set(m, p, s, c)
		links(m)
	}
	for i := range m.w {
		traversals(m, i)
	}
}

// HTreeDeep: long chains, zigzags and large complete trees.
//
//gosym:check C17 split=2
//gosym:quick N=24
//gosym:thorough N=60
func HTreeDeep() {
	n := nd.Param("N")
	shape := nd.Case("shape", 5)
	from := []int{0, 1, n / 2, n - 1}[nd.Case("from", 4)]
	m := &model{}
	for i := 0; i < n; i++ {
		add(m, tree.NewNode(100+i))
		if i == 0 {
			continue
		}
		switch shape {
		case 0, 1: // chains
			set(m, i-1, shape, i)
		case 2: // zigzag
			set(m, i-1, i%2, i)
		case 3: // complete
			set(m, (i-1)/2, (i-1)%2, i)
		case 4: // a comb: every node of the right spine has a left leaf
			if i%2 == 1 {
				set(m, i-1, 0, i)
			} else {
				set(m, i-2, 1, i)
			}
		}
	}
	links(m)
	traversals(m, from)
	links(m)
}

// HTreeDeepRelations: the relations of every pair of nodes of such trees.
//
//gosym:check C18 split=2
//gosym:quick N=12
//gosym:thorough N=24
func HTreeDeepRelations() {
	n := nd.Param("N")
	shape := nd.Case("shape", 4)
	i, j := nd.Pick("i", n), nd.Pick("j", n)
	m := &model{}
	for k := 0; k < n; k++ {
		add(m, tree.NewNode(100+k))
		if k > 0 {
			switch shape {
			case 0, 1:
				set(m, k-1, shape, k)
			case 2:
				set(m, k-1, k%2, k)
			case 3:
				set(m, (k-1)/2, (k-1)%2, k)
			}
		}
	}
	x, y := m.w[i], m.w[j]
	nd.Assert(x.IsAncestorRelation(y) == anc(m, i, j), "IsAncestorRelation")
	nd.Assert(x.IsDescendantRelation(y) == (i != j && anc(m, i, j)), "IsDescendantRelation")
	nd.Assert(x.Layer() == layer(m, i), "Layer")
	nd.Assert(x.IsChildRelation(y) == (m.par[j] == i), "IsChildRelation")
	links(m)
}
