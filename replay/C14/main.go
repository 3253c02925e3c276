// Concrete search for C14: built trees are compared with the slice they were
// built from, and depth and traversals of random shapes with recursive
// reference versions.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/tree"
)

type N = tree.Node[int]

func depth(n *N) int {
	if n == nil {
		return -1
	}
	l, r := depth(n.Left), depth(n.Right)
	if l > r {
		return l + 1
	}
	return r + 1
}

func pre(n *N, out []*N) []*N {
	if n == nil {
		return out
	}
	return pre(n.Right, pre(n.Left, append(out, n)))
}

func level(n *N) []*N {
	out := []*N{n}
	for i := 0; i < len(out); i++ {
		if out[i].Left != nil {
			out = append(out, out[i].Left)
		}
		if out[i].Right != nil {
			out = append(out, out[i].Right)
		}
	}
	return out
}

func eq(a, b []*N) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func walks(t *h.H, n *N) {
	type links struct{ p, l, r *N }
	all := pre(n, nil)
	was := map[*N]links{}
	for _, x := range all {
		was[x] = links{x.Parent, x.Left, x.Right}
	}
	for i, x := range all {
		t.Assert(x.MaxDepth() == depth(x), "MaxDepth of node %d is %d, want %d", i, x.MaxDepth(), depth(x))
		t.Assert(eq(x.TraversalDFS(), pre(x, nil)), "TraversalDFS of node %d", i)
		b := x.TraversalBFS()
		w := level(x)
		t.Assert(eq(b, w), "TraversalBFS of node %d", i)
		t.Assert(eq(x.TraversalBFS(), w) && eq(b, w), "second TraversalBFS of node %d", i)
	}
	for _, x := range all {
		t.Assert(was[x] == links{x.Parent, x.Left, x.Right}, "a query changed the links of a node")
	}
	t.Assert((*N)(nil).MaxDepth() == 0, "MaxDepth of nil")
}

func main() {
	h.Main("C14",
		func(t *h.H) {
			n := t.Intn(40)
			vals := make([]int, n)
			for i := range vals {
				vals[i] = t.Intn(100)
			}
			t.Step("BuildTree %v", vals)
			in := append([]int(nil), vals...)
			root := tree.BuildTree(vals)
			for i := range in {
				t.Assert(in[i] == vals[i], "the slice changed")
			}
			t.Assert((root == nil) == (n == 0), "root of %d values", n)
			if root == nil {
				return
			}
			t.Assert(root.Parent == nil, "parent of the root")
			nodes := level(root)
			t.Assert(len(nodes) == n, "%d nodes, want %d", len(nodes), n)
			at := func(i int) *N {
				if i < n {
					return nodes[i]
				}
				return nil
			}
			for i, x := range nodes {
				t.Assert(x.Val == vals[i], "value %d", i)
				t.Assert(x.Left == at(2*i+1) && x.Right == at(2*i+2), "children of %d", i)
				t.Assert(i == 0 || x.Parent == nodes[(i-1)/2], "parent of %d", i)
			}
			walks(t, root)
		},
		func(t *h.H) {
			root := tree.NewNode(0)
			all := []*N{root}
			n := t.Intn(24)
			bias := t.Intn(4)
			for i := 1; i <= n; i++ {
				p := all[t.Intn(len(all))]
				if bias == 1 {
					p = all[len(all)-1] // chains
				}
				left := t.Bool(2)
				if bias == 2 {
					left = true
				} else if bias == 3 {
					left = false
				}
				x := tree.NewNode(i)
				if left && p.Left == nil {
					p.SetLeft(x)
				} else if p.Right == nil {
					p.SetRight(x)
				} else {
					continue
				}
				t.Step("%d below %d left=%v", i, p.Val, p.Left == x)
				all = append(all, x)
			}
			walks(t, root)
		})
}
