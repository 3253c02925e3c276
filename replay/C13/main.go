// Concrete search for C13: a random forest is built by attaching and
// detaching children, and every query is compared with the shape kept beside.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/tree"
)

type N = tree.Node[int]

type shadow struct{ p, l, r *N }

func main() {
	h.Main("C13", func(t *h.H) {
		m := map[*N]*shadow{}
		var all []*N
		pick := func() *N { return all[t.Intn(len(all))] }
		layer := func(n *N) int {
			d := 0
			for m[n].p != nil {
				n = m[n].p
				d++
			}
			return d
		}
		anc := func(a, n *N) bool { // a is n or above n
			for n != nil {
				if n == a {
					return true
				}
				n = m[n].p
			}
			return false
		}
		sib := func(n *N) *N {
			if n == nil || m[n].p == nil {
				return nil
			}
			if m[m[n].p].l == n {
				return m[m[n].p].r
			}
			return m[m[n].p].l
		}
		check := func() {
			for i, n := range all {
				s := m[n]
				t.Assert(n.Val == i, "value of %d changed to %d", i, n.Val)
				t.Assert(n.Parent == s.p && n.Left == s.l && n.Right == s.r, "links of %d are wrong", i)
				t.Assert(n.IsRoot() == (s.p == nil) && n.HasParent() == (s.p != nil), "root query of %d", i)
				t.Assert(n.IsLeaf() == (s.l == nil && s.r == nil) && n.HasChild() == !n.IsLeaf(), "leaf query of %d", i)
				t.Assert(n.HasLeft() == (s.l != nil) && n.HasRight() == (s.r != nil), "child presence of %d", i)
				t.Assert(n.HasBothChild() == (s.l != nil && s.r != nil), "HasBothChild of %d", i)
				t.Assert(n.IsLeft() == (s.p != nil && m[s.p].l == n), "IsLeft of %d", i)
				t.Assert(n.IsRight() == (s.p != nil && m[s.p].r == n), "IsRight of %d", i)
				t.Assert(n.Layer() == layer(n), "Layer of %d is %d, want %d", i, n.Layer(), layer(n))
				sb, uc := sib(n), sib(s.p)
				var gp *N
				if s.p != nil {
					gp = m[s.p].p
				}
				t.Assert(n.Sibling() == sb && n.HasSibling() == (sb != nil), "Sibling of %d", i)
				t.Assert(n.Uncle() == uc && n.HasUncle() == (uc != nil), "Uncle of %d", i)
				t.Assert(n.Grandparent() == gp && n.HasGrandparent() == (gp != nil), "Grandparent of %d", i)
				t.Assert(!n.IsLeftRelation(nil) && !n.IsRightRelation(nil) && !n.IsChildRelation(nil), "nil child of %d", i)
				t.Assert(!n.IsAncestorRelation(nil) && !n.IsDescendantRelation(nil), "nil descendant of %d", i)
				t.Assert(n.IsSiblingRelation(nil) == (sb == nil) && n.IsUncleRelation(nil) == (uc == nil) && n.IsGrandparentRelation(nil) == (gp == nil), "absent relatives of %d", i)
				for j, o := range all {
					t.Assert(n.IsLeftRelation(o) == (s.l == o), "IsLeftRelation(%d,%d)", i, j)
					t.Assert(n.IsRightRelation(o) == (s.r == o), "IsRightRelation(%d,%d)", i, j)
					t.Assert(n.IsChildRelation(o) == (m[o].p == n), "IsChildRelation(%d,%d)", i, j)
					t.Assert(n.IsSiblingRelation(o) == (sb == o), "IsSiblingRelation(%d,%d)", i, j)
					t.Assert(n.IsUncleRelation(o) == (uc == o), "IsUncleRelation(%d,%d)", i, j)
					t.Assert(n.IsGrandparentRelation(o) == (gp == o), "IsGrandparentRelation(%d,%d)", i, j)
					t.Assert(n.IsAncestorRelation(o) == anc(n, o), "IsAncestorRelation(%d,%d)", i, j)
					t.Assert(n.IsDescendantRelation(o) == (n != o && anc(n, o)), "IsDescendantRelation(%d,%d)", i, j)
				}
			}
			t.Assert((*N)(nil).Layer() == -1, "Layer of nil")
		}
		for k := 0; k < 2+t.Size; k++ {
			if len(all) < 2 || (t.Bool(2) && len(all) < 14) {
				t.Step("new %d", len(all))
				n := tree.NewNode(len(all))
				t.Assert(n.Parent == nil && n.Left == nil && n.Right == nil, "new node has links")
				m[n] = &shadow{}
				all = append(all, n)
				continue
			}
			n, c := pick(), pick()
			left := t.Bool(2)
			side := &m[n].r
			if left {
				side = &m[n].l
			}
			for try := 0; try < 6 && (m[c].p != nil || anc(c, n)); try++ {
				c = pick()
			}
			if t.Bool(6) {
				c = *side
			} else if t.Bool(6) || m[c].p != nil || anc(c, n) {
				c = nil
			}
			id := -1
			if c != nil {
				id = c.Val
			}
			t.Step("set child of %d left=%v to %d", n.Val, left, id)
			old := *side
			var got *N
			if left {
				got = n.SetLeft(c)
			} else {
				got = n.SetRight(c)
			}
			t.Assert(got == old, "returned the wrong old child")
			if old != nil {
				m[old].p = nil
			}
			*side = c
			if c != nil {
				m[c].p = n
			}
			check()
		}
		check()
	})
}
