// Concrete search for C04: random ring operations against a model in which a
// ring is a slice of handles.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/ring"
)

type R = ring.Ring[int]

type model struct {
	rings [][]*R
	name  map[*R]int
}

func (m *model) find(r *R) (int, int) {
	for i, c := range m.rings {
		for j, e := range c {
			if e == r {
				return i, j
			}
		}
	}
	return -1, -1
}

func (m *model) check(t *h.H, deep bool) {
	for _, c := range m.rings {
		n := len(c)
		starts := []int{t.Intn(n)}
		if deep {
			starts = nil
			for i := range c {
				starts = append(starts, i)
			}
		}
		for _, s := range starts {
			r := c[s]
			// the order of the observers varies: an untouched zero ring is initialised by whichever comes first
			for _, k := range t.Perm(5) {
				switch k {
				case 0:
					t.Assert(r.Len() == n, "Len of %d is %d, want %d", m.name[r], r.Len(), n)
				case 1:
					var got []int
					r.Do(func(v int) { got = append(got, v) })
					t.Assert(len(got) == n, "Do on %d calls back %d times, want %d", m.name[r], len(got), n)
					for i := range got {
						t.Assert(got[i] == c[(s+i)%n].Value, "Do on %d yields %v", m.name[r], got)
					}
				case 2:
					t.Assert(r.Next() == c[(s+1)%n], "Next of %d", m.name[r])
					t.Assert(r.Next().Prev() == r, "Next.Prev of %d", m.name[r])
				case 3:
					t.Assert(r.Prev() == c[(s+n-1)%n], "Prev of %d", m.name[r])
					t.Assert(r.Prev().Next() == r, "Prev.Next of %d", m.name[r])
				case 4:
					k := t.Intn(4*n+5) - 2*n - 2
					t.Assert(r.Move(k) == c[((s+k)%n+n)%n], "Move(%d) of %d", k, m.name[r])
				}
			}
		}
	}
}

func main() {
	h.Main("C04", func(t *h.H) {
		m := &model{name: map[*R]int{}}
		cnt := 0
		add := func(r *R) {
			cnt++
			r.Value = cnt
			m.name[r] = cnt
		}
		var n0 *R
		t.Assert(n0.Len() == 0, "Len of nil")
		n0.Do(func(int) { t.Fail("Do of nil calls back") })
		steps := 1 + t.Intn(t.Size)
		for s := 0; s < steps; s++ {
			op := t.Intn(6)
			if len(m.rings) == 0 || (op == 0 && cnt < 60) {
				if t.Bool(2) {
					r := &R{}
					add(r)
					t.Step("zero ring %d", cnt)
					m.rings = append(m.rings, []*R{r})
				} else {
					n := t.Intn(6) - 1
					r := ring.New[int](n)
					t.Step("New(%d)", n)
					if n <= 0 {
						t.Assert(r == nil, "New(%d) is not nil", n)
						continue
					}
					t.Assert(r != nil, "New(%d) is nil", n)
					c := []*R{}
					for i, p := 0, r; i < n; i, p = i+1, p.Next() {
						for _, e := range c {
							t.Assert(e != p, "New(%d) has fewer elements", n)
						}
						t.Assert(p.Value == 0, "New element has value %d", p.Value)
						add(p)
						c = append(c, p)
					}
					m.rings = append(m.rings, c)
				}
				if t.Bool(2) {
					m.check(t, false)
				}
				continue
			}
			pick := func() *R { c := m.rings[t.Intn(len(m.rings))]; return c[t.Intn(len(c))] }
			r := pick()
			i, j := m.find(r)
			c := m.rings[i]
			n := len(c)
			rot := append(append([]*R{}, c[j:]...), c[:j]...)
			switch op {
			case 0, 1, 2:
				var q *R
				if !t.Bool(8) {
					q = pick()
				}
				if t.Bool(3) {
					q = rot[t.Intn(n)]
				}
				t.Step("%d.Link(%d)", m.name[r], m.name[q])
				x := r.Link(q)
				t.Assert(x == rot[1%n], "Link returns %d, want %d", m.name[x], m.name[rot[1%n]])
				if q != nil {
					i2, j2 := m.find(q)
					if i2 == i {
						d := (j2 - j + n) % n
						if d == 0 {
							d = n
						}
						m.rings[i] = append([]*R{r}, rot[min(d, n):]...)
						if d > 1 {
							m.rings = append(m.rings, append([]*R{}, rot[1:d]...))
						}
					} else {
						c2 := m.rings[i2]
						nw := append([]*R{r}, append(append(append([]*R{}, c2[j2:]...), c2[:j2]...), rot[1:]...)...)
						m.rings[i] = nw
						m.rings = append(m.rings[:i2], m.rings[i2+1:]...)
					}
				}
			case 3, 4:
				k := t.Intn(3*n+3) - 2
				t.Step("%d.Unlink(%d)", m.name[r], k)
				x := r.Unlink(k)
				if k <= 0 {
					t.Assert(x == nil, "Unlink(%d) returns an element", k)
					break
				}
				d := k % n
				t.Assert(x == rot[1%n], "Unlink(%d) returns %d, want %d", k, m.name[x], m.name[rot[1%n]])
				if d > 0 {
					m.rings[i] = append([]*R{r}, rot[d+1:]...)
					m.rings = append(m.rings, append([]*R{}, rot[1:d+1]...))
				}
			case 5:
				k := t.Intn(200) - 100
				t.Step("%d.Move(%d)", m.name[r], k)
				t.Assert(r.Move(k) == rot[(k%n+n)%n], "Move(%d)", k)
			}
			if t.Bool(2) {
				m.check(t, t.Bool(4))
			}
		}
		t.Step("walk all")
		m.check(t, true)
	})
}
