// Concrete search for C09: random histories on linked hash maps against an
// association list kept in recency order.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/lhashmap"
)

type kv struct{ k, v int }
type lm struct {
	m  *lhashmap.Lhashmap[int, int]
	ls []kv
}

func (x *lm) find(k int) int {
	for i, e := range x.ls {
		if e.k == k {
			return i
		}
	}
	return -1
}
func (x *lm) front(i int) {
	e := x.ls[i]
	copy(x.ls[1:i+1], x.ls[:i])
	x.ls[0] = e
}
func (x *lm) check(t *h.H) {
	t.Assert(x.m.Len() == len(x.ls), "Len is %d, want %d", x.m.Len(), len(x.ls))
	var got []kv
	x.m.Range(func(k, v int) bool {
		got = append(got, kv{k, v})
		return len(got) < 1000
	})
	t.Assert(len(got) == len(x.ls), "Range lists %v, want %v", got, x.ls)
	for i := range got {
		t.Assert(got[i] == x.ls[i], "Range lists %v, want %v", got, x.ls)
	}
	if len(x.ls) > 0 {
		n := t.Intn(len(x.ls)) + 1
		c := 0
		x.m.Range(func(k, v int) bool {
			t.Assert(c < n && x.ls[c] == (kv{k, v}), "Range visits %d after it was stopped or out of order", k)
			c++
			return c < n
		})
		t.Assert(c == n, "Range stopped early: %d of %d", c, n)
	}
}

func main() {
	h.Main("C09", func(t *h.H) {
		var ms []*lm
		for i := 0; i < 1+t.Intn(2); i++ {
			if t.Bool(3) {
				ms = append(ms, &lm{m: lhashmap.New[int, int](lhashmap.WithCap[int, int](t.Intn(5)), lhashmap.WithCap[int, int](2))})
			} else {
				ms = append(ms, &lm{m: lhashmap.New[int, int]()})
			}
		}
		keys := 1 + t.Intn(2+t.Size/2)
		for s := 0; s < 1+t.Intn(2*t.Size); s++ {
			n := t.Intn(len(ms))
			x := ms[n]
			k := t.Intn(keys)
			i := x.find(k)
			switch op := t.Intn(20); {
			case op < 8:
				v := t.Intn(1000)
				t.Step("m%d Store %d %d", n, k, v)
				x.m.Store(k, v)
				if i >= 0 {
					x.ls[i].v = v
					x.front(i)
				} else {
					x.ls = append([]kv{{k, v}}, x.ls...)
				}
			case op < 14:
				t.Step("m%d Load %d", n, k)
				v, ok := x.m.Load(k)
				t.Assert(ok == (i >= 0), "Load(%d) says %v", k, ok)
				if i >= 0 {
					t.Assert(v == x.ls[i].v, "Load(%d) is %d, want %d", k, v, x.ls[i].v)
					x.front(i)
				} else {
					t.Assert(v == 0, "Load of an absent key is %d", v)
				}
			case op < 19:
				t.Step("m%d Remove %d", n, k)
				x.m.Remove(k)
				if i >= 0 {
					x.ls = append(append([]kv{}, x.ls[:i]...), x.ls[i+1:]...)
				}
			default:
				t.Step("m%d Clear", n)
				x.m.Clear()
				x.ls = nil
			}
			for _, y := range ms {
				y.check(t)
			}
		}
	})
}
