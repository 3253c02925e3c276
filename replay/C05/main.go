// Concrete search for C05: random heap operations on an own container, on
// MinHeap and on MaxHeap, compared with a multiset.
package main

import (
	"sort"

	"verif/replay/h"

	"github.com/zijiren233/gencontainer/heap"
)

type el struct{ key, id int }

// cont implements heap.Interface with a strict weak order that has ties.
type cont struct {
	t   *h.H
	s   []el
	mod int
}

func (c *cont) less(a, b el) bool { return a.key%c.mod < b.key%c.mod }
func (c *cont) at(i int) el {
	c.t.Assert(i >= 0 && i < len(c.s), "index %d of %d used", i, len(c.s))
	return c.s[i]
}
func (c *cont) Len() int           { return len(c.s) }
func (c *cont) Less(i, j int) bool { return c.less(c.at(i), c.at(j)) }
func (c *cont) Swap(i, j int)      { c.at(i); c.at(j); c.s[i], c.s[j] = c.s[j], c.s[i] }
func (c *cont) Push(x el)          { c.s = append(c.s, x) }
func (c *cont) Pop() el {
	c.t.Assert(len(c.s) > 0, "Pop of an empty container")
	x := c.s[len(c.s)-1]
	c.s = c.s[:len(c.s)-1]
	return x
}

func ids(s []el) map[el]int {
	m := map[el]int{}
	for _, e := range s {
		m[e]++
	}
	return m
}

func (c *cont) check(want map[el]int, ordered bool, what string) {
	got := ids(c.s)
	for e, n := range want {
		c.t.Assert(got[e] == n, "%s: %v occurs %d times, want %d", what, e, got[e], n)
	}
	for e, n := range got {
		c.t.Assert(want[e] == n, "%s: %v occurs %d times, want %d", what, e, n, want[e])
	}
	if ordered {
		for i := 1; i < len(c.s); i++ {
			c.t.Assert(!c.less(c.s[i], c.s[(i-1)/2]), "%s: order broken at %d: %v", what, i, c.s)
		}
	}
}

func custom(t *h.H) {
	c := &cont{t: t, mod: 1 + t.Intn(30)}
	id := 0
	mk := func() el { id++; return el{t.Intn(100), id} }
	n := t.Intn(t.Size + 2)
	for i := 0; i < n; i++ {
		c.s = append(c.s, mk())
	}
	t.Step("mod %d Init %v", c.mod, c.s)
	want := ids(c.s)
	heap.Init[el](c)
	c.check(want, true, "Init")
	for s := 0; s < 1+t.Intn(t.Size); s++ {
		switch op := t.Intn(5); {
		case op == 0 || len(c.s) == 0:
			e := mk()
			t.Step("Push %v", e)
			want[e]++
			heap.Push[el](c, e)
			c.check(want, true, "Push")
		case op == 1:
			all := append([]el{}, c.s...)
			t.Step("Pop")
			x := heap.Pop[el](c)
			for _, e := range all {
				t.Assert(!c.less(e, x), "Pop returned %v though %v is there", x, e)
			}
			want[x]--
			t.Assert(want[x] >= 0, "Pop returned %v, which is not there", x)
			if want[x] == 0 {
				delete(want, x)
			}
			c.check(want, true, "Pop")
		case op == 2:
			i := t.Intn(len(c.s))
			e := c.s[i]
			t.Step("Remove %d of %v", i, c.s)
			x := heap.Remove[el](c, i)
			t.Assert(x == e, "Remove(%d) returned %v, want %v", i, x, e)
			if want[e]--; want[e] == 0 {
				delete(want, e)
			}
			c.check(want, true, "Remove")
		case op == 3:
			i := t.Intn(len(c.s))
			old := c.s[i]
			if want[old]--; want[old] == 0 {
				delete(want, old)
			}
			c.s[i].key = t.Intn(100)
			want[c.s[i]]++
			t.Step("Fix %d of %v", i, c.s)
			heap.Fix[el](c, i)
			c.check(want, true, "Fix")
		default:
			t.Shuffle(len(c.s), func(i, j int) { c.s[i], c.s[j] = c.s[j], c.s[i] })
			t.Step("Init %v", c.s)
			heap.Init[el](c)
			c.check(want, true, "Init")
		}
	}
}

func shipped(t *h.H) {
	max := t.Bool(2)
	var hh heap.Interface[int]
	var view func() []int
	init := make([]int, t.Intn(t.Size))
	for i := range init {
		init[i] = t.Intn(40) - 20
	}
	if max {
		m := heap.MaxHeap[int](append([]int{}, init...))
		hh, view = &m, func() []int { return m }
	} else {
		m := heap.MinHeap[int](append([]int{}, init...))
		hh, view = &m, func() []int { return m }
	}
	t.Step("max %v Init %v", max, init)
	heap.Init(hh)
	model := append([]int{}, init...)
	for s := 0; s < 1+t.Intn(t.Size); s++ {
		sort.Ints(model)
		t.Assert(hh.Len() == len(model), "Len is %d, want %d", hh.Len(), len(model))
		switch op := t.Intn(4); {
		case op == 0 || len(model) == 0:
			v := t.Intn(40) - 20
			t.Step("Push %d", v)
			heap.Push(hh, v)
			model = append(model, v)
		case op == 1:
			t.Step("Pop")
			v := heap.Pop(hh)
			i := 0
			if max {
				i = len(model) - 1
			}
			t.Assert(v == model[i], "Pop gave %d, want %d", v, model[i])
			model = append(model[:i], model[i+1:]...)
		case op == 2:
			i := t.Intn(len(model))
			e := view()[i]
			t.Step("Remove %d", i)
			v := heap.Remove(hh, i)
			t.Assert(v == e, "Remove(%d) gave %d, want %d", i, v, e)
			k := sort.SearchInts(model, e)
			model = append(model[:k], model[k+1:]...)
		default:
			i := t.Intn(len(model))
			k := sort.SearchInts(model, view()[i])
			nv := t.Intn(40) - 20
			model[k] = nv
			view()[i] = nv
			t.Step("Fix %d to %d", i, nv)
			heap.Fix(hh, i)
		}
		sort.Ints(model)
		got := append([]int{}, view()...)
		for i := 1; i < len(got); i++ {
			p := (i - 1) / 2
			if max {
				t.Assert(got[i] <= got[p], "order broken: %v", got)
			} else {
				t.Assert(got[i] >= got[p], "order broken: %v", got)
			}
		}
		sort.Ints(got)
		for i := range model {
			t.Assert(i < len(got) && got[i] == model[i], "content %v, want %v", got, model)
		}
	}
	if t.Bool(3) { // floats and strings through the shipped containers
		f := heap.MinHeap[string]{}
		w := []string{}
		for i := 0; i < 6; i++ {
			x := string(rune('a' + t.Intn(5)))
			w = append(w, x)
			heap.Push[string](&f, x)
		}
		sort.Strings(w)
		for _, x := range w {
			t.Assert(heap.Pop[string](&f) == x, "string heap order")
		}
	}
}

func main() { h.Main("C05", custom, shipped) }
