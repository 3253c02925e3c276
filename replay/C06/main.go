// Concrete search for C06: random pushes and pops on several priority queues
// against a multiset of (priority, value) pairs.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/pqueue"
)

type q struct {
	max bool
	pq  *pqueue.PQueue[int]
	in  map[int]int // value -> priority
}

func main() {
	h.Main("C06", func(t *h.H) {
		var qs []*q
		id := 0
		for i := 0; i < 1+t.Intn(3); i++ {
			x := &q{max: t.Bool(2), in: map[int]int{}}
			if x.max {
				x.pq = pqueue.NewMaxPriorityQueue[int]()
			} else {
				x.pq = pqueue.NewMinPriorityQueue[int]()
			}
			qs = append(qs, x)
		}
		pop := func(k int, x *q) {
			if len(x.in) == 0 {
				return
			}
			p, v := x.pq.Pop()
			t.Step("q%d max=%v Pop -> %d,%d", k, x.max, p, v)
			w, ok := x.in[v]
			t.Assert(ok, "popped value %d is not queued", v)
			t.Assert(w == p, "value %d popped with priority %d, was pushed with %d", v, p, w)
			for _, r := range x.in {
				t.Assert(x.max && r <= p || !x.max && r >= p, "popped priority %d though %d is queued", p, r)
			}
			delete(x.in, v)
		}
		span := []int{1, 3, 10, 1 << 40, 1 << 62}[t.Intn(5)]
		for s := 0; s < 1+t.Intn(2*t.Size); s++ {
			k := t.Intn(len(qs))
			x := qs[k]
			if t.Intn(5) < 3 {
				id++
				p := t.Intn(span)
				if t.Bool(2) {
					p = -p - 1
				}
				if t.Bool(20) {
					p = []int{-1 << 63, 1<<63 - 1, 0}[t.Intn(3)]
				}
				t.Step("q%d max=%v Push %d,%d", k, x.max, p, id)
				x.pq.Push(p, id)
				x.in[id] = p
			} else {
				pop(k, x)
			}
			for _, y := range qs {
				t.Assert(y.pq.Len() == len(y.in), "Len is %d, want %d", y.pq.Len(), len(y.in))
			}
		}
		for k, x := range qs {
			for len(x.in) > 0 {
				pop(k, x)
			}
			t.Assert(x.pq.Len() == 0, "Len of the emptied queue is %d", x.pq.Len())
		}
	})
}
