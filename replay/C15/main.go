// Concrete search for C15: random sequential histories against a plain map.
package main

import (
	"fmt"
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/rwmap"
)

func seq[V comparable](t *h.H, mk func(int) V) {
	var ms [2]rwmap.RWMap[int, V]
	refs := [2]map[int]V{{}, {}}
	nk := 1 + t.Intn(7)
	for i := 0; i < 3+t.Intn(t.Size*2+10); i++ {
		w := 0
		if t.Bool(10) {
			w = 1
		}
		m, ref := &ms[w], refs[w]
		k, v, o := t.Intn(nk), mk(t.Intn(4)), mk(t.Intn(4))
		cur, has := ref[k]
		var zero V
		switch t.Intn(12) {
		case 0, 1:
			t.Step("m%d.Load(%d)", w, k)
			g, ok := m.Load(k)
			t.Assert(ok == has && g == cur, "Load = %v, %v, want %v, %v", g, ok, cur, has)
		case 2:
			t.Step("m%d.Store(%d, %v)", w, k, v)
			m.Store(k, v)
			ref[k] = v
		case 3:
			t.Step("m%d.Swap(%d, %v)", w, k, v)
			g, ok := m.Swap(k, v)
			t.Assert(ok == has && g == cur, "Swap = %v, %v, want %v, %v", g, ok, cur, has)
			ref[k] = v
		case 4, 5:
			t.Step("m%d.LoadOrStore(%d, %v)", w, k, v)
			g, ok := m.LoadOrStore(k, v)
			if !has {
				ref[k] = v
				cur = v
			}
			t.Assert(ok == has && g == cur, "LoadOrStore = %v, %v, want %v, %v", g, ok, cur, has)
		case 6:
			t.Step("m%d.LoadAndDelete(%d)", w, k)
			g, ok := m.LoadAndDelete(k)
			t.Assert(ok == has && g == cur, "LoadAndDelete = %v, %v, want %v, %v", g, ok, cur, has)
			delete(ref, k)
		case 7:
			t.Step("m%d.Delete(%d)", w, k)
			m.Delete(k)
			delete(ref, k)
		case 8:
			t.Step("m%d.CompareAndSwap(%d, %v, %v)", w, k, o, v)
			g := m.CompareAndSwap(k, o, v)
			t.Assert(g == (has && cur == o), "CompareAndSwap = %v, present %v, current %v", g, has, cur)
			if g {
				ref[k] = v
			}
		case 9:
			t.Step("m%d.CompareAndDelete(%d, %v)", w, k, o)
			g := m.CompareAndDelete(k, o)
			t.Assert(g == (has && cur == o), "CompareAndDelete = %v, present %v, current %v", g, has, cur)
			if g {
				delete(ref, k)
			}
		case 10:
			if t.Bool(3) {
				t.Step("m%d.Clear()", w)
				m.Clear()
				clear(ref)
			} else {
				t.Step("m%d.SlowLen()", w)
				t.Assert(m.SlowLen() == int64(len(ref)), "SlowLen = %d, want %d", m.SlowLen(), len(ref))
			}
		case 11:
			stop := t.Intn(nk + 2)
			t.Step("m%d.Range(stop after %d)", w, stop)
			seen := map[int]bool{}
			stopped := false
			m.Range(func(k int, v V) bool {
				t.Assert(!stopped, "Range went on after the callback returned false")
				t.Assert(!seen[k], "Range visited %d twice", k)
				seen[k] = true
				c, ok := ref[k]
				t.Assert(ok && c == v, "Range gave %d: %v, want %v, %v", k, v, c, ok)
				stopped = len(seen) > stop
				return !stopped
			})
			t.Assert(stopped || len(seen) == len(ref), "Range visited %d of %d keys", len(seen), len(ref))
		}
		for j := range ms {
			t.Assert(ms[j].Len() == int64(len(refs[j])), "m%d.Len() = %d, want %d", j, ms[j].Len(), len(refs[j]))
			if t.Bool(8) {
				for k := 0; k < nk; k++ {
					c, has := refs[j][k]
					g, ok := ms[j].Load(k)
					t.Assert(ok == has && g == c, "m%d.Load(%d) = %v, %v, want %v, %v", j, k, g, ok, c, has)
				}
			}
		}
		_ = zero
	}
}

func main() {
	h.Main("C15",
		func(t *h.H) { seq(t, func(i int) int { return i }) },
		func(t *h.H) { seq(t, func(i int) string { return fmt.Sprint("v", i) }) },
		func(t *h.H) {
			seq(t, func(i int) any { return []any{1, "1", nil, 2.5}[i] })
		},
	)
}
