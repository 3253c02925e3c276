// Concrete search for C08: random generic map operations against plain maps.
package main

import (
	"maps"

	"verif/replay/h"

	"github.com/zijiren233/gencontainer/genmap"
)

type M = genmap.GenMap[int, int]

type pair struct {
	g M
	m map[int]int
}

func main() {
	h.Main("C08", func(t *h.H) {
		var ps []*pair
		mk := func() {
			switch t.Intn(3) {
			case 0:
				t.Step("New")
				ps = append(ps, &pair{genmap.New[int, int](), map[int]int{}})
			default:
				src := map[int]int{}
				for i := t.Intn(t.Size); i > 0; i-- {
					src[t.Intn(8)] = t.Intn(4)
				}
				t.Step("From(%v)", src)
				ps = append(ps, &pair{genmap.From(src), src})
				t.Assert(maps.Equal(map[int]int(ps[len(ps)-1].g), src), "From(%v) is %v", src, ps[len(ps)-1].g)
				ps[len(ps)-1].m = maps.Clone(src)
			}
		}
		mk()
		mk()
		all := func() {
			for i, p := range ps {
				t.Assert(maps.Equal(map[int]int(p.g), p.m), "map %d is %v, want %v", i, p.g, p.m)
				t.Assert(p.g.Len() == len(p.m), "Len of map %d", i)
			}
		}
		for s := 1 + t.Intn(t.Size); s > 0; s-- {
			i := t.Intn(len(ps))
			p := ps[i]
			j := t.Intn(len(ps))
			q := ps[j]
			k, v := t.Intn(8), t.Intn(4)
			old, had := p.m[k]
			same := func(r M) {
				r[777] = 1
				_, ok := p.g[777]
				t.Assert(ok, "the method returns another map")
				delete(r, 777)
			}
			switch t.Intn(21) {
			case 0:
				t.Step("%d.Load(%d)", i, k)
				g, ok := p.g.Load(k)
				t.Assert(g == old && ok == had, "Load(%d) is %d %v", k, g, ok)
			case 1:
				t.Step("%d.Store(%d,%d)", i, k, v)
				same(p.g.Store(k, v))
				p.m[k] = v
			case 2:
				t.Step("%d.Delete(%d)", i, k)
				same(p.g.Delete(k))
				delete(p.m, k)
			case 3:
				if len(ps) > 8 {
					continue
				}
				t.Step("%d = %d.Clone", len(ps), i)
				ps = append(ps, &pair{p.g.Clone(), maps.Clone(p.m)})
			case 4:
				t.Step("%d.Map", i)
				r := p.g.Map()
				t.Assert(maps.Equal(r, p.m), "Map is %v", r)
			case 5:
				t.Step("%d.Keys", i)
				seen := map[int]int{}
				ks := p.g.Keys()
				for _, x := range ks {
					_, ok := p.m[x]
					t.Assert(ok, "Keys has %d", x)
					seen[x]++
				}
				t.Assert(len(seen) == len(p.m) && len(ks) == len(p.m), "Keys is %v", ks)
			case 6:
				t.Step("%d.Values", i)
				bag := map[int]int{}
				for _, x := range p.m {
					bag[x]++
				}
				vs := p.g.Values()
				for _, x := range vs {
					bag[x]--
				}
				for x, n := range bag {
					t.Assert(n == 0, "Values is %v (%d off by %d)", vs, x, n)
				}
			case 7:
				stop := t.Intn(len(p.m) + 2)
				t.Step("%d.Range(stop at %d)", i, stop)
				seen := map[int]bool{}
				n := 0
				all := p.g.Range(func(k, v int) bool {
					w, ok := p.m[k]
					t.Assert(ok && w == v && !seen[k], "Range calls back with %d %d", k, v)
					t.Assert(n < stop || stop == 0, "Range goes on")
					seen[k] = true
					n++
					return n != stop
				})
				stopped := stop > 0 && stop <= len(p.m)
				t.Assert(all == !stopped, "Range returns %v", all)
				if stopped {
					t.Assert(n == stop, "Range calls %d", n)
				} else {
					t.Assert(n == len(p.m), "Range calls %d", n)
				}
			case 8:
				t.Step("%d.LoadOrStore(%d,%d)", i, k, v)
				g, ok := p.g.LoadOrStore(k, v)
				t.Assert(ok == had && ((had && g == old) || (!had && g == v)), "LoadOrStore is %d %v", g, ok)
				if !had {
					p.m[k] = v
				}
			case 9:
				t.Step("%d.LoadOrStoreFunc(%d,%d)", i, k, v)
				n := 0
				g, ok := p.g.LoadOrStoreFunc(k, func() int { n++; return v })
				t.Assert(ok == had && ((had && g == old && n == 0) || (!had && g == v && n == 1)), "LoadOrStoreFunc is %d %v with %d calls", g, ok, n)
				if !had {
					p.m[k] = v
				}
			case 10:
				t.Step("%d.LoadAndDelete(%d)", i, k)
				g, ok := p.g.LoadAndDelete(k)
				t.Assert(ok == had && g == old, "LoadAndDelete is %d %v", g, ok)
				delete(p.m, k)
			case 11:
				t.Step("%d.LoadAndStore(%d,%d)", i, k, v)
				g, ok := p.g.LoadAndStore(k, v)
				t.Assert(ok == had && g == old, "LoadAndStore is %d %v", g, ok)
				p.m[k] = v
			case 12, 13:
				mod := 1 + t.Intn(3)
				t.Step("%d.EqualFunc(%d, mod %d)", i, j, mod)
				eq := maps.EqualFunc(p.m, q.m, func(a, b int) bool { return a%mod == b%mod })
				t.Assert(p.g.EqualFunc(q.g, func(a, b int) bool { return a%mod == b%mod }) == eq, "EqualFunc is not %v", eq)
			case 14:
				if !t.Bool(3) {
					continue
				}
				t.Step("%d.Clear", i)
				same(p.g.Clear())
				clear(p.m)
			case 15:
				t.Step("%d.CopyTo(%d)", i, j)
				p.g.CopyTo(q.g)
				maps.Copy(q.m, p.m)
			case 16:
				t.Step("%d.CopyToRaw(%d)", i, j)
				p.g.CopyToRaw(map[int]int(q.g))
				maps.Copy(q.m, p.m)
			case 17:
				t.Step("%d.CopyFrom(%d)", i, j)
				same(p.g.CopyFrom(q.g))
				maps.Copy(p.m, q.m)
			case 18:
				t.Step("%d.CopyFromRaw(%d)", i, j)
				same(p.g.CopyFromRaw(map[int]int(q.g)))
				maps.Copy(p.m, q.m)
			case 19:
				mod := 1 + t.Intn(3)
				t.Step("%d.DeleteFunc(k+v mod %d)", i, mod)
				calls := map[int]int{}
				p.g.DeleteFunc(func(k, v int) bool { calls[k]++; return (k+v)%mod == 0 })
				for k := range p.m {
					t.Assert(calls[k] == 1, "DeleteFunc asks %d times for %d", calls[k], k)
				}
				maps.DeleteFunc(p.m, func(k, v int) bool { return (k+v)%mod == 0 })
			case 20:
				var n M
				t.Step("nil map")
				_, ok := n.Load(k)
				t.Assert(!ok && n.Len() == 0 && n.Range(func(int, int) bool { return false }) && len(n.Keys()) == 0 && len(n.Values()) == 0, "nil map")
				t.Assert(n.EqualFunc(M{}, func(a, b int) bool { return a == b }), "nil map is not equal to the empty one")
			}
			all()
		}
	})
}
