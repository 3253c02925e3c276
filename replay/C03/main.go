package main

import (
	"fmt"
	"slices"
	"sort"

	"verif/replay/dl"
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/dllist"
)

func vals(l *dllist.Dllist[int]) []int {
	s := []int{}
	for e := l.Front(); e != nil; e = e.Next() {
		s = append(s, e.Value)
	}
	return s
}

func main() {
	h.Main("C03", func(hh *h.H) {
		w := dl.New(hh)
		for i := 0; i < hh.Intn(hh.Size+1); i++ {
			w.Op()
		}
		w.Check()
		for r := 0; r < 3; r++ {
			k, j := hh.Intn(len(w.L)), hh.Intn(len(w.L))
			l, o := w.L[k], w.L[j]
			lv, ov := vals(l), vals(o)
			handles := append([]dl.E{}, w.M[k]...)
			switch hh.Intn(4) {
			case 0:
				hh.Step("l%d%v.PushBackList(l%d%v)", k, lv, j, ov)
				l.PushBackList(o)
				same(hh, vals(l), append(append([]int{}, lv...), ov...))
				for i, e := range handles {
					hh.Assert(l.Get(i) == e, "an element of the receiver was replaced")
				}
			case 1:
				hh.Step("l%d%v.PushFrontList(l%d%v)", k, lv, j, ov)
				l.PushFrontList(o)
				same(hh, vals(l), append(append([]int{}, ov...), lv...))
				for i, e := range handles {
					hh.Assert(l.Get(i+len(ov)) == e, "an element of the receiver was replaced")
				}
			default:
				if j == k || len(handles) == 0 {
					return
				}
				p := hh.Intn(len(handles))
				if hh.Bool(2) {
					hh.Step("l%d%v.PushBackListTo(l%d%v, #%d)", k, lv, j, ov, p)
					l.PushBackListTo(o, handles[p])
				} else {
					hh.Step("l%d%v.PushFrontListTo(l%d%v, #%d)", k, lv, j, ov, p)
					l.PushFrontListTo(o, handles[p])
				}
				got := vals(l)
				hh.Assert(len(got) == len(lv)+len(ov) && l.Len() == len(got), "wrong length")
				mid := append([]int{}, got[p+1:p+1+len(ov)]...)
				rest := append(append([]int{}, got[:p+1]...), got[p+1+len(ov):]...)
				same(hh, rest, lv)
				sort.Ints(mid)
				so := append([]int{}, ov...)
				sort.Ints(so)
				same(hh, mid, so)
			}
			if j != k {
				same(hh, vals(o), ov)
			}
			// resynchronise the model
			w.M[k] = nil
			n := 0
			for e := l.Front(); e != nil; e = e.Next() {
				w.M[k] = append(w.M[k], e)
				w.Val[e] = e.Value
				if n++; n > 5000 {
					hh.Fail("cycle")
				}
			}
			w.Check()
		}
	}, func(hh *h.H) {
		n := hh.Intn(hh.Size + 1)
		l := dllist.New[[2]int]()
		var in [][2]int
		for i := 0; i < n; i++ {
			v := [2]int{hh.Intn(1 + hh.Intn(n+1)), i}
			in = append(in, v)
			l.PushBack(v)
		}
		desc := hh.Bool(3)
		hh.Step("Sort(%v, desc=%v)", in, desc)
		less := func(a, b [2]int) bool {
			if desc {
				return a[0] > b[0]
			}
			return a[0] < b[0]
		}
		l.Sort(less)
		out := l.Slice()
		hh.Assert(l.Len() == n && len(out) == n, "sorting changed the length: %d, want %d", l.Len(), n)
		for i := 1; i < n; i++ {
			hh.Assert(!less(out[i], out[i-1]), "not sorted: %v", out)
		}
		a := append([][2]int{}, in...)
		b := append([][2]int{}, out...)
		cmp := func(x, y [2]int) int {
			if x[0] != y[0] {
				return x[0] - y[0]
			}
			return x[1] - y[1]
		}
		slices.SortFunc(a, cmp)
		slices.SortFunc(b, cmp)
		hh.Assert(slices.Equal(a, b), "not a permutation: %v", out)
		m := 0
		for e := l.Back(); e != nil; e = e.Prev() {
			m++
			hh.Assert(e.Value == out[n-m], "backward links differ from forward links after sorting")
		}
		hh.Assert(m == n, "backward walk has %d elements, want %d", m, n)
	}, func(hh *h.H) {
		w := dl.New(hh)
		for i := 0; i < hh.Size; i++ {
			w.Op()
		}
		for k, l := range w.L {
			stop := hh.Intn(len(w.M[k]) + 2)
			hh.Step("l%d.Range stopping at call %d of %d", k, stop, len(w.M[k]))
			n := 0
			all := l.Range(func(e dl.E) bool {
				hh.Assert(n < len(w.M[k]) && e == w.M[k][n], "call %d got the wrong element", n)
				n++
				return n-1 != stop
			})
			hh.Assert(all == (stop >= len(w.M[k])), "Range returned %v", all)
			hh.Assert(n == min(len(w.M[k]), stop+1), "Range made %d calls", n)
			s := l.Slice()
			hh.Assert(len(s) == len(w.M[k]), "Slice has length %d", len(s))
			for i := range s {
				hh.Assert(s[i] == w.Val[w.M[k][i]], "Slice()[%d] = %d", i, s[i])
			}
			if len(s) > 0 {
				p := hh.Intn(len(s))
				hh.Step("Get(%d).Range stopping at call %d", p, stop)
				n = 0
				w.M[k][p].Range(func(e dl.E) bool {
					hh.Assert(p+n < len(s) && e == w.M[k][p+n], "element Range: call %d got the wrong element", n)
					n++
					return n-1 != stop
				})
				hh.Assert(n == min(len(s)-p, stop+1), "element Range made %d calls", n)
				s[0]++
				w.Check()
			}
		}
		if len(w.Dead) > 0 {
			n := 0
			w.Dead[0].Range(func(e dl.E) bool { n++; return true })
			hh.Assert(n == 1, "Range from a detached element made %d calls", n)
		}
		var nilE dl.E
		nilE.Range(func(e dl.E) bool { hh.Fail("Range from nil called back"); return true })
	})
}

func same(hh *h.H, got, want []int) {
	hh.Assert(slices.Equal(got, want), "%s", fmt.Sprintf("got %v, want %v", got, want))
}
