package main

import (
	"fmt"
	"sort"

	"verif/replay/h"

	"github.com/zijiren233/gencontainer/set"
)

type S = set.Set[int]

func gen(hh *h.H) S {
	switch hh.Intn(8) {
	case 0:
		return nil
	case 1:
		return set.New[int]()
	}
	s := set.New[int]()
	for i := hh.Intn(min(hh.Size, 7)); i > 0; i-- {
		s[hh.Intn(6)] = struct{}{}
	}
	return s
}

func clone(s S) map[int]bool {
	m := map[int]bool{}
	for k := range s {
		m[k] = true
	}
	return m
}

func str(m map[int]bool) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

func eq(a map[int]bool, s S) bool {
	if len(a) != len(s) {
		return false
	}
	for k := range a {
		if _, ok := s[k]; !ok {
			return false
		}
	}
	return true
}

func main() {
	h.Main("C07", func(hh *h.H) {
		a, b := gen(hh), gen(hh)
		alias := hh.Bool(6)
		if alias {
			b = a
		}
		c := gen(hh)
		ma, mb, mc := clone(a), clone(b), clone(c)
		x := hh.Intn(7)
		hh.Step("a=%s nil=%v b=%s nil=%v same=%v c=%s x=%d", str(ma), a == nil, str(mb), b == nil, a != nil && eq(ma, b), str(mc), x)
		unchanged := func() {
			hh.Assert(eq(ma, a) && eq(mb, b) && eq(mc, c), "an operand changed")
		}
		result := func(name string, r S, in func(k int) bool) {
			hh.Step("%s", name)
			want := map[int]bool{}
			for k := 0; k < 8; k++ {
				if in(k) {
					want[k] = true
				}
			}
			hh.Assert(eq(want, r), "%s = %s, want %s", name, str(clone(r)), str(want))
			unchanged()
			if r != nil {
				r.Insert(77)
				delete(r, 0)
				unchanged()
			}
		}
		sub := func(p, q map[int]bool) bool {
			for k := range p {
				if !q[k] {
					return false
				}
			}
			return true
		}
		for n := 0; n < 3; n++ {
			switch hh.Intn(19) {
			case 0:
				result("a.Union(b)", a.Union(b), func(k int) bool { return ma[k] || mb[k] })
			case 1:
				result("a.Union(b,c)", a.Union(b, c), func(k int) bool { return ma[k] || mb[k] || mc[k] })
				result("a.Union()", a.Union(), func(k int) bool { return ma[k] })
			case 2:
				result("a.Difference(b)", a.Difference(b), func(k int) bool { return ma[k] && !mb[k] })
			case 3:
				result("a.SymmetricDifference(b)", a.SymmetricDifference(b), func(k int) bool { return ma[k] != mb[k] })
			case 4:
				result("a.Intersection(b)", a.Intersection(b), func(k int) bool { return ma[k] && mb[k] })
			case 5:
				result("a.Clone()", a.Clone(), func(k int) bool { return ma[k] })
			case 6:
				hh.Step("a.Equal(b)")
				hh.Assert(a.Equal(b) == (sub(ma, mb) && sub(mb, ma)), "Equal is wrong")
			case 7:
				hh.Step("a.IsSubSet(b)")
				hh.Assert(a.IsSubSet(b) == sub(ma, mb), "IsSubSet is wrong")
			case 8:
				hh.Step("a.IsSupperSet(b)")
				hh.Assert(a.IsSupperSet(b) == sub(mb, ma), "IsSupperSet is wrong")
			case 9:
				hh.Step("a.Contain(x), Len, IsEmpty")
				hh.Assert(a.Contain(x) == ma[x] && a.Len() == len(ma) && a.IsEmpty() == (len(ma) == 0), "Contain, Len or IsEmpty is wrong")
			case 10:
				if a != nil {
					hh.Step("a.Insert(%d)", x)
					hh.Assert(a.Insert(x) == !ma[x], "Insert returned the wrong answer")
					ma[x] = true
				}
			case 11:
				hh.Step("a.Remove(%d)", x)
				hh.Assert(a.Remove(x) == ma[x], "Remove returned the wrong answer")
				delete(ma, x)
			case 12:
				hh.Step("a.ContainAndRemove(%d)", x)
				hh.Assert(a.ContainAndRemove(x) == ma[x], "ContainAndRemove returned the wrong answer")
				delete(ma, x)
			case 13:
				if a != nil {
					hh.Step("a.Push(%d, %d)", x, x+1)
					a.Push(x, x+1)
					ma[x], ma[x+1] = true, true
				}
			case 14:
				if a != nil {
					hh.Step("a.CopyFrom(b)")
					a.CopyFrom(b)
					for k := range mb {
						ma[k] = true
					}
				}
			case 15:
				hh.Step("a.Slice()")
				got := map[int]bool{}
				sl := a.Slice()
				for _, k := range sl {
					got[k] = true
				}
				hh.Assert(len(sl) == len(ma) && eq(got, a), "Slice = %v", sl)
			case 16, 17:
				stop := hh.Intn(len(ma) + 2)
				hh.Step("a.Range stopping at call %d", stop)
				got := map[int]bool{}
				calls := 0
				a.Range(func(v int) bool {
					hh.Assert(!got[v] && ma[v], "Range visited %d twice or visited a non-member", v)
					got[v] = true
					calls++
					return calls-1 != stop
				})
				hh.Assert(calls == min(stop+1, len(ma)), "Range made %d calls", calls)
			case 18:
				hh.Step("a.Clear()")
				a.Clear()
				ma = map[int]bool{}
			}
			if alias {
				mb = ma
			}
			unchanged()
		}
	})
}
