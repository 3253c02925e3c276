// Concrete search for C11: searching, comparing and sorting with configured
// and default comparators against direct definitions.
package main

import (
	"fmt"
	"reflect"

	"verif/replay/h"

	"github.com/zijiren233/gencontainer/vec"
)

type item struct{ key, tag int }

func less(a, b item) bool { return a.key < b.key }
func eqk(a, b item) bool  { return a.key == b.key }

func cp[T any](s []T) []T { return append([]T{}, s...) }

func same(t *h.H, what string, got, want []item) {
	t.Assert(fmt.Sprint(got) == fmt.Sprint(want), "%s: %v, want %v", what, got, want)
}

func gen(t *h.H, n int) []item {
	k := 1 + t.Intn(2+n)
	s := make([]item, n)
	for i := range s {
		s[i] = item{t.Intn(k), i}
		if t.Bool(3) && i > 0 {
			s[i].key = s[i-1].key
		}
	}
	return s
}

func stableSorted(s []item) []item {
	r := cp(s)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].key < r[j-1].key; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func isSorted(s []item) bool {
	for i := 1; i < len(s); i++ {
		if s[i].key < s[i-1].key {
			return false
		}
	}
	return true
}

func mk(t *h.H, s []item) *vec.Vec[item] {
	var v *vec.Vec[item]
	switch t.Intn(3) {
	case 0:
		v = vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(eqk))
	case 1:
		v = vec.New(vec.WithCmpEqual(eqk)).SetCmpLess(less)
	default:
		v = new(vec.Vec[item]).SetCmpEqual(eqk).SetCmpLess(less)
	}
	v.Push(s...)
	if t.Bool(4) {
		v = v.Clone()
	}
	return v
}

func cmpRef(a, b []item) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if a[i].key != b[i].key {
			if a[i].key < b[i].key {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

func sgn(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func configured(t *h.H) {
	s := gen(t, t.Intn(2+t.Size))
	if t.Bool(12) {
		s = gen(t, 20+t.Intn(300))
	}
	if t.Bool(3) {
		s = stableSorted(s)
		if t.Bool(3) && len(s) > 1 {
			i := t.Intn(len(s))
			s[i].key = t.Intn(s[len(s)-1].key + 2)
		}
	}
	v := mk(t, s)
	t.Step("elements %v", s)
	srt := stableSorted(s)
	tgt := item{t.Intn(len(s)+3) - 1, -1}
	if len(s) > 0 && t.Bool(2) {
		tgt.key = s[t.Intn(len(s))].key
	}
	idx := -1
	var all []int
	for i, e := range s {
		if e.key == tgt.key {
			if idx < 0 {
				idx = i
			}
			all = append(all, i)
		}
	}
	t.Step("target %v", tgt)
	is := func(e item) bool { return e.key == tgt.key }
	t.Assert(v.Search(tgt) == idx, "Search is %d, want %d", v.Search(tgt), idx)
	t.Assert(v.SearchFunc(is) == idx, "SearchFunc is %d, want %d", v.SearchFunc(is), idx)
	t.Assert(fmt.Sprint(v.SearchAll(tgt)) == fmt.Sprint(all), "SearchAll is %v, want %v", v.SearchAll(tgt), all)
	t.Assert(fmt.Sprint(v.SearchAllFunc(is)) == fmt.Sprint(all), "SearchAllFunc is %v, want %v", v.SearchAllFunc(is), all)
	t.Assert(v.Contains(tgt) == (idx >= 0), "Contains is %v", v.Contains(tgt))
	t.Assert(v.ContainsFunc(is) == (idx >= 0), "ContainsFunc is %v", v.ContainsFunc(is))
	t.Assert(v.IsSorted() == isSorted(s), "IsSorted is %v", v.IsSorted())
	t.Assert(v.IsSortedFunc(less, eqk) == isSorted(s), "IsSortedFunc is %v", v.IsSortedFunc(less, eqk))
	if len(s) > 0 {
		i, j := t.Intn(len(s)), t.Intn(len(s))
		t.Assert(v.Less(i, j) == (s[i].key < s[j].key), "Less(%d,%d) is %v", i, j, v.Less(i, j))
		t.Assert(v.Equal(i, j) == (s[i].key == s[j].key), "Equal(%d,%d) is %v", i, j, v.Equal(i, j))
		t.Assert(v.Min().key == srt[0].key && v.MinFunc(less, eqk).key == srt[0].key, "Min is %v", v.Min())
		t.Assert(v.Max().key == srt[len(srt)-1].key && v.MaxFunc(less, eqk).key == srt[len(srt)-1].key, "Max is %v", v.Max())
		in := map[item]bool{}
		for _, e := range s {
			in[e] = true
		}
		t.Assert(in[v.Min()] && in[v.Max()], "Min or Max is no element")
	}
	// another vector
	o := cp(s)
	switch t.Intn(4) {
	case 0:
		o = gen(t, t.Intn(4))
	case 1:
		if len(o) > 0 {
			o = o[:t.Intn(len(o))]
		}
	case 2:
		if len(o) > 0 {
			o[t.Intn(len(o))].key += t.Intn(3) - 1
		}
	}
	for i := range o {
		o[i].tag += 1000
	}
	w := mk(t, o)
	t.Step("other %v", o)
	c := cmpRef(s, o)
	t.Assert(sgn(v.Compare(*w)) == c, "Compare is %d, want %d", v.Compare(*w), c)
	t.Assert(sgn(v.CompareFunc(*w, less, eqk)) == c, "CompareFunc is %d, want %d", v.CompareFunc(*w, less, eqk), c)
	t.Assert(v.EqualVec(*w) == (c == 0), "EqualVec is %v", v.EqualVec(*w))
	t.Assert(v.EqualVecFunc(*w, eqk) == (c == 0), "EqualVecFunc is %v", v.EqualVecFunc(*w, eqk))
	t.Assert(v.EqualSlice(o) == (c == 0), "EqualSlice is %v", v.EqualSlice(o))
	t.Assert(v.EqualSliceFunc(o, eqk) == (c == 0), "EqualSliceFunc is %v", v.EqualSliceFunc(o, eqk))
	same(t, "a query changed the vector", v.Slice(), s)
	same(t, "a query changed the other vector", w.Slice(), o)
	// compaction
	var comp []item
	for i, e := range s {
		if i == 0 || e.key != s[i-1].key {
			comp = append(comp, e)
		}
	}
	k := mk(t, s)
	if t.Bool(2) {
		t.Assert(k.Compact() == k, "Compact returns another vector")
	} else {
		k.CompactFunc(eqk)
	}
	t.Step("Compact")
	same(t, "Compact", k.Slice(), comp)
	// sorting
	k = mk(t, s)
	op := t.Intn(4)
	t.Step("sort %d", op)
	switch op {
	case 0:
		t.Assert(k.Sort() == k, "Sort returns another vector")
	case 1:
		k.SortFunc(less, eqk)
	case 2:
		t.Assert(k.SortStable() == k, "SortStable returns another vector")
	case 3:
		k.SortStableFunc(less, eqk)
	}
	g := k.Slice()
	if op >= 2 {
		same(t, "stable sort", g, srt)
	} else {
		t.Assert(isSorted(g) && len(g) == len(s), "sorted to %v", g)
		in := map[item]bool{}
		for _, e := range s {
			in[e] = true
		}
		for _, e := range g {
			t.Assert(in[e], "sorted to %v", g)
			delete(in, e)
		}
	}
	// binary search on the sorted vector
	want := 0
	for want < len(g) && g[want].key < tgt.key {
		want++
	}
	f := want < len(g) && g[want].key == tgt.key
	t.Step("BinarySearch %v", tgt)
	i, ok := k.BinarySearch(tgt)
	t.Assert(i == want && ok == f, "BinarySearch is %d %v, want %d %v", i, ok, want, f)
	i, ok = k.BinarySearchFunc(tgt, func(a, b item) int { return a.key - b.key })
	t.Assert(i == want && ok == f, "BinarySearchFunc is %d %v, want %d %v", i, ok, want, f)
}

// the default comparators: numbers by value, the order total and consistent
func defaults[T any](mk func(int) T, val func(T) int) func(t *h.H) {
	return func(t *h.H) {
		n := t.Intn(2 + t.Size)
		v := vec.New[T]()
		var s []int
		for i := 0; i < n; i++ {
			x := t.Intn(40)
			s = append(s, x)
			v.Push(mk(x))
		}
		t.Step("%s elements %v", reflect.TypeOf(mk(0)), s)
		a, b := t.Intn(40), t.Intn(40)
		if t.Bool(3) {
			b = a
		}
		t.Assert(v.CmpLess(mk(a), mk(b)) == (a < b), "CmpLess(%d,%d) is %v", a, b, v.CmpLess(mk(a), mk(b)))
		t.Assert(v.CmpEqual(mk(a), mk(b)) == (a == b), "CmpEqual(%d,%d) is %v", a, b, v.CmpEqual(mk(a), mk(b)))
		w := -1
		for i, x := range s {
			if x == a && w < 0 {
				w = i
			}
		}
		t.Assert(v.Search(mk(a)) == w, "Search(%d) is %d, want %d", a, v.Search(mk(a)), w)
		v.Sort()
		prev := -1 << 40
		for i := 0; i < n; i++ {
			e, _ := v.Get(i)
			t.Assert(val(e) >= prev, "default order: %d after %d", val(e), prev)
			prev = val(e)
		}
		i, ok := v.BinarySearch(mk(a))
		lo := 0
		for lo < n {
			e, _ := v.Get(lo)
			if val(e) >= a {
				break
			}
			lo++
		}
		t.Assert(i == lo && ok == (w >= 0), "BinarySearch(%d) is %d %v, want %d %v", a, i, ok, lo, w >= 0)
	}
}

func ptr[T any](x T) *T { return &x }

func main() {
	h.Main("C11", configured, configured, configured,
		defaults(func(i int) int { return i - 20 }, func(x int) int { return x + 20 }),
		configured,
		defaults(func(i int) uint { return uint(i) }, func(x uint) int { return int(x) }),
		defaults(func(i int) int8 { return int8(i - 20) }, func(x int8) int { return int(x) + 20 }),
		defaults(func(i int) float64 { return float64(i-20) / 8 }, func(x float64) int { return int(x*8) + 20 }),
		configured,
		defaults(func(i int) float32 { return float32(i-20) / 8 }, func(x float32) int { return int(x*8) + 20 }),
		defaults(func(i int) string { return fmt.Sprintf("n%d", i) }, func(x string) int { var i int; fmt.Sscanf(x, "n%d", &i); return i }),
		defaults(func(i int) *int { return ptr(i) }, func(x *int) int { return *x }),
		defaults(func(i int) uint64 { return uint64(i) << 58 }, func(x uint64) int { return int(x >> 58) }),
		defaults(func(i int) *string { return ptr(fmt.Sprintf("n%d", i)) }, func(x *string) int { var i int; fmt.Sscanf(*x, "n%d", &i); return i }),
		defaults(func(i int) *float64 { return ptr(float64(i-20) / 8) }, func(x *float64) int { return int(*x*8) + 20 }),
		defaults(func(i int) *uint16 { return ptr(uint16(i)) }, func(x *uint16) int { return int(*x) }),
	)
}
