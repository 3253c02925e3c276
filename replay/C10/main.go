// Concrete search for C10: random edits of several vectors against ordinary
// sequences; every vector, and every slice handed out as an independent copy,
// is compared after every step, so shared storage shows.
package main

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/vec"
)

type vm struct {
	v *vec.Vec[int]
	s []int
}
type frozen struct {
	got, want []int
	what      string
}

func cp(s []int) []int { return append([]int{}, s...) }

func eq(t *h.H, what string, got, want []int) {
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && got[i] == want[i]
	}
	t.Assert(ok, "%s holds %v, want %v", what, got, want)
}

func (x *vm) check(t *h.H, n int) {
	t.Assert(x.v.Len() == len(x.s), "v%d.Len is %d, want %d", n, x.v.Len(), len(x.s))
	t.Assert(x.v.IsEmpty() == (len(x.s) == 0), "v%d.IsEmpty is %v", n, x.v.IsEmpty())
	t.Assert(x.v.Cap() >= len(x.s), "v%d.Cap is %d", n, x.v.Cap())
	eq(t, "vector", x.v.Slice(), x.s)
	for i := -2; i < len(x.s)+2; i++ {
		e, ok := x.v.Get(i)
		in := i >= 0 && i < len(x.s)
		t.Assert(ok == in && (!in || e == x.s[i]) && (in || e == 0), "v%d.Get(%d) is %d %v", n, i, e, ok)
	}
	f, ok := x.v.First()
	t.Assert(ok == (len(x.s) > 0) && (!ok || f == x.s[0]) && (ok || f == 0), "First is %d %v", f, ok)
	f, ok = x.v.Last()
	t.Assert(ok == (len(x.s) > 0) && (!ok || f == x.s[len(x.s)-1]) && (ok || f == 0), "Last is %d %v", f, ok)
	stop := t.Intn(len(x.s) + 2)
	c := 0
	x.v.Range(func(i, val int) bool {
		t.Assert(i == c && c < len(x.s) && val == x.s[c] && c <= stop, "Range visits %d %d as number %d", i, val, c)
		c++
		return c <= stop
	})
	want := stop + 1
	if want > len(x.s) {
		want = len(x.s)
	}
	t.Assert(c == want, "Range made %d calls, want %d", c, want)
}

func pick(t *h.H, n int) int {
	if t.Bool(6) {
		return []int{-1, n, n + 1, -5, 0}[t.Intn(5)]
	}
	if n == 0 {
		return 0
	}
	return t.Intn(n + 1)
}

func vals(t *h.H) []int {
	r := make([]int, t.Intn(4))
	for i := range r {
		r[i] = 1 + t.Intn(99)
	}
	if t.Bool(8) {
		for i := 0; i < 10; i++ {
			r = append(r, 100+i)
		}
	}
	return r
}

func main() {
	h.Main("C10", func(t *h.H) {
		vs := []*vm{{v: vec.New[int]()}}
		if t.Bool(2) {
			vs = append(vs, &vm{v: new(vec.Vec[int])})
		}
		var fz []frozen
		for st := 0; st < 1+t.Intn(2*t.Size); st++ {
			n := t.Intn(len(vs))
			x := vs[n]
			l := len(x.s)
			i, j := pick(t, l), pick(t, l)
			if i > j && !t.Bool(6) {
				i, j = j, i
			}
			a := vals(t)
			inc := func(i int) bool { return i >= 0 && i < l }
			span := i >= 0 && i <= j && j <= l
			self := false
			if t.Bool(6) && l > 0 { // arguments that alias the vector
				lo := t.Intn(l)
				a = x.v.Slice()[lo : lo+t.Intn(l-lo+1)]
				self = true
			}
			as := cp(a)
			switch t.Intn(22) {
			case 0, 1, 2, 3:
				t.Step("v%d Push %v self=%v", n, as, self)
				t.Assert(x.v.Push(a...) == x.v, "Push returns another vector")
				x.s = append(x.s, as...)
			case 4:
				t.Step("v%d Pop", n)
				e, ok := x.v.Pop()
				t.Assert(ok == (l > 0), "Pop says %v", ok)
				if ok {
					t.Assert(e == x.s[l-1], "Pop is %d", e)
					x.s = x.s[:l-1]
				} else {
					t.Assert(e == 0, "Pop is %d on an empty vector", e)
				}
			case 5, 6:
				t.Step("v%d Remove %d", n, i)
				e, ok := x.v.Remove(i)
				t.Assert(ok == inc(i), "Remove says %v", ok)
				if ok {
					t.Assert(e == x.s[i], "Remove is %d", e)
					x.s = append(cp(x.s[:i]), x.s[i+1:]...)
				} else {
					t.Assert(e == 0, "Remove is %d", e)
				}
			case 7:
				t.Step("v%d Set %d", n, i)
				ok := x.v.Set(i, 500+st)
				t.Assert(ok == inc(i), "Set says %v", ok)
				if ok {
					x.s[i] = 500 + st
				}
			case 8:
				t.Step("v%d Clear", n)
				t.Assert(x.v.Clear() == x.v, "Clear returns another vector")
				x.s = nil
			case 9, 10:
				t.Step("v%d Cut %d %d", n, i, j)
				e := x.v.Cut(i, j)
				if span {
					w := cp(x.s[i:j])
					eq(t, "cut part", e, w)
					x.s = append(cp(x.s[:i]), x.s[j:]...)
					fz = append(fz, frozen{e, w, "cut part"})
				} else {
					t.Assert(e == nil, "Cut out of range is %v", e)
				}
			case 11, 12:
				t.Step("v%d SplitOff %d", n, i)
				r := x.v.SplitOff(i)
				t.Assert(r != nil && r != x.v, "SplitOff returns the vector itself or nil")
				y := &vm{v: r}
				if i >= 0 && i <= l {
					y.s = cp(x.s[i:])
					x.s = cp(x.s[:i])
				}
				y.check(t, len(vs))
				vs = append(vs, y)
			case 13:
				t.Step("v%d Swap %d %d", n, i, j)
				x.v.Swap(i, j)
				if inc(i) && inc(j) {
					x.s[i], x.s[j] = x.s[j], x.s[i]
				}
			case 14:
				val := 1 + t.Intn(99)
				if inc(i) && t.Bool(2) {
					val = x.s[i]
				}
				t.Step("v%d ConpareAndRemove %d %d", n, i, val)
				e, ok := x.v.ConpareAndRemove(i, val)
				w := inc(i) && x.s[i] == val
				t.Assert(ok == w && (!ok || e == val) && (ok || e == 0), "ConpareAndRemove is %d %v", e, ok)
				if w {
					x.s = append(cp(x.s[:i]), x.s[i+1:]...)
				}
			case 15:
				g := t.Intn(20)
				t.Step("v%d Grow %d / Clip", n, g)
				if t.Bool(2) {
					t.Assert(x.v.Grow(g) == x.v, "Grow returns another vector")
					t.Assert(x.v.Cap() >= l+g, "Grow(%d) leaves capacity %d for %d elements", g, x.v.Cap(), l)
				} else {
					t.Assert(x.v.Clip() == x.v, "Clip returns another vector")
					t.Assert(x.v.Cap() == l, "Clip leaves capacity %d for %d elements", x.v.Cap(), l)
				}
			case 16:
				t.Step("v%d Clone", n)
				if t.Bool(2) {
					vs = append(vs, &vm{v: x.v.Clone(), s: cp(x.s)})
				} else {
					c := x.v.CloneToSlice()
					eq(t, "copied slice", c, x.s)
					fz = append(fz, frozen{c, cp(x.s), "copied slice"})
				}
			case 17:
				t.Step("v%d Delete %d %d", n, i, j)
				p := t.Panics(func() { x.v.Delete(i, j) })
				t.Assert(p == !span, "Delete panicked: %v", p)
				if !p {
					x.s = append(cp(x.s[:i]), x.s[j:]...)
				}
			case 18, 19:
				t.Step("v%d Insert %d %v self=%v", n, i, as, self)
				p := t.Panics(func() { x.v.Insert(i, a...) })
				t.Assert(p == !(i >= 0 && i <= l) || len(as) == 0, "Insert panicked: %v", p)
				if !p && len(as) > 0 {
					x.s = append(append(cp(x.s[:i]), as...), x.s[i:]...)
				}
			case 20:
				t.Step("v%d Replace %d %d %v self=%v", n, i, j, as, self)
				p := t.Panics(func() { x.v.Replace(i, j, a...) })
				t.Assert(p == !span || len(as) == 0, "Replace panicked: %v", p)
				if !p && span {
					x.s = append(append(cp(x.s[:i]), as...), x.s[j:]...)
				}
			case 21:
				t.Step("v%d Reverse / SliceCut %d %d", n, i, j)
				c := x.v.SliceCut(i, j)
				if span {
					eq(t, "SliceCut", c, x.s[i:j])
				} else {
					t.Assert(c == nil, "SliceCut out of range is %v", c)
				}
				t.Assert(x.v.Reverse() == x.v, "Reverse returns another vector")
				r := cp(x.s)
				for k := range r {
					r[k] = x.s[l-1-k]
				}
				x.s = r
			}
			if len(vs) > 6 {
				vs = vs[1:]
			}
			if len(fz) > 6 {
				fz = fz[1:]
			}
			for k, y := range vs {
				y.check(t, k)
			}
			for k := range fz {
				eq(t, fz[k].what, fz[k].got, fz[k].want)
				if t.Bool(4) && len(fz[k].got) > 0 { // and edits of the copy must not show in a vector
					q := t.Intn(len(fz[k].got))
					fz[k].got[q] = -7
					fz[k].want[q] = -7
					// growing into spare capacity of the copy must not either
					if t.Bool(3) {
						_ = append(fz[k].got, -9, -9)
					}
				}
			}
		}
	})
}
