// Package dl is the sequence model of the linked list shared by C01..C03.
package dl

import (
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/dllist"
)

type E = *dllist.Element[int]

type World struct {
	H      *h.H
	L      []*dllist.Dllist[int]
	M      [][]E
	Val    map[E]int
	Dead   []E // handles owned by no list
	Next   int
	Strict bool
}

func New(hh *h.H) *World {
	w := &World{H: hh, Val: map[E]int{}}
	for i := 0; i < 1+hh.Intn(3); i++ {
		if hh.Bool(2) {
			w.L = append(w.L, dllist.New[int]())
			hh.Step("l%d := New()", i)
		} else {
			w.L = append(w.L, &dllist.Dllist[int]{})
			hh.Step("l%d := &Dllist{}", i)
		}
		w.M = append(w.M, nil)
	}
	return w
}

func (w *World) Fresh() int { w.Next++; return w.Next }

func (w *World) Track(e E, v int) {
	w.H.Assert(e != nil, "no handle returned")
	_, dup := w.Val[e]
	w.H.Assert(!dup, "an existing handle was returned for a new element")
	w.Val[e] = v
}

func ins(s []E, i int, e E) []E {
	s = append(s, nil)
	copy(s[i+1:], s[i:])
	s[i] = e
	return s
}
func del(s []E, i int) []E { return append(append([]E{}, s[:i]...), s[i+1:]...) }

// Check compares every list with its model.
func (w *World) Check() {
	hh := w.H
	for k, l := range w.L {
		m := w.M[k]
		hh.Assert(l.Len() == len(m), "l%d.Len() = %d, want %d", k, l.Len(), len(m))
		e := l.Front()
		for i, x := range m {
			hh.Assert(e == x, "l%d: element %d going forwards is not the expected one", k, i)
			hh.Assert(e.Value == w.Val[x], "l%d[%d] = %d, want %d", k, i, e.Value, w.Val[x])
			e = e.Next()
		}
		hh.Assert(e == nil, "l%d: more elements going forwards than Len", k)
		e = l.Back()
		for i := len(m) - 1; i >= 0; i-- {
			hh.Assert(e == m[i], "l%d: element %d going backwards is not the expected one", k, i)
			e = e.Prev()
		}
		hh.Assert(e == nil, "l%d: more elements going backwards than Len", k)
		for i := -1; i <= len(m); i++ {
			var want E
			if i >= 0 && i < len(m) {
				want = m[i]
			}
			hh.Assert(l.Get(i) == want, "l%d.Get(%d) is not the expected element", k, i)
		}
	}
	for _, d := range w.Dead {
		hh.Assert(d.Next() == nil && d.Prev() == nil, "a detached element still has neighbours")
		hh.Assert(d.Value == w.Val[d], "a detached element lost its value")
	}
}

// Pick chooses a list and an index in it, or -1.
func (w *World) Pick() (int, int) {
	k := w.H.Intn(len(w.L))
	if len(w.M[k]) == 0 {
		return k, -1
	}
	return k, w.H.Intn(len(w.M[k]))
}

// Op performs one operation with valid handles.
func (w *World) Op() {
	hh := w.H
	k, i := w.Pick()
	l := w.L[k]
	m := w.M[k]
	switch op := hh.Intn(17); op {
	case 0, 1:
		v := w.Fresh()
		hh.Step("l%d.PushBack(%d)", k, v)
		e := l.PushBack(v)
		w.Track(e, v)
		w.M[k] = append(m, e)
	case 2, 3:
		v := w.Fresh()
		hh.Step("l%d.PushFront(%d)", k, v)
		e := l.PushFront(v)
		w.Track(e, v)
		w.M[k] = ins(m, 0, e)
	case 4, 5, 6, 7:
		if i < 0 {
			return
		}
		v := w.Fresh()
		var e E
		switch op {
		case 4:
			hh.Step("l%d.InsertBefore(%d, #%d)", k, v, i)
			e = l.InsertBefore(v, m[i])
		case 5:
			hh.Step("l%d.InsertAfter(%d, #%d)", k, v, i)
			e = l.InsertAfter(v, m[i])
		case 6:
			hh.Step("l%d.Get(%d).InsertBefore(%d)", k, i, v)
			e = m[i].InsertBefore(v)
		case 7:
			hh.Step("l%d.Get(%d).InsertAfter(%d)", k, i, v)
			e = m[i].InsertAfter(v)
		}
		w.Track(e, v)
		if op == 4 || op == 6 {
			w.M[k] = ins(m, i, e)
		} else {
			w.M[k] = ins(m, i+1, e)
		}
	case 8, 9:
		if i < 0 {
			return
		}
		e := m[i]
		var v int
		if op == 8 {
			hh.Step("l%d.Remove(#%d)", k, i)
			v = l.Remove(e)
		} else {
			hh.Step("l%d.Get(%d).Remove()", k, i)
			v = e.Remove()
		}
		hh.Assert(v == w.Val[e], "Remove returned %d, want %d", v, w.Val[e])
		w.M[k] = del(m, i)
		w.Dead = append(w.Dead, e)
	case 10, 11:
		if i < 0 {
			return
		}
		e := m[i]
		if op == 10 {
			hh.Step("l%d.MoveToFront(#%d)", k, i)
			l.MoveToFront(e)
			w.M[k] = ins(del(m, i), 0, e)
		} else {
			hh.Step("l%d.MoveToBack(#%d)", k, i)
			l.MoveToBack(e)
			w.M[k] = append(del(m, i), e)
		}
	case 12, 13, 14:
		if i < 0 {
			return
		}
		j := hh.Intn(len(m))
		if hh.Bool(2) { // favour neighbours
			j = max(0, min(len(m)-1, i+hh.Intn(3)-1))
		}
		e, x := m[i], m[j]
		switch op {
		case 12, 13:
			if op == 12 {
				hh.Step("l%d.MoveBefore(#%d, #%d)", k, i, j)
				l.MoveBefore(e, x)
			} else {
				hh.Step("l%d.MoveAfter(#%d, #%d)", k, i, j)
				l.MoveAfter(e, x)
			}
			if i != j {
				n := del(m, i)
				p := 0
				for q := range n {
					if n[q] == x {
						p = q
					}
				}
				if op == 13 {
					p++
				}
				w.M[k] = ins(n, p, e)
			}
		default:
			hh.Step("l%d.Swap(#%d, #%d)", k, i, j)
			l.Swap(e, x)
			n := append([]E{}, m...)
			n[i], n[j] = n[j], n[i]
			w.M[k] = n
		}
	case 15:
		if !hh.Bool(4) {
			return
		}
		hh.Step("l%d.Clear()", k)
		hh.Assert(l.Clear() == l, "Clear did not return its receiver")
		w.Dead = append(w.Dead, m...)
		w.M[k] = nil
	case 16:
		if i < 0 {
			return
		}
		v := w.Fresh()
		hh.Step("l%d.Get(%d).Value = %d", k, i, v)
		l.Get(i).Value = v
		w.Val[m[i]] = v
	}
}

// Shape is what can be observed of all lists and handles.
func (w *World) Shape() (s []any) {
	for _, l := range w.L {
		s = append(s, l.Len(), l.Front(), l.Back())
		n := 0
		for e := l.Front(); e != nil && n < 500; e = e.Next() {
			s = append(s, e, e.Value, e.Prev())
			n++
		}
		s = append(s, "|")
		for e := l.Back(); e != nil && n < 1000; e = e.Prev() {
			s = append(s, e)
			n++
		}
	}
	for _, d := range w.Dead {
		s = append(s, d.Next(), d.Prev(), d.Value)
	}
	return
}
