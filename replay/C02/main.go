package main

import (
	"reflect"

	"verif/replay/dl"
	"verif/replay/h"
)

func main() {
	h.Main("C02", func(hh *h.H) {
		w := dl.New(hh)
		for i := 0; i < hh.Size; i++ {
			w.Op()
			if hh.Bool(2) {
				continue
			}
			// a handle that list k does not own
			k := hh.Intn(len(w.L))
			l := w.L[k]
			var foreign []dl.E
			for j, m := range w.M {
				if j != k {
					foreign = append(foreign, m...)
				}
			}
			nf := len(foreign)
			foreign = append(foreign, w.Dead...)
			if len(foreign) == 0 {
				continue
			}
			fi := hh.Intn(len(foreign))
			x := foreign[fi]
			dead := fi >= nf
			what := "foreign"
			if dead {
				what = "detached"
			}
			own := x
			if len(w.M[k]) > 0 {
				own = w.M[k][hh.Intn(len(w.M[k]))]
			}
			before := w.Shape()
			var got dl.E
			switch hh.Intn(13) {
			case 0:
				hh.Step("l%d.Remove(%s)", k, what)
				hh.Assert(l.Remove(x) == w.Val[x], "Remove of a %s handle did not report its value", what)
			case 1:
				hh.Step("l%d.InsertBefore(0, %s)", k, what)
				got = l.InsertBefore(0, x)
			case 2:
				hh.Step("l%d.InsertAfter(0, %s)", k, what)
				got = l.InsertAfter(0, x)
			case 3:
				hh.Step("l%d.MoveToFront(%s)", k, what)
				l.MoveToFront(x)
			case 4:
				hh.Step("l%d.MoveToBack(%s)", k, what)
				l.MoveToBack(x)
			case 5:
				hh.Step("l%d.MoveBefore(%s, own)", k, what)
				l.MoveBefore(x, own)
			case 6:
				hh.Step("l%d.MoveBefore(own, %s)", k, what)
				l.MoveBefore(own, x)
			case 7:
				hh.Step("l%d.MoveAfter(%s, own)", k, what)
				l.MoveAfter(x, own)
			case 8:
				hh.Step("l%d.MoveAfter(own, %s)", k, what)
				l.MoveAfter(own, x)
			case 9:
				if hh.Bool(2) {
					hh.Step("l%d.Swap(own, %s)", k, what)
					l.Swap(own, x)
				} else {
					hh.Step("l%d.Swap(%s, own)", k, what)
					l.Swap(x, own)
				}
			case 10:
				if dead {
					hh.Step("%s.InsertAfter/InsertBefore(0)", what)
					if hh.Bool(2) {
						got = x.InsertAfter(0)
					} else {
						got = x.InsertBefore(0)
					}
				}
			case 11:
				if dead {
					hh.Step("%s.Remove()", what)
					hh.Assert(x.Remove() == w.Val[x], "second Remove did not report the value")
				}
			case 12:
				o := w.L[hh.Intn(len(w.L))]
				if hh.Bool(2) {
					hh.Step("l%d.PushBackListTo(other, %s)", k, what)
					l.PushBackListTo(o, x)
				} else {
					hh.Step("l%d.PushFrontListTo(other, %s)", k, what)
					l.PushFrontListTo(o, x)
				}
			}
			hh.Assert(got == nil, "a new element was created through a %s handle", what)
			hh.Assert(reflect.DeepEqual(ptrs(before), ptrs(w.Shape())), "an operation through a %s handle changed a list", what)
		}
	})
}

// pointers compare by identity, not by what they point to
func ptrs(s []any) []any {
	out := make([]any, len(s))
	for i, x := range s {
		if e, ok := x.(dl.E); ok {
			out[i] = reflect.ValueOf(e).Pointer()
		} else {
			out[i] = x
		}
	}
	return out
}
