// Concrete search for C12: random histories of additions, removals and resets
// (with names whose ring points collide) against the owner computed directly
// from the set of members.
package main

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"verif/replay/h"

	"github.com/zijiren233/gencontainer/hashring"
)

func hk(k string, i int) uint32 { return crc32.ChecksumIEEE([]byte(fmt.Sprintf("%v-%d", k, i))) }

type point struct {
	h uint32
	n string
}

func lt(a, b point) bool { return a.h < b.h || a.h == b.h && a.n < b.n }

func owner(m map[string]bool, r int, key string) string {
	var ps []point
	for n := range m {
		for i := 0; i < r; i++ {
			ps = append(ps, point{hk(n, i), n})
		}
	}
	if len(ps) == 0 {
		return ""
	}
	sort.Slice(ps, func(i, j int) bool { return lt(ps[i], ps[j]) })
	k := point{hk(key, 0), key}
	for _, p := range ps {
		if !lt(p, k) {
			return p.n
		}
	}
	return ps[0].n
}

var groups [][]string // names sharing the hash of a point, some with the hash of a key

func init() {
	r := rand.New(rand.NewSource(7))
	by := map[uint32]string{}
	name := func() string {
		b := make([]byte, 9)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	}
	for i := 0; i < 300000; i++ {
		n := name()
		v := r.Intn(2)
		x := hk(n, v)
		if o, ok := by[x]; ok && o != n {
			groups = append(groups, []string{o, n})
		} else {
			by[x] = n
		}
	}
}

func main() {
	h.Main("C12", func(t *h.H) {
		r := []int{1, 2, 3, 1, 2, 5, 0, 20}[t.Intn(8)]
		t.Step("New(%d)", r)
		ring := hashring.New[string](r)
		m := map[string]bool{}
		pool := []string{}
		for i := 0; i < 1+t.Intn(4); i++ {
			pool = append(pool, groups[t.Intn(len(groups))]...)
		}
		for i := 0; i < 5; i++ {
			pool = append(pool, fmt.Sprint("node", t.Intn(30)))
		}
		if t.Bool(4) {
			pool = append(pool, "")
		}
		keys := append([]string{}, pool...)
		for i := 0; i < 30; i++ {
			keys = append(keys, fmt.Sprint("key", t.Intn(1000)))
		}
		names := func() []string {
			var s []string
			for i := t.Intn(4); i > 0; i-- {
				s = append(s, pool[t.Intn(len(pool))])
			}
			return s
		}
		for k := 0; k < 2+t.Size/3; k++ {
			before := map[string]string{}
			was := map[string]bool{}
			for n := range m {
				was[n] = true
			}
			for _, key := range keys {
				before[key] = ring.GetNode(key)
			}
			ns := names()
			orig := append([]string{}, ns...)
			op := t.Intn(5)
			switch {
			case op < 2:
				t.Step("AddNodes%q", ns)
				t.Assert(ring.AddNodes(ns...) == ring, "AddNodes returns another ring")
				for _, n := range ns {
					m[n] = true
				}
			case op < 4:
				if t.Bool(3) {
					for n := range m {
						ns = append(ns, n)
						break
					}
					orig = append([]string{}, ns...)
				}
				t.Step("RemoveNodes%q", ns)
				ring.RemoveNodes(ns...)
				for _, n := range ns {
					delete(m, n)
				}
			default:
				t.Step("ResetNodes%q", ns)
				ring.ResetNodes(ns...)
				m = map[string]bool{}
				for _, n := range ns {
					m[n] = true
				}
			}
			for i := range orig {
				t.Assert(ns[i] == orig[i], "the argument slice was changed")
			}
			for _, key := range keys {
				got, want := ring.GetNode(key), owner(m, r, key)
				t.Assert(got == want, "GetNode(%q) is %q, want %q (was %q)", key, got, want, before[key])
				if r > 0 && len(m) > 0 {
					t.Assert(m[got], "GetNode(%q) is %q, not a member", key, got)
				}
				if got != before[key] && op < 2 && len(was) > 0 && r > 0 {
					t.Assert(!was[got], "GetNode(%q) moved from %q to %q, which was there before", key, before[key], got)
				}
			}
		}
	}, func(t *h.H) {
		// any history with the same members gives the same answers
		r := 1 + t.Intn(4)
		t.Step("two rings with %d replicas", r)
		a, b := hashring.New[int](r), hashring.New[int](r)
		var ns []int
		for i := 0; i < 1+t.Intn(8); i++ {
			ns = append(ns, t.Intn(50)-5)
		}
		t.Step("members %v", ns)
		a.AddNodes(ns...)
		p := t.Perm(len(ns))
		for _, i := range p {
			b.AddNodes(ns[i], 1000+i)
		}
		for _, i := range p {
			b.RemoveNodes(1000 + i)
		}
		in := map[int]bool{}
		for _, n := range ns {
			in[n] = true
		}
		for k := -100; k < 200; k++ {
			x, y := a.GetNode(k), b.GetNode(k)
			t.Assert(x == y, "GetNode(%d) is %d and %d", k, x, y)
			t.Assert(in[x], "GetNode(%d) is %d, not a member", k, x)
		}
	})
}
