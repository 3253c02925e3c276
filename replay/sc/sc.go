// Package sc: concrete histories for C19 and C20 with a clock under control.
package sc

import (
	"fmt"
	"sort"
	"time"
	"verif/replay/h"
	"verif/replay/shim/sched"
	shim "verif/replay/shim/time"

	"github.com/zijiren233/gencontainer/synccache"
)

type ent struct {
	v   int
	exp int64 // ms
	p   *synccache.Entry[int]
}

type env struct {
	t    *h.H
	c20  bool
	rep  []int
	base int
}

func (e *env) a20(ok bool, f string, a ...any) {
	if e.c20 {
		e.t.Assert(ok, f, a...)
	}
}
func (e *env) a19(ok bool, f string, a ...any) {
	if !e.c20 {
		e.t.Assert(ok, f, a...)
	}
}

func ms() int64 { return shim.Clock / 1_000_000 }

func trim(c any) bool {
	if x, ok := c.(interface{ VerifTrim() }); ok {
		x.VerifTrim()
		return true
	}
	return false
}

func mk(e *env, cb bool) *synccache.SyncCache[int, int] {
	if !cb {
		return synccache.NewSyncCache[int, int](time.Second)
	}
	if e.t.Bool(3) {
		return synccache.NewSyncCache[int, int](time.Second,
			synccache.WithDeletedCallback[int, int](func(v int) { e.rep = append(e.rep, -1000-v) }),
			synccache.WithDeletedCallback[int, int](func(v int) { e.rep = append(e.rep, v) }))
	}
	return synccache.NewSyncCache[int, int](time.Second, synccache.WithDeletedCallback[int, int](func(v int) { e.rep = append(e.rep, v) }))
}

// Seq: one goroutine, against a plain map.
func Seq(c20 bool) func(t *h.H) {
	return func(t *h.H) {
		shim.Step = 0
		shim.Clock = 1_700_000_000_000_000_000 + int64(t.Intn(3))*500_000
		e := &env{t: t, c20: c20}
		cb := !t.Bool(4)
		c := mk(e, cb)
		defer c.Close()
		ref := map[int]*ent{}
		next := 100
		nk := 1 + t.Intn(5)
		durs := []time.Duration{-time.Second, -1, 0, 1, time.Millisecond, 5 * time.Millisecond, time.Second, time.Hour, 24 * 400 * time.Hour}
		t.Step("NewSyncCache(callback %v)", cb)
		expired := func(x *ent) bool { return ms() > x.exp }
		check := func(want []int) {
			if !cb {
				want = nil
			}
			got := append([]int{}, e.rep...)
			e.rep = nil
			sort.Ints(got)
			sort.Ints(want)
			e.a20(fmt.Sprint(got) == fmt.Sprint(append([]int{}, want...)), "reported %v, want %v", got, want)
		}
		same := func(g *synccache.Entry[int], x *ent, what string) {
			e.a19(g != nil && g.Value() == x.v && (x.p == nil || x.p == g), "%s gave another entry than the one stored (%d)", what, x.v)
			x.p = g
		}
		present := func() (n int, keys []int) {
			for k := range ref {
				keys = append(keys, k)
			}
			sort.Ints(keys)
			return len(keys), keys
		}
		for i := 0; i < 4+t.Intn(t.Size+12); i++ {
			k := t.Intn(nk)
			x := ref[k]
			d := durs[t.Intn(len(durs))]
			exp := (shim.Clock + int64(d)) / 1_000_000
			switch t.Intn(15) {
			case 0, 1:
				next++
				t.Step("Store(%d, %d, %v)", k, next, d)
				c.Store(k, next, d)
				ref[k] = &ent{v: next, exp: exp}
				check(nil)
			case 2, 3, 4:
				t.Step("Load(%d)", k)
				g, ok := c.Load(k)
				want := x != nil && !expired(x)
				e.a19(ok == want, "Load = %v, stored %v, expired %v", ok, x != nil, x != nil && !want)
				e.a19(ok || g == nil, "Load returned an entry with false")
				if want && ok {
					same(g, x, "Load")
				}
				if x != nil && !want {
					delete(ref, k)
					check([]int{x.v})
				} else {
					check(nil)
				}
			case 5, 6:
				next++
				if d < 0 {
					d, exp = time.Hour, (shim.Clock+int64(time.Hour))/1_000_000
				}
				t.Step("LoadOrStore(%d, %d, %v)", k, next, d)
				g, ok := c.LoadOrStore(k, next, d)
				want := x != nil && !expired(x)
				e.a19(ok == want, "LoadOrStore = %v, stored %v, expired %v", ok, x != nil, x != nil && !want)
				if want {
					same(g, x, "LoadOrStore")
					check(nil)
				} else {
					ref[k] = &ent{v: next, exp: exp, p: g}
					e.a19(g != nil && g.Value() == next, "LoadOrStore did not give the stored entry")
					if x != nil {
						check([]int{x.v})
					} else {
						check(nil)
					}
				}
			case 7:
				t.Step("Delete(%d)", k)
				c.Delete(k)
				delete(ref, k)
				if x != nil {
					check([]int{x.v})
				} else {
					check(nil)
				}
			case 8:
				t.Step("LoadAndDelete(%d)", k)
				g, ok := c.LoadAndDelete(k)
				want := x != nil && !expired(x)
				e.a19(ok == want, "LoadAndDelete = %v, stored %v, expired %v", ok, x != nil, x != nil && !want)
				e.a19(ok || g == nil, "LoadAndDelete returned an entry with false")
				if want && ok {
					same(g, x, "LoadAndDelete")
				}
				delete(ref, k)
				if x != nil {
					check([]int{x.v})
				} else {
					check(nil)
				}
			case 9:
				g, ok := c.Load(k)
				if !ok {
					if x != nil {
						delete(ref, k)
					}
					e.rep = nil
					continue
				}
				arg := g
				if t.Bool(2) {
					arg = synccache.NewEntry(g.Value(), time.Hour)
				}
				t.Step("CompareAndDelete(%d, %v)", k, arg == g)
				r := c.CompareAndDelete(k, arg)
				e.a19(r == (arg == g), "CompareAndDelete = %v", r)
				if arg == g {
					delete(ref, k)
					check([]int{g.Value()})
				} else {
					check(nil)
				}
			case 10:
				val := next - t.Intn(3)
				if x != nil && t.Bool(2) {
					val = x.v
				}
				t.Step("CompareValueAndDelete(%d, %d)", k, val)
				r := c.CompareValueAndDelete(k, val)
				want := x != nil && !expired(x) && x.v == val
				e.a19(r == want, "CompareValueAndDelete = %v, want %v", r, want)
				if want || x != nil && expired(x) {
					delete(ref, k)
					check([]int{x.v})
				} else {
					check(nil)
				}
			case 11:
				if t.Bool(3) {
					t.Step("Clear()")
					var all []int
					for _, y := range ref {
						all = append(all, y.v)
					}
					c.Clear()
					ref = map[int]*ent{}
					check(all)
				} else {
					var want []int
					t.Step("trim")
					if trim(c) {
						for k, y := range ref {
							if expired(y) {
								want = append(want, y.v)
								delete(ref, k)
							}
						}
						check(want)
					}
				}
			case 12:
				stop := t.Intn(nk + 3)
				t.Step("Range(stop after %d)", stop)
				seen := map[int]bool{}
				stopped := false
				var live int
				for _, y := range ref {
					if !expired(y) {
						live++
					}
				}
				c.Range(func(k int, g *synccache.Entry[int]) bool {
					e.a19(!stopped, "Range went on after false")
					e.a19(!seen[k], "Range visited %d twice", k)
					seen[k] = true
					y := ref[k]
					e.a19(y != nil && !expired(y), "Range handed out key %d, stored %v", k, y != nil)
					if y != nil {
						same(g, y, "Range")
					}
					stopped = len(seen) > stop
					return !stopped
				})
				e.a19(stopped || len(seen) == live, "Range visited %d of %d", len(seen), live)
				if stopped {
					// which expired entries it met is not determined
					for _, v := range e.rep {
						ok := !cb
						for k, y := range ref {
							if y.v == v && expired(y) {
								delete(ref, k)
								ok = true
							}
						}
						e.a20(ok, "Range reported %d, which was not an expired entry of the cache or was reported twice", v)
					}
					e.rep = nil
					if !cb {
						for k, y := range ref {
							if expired(y) {
								c.Delete(k)
								delete(ref, k)
							}
						}
						e.rep = nil
					}
				} else {
					var want []int
					for k, y := range ref {
						if expired(y) {
							want = append(want, y.v)
							delete(ref, k)
						}
					}
					check(want)
				}
			case 13:
				if x != nil && x.p != nil {
					if t.Bool(2) {
						t.Step("entry(%d).AddExpiration(%v)", k, d)
						x.p.AddExpiration(d)
						x.exp += d.Milliseconds()
					} else {
						at := time.Unix(0, shim.Clock+int64(d))
						t.Step("entry(%d).SetExpiration(now+%v)", k, d)
						x.p.SetExpiration(at)
						x.exp = at.UnixMilli()
					}
					e.a19(x.p.IsExpired() == expired(x), "IsExpired = %v after changing the expiration", x.p.IsExpired())
				}
			case 14:
				adv := durs[t.Intn(len(durs)-1)]
				if adv < 0 {
					adv = 999_999
				}
				t.Step("clock += %v", adv)
				shim.Clock += int64(adv)
			}
			if t.Bool(6) {
				_, keys := present()
				for _, k := range keys {
					x := ref[k]
					g, ok := c.Load(k)
					e.a19(ok == !expired(x), "Load(%d) = %v, expired %v", k, ok, expired(x))
					if ok {
						same(g, x, "Load")
						check(nil)
					} else {
						delete(ref, k)
						check([]int{x.v})
					}
				}
			}
		}
	}
}

// Conc: several goroutines under a random schedule.
func Conc(c20 bool) func(t *h.H) {
	return func(t *h.H) {
		shim.Step = 0
		shim.Clock = 1_700_000_000_000_000_000
		e := &env{t: t, c20: c20}
		c := mk(e, true)
		defer c.Close()
		nk := 1 + t.Intn(2)
		next := 100
		stored := map[int]int{} // value -> key
		short := map[int]bool{} // value expires soon
		over := map[int]bool{}  // key was written by Store during the run
		for k := 0; k < nk; k++ {
			if t.Bool(4) {
				continue
			}
			next++
			d := time.Duration(5) * time.Millisecond
			if t.Bool(2) {
				d = time.Hour
			}
			t.Step("Store(%d, %d, %v)", k, next, d)
			c.Store(k, next, d)
			stored[next] = k
			short[next] = d < time.Second
		}
		for i := t.Intn(3); i > 0; i-- {
			c.Load(t.Intn(nk))
		}
		shim.Clock += 10_000_000
		e.rep = nil
		useStore := t.Bool(2)
		useDelete := t.Bool(2)
		taken := map[int]int{}
		long := map[int]bool{} // key: a long-lived value was stored during the run
		nt := 2 + t.Intn(2)
		var fns []func()
		for id := 0; id < nt; id++ {
			n := 1 + t.Intn(3)
			var ops []func()
			for j := 0; j < n; j++ {
				k := t.Intn(nk)
				op := t.Intn(8)
				switch {
				case op == 0 && useStore:
					next++
					v := next
					stored[v] = k
					over[k] = true
					t.Step("task %d: Store(%d, %d, 1h)", id, k, v)
					ops = append(ops, func() { c.Store(k, v, time.Hour); long[k] = true })
				case op == 1:
					next++
					v := next
					t.Step("task %d: LoadOrStore(%d, %d, 1h)", id, k, v)
					ops = append(ops, func() {
						g, ok := c.LoadOrStore(k, v, time.Hour)
						e.a19(g != nil, "LoadOrStore gave nil")
						if !ok {
							stored[v] = k
						}
						e.a19(!short[g.Value()], "LoadOrStore gave the expired entry %d", g.Value())
						long[k] = true
					})
				case op == 2 && useDelete:
					t.Step("task %d: Delete(%d)", id, k)
					ops = append(ops, func() { c.Delete(k) })
				case op == 3 && useDelete:
					t.Step("task %d: LoadAndDelete(%d)", id, k)
					ops = append(ops, func() {
						g, ok := c.LoadAndDelete(k)
						if ok {
							e.a19(!short[g.Value()], "LoadAndDelete gave the expired entry %d", g.Value())
							taken[g.Value()]++
						}
					})
				case op == 4:
					t.Step("task %d: trim", id)
					ops = append(ops, func() { trim(c) })
				case op == 5:
					t.Step("task %d: Range", id)
					ops = append(ops, func() {
						c.Range(func(k int, g *synccache.Entry[int]) bool {
							e.a19(!short[g.Value()], "Range gave the expired entry %d", g.Value())
							return true
						})
					})
				case op == 6 && useDelete && t.Bool(2):
					t.Step("task %d: Clear", id)
					ops = append(ops, func() { c.Clear() })
				case op == 7 && useDelete:
					t.Step("task %d: CompareValueAndDelete(%d, %d)", id, k, 101)
					ops = append(ops, func() {
						if c.CompareValueAndDelete(k, 101) {
							taken[101]++
						}
					})
				default:
					t.Step("task %d: Load(%d)", id, k)
					ops = append(ops, func() {
						g, ok := c.Load(k)
						if ok {
							e.a19(!short[g.Value()], "Load gave the expired entry %d", g.Value())
						}
					})
				}
			}
			fns = append(fns, func() {
				for _, f := range ops {
					f()
				}
			})
		}
		o := sched.Run(t.Rand, 20000, fns...)
		for _, p := range o.Panics {
			panic(p)
		}
		t.Assert(!o.Deadlock, "deadlock")
		t.Assert(!o.Long, "the operations do not terminate")
		left := map[int]bool{}
		c.Range(func(k int, g *synccache.Entry[int]) bool { left[g.Value()] = true; return true })
		count := map[int]int{}
		for _, v := range e.rep {
			count[v]++
		}
		for _, v := range e.rep {
			_, ok := stored[v]
			e.a20(ok && count[v] == 1, "%d reported %d times, stored %v", v, count[v], ok)
			e.a20(!left[v], "%d was reported but is still there", v)
		}
		for v, n := range taken {
			e.a20(n == 1 && count[v] == 1, "%d was taken %d times and reported %d times", v, n, count[v])
		}
		for v, k := range stored {
			if !over[k] && !short[v] {
				e.a20(left[v] || count[v] == 1, "%d disappeared without a report", v)
			}
			if !useDelete && !over[k] && !short[v] {
				e.a19(left[v], "the live entry %d was dropped", v)
			}
		}
		if !useDelete {
			for k := range long {
				g, ok := c.Load(k)
				e.a19(ok && !short[g.Value()], "a live entry of key %d was dropped", k)
			}
		}
		e.rep = nil
	}
}
