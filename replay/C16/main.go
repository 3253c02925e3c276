// Concrete search for C16: small concurrent programs on the map under a random
// schedule; the history of each key must be linearizable and the length exact
// once every call has returned.
package main

import (
	"fmt"
	"verif/replay/h"
	"verif/replay/shim/sched"

	"github.com/zijiren233/gencontainer/rwmap"
)

type op struct {
	kind      string
	key       int
	a, b      int // arguments
	call, ret int
	val       int // results
	ok        bool
}

func (o *op) String() string {
	return fmt.Sprintf("%s(k%d, %d, %d) = %d, %v in [%d, %d]", o.kind, o.key, o.a, o.b, o.val, o.ok, o.call, o.ret)
}

// apply: the state after o, and whether its results fit the state (0: absent).
func (o *op) apply(s int) (int, bool) {
	switch o.kind {
	case "Load":
		return s, o.val == s && o.ok == (s != 0)
	case "Store":
		return o.a, true
	case "Swap":
		return o.a, o.val == s && o.ok == (s != 0)
	case "LoadOrStore":
		if s != 0 {
			return s, o.ok && o.val == s
		}
		return o.a, !o.ok && o.val == o.a
	case "LoadAndDelete":
		return 0, o.val == s && o.ok == (s != 0)
	case "Delete", "Clear":
		return 0, true
	case "CompareAndSwap":
		if s != 0 && s == o.a {
			return o.b, o.ok
		}
		return s, !o.ok
	case "CompareAndDelete":
		if s != 0 && s == o.a {
			return 0, o.ok
		}
		return s, !o.ok
	}
	panic(o.kind)
}

func linearizable(ops []*op, start, end int) bool {
	type node struct {
		done uint32
		s    int
	}
	seen := map[node]bool{}
	full := uint32(1)<<len(ops) - 1
	var walk func(n node) bool
	walk = func(n node) bool {
		if n.done == full {
			return n.s == end
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		first := 1 << 30
		for i, o := range ops {
			if n.done>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if n.done>>i&1 == 1 || o.call > first {
				continue
			}
			if s, ok := o.apply(n.s); ok && walk(node{n.done | 1<<i, s}) {
				return true
			}
		}
		return false
	}
	return walk(node{0, start})
}

func search(t *h.H) {
	m := &rwmap.RWMap[int, int]{}
	nkeys := 1 + t.Intn(2)
	next := 10
	val := func() int {
		if t.Bool(3) {
			return 1 + t.Intn(2)
		}
		next++
		return next
	}
	// a history on one goroutine first, to reach the internal states
	state := map[int]int{}
	for n := t.Intn(8); n > 0; n-- {
		k := t.Intn(nkeys + 1)
		switch t.Intn(7) {
		case 0, 1, 2:
			v := val()
			t.Step("before: Store(k%d, %d)", k, v)
			m.Store(k, v)
			state[k] = v
		case 3, 4:
			t.Step("before: Delete(k%d)", k)
			m.Delete(k)
			delete(state, k)
		case 5:
			t.Step("before: Range")
			m.Range(func(int, int) bool { return true })
		case 6:
			t.Step("before: Load(k%d) three times", k)
			for i := 0; i < 3; i++ {
				m.Load(k)
			}
		}
	}
	var ops []*op
	clock := 0
	kinds := []string{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Clear", "Range"}
	var fns []func()
	for id, n := 0, 2+t.Intn(2); id < n; id++ {
		var todo []func()
		for c := 1 + t.Intn(3); c > 0; c-- {
			o := &op{kind: kinds[t.Intn(len(kinds))], key: t.Intn(nkeys)}
			switch o.kind {
			case "Clear":
				if t.Bool(2) {
					o.kind = "Delete"
				}
			case "CompareAndSwap", "CompareAndDelete":
				o.a = state[o.key]
				if o.a == 0 || t.Bool(3) {
					o.a = 1 + t.Intn(2)
				}
				o.b = val()
			default:
				o.a = val()
			}
			t.Step("task %d: %s(k%d, %d, %d)", id, o.kind, o.key, o.a, o.b)
			todo = append(todo, func() {
				clock++
				o.call = clock
				switch o.kind {
				case "Load":
					o.val, o.ok = m.Load(o.key)
				case "Store":
					m.Store(o.key, o.a)
				case "Swap":
					o.val, o.ok = m.Swap(o.key, o.a)
				case "LoadOrStore":
					o.val, o.ok = m.LoadOrStore(o.key, o.a)
				case "LoadAndDelete":
					o.val, o.ok = m.LoadAndDelete(o.key)
				case "Delete":
					m.Delete(o.key)
				case "CompareAndSwap":
					o.ok = m.CompareAndSwap(o.key, o.a, o.b)
				case "CompareAndDelete":
					o.ok = m.CompareAndDelete(o.key, o.a)
				case "Clear":
					m.Clear()
				case "Range":
					m.Range(func(int, int) bool { sched.Yield(); return true })
				}
				clock++
				o.ret = clock
				if o.kind == "Clear" {
					for k := 0; k <= nkeys; k++ {
						c := *o
						c.key = k
						ops = append(ops, &c)
					}
				} else if o.kind != "Range" {
					ops = append(ops, o)
				}
			})
		}
		fns = append(fns, func() {
			for _, f := range todo {
				f()
			}
		})
	}
	out := sched.Run(t.Rand, 6000, fns...)
	for _, p := range out.Panics {
		panic(p)
	}
	t.Assert(!out.Deadlock, "every goroutine waits for the lock")
	t.Assert(!out.Long, "no progress")
	size := 0
	for k := 0; k <= nkeys; k++ {
		end, ok := m.Load(k)
		if ok {
			size++
		}
		var mine []*op
		for _, o := range ops {
			if o.key == k {
				mine = append(mine, o)
			}
		}
		t.Assert(linearizable(mine, state[k], end), "key k%d: no order of %v explains the results from %d to %d", k, mine, state[k], end)
	}
	t.Assert(m.Len() == int64(size), "Len is %d with %d keys present after all calls returned", m.Len(), size)
}

func main() { h.Main("C16", search) }
