// Package rcm: concrete searches for C17 and C18.  Seq: random sequential histories over the three variants
// with a clock under control, against the history of refresh results.
package rcm

import (
	"context"
	"errors"
	"fmt"
	"time"
	"verif/replay/h"
	"verif/replay/shim/sched"
	shim "verif/replay/shim/time"

	rc "github.com/zijiren233/gencontainer/refreshcache"
	rc0 "github.com/zijiren233/gencontainer/refreshcache0"
	rc1 "github.com/zijiren233/gencontainer/refreshcache1"
)

type fn func(ctx context.Context, a int) (int, error)
type cfn func(ctx context.Context, a int) error

type cache struct {
	get, refresh   func(a int) (int, error)
	clear          func(a int) error
	raw            func() (int, error)
	last, lastErr  func() int64
	setF           func(fn)
	setC           func(cfn)
	key            any
	maxAge, errAge func() int64
}

func mk(v int, age time.Duration, errAges []time.Duration, wrapped bool, f fn) cache {
	bg := context.Background()
	switch v {
	case 0:
		var o []rc.RefreshDataOption[int, int]
		for _, e := range errAges {
			o = append(o, rc.WithErrAge[int, int](e))
		}
		wf := func(f fn) rc.RefreshFunc[int, int] {
			return func(ctx context.Context, a ...int) (int, error) {
				if len(a) != 1 {
					return f(ctx, -1)
				}
				return f(ctx, a[0])
			}
		}
		wc := func(f cfn) rc.ClearFunc[int, int] {
			if f == nil {
				return nil
			}
			return func(ctx context.Context, a ...int) error { return f(ctx, a[0]) }
		}
		if wrapped {
			c := rc.NewRefreshCache[int, int](wf(f), age, o...)
			return cache{func(a int) (int, error) { return c.Get(bg, a) }, func(a int) (int, error) { return c.Refresh(bg, a) }, func(a int) error { return c.Clear(bg, a) }, c.Raw, c.Last, c.LastErr,
				func(f fn) { c.SetRefreshFunc(wf(f)) }, func(f cfn) { c.SetClearFunc(wc(f)) }, rc.OldValKey, c.MaxAge, c.MaxErrAge}
		}
		d := rc.NewRefreshData[int, int](age, o...)
		var cl cfn
		return cache{func(a int) (int, error) { return d.Get(bg, wf(f), a) }, func(a int) (int, error) { return d.Refresh(bg, wf(f), a) }, func(a int) error { return d.Clear(bg, wc(cl), a) }, d.Raw, d.Last, d.LastErr,
			func(g fn) { f = g }, func(g cfn) { cl = g }, rc.OldValKey, d.MaxAge, d.MaxErrAge}
	case 1:
		var o []rc1.RefreshDataOption[int, int]
		for _, e := range errAges {
			o = append(o, rc1.WithErrAge[int, int](e))
		}
		wf := func(f fn) rc1.RefreshFunc[int, int] { return rc1.RefreshFunc[int, int](f) }
		wc := func(f cfn) rc1.ClearFunc[int, int] { return rc1.ClearFunc[int, int](f) }
		if wrapped {
			c := rc1.NewRefreshCache[int, int](wf(f), age, o...)
			return cache{func(a int) (int, error) { return c.Get(bg, a) }, func(a int) (int, error) { return c.Refresh(bg, a) }, func(a int) error { return c.Clear(bg, a) }, c.Raw, c.Last, c.LastErr,
				func(f fn) { c.SetRefreshFunc(wf(f)) }, func(f cfn) { c.SetClearFunc(wc(f)) }, rc1.OldValKey, c.MaxAge, c.MaxErrAge}
		}
		d := rc1.NewRefreshData[int, int](age, o...)
		var cl cfn
		return cache{func(a int) (int, error) { return d.Get(bg, wf(f), a) }, func(a int) (int, error) { return d.Refresh(bg, wf(f), a) }, func(a int) error { return d.Clear(bg, wc(cl), a) }, d.Raw, d.Last, d.LastErr,
			func(g fn) { f = g }, func(g cfn) { cl = g }, rc1.OldValKey, d.MaxAge, d.MaxErrAge}
	}
	var o []rc0.RefreshDataOption[int]
	for _, e := range errAges {
		o = append(o, rc0.WithErrAge[int](e))
	}
	cur := 0
	wf := func(f fn) rc0.RefreshFunc[int] {
		return func(ctx context.Context) (int, error) { return f(ctx, cur) }
	}
	wc := func(f cfn) rc0.ClearFunc[int] {
		if f == nil {
			return nil
		}
		return func(ctx context.Context) error { return f(ctx, cur) }
	}
	if wrapped {
		c := rc0.NewRefreshCache[int](wf(f), age, o...)
		return cache{func(a int) (int, error) { cur = a; return c.Get(bg) }, func(a int) (int, error) { cur = a; return c.Refresh(bg) }, func(a int) error { cur = a; return c.Clear(bg) }, c.Raw, c.Last, c.LastErr,
			func(f fn) { c.SetRefreshFunc(wf(f)) }, func(f cfn) { c.SetClearFunc(wc(f)) }, rc0.OldValKey, c.MaxAge, c.MaxErrAge}
	}
	d := rc0.NewRefreshData[int](age, o...)
	var cl cfn
	return cache{func(a int) (int, error) { cur = a; return d.Get(bg, wf(f)) }, func(a int) (int, error) { cur = a; return d.Refresh(bg, wf(f)) }, func(a int) error { cur = a; return d.Clear(bg, wc(cl)) }, d.Raw, d.Last, d.LastErr,
		func(g fn) { f = g }, func(g cfn) { cl = g }, rc0.OldValKey, d.MaxAge, d.MaxErrAge}
}

var errs = []error{errors.New("e0"), errors.New("e1"), fmt.Errorf("e2")}

func Seq(t *h.H) {
	shim.Step = 0
	shim.Clock = 1_700_000_000_000_000_000
	ages := []time.Duration{-1, -5, 0, 1, 2, 10, 1000, time.Hour}
	age := ages[t.Intn(len(ages))]
	var eas []time.Duration
	for t.Bool(2) && len(eas) < 3 {
		eas = append(eas, ages[t.Intn(len(ages))])
	}
	var ea time.Duration
	if len(eas) > 0 {
		ea = eas[len(eas)-1]
	}
	v := t.Intn(3)
	var (
		st            int
		last, lastErr int64
		val, prev     int
		er, anyErr    error
		cleared       bool
		next          = 100
	)
	// what the next call of the refresh function does
	type plan struct {
		val   int
		err   error
		panic bool
		adv   int64
	}
	var pl plan
	var calls int
	var gotArg int
	var gotOld any
	var key any
	id := 0
	gotID := -1
	mkf := func() fn {
		id++
		my := id
		return func(ctx context.Context, a int) (int, error) {
			calls++
			gotID = my
			gotArg = a
			gotOld = ctx.Value(key)
			shim.Clock += pl.adv
			if pl.panic {
				panic("planned")
			}
			return pl.val, pl.err
		}
	}
	wrapped := t.Bool(2)
	c := mk(v, age, eas, wrapped, mkf())
	key = c.key
	t.Step("variant %d wrapped %v maxAge %d errAges %v", v, wrapped, age, eas)
	t.Assert(c.maxAge() == int64(age), "MaxAge() = %d", c.maxAge())
	t.Assert(c.errAge() == int64(ea), "MaxErrAge() = %d", c.errAge())
	type cplan struct {
		err   error
		panic bool
	}
	var cp cplan
	var cset bool
	ccalls := 0
	mkc := func() cfn {
		return func(ctx context.Context, a int) error {
			ccalls++
			gotArg = a
			gotOld = ctx.Value(key)
			if cp.panic {
				panic("planned")
			}
			return cp.err
		}
	}
	fresh := func() bool {
		return st == 1 && !cleared && (age < 0 || shim.Clock-last < int64(age))
	}
	errFresh := func() bool { return st == 2 && shim.Clock-lastErr < int64(ea) }
	for i := 0; i < 2+t.Intn(t.Size+6); i++ {
		if t.Bool(2) {
			d := int64([]int{1, 1, 2, 5, 10, 999, 1000, 1001}[t.Intn(8)])
			shim.Clock += d
			t.Step("+%dns", d)
		}
		next++
		pl = plan{val: next, adv: int64([]int{0, 0, 1, 3, 2000}[t.Intn(5)])}
		if t.Bool(3) {
			pl.err = errs[t.Intn(len(errs))]
			if t.Bool(2) {
				pl.val = 0
			}
		}
		pl.panic = t.Bool(8)
		arg := t.Intn(1000)
		calls, ccalls, gotOld, gotArg, gotID = 0, 0, nil, -7, -1
		record := func(what string, g int, ge error, panicked bool) {
			t.Assert(calls == 1, "%s called the refresh function %d times", what, calls)
			t.Assert(gotID == id, "%s called an outdated refresh function", what)
			t.Assert(gotArg == arg, "%s passed argument %d, not %d", what, gotArg, arg)
			t.Assert(gotOld == any(prev), "%s passed old value %v, not %d", what, gotOld, prev)
			t.Assert(panicked == pl.panic, "%s panicked: %v", what, panicked)
			if panicked {
				return
			}
			t.Assert(g == pl.val && ge == pl.err, "%s returned %d, %v instead of the refresh result %d, %v", what, g, ge, pl.val, pl.err)
			cleared = false
			if pl.err == nil {
				st, last, val, prev = 1, shim.Clock, pl.val, pl.val
			} else {
				st, lastErr, er, anyErr = 2, shim.Clock, pl.err, pl.err
			}
		}
		switch t.Intn(7) {
		case 0, 1, 2:
			t.Step("Get(%d) [refresh would give %+v]", arg, pl)
			f, e := fresh(), errFresh()
			var g int
			var ge error
			p := t.Panics(func() { g, ge = c.get(arg) })
			if f {
				t.Assert(!p && calls == 0 && g == val && ge == nil, "Get returned %d, %v (panic %v, %d calls) although %d is fresh", g, ge, p, calls, val)
			} else if e {
				t.Assert(!p && calls == 0 && g == 0 && ge == er, "Get returned %d, %v (panic %v, %d calls) although error %v is fresh", g, ge, p, calls, er)
			} else {
				record("Get", g, ge, p)
			}
		case 3:
			t.Step("Refresh(%d) [gives %+v]", arg, pl)
			var g int
			var ge error
			p := t.Panics(func() { g, ge = c.refresh(arg) })
			record("Refresh", g, ge, p)
		case 4:
			cp = cplan{panic: t.Bool(6)}
			if t.Bool(2) {
				cp.err = errs[t.Intn(len(errs))]
			}
			t.Step("Clear(%d) [set %v, gives %+v]", arg, cset, cp)
			var ge error
			p := t.Panics(func() { ge = c.clear(arg) })
			if cset {
				t.Assert(ccalls == 1 && gotArg == arg && gotOld == any(prev) && p == cp.panic, "Clear: %d calls, argument %d, old value %v, panic %v", ccalls, gotArg, gotOld, p)
				if !p {
					t.Assert(ge == cp.err, "Clear returned %v", ge)
				}
			} else {
				t.Assert(!p && ge == nil, "Clear without function: %v, panic %v", ge, p)
			}
			t.Assert(calls == 0, "Clear refreshed")
			cleared = true
		case 5:
			if t.Bool(2) {
				t.Step("SetRefreshFunc")
				c.setF(mkf())
			} else {
				cset = t.Bool(2)
				t.Step("SetClearFunc(%v)", cset)
				if cset {
					c.setC(mkc())
				} else {
					c.setC(nil)
				}
			}
		case 6:
			t.Step("Raw")
			g, ge := c.raw()
			if fresh() {
				t.Assert(g == val && ge == nil, "Raw returned %d, %v although %d is fresh", g, ge, val)
			} else if errFresh() {
				t.Assert(g == 0 && ge == er, "Raw returned %d, %v although error %v is fresh", g, ge, er)
			} else {
				t.Assert(g == prev && ge == anyErr, "Raw returned %d, %v, last data %d, last error %v", g, ge, prev, anyErr)
			}
		}
		wl, we := int64(0), int64(0)
		if st == 1 && !cleared {
			wl = last
		}
		if st == 2 {
			we = lastErr
		}
		t.Assert(c.last() == wl && c.lastErr() == we, "Last() = %d, LastErr() = %d, want %d, %d", c.last(), c.lastErr(), wl, we)
	}
}

// Conc: interleavings of a few goroutines under the scheduler.
func Conc(t *h.H) {
	shim.Step = 0
	shim.Clock = 1_700_000_000_000_000_000
	ages := []time.Duration{-1, 0, 1, 5, 1000, time.Hour, time.Hour}
	age := ages[t.Intn(len(ages))]
	ea := ages[t.Intn(len(ages))]
	v, wrapped := t.Intn(3), t.Bool(2)
	var (
		inside   int
		next     = 100
		produced = map[int]bool{}
		failed   = map[error]int{}
		st       int // last refresh that returned: 1 success, 2 failure
		at       int64
		stale    bool
		clearing int
		role     = map[int]string{}
	)
	type plan struct {
		kind int // 0, 1: success, 2: failure, 3: panic
		adv  int64
		junk bool
	}
	var plans []plan
	for i := 0; i < 24; i++ {
		plans = append(plans, plan{kind: t.Intn(4) % 4, adv: int64([]int{0, 0, 1, 3, 2000}[t.Intn(5)]), junk: t.Bool(2)})
		if plans[i].kind == 3 && t.Bool(2) {
			plans[i].kind = 0
		}
	}
	np := 0
	f := func(ctx context.Context, a int) (int, error) {
		p := plans[np%len(plans)]
		np++
		inside++
		t.Assert(inside == 1, "two refreshes run at the same time")
		if sched.On() && role[sched.ID()] == "Get" {
			if st == 1 && !stale && clearing == 0 {
				t.Assert(!(age < 0 || shim.Clock-at < int64(age)), "Get refreshes although the result of the last refresh is fresh")
			}
			if st == 2 {
				t.Assert(shim.Clock-at >= int64(ea), "Get refreshes although the error of the last refresh is fresh")
			}
		}
		for i := 0; i < 2; i++ {
			sched.Yield()
			t.Assert(inside == 1, "two refreshes run at the same time")
		}
		shim.Clock += p.adv
		inside--
		if p.kind == 3 {
			panic("planned")
		}
		next++
		at = shim.Clock
		if p.kind == 2 {
			e := fmt.Errorf("e%d", next)
			d := 0
			if p.junk {
				d = next
			}
			failed[e] = d
			st = 2
			return d, e
		}
		produced[next] = true
		st, stale = 1, clearing > 0
		return next, nil
	}
	c := mk(v, age, []time.Duration{ea}, wrapped, f)
	t.Step("variant %d wrapped %v maxAge %d errAge %d", v, wrapped, age, ea)
	if t.Bool(2) {
		c.setC(func(ctx context.Context, a int) error { sched.Yield(); return nil })
	}
	result := func(what string, d int, err error) {
		if err == nil {
			t.Assert(produced[d], "%s returned %d, which no refresh had produced", what, d)
			return
		}
		j, ok := failed[err]
		t.Assert(ok, "%s returned error %v, which no refresh had produced", what, err)
		t.Assert(d == 0 || d == j, "%s returned %d with error %v", what, d, err)
	}
	task := func(id int) func() {
		var ops []func()
		for n := 1 + t.Intn(3); n > 0; n-- {
			switch k := t.Intn(8); {
			case k < 4:
				t.Step("task %d: Get", id)
				ops = append(ops, func() {
					role[id] = "Get"
					d, err := c.get(0)
					result("Get", d, err)
				})
			case k == 4 || k == 5:
				t.Step("task %d: Refresh", id)
				ops = append(ops, func() {
					role[id] = "Refresh"
					n0 := np
					d, err := c.refresh(0)
					t.Assert(np > n0, "Refresh did not call the refresh function")
					result("Refresh", d, err)
				})
			case k == 6:
				t.Step("task %d: Clear", id)
				ops = append(ops, func() {
					role[id] = "Clear"
					stale = true
					clearing++
					defer func() { clearing-- }()
					c.clear(0)
				})
			default:
				t.Step("task %d: Raw", id)
				ops = append(ops, func() {
					role[id] = "Raw"
					d, err := c.raw()
					if d != 0 {
						ok := produced[d]
						t.Assert(ok, "Raw returned %d, which no refresh had produced", d)
					}
					if err != nil {
						_, ok := failed[err]
						t.Assert(ok, "Raw returned error %v", err)
					}
				})
			}
		}
		return func() {
			for _, op := range ops {
				func() {
					defer func() {
						if r := recover(); r != nil && r != any("planned") {
							panic(r)
						}
					}()
					op()
				}()
			}
		}
	}
	var fns []func()
	for id, n := 0, 2+t.Intn(3); id < n; id++ {
		fns = append(fns, task(id))
	}
	check := func(out sched.Outcome, what string) {
		for _, p := range out.Panics {
			if p != any("planned") {
				panic(p)
			}
		}
		t.Assert(!out.Deadlock, "%s: every goroutine waits for the lock", what)
		t.Assert(!out.Long, "%s: no progress", what)
	}
	check(sched.Run(t.Rand, 4000, fns...), "run")
	role = map[int]string{0: "Get"}
	check(sched.Run(t.Rand, 4000, func() { c.get(0) }), "a get afterwards")
	role = map[int]string{0: "Refresh"}
	check(sched.Run(t.Rand, 4000, func() { c.refresh(0) }), "a refresh afterwards")
}
