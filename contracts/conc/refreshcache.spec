package refreshcache

// Concurrent contracts: what holds whatever other goroutines do.
// runs: refreshes that have returned; dgen, egen: the run that published the
// data, the error; lgen, legen: the run whose time of success, of failure, is
// recorded.
ghost field RefreshData.runs int
ghost field RefreshData.dgen int
ghost field RefreshData.egen int
ghost field RefreshData.lgen int
ghost field RefreshData.legen int

def inv0(d) := d.data != nil && d.err != nil && alloc(d.data) && alloc(d.err) && 0 <= d.dgen <= d.runs && 0 <= d.egen <= d.runs
def inv1(d) := d.last > 0 ==> 0 < d.lgen <= d.dgen
def inv2(d) := d.lastErr > 0 ==> 0 < d.legen <= d.egen
def inv3(d) := (d.egen > 0 <==> *d.err != nil) && (d.dgen == 0 ==> *d.data == zero(T))
def inv4(d) := d.last <= clock && d.lastErr <= clock
def okAt(d, t) := d.last > 0 && (d.maxAge < 0 || t - d.last < d.maxAge)
def errAt(d, t) := d.lastErr > 0 && t - d.lastErr < d.errAge




extern RefreshDataOption[T, A](r) ()
  requires r != nil
  modifies RefreshData.maxAge @ r, RefreshData.errAge @ r

contract NewRefreshData[T, A](maxAge, opts) (r)
  prop C18
  requires clock > 0 && (forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil)
  modifies *
  ghost r.runs := 0
  ghost r.dgen := 0
  ghost r.egen := 0
  ghost r.lgen := 0
  ghost r.legen := 0
  ensures fresh(r) && r != nil && inv0(r) && inv1(r) && inv2(r) && inv3(r) && inv4(r) && !held(r.lock)
  loop inv %r:*RefreshData[T, A] :: fresh(%r) && %r.last == 0 && %r.lastErr == 0 && %r.data != nil && fresh(%r.data) && %r.err != nil && fresh(%r.err) && *%r.data == zero(T) && *%r.err == nil && !held(%r.lock)

contract (*RefreshData[T, A]).Get(r, ctx, refreshFunc, args) (data, err)
  prop C18
  requires r != nil
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc returned r.runs := r.runs + 1
  conc guarantee own: r.data != old(r.data) ==> ncalls(refreshFunc) > 0 && *r.data == callres(refreshFunc, ncalls(refreshFunc) - 1, 0) && callres(refreshFunc, ncalls(refreshFunc) - 1, 1) == nil
  conc guarantee ownErr: r.err != old(r.err) ==> ncalls(refreshFunc) > 0 && *r.err == callres(refreshFunc, ncalls(refreshFunc) - 1, 1) && *r.err != nil
  requires !held(r.lock) && refreshFunc != nil && clock > 0 && ncalls(refreshFunc) >= 0
  callback refreshFunc trace maypanic timed
  modifies *
  ensures !held(r.lock)
  ensures ran: ncalls(refreshFunc) > old(ncalls(refreshFunc)) ==> data == callres(refreshFunc, old(ncalls(refreshFunc)), 0) && err == callres(refreshFunc, old(ncalls(refreshFunc)), 1)
  onpanic !held(r.lock)
  conc call held(r.lock) && !okAt(r, clock) && !errAt(r, clock)
  ensures atmost: ncalls(refreshFunc) <= old(ncalls(refreshFunc)) + 1
  ensures produced: err == nil && ncalls(refreshFunc) == old(ncalls(refreshFunc)) ==> r.dgen > 0 && data == *r.data
  ensures failed: err != nil && ncalls(refreshFunc) == old(ncalls(refreshFunc)) ==> r.egen > 0 && err == *r.err && data == zero(T)

contract (*RefreshData[T, A]).Refresh(r, ctx, refreshFunc, args) (data, err)
  prop C18
  requires r != nil
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc returned r.runs := r.runs + 1
  conc guarantee own: r.data != old(r.data) ==> ncalls(refreshFunc) > 0 && *r.data == callres(refreshFunc, ncalls(refreshFunc) - 1, 0) && callres(refreshFunc, ncalls(refreshFunc) - 1, 1) == nil
  conc guarantee ownErr: r.err != old(r.err) ==> ncalls(refreshFunc) > 0 && *r.err == callres(refreshFunc, ncalls(refreshFunc) - 1, 1) && *r.err != nil
  requires !held(r.lock) && refreshFunc != nil && clock > 0 && ncalls(refreshFunc) >= 0
  callback refreshFunc trace maypanic timed
  modifies *
  ensures !held(r.lock)
  ensures ran: ncalls(refreshFunc) > old(ncalls(refreshFunc)) ==> data == callres(refreshFunc, old(ncalls(refreshFunc)), 0) && err == callres(refreshFunc, old(ncalls(refreshFunc)), 1)
  onpanic !held(r.lock)
  conc call held(r.lock)
  ensures once: ncalls(refreshFunc) == old(ncalls(refreshFunc)) + 1

contract (*RefreshData[T, A]).Clear(r, ctx, clearFunc, args) (err)
  prop C18
  requires r != nil
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *
  callback clearFunc trace maypanic timed
  onpanic true
contract (*RefreshCache[T, A]).Get(r, ctx, args) (data, err)
  prop C18
  requires r != nil && r.RefreshData != nil && r.RefreshFunc != nil
  conc lock r.RefreshData.lock
  conc shared RefreshData.last @ r.RefreshData, RefreshData.lastErr @ r.RefreshData, RefreshData.data @ r.RefreshData, RefreshData.err @ r.RefreshData, RefreshData.runs @ r.RefreshData, RefreshData.dgen @ r.RefreshData, RefreshData.egen @ r.RefreshData, RefreshData.lgen @ r.RefreshData, RefreshData.legen @ r.RefreshData
  conc ghost r.RefreshData.dgen := r.RefreshData.data != old(r.RefreshData.data) ? r.RefreshData.runs : r.RefreshData.dgen
  conc ghost r.RefreshData.egen := r.RefreshData.err != old(r.RefreshData.err) ? r.RefreshData.runs : r.RefreshData.egen
  conc ghost r.RefreshData.lgen := r.RefreshData.last != old(r.RefreshData.last) ? r.RefreshData.runs : r.RefreshData.lgen
  conc ghost r.RefreshData.legen := r.RefreshData.lastErr != old(r.RefreshData.lastErr) ? r.RefreshData.runs : r.RefreshData.legen
  conc inv inv0(r.RefreshData)
  conc inv published: inv1(r.RefreshData)
  conc inv publishedErr: inv2(r.RefreshData)
  conc inv inv3(r.RefreshData)
  conc inv inv4(r.RefreshData)
  conc rely r.RefreshData.runs >= old(r.RefreshData.runs) && r.RefreshData.dgen >= old(r.RefreshData.dgen) && r.RefreshData.egen >= old(r.RefreshData.egen)
  conc rely r.RefreshData.dgen == old(r.RefreshData.dgen) ==> r.RefreshData.data == old(r.RefreshData.data)
  conc rely r.RefreshData.egen == old(r.RefreshData.egen) ==> r.RefreshData.err == old(r.RefreshData.err)
  conc rely stable: r.RefreshData.data == old(r.RefreshData.data) ==> *r.RefreshData.data == old(*r.RefreshData.data)
  conc rely stableErr: r.RefreshData.err == old(r.RefreshData.err) ==> *r.RefreshData.err == old(*r.RefreshData.err)
  conc rely exclusive: mine ==> r.RefreshData.runs == old(r.RefreshData.runs) && r.RefreshData.dgen == old(r.RefreshData.dgen) && r.RefreshData.egen == old(r.RefreshData.egen) && r.RefreshData.lastErr == old(r.RefreshData.lastErr) && r.RefreshData.legen == old(r.RefreshData.legen) && (r.RefreshData.last == old(r.RefreshData.last) && r.RefreshData.lgen == old(r.RefreshData.lgen) || r.RefreshData.last <= 0)
  conc returned r.RefreshData.runs := r.RefreshData.runs + 1
  conc guarantee own: r.RefreshData.data != old(r.RefreshData.data) ==> ncalls(*r.RefreshFunc) > 0 && *r.RefreshData.data == callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 0) && callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 1) == nil
  conc guarantee ownErr: r.RefreshData.err != old(r.RefreshData.err) ==> ncalls(*r.RefreshFunc) > 0 && *r.RefreshData.err == callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 1) && *r.RefreshData.err != nil
  requires !held(r.RefreshData.lock) && *r.RefreshFunc != nil && clock > 0 && ncalls(*r.RefreshFunc) >= 0
  callback *r.RefreshFunc trace maypanic timed
  modifies *
  ensures !held(r.RefreshData.lock)
  ensures ran: ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) ==> data == callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0) && err == callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1)
  onpanic !held(r.RefreshData.lock)
  conc call held(r.RefreshData.lock) && !okAt(r.RefreshData, clock) && !errAt(r.RefreshData, clock)
  ensures atmost: ncalls(*r.RefreshFunc) <= old(ncalls(*r.RefreshFunc)) + 1
  ensures produced: err == nil && ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) ==> r.RefreshData.dgen > 0 && data == *r.RefreshData.data
  ensures failed: err != nil && ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) ==> r.RefreshData.egen > 0 && err == *r.RefreshData.err && data == zero(T)

contract (*RefreshCache[T, A]).Refresh(r, ctx, args) (data, err)
  prop C18
  requires r != nil && r.RefreshData != nil && r.RefreshFunc != nil
  conc lock r.RefreshData.lock
  conc shared RefreshData.last @ r.RefreshData, RefreshData.lastErr @ r.RefreshData, RefreshData.data @ r.RefreshData, RefreshData.err @ r.RefreshData, RefreshData.runs @ r.RefreshData, RefreshData.dgen @ r.RefreshData, RefreshData.egen @ r.RefreshData, RefreshData.lgen @ r.RefreshData, RefreshData.legen @ r.RefreshData
  conc ghost r.RefreshData.dgen := r.RefreshData.data != old(r.RefreshData.data) ? r.RefreshData.runs : r.RefreshData.dgen
  conc ghost r.RefreshData.egen := r.RefreshData.err != old(r.RefreshData.err) ? r.RefreshData.runs : r.RefreshData.egen
  conc ghost r.RefreshData.lgen := r.RefreshData.last != old(r.RefreshData.last) ? r.RefreshData.runs : r.RefreshData.lgen
  conc ghost r.RefreshData.legen := r.RefreshData.lastErr != old(r.RefreshData.lastErr) ? r.RefreshData.runs : r.RefreshData.legen
  conc inv inv0(r.RefreshData)
  conc inv published: inv1(r.RefreshData)
  conc inv publishedErr: inv2(r.RefreshData)
  conc inv inv3(r.RefreshData)
  conc inv inv4(r.RefreshData)
  conc rely r.RefreshData.runs >= old(r.RefreshData.runs) && r.RefreshData.dgen >= old(r.RefreshData.dgen) && r.RefreshData.egen >= old(r.RefreshData.egen)
  conc rely r.RefreshData.dgen == old(r.RefreshData.dgen) ==> r.RefreshData.data == old(r.RefreshData.data)
  conc rely r.RefreshData.egen == old(r.RefreshData.egen) ==> r.RefreshData.err == old(r.RefreshData.err)
  conc rely stable: r.RefreshData.data == old(r.RefreshData.data) ==> *r.RefreshData.data == old(*r.RefreshData.data)
  conc rely stableErr: r.RefreshData.err == old(r.RefreshData.err) ==> *r.RefreshData.err == old(*r.RefreshData.err)
  conc rely exclusive: mine ==> r.RefreshData.runs == old(r.RefreshData.runs) && r.RefreshData.dgen == old(r.RefreshData.dgen) && r.RefreshData.egen == old(r.RefreshData.egen) && r.RefreshData.lastErr == old(r.RefreshData.lastErr) && r.RefreshData.legen == old(r.RefreshData.legen) && (r.RefreshData.last == old(r.RefreshData.last) && r.RefreshData.lgen == old(r.RefreshData.lgen) || r.RefreshData.last <= 0)
  conc returned r.RefreshData.runs := r.RefreshData.runs + 1
  conc guarantee own: r.RefreshData.data != old(r.RefreshData.data) ==> ncalls(*r.RefreshFunc) > 0 && *r.RefreshData.data == callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 0) && callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 1) == nil
  conc guarantee ownErr: r.RefreshData.err != old(r.RefreshData.err) ==> ncalls(*r.RefreshFunc) > 0 && *r.RefreshData.err == callres(*r.RefreshFunc, ncalls(*r.RefreshFunc) - 1, 1) && *r.RefreshData.err != nil
  requires !held(r.RefreshData.lock) && *r.RefreshFunc != nil && clock > 0 && ncalls(*r.RefreshFunc) >= 0
  callback *r.RefreshFunc trace maypanic timed
  modifies *
  ensures !held(r.RefreshData.lock)
  ensures ran: ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) ==> data == callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0) && err == callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1)
  onpanic !held(r.RefreshData.lock)
  conc call held(r.RefreshData.lock)
  ensures once: ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) + 1

contract (*RefreshCache[T, A]).Clear(r, ctx, args) (err)
  prop C18
  requires r != nil && r.RefreshData != nil && r.RefreshFunc != nil
  conc lock r.RefreshData.lock
  conc shared RefreshData.last @ r.RefreshData, RefreshData.lastErr @ r.RefreshData, RefreshData.data @ r.RefreshData, RefreshData.err @ r.RefreshData, RefreshData.runs @ r.RefreshData, RefreshData.dgen @ r.RefreshData, RefreshData.egen @ r.RefreshData, RefreshData.lgen @ r.RefreshData, RefreshData.legen @ r.RefreshData
  conc ghost r.RefreshData.dgen := r.RefreshData.data != old(r.RefreshData.data) ? r.RefreshData.runs : r.RefreshData.dgen
  conc ghost r.RefreshData.egen := r.RefreshData.err != old(r.RefreshData.err) ? r.RefreshData.runs : r.RefreshData.egen
  conc ghost r.RefreshData.lgen := r.RefreshData.last != old(r.RefreshData.last) ? r.RefreshData.runs : r.RefreshData.lgen
  conc ghost r.RefreshData.legen := r.RefreshData.lastErr != old(r.RefreshData.lastErr) ? r.RefreshData.runs : r.RefreshData.legen
  conc inv inv0(r.RefreshData)
  conc inv published: inv1(r.RefreshData)
  conc inv publishedErr: inv2(r.RefreshData)
  conc inv inv3(r.RefreshData)
  conc inv inv4(r.RefreshData)
  conc rely r.RefreshData.runs >= old(r.RefreshData.runs) && r.RefreshData.dgen >= old(r.RefreshData.dgen) && r.RefreshData.egen >= old(r.RefreshData.egen)
  conc rely r.RefreshData.dgen == old(r.RefreshData.dgen) ==> r.RefreshData.data == old(r.RefreshData.data)
  conc rely r.RefreshData.egen == old(r.RefreshData.egen) ==> r.RefreshData.err == old(r.RefreshData.err)
  conc rely stable: r.RefreshData.data == old(r.RefreshData.data) ==> *r.RefreshData.data == old(*r.RefreshData.data)
  conc rely stableErr: r.RefreshData.err == old(r.RefreshData.err) ==> *r.RefreshData.err == old(*r.RefreshData.err)
  conc rely exclusive: mine ==> r.RefreshData.runs == old(r.RefreshData.runs) && r.RefreshData.dgen == old(r.RefreshData.dgen) && r.RefreshData.egen == old(r.RefreshData.egen) && r.RefreshData.lastErr == old(r.RefreshData.lastErr) && r.RefreshData.legen == old(r.RefreshData.legen) && (r.RefreshData.last == old(r.RefreshData.last) && r.RefreshData.lgen == old(r.RefreshData.lgen) || r.RefreshData.last <= 0)
  conc guarantee untouched: r.RefreshData.data == old(r.RefreshData.data) && r.RefreshData.err == old(r.RefreshData.err) && r.RefreshData.lastErr == old(r.RefreshData.lastErr) && (r.RefreshData.last == old(r.RefreshData.last) || r.RefreshData.last <= 0)
  requires clock > 0
  modifies *
  callback *r.ClearFunc trace maypanic timed
  onpanic true
contract (*RefreshData[T, A]).Last(r) (t)
  prop C18
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *
  ensures t == r.last

contract (*RefreshData[T, A]).LastErr(r) (t)
  prop C18
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *
  ensures t == r.lastErr

contract (*RefreshData[T, A]).LastTime(r) (t)
  prop C18
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *

contract (*RefreshData[T, A]).LastErrTime(r) (t)
  prop C18
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *

contract (*RefreshData[T, A]).Raw(r) (data, err)
  prop C18
  conc lock r.lock
  conc shared RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, RefreshData.runs @ r, RefreshData.dgen @ r, RefreshData.egen @ r, RefreshData.lgen @ r, RefreshData.legen @ r
  conc ghost r.dgen := r.data != old(r.data) ? r.runs : r.dgen
  conc ghost r.egen := r.err != old(r.err) ? r.runs : r.egen
  conc ghost r.lgen := r.last != old(r.last) ? r.runs : r.lgen
  conc ghost r.legen := r.lastErr != old(r.lastErr) ? r.runs : r.legen
  conc inv inv0(r)
  conc inv published: inv1(r)
  conc inv publishedErr: inv2(r)
  conc inv inv3(r)
  conc inv inv4(r)
  conc rely r.runs >= old(r.runs) && r.dgen >= old(r.dgen) && r.egen >= old(r.egen)
  conc rely r.dgen == old(r.dgen) ==> r.data == old(r.data)
  conc rely r.egen == old(r.egen) ==> r.err == old(r.err)
  conc rely stable: r.data == old(r.data) ==> *r.data == old(*r.data)
  conc rely stableErr: r.err == old(r.err) ==> *r.err == old(*r.err)
  conc rely exclusive: mine ==> r.runs == old(r.runs) && r.dgen == old(r.dgen) && r.egen == old(r.egen) && r.lastErr == old(r.lastErr) && r.legen == old(r.legen) && (r.last == old(r.last) && r.lgen == old(r.lgen) || r.last <= 0)
  conc guarantee untouched: r.data == old(r.data) && r.err == old(r.err) && r.lastErr == old(r.lastErr) && (r.last == old(r.last) || r.last <= 0)
  requires clock > 0
  modifies *
  ensures produced: (err != nil ==> r.egen > 0) && (r.dgen == 0 ==> data == zero(T))
