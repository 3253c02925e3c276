package refreshcache

// What the last completed refresh produced (ghost history):
// st: 0 none yet, 1 it succeeded, 2 it failed; at: when it returned; val, er:
// what it returned; cleared: Clear was called since; prev: the data of the
// last refresh that succeeded (zero before the first)
ghost field RefreshData.st int
ghost field RefreshData.at int
ghost field RefreshData.val T
ghost field RefreshData.er error
ghost field RefreshData.cleared bool
ghost field RefreshData.prev T

def wf(r) := r.data != nil && r.err != nil
  && (r.last > 0 ==> r.st == 1 && !r.cleared && r.last >= r.at)
  && (r.st == 1 && !r.cleared ==> r.last > 0)
  && (r.st == 1 ==> r.val == *r.data)
  && (r.lastErr > 0 ==> r.st == 2 && r.lastErr >= r.at)
  && (r.st == 2 ==> r.lastErr > 0 && r.er == *r.err)
  && r.prev == *r.data
  && r.last <= clock && r.lastErr <= clock
// the result of the last refresh may be served at time t
def okAt(r, t) := r.last > 0 && (r.maxAge < 0 || t - r.last < r.maxAge)
def errAt(r, t) := r.lastErr > 0 && t - r.lastErr < r.errAge
def unchanged(r) := r.data == old(r.data) && r.err == old(r.err) && r.last == old(r.last) && r.lastErr == old(r.lastErr) && *r.data == old(*r.data) && *r.err == old(*r.err)
def called(f) := ncalls(f) == old(ncalls(f)) + 1
def recorded(r, f, data, err) := data == callres(f, old(ncalls(f)), 0) && err == callres(f, old(ncalls(f)), 1)
  && (err == nil ==> *r.data == data && calltime(f, old(ncalls(f))) <= r.last <= clock && r.lastErr <= 0 && *r.err == old(*r.err))
  && (err != nil ==> *r.err == err && calltime(f, old(ncalls(f))) <= r.lastErr <= clock && r.last <= 0 && *r.data == old(*r.data))
def passed(r, f, ctx, args) := callarg(f, old(ncalls(f)), 0) == withval(ctx, iface(OldValKey), iface(old(*r.data))) && callarg(f, old(ncalls(f)), 1) == args

// what an option makes of the error age and of the maximum age
func oErr[T, A](RefreshDataOption[T, A], int, int) int
func oMax[T, A](RefreshDataOption[T, A], int, int) int
func fErr[T, A]([int]RefreshDataOption[T, A], int, int, int) int
func fMax[T, A]([int]RefreshDataOption[T, A], int, int, int) int
axiom fErr: forall a [int]RefreshDataOption[T, A], o int, m int, n int {fErr(a, o, m, n)} :: n <= 0 ==> fErr(a, o, m, n) == 0
axiom fMax: forall a [int]RefreshDataOption[T, A], o int, m int, n int {fMax(a, o, m, n)} :: n <= 0 ==> fMax(a, o, m, n) == m
axiom fErr: forall a [int]RefreshDataOption[T, A], o int, m int, n int, k int {fErr(a, o, m, n), fErr(a, o, m, k)} :: 0 <= n && k == n + 1 ==> fErr(a, o, m, k) == oErr(a[o + n], fErr(a, o, m, n), fMax(a, o, m, n))
axiom fMax: forall a [int]RefreshDataOption[T, A], o int, m int, n int, k int {fMax(a, o, m, n), fMax(a, o, m, k)} :: 0 <= n && k == n + 1 ==> fMax(a, o, m, k) == oMax(a[o + n], fErr(a, o, m, n), fMax(a, o, m, n))

extern RefreshDataOption[T, A](r) ()
  requires r != nil
  ensures r.errAge == oErr(self, old(r.errAge), old(r.maxAge)) && r.maxAge == oMax(self, old(r.errAge), old(r.maxAge))
  modifies RefreshData.maxAge @ r, RefreshData.errAge @ r

contract WithErrAge$1[T, A](r) ()
  prop C17
  like RefreshDataOption
  ensures r.errAge == *age && r.maxAge == old(r.maxAge)

contract NewRefreshData[T, A](maxAge, opts) (r)
  prop C17
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies new RefreshData, new cell T, new cell error, new RefreshData.st, new RefreshData.at, new RefreshData.val, new RefreshData.er, new RefreshData.cleared, new RefreshData.prev
  ghost r.st := 0
  ghost r.cleared := false
  ghost r.prev := zero(T)
  requires clock >= 0
  ensures fresh(r) && r != nil && wf(r) && r.st == 0 && *r.data == zero(T) && *r.err == nil && !held(r.lock)
  ensures options: r.errAge == fErr(row(opts), off(opts), maxAge, len(opts)) && r.maxAge == fMax(row(opts), off(opts), maxAge, len(opts))
  loop inv %r:*RefreshData[T, A] :: fresh(%r) && %r.last == 0 && %r.lastErr == 0 && %r.data != nil && fresh(%r.data) && %r.err != nil && fresh(%r.err) && *%r.data == zero(T) && *%r.err == nil && !held(%r.lock)
  loop inv %r:*RefreshData[T, A] :: %r.errAge == fErr(row(opts), off(opts), maxAge, it) && %r.maxAge == fMax(row(opts), off(opts), maxAge, it)

contract (*RefreshData[T, A]).Get(r, ctx, refreshFunc, args) (data, err)
  prop C17
  requires wf(r) && refreshFunc != nil && !held(r.lock) && clock > 0
  callback refreshFunc trace maypanic timed
  modifies RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, new cell T, new cell error, clock, trace refreshFunc, RefreshData.st @ r, RefreshData.at @ r, RefreshData.val @ r, RefreshData.er @ r, RefreshData.cleared @ r, RefreshData.prev @ r
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.st := callres(refreshFunc, old(ncalls(refreshFunc)), 1) == nil ? 1 : 2
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.at := calltime(refreshFunc, old(ncalls(refreshFunc)))
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.val := callres(refreshFunc, old(ncalls(refreshFunc)), 0)
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.er := callres(refreshFunc, old(ncalls(refreshFunc)), 1)
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.cleared := false
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc))) && callres(refreshFunc, old(ncalls(refreshFunc)), 1) == nil) then r.prev := callres(refreshFunc, old(ncalls(refreshFunc)), 0)
  ensures calls: ncalls(refreshFunc) == old(ncalls(refreshFunc)) || called(refreshFunc)
  ensures cached-data: ncalls(refreshFunc) == old(ncalls(refreshFunc)) && err == nil ==> unchanged(r) && (old(r.st) == 1 && !old(r.cleared) && data == old(r.val) && old(okAt(r, clock)) || old(r.st) == 2 && data == zero(T) && err == old(r.er) && old(errAt(r, clock)) && !old(okAt(r, clock)))
  ensures cached-error: ncalls(refreshFunc) == old(ncalls(refreshFunc)) && err != nil ==> unchanged(r) && old(r.st) == 2 && err == old(r.er) && data == zero(T) && old(errAt(r, clock))
  ensures no-needless-call: called(refreshFunc) ==> !(old(r.last) > 0 && (r.maxAge < 0 || clock - old(r.last) < r.maxAge)) && !(old(r.lastErr) > 0 && clock - old(r.lastErr) < r.errAge)
  ensures fresh-data-first: old(r.last) > 0 && (r.maxAge < 0 || clock - old(r.last) < r.maxAge) ==> err == nil && data == old(*r.data)
  ensures records: called(refreshFunc) ==> recorded(r, refreshFunc, data, err) && passed(r, refreshFunc, ctx, args)
  ensures lock: !held(r.lock)
  ensures wf(r)
  onpanic called(refreshFunc) && callpanic(refreshFunc, old(ncalls(refreshFunc))) && unchanged(r) && !held(r.lock) && passed(r, refreshFunc, ctx, args)
  onpanic wf(r)

contract (*RefreshData[T, A]).Refresh(r, ctx, refreshFunc, args) (data, err)
  prop C17
  requires wf(r) && refreshFunc != nil && !held(r.lock) && clock > 0
  callback refreshFunc trace maypanic timed
  modifies RefreshData.last @ r, RefreshData.lastErr @ r, RefreshData.data @ r, RefreshData.err @ r, new cell T, new cell error, clock, trace refreshFunc, RefreshData.st @ r, RefreshData.at @ r, RefreshData.val @ r, RefreshData.er @ r, RefreshData.cleared @ r, RefreshData.prev @ r
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.st := callres(refreshFunc, old(ncalls(refreshFunc)), 1) == nil ? 1 : 2
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.at := calltime(refreshFunc, old(ncalls(refreshFunc)))
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.val := callres(refreshFunc, old(ncalls(refreshFunc)), 0)
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.er := callres(refreshFunc, old(ncalls(refreshFunc)), 1)
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc)))) then r.cleared := false
  ghost if (ncalls(refreshFunc) > old(ncalls(refreshFunc)) && !callpanic(refreshFunc, old(ncalls(refreshFunc))) && callres(refreshFunc, old(ncalls(refreshFunc)), 1) == nil) then r.prev := callres(refreshFunc, old(ncalls(refreshFunc)), 0)
  ensures called(refreshFunc)
  ensures recorded(r, refreshFunc, data, err)
  ensures passed(r, refreshFunc, ctx, args)
  ensures lock: !held(r.lock)
  ensures wf(r)
  onpanic called(refreshFunc) && callpanic(refreshFunc, old(ncalls(refreshFunc))) && unchanged(r) && !held(r.lock) && passed(r, refreshFunc, ctx, args)
  onpanic wf(r)

contract (*RefreshData[T, A]).Clear(r, ctx, clearFunc, args) (err)
  prop C17
  requires wf(r) && clock > 0
  callback clearFunc trace maypanic timed
  modifies RefreshData.last @ r, clock, trace clearFunc, RefreshData.cleared @ r
  ghost r.cleared := true
  ensures calls: clearFunc != nil ==> called(clearFunc) && passed(r, clearFunc, ctx, args) && err == callres(clearFunc, old(ncalls(clearFunc)))
  ensures none: clearFunc == nil ==> err == nil
  ensures r.last <= 0 && r.data == old(r.data) && *r.data == old(*r.data) && *r.err == old(*r.err)
  ensures wf(r)
  onpanic clearFunc != nil && called(clearFunc) && callpanic(clearFunc, old(ncalls(clearFunc))) && r.last <= 0
  onpanic wf(r)

contract (*RefreshData[T, A]).Last(r) (t)
  prop C17
  ensures t == r.last

contract (*RefreshData[T, A]).LastErr(r) (t)
  prop C17
  ensures t == r.lastErr

contract (*RefreshData[T, A]).MaxAge(r) (t)
  prop C17
  ensures t == r.maxAge

contract (*RefreshData[T, A]).MaxErrAge(r) (t)
  prop C17
  ensures t == r.errAge

contract (*RefreshData[T, A]).Raw(r) (data, err)
  prop C17
  requires wf(r) && clock > 0
  modifies clock
  ensures data: okAt(r, clock) ==> data == *r.data && err == nil
  ensures any: (data == *r.data && (err == nil && old(okAt(r, clock)) || err == *r.err)) || (data == zero(T) && err == *r.err && old(errAt(r, clock)))
  ensures none: !okAt(r, clock) && !errAt(r, clock) ==> err == *r.err && data == *r.data || old(okAt(r, clock)) || old(errAt(r, clock))

contract (*RefreshData[T, A]).LastTime(r) (t)
  prop C17
  ensures t == r.last

contract (*RefreshData[T, A]).LastErrTime(r) (t)
  prop C17
  ensures t == r.lastErr

contract NewRefreshCache[T, A](refreshFunc, maxAge, opts) (c)
  prop C17
  requires forall i int {opts[i]} :: 0 <= i < len(opts) ==> opts[i] != nil
  modifies new RefreshCache, new cell RefreshFunc[T, A], new RefreshData, new cell T, new cell error, new RefreshData.st, new RefreshData.at, new RefreshData.val, new RefreshData.er, new RefreshData.cleared, new RefreshData.prev
  ghost c.RefreshData.st := 0
  ghost c.RefreshData.cleared := false
  ghost c.RefreshData.prev := zero(T)
  requires clock >= 0
  ensures fresh(c) && c != nil && fresh(c.RefreshData) && c.RefreshData != nil && wf(c.RefreshData) && c.RefreshData.st == 0 && *c.RefreshData.data == zero(T) && *c.RefreshData.err == nil && !held(c.RefreshData.lock)
  ensures c.RefreshFunc != nil && fresh(c.RefreshFunc) && *c.RefreshFunc == refreshFunc && c.ClearFunc == nil
  ensures options: c.RefreshData.errAge == fErr(row(opts), off(opts), maxAge, len(opts)) && c.RefreshData.maxAge == fMax(row(opts), off(opts), maxAge, len(opts))
  loop inv %r:*RefreshData[T, A] :: fresh(%r) && %r.last == 0 && %r.lastErr == 0 && %r.data != nil && fresh(%r.data) && %r.err != nil && fresh(%r.err) && *%r.data == zero(T) && *%r.err == nil && !held(%r.lock)
  loop inv %r:*RefreshData[T, A] :: %r.errAge == fErr(row(opts), off(opts), maxAge, it) && %r.maxAge == fMax(row(opts), off(opts), maxAge, it)

contract (*RefreshCache[T, A]).GetClearFunc(r) (f)
  prop C17
  ensures f == (r.ClearFunc == nil ? zero(ClearFunc[T, A]) : *r.ClearFunc)

contract (*RefreshCache[T, A]).SetClearFunc(r, clearFunc) ()
  prop C17
  modifies RefreshCache.ClearFunc @ r, new cell ClearFunc[T, A]
  ensures r.ClearFunc != nil && *r.ClearFunc == clearFunc

contract (*RefreshCache[T, A]).GetRefreshFunc(r) (f)
  prop C17
  requires r.RefreshFunc != nil
  ensures f == *r.RefreshFunc

contract (*RefreshCache[T, A]).SetRefreshFunc(r, refreshFunc) ()
  prop C17
  modifies RefreshCache.RefreshFunc @ r, new cell RefreshFunc[T, A]
  ensures r.RefreshFunc != nil && *r.RefreshFunc == refreshFunc

contract (*RefreshCache[T, A]).Data(r) (d)
  prop C17
  ensures d == r.RefreshData

contract (*RefreshCache[T, A]).Get(r, ctx, args) (data, err)
  prop C17
  requires r.RefreshData != nil && r.RefreshFunc != nil && wf(r.RefreshData) && *r.RefreshFunc != nil && !held(r.RefreshData.lock) && clock > 0
  callback *r.RefreshFunc trace maypanic timed
  modifies RefreshData.last @ r.RefreshData, RefreshData.lastErr @ r.RefreshData, RefreshData.data @ r.RefreshData, RefreshData.err @ r.RefreshData, new cell T, new cell error, clock, trace *r.RefreshFunc, RefreshData.st @ r.RefreshData, RefreshData.at @ r.RefreshData, RefreshData.val @ r.RefreshData, RefreshData.er @ r.RefreshData, RefreshData.cleared @ r.RefreshData, RefreshData.prev @ r.RefreshData
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.st := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1) == nil ? 1 : 2
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.at := calltime(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.val := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0)
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.er := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1)
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.cleared := false
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc))) && callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1) == nil) then r.RefreshData.prev := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0)
  ensures calls: ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) || called(*r.RefreshFunc)
  ensures cached-data: ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) && err == nil ==> unchanged(r.RefreshData) && (old(r.RefreshData.st) == 1 && !old(r.RefreshData.cleared) && data == old(r.RefreshData.val) && old(okAt(r.RefreshData, clock)) || old(r.RefreshData.st) == 2 && data == zero(T) && err == old(r.RefreshData.er) && old(errAt(r.RefreshData, clock)) && !old(okAt(r.RefreshData, clock)))
  ensures cached-error: ncalls(*r.RefreshFunc) == old(ncalls(*r.RefreshFunc)) && err != nil ==> unchanged(r.RefreshData) && old(r.RefreshData.st) == 2 && err == old(r.RefreshData.er) && data == zero(T) && old(errAt(r.RefreshData, clock))
  ensures no-needless-call: called(*r.RefreshFunc) ==> !(old(r.RefreshData.last) > 0 && (r.RefreshData.maxAge < 0 || clock - old(r.RefreshData.last) < r.RefreshData.maxAge)) && !(old(r.RefreshData.lastErr) > 0 && clock - old(r.RefreshData.lastErr) < r.RefreshData.errAge)
  ensures fresh-data-first: old(r.RefreshData.last) > 0 && (r.RefreshData.maxAge < 0 || clock - old(r.RefreshData.last) < r.RefreshData.maxAge) ==> err == nil && data == old(*r.RefreshData.data)
  ensures records: called(*r.RefreshFunc) ==> recorded(r.RefreshData, *r.RefreshFunc, data, err) && passed(r.RefreshData, *r.RefreshFunc, ctx, args)
  ensures lock: !held(r.RefreshData.lock)
  ensures wf(r.RefreshData)
  onpanic called(*r.RefreshFunc) && callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc))) && unchanged(r.RefreshData) && !held(r.RefreshData.lock) && passed(r.RefreshData, *r.RefreshFunc, ctx, args)
  onpanic wf(r.RefreshData)

contract (*RefreshCache[T, A]).Refresh(r, ctx, args) (data, err)
  prop C17
  requires r.RefreshData != nil && r.RefreshFunc != nil && wf(r.RefreshData) && *r.RefreshFunc != nil && !held(r.RefreshData.lock) && clock > 0
  callback *r.RefreshFunc trace maypanic timed
  modifies RefreshData.last @ r.RefreshData, RefreshData.lastErr @ r.RefreshData, RefreshData.data @ r.RefreshData, RefreshData.err @ r.RefreshData, new cell T, new cell error, clock, trace *r.RefreshFunc, RefreshData.st @ r.RefreshData, RefreshData.at @ r.RefreshData, RefreshData.val @ r.RefreshData, RefreshData.er @ r.RefreshData, RefreshData.cleared @ r.RefreshData, RefreshData.prev @ r.RefreshData
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.st := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1) == nil ? 1 : 2
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.at := calltime(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.val := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0)
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.er := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1)
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)))) then r.RefreshData.cleared := false
  ghost if (ncalls(*r.RefreshFunc) > old(ncalls(*r.RefreshFunc)) && !callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc))) && callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 1) == nil) then r.RefreshData.prev := callres(*r.RefreshFunc, old(ncalls(*r.RefreshFunc)), 0)
  ensures called(*r.RefreshFunc)
  ensures recorded(r.RefreshData, *r.RefreshFunc, data, err)
  ensures passed(r.RefreshData, *r.RefreshFunc, ctx, args)
  ensures lock: !held(r.RefreshData.lock)
  ensures wf(r.RefreshData)
  onpanic called(*r.RefreshFunc) && callpanic(*r.RefreshFunc, old(ncalls(*r.RefreshFunc))) && unchanged(r.RefreshData) && !held(r.RefreshData.lock) && passed(r.RefreshData, *r.RefreshFunc, ctx, args)
  onpanic wf(r.RefreshData)

contract (*RefreshCache[T, A]).Clear(r, ctx, args) (err)
  prop C17
  requires r.RefreshData != nil && wf(r.RefreshData) && clock > 0
  callback *r.ClearFunc trace maypanic timed
  modifies RefreshData.last @ r.RefreshData, clock, trace *r.ClearFunc, RefreshData.cleared @ r.RefreshData
  ghost r.RefreshData.cleared := true
  ensures calls: r.ClearFunc != nil && *r.ClearFunc != nil ==> called(*r.ClearFunc) && passed(r.RefreshData, *r.ClearFunc, ctx, args) && err == callres(*r.ClearFunc, old(ncalls(*r.ClearFunc)))
  ensures none: (r.ClearFunc == nil || *r.ClearFunc == nil) ==> err == nil
  ensures r.RefreshData.last <= 0 && r.RefreshData.data == old(r.RefreshData.data) && *r.RefreshData.data == old(*r.RefreshData.data) && *r.RefreshData.err == old(*r.RefreshData.err)
  ensures wf(r.RefreshData)
  onpanic r.ClearFunc != nil && *r.ClearFunc != nil && called(*r.ClearFunc) && callpanic(*r.ClearFunc, old(ncalls(*r.ClearFunc))) && r.RefreshData.last <= 0
  onpanic wf(r.RefreshData)
