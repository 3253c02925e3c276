package synccache

// milliseconds of a time
def ms(t) := div(t, 1000000)
// the cache holds e under k
def has(sc, k) := sc.cache.ks[k]
def val(sc, k) := sc.cache.vs[k]
def wf(sc) := rwmap.wf(sc.cache) && clock > 0 && (forall k K {sc.cache.vs[k]} {sc.cache.ks[k]} :: sc.cache.ks[k] ==> sc.cache.vs[k] != nil && alloc(sc.cache.vs[k]))
// nothing but key changes
def keep(sc, key) := forall k K {sc.cache.ks[k]} {sc.cache.vs[k]} :: k != key ==> (sc.cache.ks[k] <==> old(sc.cache.ks[k])) && (sc.cache.ks[k] ==> sc.cache.vs[k] == old(sc.cache.vs[k]))
def keepAll(sc) := forall k K {sc.cache.ks[k]} {sc.cache.vs[k]} :: (sc.cache.ks[k] <==> old(sc.cache.ks[k])) && (sc.cache.ks[k] ==> sc.cache.vs[k] == old(sc.cache.vs[k]))
// e was past its expiration by the end of the call / at its beginning
def late(e) := ms(clock) > e.expiration
def late0(e) := ms(old(clock)) > e.expiration
// the entry of key is removed, and reported if there is a callback
def removed(sc, key) := !sc.cache.ks[key] && keep(sc, key)
def noReport(sc) := sc.deletedCallback != nil ==> ncalls(sc.deletedCallback) == old(ncalls(sc.deletedCallback))
def report(sc, e) := sc.deletedCallback != nil ==> ncalls(sc.deletedCallback) == old(ncalls(sc.deletedCallback)) + 1 && callarg(sc.deletedCallback, old(ncalls(sc.deletedCallback))) == e.value

// where a removed key's value was reported, and the key each report is for
ghost field SyncCache.dpos [K]int
ghost field SyncCache.dkey [int]K
// the call at which a range reached a key
ghost field SyncCache.pos [K]int
def gone(sc, k) := old(sc.cache.ks[k]) && !sc.cache.ks[k]
// keys only leave
def shrunk(sc) := forall k K {sc.cache.ks[k]} {sc.cache.vs[k]} :: sc.cache.ks[k] ==> old(sc.cache.ks[k]) && sc.cache.vs[k] == old(sc.cache.vs[k])
// every removed value is reported, and every report is of a removed value, once
def reported(sc) := forall k K {sc.cache.ks[k]} {old(sc.cache.ks[k])} :: gone(sc, k) ==> old(ncalls(sc.deletedCallback)) <= sc.dpos[k] < ncalls(sc.deletedCallback) && callarg(sc.deletedCallback, sc.dpos[k]) == old(sc.cache.vs[k]).value && sc.dkey[sc.dpos[k]] == k
def truthful(sc) := forall j int {sc.dkey[j]} {callarg(sc.deletedCallback, j)} :: old(ncalls(sc.deletedCallback)) <= j < ncalls(sc.deletedCallback) ==> gone(sc, sc.dkey[j]) && sc.dpos[sc.dkey[j]] == j

contract NewEntry[V](value, expire) (e)
  prop C19
  requires clock > 0
  modifies new Entry, clock
  ensures fresh(e) && e != nil && e.value == value && ms(old(clock) + expire) <= e.expiration <= ms(clock + expire)

contract (*Entry[V]).Value(e) (v)
  prop C19
  ensures v == e.value

contract (*Entry[V]).IsExpired(e) (r)
  prop C19
  requires clock > 0
  modifies clock
  ensures r ? ms(clock) > e.expiration : ms(old(clock)) <= e.expiration

contract (*Entry[V]).AddExpiration(e, d) ()
  prop C19
  modifies Entry.expiration @ e
  ensures e.expiration == old(e.expiration) + tdiv(d, 1000000)

contract (*Entry[V]).SetExpiration(e, t) ()
  prop C19
  modifies Entry.expiration @ e
  ensures e.expiration == ms(t)

contract (*SyncCache[K, V]).Store(sc, key, value, expire) ()
  prop C19
  requires wf(sc)
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, new Entry
  ensures has(sc, key) && val(sc, key) != nil && fresh(val(sc, key)) && val(sc, key).value == value && ms(old(clock) + expire) <= val(sc, key).expiration <= ms(clock + expire)
  ensures keep(sc, key)
  ensures wf(sc)

contract (*SyncCache[K, V]).Load(sc, key) (value, loaded)
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback
  ensures @C19 hit: loaded ==> old(has(sc, key)) && value == old(val(sc, key)) && !late0(value) && keepAll(sc)
  ensures @C19 miss: !loaded ==> value == nil && (old(has(sc, key)) ==> late(old(val(sc, key)))) && removed(sc, key)
  ensures @C20 !loaded && old(has(sc, key)) ? report(sc, old(val(sc, key))) : noReport(sc)
  ensures wf(sc)

contract (*SyncCache[K, V]).LoadOrStore(sc, key, value, expire) (actual, loaded)
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, new Entry, trace sc.deletedCallback
  ensures @C19 hit: loaded ==> old(has(sc, key)) && actual == old(val(sc, key)) && !late0(actual) && keepAll(sc)
  ensures @C19 miss: !loaded ==> (old(has(sc, key)) ==> late(old(val(sc, key)))) && has(sc, key) && val(sc, key) == actual && actual != nil && fresh(actual) && actual.value == value && ms(old(clock) + expire) <= actual.expiration <= ms(clock + expire) && keep(sc, key)
  ensures @C20 !loaded && old(has(sc, key)) ? report(sc, old(val(sc, key))) : noReport(sc)
  loop inv clock >= old(clock) && !held(sc.cache.mu)
  loop inv rwmap.dmap(sc.cache)
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) && r != old(sc.cache.dirty) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv rwmap.wf(sc.cache) && keep(sc, key)
  loop inv sc.deletedCallback == old(sc.deletedCallback)
  loop inv it == 0 ? keepAll(sc) && noReport(sc) : it == 1 && old(has(sc, key)) && late(old(val(sc, key))) && !has(sc, key) && report(sc, old(val(sc, key)))
  loop bound 3
  ensures wf(sc)

contract (*SyncCache[K, V]).Delete(sc, key) ()
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback
  ensures @C19 removed(sc, key)
  ensures @C20 old(has(sc, key)) ? report(sc, old(val(sc, key))) : noReport(sc)
  ensures wf(sc)

contract (*SyncCache[K, V]).LoadAndDelete(sc, key) (value, loaded)
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback
  ensures @C19 removed(sc, key)
  ensures @C19 loaded ? old(has(sc, key)) && value == old(val(sc, key)) && !late0(value) : value == nil && (old(has(sc, key)) ==> late(old(val(sc, key))))
  ensures @C20 old(has(sc, key)) ? report(sc, old(val(sc, key))) : noReport(sc)
  ensures wf(sc)

contract (*SyncCache[K, V]).CompareAndDelete(sc, key, oldEntry) (success)
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback
  ensures @C19 success == (old(has(sc, key)) && old(val(sc, key)) == oldEntry)
  ensures @C19 success ? removed(sc, key) : keepAll(sc)
  ensures @C20 success ? report(sc, oldEntry) : noReport(sc)
  ensures wf(sc)

contract (*SyncCache[K, V]).CompareValueAndDelete(sc, key, oldValue) (success)
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback
  ensures @C19 success ==> old(has(sc, key)) && old(val(sc, key)).value == oldValue && !late0(old(val(sc, key)))
  ensures @C19 !success && old(has(sc, key)) && old(val(sc, key)).value == oldValue ==> late(old(val(sc, key)))
  ensures @C19 has(sc, key) ? keepAll(sc) : removed(sc, key) && (success || !old(has(sc, key)) || late(old(val(sc, key))))
  ensures @C20 old(has(sc, key)) && !has(sc, key) ? report(sc, old(val(sc, key))) : noReport(sc)
  ensures wf(sc)

contract (*SyncCache[K, V]).Clear(sc) ()
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback, SyncCache.dpos @ sc, SyncCache.dkey @ sc
  ensures @C19 sc.cache.ks == emptyset(K)
  ensures @C20 sc.deletedCallback != nil ==> reported(sc)
  ensures @C20 sc.deletedCallback != nil ==> truthful(sc)
  ensures wf(sc)
  loop ghost sc.dpos := sc.dpos[itkey := ncalls(sc.deletedCallback) - 1]
  loop ghost sc.dkey := (head(sc.cache.ks)[itkey] && !sc.cache.ks[itkey] ? sc.dkey[ncalls(sc.deletedCallback) - 1 := itkey] : sc.dkey)
  loop inv rwmap.wf(sc.cache) && clock >= old(clock) && sc.deletedCallback == old(sc.deletedCallback)
  loop inv sc.cache.read == pre(sc.cache.read) && !rwmap.amended(sc.cache)
  loop inv sc.cache.dirty == nil || sc.cache.dirty == old(sc.cache.dirty)
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) && r != old(sc.cache.dirty) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv shrunk(sc)
  loop inv forall k K {sc.cache.ks[k]} {visited[k]} :: gone(sc, k) ==> visited[k]
  loop inv sc.deletedCallback != nil ==> ncalls(sc.deletedCallback) >= old(ncalls(sc.deletedCallback))
  loop inv sc.deletedCallback != nil ==> reported(sc)
  loop inv sc.deletedCallback != nil ==> truthful(sc)
  loop inv forall k K {sc.cache.ks[k]} {visited[k]} :: visited[k] ==> !sc.cache.ks[k]

contract (*SyncCache[K, V]).trim(sc) ()
  prop C19 C20
  requires wf(sc)
  callback sc.deletedCallback trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback, SyncCache.dpos @ sc, SyncCache.dkey @ sc
  ensures @C19 shrunk(sc)
  ensures @C19 forall k K {sc.cache.ks[k]} :: old(sc.cache.ks[k]) ==> (sc.cache.ks[k] ? !late0(old(sc.cache.vs[k])) : late(old(sc.cache.vs[k])))
  ensures @C20 sc.deletedCallback != nil ==> reported(sc)
  ensures @C20 sc.deletedCallback != nil ==> truthful(sc)
  ensures wf(sc)
  loop ghost sc.dpos := sc.dpos[itkey := ncalls(sc.deletedCallback) - 1]
  loop ghost sc.dkey := (head(sc.cache.ks)[itkey] && !sc.cache.ks[itkey] ? sc.dkey[ncalls(sc.deletedCallback) - 1 := itkey] : sc.dkey)
  loop inv rwmap.wf(sc.cache) && clock >= old(clock) && sc.deletedCallback == old(sc.deletedCallback)
  loop inv sc.cache.read == pre(sc.cache.read) && !rwmap.amended(sc.cache)
  loop inv sc.cache.dirty == nil || sc.cache.dirty == old(sc.cache.dirty)
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) && r != old(sc.cache.dirty) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv shrunk(sc)
  loop inv forall k K {sc.cache.ks[k]} {visited[k]} :: gone(sc, k) ==> visited[k]
  loop inv sc.deletedCallback != nil ==> ncalls(sc.deletedCallback) >= old(ncalls(sc.deletedCallback))
  loop inv sc.deletedCallback != nil ==> reported(sc)
  loop inv sc.deletedCallback != nil ==> truthful(sc)
  loop inv forall k K {sc.cache.ks[k]} {visited[k]} :: visited[k] && old(sc.cache.ks[k]) ==> (sc.cache.ks[k] ? !late0(old(sc.cache.vs[k])) : late(old(sc.cache.vs[k])))

contract (*SyncCache[K, V]).Range(sc, f) ()
  prop C19 C20
  requires wf(sc) && f != nil
  callback sc.deletedCallback trace
  callback f trace
  modifies rwmap.RWMap[K, *Entry[V]].read @ &sc.cache, rwmap.RWMap[K, *Entry[V]].dirty @ &sc.cache, rwmap.RWMap[K, *Entry[V]].misses @ &sc.cache, rwmap.RWMap[K, *Entry[V]].len @ &sc.cache, rwmap.RWMap[K, *Entry[V]].ks @ &sc.cache, rwmap.RWMap[K, *Entry[V]].vs @ &sc.cache, rwmap.RWMap[K, *Entry[V]].kf @ &sc.cache, new rwmap.readOnly[K, *Entry[V]], map[K]*rwmap.entry[*Entry[V]] @ sc.cache.dirty, new map[K]*rwmap.entry[*Entry[V]], new rwmap.entry[*Entry[V]], rwmap.entry[*Entry[V]].p, new cell *Entry[V], clock, trace sc.deletedCallback, SyncCache.dpos @ sc, SyncCache.dkey @ sc, trace f, SyncCache.pos @ sc
  loop ghost sc.pos := sc.pos[itkey := ncalls(f) - 1]
  ensures @C19 shrunk(sc)
  ensures @C19 expired: forall k K {sc.cache.ks[k]} :: gone(sc, k) ==> late(old(sc.cache.vs[k]))
  ensures @C19 members: forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> sc.cache.ks[callarg(f, j)] && callarg(f, j, 1) == sc.cache.vs[callarg(f, j)] && !late0(callarg(f, j, 1))
  ensures @C19 once: forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  ensures @C19 stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures @C19 complete: ncalls(f) == old(ncalls(f)) || callres(f, ncalls(f) - 1) ==> (forall k K {sc.cache.ks[k]} :: sc.cache.ks[k] ==> old(ncalls(f)) <= sc.pos[k] < ncalls(f) && callarg(f, sc.pos[k]) == k)
  ensures @C20 sc.deletedCallback != nil ==> reported(sc)
  ensures @C20 sc.deletedCallback != nil ==> truthful(sc)
  ensures wf(sc)
  loop ghost sc.dpos := sc.dpos[itkey := ncalls(sc.deletedCallback) - 1]
  loop ghost sc.dkey := (head(sc.cache.ks)[itkey] && !sc.cache.ks[itkey] ? sc.dkey[ncalls(sc.deletedCallback) - 1 := itkey] : sc.dkey)
  loop inv rwmap.wf(sc.cache) && clock >= old(clock) && sc.deletedCallback == old(sc.deletedCallback)
  loop inv sc.cache.read == pre(sc.cache.read) && !rwmap.amended(sc.cache)
  loop inv sc.cache.dirty == nil || sc.cache.dirty == old(sc.cache.dirty)
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) && r != old(sc.cache.dirty) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv forall r map[K]*rwmap.entry[*Entry[V]] {dom(r)} {vals(r)} :: old(alloc(r)) ==> dom(r) == old(dom(r)) && vals(r) == old(vals(r))
  loop inv shrunk(sc)
  loop inv forall k K {sc.cache.ks[k]} {visited[k]} :: gone(sc, k) ==> visited[k]
  loop inv sc.deletedCallback != nil ==> ncalls(sc.deletedCallback) >= old(ncalls(sc.deletedCallback))
  loop inv sc.deletedCallback != nil ==> reported(sc)
  loop inv sc.deletedCallback != nil ==> truthful(sc)
  loop inv forall k K {sc.cache.ks[k]} :: gone(sc, k) ==> late(old(sc.cache.vs[k]))
  loop inv ncalls(f) >= old(ncalls(f))
  loop inv forall k K {visited[k]} {sc.cache.ks[k]} :: visited[k] && sc.cache.ks[k] ==> old(ncalls(f)) <= sc.pos[k] < ncalls(f) && callarg(f, sc.pos[k]) == k
  loop inv forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> sc.cache.ks[callarg(f, j)] && visited[callarg(f, j)] && callarg(f, j, 1) == sc.cache.vs[callarg(f, j)] && !late0(callarg(f, j, 1))
  loop inv forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)

// what an option makes of the deletion callback
func oCb[K, V](SyncCacheConfig[K, V], func(V)) func(V)
func fCb[K, V]([int]SyncCacheConfig[K, V], int, int) func(V)
axiom fCb: forall a [int]SyncCacheConfig[K, V], o int, n int {fCb(a, o, n)} :: n <= 0 ==> fCb(a, o, n) == nil
axiom fCb: forall a [int]SyncCacheConfig[K, V], o int, n int, k int {fCb(a, o, n), fCb(a, o, k)} :: 0 <= n && k == n + 1 ==> fCb(a, o, k) == oCb(a[o + n], fCb(a, o, n))

extern SyncCacheConfig[K, V](sc) ()
  requires sc != nil
  modifies SyncCache.deletedCallback @ sc
  ensures sc.deletedCallback == oCb(self, old(sc.deletedCallback))

contract WithDeletedCallback$1[K, V](sc) ()
  prop C20
  like SyncCacheConfig
  ensures sc.deletedCallback == *callback

contract (*SyncCache[K, V]).Start(sc) ()
  prop C19 C20
  requires rwmap.wf(caches)
  modifies rwmap.RWMap[trim, struct{}].read @ &caches, rwmap.RWMap[trim, struct{}].dirty @ &caches, rwmap.RWMap[trim, struct{}].misses @ &caches, rwmap.RWMap[trim, struct{}].len @ &caches, rwmap.RWMap[trim, struct{}].ks @ &caches, rwmap.RWMap[trim, struct{}].vs @ &caches, rwmap.RWMap[trim, struct{}].kf @ &caches, new rwmap.readOnly[trim, struct{}], map[trim]*rwmap.entry[struct{}] @ caches.dirty, new map[trim]*rwmap.entry[struct{}], new rwmap.entry[struct{}], rwmap.entry[struct{}].p, new cell struct{}
  ensures caches.ks == old(caches.ks)[iface(sc) := true]
  ensures rwmap.wf(caches)

contract (*SyncCache[K, V]).Close(sc) ()
  prop C19 C20
  requires rwmap.wf(caches)
  modifies rwmap.RWMap[trim, struct{}].read @ &caches, rwmap.RWMap[trim, struct{}].dirty @ &caches, rwmap.RWMap[trim, struct{}].misses @ &caches, rwmap.RWMap[trim, struct{}].len @ &caches, rwmap.RWMap[trim, struct{}].ks @ &caches, rwmap.RWMap[trim, struct{}].vs @ &caches, rwmap.RWMap[trim, struct{}].kf @ &caches, new rwmap.readOnly[trim, struct{}], map[trim]*rwmap.entry[struct{}] @ caches.dirty, new map[trim]*rwmap.entry[struct{}], new rwmap.entry[struct{}], rwmap.entry[struct{}].p, new cell struct{}
  ensures caches.ks == old(caches.ks)[iface(sc) := false]
  ensures rwmap.wf(caches)

contract NewSyncCache[K, V](trimTime, conf) (sc)
  prop C19 C20
  requires rwmap.wf(caches) && clock > 0
  requires forall i int {conf[i]} :: 0 <= i < len(conf) ==> conf[i] != nil
  modifies rwmap.RWMap[trim, struct{}].read @ &caches, rwmap.RWMap[trim, struct{}].dirty @ &caches, rwmap.RWMap[trim, struct{}].misses @ &caches, rwmap.RWMap[trim, struct{}].len @ &caches, rwmap.RWMap[trim, struct{}].ks @ &caches, rwmap.RWMap[trim, struct{}].vs @ &caches, rwmap.RWMap[trim, struct{}].kf @ &caches, new rwmap.readOnly[trim, struct{}], map[trim]*rwmap.entry[struct{}] @ caches.dirty, new map[trim]*rwmap.entry[struct{}], new rwmap.entry[struct{}], rwmap.entry[struct{}].p, new cell struct{}, new SyncCache, new rwmap.RWMap[K, *Entry[V]], new rwmap.RWMap[K, *Entry[V]].ks, new rwmap.RWMap[K, *Entry[V]].vs, new rwmap.RWMap[K, *Entry[V]].kf
  ghost sc.cache.ks := emptyset(K)
  ensures fresh(sc) && sc != nil && wf(sc) && sc.cache.ks == emptyset(K)
  ensures sc.deletedCallback == fCb(row(conf), off(conf), len(conf))
  ensures caches.ks == old(caches.ks)[iface(sc) := true]
  ensures rwmap.wf(caches)
  loop inv %s:*SyncCache[K, V] :: fresh(%s) && %s.deletedCallback == fCb(row(conf), off(conf), it)
  loop inv %s:*SyncCache[K, V] :: %s.cache.read == nil && %s.cache.dirty == nil && %s.cache.len == 0 && !held(%s.cache.mu)
