package rwmap

// the key each entry was created for
ghost field RWMap.kf [*entry[V]]K
// the contents, computed from the real state: keys present, their values
ghost field RWMap.ks [K]bool
ghost field RWMap.vs [K]V
// the call at which a range reached a key; the keys a range has still to reach
ghost field RWMap.pos [K]int
ghost field RWMap.left [K]bool

def globs() := expunged != nil && alloc(expunged) && addrof(expunged) == expungedUintptr

// e belongs to m
def own(m, e) := (rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e) || (m.kf[e] in m.dirty && m.dirty[m.kf[e]] == e)
// the dirty map is the one it was, gone, or new
def dmap(m) := m.dirty == old(m.dirty) || m.dirty == nil || fresh(m.dirty)
// entries of other maps keep what they hold
def others(m) := forall e *entry[V] {e.p} :: old(alloc(e)) && !old(own(m, e)) ==> e.p == old(e.p)

// the entry found in the read map, in the dirty map, for a key
def rd(m, k) := m.read != nil && k in m.read.m
def amended(m) := m.read != nil && m.read.amended
def ent(m, k) := rd(m, k) ? m.read.m[k] : m.dirty[k]
def live(e) := e.p != nil && e.p != expunged
def has(m, k) := rd(m, k) ? live(m.read.m[k]) : (k in m.dirty && live(m.dirty[k]))

def wf0(m) := globs()
  && (m.read != nil && m.dirty != nil ==> m.read.m != m.dirty)
  && (amended(m) ==> m.dirty != nil)
  && (forall k K {m.read.m[k]} {k in m.read.m} :: rd(m, k) ==> m.read.m[k] != nil && alloc(m.read.m[k]) && m.kf[m.read.m[k]] == k && (m.read.m[k].p == expunged ? m.dirty != nil && !(k in m.dirty) : (m.dirty != nil ==> k in m.dirty && m.dirty[k] == m.read.m[k])))
  && (forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.dirty[k] != nil && alloc(m.dirty[k]) && m.kf[m.dirty[k]] == k && m.dirty[k].p != expunged && (!rd(m, k) ==> amended(m)))
  && finite(dom(m.read.m)) && finite(dom(m.dirty))
def wf(m) := wf0(m) && !held(m.mu)
  && (forall k K {m.ks[k]} :: m.ks[k] <==> has(m, k))
  && (forall k K {m.vs[k]} :: has(m, k) ==> m.vs[k] == *ent(m, k).p)
  && finite(m.ks) && m.len == card(m.ks)

contract (*RWMap[K, V]).Load(m, key) (value, ok)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly
  ensures ok == m.ks[key] && (ok ==> value == m.vs[key]) && (!ok ==> value == zero(V))
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).Swap(m, key, value) (previous, loaded)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.kf := [e *entry[V] {m.kf[e]}] (!old(alloc(e)) && key in m.dirty && m.dirty[key] == e ? key : old(m.kf[e]))
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures loaded == old(m.ks[key]) && (loaded ? previous == old(m.vs[key]) : previous == zero(V))
  ensures m.ks == old(m.ks)[key := true]
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == (k == key ? value : old(m.vs[k]))
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  loop inv m.read == old(m.read) && m.read != nil && m.dirty != nil && !old(alloc(m.dirty)) && finite(dom(m.dirty))
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> visited[k] && k in m.read.m && m.dirty[k] == m.read.m[k]
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] ==> m.read.m[k].p != nil && (m.read.m[k].p == expunged || k in m.dirty)
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.read.m[k].p != expunged
  loop inv forall e *entry[V] {e.p} :: e.p == old(e.p) || (old(e.p) == nil && e.p == expunged && rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e && visited[m.kf[e]])
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).Store(m, key, value) ()
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.kf := [e *entry[V] {m.kf[e]}] (!old(alloc(e)) && key in m.dirty && m.dirty[key] == e ? key : old(m.kf[e]))
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures m.ks == old(m.ks)[key := true]
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == (k == key ? value : old(m.vs[k]))
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  loop inv m.read == old(m.read) && m.read != nil && m.dirty != nil && !old(alloc(m.dirty)) && finite(dom(m.dirty))
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> visited[k] && k in m.read.m && m.dirty[k] == m.read.m[k]
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] ==> m.read.m[k].p != nil && (m.read.m[k].p == expunged || k in m.dirty)
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.read.m[k].p != expunged
  loop inv forall e *entry[V] {e.p} :: e.p == old(e.p) || (old(e.p) == nil && e.p == expunged && rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e && visited[m.kf[e]])
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).LoadOrStore(m, key, value) (actual, loaded)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.kf := [e *entry[V] {m.kf[e]}] (!old(alloc(e)) && key in m.dirty && m.dirty[key] == e ? key : old(m.kf[e]))
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures loaded == old(m.ks[key]) && actual == (loaded ? old(m.vs[key]) : value)
  ensures m.ks == old(m.ks)[key := true]
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == (k == key && !old(m.ks[key]) ? value : old(m.vs[k]))
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  loop inv m.read == old(m.read) && m.read != nil && m.dirty != nil && !old(alloc(m.dirty)) && finite(dom(m.dirty))
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> visited[k] && k in m.read.m && m.dirty[k] == m.read.m[k]
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] ==> m.read.m[k].p != nil && (m.read.m[k].p == expunged || k in m.dirty)
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.read.m[k].p != expunged
  loop inv forall e *entry[V] {e.p} :: e.p == old(e.p) || (old(e.p) == nil && e.p == expunged && rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e && visited[m.kf[e]])
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).LoadAndDelete(m, key) (value, loaded)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures loaded == old(m.ks[key]) && (loaded ? value == old(m.vs[key]) : value == zero(V))
  ensures m.ks == old(m.ks)[key := false]
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == old(m.vs[k])
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).Delete(m, key) ()
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures m.ks == old(m.ks)[key := false]
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == old(m.vs[k])
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).CompareAndSwap(m, key, old_, new_) (swapped)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures swapped == (old(m.ks[key]) && old(m.vs[key]) == old_)
  ensures m.ks == old(m.ks)
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == (swapped && k == key ? new_ : old(m.vs[k]))
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).CompareAndDelete(m, key, old_) (deleted)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures deleted == (old(m.ks[key]) && old(m.vs[key]) == old_)
  ensures m.ks == (deleted ? old(m.ks)[key := false] : old(m.ks))
  ensures forall k K {m.vs[k]} :: m.ks[k] ==> m.vs[k] == old(m.vs[k])
  ensures others(m)
  loop inv %e:*entry[V], $p:*V :: $p == %e.p
  loop inv forall e *entry[V] {e.p} :: e.p == pre(e.p)
  loop bound 1
  ensures settled: !old(amended(m)) ==> m.read == old(m.read) && m.dirty == old(m.dirty)
  ensures dmap(m)
  ensures wf(m)

contract (*RWMap[K, V]).Len(m) (n)
  prop C15
  requires wf(m)
  ensures n == card(m.ks)

contract (*RWMap[K, V]).Clear(m) ()
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.ks @ m, RWMap.vs @ m, RWMap.kf @ m, map[K]*entry[V] @ m.dirty, RWMap.len @ m, entry.p, new cell V
  ghost m.ks := [k K {m.ks[k]}] has(m, k)
  ghost m.vs := [k K {m.vs[k]}] *ent(m, k).p
  ensures m.ks == emptyset(K)
  ensures others(m)
  ensures dmap(m)
  ensures wf(m)
  loop ghost m.ks := m.ks[itkey := false]
  loop inv m.read == old(m.read) && m.dirty == old(m.dirty) && finite(m.ks)
  loop inv forall k K {m.ks[k]} {k in m.read.m} {k in m.dirty} :: m.ks[k] <==> has(m, k)
  loop inv $n:int64 :: $n == old(m.len) - card(m.ks)
  loop inv forall e *entry[V] {e.p} :: e.p == old(e.p) || (e.p == expunged && old(own(m, e)))
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] && k in m.read.m ==> m.read.m[k].p == expunged
  loop inv forall k K {visited[k]} {m.dirty[k]} :: visited[k] && k in m.dirty ==> m.dirty[k].p == expunged
  loop inv forall k K {m.read.m[k]} {k in m.read.m} :: rd(m, k) ==> m.read.m[k].p == expunged
  loop inv forall e *entry[V] {e.p} :: e.p == old(e.p) || (rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e && visited[m.kf[e]])

contract (*RWMap[K, V]).Range(m, f) ()
  prop C15
  requires wf(m) && f != nil
  callback f trace
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, trace f, RWMap.pos @ m
  loop ghost m.pos := m.pos[itkey := ncalls(f) - 1]
  ensures members: forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> m.ks[callarg(f, j)] && callarg(f, j, 1) == m.vs[callarg(f, j)]
  ensures once: forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  ensures stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures complete: ncalls(f) == old(ncalls(f)) || callres(f, ncalls(f) - 1) ==> (forall k K {m.ks[k]} :: m.ks[k] ==> old(ncalls(f)) <= m.pos[k] < ncalls(f) && callarg(f, m.pos[k]) == k)
  ensures dmap(m)
  ensures wf(m)
  loop inv ncalls(f) >= old(ncalls(f))
  loop inv forall k K {visited[k]} {m.ks[k]} :: visited[k] && m.ks[k] ==> old(ncalls(f)) <= m.pos[k] < ncalls(f) && callarg(f, m.pos[k]) == k
  loop inv forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> m.ks[callarg(f, j)] && visited[callarg(f, j)] && callarg(f, j, 1) == m.vs[callarg(f, j)]
  loop inv forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)

contract (*RWMap[K, V]).SlowLen(m) (n)
  prop C15
  requires wf(m)
  modifies RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, new readOnly, RWMap.left @ m
  loop ghost m.left := (it == 1 ? m.ks : m.left)[itkey := false]
  ensures n == card(m.ks)
  ensures dmap(m)
  ensures wf(m)
  loop inv $n:int64 :: it == 0 ? $n == 0 : $n == card(m.ks) - card(m.left)
  loop inv it > 0 ==> finite(m.left) && (forall k K {m.left[k]} :: m.left[k] <==> m.ks[k] && !visited[k])
