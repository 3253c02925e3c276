package rwmap

// What holds whatever other goroutines do.
// Shared ghosts: es the entries that belong to the map, kf the key each was
// made for, rds those that have been in a read map, orph those taken out of the
// dirty map by a deletion, pub the read maps published, cs the pointers that
// were current for the key of this call since it began (nil: absent).
ghost field RWMap.es [*entry[V]]bool
ghost field RWMap.kf [*entry[V]]K
ghost field RWMap.rds [*entry[V]]bool
ghost field RWMap.orph [*entry[V]]bool
ghost field RWMap.pub [*readOnly[K, V]]bool
ghost field RWMap.cs [*V]bool
// ghosts of this call: values stored and taken, and how often; the change of
// the length; the entry taken out of the dirty map
ghost field RWMap.np int
ghost field RWMap.nt int
ghost field RWMap.put *V
ghost field RWMap.took *V
ghost field RWMap.own int
ghost field RWMap.myo *entry[V]
ghost field RWMap.emp bool

def globs() := expunged != nil && alloc(expunged) && addrof(expunged) == expungedUintptr
def rd(m, k) := m.read != nil && k in m.read.m
def amended(m) := m.read != nil && m.read.amended
def ent(m, k) := rd(m, k) ? m.read.m[k] : m.dirty[k]
def live(e) := e.p != nil && e.p != expunged
def has(m, k) := rd(m, k) ? live(m.read.m[k]) : (k in m.dirty && live(m.dirty[k]))
def curp(m, k) := has(m, k) ? ent(m, k).p : nil
def at(m, e) := rd(m, m.kf[e]) ? m.read.m[m.kf[e]] == e : (m.kf[e] in m.dirty && m.dirty[m.kf[e]] == e)

protocol BASE
  option noterm
  modifies *
  requires !held(m.mu) && m.np == 0 && m.nt == 0 && m.own == 0 && m.myo == nil && !m.emp
  conc lock m.mu
  conc target entry[V]
  conc shared RWMap.read @ m, RWMap.dirty @ m, RWMap.misses @ m, RWMap.len @ m, entry.p, map[K]*entry[V], RWMap.es @ m, RWMap.kf @ m, RWMap.rds @ m, RWMap.orph @ m, RWMap.pub @ m
  conc guarded RWMap.dirty @ m, RWMap.misses @ m
  conc mapread reads: (exists r *readOnly[K, V] {r.m} :: m.pub[r] && r.m == themap) || (mine && themap == m.dirty)
  conc mapwrite writes: mine && themap == m.dirty && (forall r *readOnly[K, V] {m.pub[r]} :: m.pub[r] ==> r.m != themap)
  conc ghost if (target != nil && old(m.es[target] && live(target)) && target.p != old(target.p)) then m.nt := m.nt + 1
  conc ghost if (target != nil && old(m.es[target] && live(target)) && target.p != old(target.p)) then m.took := old(target.p)
  conc ghost if (target != nil && m.es[target] && live(target) && target.p != old(target.p)) then m.np := m.np + 1
  conc ghost if (target != nil && m.es[target] && live(target) && target.p != old(target.p)) then m.put := target.p
  conc ghost if (m.len != old(m.len)) then m.own := m.own + m.len - old(m.len)
  conc ghost if (m.read != old(m.read)) then m.pub := m.pub[m.read := true]
  conc ghost if (m.read != old(m.read)) then m.rds := [e *entry[V] {m.rds[e]}] (m.rds[e] || (m.es[e] && rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e))
  conc inv globs: globs()
  conc inv esAlloc: forall e Ref {m.es[e]} :: m.es[e] ==> e != nil && alloc(e, *entry[V])
  conc inv pubAlloc: forall r Ref {m.pub[r]} :: m.pub[r] ==> r != nil && alloc(r, *readOnly[K, V])
  conc inv pubMap: forall r *readOnly[K, V] {m.pub[r]} :: m.pub[r] ==> r.m == nil || alloc(r.m)
  conc inv orphEs: forall e Ref {m.orph[e]} :: m.orph[e] ==> m.es[e]
  conc inv rdsEs: forall e Ref {m.rds[e]} :: m.rds[e] ==> m.es[e]
  conc inv read: forall k K {m.read.m[k]} {k in m.read.m} :: rd(m, k) ==> m.read.m[k] != nil && m.es[m.read.m[k]] && m.kf[m.read.m[k]] == k && m.rds[m.read.m[k]]
  conc inv dirty: forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.dirty[k] != nil && m.es[m.dirty[k]] && m.kf[m.dirty[k]] == k && !m.orph[m.dirty[k]]
  conc inv settled: forall e *entry[V] {m.rds[e]} :: m.rds[e] ==> !m.orph[e] && (e.p != expunged ==> rd(m, m.kf[e]) && m.read.m[m.kf[e]] == e)
  conc inv reachable: forall e *entry[V] {m.es[e]} {e.p} :: m.es[e] && live(e) && !m.orph[e] ==> at(m, e)
  conc inv amended: forall k K {k in m.dirty} {m.dirty[k]} :: k in m.dirty && live(m.dirty[k]) && !rd(m, k) ==> amended(m)
  conc inv pub: m.read != nil ==> m.pub[m.read]
  conc lockinv dirtymap: amended(m) ==> m.dirty != nil
  conc lockinv writable: m.dirty != nil ==> (forall r *readOnly[K, V] {m.pub[r]} :: m.pub[r] ==> r.m != m.dirty)
  conc lockinv clean: forall k K {m.read.m[k]} {k in m.read.m} :: rd(m, k) ==> (m.read.m[k].p == expunged ? m.dirty != nil && !(k in m.dirty) : (m.dirty != nil ==> k in m.dirty && m.dirty[k] == m.read.m[k]))
  conc lockinv dirtylive: forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> m.dirty[k].p != expunged && (!rd(m, k) ==> amended(m))
  conc rely grow: forall e *entry[V] {m.es[e]} {m.kf[e]} :: old(m.es[e]) ==> m.es[e] && m.kf[e] == old(m.kf[e])
  conc rely growrds: forall e *entry[V] {m.rds[e]} {old(m.rds[e])} :: old(m.rds[e]) ==> m.rds[e]
  conc rely groworph: forall e *entry[V] {m.orph[e]} :: old(m.orph[e]) ==> m.orph[e]
  conc rely pubs: forall r *readOnly[K, V], k K {k in r.m} {r.m[k]} :: old(m.pub[r]) ==> (k in r.m <==> old(k in r.m)) && r.m[k] == old(r.m[k])
  conc rely growpub: forall r *readOnly[K, V] {m.pub[r]} :: old(m.pub[r]) ==> m.pub[r]
  conc rely frozen: forall e *entry[V] {e.p} :: old(m.es[e] && m.orph[e]) ==> e.p == old(e.p) || !live(e)
  conc rely exclusive: mine ==> m.read == old(m.read) && m.dirty == old(m.dirty) && m.misses == old(m.misses) && m.es == old(m.es) && m.kf == old(m.kf) && m.rds == old(m.rds) && m.orph == old(m.orph) && m.pub == old(m.pub)
  conc rely exclusiveMap: mine ==> (forall k K {k in m.dirty} {m.dirty[k]} :: (k in m.dirty <==> old(k in m.dirty)) && m.dirty[k] == old(m.dirty[k]))
  conc rely exclusiveExpunge: mine ==> (forall e *entry[V] {e.p} :: old(m.es[e]) ==> (e.p == expunged <==> old(e.p == expunged)))
  conc guarantee gone: forall e *entry[V] {e.p} :: old(m.es[e] && live(e) && !m.orph[e]) && !live(e) ==> curp(m, m.kf[e]) == nil
  conc guarantee goneOrphan: forall e *entry[V] {m.orph[e]} :: m.orph[e] && !old(m.orph[e]) ==> curp(m, m.kf[e]) == nil
  ensures unlocked: !held(m.mu)
  ensures orphan: m.myo != nil ==> !live(m.myo)
  ensures counted: m.own == m.np - m.nt
end

protocol KEYED
  requires forall p Ref {m.cs[p]} :: m.cs[p] <==> p == curp(m, key)
  conc shared RWMap.cs @ m
  conc ghost if ((m.dirty[key] != old(m.dirty[key]) || (key in m.dirty) != old(key in m.dirty)) && key in m.dirty && !m.es[m.dirty[key]]) then m.np := m.np + 1
  conc ghost if ((m.dirty[key] != old(m.dirty[key]) || (key in m.dirty) != old(key in m.dirty)) && key in m.dirty && !m.es[m.dirty[key]]) then m.put := m.dirty[key].p
  conc ghost if ((m.dirty[key] != old(m.dirty[key]) || (key in m.dirty) != old(key in m.dirty)) && key in m.dirty && !m.es[m.dirty[key]]) then m.kf := m.kf[m.dirty[key] := key]
  conc ghost if ((m.dirty[key] != old(m.dirty[key]) || (key in m.dirty) != old(key in m.dirty)) && key in m.dirty && !m.es[m.dirty[key]]) then m.es := m.es[m.dirty[key] := true]
  conc ghost if ((key in m.dirty) != old(key in m.dirty) && old(key in m.dirty) && !rd(m, key)) then m.orph := m.orph[old(m.dirty[key]) := true]
  conc ghost if ((key in m.dirty) != old(key in m.dirty) && old(key in m.dirty) && !rd(m, key)) then m.myo := old(m.dirty[key])
  conc ghost if (curp(m, key) != old(curp(m, key))) then m.cs := m.cs[curp(m, key) := true]
  conc relyonly seen: forall p Ref {m.cs[p]} {old(m.cs[p])} :: old(m.cs[p]) ==> m.cs[p]
  conc relyonly current: m.cs[curp(m, key)]
  conc relyonly stored: forall e *entry[V] {e.p} :: old(m.es[e]) && m.kf[e] == key && live(e) && e.p != old(e.p) ==> m.cs[e.p]
  conc relyonly died: forall e *entry[V] {e.p} :: old(m.es[e] && live(e) && !m.orph[e]) && m.kf[e] == key && !live(e) ==> m.cs[nil]
  conc relyonly orphaned: forall e *entry[V] {m.orph[e]} :: m.orph[e] && !old(m.orph[e]) && m.kf[e] == key ==> m.cs[nil]
  conc guarantee otherkeys: forall k K {k in m.dirty} {m.dirty[k]} {k in m.read.m} {m.read.m[k]} :: k != key ==> curp(m, k) == old(curp(m, k))
  conc guarantee effect: curp(m, key) != old(curp(m, key)) && curp(m, key) != nil ==> m.np == old(m.np) + 1 && m.put == curp(m, key) && (old(curp(m, key)) == nil ? m.nt == old(m.nt) : m.nt == old(m.nt) + 1 && m.took == old(curp(m, key)))
  conc guarantee removal: curp(m, key) != old(curp(m, key)) && curp(m, key) == nil ==> (m.nt == old(m.nt) + 1 && m.took == old(curp(m, key))) || (m.myo != nil && m.orph[m.myo] && !old(m.orph[m.myo]) && m.myo.p == old(curp(m, key)))
  conc guarantee puts: m.np != old(m.np) ==> m.np == old(m.np) + 1 && m.put == curp(m, key)
  conc guarantee takes: m.nt != old(m.nt) ==> m.nt == old(m.nt) + 1 && m.took != nil && (m.took == old(curp(m, key)) || curp(m, key) == old(curp(m, key)))
  loop inv !held(m.mu)
  loop inv held(m.mu)
  loop inv m.np == 0 && m.nt == 0
  loop inv m.own == 0
  loop inv m.myo == nil
  loop inv m.put == pre(m.put) && m.took == pre(m.took)
  loop inv %e:*entry[V] :: %e == nil || (m.es[%e] && m.kf[%e] == key)
  loop inv %e:*entry[V] :: %e == nil || (live(%e) ==> m.cs[%e.p])
  loop inv %e:*entry[V] :: %e == nil || !live(%e) || m.orph[%e] ==> m.cs[nil]
  loop inv %e:*entry[V] :: %e == nil || m.rds[%e]
  loop inv %e:*entry[V] :: m.myo == nil || (m.myo == %e && m.orph[%e])
  loop inv %e:*entry[V], %b:bool :: %b <==> %e != nil
  loop inv m.cs[curp(m, key)]
end

// copying the read map into a new dirty map
protocol COPY
  loop inv m.read == pre(m.read) && m.dirty == pre(m.dirty) && m.es == pre(m.es) && m.kf == pre(m.kf) && m.rds == pre(m.rds) && m.orph == pre(m.orph) && m.pub == pre(m.pub)
  loop inv m.dirty != nil && (forall r *readOnly[K, V] {m.pub[r]} :: m.pub[r] ==> r.m != m.dirty)
  loop inv forall k K {k in m.read.m} {m.read.m[k]} :: rd(m, k) ==> pre(rd(m, k)) && m.read.m[k] == pre(m.read.m[k])
  loop inv forall k K {m.dirty[k]} {k in m.dirty} :: k in m.dirty ==> visited[k] && rd(m, k) && m.dirty[k] == m.read.m[k] && m.read.m[k].p != expunged
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] && rd(m, k) ==> m.read.m[k].p == expunged || k in m.dirty
  loop inv !amended(m)
  loop inv %e:*entry[V] :: %e == nil || m.es[%e]
  loop inv $p:*V, %e:*entry[V] :: $p == expunged <==> %e.p == expunged
end

contract (*RWMap[K, V]).Load(m, key) (value, ok)
  prop C16
  follows BASE
  follows KEYED
  conc guarantee pure: m.np == old(m.np) && m.nt == old(m.nt)
  ensures ok ==> (exists p *V {m.cs[p]} :: m.cs[p] && p != nil && *p == value)
  ensures !ok ==> m.cs[nil] && value == zero(V)
  ensures m.np == 0 && m.nt == 0

contract (*RWMap[K, V]).LoadAndDelete(m, key) (value, loaded)
  prop C16
  follows BASE
  follows KEYED
  conc guarantee noputs: m.np == old(m.np)
  ensures m.np == 0 && m.nt == (loaded ? 1 : 0)
  ensures loaded ==> *m.took == value && m.cs[m.took]
  ensures !loaded ==> m.cs[nil] && value == zero(V)

contract (*RWMap[K, V]).CompareAndDelete(m, key, old_) (deleted)
  prop C16
  follows BASE
  follows KEYED
  conc guarantee noputs: m.np == old(m.np)
  ensures m.np == 0 && m.nt == (deleted ? 1 : 0)
  ensures deleted ==> *m.took == old_ && m.cs[m.took]
  ensures !deleted ==> m.cs[nil] || (exists p *V {m.cs[p]} :: m.cs[p] && p != nil && *p != old_)

contract (*RWMap[K, V]).CompareAndSwap(m, key, old_, new_) (swapped)
  prop C16
  follows BASE
  follows KEYED
  conc guarantee together: m.np != old(m.np) <==> m.nt != old(m.nt)
  loop inv $p:*V :: $p != nil && $p != expunged && alloc($p) && *$p == old_
  ensures m.np == (swapped ? 1 : 0) && m.nt == m.np
  ensures swapped ==> *m.took == old_ && *m.put == new_ && m.cs[m.took]
  ensures !swapped ==> m.cs[nil] || (exists p *V {m.cs[p]} :: m.cs[p] && p != nil && *p != old_)

contract (*RWMap[K, V]).Swap(m, key, value) (previous, loaded)
  prop C16
  follows BASE
  follows KEYED
  follows COPY
  conc guarantee together: m.nt != old(m.nt) ==> m.np != old(m.np)
  ensures m.np == 1 && *m.put == value && m.nt == (loaded ? 1 : 0)
  ensures loaded ? *m.took == previous : previous == zero(V)

contract (*RWMap[K, V]).Len(m) (n)
  prop C16
  follows BASE
  conc guarantee keys: forall k K {k in m.dirty} {m.dirty[k]} {k in m.read.m} {m.read.m[k]} :: curp(m, k) == old(curp(m, k))
  ensures m.np == 0 && m.nt == 0

contract (*RWMap[K, V]).Range(m, f) ()
  prop C16
  requires f != nil
  callback f trace
  follows BASE
  conc guarantee keys: forall k K {k in m.dirty} {m.dirty[k]} {k in m.read.m} {m.read.m[k]} :: curp(m, k) == old(curp(m, k))
  conc guarantee pure: m.np == old(m.np) && m.nt == old(m.nt)
  ensures m.np == 0 && m.nt == 0
  loop inv !held(m.mu) && m.np == 0 && m.nt == 0 && m.own == 0 && m.myo == nil

contract (*RWMap[K, V]).SlowLen(m) (n)
  prop C16
  follows BASE
  conc guarantee keys: forall k K {k in m.dirty} {m.dirty[k]} {k in m.read.m} {m.read.m[k]} :: curp(m, k) == old(curp(m, k))
  conc guarantee pure: m.np == old(m.np) && m.nt == old(m.nt)
  ensures m.np == 0 && m.nt == 0
  loop inv !held(m.mu) && m.np == 0 && m.nt == 0 && m.own == 0 && m.myo == nil

contract (*RWMap[K, V]).Clear(m) ()
  prop C16
  follows BASE
  conc ghost if (!m.emp && (forall k K {k in m.dirty} {k in m.read.m} :: curp(m, k) == nil)) then m.emp := true
  conc guarantee removes: forall k K {k in m.dirty} {m.dirty[k]} {k in m.read.m} {m.read.m[k]} :: curp(m, k) == old(curp(m, k)) || curp(m, k) == nil
  conc guarantee noputs: m.np == old(m.np)
  ensures m.np == 0 && m.emp
  loop inv held(m.mu) && m.np == 0 && m.own == 0 && m.myo == nil && !m.emp
  loop inv $n:int64 :: $n == m.nt
  loop inv m.read == pre(m.read) && m.dirty == pre(m.dirty) && m.es == pre(m.es) && m.kf == pre(m.kf) && m.rds == pre(m.rds) && m.orph == pre(m.orph) && m.pub == pre(m.pub)
  loop inv forall k K {k in m.dirty} {m.dirty[k]} :: (k in m.dirty <==> pre(k in m.dirty)) && m.dirty[k] == pre(m.dirty[k])
  loop inv forall k K {k in m.read.m} {m.read.m[k]} :: (k in m.read.m <==> pre(k in m.read.m)) && m.read.m[k] == pre(m.read.m[k])
  loop inv forall k K {visited[k]} {m.read.m[k]} :: visited[k] && rd(m, k) ==> m.read.m[k].p == expunged
  loop inv forall k K {visited[k]} {m.dirty[k]} :: visited[k] && k in m.dirty ==> m.dirty[k].p == expunged
  loop inv forall k K {m.read.m[k]} {k in m.read.m} :: rd(m, k) ==> m.read.m[k].p == expunged
