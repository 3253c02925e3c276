package lhashmap

// The index m and the order l.l describe the same entries.
def wf(l) := l.m != nil && l.l != nil && dllist.wf(l.l) && l.l.len == len(l.m)
  && (forall k K {k in l.m} {l.m[k]} :: k in l.m ==> l.m[k] != nil && alloc(l.m[k]) && l.m[k].list == l.l && l.m[k].Value != nil && alloc(l.m[k].Value) && l.m[k].Value.k == k)
  && (forall e *dllist.Element[*entry[K, V]] {e.list} :: e.list == l.l ==> e.Value != nil && alloc(e.Value) && e.Value.k in l.m && l.m[e.Value.k] == e)
def at(l, i) := l.l.at[i]
def val(l, k) := l.m[k].Value.v
def rest(l, k) := forall j K {j in l.m} {l.m[j]} :: j != k ==> (j in l.m <==> old(j in l.m)) && (j in l.m ==> l.m[j] == old(l.m[j]) && val(l, j) == old(val(l, j)))
def toFront(l, k) := forall i int {l.l.at[i]} :: 1 <= i <= l.l.len ==> at(l, i) == (i == 1 ? old(l.m[k]) : (i <= old(l.m[k].idx) ? old(l.l.at[i - 1]) : old(l.l.at[i])))

extern LHashMapConf[K, V](m) ()
  requires m != nil
  modifies Lhashmap.m @ m, new map[K]*dllist.Element[*entry[K, V]]
  ensures m.m == old(m.m) || (fresh(m.m) && len(m.m) == 0 && (forall k K {k in m.m} :: !(k in m.m)))
  ensures forall r *dllist.Element[*entry[K, V]] {alloc(r)} :: old(alloc(r))

contract WithCap$1[K, V](m) ()
  prop C09
  like LHashMapConf

contract New[K, V](conf) (l)
  prop C09
  requires forall i int {conf[i]} :: 0 <= i < len(conf) ==> conf[i] != nil
  modifies new Lhashmap, new dllist.Dllist[*entry[K, V]], new dllist.Element[*entry[K, V]], new dllist.Dllist[*entry[K, V]].at, new dllist.Element[*entry[K, V]].idx, new map[K]*dllist.Element[*entry[K, V]]
  ensures wf: l != nil && fresh(l) && wf(l)
  ensures empty: len(l.m) == 0 && (forall k K {k in l.m} :: !(k in l.m))
  loop inv %m:*Lhashmap[K, V] :: fresh(%m) && (%m.m == nil || fresh(%m.m) && len(%m.m) == 0 && (forall k K {k in %m.m} :: !(k in %m.m)))
  loop inv forall r *dllist.Element[*entry[K, V]] {alloc(r)} :: pre(alloc(r))
  loop inv %m:*Lhashmap[K, V] :: %m.l == pre(%m.l)

contract (*Lhashmap[K, V]).Load(l, key) (v, ok)
  prop C09
  requires wf(l)
  modifies dllist.Element[*entry[K, V]].next, dllist.Element[*entry[K, V]].prev, dllist.Dllist[*entry[K, V]].at @ l.l, dllist.Element[*entry[K, V]].idx
  ensures wf: wf(l)
  ensures found: (ok <==> old(key in l.m)) && (ok ==> v == old(val(l, key))) && (!ok ==> v == zero(V))
  ensures order: ok ==> toFront(l, key)
  ensures absent: !ok ==> (forall i int {l.l.at[i]} :: 1 <= i <= l.l.len ==> l.l.at[i] == old(l.l.at[i]))

contract (*Lhashmap[K, V]).Store(l, key, value) ()
  prop C09
  requires wf(l)
  modifies dllist.Dllist[*entry[K, V]].len @ l.l, dllist.Dllist[*entry[K, V]].inited @ l.l, dllist.Element[*entry[K, V]], dllist.Dllist[*entry[K, V]].at @ l.l, dllist.Element[*entry[K, V]].idx, entry.v, new entry, map[K]*dllist.Element[*entry[K, V]] @ l.m
  ensures wf: wf(l)
  ensures stored: key in l.m && val(l, key) == value && rest(l, key)
  ensures count: len(l.m) == old(len(l.m)) + (old(key in l.m) ? 0 : 1)
  ensures moved: old(key in l.m) ==> toFront(l, key)
  ensures pushed: !old(key in l.m) ==> (forall i int {l.l.at[i]} :: 1 <= i <= l.l.len ==> at(l, i) == (i == 1 ? l.m[key] : old(l.l.at[i - 1])))

contract (*Lhashmap[K, V]).Remove(l, key) ()
  prop C09
  requires wf(l)
  modifies dllist.Dllist[*entry[K, V]].len @ l.l, dllist.Element[*entry[K, V]].next, dllist.Element[*entry[K, V]].prev, dllist.Element[*entry[K, V]].list, dllist.Dllist[*entry[K, V]].at @ l.l, dllist.Element[*entry[K, V]].idx, map[K]*dllist.Element[*entry[K, V]] @ l.m
  ensures wf: wf(l)
  ensures removed: !(key in l.m) && rest(l, key)
  ensures count: len(l.m) == old(len(l.m)) - (old(key in l.m) ? 1 : 0)
  ensures order: forall i int {l.l.at[i]} :: 1 <= i <= l.l.len ==> at(l, i) == (old(key in l.m) && i >= old(l.m[key].idx) ? old(l.l.at[i + 1]) : old(l.l.at[i]))

contract (*Lhashmap[K, V]).Len(l) (n)
  prop C09
  requires wf(l)
  ensures n == len(l.m)

contract (*Lhashmap[K, V]).Range(l, f) ()
  prop C09
  requires wf(l) && f != nil
  callback f trace
  modifies trace f
  ensures called: old(ncalls(f)) <= ncalls(f) <= old(ncalls(f)) + l.l.len
  ensures entries: forall j int {callarg(f, j, 0)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j, 0) == at(l, j - old(ncalls(f)) + 1).Value.k && callarg(f, j, 1) == at(l, j - old(ncalls(f)) + 1).Value.v
  ensures goes: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures stops: ncalls(f) < old(ncalls(f)) + l.l.len ==> ncalls(f) > old(ncalls(f)) && !callres(f, ncalls(f) - 1)
  loop inv it <= l.l.len && ncalls(f) == old(ncalls(f)) + it
  loop inv $e:*dllist.Element[*entry[K, V]] :: $e == (it < l.l.len ? at(l, it + 1) : nil)
  loop inv $e:*dllist.Element[*entry[K, V]] :: $e != nil ==> $e.list == l.l && $e.idx == it + 1
  loop inv forall j int {callarg(f, j, 0)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j, 0) == at(l, j - old(ncalls(f)) + 1).Value.k && callarg(f, j, 1) == at(l, j - old(ncalls(f)) + 1).Value.v
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)
  loop bound l.l.len + 1

contract (*Lhashmap[K, V]).Clear(l) ()
  prop C09
  requires wf(l)
  modifies Lhashmap.m @ l, new map[K]*dllist.Element[*entry[K, V]], dllist.Dllist[*entry[K, V]].len @ l.l, dllist.Dllist[*entry[K, V]].inited @ l.l, dllist.Element[*entry[K, V]].next, dllist.Element[*entry[K, V]].prev, dllist.Element[*entry[K, V]].list, dllist.Dllist[*entry[K, V]].at @ l.l
  ensures wf: wf(l)
  ensures empty: len(l.m) == 0 && (forall k K {k in l.m} :: !(k in l.m))
