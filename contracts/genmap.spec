package genmap

def at(m, k) := k in m ? m[k] : zero(V)
// every key except k keeps its presence and value
def rest(m, k) := forall j K {j in m} {m[j]} :: j != k ==> (j in m <==> old(j in m)) && (j in m ==> m[j] == old(m[j]))

contract New[K, V]() (m)
  prop C08
  ensures m != nil && fresh(m) && len(m) == 0 && (forall k K {k in m} :: !(k in m))

contract From[K, V](m) (r)
  prop C08
  ensures r == m

contract GenMap[K, V].Map(m) (r)
  prop C08
  ensures r == m

contract GenMap[K, V].Len(m) (n)
  prop C08
  ensures n == len(m)

contract GenMap[K, V].Load(m, k) (v, ok)
  prop C08
  ensures ok <==> k in m
  ensures v == at(m, k)

contract GenMap[K, V].Store(m, k, v) (r)
  prop C08
  requires m != nil
  modifies GenMap[K, V] @ m
  ensures r == m
  ensures k in m && m[k] == v && rest(m, k)
  ensures len(m) == old(len(m)) + (old(k in m) ? 0 : 1)

contract GenMap[K, V].Delete(m, k) (r)
  prop C08
  modifies GenMap[K, V] @ m
  ensures r == m
  ensures !(k in m) && rest(m, k)
  ensures len(m) == old(len(m)) - (old(k in m) ? 1 : 0)

contract GenMap[K, V].Clone(m) (c)
  prop C08
  modifies new GenMap[K, V]
  ensures c != nil && fresh(c)
  ensures forall k K {k in c} {c[k]} {k in m} :: (k in c <==> k in m) && (k in c ==> c[k] == m[k])
  loop inv %c:GenMap[K, V] :: fresh(%c) && (forall k K {k in %c} {%c[k]} :: (k in %c <==> visited[k]) && (visited[k] ==> %c[k] == old(m[k])))
  loop inv %c:map[K]V :: fresh(%c) && (forall k K {k in %c} {%c[k]} :: (k in %c <==> visited[k]) && (visited[k] ==> %c[k] == old(m[k])))

contract GenMap[K, V].Keys(m) (r)
  prop C08
  ensures len(r) == len(m) && fresh(r)
  ensures members: forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] in m
  ensures distinct: forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] != r[j]
  loop inv $r:[]K :: len($r) == it && fresh($r) && cap($r) >= len(m)
  loop inv $r:[]K :: forall i int {$r[i]} :: 0 <= i < it ==> $r[i] in m && visited[$r[i]]
  loop inv $r:[]K :: forall i int, j int {$r[i], $r[j]} :: 0 <= i < j < it ==> $r[i] != $r[j]

contract GenMap[K, V].Values(m) (r)
  prop C08
  ensures len(r) == len(m) && fresh(r)
  ensures members: forall i int {r[i]} :: 0 <= i < len(r) ==> (exists k K {m[k]} :: k in m && m[k] == r[i])
  ensures all: forall k K {m[k]} :: k in m ==> (exists i int {r[i]} :: 0 <= i < len(r) && r[i] == m[k])
  loop inv $r:[]V :: len($r) == it && fresh($r) && cap($r) >= len(m)
  loop inv $r:[]V :: forall i int {$r[i]} :: 0 <= i < it ==> (exists k K {m[k]} :: k in m && m[k] == $r[i])
  loop inv $r:[]V :: forall k K {m[k]} {visited[k]} :: visited[k] ==> (exists i int {$r[i]} :: 0 <= i < it && $r[i] == m[k])

contract GenMap[K, V].Range(m, f) (all)
  prop C08
  requires f != nil
  callback f trace
  modifies trace f
  ensures members: forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) in m && callarg(f, j, 1) == m[callarg(f, j)]
  ensures once: forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  ensures stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures complete: all ==> ncalls(f) == old(ncalls(f)) + len(m) && (forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j))
  ensures partial: !all ==> ncalls(f) > old(ncalls(f)) && !callres(f, ncalls(f) - 1)
  loop inv ncalls(f) == old(ncalls(f)) + it
  loop inv forall j int {callarg(f, j)} {callarg(f, j, 1)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) in m && visited[callarg(f, j)] && callarg(f, j, 1) == m[callarg(f, j)]
  loop inv forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)

contract GenMap[K, V].LoadOrStore(m, k, v) (a, loaded)
  prop C08
  requires m != nil
  modifies GenMap[K, V] @ m
  ensures loaded <==> old(k in m)
  ensures a == (loaded ? old(m[k]) : v)
  ensures k in m && m[k] == a && rest(m, k)

contract GenMap[K, V].LoadOrStoreFunc(m, k, f) (a, loaded)
  prop C08
  requires m != nil && f != nil
  callback f trace
  modifies GenMap[K, V] @ m, trace f
  ensures loaded <==> old(k in m)
  ensures loaded ==> a == old(m[k]) && ncalls(f) == old(ncalls(f))
  ensures !loaded ==> ncalls(f) == old(ncalls(f)) + 1 && a == callres(f, old(ncalls(f)))
  ensures k in m && m[k] == a && rest(m, k)

contract GenMap[K, V].LoadAndDelete(m, k) (v, loaded)
  prop C08
  modifies GenMap[K, V] @ m
  ensures loaded <==> old(k in m)
  ensures v == old(at(m, k))
  ensures !(k in m) && rest(m, k)

contract GenMap[K, V].LoadAndStore(m, k, v) (a, loaded)
  prop C08
  requires m != nil
  modifies GenMap[K, V] @ m
  ensures loaded <==> old(k in m)
  ensures a == old(at(m, k))
  ensures k in m && m[k] == v && rest(m, k)

contract GenMap[K, V].EqualFunc(m, n, eq) (b)
  prop C08
  requires eq != nil
  callback eq pure
  ensures b <==> len(m) == len(n) && (forall k K {k in m} {m[k]} :: k in m ==> k in n && app(eq, m[k], n[k]))
  loop inv forall k K {visited[k]} {k in m} :: visited[k] ==> k in n && app(eq, m[k], n[k])

contract GenMap[K, V].Clear(m) (r)
  prop C08
  modifies GenMap[K, V] @ m
  ensures r == m && len(m) == 0 && (forall k K {k in m} :: !(k in m))
  loop inv forall k K {k in m} {visited[k]} :: k in m ==> old(k in m) && !visited[k]

def copied(dst, src) := forall k K {k in dst} {dst[k]} :: (k in dst <==> (old(k in dst) || old(k in src))) && (k in dst ==> dst[k] == (old(k in src) ? old(src[k]) : old(dst[k])))
def copying(dst, src) := forall k K {k in dst} {dst[k]} :: (k in dst <==> (old(k in dst) || visited[k])) && (k in dst ==> dst[k] == (visited[k] ? old(src[k]) : old(dst[k])))

contract GenMap[K, V].CopyTo(m, dst) (r)
  prop C08
  requires dst != nil || len(m) == 0
  modifies GenMap[K, V] @ dst
  ensures r == m && copied(dst, m)
  loop inv copying(dst, m)

contract GenMap[K, V].CopyToRaw(m, dst) (r)
  prop C08
  requires dst != nil || len(m) == 0
  modifies GenMap[K, V] @ dst
  ensures r == m && copied(dst, m)
  loop inv copying(dst, m)

contract GenMap[K, V].CopyFrom(m, src) (r)
  prop C08
  requires m != nil || len(src) == 0
  modifies GenMap[K, V] @ m
  ensures r == m && copied(m, src)
  loop inv copying(m, src)

contract GenMap[K, V].CopyFromRaw(m, src) (r)
  prop C08
  requires m != nil || len(src) == 0
  modifies GenMap[K, V] @ m
  ensures r == m && copied(m, src)
  loop inv copying(m, src)

contract GenMap[K, V].DeleteFunc(m, f) ()
  prop C08
  requires f != nil
  callback f pure
  modifies GenMap[K, V] @ m
  ensures forall k K {k in m} {m[k]} :: (k in m <==> old(k in m) && !app(f, k, old(m[k]))) && (k in m ==> m[k] == old(m[k]))
  loop inv forall k K {k in m} {m[k]} {visited[k]} :: (k in m <==> old(k in m) && !(visited[k] && app(f, k, old(m[k])))) && (k in m ==> m[k] == old(m[k]))
