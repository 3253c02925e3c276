package set

contract New[T]() (s)
  prop C07
  ensures fresh-empty: fresh(s) && s != nil && (forall k T {k in s} :: !(k in s)) && len(s) == 0

contract Set[T].Len(s) (n)
  prop C07
  ensures n == len(s)

contract Set[T].Contain(s, v) (b)
  prop C07
  ensures b <==> v in s

contract Set[T].Insert(s, v) (b)
  prop C07
  requires s != nil
  modifies Set[T] @ s
  ensures new-iff-absent: b <==> !old(v in s)
  ensures membership: forall k T {k in s} :: k in s <==> (old(k in s) || k == v)
  ensures size: len(s) == old(len(s)) + (b ? 1 : 0)

contract Set[T].Remove(s, v) (b)
  prop C07
  modifies Set[T] @ s
  ensures b <==> old(v in s)
  ensures membership: forall k T {k in s} :: k in s <==> (old(k in s) && k != v)
  ensures size: len(s) == old(len(s)) - (b ? 1 : 0)

contract Set[T].IsSubSet(s, t) (b)
  prop C07
  ensures b <==> (forall k T {k in s} :: k in s ==> k in t)
  loop inv %b:bool :: %b
  loop inv %b:bool :: !%b
  loop inv forall k T {visited[k]} :: visited[k] ==> k in t
  loop inv $n:int :: $n == it

contract Set[T].Slice(s) (r)
  prop C07
  ensures len(r) == len(s)
  ensures members: forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] in s
  ensures distinct: forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] != r[j]
  ensures fresh(r)
  ensures all: forall k T {k in s} :: k in s ==> (exists i int {r[i]} :: 0 <= i < len(r) && r[i] == k)
  loop inv $r:[]T :: len($r) == it && fresh($r) && cap($r) >= len(s)
  loop inv $r:[]T :: len($r) == it && (it > 0 ==> fresh($r))
  loop inv %r:[]T :: len(%r) == len(s) && fresh(%r)
  loop inv %r:[]T :: forall k T {visited[k]} :: visited[k] ==> (exists i int {%r[i]} :: 0 <= i < it && %r[i] == k)
  loop inv %r:[]T :: forall i int {%r[i]} :: 0 <= i < it ==> %r[i] in s && visited[%r[i]]
  loop inv %r:[]T :: forall i int, j int {%r[i], %r[j]} :: 0 <= i < j < it ==> %r[i] != %r[j]

contract Set[T].Clone(s) (c)
  prop C07
  ensures c == nil <==> s == nil
  ensures s != nil ==> fresh(c)
  ensures forall k T {k in c} {k in s} :: k in c <==> k in s
  ensures len(c) == len(s)
  loop inv %c:Set[T] :: fresh(%c) && (forall k T {k in %c} :: k in %c <==> visited[k])
  loop inv %c:Set[T] :: fresh(%c) && len(%c) == it

contract Set[T].Push(s, vs) (r)
  prop C07
  requires s != nil || len(vs) == 0
  modifies Set[T] @ s
  ensures r == s
  ensures forall k T {k in s} :: k in s <==> (old(k in s) || (exists i int {vs[i]} :: 0 <= i < len(vs) && vs[i] == k))
  loop inv forall k T {k in s} :: k in s <==> (old(k in s) || (exists i int {vs[i]} :: 0 <= i < it && vs[i] == k))

contract Set[T].IsEmpty(s) (b)
  prop C07
  ensures b <==> (forall k T {k in s} :: !(k in s))

contract Set[T].Clear(s) (r)
  prop C07
  modifies Set[T] @ s
  ensures r == s && len(s) == 0 && (forall k T {k in s} :: !(k in s))
  loop inv forall k T {k in s} {visited[k]} :: k in s ==> old(k in s) && !visited[k]

contract Set[T].CopyFrom(s, t) (r)
  prop C07
  requires s != nil || len(t) == 0
  modifies Set[T] @ s
  ensures r == s
  ensures forall k T {k in s} :: k in s <==> (old(k in s) || old(k in t))
  loop inv forall k T {k in s} :: k in s <==> (old(k in s) || visited[k])

contract Set[T].ContainAndRemove(s, v) (b)
  prop C07
  modifies Set[T] @ s
  ensures b <==> old(v in s)
  ensures membership: forall k T {k in s} :: k in s <==> (old(k in s) && k != v)
  ensures size: len(s) == old(len(s)) - (b ? 1 : 0)

contract Set[T].Equal(s, t) (b)
  prop C07
  ensures b <==> (forall k T {k in s} {k in t} :: k in s <==> k in t)
  loop inv forall k T {visited[k]} :: visited[k] ==> k in t
  loop inv forall k T {visited[k]} :: visited[k] ==> k in s
  loop inv %b:bool :: %b
  loop inv %b:bool :: !%b
  lemma subset: (forall k T {k in s} {k in t} :: k in s ==> k in t) && len(s) == len(t) ==> dom(s) == dom(t)

contract Set[T].Range(s, f) ()
  prop C07
  requires f != nil
  callback f trace
  modifies trace f
  ensures members: forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) in s
  ensures once: forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  ensures stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures all: ncalls(f) == old(ncalls(f)) + len(s) || (ncalls(f) > old(ncalls(f)) && !callres(f, ncalls(f) - 1))
  ensures ncalls(f) <= old(ncalls(f)) + len(s)
  loop inv ncalls(f) == old(ncalls(f)) + it
  loop inv forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) in s && visited[callarg(f, j)]
  loop inv forall i int, j int {callarg(f, i), callarg(f, j)} :: old(ncalls(f)) <= i < j < ncalls(f) ==> callarg(f, i) != callarg(f, j)
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)

contract Set[T].IsSupperSet(s, t) (b)
  prop C07
  ensures b <==> (forall k T {k in t} :: k in t ==> k in s)
  loop inv %b:bool :: %b
  loop inv %b:bool :: !%b
  loop inv forall k T {visited[k]} :: visited[k] ==> k in s

contract Set[T].Difference(s, t) (d)
  prop C07
  modifies new Set[T]
  ensures fresh(d) && (forall k T {k in d} {k in s} {k in t} :: k in d <==> (k in s && !(k in t)))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (visited[k] && !(k in t)))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (k in s && !visited[k]))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (k in s && !(visited[k] && k in t)))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> visited[k])

contract Set[T].SymmetricDifference(s, t) (d)
  prop C07
  modifies new Set[T]
  ensures fresh(d) && (forall k T {k in d} {k in s} {k in t} :: k in d <==> ((k in s && !(k in t)) || (k in t && !(k in s))))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (visited[k] && !(k in t)))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> ((k in s && !(k in t)) || (visited[k] && !(k in s))))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> visited[k])
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> ((k in s && !visited[k]) || (visited[k] && !(k in s))))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> ((k in t && !visited[k]) || (visited[k] && !(k in t))))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> ((k in t && !(k in s)) || (visited[k] && !(k in t))))

contract Set[T].Intersection(s, t) (d)
  prop C07
  modifies new Set[T]
  ensures fresh(d) && (forall k T {k in d} {k in s} {k in t} :: k in d <==> (k in s && k in t))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (visited[k] && k in t))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (visited[k] && k in s && k in t))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (visited[k] && k in s))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> (k in s && !(visited[k] && !(k in t))))
  loop inv %d:Set[T] :: fresh(%d) && (forall k T {k in %d} :: k in %d <==> visited[k])

contract Set[T].Union(s, ts) (u)
  prop C07
  modifies new Set[T]
  ensures fresh(u) && (forall k T {k in u} :: k in u <==> (old(k in s) || (exists i int {ts[i]} :: 0 <= i < len(ts) && old(k in ts[i]))))
  loop inv %u:Set[T] :: fresh(%u) && (forall k T {k in %u} :: k in %u <==> visited[k])
  loop inv %u:Set[T] :: fresh(%u) && (forall k T {k in %u} :: k in %u <==> (old(k in s) || (exists i int {ts[i]} :: 0 <= i < it && old(k in ts[i]))))
  loop inv %u:Set[T] :: fresh(%u) && (forall k T {k in %u} :: k in %u <==> (old(k in s) || visited[k] || (exists i int {ts[i]} :: 0 <= i < it1 && old(k in ts[i]))))
