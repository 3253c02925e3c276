package ring

// Every initialised ring has a representative h: h.at[0..h.n-1] is the cycle,
// head and pos locate an element in it.  A zero Ring (next == nil) is a
// one-element ring that is linked to itself on first use.
ghost field Ring.head *Ring[T]
ghost field Ring.pos int
ghost field Ring.n int
ghost field Ring.at [int]*Ring[T]

def wrap(x, n) := x >= n ? x - n : x
def cyc(h) := h != nil && h.n >= 1
  && (forall i int {h.at[i].next} {h.at[i].prev} :: 0 <= i < h.n ==> h.at[i].next == h.at[i == h.n - 1 ? 0 : i + 1] && h.at[i].prev == h.at[i == 0 ? h.n - 1 : i - 1])
  && (forall i int {h.at[i]} :: 0 <= i < h.n ==> h.at[i] != nil && alloc(h.at[i]) && h.at[i].head == h && h.at[i].pos == i)
  && (forall x *Ring {x.head} {x.pos} :: x.head == h ==> 0 <= x.pos < h.n && h.at[x.pos] == x)
// the representative of a ring belongs to it
def heads() := forall x *Ring {x.head} :: x.head != nil ==> x.head.head == x.head
def wf(r) := heads() && (r.next == nil ==> r.head == nil && (forall x *Ring {x.head} :: x.head != r)) && (r.next != nil ==> alloc(r.head) && cyc(r.head))
def size(r) := r.next == nil ? 1 : r.head.n
// the element k steps (0 <= k < size) after r
def elt(r, k) := r.next == nil ? r : r.head.at[wrap(r.pos + k, r.head.n)]
def same1(r, s) := r == s || (r.head != nil && r.head == s.head)
def others(r) := forall x *Ring {x.next} {x.prev} {x.head} {x.pos} :: old(alloc(x)) && x != r && (x.head == nil || old(x.head) != old(r.head)) && old(x.head) != old(r.head) ==>
    x.next == old(x.next) && x.prev == old(x.prev) && x.head == old(x.head) && x.pos == old(x.pos)
def inited(r) := r.next != nil && (old(r.next) == nil ==> r.head == r && r.pos == 0 && r.n == 1)
def keeps() := forall x *Ring {x.next} {x.prev} {x.head} {x.pos} :: old(alloc(x)) && old(x.next) != nil ==>
    x.next == old(x.next) && x.prev == old(x.prev) && x.head == old(x.head) && x.pos == old(x.pos)

contract (*Ring[T]).Next(r) (x)
  option noalloc
  prop C04
  requires wf(r)
  modifies Ring.next @ r, Ring.prev @ r, Ring.head @ r, Ring.pos @ r, Ring.n @ r, Ring.at @ r
  ghost if (old(r.next) == nil) then r.head := r
  ghost if (old(r.next) == nil) then r.pos := 0
  ghost if (old(r.next) == nil) then r.n := 1
  ghost if (old(r.next) == nil) then r.at := r.at[0 := r]
  ensures wf: wf(r) && r.next != nil
  ensures step: x == old(elt(r, 1)) && x == elt(r, 1) && size(r) == old(size(r))
  ensures inverse: x.prev == r
  ensures initialised: old(r.next) != nil ==> same(Ring.next) && same(Ring.prev) && same(Ring.head) && same(Ring.pos) && same(Ring.n) && same(Ring.at)

contract (*Ring[T]).Prev(r) (x)
  option noalloc
  prop C04
  requires wf(r)
  modifies Ring.next @ r, Ring.prev @ r, Ring.head @ r, Ring.pos @ r, Ring.n @ r, Ring.at @ r
  ghost if (old(r.next) == nil) then r.head := r
  ghost if (old(r.next) == nil) then r.pos := 0
  ghost if (old(r.next) == nil) then r.n := 1
  ghost if (old(r.next) == nil) then r.at := r.at[0 := r]
  ensures wf: wf(r) && r.next != nil
  ensures step: x == old(elt(r, size(r) - 1)) && x == elt(r, size(r) - 1) && size(r) == old(size(r))
  ensures inverse: x.next == r
  ensures initialised: old(r.next) != nil ==> same(Ring.next) && same(Ring.prev) && same(Ring.head) && same(Ring.pos) && same(Ring.n) && same(Ring.at)

// emod(a, n): the position a steps from position 0 on a cycle of n elements
func emod(int, int) int
axiom emod: forall a int, n int {emod(a, n)} :: n >= 1 ==> 0 <= emod(a, n) < n && (0 <= a < n ==> emod(a, n) == a)
axiom emod: forall a int, b int, n int {emod(a, n), emod(b, n)} :: n >= 1 && b == a + 1 ==> emod(b, n) == (emod(a, n) == n - 1 ? 0 : emod(a, n) + 1)

axiom emod: forall a int, b int, c int, n int {emod(a, n), emod(b, n), emod(c, n)} :: n >= 1 && c == a + b ==> emod(c, n) == wrap(emod(a, n) + emod(b, n), n)

contract (*Ring[T]).Move(r, n) (x)
  option noalloc
  prop C04
  requires wf(r)
  modifies Ring.next @ r, Ring.prev @ r, Ring.head @ r, Ring.pos @ r, Ring.n @ r, Ring.at @ r
  ghost if (old(r.next) == nil) then r.head := r
  ghost if (old(r.next) == nil) then r.pos := 0
  ghost if (old(r.next) == nil) then r.n := 1
  ghost if (old(r.next) == nil) then r.at := r.at[0 := r]
  ensures wf: wf(r) && r.next != nil
  ensures step: x == r.head.at[emod(r.pos + n, r.head.n)] && size(r) == old(size(r))
  ensures member: x != nil && x.head == r.head && x.next != nil && alloc(x) && (old(r.next) == nil ==> x == r && r.head == r)
  ensures initialised: old(r.next) != nil ==> same(Ring.next) && same(Ring.prev) && same(Ring.head) && same(Ring.pos) && same(Ring.n) && same(Ring.at)
  loop inv $x:*Ring :: $x == r.head.at[emod(r.pos + it, r.head.n)]
  loop inv $x:*Ring :: $x == r.head.at[emod(r.pos - it, r.head.n)]
  loop inv $x:*Ring :: $x == r.head.at[emod(r.pos + (n < 0 ? n : it), r.head.n)]
  loop inv $x:*Ring :: $x == r.head.at[emod(r.pos + (n > 0 ? n : 0 - it), r.head.n)]
  loop inv $k:int :: $k <= (n < 0 ? 0 : n)
  loop inv $k:int :: $k >= (n < 0 ? n : 0)
  loop inv $k:int, $x:*Ring :: $x == r.head.at[emod(r.pos + n - $k, r.head.n)]
  loop inv $k:int, $x:*Ring :: $x == r.head.at[emod(r.pos - n + $k, r.head.n)]

contract New[T](n) (r)
  prop C04
  requires heads()
  requires closed: forall x *Ring {x.head} :: alloc(x) ==> x.head == nil || alloc(x.head)
  modifies new Ring, new Ring.head, new Ring.pos, new Ring.n, new Ring.at
  ghost if (n == 1) then r.at := r.at[0 := r]
  ghost if (n > 1) then r.at := r.prev.at
  ghost if (n > 0) then r.n := n
  ghost if (n > 0) then r.pos := 0
  ghost if (n > 0) then Ring.head := [x *Ring {x.pos}] 0 <= x.pos < n && r.at[x.pos] == x ? r : (old(alloc(x)) ? old(x.head) : nil)
  ensures none: n <= 0 ==> r == nil
  ensures made: n > 0 ==> r != nil && fresh(r) && r.next != nil && size(r) == n
  ensures wf: n > 0 ==> wf(r)
  ensures zero: n > 0 ==> (forall i int {r.head.at[i]} :: 0 <= i < n ==> fresh(r.head.at[i]) && r.head.at[i].Value == zero(T))
  // at the head of an iteration p.at lists the elements made so far, p last
  loop ghost $p:*Ring :: $p.at := (it == 1 ? $p'.at[0 := $p'] : $p'.at)[it := $p]
  loop ghost $p:*Ring :: $p.pos := it
  loop inv $k:int :: $k >= 1
  loop inv $k:int :: $k <= n
  loop inv $p:*Ring, %r:*Ring :: it == 0 ==> $p == %r
  loop inv $p:*Ring, %r:*Ring :: it >= 1 ==> $p.at[0] == %r && $p.at[it] == $p
  loop inv $p:*Ring :: fresh($p) && $p != nil && $p.Value == zero(T)
  loop inv $p:*Ring :: it >= 1 ==> (forall i int {$p.at[i]} :: 0 <= i <= it ==> $p.at[i] != nil && fresh($p.at[i]) && $p.at[i].Value == zero(T))
  loop inv $p:*Ring, %r:*Ring :: it >= 1 ==> (forall i int {$p.at[i]} :: 1 <= i <= it ==> $p.at[i].pos == i && $p.at[i] != %r)
  loop inv $p:*Ring :: it >= 1 ==> (forall i int {$p.at[i].next} :: 0 <= i < it ==> $p.at[i].next == $p.at[i + 1])
  loop inv $p:*Ring :: it >= 1 ==> (forall i int {$p.at[i].prev} :: 1 <= i <= it ==> $p.at[i].prev == $p.at[i - 1])

// Link.  All macros speak about the rings as they were before the call.
def inRing(x, r) := x == r || (old(r.head) != nil && old(x.head) == old(r.head))
def ofs(x, r) := x == r ? 0 : (old(x.pos) > old(r.pos) ? old(x.pos) - old(r.pos) : old(x.pos) - old(r.pos) + old(size(r)))
def dist(r, s) := s == r ? old(size(r)) : ofs(s, r)
def two(r, s) := s != nil && !inRing(s, r)
def one(r, s) := s != nil && inRing(s, r)
def joinAt(r, s, i) := i == 0 ? r : (i <= old(size(s)) ? old(elt(s, i - 1)) : old(elt(r, i - size(s))))
def cutAt(r, d, i) := i == 0 ? r : old(elt(r, d + i - 1))
def outside(r, s) := forall y *Ring {y.next} {y.prev} {y.head} {y.pos} :: !inRing(y, r) && (s == nil || !inRing(y, s)) ==> y.next == old(y.next) && y.prev == old(y.prev) && y.head == old(y.head) && y.pos == old(y.pos)

contract (*Ring[T]).Link(r, s) (x)
  option noalloc
  prop C04
  requires wf(r)
  requires s != nil ==> wf(s)
  modifies Ring.next, Ring.prev, Ring.head, Ring.pos, Ring.n @ r|s|r.next, Ring.at @ r|s|r.next
  ghost if (s == nil && old(r.next) == nil) then r.pos := 0
  ghost if (s == nil && old(r.next) == nil) then r.head := r
  ghost if (s == nil && old(r.next) == nil) then r.n := 1
  ghost if (s == nil && old(r.next) == nil) then r.at := r.at[0 := r]
  ghost if (two(r, s)) then r.at := [i int] joinAt(r, s, i)
  ghost if (two(r, s)) then r.n := old(size(r)) + old(size(s))
  ghost if (two(r, s)) then Ring.pos := [y *Ring {y.head}] y == r ? 0 : (inRing(y, s) ? ofs(y, s) + 1 : (inRing(y, r) ? ofs(y, r) + old(size(s)) : old(y.pos)))
  ghost if (two(r, s)) then Ring.head := [y *Ring {y.pos}] inRing(y, r) || inRing(y, s) ? r : old(y.head)
  ghost if (one(r, s) && dist(r, s) > 1) then x.at := [i int] old(elt(r, i + 1))
  ghost if (one(r, s) && dist(r, s) > 1) then x.n := dist(r, s) - 1
  ghost if (one(r, s)) then r.at := [i int] cutAt(r, dist(r, s), i)
  ghost if (one(r, s)) then r.n := old(size(r)) - dist(r, s) + 1
  ghost if (one(r, s)) then Ring.pos := [y *Ring {y.head}] inRing(y, r) ? (y == r ? 0 : (ofs(y, r) >= dist(r, s) ? ofs(y, r) - dist(r, s) + 1 : ofs(y, r) - 1)) : old(y.pos)
  ghost if (one(r, s)) then Ring.head := [y *Ring {y.pos}] inRing(y, r) ? (y == r || ofs(y, r) >= dist(r, s) ? r : x) : old(y.head)
  ensures result: x == old(elt(r, 1))
  ensures wf: wf(r) && r.next != nil && wf(x) && (s != nil ==> wf(s) && s.next != nil)
  ensures nothing: s == nil ==> size(r) == old(size(r)) && (old(r.next) != nil ==> same(Ring.next) && same(Ring.prev) && same(Ring.head) && same(Ring.pos) && same(Ring.n) && same(Ring.at))
  ensures joined: two(r, s) ==> r.head == r && r.pos == 0 && r.n == old(size(r)) + old(size(s)) && (forall i int {r.at[i]} :: 0 <= i < r.n ==> r.at[i] == joinAt(r, s, i))
  ensures cut: one(r, s) ==> r.head == r && r.pos == 0 && r.n == old(size(r)) - dist(r, s) + 1 && (forall i int {r.at[i]} :: 0 <= i < r.n ==> r.at[i] == cutAt(r, dist(r, s), i))
  ensures removed: one(r, s) && dist(r, s) > 1 ==> x.head == x && x.pos == 0 && x.n == dist(r, s) - 1 && (forall i int {x.at[i]} :: 0 <= i < x.n ==> x.at[i] == old(elt(r, i + 1)))
  ensures outside: outside(r, s)

// Unlink takes n mod size elements out, starting after r
contract (*Ring[T]).Unlink(r, n) (x)
  option noalloc
  use ring.(*Ring).Link
  prop C04
  requires wf(r)
  modifies Ring.next, Ring.prev, Ring.head, Ring.pos, Ring.n, Ring.at
  lemma size: n > 0 ==> r.head == r && r.pos == 0 && r.n == old(size(r)) - emod(n, old(size(r)))
  lemma n > 0 ==> (forall i int {r.at[i]} :: 0 < i < r.n ==> r.at[i] == old(elt(r, i + emod(n, size(r)))))
  lemma n > 0 ==> r.at[0] == r
  ensures none: n <= 0 ==> x == nil && same(Ring.next) && same(Ring.prev) && same(Ring.head) && same(Ring.pos) && same(Ring.n) && same(Ring.at)
  ensures result: n > 0 ==> x == old(elt(r, 1)) && wf(r) && wf(x) && r.next != nil && x.next != nil
  ensures kept: n > 0 ==> size(r) == old(size(r)) - emod(n, old(size(r))) && (forall i int {r.head.at[i]} :: 0 <= i < size(r) ==> elt(r, i) == (i == 0 ? r : old(elt(r, i + emod(n, size(r))))))
  ensures removed: n > 0 && emod(n, old(size(r))) > 0 ==> size(x) == emod(n, old(size(r))) && (forall i int {x.head.at[i]} :: 0 <= i < size(x) ==> elt(x, i) == old(elt(r, i + 1)))
  ensures outside: forall y *Ring {y.next} :: !inRing(y, r) ==> y.next == old(y.next)
  ensures outside: forall y *Ring {y.prev} :: !inRing(y, r) ==> y.prev == old(y.prev)
  ensures outside: forall y *Ring {y.head} :: !inRing(y, r) ==> y.head == old(y.head)
  ensures outside: forall y *Ring {y.pos} :: !inRing(y, r) ==> y.pos == old(y.pos)

contract (*Ring[T]).Len(r) (n)
  option noalloc
  prop C04
  option nilrecv
  requires r != nil ==> wf(r)
  modifies Ring.next @ r, Ring.prev @ r, Ring.head @ r, Ring.pos @ r, Ring.n @ r, Ring.at @ r
  ghost if (r != nil && old(r.next) == nil) then r.head := r
  ghost if (r != nil && old(r.next) == nil) then r.pos := 0
  ghost if (r != nil && old(r.next) == nil) then r.n := 1
  ghost if (r != nil && old(r.next) == nil) then r.at := r.at[0 := r]
  ensures r == nil ==> n == 0
  ensures wf: r != nil ==> wf(r) && r.next != nil
  ensures count: r != nil ==> n == old(size(r)) && n == size(r)
  loop inv $p:*Ring :: old(r.next) != nil ==> $p == r.head.at[wrap(r.pos + 1 + it, r.head.n)]
  loop inv old(r.next) != nil ==> it < r.head.n
  loop inv $p:*Ring :: old(r.next) == nil ==> $p == r && it == 0
  loop bound old(r.next) != nil ? r.head.n : 1

contract (*Ring[T]).Do(r, f) ()
  prop C04
  option nilrecv
  requires r != nil ==> wf(r)
  requires f != nil
  callback f trace
  modifies trace f, Ring.next @ r, Ring.prev @ r, Ring.head @ r, Ring.pos @ r, Ring.n @ r, Ring.at @ r
  ghost if (r != nil && old(r.next) == nil) then r.head := r
  ghost if (r != nil && old(r.next) == nil) then r.pos := 0
  ghost if (r != nil && old(r.next) == nil) then r.n := 1
  ghost if (r != nil && old(r.next) == nil) then r.at := r.at[0 := r]
  ensures r == nil ==> ncalls(f) == old(ncalls(f))
  ensures wf: r != nil ==> wf(r) && r.next != nil
  ensures count: r != nil ==> ncalls(f) == old(ncalls(f)) + size(r)
  ensures order: r != nil ==> (forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == elt(r, j - old(ncalls(f))).Value)
  loop inv $p:*Ring :: old(r.next) != nil ==> $p == r.head.at[wrap(r.pos + 1 + it, r.head.n)]
  loop inv old(r.next) != nil ==> it < r.head.n
  loop inv $p:*Ring :: old(r.next) == nil ==> $p == r && it == 0
  loop inv ncalls(f) == old(ncalls(f)) + 1 + it
  loop inv old(r.next) != nil ==> (forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == old(elt(r, j - ncalls(f))).Value)
  loop inv old(r.next) == nil ==> it == 0 && callarg(f, old(ncalls(f))) == r.Value
  loop bound old(r.next) != nil ? r.head.n : 1
