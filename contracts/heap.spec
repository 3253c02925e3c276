package heap

// A container is seen as the sequence items[0..n-1]; lt is its (fixed) strict
// weak order on elements.
ghost field Interface.items [int]T
ghost field Interface.n int
func lt[T](Interface[T], T, T) bool
axiom lt: forall h Interface[T], a T, b T {lt(h, a, b)} :: lt(h, a, b) ==> !lt(h, b, a)
axiom lt: forall h Interface[T], a T, b T, c T {lt(h, a, b), lt(h, b, c)} {lt(h, a, b), lt(h, a, c)} {lt(h, a, c), lt(h, b, c)} :: !lt(h, a, b) && !lt(h, b, c) ==> !lt(h, a, c)

func par(int) int
axiom par: forall j int {par(j)} :: 2 * par(j) <= j - 1 && j - 1 < 2 * par(j) + 2

// heap order of the first n elements of a
func hord[T](Interface[T], [int]T, int) bool
axiom hord: forall h Interface[T], a [int]T, n int {hord(h, a, n)} :: hord(h, a, n) <==> (forall j int {par(j)} :: 1 <= j < n ==> !lt(h, a[j], a[par(j)]))
theorem hord by i hint par(i): forall h Interface[T], a [int]T, n int, i int {hord(h, a, n), a[i]} :: hord(h, a, n) && 0 <= i < n ==> !lt(h, a[i], a[0])

// cnt(a, n, v): how often v occurs in a[0..n-1]
func cnt[T]([int]T, int, T) int
axiom cnt: forall a [int]T, n int, v T {cnt(a, n, v)} :: n <= 0 ==> cnt(a, n, v) == 0
axiom cnt: forall a [int]T, n int, m int, v T {cnt(a, n, v), cnt(a, m, v)} :: 0 <= n && m == n + 1 ==> cnt(a, m, v) == cnt(a, n, v) + (a[n] == v ? 1 : 0)
theorem cnt by n hint cnt(a, n - 1, v), cnt(a[i := x], n - 1, v): forall a [int]T, n int, i int, x T, v T {cnt(a[i := x], n, v)} :: 0 <= i && 0 <= n ==> cnt(a[i := x], n, v) == cnt(a, n, v) + (i < n ? (x == v ? 1 : 0) - (a[i] == v ? 1 : 0) : 0)

theorem cnt by n hint cnt(a, n - 1, v): forall a [int]T, n int, v T {cnt(a, n, v)} :: cnt(a, n, v) >= 0
theorem cnt by n hint cnt(a, n - 1, v): forall a [int]T, n int, i int, v T {cnt(a, n, v), a[i]} :: 0 <= i < n && a[i] == v ==> cnt(a, n, v) >= 1

def kept(h) := forall v T {cnt(h.items, h.n, v)} :: cnt(h.items, h.n, v) == old(cnt(h.items, h.n, v))

extern Interface[T].Len(h) (r)
  ensures r == h.n && r >= 0

extern Interface[T].Less(h, i, j) (r)
  requires 0 <= i < h.n && 0 <= j < h.n
  ensures r <==> lt(h, h.items[i], h.items[j])

extern Interface[T].Swap(h, i, j) ()
  requires 0 <= i < h.n && 0 <= j < h.n
  modifies Interface.items @ h
  ensures h.items == old(h.items)[i := old(h.items[j])][j := old(h.items[i])]

extern Interface[T].Push(h, x) ()
  modifies Interface.items @ h, Interface.n @ h
  ensures h.n == old(h.n) + 1 && h.items == old(h.items)[old(h.n) := x]

extern Interface[T].Pop(h) (x)
  requires h.n >= 1
  modifies Interface.n @ h
  ensures h.n == old(h.n) - 1 && x == h.items[h.n]

// sift down at i, started at i0, in the first m elements
def dn(h, i, i0, m) := 0 <= i0 <= i
  && (forall j int {par(j)} :: 1 <= j < m && par(j) != i && (j != i0 || i != i0) ==> !lt(h, h.items[j], h.items[par(j)]))
  && (i >= 1 ==> (forall j int {h.items[j]} :: 1 <= j < m && par(j) == i ==> !lt(h, h.items[j], h.items[par(i)])))
// the same when only the elements from i0 on are ordered yet
def dnI(h, i, i0, m) := 0 <= i0 <= i && (i > i0 ==> par(i) >= i0)
  && (forall j int {par(j)} :: 1 <= j < m && i0 <= par(j) && par(j) != i ==> !lt(h, h.items[j], h.items[par(j)]))
  && (i > i0 ==> (forall j int {h.items[j]} :: 1 <= j < m && par(j) == i ==> !lt(h, h.items[j], h.items[par(i)])))
// sift up at j
def up(h, k, m) := 0 <= k < m
  && (forall j int {par(j)} :: 1 <= j < m && j != k ==> !lt(h, h.items[j], h.items[par(j)]))
  && (k >= 1 ==> (forall j int {h.items[j]} :: 1 <= j < m && par(j) == k ==> !lt(h, h.items[j], h.items[par(k)])))

contract Init[T](h) ()
  prop C05
  requires h != nil
  modifies Interface.items @ h
  ensures order: hord(h, h.items, h.n)
  ensures content: h.n == old(h.n) && kept(h)
  loop inv kept(h) && h.n == old(h.n)
  loop inv $i:int :: -1 <= $i && (forall j int {par(j)} :: 1 <= j < h.n && par(j) > $i ==> !lt(h, h.items[j], h.items[par(j)]))
  loop inv $i:int :: $i >= $i0 + it && ($i < h.n || it == 0)
  loop bound h.n + 1
  loop inv $i:int, %k:int :: dnI(h, $i, %k, h.n)

contract Push[T](h, x) ()
  prop C05
  requires h != nil
  requires hord(h, h.items, h.n) && h.n >= 0
  modifies Interface.items @ h, Interface.n @ h
  ensures order: hord(h, h.items, h.n)
  ensures content: h.n == old(h.n) + 1 && (forall v T {cnt(h.items, h.n, v)} :: cnt(h.items, h.n, v) == old(cnt(h.items, h.n, v)) + (v == x ? 1 : 0))
  loop inv h.n == old(h.n) + 1 && (forall v T {cnt(h.items, h.n, v)} :: cnt(h.items, h.n, v) == old(cnt(h.items, h.n, v)) + (v == x ? 1 : 0))
  loop bound h.n + 1
  loop inv $j:int :: $j + it <= $j0
  loop inv $j:int :: up(h, $j, h.n)

contract Pop[T](h) (x)
  prop C05
  requires h != nil
  requires hord(h, h.items, h.n) && h.n >= 1
  modifies Interface.items @ h, Interface.n @ h
  ensures order: hord(h, h.items, h.n)
  ensures least: x == old(h.items[0]) && (forall i int {old(h.items[i])} :: 0 <= i < old(h.n) ==> !lt(h, old(h.items)[i], x))
  ensures content: h.n == old(h.n) - 1 && (forall v T {cnt(h.items, h.n, v)} :: cnt(h.items, h.n, v) == old(cnt(h.items, h.n, v)) - (v == x ? 1 : 0))
  loop inv kept(h) && h.n == old(h.n) && h.items[h.n - 1] == old(h.items[0])
  loop inv $i:int :: $i >= $i0 + it && ($i < h.n || it == 0)
  loop bound h.n + 1
  loop inv $i:int :: dn(h, $i, $i0, h.n - 1)

contract Remove[T](h, i) (x)
  prop C05
  requires h != nil
  requires hord(h, h.items, h.n) && 0 <= i < h.n
  modifies Interface.items @ h, Interface.n @ h
  ensures order: hord(h, h.items, h.n)
  ensures result: x == old(h.items[i])
  ensures content: h.n == old(h.n) - 1 && (forall v T {cnt(h.items, h.n, v)} :: cnt(h.items, h.n, v) == old(cnt(h.items, h.n, v)) - (v == x ? 1 : 0))
  loop inv kept(h) && h.n == old(h.n) && h.items[h.n - 1] == old(h.items[i])
  loop inv $i:int :: $i >= $i0 + it && ($i < h.n || it == 0)
  loop bound h.n + 1
  loop inv $i:int :: dn(h, $i, $i0, h.n - 1)
  loop bound h.n + 1
  loop inv $j:int :: $j + it <= $j0
  loop inv $j:int :: up(h, $j, h.n - 1)

contract Fix[T](h, i) ()
  prop C05
  requires h != nil
  requires 0 <= i < h.n
  requires forall j int {par(j)} :: 1 <= j < h.n && par(j) != i && j != i ==> !lt(h, h.items[j], h.items[par(j)])
  requires i >= 1 ==> (forall j int {h.items[j]} :: 1 <= j < h.n && par(j) == i ==> !lt(h, h.items[j], h.items[par(i)]))
  modifies Interface.items @ h
  ensures order: hord(h, h.items, h.n)
  ensures content: h.n == old(h.n) && kept(h)
  loop inv kept(h) && h.n == old(h.n)
  loop inv $i:int :: $i >= $i0 + it && ($i < h.n || it == 0)
  loop bound h.n + 1
  loop inv $i:int :: dn(h, $i, $i0, h.n)
  loop bound h.n + 1
  loop inv $j:int :: $j + it <= $j0
  loop inv $j:int :: up(h, $j, h.n)

// The shipped containers: the sequence is the slice, the order is < and >.
contract MinHeap[T].Len(h) (r)
  prop C05
  ensures r == len(h)

contract MinHeap[T].Less(h, i, j) (r)
  prop C05
  requires 0 <= i < len(h) && 0 <= j < len(h)
  ensures order: r <==> h[i] < h[j]

contract MinHeap[T].Swap(h, i, j) ()
  prop C05
  requires 0 <= i < len(h) && 0 <= j < len(h)
  modifies []T @ h
  ensures swapped: forall k int {h[k]} :: 0 <= k < len(h) ==> h[k] == (k == i ? old(h[j]) : (k == j ? old(h[i]) : old(h[k])))

contract (*MinHeap[T]).Push(h, x) ()
  prop C05
  modifies cell MinHeap[T] @ h, []T @ *h
  ensures appended: len(*h) == old(len(*h)) + 1 && (*h)[old(len(*h))] == x
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < old(len(*h)) ==> (*h)[k] == old((*h)[k])

contract (*MinHeap[T]).Pop(h) (x)
  prop C05
  requires len(*h) >= 1
  modifies cell MinHeap[T] @ h
  ensures last: len(*h) == old(len(*h)) - 1 && x == old((*h)[len(*h) - 1])
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < len(*h) ==> (*h)[k] == old((*h)[k])

contract MaxHeap[T].Len(h) (r)
  prop C05
  ensures r == len(h)

contract MaxHeap[T].Less(h, i, j) (r)
  prop C05
  requires 0 <= i < len(h) && 0 <= j < len(h)
  ensures order: r <==> h[i] > h[j]

contract MaxHeap[T].Swap(h, i, j) ()
  prop C05
  requires 0 <= i < len(h) && 0 <= j < len(h)
  modifies []T @ h
  ensures swapped: forall k int {h[k]} :: 0 <= k < len(h) ==> h[k] == (k == i ? old(h[j]) : (k == j ? old(h[i]) : old(h[k])))

contract (*MaxHeap[T]).Push(h, x) ()
  prop C05
  modifies cell MaxHeap[T] @ h, []T @ *h
  ensures appended: len(*h) == old(len(*h)) + 1 && (*h)[old(len(*h))] == x
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < old(len(*h)) ==> (*h)[k] == old((*h)[k])

contract (*MaxHeap[T]).Pop(h) (x)
  prop C05
  requires len(*h) >= 1
  modifies cell MaxHeap[T] @ h
  ensures last: len(*h) == old(len(*h)) - 1 && x == old((*h)[len(*h) - 1])
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < len(*h) ==> (*h)[k] == old((*h)[k])
