package pqueue

// The order of the two containers: what their Less methods (below) compute.
def before(h, a, b) := (istype(h, *minqueue[T]) && a.priority < b.priority) || (istype(h, *maxqueue[T]) && a.priority > b.priority)
def link() := forall h heap.Interface[*Item[T]], a *Item, b *Item {lt(h, a, b)} :: a != nil && b != nil && (istype(h, *minqueue[T]) || istype(h, *maxqueue[T])) ==> (lt(h, a, b) <==> before(h, a, b))
// A queue is seen through the sequence of its container (heap.Interface).
def size(pq) := pq.heap.n
def has(pq, v) := cnt(pq.heap.items, pq.heap.n, v)
def wf(pq) := pq.heap != nil && (istype(pq.heap, *minqueue[T]) || istype(pq.heap, *maxqueue[T]))
  && pq.heap.n >= 0 && hord(pq.heap, pq.heap.items, pq.heap.n)
  && (forall v Ref {cnt(pq.heap.items, pq.heap.n, v)} :: cnt(pq.heap.items, pq.heap.n, v) >= 1 ==> v != nil && alloc(v, *Item[T]))

contract NewMinPriorityQueue[T]() (pq)
  prop C06
  modifies new PQueue, new Item, heap.Interface[*Item[T]].n
  ghost pq.heap.n := len(*dynval(pq.heap, *minqueue[T]))
  ensures kind: istype(pq.heap, *minqueue[T])
  ensures fresh: fresh(pq) && fresh(dynval(pq.heap, *minqueue[T]))
  ensures empty: wf(pq) && size(pq) == 0
  ensures others: forall h heap.Interface[*Item[T]] {h.n} :: h != pq.heap ==> h.n == old(h.n)

contract NewMaxPriorityQueue[T]() (pq)
  prop C06
  modifies new PQueue, new Item, heap.Interface[*Item[T]].n
  ghost pq.heap.n := len(*dynval(pq.heap, *maxqueue[T]))
  ensures kind: istype(pq.heap, *maxqueue[T])
  ensures fresh: fresh(pq) && fresh(dynval(pq.heap, *maxqueue[T]))
  ensures empty: wf(pq) && size(pq) == 0
  ensures others: forall h heap.Interface[*Item[T]] {h.n} :: h != pq.heap ==> h.n == old(h.n)

contract (*PQueue[T]).Len(pq) (n)
  prop C06
  requires wf(pq)
  ensures n == size(pq)

contract (*PQueue[T]).Push(pq, priority, value) ()
  prop C06
  requires wf(pq)
  modifies new Item, heap.Interface[*Item[T]].n @ pq.heap, heap.Interface[*Item[T]].items @ pq.heap
  ensures wf: wf(pq)
  ensures added: size(pq) == old(size(pq)) + 1
  ensures entry: exists e *Item :: fresh(e) && e.priority == priority && e.value == value && (forall v Ref {cnt(pq.heap.items, pq.heap.n, v)} :: has(pq, v) == old(has(pq, v)) + (v == e ? 1 : 0))

contract (*PQueue[T]).Pop(pq) (priority, value)
  prop C06
  requires wf(pq) && size(pq) >= 1
  assume link: link()
  modifies heap.Interface[*Item[T]].n @ pq.heap, heap.Interface[*Item[T]].items @ pq.heap
  lemma old(has(pq, pq.heap.items[0])) >= 1
  lemma L1: forall i int {old(pq.heap.items[i])} :: 0 <= i < old(size(pq)) ==> !lt(pq.heap, old(pq.heap.items)[i], old(pq.heap.items)[0])
  lemma L0: forall i int {old(pq.heap.items[i])} :: 0 <= i < old(size(pq)) ==> old(has(pq, pq.heap.items[i])) >= 1
  lemma L2: forall i int {old(pq.heap.items[i])} :: 0 <= i < old(size(pq)) ==> old(pq.heap.items)[i] != nil && old(alloc(pq.heap.items[i]))
  lemma L3: forall i int {old(pq.heap.items[i])} :: 0 <= i < old(size(pq)) ==> !before(pq.heap, old(pq.heap.items)[i], old(pq.heap.items)[0])
  ensures wf: wf(pq)
  ensures entry: priority == old(pq.heap.items[0].priority) && value == old(pq.heap.items[0].value)
  ensures removed: size(pq) == old(size(pq)) - 1 && old(has(pq, pq.heap.items[0])) >= 1 && (forall v Ref {cnt(pq.heap.items, pq.heap.n, v)} :: has(pq, v) == old(has(pq, v)) - (v == old(pq.heap.items[0]) ? 1 : 0))
  ensures extreme: forall i int {old(pq.heap.items[i])} :: 0 <= i < old(size(pq)) ==> (istype(pq.heap, *minqueue[T]) ==> priority <= old(pq.heap.items)[i].priority) && (istype(pq.heap, *maxqueue[T]) ==> priority >= old(pq.heap.items)[i].priority)

contract minqueue[T].Len(h) (r)
  prop C06
  ensures r == len(h)

contract minqueue[T].Less(h, i, j) (r)
  prop C06
  requires 0 <= i < len(h) && 0 <= j < len(h)
  requires h[i] != nil && h[j] != nil
  ensures order: r <==> h[i].priority < h[j].priority

contract minqueue[T].Swap(h, i, j) ()
  prop C06
  requires 0 <= i < len(h) && 0 <= j < len(h)
  modifies []*Item[T] @ h
  ensures swapped: forall k int {h[k]} :: 0 <= k < len(h) ==> h[k] == (k == i ? old(h[j]) : (k == j ? old(h[i]) : old(h[k])))

contract (*minqueue[T]).Push(h, x) ()
  prop C06
  modifies cell minqueue[T] @ h, []*Item[T] @ *h
  ensures appended: len(*h) == old(len(*h)) + 1 && (*h)[old(len(*h))] == x
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < old(len(*h)) ==> (*h)[k] == old((*h)[k])

contract (*minqueue[T]).Pop(h) (x)
  prop C06
  requires len(*h) >= 1
  modifies cell minqueue[T] @ h
  ensures last: len(*h) == old(len(*h)) - 1 && x == old((*h)[len(*h) - 1])
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < len(*h) ==> (*h)[k] == old((*h)[k])

contract maxqueue[T].Len(h) (r)
  prop C06
  ensures r == len(h)

contract maxqueue[T].Less(h, i, j) (r)
  prop C06
  requires 0 <= i < len(h) && 0 <= j < len(h)
  requires h[i] != nil && h[j] != nil
  ensures order: r <==> h[i].priority > h[j].priority

contract maxqueue[T].Swap(h, i, j) ()
  prop C06
  requires 0 <= i < len(h) && 0 <= j < len(h)
  modifies []*Item[T] @ h
  ensures swapped: forall k int {h[k]} :: 0 <= k < len(h) ==> h[k] == (k == i ? old(h[j]) : (k == j ? old(h[i]) : old(h[k])))

contract (*maxqueue[T]).Push(h, x) ()
  prop C06
  modifies cell maxqueue[T] @ h, []*Item[T] @ *h
  ensures appended: len(*h) == old(len(*h)) + 1 && (*h)[old(len(*h))] == x
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < old(len(*h)) ==> (*h)[k] == old((*h)[k])

contract (*maxqueue[T]).Pop(h) (x)
  prop C06
  requires len(*h) >= 1
  modifies cell maxqueue[T] @ h
  ensures last: len(*h) == old(len(*h)) - 1 && x == old((*h)[len(*h) - 1])
  ensures rest: forall k int {(*h)[k]} :: 0 <= k < len(*h) ==> (*h)[k] == old((*h)[k])
