package dllist

// Representation: at[0] is the sentinel, at[1..len] the elements front to
// back; idx is the position of an element in the list it belongs to.
ghost field Dllist.at [int]*Element[Item]
ghost field Element.idx int

def linked(l, i) := l.at[i].next == l.at[i == l.len ? 0 : i + 1] && l.at[i].prev == l.at[i == 0 ? l.len : i - 1]
def wf(l) := l.len >= 0 && (!l.inited ==> l.len == 0 && l.root.next == nil) && l.root.list == nil
  && (l.inited ==> l.at[0] == &l.root && (forall i int {l.at[i].next} {l.at[i].prev} :: 0 <= i <= l.len ==> linked(l, i)))
  && (l.inited ==> (forall i int {l.at[i]} :: 0 <= i <= l.len ==> alloc(l.at[i])))
  && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i].list == l && l.at[i].idx == i)
  && (forall r *Element {r.list} {r.idx} :: r.list == l ==> 1 <= r.idx <= l.len && l.at[r.idx] == r)

// elements outside l (and the sentinels of other lists) keep their links
def others(l) := forall r *Element {r.next} {r.prev} {r.list} {r.idx} :: old(alloc(r)) && old(r.list) != l && r != &l.root ==>
    r.next == old(r.next) && r.prev == old(r.prev) && r.list == old(r.list) && r.idx == old(r.idx)
def unchanged() := same(Element.next) && same(Element.prev) && same(Element.list) && same(Dllist.len) && same(Dllist.at) && same(Element.idx)

// position arithmetic: moving the element at p to position t; inserting at t
def mvAt(a, i, p, t, e) := i == t ? e : (p <= i < t ? a[i + 1] : (t < i <= p ? a[i - 1] : a[i]))
def mvIdx(k, p, t) := p < k <= t ? k - 1 : (t <= k < p ? k + 1 : k)
def insAt(a, i, t, e) := i == t ? e : (i > t ? a[i - 1] : a[i])
def rmAt(a, i, p) := i >= p ? a[i + 1] : a[i]

contract New[T]() (l)
  prop C01
  modifies new Dllist, new Element, new Dllist.at, new Element.idx
  ghost l.at := l.at[0 := &l.root]
  ensures wf: l != nil && fresh(l) && wf(l)
  ensures empty: l.len == 0

contract (*Dllist[T]).Clear(l) (m)
  prop C01
  requires wf(l)
  option noalloc
  modifies Dllist.len @ l, Dllist.inited @ l, Element.next, Element.prev, Element.list, Dllist.at @ l
  ghost l.at := l.at[0 := &l.root]
  ensures wf: wf(l)
  ensures empty: m == l && l.len == 0 && l.inited
  ensures detached: forall r *Element {r.list} :: old(r.list) == l ==> r.list == nil && r.next == nil && r.prev == nil
  ensures others: others(l)
  loop inv $e:*Element :: $e == (!l.inited ? nil : (it < l.len ? l.at[it + 1] : l.at[0]))
  loop inv it <= l.len
  loop inv forall i int {l.at[i]} :: 1 <= i <= it ==> l.at[i].list == nil && l.at[i].next == nil && l.at[i].prev == nil
  loop inv forall i int {l.at[i]} :: it < i <= l.len ==> l.at[i].list == l && l.at[i].next == old(l.at[i].next)
  loop inv others(l) && l.root.next == old(l.root.next) && l.root.prev == old(l.root.prev) && l.root.list == nil
  loop bound l.len + 1

contract (*Dllist[T]).Len(l) (n)
  prop C01
  option noalloc
  requires wf(l)
  ensures n == l.len && n >= 0

contract (*Dllist[T]).Get(l, i) (e)
  prop C01
  option noalloc
  requires wf(l)
  ensures 0 <= i < l.len ==> e == l.at[i + 1]
  ensures !(0 <= i < l.len) ==> e == nil
  loop inv $e:*Element :: $e == l.at[it + 1] && it <= l.len
  loop inv $e:*Element :: $e == (it == 0 ? l.at[0] : l.at[l.len + 1 - it]) && it <= l.len
  loop inv $e:*Element :: $e == l.at[l.len - it] && it < l.len
  loop inv $k:int, $e:*Element :: $e == l.at[$k + 1] && i <= $k < l.len
  loop inv it <= l.len
  loop inv $i:int :: 0 <= $i <= l.len

contract (*Dllist[T]).Front(l) (e)
  prop C01
  option noalloc
  requires wf(l)
  ensures e == (l.len == 0 ? nil : l.at[1])

contract (*Dllist[T]).Back(l) (e)
  prop C01
  option noalloc
  requires wf(l)
  ensures e == (l.len == 0 ? nil : l.at[l.len])

contract (*Element[T]).Next(e) (r)
  prop C01
  option noalloc
  requires e.list != nil ==> wf(e.list)
  ensures e.list == nil ==> r == nil
  ensures e.list != nil ==> r == (e.idx == e.list.len ? nil : e.list.at[e.idx + 1])

contract (*Element[T]).Prev(e) (r)
  prop C01
  option noalloc
  requires e.list != nil ==> wf(e.list)
  ensures e.list == nil ==> r == nil
  ensures e.list != nil ==> r == (e.idx == 1 ? nil : e.list.at[e.idx - 1])

contract (*Dllist[T]).PushBack(l, v) (e)
  prop C01
  requires wf(l)
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ghost l.at := l.at[0 := &l.root][l.len := e]
  ghost e.idx := l.len
  ensures wf: wf(l)
  ensures e != nil && fresh(e) && e.Value == v && l.len == old(l.len) + 1 && l.at[l.len] == e
  ensures order: forall i int {l.at[i]} :: 1 <= i <= old(l.len) ==> l.at[i] == old(l.at[i])
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)

contract (*Dllist[T]).PushFront(l, v) (e)
  prop C01
  requires wf(l)
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ghost l.at := [i int] i == 0 ? &l.root : insAt(old(l.at), i, 1, e)
  ghost Element.idx := [r *Element {r.list}] r == e ? 1 : (r.list == l ? old(r.idx) + 1 : old(r.idx))
  ensures wf: wf(l)
  ensures e != nil && fresh(e) && e.Value == v && l.len == old(l.len) + 1 && l.at[1] == e
  ensures order: forall i int {l.at[i]} :: 2 <= i <= l.len ==> l.at[i] == old(l.at[i - 1])
  ensures members: forall r *Element {r.list} :: r != e ==> r.list == old(r.list)
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)

contract (*Dllist[T]).InsertBefore(l, v, mark) (e)
  prop C01 C02
  requires wf(l) && mark != nil
  modifies Dllist.len @ l, Element, Dllist.at @ l, Element.idx
  ghost if (old(mark.list) == l) then l.at := [i int] insAt(old(l.at), i, old(mark.idx), e)
  ghost if (old(mark.list) == l) then Element.idx := [r *Element {r.list}] r == e ? old(mark.idx) : (r.list == l && old(r.idx) >= old(mark.idx) ? old(r.idx) + 1 : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(mark.list) != l ==> e == nil && unchanged()
  ensures @C01 inserted: old(mark.list) == l ==> e != nil && fresh(e) && e.Value == v && l.len == old(l.len) + 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == insAt(old(l.at), i, old(mark.idx), e))
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)

contract (*Dllist[T]).InsertAfter(l, v, mark) (e)
  prop C01 C02
  requires wf(l) && mark != nil
  modifies Dllist.len @ l, Element, Dllist.at @ l, Element.idx
  ghost if (old(mark.list) == l) then l.at := [i int] insAt(old(l.at), i, old(mark.idx) + 1, e)
  ghost if (old(mark.list) == l) then Element.idx := [r *Element {r.list}] r == e ? old(mark.idx) + 1 : (r.list == l && old(r.idx) > old(mark.idx) ? old(r.idx) + 1 : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(mark.list) != l ==> e == nil && unchanged()
  ensures @C01 inserted: old(mark.list) == l ==> e != nil && fresh(e) && e.Value == v && l.len == old(l.len) + 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == insAt(old(l.at), i, old(mark.idx) + 1, e))
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)

contract (*Element[T]).InsertAfter(m, v) (e)
  prop C01 C02
  requires m.list != nil ==> wf(m.list)
  modifies Dllist.len @ m.list, Element, Dllist.at @ m.list, Element.idx
  ghost if (old(m.list) != nil) then m.list.at := [i int] insAt(old(m.list.at), i, old(m.idx) + 1, e)
  ghost if (old(m.list) != nil) then Element.idx := [r *Element {r.list}] r == e ? old(m.idx) + 1 : (r.list == old(m.list) && old(r.idx) > old(m.idx) ? old(r.idx) + 1 : old(r.idx))
  ensures wf: m.list == old(m.list) && (m.list != nil ==> wf(m.list))
  ensures @C02 detached: old(m.list) == nil ==> e == nil && unchanged()
  ensures @C01 inserted: let l := m.list :: old(m.list) != nil ==> e != nil && fresh(e) && e.Value == v && l.len == old(m.list.len) + 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == insAt(old(m.list.at), i, old(m.idx) + 1, e))
  ensures others: old(m.list) != nil ==> others(m.list)
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)

contract (*Element[T]).InsertBefore(m, v) (e)
  prop C01 C02
  requires m.list != nil ==> wf(m.list)
  modifies Dllist.len @ m.list, Element, Dllist.at @ m.list, Element.idx
  ghost if (old(m.list) != nil) then m.list.at := [i int] insAt(old(m.list.at), i, old(m.idx), e)
  ghost if (old(m.list) != nil) then Element.idx := [r *Element {r.list}] r == e ? old(m.idx) : (r.list == old(m.list) && old(r.idx) >= old(m.idx) ? old(r.idx) + 1 : old(r.idx))
  ensures wf: m.list == old(m.list) && (m.list != nil ==> wf(m.list))
  ensures @C02 detached: old(m.list) == nil ==> e == nil && unchanged()
  ensures @C01 inserted: let l := m.list :: old(m.list) != nil ==> e != nil && fresh(e) && e.Value == v && l.len == old(m.list.len) + 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == insAt(old(m.list.at), i, old(m.idx), e))
  ensures others: old(m.list) != nil ==> others(m.list)
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)

contract (*Dllist[T]).Remove(l, e) (v)
  prop C01 C02
  option noalloc
  requires wf(l) && e != nil
  modifies Dllist.len @ l, Element.next, Element.prev, Element.list, Dllist.at @ l, Element.idx
  ghost if (old(e.list) == l) then l.at := [i int] rmAt(old(l.at), i, old(e.idx))
  ghost if (old(e.list) == l) then Element.idx := [r *Element {r.list}] r.list == l && old(r.idx) > old(e.idx) ? old(r.idx) - 1 : old(r.idx)
  ensures wf: wf(l)
  ensures v == old(e.Value)
  ensures @C02 foreign: old(e.list) != l ==> unchanged()
  ensures @C01 removed: old(e.list) == l ==> e.list == nil && e.next == nil && e.prev == nil && l.len == old(l.len) - 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == rmAt(old(l.at), i, old(e.idx)))
  ensures members: forall r *Element {r.list} :: r != e ==> r.list == old(r.list)
  ensures others: others(l)

contract (*Element[T]).Remove(e) (v)
  prop C01 C02
  requires e.list != nil ==> wf(e.list)
  requires detached: e.list == nil ==> e.next == nil && e.prev == nil
  modifies Dllist.len @ e.list, Element.next, Element.prev, Element.list, Dllist.at @ e.list, Element.idx
  ghost if (old(e.list) != nil) then old(e.list).at := [i int] rmAt(old(e.list.at), i, old(e.idx))
  ghost if (old(e.list) != nil) then Element.idx := [r *Element {r.list}] r.list == old(e.list) && old(r.idx) > old(e.idx) ? old(r.idx) - 1 : old(r.idx)
  ensures wf: old(e.list) != nil ==> wf(old(e.list))
  ensures v == old(e.Value)
  ensures @C02 detached: old(e.list) == nil ==> unchanged()
  ensures @C01 removed: let l := old(e.list) :: l != nil ==> e.list == nil && e.next == nil && e.prev == nil && l.len == old(e.list.len) - 1
    && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == rmAt(old(e.list.at), i, old(e.idx)))
  ensures others: old(e.list) != nil ==> others(old(e.list))

contract (*Dllist[T]).MoveToFront(l, e) ()
  prop C01 C02
  option noalloc
  requires wf(l) && e != nil
  modifies Element.next, Element.prev, Dllist.at @ l, Element.idx
  ghost if (old(e.list) == l) then l.at := [i int] mvAt(old(l.at), i, old(e.idx), 1, e)
  ghost if (old(e.list) == l) then Element.idx := [r *Element {r.list}] r == e ? 1 : (r.list == l ? mvIdx(old(r.idx), old(e.idx), 1) : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(e.list) != l ==> unchanged()
  ensures @C01 moved: old(e.list) == l ==> (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == mvAt(old(l.at), i, old(e.idx), 1, e))
  ensures others: others(l)

contract (*Dllist[T]).MoveToBack(l, e) ()
  prop C01 C02
  option noalloc
  requires wf(l) && e != nil
  modifies Element.next, Element.prev, Dllist.at @ l, Element.idx
  ghost if (old(e.list) == l) then l.at := [i int] mvAt(old(l.at), i, old(e.idx), l.len, e)
  ghost if (old(e.list) == l) then Element.idx := [r *Element {r.list}] r == e ? l.len : (r.list == l ? mvIdx(old(r.idx), old(e.idx), l.len) : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(e.list) != l ==> unchanged()
  ensures @C01 moved: old(e.list) == l ==> (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == mvAt(old(l.at), i, old(e.idx), l.len, e))
  ensures others: others(l)

def beforePos(p, q) := p < q ? q - 1 : q
def afterPos(p, q) := p < q ? q : q + 1

contract (*Dllist[T]).MoveBefore(l, e, mark) ()
  prop C01 C02
  requires wf(l) && e != nil && mark != nil
  modifies Element.next, Element.prev, Dllist.at @ l, Element.idx
  ghost if (old(e.list) == l && old(mark.list) == l && e != mark) then l.at := [i int] mvAt(old(l.at), i, old(e.idx), beforePos(old(e.idx), old(mark.idx)), e)
  ghost if (old(e.list) == l && old(mark.list) == l && e != mark) then Element.idx := [r *Element {r.list}] r == e ? beforePos(old(e.idx), old(mark.idx)) : (r.list == l ? mvIdx(old(r.idx), old(e.idx), beforePos(old(e.idx), old(mark.idx))) : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(e.list) != l || old(mark.list) != l || e == mark ==> unchanged()
  ensures @C01 moved: old(e.list) == l && old(mark.list) == l && e != mark ==> e.idx == mark.idx - 1 && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == mvAt(old(l.at), i, old(e.idx), beforePos(old(e.idx), old(mark.idx)), e))
  ensures others: others(l)

contract (*Dllist[T]).MoveAfter(l, e, mark) ()
  prop C01 C02
  requires wf(l) && e != nil && mark != nil
  modifies Element.next, Element.prev, Dllist.at @ l, Element.idx
  ghost if (old(e.list) == l && old(mark.list) == l && e != mark) then l.at := [i int] mvAt(old(l.at), i, old(e.idx), afterPos(old(e.idx), old(mark.idx)), e)
  ghost if (old(e.list) == l && old(mark.list) == l && e != mark) then Element.idx := [r *Element {r.list}] r == e ? afterPos(old(e.idx), old(mark.idx)) : (r.list == l ? mvIdx(old(r.idx), old(e.idx), afterPos(old(e.idx), old(mark.idx))) : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(e.list) != l || old(mark.list) != l || e == mark ==> unchanged()
  ensures @C01 moved: old(e.list) == l && old(mark.list) == l && e != mark ==> e.idx == mark.idx + 1 && (forall i int {l.at[i]} :: 1 <= i <= l.len ==> l.at[i] == mvAt(old(l.at), i, old(e.idx), afterPos(old(e.idx), old(mark.idx)), e))
  ensures others: others(l)

contract (*Dllist[T]).Swap(l, a, b) ()
  prop C01 C02
  requires wf(l) && a != nil && b != nil
  modifies Element.next, Element.prev, Dllist.at @ l, Element.idx
  ghost if (old(a.list) == l && old(b.list) == l) then l.at := l.at[old(a.idx) := b][old(b.idx) := a]
  ghost if (old(a.list) == l && old(b.list) == l) then Element.idx := [r *Element {r.list}] r == a ? old(b.idx) : (r == b ? old(a.idx) : old(r.idx))
  ensures wf: wf(l)
  ensures @C02 foreign: old(a.list) != l || old(b.list) != l || a == b ==> unchanged()
  ensures @C01 swapped: old(a.list) == l && old(b.list) == l && a != b ==> l.at[old(a.idx)] == b && l.at[old(b.idx)] == a && (forall i int {l.at[i]} :: 1 <= i <= l.len && i != old(a.idx) && i != old(b.idx) ==> l.at[i] == old(l.at[i]))
  ensures others: others(l)

// ---------------------------------------------------------------- bulk operations

def vals(l, i) := l.at[i].Value

contract (*Dllist[T]).Range(l, f) (all)
  prop C03
  requires wf(l) && f != nil
  callback f trace
  modifies trace f
  ensures called: forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == l.at[j - old(ncalls(f)) + 1]
  ensures stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures complete: all ==> ncalls(f) == old(ncalls(f)) + l.len && (l.len > 0 ==> callres(f, ncalls(f) - 1))
  ensures partial: !all ==> old(ncalls(f)) < ncalls(f) <= old(ncalls(f)) + l.len && !callres(f, ncalls(f) - 1)
  loop inv $e:*Element :: $e == (it < l.len ? l.at[it + 1] : nil)
  loop inv it <= l.len && ncalls(f) == old(ncalls(f)) + it
  loop inv forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == l.at[j - old(ncalls(f)) + 1]
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)
  loop bound l.len + 1

contract (*Element[T]).Range(e, f) ()
  prop C03
  requires e.list != nil ==> wf(e.list)
  requires f != nil
  option nilrecv
  callback f trace
  modifies trace f
  ensures nothing: e == nil ==> ncalls(f) == old(ncalls(f))
  ensures detached: e != nil && e.list == nil ==> ncalls(f) == old(ncalls(f)) + 1 && callarg(f, old(ncalls(f))) == e
  ensures called: e != nil && e.list != nil ==> (forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == e.list.at[j - old(ncalls(f)) + e.idx])
  ensures stop: forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) - 1 ==> callres(f, j)
  ensures complete: e != nil && e.list != nil ==> (ncalls(f) == old(ncalls(f)) + (e.list.len - e.idx + 1) || !callres(f, ncalls(f) - 1)) && ncalls(f) > old(ncalls(f))
  loop inv $c:*Element :: e != nil && e.list != nil ==> $c == (it <= e.list.len - e.idx ? e.list.at[e.idx + it] : nil)
  loop inv $c:*Element :: e != nil && e.list == nil ==> $c == (it == 0 ? e : nil)
  loop inv $c:*Element :: e == nil ==> $c == nil && it == 0
  loop inv e != nil && e.list != nil ==> it <= e.list.len - e.idx + 1
  loop inv e != nil && e.list == nil ==> it <= 1
  loop inv ncalls(f) == old(ncalls(f)) + it
  loop inv e != nil && e.list != nil ==> (forall j int {callarg(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callarg(f, j) == e.list.at[j - old(ncalls(f)) + e.idx])
  loop inv e != nil && e.list == nil && it == 1 ==> callarg(f, old(ncalls(f))) == e
  loop inv forall j int {callres(f, j)} :: old(ncalls(f)) <= j < ncalls(f) ==> callres(f, j)
  loop bound e != nil && e.list != nil ? e.list.len + 1 : 1

contract (*Dllist[T]).Slice(l) (s)
  prop C03
  requires wf(l)
  ensures len(s) == l.len
  ensures fresh(s)
  ensures forall i int {s[i]} :: 0 <= i < l.len ==> s[i] == l.at[i + 1].Value
  loop inv $e:*Element :: $e == (it < l.len ? l.at[it + 1] : nil)
  loop inv it <= l.len
  loop inv $s:[]T :: len($s) == it && (l.len > 0 ==> fresh($s))
  loop inv $s:[]T :: cap($s) >= l.len && fresh($s)
  loop inv $s:[]T :: forall j int {$s[j]} :: 0 <= j < it ==> $s[j] == l.at[j + 1].Value
  loop bound l.len + 1

contract (*Dllist[T]).PushBackList(l, o) ()
  prop C03
  requires wf(l) && o != nil && wf(o)
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ensures wf: wf(l) && wf(o)
  ensures length: l.len == old(l.len) + old(o.len)
  ensures prefix: forall i int {l.at[i]} :: 1 <= i <= old(l.len) ==> l.at[i] == old(l.at[i])
  ensures suffix: forall i int {l.at[i]} :: old(l.len) < i <= l.len ==> l.at[i].Value == old(o.at[i - l.len].Value)
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)
  loop ghost l.at := l.at[l.len := l.root.prev]
  loop ghost l.root.prev.idx := l.len
  loop inv $i:int :: $i == old(o.len) - it && it <= old(o.len)
  loop inv $e:*Element :: it < old(o.len) ==> $e == old(o.at)[it + 1]
  loop inv wf(l) && l.inited && l.len == old(l.len) + it
  loop inv wf(o)
  loop inv forall i int {l.at[i]} :: 1 <= i <= old(l.len) ==> l.at[i] == old(l.at[i])
  loop inv forall i int {l.at[i]} :: old(l.len) < i <= l.len ==> l.at[i].Value == old(o.at[i - l.len].Value)
  loop inv forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  loop inv others(l)
  loop bound old(o.len)

contract (*Dllist[T]).PushFrontList(l, o) ()
  prop C03
  requires wf(l) && o != nil && wf(o)
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ensures wf: wf(l) && wf(o)
  ensures length: l.len == old(l.len) + old(o.len)
  ensures front: forall i int {l.at[i]} :: 1 <= i <= old(o.len) ==> l.at[i].Value == old(o.at[i].Value)
  ensures back: forall i int {l.at[i]} :: old(o.len) < i <= l.len ==> l.at[i] == old(l.at)[i - old(o.len)]
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)
  loop ghost l.at := [i int {l.at[i]}] insAt(l.at, i, 1, l.root.next)
  loop ghost Element.idx := [r *Element {r.idx}] (r.list == l ? (r == l.root.next ? 1 : r.idx + 1) : r.idx)
  loop inv $i:int :: $i == old(o.len) - it && it <= old(o.len)
  loop inv $e:*Element :: o == l && it < old(o.len) ==> $e == l.at[old(l.len)]
  loop inv $e:*Element :: o != l && it < old(o.len) ==> $e == o.at[o.len - it]
  loop inv wf(l) && l.inited && l.len == old(l.len) + it
  loop inv wf(o)
  loop inv o != l ==> o.at == old(o.at) && o.len == old(o.len)
  loop inv forall i int {l.at[i]} :: it < i <= l.len ==> l.at[i] == old(l.at)[i - it]
  loop inv forall i int {l.at[i]} :: 1 <= i <= it ==> l.at[i].Value == old(o.at[o.len - it + i].Value)
  loop inv forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  loop inv others(l)
  loop bound old(o.len)

// inserting another list at a mark: its values, in one order or the other, directly behind the mark
def behind(l, o, p, n) := (forall j int {l.at[j]} :: p < j <= p + n ==> l.at[j].Value == old(o.at[j - p].Value))
  || (forall j int {l.at[j]} :: p < j <= p + n ==> l.at[j].Value == old(o.at[n + 1 - (j - p)].Value))

contract (*Dllist[T]).PushBackListTo(l, o, mark) ()
  prop C03 C02
  requires wf(l) && o != nil && wf(o) && o != l && mark != nil
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ensures foreign: old(mark.list) != l ==> unchanged()
  ensures wf: wf(l) && wf(o)
  ensures length: old(mark.list) == l ==> l.len == old(l.len) + old(o.len)
  ensures before: forall i int {l.at[i]} :: old(mark.list) == l && 1 <= i <= old(mark.idx) ==> l.at[i] == old(l.at[i])
  ensures behind: old(mark.list) == l ==> behind(l, o, old(mark.idx), old(o.len))
  ensures after: forall i int {l.at[i]} :: old(mark.list) == l && old(mark.idx) + old(o.len) < i <= l.len ==> l.at[i] == old(l.at)[i - old(o.len)]
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)
  loop ghost l.at := [i int {l.at[i]}] insAt(l.at, i, mark.idx + 1, mark.next)
  loop ghost Element.idx := [r *Element {r.idx}] (r.list == l ? (r == mark.next ? mark.idx + 1 : (r.idx > mark.idx ? r.idx + 1 : r.idx)) : r.idx)
  loop inv $i:int :: $i == old(o.len) - it && it <= old(o.len)
  loop inv $e:*Element :: it < old(o.len) ==> $e == o.at[it + 1]
  loop inv $e:*Element :: it < old(o.len) ==> $e == o.at[o.len - it]
  loop inv wf(l) && l.inited && l.len == old(l.len) + it && mark.list == l && mark.idx == old(mark.idx)
  loop inv wf(o) && o.at == old(o.at) && o.len == old(o.len)
  loop inv forall i int {l.at[i]} :: 1 <= i <= mark.idx ==> l.at[i] == old(l.at[i])
  loop inv forall i int {l.at[i]} :: mark.idx + it < i <= l.len ==> l.at[i] == old(l.at)[i - it]
  loop inv forall i int {l.at[i]} :: mark.idx < i <= mark.idx + it ==> l.at[i].Value == old(o.at[it + 1 - (i - mark.idx)].Value)
  loop inv forall i int {l.at[i]} :: mark.idx < i <= mark.idx + it ==> l.at[i].Value == old(o.at[o.len - it + (i - mark.idx)].Value)
  loop inv forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  loop inv others(l)
  loop bound old(o.len)

contract (*Dllist[T]).PushFrontListTo(l, o, mark) ()
  prop C03 C02
  requires wf(l) && o != nil && wf(o) && o != l && mark != nil
  modifies Dllist.len @ l, Dllist.inited @ l, Element, Dllist.at @ l, Element.idx
  ensures foreign: old(mark.list) != l ==> unchanged()
  ensures wf: wf(l) && wf(o)
  ensures length: old(mark.list) == l ==> l.len == old(l.len) + old(o.len)
  ensures before: forall i int {l.at[i]} :: old(mark.list) == l && 1 <= i <= old(mark.idx) ==> l.at[i] == old(l.at[i])
  ensures behind: old(mark.list) == l ==> behind(l, o, old(mark.idx), old(o.len))
  ensures after: forall i int {l.at[i]} :: old(mark.list) == l && old(mark.idx) + old(o.len) < i <= l.len ==> l.at[i] == old(l.at)[i - old(o.len)]
  ensures values: forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  ensures others: others(l)
  loop ghost l.at := [i int {l.at[i]}] insAt(l.at, i, mark.idx + 1, mark.next)
  loop ghost Element.idx := [r *Element {r.idx}] (r.list == l ? (r == mark.next ? mark.idx + 1 : (r.idx > mark.idx ? r.idx + 1 : r.idx)) : r.idx)
  loop inv $i:int :: $i == old(o.len) - it && it <= old(o.len)
  loop inv $e:*Element :: it < old(o.len) ==> $e == o.at[it + 1]
  loop inv $e:*Element :: it < old(o.len) ==> $e == o.at[o.len - it]
  loop inv wf(l) && l.inited && l.len == old(l.len) + it && mark.list == l && mark.idx == old(mark.idx)
  loop inv wf(o) && o.at == old(o.at) && o.len == old(o.len)
  loop inv forall i int {l.at[i]} :: 1 <= i <= mark.idx ==> l.at[i] == old(l.at[i])
  loop inv forall i int {l.at[i]} :: mark.idx + it < i <= l.len ==> l.at[i] == old(l.at)[i - it]
  loop inv forall i int {l.at[i]} :: mark.idx < i <= mark.idx + it ==> l.at[i].Value == old(o.at[it + 1 - (i - mark.idx)].Value)
  loop inv forall i int {l.at[i]} :: mark.idx < i <= mark.idx + it ==> l.at[i].Value == old(o.at[o.len - it + (i - mark.idx)].Value)
  loop inv forall r *Element {r.Value} :: old(alloc(r)) ==> r.Value == old(r.Value)
  loop inv others(l)
  loop bound old(o.len)
