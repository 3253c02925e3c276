package vec

def swo(f) := (forall a T, b T {app(f, a, b)} :: app(f, a, b) ==> !app(f, b, a))
  && (forall a T, b T, c T {app(f, a, b), app(f, b, c)} {app(f, a, b), app(f, a, c)} {app(f, a, c), app(f, b, c)} :: !app(f, a, b) && !app(f, b, c) ==> !app(f, a, c))
def cons(f, g) := forall a T, b T {app(g, a, b)} {app(f, a, b)} :: app(g, a, b) <==> !app(f, a, b) && !app(f, b, a)
def order(v) := v.cmpLess != nil && v.cmpEqual != nil && swo(v.cmpLess) && cons(v.cmpLess, v.cmpEqual)
def lorder(v) := v.cmpLess != nil && v.cmpEqual != nil && swo(v.cmpLess)
def same1(v) := v.d == old(v.d) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == old(v.d[k]))
def inplace(v) := fresh(v.d) || arr(v.d) == old(arr(v.d))

extern VecConf[T](v) ()
  requires v != nil
  modifies Vec.cmpLess @ v, Vec.cmpEqual @ v

contract WithCmpLess$1[T](v) ()
  prop C11
  like VecConf
  ensures v.cmpLess == *cmpLess && v.cmpEqual == old(v.cmpEqual)

contract WithCmpEqual$1[T](v) ()
  prop C11
  like VecConf
  ensures v.cmpEqual == *cmpEqual && v.cmpLess == old(v.cmpLess)

contract New[T](conf) (v)
  prop C10
  requires forall i int {conf[i]} :: 0 <= i < len(conf) ==> conf[i] != nil
  modifies new Vec
  ensures v != nil && fresh(v) && v.d == zero([]T)
  loop inv %v:*Vec[T] :: fresh(%v) && %v.d == zero([]T)

contract (*Vec[T]).SetCmpLess(v, f) (r)
  prop C11
  modifies Vec.cmpLess @ v
  ensures r == v && v.cmpLess == f

contract (*Vec[T]).SetCmpEqual(v, f) (r)
  prop C11
  modifies Vec.cmpEqual @ v
  ensures r == v && v.cmpEqual == f

contract (*Vec[T]).Len(v) (n)
  prop C10
  ensures n == len(v.d)

contract (*Vec[T]).Cap(v) (n)
  prop C10
  ensures n == cap(v.d) && n >= len(v.d)

contract (*Vec[T]).IsEmpty(v) (r)
  prop C10
  ensures r <==> len(v.d) == 0

contract (*Vec[T]).Push(v, val) (r)
  prop C10
  modifies Vec.d @ v, []T @ v.d, new []T
  ensures r == v && inplace(v)
  ensures len(v.d) == old(len(v.d)) + len(val)
  ensures forall k int {v.d[k]} {old(v.d[k])} :: 0 <= k < len(v.d) ==> v.d[k] == (k < old(len(v.d)) ? old(v.d[k]) : old(val[k - len(v.d)]))
  ensures len(val) >= 1 ==> v.d[old(len(v.d))] == old(val[0])

contract (*Vec[T]).Pop(v) (e, ok)
  prop C10
  modifies Vec.d @ v, []T @ v.d
  ensures ok <==> old(len(v.d)) > 0
  ensures !ok ==> e == zero(T) && same1(v)
  ensures ok ==> e == old(v.d[len(v.d) - 1]) && len(v.d) == old(len(v.d)) - 1 && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == old(v.d[k]))

contract (*Vec[T]).Remove(v, i) (e, ok)
  prop C10
  modifies Vec.d @ v, []T @ v.d
  ensures ok <==> 0 <= i < old(len(v.d))
  ensures !ok ==> e == zero(T) && same1(v)
  ensures ok ==> e == old(v.d[i]) && len(v.d) == old(len(v.d)) - 1 && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : old(v.d[k + 1])))

contract (*Vec[T]).Get(v, i) (e, ok)
  prop C10
  ensures ok <==> 0 <= i < len(v.d)
  ensures e == (ok ? v.d[i] : zero(T))

contract (*Vec[T]).Set(v, i, val) (ok)
  prop C10
  modifies []T @ v.d
  ensures ok <==> 0 <= i < len(v.d)
  ensures forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (ok && k == i ? val : old(v.d[k]))

contract (*Vec[T]).Clear(v) (r)
  prop C10
  modifies Vec.d @ v
  ensures r == v && len(v.d) == 0 && arr(v.d) == old(arr(v.d))

contract (*Vec[T]).First(v) (e, ok)
  prop C10
  ensures ok <==> len(v.d) > 0
  ensures e == (ok ? v.d[0] : zero(T))

contract (*Vec[T]).Last(v) (e, ok)
  prop C10
  ensures ok <==> len(v.d) > 0
  ensures e == (ok ? v.d[len(v.d) - 1] : zero(T))

contract (*Vec[T]).Range(v, cbk) ()
  prop C10
  requires cbk != nil
  callback cbk trace
  modifies trace cbk
  ensures called: old(ncalls(cbk)) <= ncalls(cbk) <= old(ncalls(cbk)) + len(v.d)
  ensures entries: forall j int {callarg(cbk, j, 0)} :: old(ncalls(cbk)) <= j < ncalls(cbk) ==> callarg(cbk, j, 0) == j - old(ncalls(cbk)) && callarg(cbk, j, 1) == v.d[j - old(ncalls(cbk))]
  ensures goes: forall j int {callres(cbk, j)} :: old(ncalls(cbk)) <= j < ncalls(cbk) - 1 ==> callres(cbk, j)
  ensures stops: ncalls(cbk) < old(ncalls(cbk)) + len(v.d) ==> ncalls(cbk) > old(ncalls(cbk)) && !callres(cbk, ncalls(cbk) - 1)
  loop inv it <= len(v.d) && ncalls(cbk) == old(ncalls(cbk)) + it
  loop inv $i:int :: $i == it
  loop bound len(v.d) + 1
  loop inv forall j int {callarg(cbk, j, 0)} :: old(ncalls(cbk)) <= j < ncalls(cbk) ==> callarg(cbk, j, 0) == j - old(ncalls(cbk)) && callarg(cbk, j, 1) == v.d[j - old(ncalls(cbk))]
  loop inv forall j int {callres(cbk, j)} :: old(ncalls(cbk)) <= j < ncalls(cbk) ==> callres(cbk, j)

contract (*Vec[T]).SliceCut(v, i, j) (r)
  prop C10
  ensures out: !(0 <= i <= j <= len(v.d)) ==> r == nil
  ensures in: 0 <= i <= j <= len(v.d) ==> len(r) == j - i && (forall k int {r[k]} :: 0 <= k < j - i ==> r[k] == v.d[i + k])

contract (*Vec[T]).Slice(v) (r)
  prop C10
  ensures r == v.d

contract (*Vec[T]).Cut(v, i, j) (e)
  prop C10
  modifies Vec.d @ v, []T @ v.d, new []T
  ensures out: !(0 <= i <= j <= old(len(v.d))) ==> e == nil && same1(v)
  ensures part: 0 <= i <= j <= old(len(v.d)) ==> len(e) == j - i && (len(e) > 0 ==> fresh(e)) && (forall k int {e[k]} :: 0 <= k < j - i ==> e[k] == old(v.d[i + k]))
  ensures rest: 0 <= i <= j <= old(len(v.d)) ==> len(v.d) == old(len(v.d)) - (j - i) && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : old(v.d[k + j - i])))

contract (*Vec[T]).SplitOff(v, i) (r)
  prop C10
  option storedclosures
  inline vec.New
  unroll vec.New 2
  modifies Vec.d @ v, []T @ v.d, new []T, new Vec
  ensures r != nil && fresh(r) && (len(r.d) > 0 ==> fresh(r.d))
  ensures out: !(0 <= i <= old(len(v.d))) ==> len(r.d) == 0 && same1(v)
  ensures part: 0 <= i <= old(len(v.d)) ==> len(r.d) == old(len(v.d)) - i && (forall k int {r.d[k]} :: 0 <= k < len(r.d) ==> r.d[k] == old(v.d[i + k]))
  ensures rest: 0 <= i <= old(len(v.d)) ==> len(v.d) == i && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < i ==> v.d[k] == old(v.d[k]))

contract (*Vec[T]).Swap(v, i, j) ()
  prop C10
  modifies []T @ v.d
  ensures out: !(0 <= i < len(v.d) && 0 <= j < len(v.d)) ==> same1(v)
  ensures 0 <= i < len(v.d) && 0 <= j < len(v.d) ==> (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k == i ? old(v.d[j]) : (k == j ? old(v.d[i]) : old(v.d[k]))))

contract (*Vec[T]).ConpareAndRemove(v, i, val) (e, ok)
  prop C10
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  modifies Vec.d @ v, []T @ v.d
  ensures ok <==> 0 <= i < old(len(v.d)) && app(v.cmpEqual, old(v.d[i]), val)
  ensures !ok ==> e == zero(T) && same1(v)
  ensures ok ==> e == old(v.d[i]) && len(v.d) == old(len(v.d)) - 1 && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : old(v.d[k + 1])))

contract (*Vec[T]).Grow(v, n) (r)
  prop C10
  requires n >= 0
  modifies Vec.d @ v, new []T
  ensures r == v && inplace(v) && len(v.d) == old(len(v.d)) && cap(v.d) >= len(v.d) + n && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == old(v.d[k]))

contract (*Vec[T]).Clip(v) (r)
  prop C10
  modifies Vec.d @ v, new []T
  ensures r == v && inplace(v) && len(v.d) == old(len(v.d)) && cap(v.d) == len(v.d) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == old(v.d[k]))

contract (*Vec[T]).Clone(v) (r)
  prop C10
  option storedclosures
  inline vec.New
  unroll vec.New 2
  modifies new []T, new Vec
  ensures r != nil && fresh(r) && (len(r.d) > 0 ==> fresh(r.d))
  ensures len(r.d) == len(v.d) && (forall k int {r.d[k]} :: 0 <= k < len(r.d) ==> r.d[k] == v.d[k])
  ensures order: v.cmpLess != nil ==> r.cmpLess != nil && (forall a T, b T {app(r.cmpLess, a, b)} :: app(r.cmpLess, a, b) <==> app(v.cmpLess, a, b))
  ensures equality: v.cmpEqual != nil ==> r.cmpEqual != nil && (forall a T, b T {app(r.cmpEqual, a, b)} :: app(r.cmpEqual, a, b) <==> app(v.cmpEqual, a, b))

contract (*Vec[T]).CloneToSlice(v) (r)
  prop C10
  modifies new []T
  ensures len(r) > 0 ==> fresh(r)
  ensures len(r) == len(v.d) && (forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] == v.d[k])

contract (*Vec[T]).Delete(v, i, j) ()
  prop C10
  requires 0 <= i <= j <= len(v.d)
  modifies Vec.d @ v, []T @ v.d
  ensures len(v.d) == old(len(v.d)) - (j - i) && arr(v.d) == old(arr(v.d)) && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : old(v.d[k + j - i])))

contract (*Vec[T]).Insert(v, i, val) (r)
  prop C10
  requires 0 <= i <= len(v.d)
  modifies Vec.d @ v, []T @ v.d, new []T
  ensures r == v && inplace(v) && len(v.d) == old(len(v.d)) + len(val)
  ensures forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : (k < i + len(val) ? old(val[k - i]) : old(v.d[k - len(val)])))

contract (*Vec[T]).Replace(v, i, j, val) ()
  prop C10
  requires 0 <= i <= j <= len(v.d)
  modifies Vec.d @ v, []T @ v.d, new []T
  ensures inplace(v) && len(v.d) == old(len(v.d)) - (j - i) + len(val)
  ensures forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == (k < i ? old(v.d[k]) : (k < i + len(val) ? old(val[k - i]) : old(v.d[k - len(val) + (j - i)])))

contract (*Vec[T]).Reverse(v) (r)
  prop C10
  modifies []T @ v.d
  ensures r == v && (forall k int {v.d[k]} :: 0 <= k < len(v.d) ==> v.d[k] == old(v.d[len(v.d) - 1 - k]))

contract (*Vec[T]).CmpLess(v, a, b) (r)
  prop C11
  requires v.cmpLess != nil
  callback v.cmpLess pure
  ensures r <==> app(v.cmpLess, a, b)

contract (*Vec[T]).CmpEqual(v, a, b) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  ensures r <==> app(v.cmpEqual, a, b)

contract (*Vec[T]).Less(v, i, j) (r)
  prop C11
  requires v.cmpLess != nil && 0 <= i < len(v.d) && 0 <= j < len(v.d)
  callback v.cmpLess pure
  ensures r <==> app(v.cmpLess, v.d[i], v.d[j])

contract (*Vec[T]).Equal(v, i, j) (r)
  prop C11
  requires v.cmpEqual != nil && 0 <= i < len(v.d) && 0 <= j < len(v.d)
  callback v.cmpEqual pure
  ensures r <==> app(v.cmpEqual, v.d[i], v.d[j])

contract (*Vec[T]).Search(v, target) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  ensures -1 <= r < len(v.d)
  ensures r >= 0 ==> app(v.cmpEqual, target, v.d[r])
  ensures forall i int {v.d[i]} :: 0 <= i < len(v.d) && (i < r || r < 0) ==> !app(v.cmpEqual, target, v.d[i])

contract (*Vec[T]).SearchFunc(v, f) (r)
  prop C11
  requires f != nil
  callback f pure
  ensures -1 <= r < len(v.d)
  ensures r >= 0 ==> app(f, v.d[r])
  ensures forall i int {v.d[i]} :: 0 <= i < len(v.d) && (i < r || r < 0) ==> !app(f, v.d[i])

contract (*Vec[T]).SearchAll(v, target) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  modifies new []int
  ensures hits: forall i int {r[i]} :: 0 <= i < len(r) ==> 0 <= r[i] < len(v.d) && app(v.cmpEqual, target, v.d[r[i]])
  ensures rising: forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] < r[j]
  ensures all: forall k int {v.d[k]} :: 0 <= k < len(v.d) && app(v.cmpEqual, target, v.d[k]) ==> (exists i int {r[i]} :: 0 <= i < len(r) && r[i] == k)
  loop inv it <= len(v.d)
  loop inv $i:int :: $i == it
  loop bound len(v.d) + 1
  loop inv $r:[]int :: forall i int {$r[i]} :: 0 <= i < len($r) ==> 0 <= $r[i] < it && app(v.cmpEqual, target, v.d[$r[i]])
  loop inv $r:[]int :: len($r) == 0 || fresh($r)
  loop inv $r:[]int :: cap($r) == 0 || fresh($r)
  loop inv $r:[]int :: forall i int, j int {$r[i], $r[j]} :: 0 <= i < j < len($r) ==> $r[i] < $r[j]
  loop inv $r:[]int :: forall k int {v.d[k]} :: 0 <= k < it && app(v.cmpEqual, target, v.d[k]) ==> (exists i int {$r[i]} :: 0 <= i < len($r) && $r[i] == k)

contract (*Vec[T]).SearchAllFunc(v, f) (r)
  prop C11
  requires f != nil
  callback f pure
  modifies new []int
  ensures hits: forall i int {r[i]} :: 0 <= i < len(r) ==> 0 <= r[i] < len(v.d) && app(f, v.d[r[i]])
  ensures rising: forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] < r[j]
  ensures all: forall k int {v.d[k]} :: 0 <= k < len(v.d) && app(f, v.d[k]) ==> (exists i int {r[i]} :: 0 <= i < len(r) && r[i] == k)
  loop inv it <= len(v.d)
  loop inv $i:int :: $i == it
  loop bound len(v.d) + 1
  loop inv $r:[]int :: forall i int {$r[i]} :: 0 <= i < len($r) ==> 0 <= $r[i] < it && app(f, v.d[$r[i]])
  loop inv $r:[]int :: len($r) == 0 || fresh($r)
  loop inv $r:[]int :: cap($r) == 0 || fresh($r)
  loop inv $r:[]int :: forall i int, j int {$r[i], $r[j]} :: 0 <= i < j < len($r) ==> $r[i] < $r[j]
  loop inv $r:[]int :: forall k int {v.d[k]} :: 0 <= k < it && app(f, v.d[k]) ==> (exists i int {$r[i]} :: 0 <= i < len($r) && $r[i] == k)

contract (*Vec[T]).BinarySearch(v, target) (r, found)
  prop C11
  requires lorder(v)
  requires sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(v.cmpLess, v.d[j], v.d[i])
  callback v.cmpLess pure
  callback v.cmpEqual pure
  ensures 0 <= r <= len(v.d)
  ensures below: forall i int {v.d[i]} :: 0 <= i < r ==> app(v.cmpLess, v.d[i], target)
  ensures above: forall i int {v.d[i]} :: r <= i < len(v.d) ==> !app(v.cmpLess, v.d[i], target)
  ensures found <==> r < len(v.d) && app(v.cmpEqual, v.d[r], target)

contract (*Vec[T]).BinarySearchFunc(v, target, cmp) (r, found)
  prop C11
  requires cmp != nil
  requires sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) && app(cmp, v.d[j], target) < 0 ==> app(cmp, v.d[i], target) < 0
  callback cmp pure
  ensures 0 <= r <= len(v.d)
  ensures below: forall i int {v.d[i]} :: 0 <= i < r ==> app(cmp, v.d[i], target) < 0
  ensures above: forall i int {v.d[i]} :: r <= i < len(v.d) ==> app(cmp, v.d[i], target) >= 0
  ensures found <==> r < len(v.d) && app(cmp, v.d[r], target) == 0

contract (*Vec[T]).Contains(v, val) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  ensures yes: r ==> (exists i int {v.d[i]} :: 0 <= i < len(v.d) && app(v.cmpEqual, v.d[i], val))
  ensures no: !r ==> (forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(v.cmpEqual, v.d[i], val))

contract (*Vec[T]).ContainsFunc(v, f) (r)
  prop C11
  requires f != nil
  callback f pure
  ensures yes: r ==> (exists i int {v.d[i]} :: 0 <= i < len(v.d) && app(f, v.d[i]))
  ensures no: !r ==> (forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(f, v.d[i]))

contract (*Vec[T]).EqualVec(v, other) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  ensures r <==> len(v.d) == len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(v.cmpEqual, v.d[i], other.d[i]))

contract (*Vec[T]).EqualSlice(v, other) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  ensures r <==> len(v.d) == len(other) && (forall i int {v.d[i]} {other[i]} :: 0 <= i < len(v.d) ==> app(v.cmpEqual, v.d[i], other[i]))

contract (*Vec[T]).EqualVecFunc(v, other, eq) (r)
  prop C11
  requires eq != nil
  callback eq pure
  ensures r <==> len(v.d) == len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(eq, v.d[i], other.d[i]))

contract (*Vec[T]).EqualSliceFunc(v, other, eq) (r)
  prop C11
  requires eq != nil
  callback eq pure
  ensures r <==> len(v.d) == len(other) && (forall i int {v.d[i]} {other[i]} :: 0 <= i < len(v.d) ==> app(eq, v.d[i], other[i]))

contract (*Vec[T]).Compare(v, other) (r)
  prop C11
  requires order(v)
  callback v.cmpLess pure
  callback v.cmpEqual pure
  ensures equal: r == 0 <==> len(v.d) == len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(v.cmpEqual, v.d[i], other.d[i]))
  ensures differ: forall k int {v.d[k]} {other.d[k]} :: 0 <= k < len(v.d) && k < len(other.d) && !app(v.cmpEqual, v.d[k], other.d[k]) && (forall i int {v.d[i]} :: 0 <= i < k ==> app(v.cmpEqual, v.d[i], other.d[i])) ==> r == (app(v.cmpLess, v.d[k], other.d[k]) ? -1 : 1)
  ensures shorter: len(v.d) < len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(v.cmpEqual, v.d[i], other.d[i])) ==> r == -1
  ensures longer: len(v.d) > len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(other.d) ==> app(v.cmpEqual, v.d[i], other.d[i])) ==> r == 1

contract (*Vec[T]).CompareFunc(v, other, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less) && cons(less, eq)
  callback less pure
  callback eq pure
  ensures equal: r == 0 <==> len(v.d) == len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(eq, v.d[i], other.d[i]))
  ensures differ: forall k int {v.d[k]} {other.d[k]} :: 0 <= k < len(v.d) && k < len(other.d) && !app(eq, v.d[k], other.d[k]) && (forall i int {v.d[i]} :: 0 <= i < k ==> app(eq, v.d[i], other.d[i])) ==> r == (app(less, v.d[k], other.d[k]) ? -1 : 1)
  ensures shorter: len(v.d) < len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(v.d) ==> app(eq, v.d[i], other.d[i])) ==> r == -1
  ensures longer: len(v.d) > len(other.d) && (forall i int {v.d[i]} {other.d[i]} :: 0 <= i < len(other.d) ==> app(eq, v.d[i], other.d[i])) ==> r == 1

contract (*Vec[T]).IsSorted(v) (r)
  prop C11
  requires lorder(v)
  callback v.cmpLess pure
  callback v.cmpEqual pure
  ensures r <==> (forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(v.cmpLess, v.d[j], v.d[i]))

contract (*Vec[T]).IsSortedFunc(v, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less)
  callback less pure
  callback eq pure
  ensures r <==> (forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(less, v.d[j], v.d[i]))

contract (*Vec[T]).Min(v) (r)
  prop C11
  requires lorder(v) && len(v.d) >= 1
  callback v.cmpLess pure
  callback v.cmpEqual pure
  ensures member: exists i int {v.d[i]} :: 0 <= i < len(v.d) && v.d[i] == r
  ensures least: forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(v.cmpLess, v.d[i], r)

contract (*Vec[T]).MinFunc(v, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less) && len(v.d) >= 1
  callback less pure
  callback eq pure
  ensures member: exists i int {v.d[i]} :: 0 <= i < len(v.d) && v.d[i] == r
  ensures least: forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(less, v.d[i], r)

contract (*Vec[T]).Max(v) (r)
  prop C11
  requires order(v) && len(v.d) >= 1
  callback v.cmpLess pure
  callback v.cmpEqual pure
  ensures member: exists i int {v.d[i]} :: 0 <= i < len(v.d) && v.d[i] == r
  ensures greatest: forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(v.cmpLess, r, v.d[i])

contract (*Vec[T]).MaxFunc(v, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less) && cons(less, eq) && len(v.d) >= 1
  callback less pure
  callback eq pure
  ensures member: exists i int {v.d[i]} :: 0 <= i < len(v.d) && v.d[i] == r
  ensures greatest: forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> !app(less, r, v.d[i])

def perm(v) := (forall i int {v.d[i]} :: 0 <= i < len(v.d) ==> 0 <= slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), i) < len(v.d) && v.d[i] == old(row(v.d))[off(v.d) + slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), i)])
  && (forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), i) != slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), j))
  && (forall j int {slices.at(j)} :: 0 <= j < len(v.d) ==> 0 <= slices.dst(old(row(v.d)), row(v.d), off(v.d), len(v.d), j) < len(v.d) && v.d[slices.dst(old(row(v.d)), row(v.d), off(v.d), len(v.d), j)] == old(v.d[j]))
def stable(v, f) := forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) && !app(f, v.d[i], v.d[j]) ==> slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), i) < slices.src(old(row(v.d)), row(v.d), off(v.d), len(v.d), j)

contract (*Vec[T]).Sort(v) (r)
  prop C11
  requires lorder(v)
  callback v.cmpLess pure
  callback v.cmpEqual pure
  modifies []T @ v.d
  ensures r == v && perm(v)
  ensures sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(v.cmpLess, v.d[j], v.d[i])

contract (*Vec[T]).SortFunc(v, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less)
  callback less pure
  callback eq pure
  modifies []T @ v.d
  ensures r == v && perm(v)
  ensures sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(less, v.d[j], v.d[i])

contract (*Vec[T]).SortStable(v) (r)
  prop C11
  requires lorder(v)
  callback v.cmpLess pure
  callback v.cmpEqual pure
  modifies []T @ v.d
  ensures r == v && perm(v) && stable(v, v.cmpLess)
  ensures sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(v.cmpLess, v.d[j], v.d[i])

contract (*Vec[T]).SortStableFunc(v, less, eq) (r)
  prop C11
  requires less != nil && eq != nil && swo(less)
  callback less pure
  callback eq pure
  modifies []T @ v.d
  ensures r == v && perm(v) && stable(v, less)
  ensures sorted: forall i int, j int {v.d[i], v.d[j]} :: 0 <= i < j < len(v.d) ==> !app(less, v.d[j], v.d[i])

def starts(f, s, k) := k == 0 || !app(f, s[k], s[k - 1])

contract (*Vec[T]).Compact(v) (r)
  prop C11
  requires v.cmpEqual != nil
  callback v.cmpEqual pure
  modifies Vec.d @ v, []T @ v.d
  ensures r == v && arr(v.d) == old(arr(v.d))
  ensures count: len(v.d) == slices.rnk(v.cmpEqual, old(row(v.d)), old(off(v.d)), old(len(v.d)))
  ensures kept: forall k int {old(v.d[k])} :: 0 <= k < old(len(v.d)) && old(starts(v.cmpEqual, v.d, k)) ==> 0 <= slices.rnk(v.cmpEqual, old(row(v.d)), old(off(v.d)), k) < len(v.d) && v.d[slices.rnk(v.cmpEqual, old(row(v.d)), old(off(v.d)), k)] == old(v.d[k])

contract (*Vec[T]).CompactFunc(v, eq) ()
  prop C11
  requires eq != nil
  callback eq pure
  modifies Vec.d @ v, []T @ v.d
  ensures arr(v.d) == old(arr(v.d))
  ensures count: len(v.d) == slices.rnk(eq, old(row(v.d)), old(off(v.d)), old(len(v.d)))
  ensures kept: forall k int {old(v.d[k])} :: 0 <= k < old(len(v.d)) && old(starts(eq, v.d, k)) ==> 0 <= slices.rnk(eq, old(row(v.d)), old(off(v.d)), k) < len(v.d) && v.d[slices.rnk(eq, old(row(v.d)), old(off(v.d)), k)] == old(v.d[k])

// the default comparators: on the numbers and strings the elements hold
contract (*Vec[T]).autoDetectSetCmpLess(v) (r)
  prop C11
  option maypanic
  modifies Vec.cmpLess @ v
  ensures r == v && v.cmpLess != nil
  ensures kept: old(v.cmpLess) != nil ==> v.cmpLess == old(v.cmpLess)
  ensures default: old(v.cmpLess) == nil ==> swo(v.cmpLess)
  onpanic old(v.cmpLess) == nil && v.cmpLess == nil

contract (*Vec[T]).autoDetectSetCmpEqual(v) (r)
  prop C11
  option maypanic
  modifies Vec.cmpEqual @ v
  ensures r == v && v.cmpEqual != nil
  ensures kept: old(v.cmpEqual) != nil ==> v.cmpEqual == old(v.cmpEqual)
  ensures default: old(v.cmpEqual) == nil ==> (forall a T {app(v.cmpEqual, a, a)} :: app(v.cmpEqual, a, a)) && (forall a T, b T {app(v.cmpEqual, a, b)} :: app(v.cmpEqual, a, b) ==> app(v.cmpEqual, b, a))
  ensures transitive: old(v.cmpEqual) == nil ==> (forall a T, b T, c T {app(v.cmpEqual, a, b), app(v.cmpEqual, b, c)} :: app(v.cmpEqual, a, b) && app(v.cmpEqual, b, c) ==> app(v.cmpEqual, a, c))
  onpanic old(v.cmpEqual) == nil && v.cmpEqual == nil
