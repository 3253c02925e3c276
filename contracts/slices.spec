package slices

// golang.org/x/exp/slices, the library the vector delegates to.  Contracts
// marked extern are assumed, the others are proved from the library source.

// cmp < 0 is a strict weak order
def swoc(f) := (forall a E, b E {app(f, a, b)} :: app(f, a, b) < 0 ==> app(f, b, a) >= 0)
  && (forall a E, b E, c E {app(f, a, b), app(f, b, c)} {app(f, a, b), app(f, a, c)} {app(f, a, c), app(f, b, c)} :: app(f, a, b) >= 0 && app(f, b, c) >= 0 ==> app(f, a, c) >= 0)

contract EqualFunc[S1, S2, E1, E2](s1, s2, eq) (r)
  requires eq != nil
  option noalloc
  callback eq pure
  ensures r <==> len(s1) == len(s2) && (forall i int {s1[i]} {s2[i]} :: 0 <= i < len(s1) ==> app(eq, s1[i], s2[i]))
  loop inv forall i int {s1[i]} :: 0 <= i < it ==> app(eq, s1[i], s2[i])

contract CompareFunc[S1, S2, E1, E2](s1, s2, cmp) (r)
  requires cmp != nil
  option noalloc
  callback cmp pure
  ensures equal: r == 0 <==> len(s1) == len(s2) && (forall i int {s1[i]} {s2[i]} :: 0 <= i < len(s1) ==> app(cmp, s1[i], s2[i]) == 0)
  ensures differ: forall k int {s1[k]} {s2[k]} :: 0 <= k < len(s1) && k < len(s2) && app(cmp, s1[k], s2[k]) != 0 && (forall i int {s1[i]} :: 0 <= i < k ==> app(cmp, s1[i], s2[i]) == 0) ==> r == app(cmp, s1[k], s2[k])
  ensures shorter: len(s1) < len(s2) && (forall i int {s1[i]} {s2[i]} :: 0 <= i < len(s1) ==> app(cmp, s1[i], s2[i]) == 0) ==> r == -1
  ensures longer: len(s1) > len(s2) && (forall i int {s1[i]} {s2[i]} :: 0 <= i < len(s2) ==> app(cmp, s1[i], s2[i]) == 0) ==> r == 1
  loop inv forall i int {s1[i]} {s2[i]} :: 0 <= i < it ==> app(cmp, s1[i], s2[i]) == 0
  loop inv it <= len(s2)

contract IndexFunc[S, E](s, f) (r)
  requires f != nil
  option noalloc
  callback f pure
  ensures -1 <= r < len(s)
  ensures r >= 0 ==> app(f, s[r])
  ensures forall i int {s[i]} :: 0 <= i < len(s) && (i < r || r < 0) ==> !app(f, s[i])
  loop inv forall i int {s[i]} :: 0 <= i < it ==> !app(f, s[i])

contract IsSortedFunc[S, E](x, cmp) (r)
  requires cmp != nil && swoc(cmp)
  option noalloc
  callback cmp pure
  ensures r <==> (forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) ==> app(cmp, x[j], x[i]) >= 0)
  loop inv $i:int :: $i < len(x) && (forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) && $i <= i ==> app(cmp, x[j], x[i]) >= 0)

contract MinFunc[S, E](x, cmp) (r)
  requires cmp != nil && swoc(cmp) && len(x) >= 1
  option noalloc
  callback cmp pure
  ensures member: exists i int {x[i]} :: 0 <= i < len(x) && x[i] == r
  ensures least: forall i int {x[i]} :: 0 <= i < len(x) ==> app(cmp, x[i], r) >= 0
  loop inv $i:int, $m:E :: 1 <= $i <= len(x) && (exists i int {x[i]} :: 0 <= i < $i && x[i] == $m) && (forall i int {x[i]} :: 0 <= i < $i ==> app(cmp, x[i], $m) >= 0)

contract MaxFunc[S, E](x, cmp) (r)
  requires cmp != nil && swoc(cmp) && len(x) >= 1
  requires anti: forall a E, b E {app(cmp, a, b)} :: app(cmp, a, b) > 0 <==> app(cmp, b, a) < 0
  option noalloc
  callback cmp pure
  ensures member: exists i int {x[i]} :: 0 <= i < len(x) && x[i] == r
  ensures greatest: forall i int {x[i]} :: 0 <= i < len(x) ==> app(cmp, x[i], r) <= 0
  loop inv $i:int, $m:E :: 1 <= $i <= len(x) && (exists i int {x[i]} :: 0 <= i < $i && x[i] == $m) && (forall i int {x[i]} :: 0 <= i < $i ==> app(cmp, x[i], $m) <= 0)

contract BinarySearchFunc[S, E, T](x, target, cmp) (r, found)
  requires cmp != nil
  requires sorted: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) && app(cmp, x[j], target) < 0 ==> app(cmp, x[i], target) < 0
  option noalloc
  callback cmp pure
  ensures 0 <= r <= len(x)
  ensures below: forall i int {x[i]} :: 0 <= i < r ==> app(cmp, x[i], target) < 0
  ensures above: forall i int {x[i]} :: r <= i < len(x) ==> app(cmp, x[i], target) >= 0
  ensures found <==> r < len(x) && app(cmp, x[r], target) == 0
  loop inv $i:int, $j:int :: 0 <= $i <= $j && $j <= len(x)
    && (forall i int {x[i]} :: 0 <= i < $i ==> app(cmp, x[i], target) < 0)
    && (forall i int {x[i]} :: $j <= i < len(x) ==> app(cmp, x[i], target) >= 0)
  loop inv $i:int, $j:int :: $j - $i + it <= len(x)
  loop bound len(x) + 1

contract Reverse[S, E](s) ()
  option noalloc
  modifies []E @ s
  ensures forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] == old(s[len(s) - 1 - i])
  loop inv $i:int, $j:int :: $i + $j == len(s) - 1 && 0 <= $i <= len(s)
    && (forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] == (i < $i || i > $j ? old(s[len(s) - 1 - i]) : old(s[i])))

contract Clone[S, E](s) (r)
  modifies new []E
  ensures s == nil ==> r == nil
  ensures s != nil ==> r != nil && fresh(r)
  ensures len(r) == len(s) && (forall i int {r[i]} :: 0 <= i < len(s) ==> r[i] == s[i])

contract Grow[S, E](s, n) (r)
  requires n >= 0
  modifies new []E
  ensures len(r) == len(s) && cap(r) >= len(s) + n && (forall i int {r[i]} :: 0 <= i < len(s) ==> r[i] == s[i])
  ensures r == s || fresh(r)

contract Clip[S, E](s) (r)
  option noalloc
  ensures len(r) == len(s) && cap(r) == len(s) && arr(r) == arr(s) && off(r) == off(s)

contract clearSlice[S, E](s) ()
  option noalloc
  modifies []E @ s
  ensures cleared: forall k int {s[k]} :: 0 <= k < len(s) ==> s[k] == zero(E)
  ensures others: forall k int {row(s)[k]} :: k < off(s) || k >= off(s) + len(s) ==> row(s)[k] == old(row(s))[k]
  loop inv forall k int {s[k]} :: 0 <= k < it ==> s[k] == zero(E)
  loop inv forall k int {row(s)[k]} :: k < off(s) || k >= off(s) + len(s) ==> row(s)[k] == old(row(s))[k]

contract Delete[S, E](s, i, j) (r)
  requires 0 <= i <= j <= len(s)
  option noalloc
  modifies []E @ s
  ensures arr(r) == arr(s) && off(r) == off(s) && len(r) == len(s) - (j - i) && cap(r) == cap(s)
  ensures forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] == (k < i ? old(s[k]) : old(s[k + j - i]))

// rnk(f, a, lo, k): how many of the first k elements of a[lo..] start a run
func rnk[E](func(E, E) bool, [int]E, int, int) int
axiom rnk: forall f func(E, E) bool, a [int]E, lo int {rnk(f, a, lo, 0)} :: rnk(f, a, lo, 0) == 0
axiom rnk: forall f func(E, E) bool, a [int]E, lo int, k int, m int {rnk(f, a, lo, k), rnk(f, a, lo, m)} :: 0 <= k && m == k + 1 ==> rnk(f, a, lo, m) == rnk(f, a, lo, k) + (k == 0 || !app(f, a[lo + k], a[lo + k - 1]) ? 1 : 0)
theorem rnk by k hint rnk(f, a, lo, k - 1), rnk(g, a, lo, k - 1), rnk(f, a, lo, 0), rnk(g, a, lo, 0): forall f func(E, E) bool, g func(E, E) bool, a [int]E, lo int, k int {rnk(f, a, lo, k), rnk(g, a, lo, k)} :: 0 <= k && (forall x E, y E {app(f, x, y)} {app(g, x, y)} :: app(f, x, y) <==> app(g, x, y)) ==> rnk(f, a, lo, k) == rnk(g, a, lo, k)
def starts(f, s, k) := k == 0 || !app(f, s[k], s[k - 1])

contract CompactFunc[S, E](s, eq) (r)
  requires eq != nil
  option noalloc
  callback eq pure
  modifies []E @ s
  ensures arr(r) == arr(s) && off(r) == off(s) && len(r) <= len(s) && cap(r) == cap(s)
  ensures count: len(r) == rnk(eq, old(row(s)), off(s), len(s))
  ensures kept: forall k int {old(s[k])} :: 0 <= k < len(s) && old(starts(eq, s, k)) ==> 0 <= rnk(eq, old(row(s)), off(s), k) < len(r) && r[rnk(eq, old(row(s)), off(s), k)] == old(s[k])
  loop inv $i:int, $k:int :: 1 <= $i <= $k && $k <= len(s) && $i == rnk(eq, old(row(s)), off(s), $k)
  loop inv $k:int :: forall i int {s[i]} :: $k - 1 <= i < len(s) ==> s[i] == old(s[i])
  loop inv $i:int, $k:int :: forall k int {old(s[k])} :: 0 <= k < $k && old(starts(eq, s, k)) ==> 0 <= rnk(eq, old(row(s)), off(s), k) < $i && s[rnk(eq, old(row(s)), off(s), k)] == old(s[k])

// src(old, new, lo, n, i): where the element at i of the sorted slice was before
func src[E]([int]E, [int]E, int, int, int) int
// dst: where it went (src is injective on a finite range, so it is onto)
func dst[E]([int]E, [int]E, int, int, int) int
// always true: marks the positions at which dst is wanted
func at(int) bool
axiom at: forall j int {at(j)} :: at(j)

extern SortFunc[S, E](x, cmp) ()
  requires cmp != nil && swoc(cmp)
  option noalloc
  modifies []E @ x
  ensures sorted: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) ==> app(cmp, x[j], x[i]) >= 0
  ensures permuted: forall i int {x[i]} {src(old(row(x)), row(x), off(x), len(x), i)} :: 0 <= i < len(x) ==> 0 <= src(old(row(x)), row(x), off(x), len(x), i) < len(x) && x[i] == old(row(x))[off(x) + src(old(row(x)), row(x), off(x), len(x), i)]
  ensures once: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) ==> src(old(row(x)), row(x), off(x), len(x), i) != src(old(row(x)), row(x), off(x), len(x), j)
  ensures onto: forall j int {at(j)} :: 0 <= j < len(x) ==> 0 <= dst(old(row(x)), row(x), off(x), len(x), j) < len(x) && x[dst(old(row(x)), row(x), off(x), len(x), j)] == old(x[j])

extern SortStableFunc[S, E](x, cmp) ()
  requires cmp != nil && swoc(cmp)
  option noalloc
  modifies []E @ x
  ensures sorted: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) ==> app(cmp, x[j], x[i]) >= 0
  ensures permuted: forall i int {x[i]} :: 0 <= i < len(x) ==> 0 <= src(old(row(x)), row(x), off(x), len(x), i) < len(x) && x[i] == old(row(x))[off(x) + src(old(row(x)), row(x), off(x), len(x), i)]
  ensures once: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) ==> src(old(row(x)), row(x), off(x), len(x), i) != src(old(row(x)), row(x), off(x), len(x), j)
  ensures onto: forall j int {at(j)} :: 0 <= j < len(x) ==> 0 <= dst(old(row(x)), row(x), off(x), len(x), j) < len(x) && x[dst(old(row(x)), row(x), off(x), len(x), j)] == old(x[j])
  ensures stable: forall i int, j int {x[i], x[j]} :: 0 <= i < j < len(x) && app(cmp, x[i], x[j]) >= 0 ==> src(old(row(x)), row(x), off(x), len(x), i) < src(old(row(x)), row(x), off(x), len(x), j)

extern Insert[S, E](s, i, v) (r)
  requires 0 <= i <= len(s)
  modifies []E @ s, new []E
  ensures len(r) == len(s) + len(v)
  ensures fresh(r) || arr(r) == arr(s) && off(r) == off(s)
  ensures forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] == (k < i ? old(s[k]) : (k < i + len(v) ? old(v[k - i]) : old(s[k - len(v)])))

extern Replace[S, E](s, i, j, v) (r)
  requires 0 <= i <= j <= len(s)
  modifies []E @ s, new []E
  ensures len(r) == len(s) - (j - i) + len(v)
  ensures fresh(r) || arr(r) == arr(s) && off(r) == off(s)
  ensures forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] == (k < i ? old(s[k]) : (k < i + len(v) ? old(v[k - i]) : old(s[k - len(v) + (j - i)])))
