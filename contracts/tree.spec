package tree

// up[a]: a is the node itself or one of its ancestors; lay: distance to the root
ghost field Node.up [*Node[T]]bool
ghost field Node.lay int

def links := (forall x *Node[T] {x.Left} :: alloc(x) && x.Left != nil ==> alloc(x.Left) && x.Left.Parent == x && x.Left != x.Right)
  && (forall x *Node[T] {x.Right} :: alloc(x) && x.Right != nil ==> alloc(x.Right) && x.Right.Parent == x && x.Left != x.Right)
  && (forall x *Node[T] {x.Parent} :: alloc(x) && x.Parent != nil ==> alloc(x.Parent) && (x.Parent.Left == x || x.Parent.Right == x))
def lays := (forall x *Node[T] {x.lay, x.Parent} :: alloc(x) ==> x.lay == (x.Parent == nil ? 0 : x.Parent.lay + 1))
  && (forall x *Node[T] {x.lay} :: alloc(x) ==> x.lay >= 0)
def ups := (forall x *Node[T], a *Node[T] {x.up[a], x.Parent} :: alloc(x) ==> (x.up[a] <==> a == x || (x.Parent != nil && x.Parent.up[a])))
  && (forall x *Node[T] {x.Parent} :: alloc(x) ==> x.up[x])
  && (forall x *Node[T], a Ref {x.up[a]} :: alloc(x) && x.up[a] ==> alloc(a, *Node[T]))
  && (forall x *Node[T], a *Node[T] {x.up[a]} :: alloc(x) && x.up[a] ==> a.lay <= x.lay)
  && (forall x *Node[T], a *Node[T] {x.up[a], a.Left} {x.up[a], a.Right} :: alloc(x) && x.up[a] && x != a ==> (a.Left != nil && x.up[a.Left]) || (a.Right != nil && x.up[a.Right]))
def chains := (forall x *Node[T], a *Node[T], b *Node[T] {x.up[a], a.up[b]} :: alloc(x) && x.up[a] && a.up[b] ==> x.up[b])
  && (forall x *Node[T], a *Node[T], b *Node[T] {x.up[a], x.up[b]} :: alloc(x) && x.up[a] && x.up[b] ==> a.up[b] || b.up[a])
def wf := links && lays && ups && chains

contract NewNode[T](val) (n)
  prop C13
  requires wf
  modifies new Node, new Node.up, new Node.lay
  ghost n.lay := 0
  ghost n.up := [a *Node[T]] a == n
  ensures n != nil && fresh(n) && n.Val == val && n.Parent == nil && n.Left == nil && n.Right == nil
  ensures wf

contract (*Node[T]).SetLeft(n, left) (o)
  prop C13
  requires wf
  requires left == nil || (left.Parent == nil && !n.up[left]) || left == n.Left
  modifies Node.Left @ n, Node.Parent @ left|n.Left, Node.up, Node.lay
  ghost if (left != old(n.Left)) then Node.up := [x *Node[T], a *Node[T] {old(x.up[a])}] (old(x.up[a]) && !(old(n.Left) != nil && old(x.up[n.Left]) && old(n.up[a]))) || (left != nil && old(x.up[left]) && old(n.up[a]))
  ghost if (left != old(n.Left)) then Node.lay := [x *Node[T] {old(x.lay)}] left != nil && old(x.up[left]) ? old(x.lay) + old(n.lay) + 1 : (old(n.Left) != nil && old(x.up[n.Left]) ? old(x.lay) - old(n.lay) - 1 : old(x.lay))
  ensures o == old(n.Left) && n.Left == left
  ensures left != nil ==> left.Parent == n
  ensures old(n.Left) != nil && old(n.Left) != left ==> o.Parent == nil
  ensures links
  ensures lays
  ensures ups
  ensures chains

contract (*Node[T]).SetRight(n, right) (o)
  prop C13
  requires wf
  requires right == nil || (right.Parent == nil && !n.up[right]) || right == n.Right
  modifies Node.Right @ n, Node.Parent @ right|n.Right, Node.up, Node.lay
  ghost if (right != old(n.Right)) then Node.up := [x *Node[T], a *Node[T] {old(x.up[a])}] (old(x.up[a]) && !(old(n.Right) != nil && old(x.up[n.Right]) && old(n.up[a]))) || (right != nil && old(x.up[right]) && old(n.up[a]))
  ghost if (right != old(n.Right)) then Node.lay := [x *Node[T] {old(x.lay)}] right != nil && old(x.up[right]) ? old(x.lay) + old(n.lay) + 1 : (old(n.Right) != nil && old(x.up[n.Right]) ? old(x.lay) - old(n.lay) - 1 : old(x.lay))
  ensures o == old(n.Right) && n.Right == right
  ensures right != nil ==> right.Parent == n
  ensures old(n.Right) != nil && old(n.Right) != right ==> o.Parent == nil
  ensures links
  ensures lays
  ensures ups
  ensures chains

contract (*Node[T]).HasLeft(n) (r)
  prop C13
  ensures r <==> n.Left != nil

contract (*Node[T]).HasRight(n) (r)
  prop C13
  ensures r <==> n.Right != nil

contract (*Node[T]).HasChild(n) (r)
  prop C13
  requires wf
  ensures r <==> (exists x *Node[T] {x.Parent} :: alloc(x) && x.Parent == n)

contract (*Node[T]).HasBothChild(n) (r)
  prop C13
  ensures r <==> n.Left != nil && n.Right != nil

contract (*Node[T]).HasParent(n) (r)
  prop C13
  ensures r <==> n.Parent != nil

contract (*Node[T]).IsLeaf(n) (r)
  prop C13
  requires wf
  ensures r <==> !(exists x *Node[T] {x.Parent} :: alloc(x) && x.Parent == n)

contract (*Node[T]).IsRoot(n) (r)
  prop C13
  ensures r <==> n.Parent == nil

contract (*Node[T]).IsLeft(n) (r)
  prop C13
  requires wf
  ensures r <==> n.Parent != nil && n.Parent.Left == n

contract (*Node[T]).IsRight(n) (r)
  prop C13
  requires wf
  ensures r <==> n.Parent != nil && n.Parent.Right == n

// s is n's sibling: the other child of the same parent
def sib(n, s) := s != nil && alloc(s) && s != n && n.Parent != nil && s.Parent == n.Parent

contract (*Node[T]).Sibling(n) (r)
  prop C13
  requires wf
  ensures r != nil ==> sib(n, r)
  ensures only: forall s *Node[T] {s.Parent} :: sib(n, s) ==> r == s

contract (*Node[T]).HasSibling(n) (r)
  prop C13
  requires wf
  ensures r <==> (exists s *Node[T] {s.Parent} :: sib(n, s))

contract (*Node[T]).Uncle(n) (r)
  prop C13
  requires wf
  ensures r != nil ==> n.Parent != nil && sib(n.Parent, r)
  ensures only: n.Parent != nil ==> (forall s *Node[T] {s.Parent} :: sib(n.Parent, s) ==> r == s)

contract (*Node[T]).HasUncle(n) (r)
  prop C13
  requires wf
  ensures r <==> n.Parent != nil && (exists s *Node[T] {s.Parent} :: sib(n.Parent, s))

contract (*Node[T]).Grandparent(n) (r)
  prop C13
  requires wf
  ensures r == (n.Parent == nil ? nil : n.Parent.Parent)

contract (*Node[T]).HasGrandparent(n) (r)
  prop C13
  requires wf
  ensures r <==> n.Parent != nil && n.Parent.Parent != nil

contract (*Node[T]).IsLeftRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node != nil && n.Left == node

contract (*Node[T]).IsRightRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node != nil && n.Right == node

contract (*Node[T]).IsChildRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node != nil && node.Parent == n

contract (*Node[T]).IsSiblingRelation(n, node) (r)
  prop C13
  requires wf
  ensures node != nil ==> (r <==> sib(n, node))
  ensures node == nil ==> (r <==> !(exists s *Node[T] {s.Parent} :: sib(n, s)))

contract (*Node[T]).IsUncleRelation(n, node) (r)
  prop C13
  requires wf
  ensures node != nil ==> (r <==> n.Parent != nil && sib(n.Parent, node))
  ensures node == nil ==> (r <==> n.Parent == nil || !(exists s *Node[T] {s.Parent} :: sib(n.Parent, s)))

contract (*Node[T]).IsGrandparentRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node == (n.Parent == nil ? nil : n.Parent.Parent)

contract (*Node[T]).IsAncestorRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node != nil && node.up[n]
  loop inv $c:*Node[T] :: (node != nil && node.up[n] <==> $c != nil && $c.up[n]) && ($c != nil ==> node != nil && alloc($c) && $c.lay + it == node.lay)
  loop inv $c:*Node[T] :: $c == nil ==> it == (node == nil ? 0 : node.lay + 1)
  loop inv $c:*Node[T] :: node != nil && n != nil && n != node && (node.up[n] <==> $c != nil && $c.up[n]) && ($c != nil ==> alloc($c) && $c.lay + it + 1 == node.lay)
  loop inv $c:*Node[T] :: $c == nil ==> it == node.lay
  loop bound node == nil ? 0 : node.lay + 1
  decreases node == nil ? 0 : node.lay + 1

contract (*Node[T]).IsDescendantRelation(n, node) (r)
  prop C13
  requires wf
  ensures r <==> node != nil && node != n && node.up[n]

contract (*Node[T]).Layer(n) (r)
  prop C13
  requires wf
  option nilrecv
  decreases n == nil ? 0 : n.lay + 1
  ensures r == (n == nil ? -1 : n.lay)
  loop inv $c:*Node[T], $d:int :: $c != nil ==> n != nil && alloc($c) && $d + $c.lay == n.lay
  loop inv $c:*Node[T], $d:int :: $c != nil ==> n != nil && alloc($c) && $d + $c.lay + 1 == n.lay
  loop inv $c:*Node[T] :: n != nil ==> $c != nil && $c.lay + it == n.lay
  loop inv $c:*Node[T] :: n != nil ==> $c != nil ==> $c.lay + it == n.lay
  loop inv $c:*Node[T], $d:int :: n != nil && $c == nil ==> $d == n.lay
  loop inv $c:*Node[T], $d:int :: n != nil && $c == nil ==> $d == n.lay + 1
  loop inv $c:*Node[T] :: n != nil && $c == nil ==> it == n.lay + 1
  loop inv $d:int :: $d == it
  loop inv $d:int :: $d == it - 1
  loop bound n == nil ? 0 : n.lay + 1

// ------------------------------------------------------------------ C14

// labels that every finite tree has: hgt falls from a node to its children;
// sz nodes lie in a subtree and pre numbers them in pre-order; wd[l] of them
// lie in layer l of the tree, where they have, from left to right, the columns
// st[l], st[l] + 1, ..., and cum[l] of them lie in the layers above l
ghost field Node.hgt int
ghost field Node.sz int
ghost field Node.pre int
ghost field Node.wd [int]int
ghost field Node.st [int]int
ghost field Node.col int
ghost field Node.cum [int]int
def size(n) := n == nil ? 0 : n.sz
def width(n, l) := n == nil ? 0 : n.wd[l]
def heights := (forall x *Node[T] {x.Left} :: alloc(x) && x.Left != nil ==> x.Left.hgt < x.hgt)
  && (forall x *Node[T] {x.Right} :: alloc(x) && x.Right != nil ==> x.Right.hgt < x.hgt)
  && (forall x *Node[T] {x.hgt} :: alloc(x) ==> x.hgt >= 0)
def order := (forall x *Node[T] {x.Left} {x.Right} :: alloc(x) ==> x.sz == 1 + size(x.Left) + size(x.Right))
  && (forall x *Node[T] {x.sz} :: alloc(x) ==> x.sz >= 1)
  && (forall x *Node[T] {x.Left} :: alloc(x) && x.Left != nil ==> x.Left.pre == x.pre + 1)
  && (forall x *Node[T] {x.Right} :: alloc(x) && x.Right != nil ==> x.Right.pre == x.pre + 1 + size(x.Left))
  && (forall x *Node[T], a *Node[T] {x.up[a]} :: alloc(x) && x.up[a] ==> a.pre <= x.pre && x.pre < a.pre + a.sz)
  && (forall x *Node[T], y *Node[T], a *Node[T] {x.up[a], y.up[a]} :: alloc(x) && alloc(y) && x.up[a] && y.up[a] && x.pre == y.pre ==> x == y)

def levels := (forall x *Node[T], l int {x.wd[l], x.Left} {x.wd[l], x.Right} :: alloc(x) && l > x.lay ==> x.wd[l] == width(x.Left, l) + width(x.Right, l))
  && (forall x *Node[T], l int {x.wd[l]} :: alloc(x) && l <= x.lay ==> x.wd[l] == (l == x.lay ? 1 : 0))
  && (forall x *Node[T], l int {x.wd[l]} :: alloc(x) ==> x.wd[l] >= 0)
  && (forall x *Node[T], l int {x.Left.wd[l]} {x.Left.st[l]} :: alloc(x) && x.Left != nil && l > x.lay ==> x.Left.st[l] == x.st[l])
  && (forall x *Node[T], l int {x.Right.wd[l]} {x.Right.st[l]} :: alloc(x) && x.Right != nil && l > x.lay ==> x.Right.st[l] == x.st[l] + width(x.Left, l))
  && (forall x *Node[T] {x.Left} :: alloc(x) && x.Left != nil ==> x.Left.lay == x.lay + 1)
  && (forall x *Node[T] {x.Right} :: alloc(x) && x.Right != nil ==> x.Right.lay == x.lay + 1)
  && (forall x *Node[T] {x.col} {x.Left} :: alloc(x) ==> x.col == x.st[x.lay])
def places := (forall x *Node[T], l int {x.wd[l], x.cum[l]} :: alloc(x) ==> x.cum[l + 1] == x.cum[l] + x.wd[l])
  && (forall x *Node[T] {x.cum} :: alloc(x) ==> x.cum[x.lay] == 0)
  && (forall x *Node[T], a *Node[T] {x.up[a]} :: alloc(x) && x.up[a] ==> a.lay <= x.lay && a.st[x.lay] <= x.col && x.col < a.st[x.lay] + a.wd[x.lay])
  && (forall x *Node[T], y *Node[T], a *Node[T] {x.up[a], y.up[a]} :: alloc(x) && alloc(y) && x.up[a] && y.up[a] && x.lay == y.lay && x.col == y.col ==> x == y)
// the place of y among the nodes below n in breadth-first order
def rank(n, y) := n.cum[y.lay] + (y.col - n.st[y.lay])

// the nodes below a (x.up[a]) are those reached from it by child links
def down := (forall x *Node[T] {x.Left} :: alloc(x) && x.Left != nil ==> alloc(x.Left))
  && (forall x *Node[T] {x.Right} :: alloc(x) && x.Right != nil ==> alloc(x.Right))
  && (forall x *Node[T], a *Node[T] {x.up[a], x.Left} :: alloc(x) && x.up[a] && x.Left != nil ==> x.Left.up[a])
  && (forall x *Node[T], a *Node[T] {x.up[a], x.Right} :: alloc(x) && x.up[a] && x.Right != nil ==> x.Right.up[a])
  && (forall x *Node[T], a *Node[T] {x.up[a.Left]} :: alloc(x) && a.Left != nil && x.up[a.Left] ==> x.up[a])
  && (forall x *Node[T], a *Node[T] {x.up[a.Right]} :: alloc(x) && a.Right != nil && x.up[a.Right] ==> x.up[a])
  && (forall x *Node[T] {x.sz} {x.Left} {x.up[x]} :: alloc(x) ==> x.up[x])
  && (forall x *Node[T], a *Node[T] {x.up[a], a.Left} {x.up[a], a.Right} :: alloc(x) && x.up[a] && x != a ==> (a.Left != nil && x.up[a.Left]) || (a.Right != nil && x.up[a.Right]))

// always true: the term the solver instantiates statements about all nodes with
func seen[T](*Node[T]) bool
axiom seen: forall y *Node[T] {seen(y)} :: seen(y)

// the nodes in the order they were allocated
def nd(k) := allocated(Node[T], k)
contract BuildTree[T](val) (root)
  prop C14
  option alloclog
  requires nallocs(Node[T]) == 0
  modifies new Node
  ensures empty: len(val) == 0 ==> root == nil
  ensures root: len(val) > 0 ==> root == nd(0) && root.Parent == nil && nallocs(Node[T]) == len(val)
  ensures values: forall k int {nd(k)} :: 0 <= k < len(val) ==> nd(k) != nil && fresh(nd(k)) && nd(k).Val == val[k]
  ensures distinct: forall k int, j int {nd(k), nd(j)} :: 0 <= k < j < len(val) ==> nd(k) != nd(j)
  ensures left: forall k int {nd(k).Left} :: 0 <= k < len(val) ==> nd(k).Left == (2 * k + 1 < len(val) ? nd(2 * k + 1) : nil)
  ensures right: forall k int {nd(k).Right} :: 0 <= k < len(val) ==> nd(k).Right == (2 * k + 2 < len(val) ? nd(2 * k + 2) : nil)
  ensures parents: forall k int {nd(k).Parent} :: 0 < k < len(val) ==> nd(k).Parent == nd(div(k - 1, 2))
  loop inv $i:int :: 1 <= $i <= len(val) && nallocs(Node[T]) == $i
  loop inv nd(0).Parent == nil
  loop inv nd(0) == pre(nd(0))
  loop inv $q:[]*Node[T] :: fresh(arr($q))
  loop inv $i:int :: $i >= 1 + it
  loop inv forall k int {nd(k)} :: 0 <= k < nallocs(Node[T]) ==> nd(k) != nil && fresh(nd(k)) && nd(k).Val == val[k]
  loop inv forall k int, j int {nd(k), nd(j)} :: 0 <= k < j < nallocs(Node[T]) ==> nd(k) != nd(j)
  loop inv $q:[]*Node[T], $i:int :: 1 <= len($q) <= $i && ($i == 2 * ($i - len($q)) + 1 || $i == 2 * ($i - len($q)) && $i == len(val))
  loop inv $q:[]*Node[T], $i:int :: forall j int {$q[j]} :: 0 <= j < len($q) ==> $q[j] == nd($i - len($q) + j)
  loop inv forall k int {nd(k).Left} :: 0 <= k < nallocs(Node[T]) ==> nd(k).Left == (2 * k + 1 < nallocs(Node[T]) ? nd(2 * k + 1) : nil)
  loop inv forall k int {nd(k).Right} :: 0 <= k < nallocs(Node[T]) ==> nd(k).Right == (2 * k + 2 < nallocs(Node[T]) ? nd(2 * k + 2) : nil)
  loop inv forall k int {nd(k).Parent} :: 0 < k < nallocs(Node[T]) ==> nd(k).Parent == nd(div(k - 1, 2))
  loop bound len(val)

contract (*Node[T]).MaxDepth(n) (r)
  prop C14
  option nilrecv
  option noalloc
  requires wf && heights
  decreases n == nil ? 0 : n.hgt + 1
  ensures nil: n == nil ==> r == 0
  ensures bound: n != nil ==> (forall y *Node[T] {y.up[n]} :: alloc(y) && y.up[n] ==> y.lay - n.lay <= r)
  ensures path: n != nil ==> (exists y *Node[T] {y.up[n]} :: alloc(y) && y.up[n] && y.lay - n.lay == r)

contract (*Node[T]).TraversalDFS(n) (res)
  prop C14
  requires down && order && n != nil
  modifies new []*Node[T]
  ensures len(res) == n.sz
  ensures order: forall i int {res[i]} :: 0 <= i < len(res) ==> res[i] != nil && res[i].up[n] && res[i].pre == n.pre + i
  ensures all: forall y *Node[T] {seen(y)} :: seen(y) && alloc(y) && !fresh(y) && y.up[n] ==> 0 <= y.pre - n.pre < len(res) && res[y.pre - n.pre] == y
  loop inv $q:[]*Node[T] :: forall j int {$q[j]} :: 0 <= j < len($q) ==> $q[j] != nil && alloc($q[j]) && !fresh($q[j]) && $q[j].up[n]
  loop inv $r:[]*Node[T] :: forall i int {$r[i]} :: 0 <= i < len($r) ==> $r[i] != nil && alloc($r[i]) && !fresh($r[i]) && $r[i].up[n] && $r[i].pre == n.pre + i
  loop inv $q:[]*Node[T], $r:[]*Node[T] :: arr($q) != arr($r) && fresh(arr($q)) && (cap($r) == 0 || fresh(arr($r)))
  loop inv $q:[]*Node[T], $r:[]*Node[T] :: len($q) > 0 ? $q[len($q) - 1].pre == n.pre + len($r) && $q[0].pre + $q[0].sz == n.pre + n.sz : len($r) == n.sz
  loop inv $q:[]*Node[T] :: forall i int, j int {$q[i], $q[j]} :: 0 <= i && j == i + 1 && j < len($q) ==> $q[j].pre + $q[j].sz == $q[i].pre
  loop inv $r:[]*Node[T] :: len($r) == it
  loop bound n.sz

def oldlen(val, i) := i < len(val) ? len(val[i]) : 0
contract (*Node[T]).traversalBFS(n, val, level) (res)
  prop C14
  option nilrecv
  option noalloc Node[T]
  requires down && heights && levels
  requires 0 <= level && level <= len(val)
  requires forall i int {val[i]} :: 0 <= i < len(val) ==> arr(val[i]) != nil && len(val[i]) >= 0
  requires forall i int, j int {val[i], val[j]} :: 0 <= i < j < len(val) ==> arr(val[i]) != arr(val[j])
  modifies []*Node[T], [][]*Node[T]
  decreases n == nil ? 0 : n.hgt + 1
  ensures same: n == nil ==> res == val
  ensures levels: len(res) >= len(val)
  ensures lens: forall i int {res[i]} :: 0 <= i < len(res) ==> len(res[i]) == old(oldlen(val, i)) + width(n, n.lay - level + i)
  ensures kept: forall p int, k int {row(row(res)[p])[k]} :: let i := p - off(res) :: let o := off(row(res)[p]) :: 0 <= i < len(val) && o <= k < o + old(len(val[i])) ==> row(row(res)[p])[k] == old(row(val[i])[k - o + off(val[i])])
  ensures new: forall p int, k int {row(row(res)[p])[k]} :: let i := p - off(res) :: let y := row(row(res)[p])[k] :: let j := k - off(row(res)[p]) :: 0 <= i < len(res) && old(oldlen(val, i)) <= j < len(row(res)[p]) ==> y != nil && alloc(y) && !fresh(y) && y.up[n] && y.lay == n.lay - level + i && y.col == n.st[n.lay - level + i] + j - old(oldlen(val, i))
  ensures arrays: forall i int {res[i]} :: 0 <= i < len(res) ==> arr(res[i]) != nil && len(res[i]) >= 0
  ensures distinct: forall i int, j int {res[i], res[j]} :: 0 <= i < j < len(res) ==> arr(res[i]) != arr(res[j])
  ensures rest: n != nil ==> (forall l int {n.wd[l]} :: l >= n.lay - level + len(res) ==> n.wd[l] == 0)

contract (*Node[T]).TraversalBFS(n) (res)
  prop C14
  requires down && heights && levels && places && n != nil
  modifies []*Node[T], [][]*Node[T]
  ensures order: forall i int {res[i]} :: 0 <= i < len(res) ==> res[i] != nil && alloc(res[i]) && !fresh(res[i]) && res[i].up[n] && rank(n, res[i]) == i
  ensures all: forall y *Node[T] {seen(y)} :: seen(y) && alloc(y) && !fresh(y) && y.up[n] ==> 0 <= rank(n, y) < len(res) && res[rank(n, y)] == y
  loop inv %s:[][]*Node[T] :: 0 <= it <= len(%s)
  loop inv $r:[]*Node[T] :: len($r) == n.cum[n.lay + it] && n.wd[n.lay + it] >= 0
  loop inv $r:[]*Node[T] :: forall i int {$r[i]} :: 0 <= i < len($r) ==> $r[i] != nil && alloc($r[i]) && !fresh($r[i]) && $r[i].up[n] && rank(n, $r[i]) == i
  loop inv $r:[]*Node[T] :: forall y *Node[T] {seen(y)} :: seen(y) && alloc(y) && !fresh(y) && y.up[n] && y.lay < n.lay + it ==> 0 <= rank(n, y) < len($r) && $r[rank(n, y)] == y
  loop inv $r:[]*Node[T], %s:[][]*Node[T] :: forall i int {%s[i]} :: 0 <= i < len(%s) ==> arr(%s[i]) != arr($r)
  loop inv %s:[][]*Node[T] :: forall p int, k int {row(row(%s)[p])[k]} :: let i := p - off(%s) :: let y := row(row(%s)[p])[k] :: let j := k - off(row(%s)[p]) :: 0 <= i < len(%s) && 0 <= j < len(row(%s)[p]) ==> y != nil && alloc(y) && !fresh(y) && y.up[n] && y.lay == n.lay + i && y.col == n.st[n.lay + i] + j
  loop bound %s:[][]*Node[T] :: len(%s)
