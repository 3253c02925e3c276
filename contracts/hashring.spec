package hashring

// hk(key, replica): the hash of a ring point, defined by hashKey
func hk[K](K, int) uint32
// always true: only says where the statements about replicas are instantiated
func pt[K](K, int) bool
axiom pt: forall m K, v int {pt(m, v)} :: pt(m, v)

// ring points are ordered by hash, then by name
def plt(h1, n1, h2, n2) := h1 < h2 || (h1 == h2 && n1 < n2)

def cmpok(hr) := hr.nodes.cmpLess != nil && hr.nodes.cmpEqual != nil
  && (forall a node[Node], b node[Node] {app(hr.nodes.cmpLess, a, b)} :: app(hr.nodes.cmpLess, a, b) <==> plt(a.hash, a.Node, b.hash, b.Node))
def base(hr) := hr.nodes != nil && alloc(hr.nodes) && hr.rawNodes != nil && cmpok(hr)
// every point is a member's replica, and every member's replicas are points
def points(hr) := (forall k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) ==> hr.nodes.d[k].Node in hr.rawNodes)
  && (forall k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) ==> (exists v int {hk(hr.nodes.d[k].Node, v)} :: 0 <= v < hr.replicas && hr.nodes.d[k].hash == hk(hr.nodes.d[k].Node, v)))
  && (forall m Node, v int {pt(m, v)} :: pt(m, v) && m in hr.rawNodes && 0 <= v < hr.replicas ==> (exists k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) && slices.at(k) && hr.nodes.d[k].Node == m && hr.nodes.d[k].hash == hk(m, v)))
def sorted(hr) := forall i int, j int {hr.nodes.d[i], hr.nodes.d[j]} :: 0 <= i < j < len(hr.nodes.d) ==> !plt(hr.nodes.d[j].hash, hr.nodes.d[j].Node, hr.nodes.d[i].hash, hr.nodes.d[i].Node)
def wf(hr) := base(hr) && points(hr) && sorted(hr)

contract (*HashRing[Node]).hashKey(hr, key, index) (r)
  prop C12
  opaque
  option noalloc
  functional r == hk(key, index)

contract New[Node](replicas) (hr)
  prop C12
  inline vec.New
  unroll vec.New 2
  ensures fresh(hr) && hr != nil && hr.replicas == replicas && wf(hr)
  ensures fresh(hr.nodes) && fresh(hr.rawNodes)
  ensures forall m Node {m in hr.rawNodes} :: !(m in hr.rawNodes)

contract (*HashRing[Node]).AddNodes(hr, nodes) (r)
  prop C12
  requires wf(hr)
  modifies vec.Vec[node[Node]].d @ hr.nodes, []node[Node] @ hr.nodes.d, new []node[Node], set.Set[Node] @ hr.rawNodes, new set.Set[Node], new []Node
  ensures r == hr && base(hr)
  ensures points(hr)
  ensures sorted(hr)
  ensures members: forall m Node {m in hr.rawNodes} :: m in hr.rawNodes <==> old(m in hr.rawNodes) || (exists i int {nodes[i]} :: 0 <= i < len(nodes) && nodes[i] == m)
  loop inv fresh(hr.nodes.d) || arr(hr.nodes.d) == old(arr(hr.nodes.d))
  loop inv forall k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) ==> (hr.nodes.d[k].Node in hr.rawNodes || visited[hr.nodes.d[k].Node])
  loop inv forall k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) ==> (exists v int {hk(hr.nodes.d[k].Node, v)} :: 0 <= v < hr.replicas && hr.nodes.d[k].hash == hk(hr.nodes.d[k].Node, v))
  loop inv forall m Node, v int {pt(m, v)} :: pt(m, v) && (m in hr.rawNodes || visited[m]) && 0 <= v < hr.replicas ==> (exists k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) && slices.at(k) && hr.nodes.d[k].Node == m && hr.nodes.d[k].hash == hk(m, v))
  loop inv forall k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) ==> (hr.nodes.d[k].Node in hr.rawNodes || visited1[hr.nodes.d[k].Node])
  loop inv %x:Node :: forall m Node, v int {pt(m, v)} :: pt(m, v) && (((m in hr.rawNodes || visited1[m]) && m != %x && v < hr.replicas) || (m == %x && v < it)) && 0 <= v ==> (exists k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) && slices.at(k) && hr.nodes.d[k].Node == m && hr.nodes.d[k].hash == hk(m, v))
  loop inv $v:int :: $v == it && it <= (hr.replicas < 0 ? 0 : hr.replicas)
  loop bound hr.replicas < 0 ? 0 : hr.replicas

contract (*HashRing[Node]).ResetNodes(hr, nodes) ()
  prop C12
  requires wf(hr)
  use hashring.(*HashRing).AddNodes
  modifies vec.Vec[node[Node]].d @ hr.nodes, []node[Node] @ hr.nodes.d, new []node[Node], set.Set[Node] @ hr.rawNodes, new set.Set[Node], new []Node
  ensures wf(hr)
  ensures members: forall m Node {m in hr.rawNodes} :: m in hr.rawNodes <==> (exists i int {nodes[i]} :: 0 <= i < len(nodes) && nodes[i] == m)

contract (*HashRing[Node]).RemoveNodes(hr, nodes) ()
  prop C12
  requires wf(hr)
  use hashring.(*HashRing).ResetNodes
  modifies vec.Vec[node[Node]].d @ hr.nodes, []node[Node] @ hr.nodes.d, new []node[Node], set.Set[Node] @ hr.rawNodes, new set.Set[Node], new []Node
  ensures wf(hr)
  ensures members: forall m Node {m in hr.rawNodes} :: m in hr.rawNodes <==> old(m in hr.rawNodes) && !(exists i int {nodes[i]} :: 0 <= i < len(nodes) && nodes[i] == m)

// (h, n) is the first of the points of the members at or after (h0, n0), wrapping around
def first(hr, h0, n0, h, n) := (!plt(h, n, h0, n0) && (forall m Node, v int {pt(m, v)} :: pt(m, v) && m in hr.rawNodes && 0 <= v < hr.replicas && !plt(hk(m, v), m, h0, n0) ==> !plt(hk(m, v), m, h, n)))
  || ((forall m Node, v int {pt(m, v)} :: pt(m, v) && m in hr.rawNodes && 0 <= v < hr.replicas ==> plt(hk(m, v), m, h0, n0)) && (forall m Node, v int {pt(m, v)} :: pt(m, v) && m in hr.rawNodes && 0 <= v < hr.replicas ==> !plt(hk(m, v), m, h, n)))

def firstd(hr, h0, n0, k) := (!plt(hr.nodes.d[k].hash, hr.nodes.d[k].Node, h0, n0) && (forall j int {hr.nodes.d[j]} :: 0 <= j < len(hr.nodes.d) && !plt(hr.nodes.d[j].hash, hr.nodes.d[j].Node, h0, n0) ==> !plt(hr.nodes.d[j].hash, hr.nodes.d[j].Node, hr.nodes.d[k].hash, hr.nodes.d[k].Node)))
  || ((forall j int {hr.nodes.d[j]} :: 0 <= j < len(hr.nodes.d) ==> plt(hr.nodes.d[j].hash, hr.nodes.d[j].Node, h0, n0)) && (forall j int {hr.nodes.d[j]} :: 0 <= j < len(hr.nodes.d) ==> !plt(hr.nodes.d[j].hash, hr.nodes.d[j].Node, hr.nodes.d[k].hash, hr.nodes.d[k].Node)))

contract (*HashRing[Node]).GetNode(hr, key) (n)
  prop C12
  requires wf(hr)
  lemma found: len(hr.nodes.d) > 0 ==> (exists k int {hr.nodes.d[k]} :: 0 <= k < len(hr.nodes.d) && n == hr.nodes.d[k].Node && firstd(hr, hk(key, 0), key, k))
  ensures member: hr.replicas > 0 && (exists m Node {m in hr.rawNodes} :: m in hr.rawNodes) ==> n in hr.rawNodes
  ensures owner: hr.replicas > 0 && (exists m Node {m in hr.rawNodes} :: m in hr.rawNodes) ==> (exists v int {hk(n, v)} :: 0 <= v < hr.replicas && first(hr, hk(key, 0), key, hk(n, v), n))
  ensures owned: hr.replicas > 0 && (exists m Node {m in hr.rawNodes} :: m in hr.rawNodes) ==> (exists v int {hk(n, v)} :: own(dom(hr.rawNodes), hr.replicas, key, n, v))
  ensures unique: forall s [Node]bool, k Node, a Node, v int, b Node, w int :: own(s, hr.replicas, k, a, v) && own(s, hr.replicas, k, b, w) ==> a == b
  ensures disruption: forall s [Node]bool, x Node, k Node, a Node, v int, b Node, w int :: own(s, hr.replicas, k, a, v) && own(s[x := true], hr.replicas, k, b, w) ==> b == a || b == x
  ensures empty: hr.replicas <= 0 || !(exists m Node {m in hr.rawNodes} :: m in hr.rawNodes) ==> n == zero(Node)

// consequences of the definition of the owner, for every set s of members:
// the owner is unique, and one more member x takes over keys only for itself
// (read the other way round: removing x moves only the keys x owned)
def own(s, R, k, a, v) := s[a] && 0 <= v < R && pt(a, v)
  && ((!plt(hk(a, v), a, hk(k, 0), k) && (forall m Node, w int {pt(m, w)} :: pt(m, w) && s[m] && 0 <= w < R && !plt(hk(m, w), m, hk(k, 0), k) ==> !plt(hk(m, w), m, hk(a, v), a)))
  || ((forall m Node, w int {pt(m, w)} :: pt(m, w) && s[m] && 0 <= w < R ==> plt(hk(m, w), m, hk(k, 0), k)) && (forall m Node, w int {pt(m, w)} :: pt(m, w) && s[m] && 0 <= w < R ==> !plt(hk(m, w), m, hk(a, v), a))))
