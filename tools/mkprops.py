#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that ids stay in one place)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        **({'observe_at':list(observe)} if observe else {}),hook_needed=None)))
p('C01','Linked list: every structural operation is the sequence operation it names',
 'After any history of pushes, inserts, removals, moves, swaps and clears through valid handles, walking the list forwards and backwards from either end and by index yields exactly the sequence the same operations produce on an ordinary sequence, with the reported length equal to the number of elements. An operation that does not touch an element leaves its value, its place and its handle alone, also in every other list.',
 ['histories','inputs'],'every history of calls on any number of lists, of any length, and every position, including neighbours, ends and an element used as its own mark',
 'The tests run a few fixed sequences on lists of at most four elements; the forward links, backward links, owner and length must agree after every step of every history.',
 ['dllist/dllist.go','dllist/element.go'],[('insert / remove / move / Swap pointer surgery','dllist/dllist.go'),('Clear and lazyInit','dllist/dllist.go'),('Next / Prev stop at the sentinel','dllist/element.go')],
 [('root','sentinel closing the ring','dllist/dllist.go'),('len','number of linked elements','dllist/dllist.go')],['Front','Back','Get','Next','Prev','Len'])
p('C02','Linked list: foreign, detached and stale handles change nothing',
 'A list operation given a handle that does not belong to that list (one removed earlier, one left over from a cleared list, or one of another list), or an element method on a detached handle, changes no list: it returns nothing new and no length, link or value of any list changes. Removing a handle twice is harmless and still reports its value.',
 ['histories','inputs'],'every list, every handle not owned by it, every operation taking a handle',
 'A handful of tests pass one foreign mark; ownership must be decided correctly for every handle after every history, including handles that survived a clear.',
 ['dllist/dllist.go','dllist/element.go'],[('owner check before every splice','dllist/dllist.go'),('detaching on removal and clear','dllist/dllist.go')])
p('C03','Linked list: bulk operations and sorting keep every value and the right order',
 'Appending or prepending another list (or the list itself) at an end adds exactly its values in order and leaves the source as it was, inserting another list at a mark adds each of its values once directly behind the mark; iteration visits every element once in order until the callback declines, and says whether it finished; exporting yields the values front to back. Sorting with a strict weak order leaves a non-decreasing permutation of the values.',
 ['inputs','histories'],'all list contents and lengths, both aliasing cases, every strict weak order, every callback',
 'Tests sort one short list and append lists of three; sortedness and permutation quantify over all contents and the aliasing case over all lengths.',
 ['dllist/dllist.go','dllist/element.go'],[('loop bounded by the length taken before the first insert','dllist/dllist.go'),('quicksort by partition into two lists','dllist/dllist.go')])
p('C04','Ring: linking, unlinking, moving and length follow the ring algebra',
 'A ring of n elements stays one closed cycle in which forward and backward steps are inverse; moving by any signed amount equals that many single steps, the length counts the cycle, and a full walk calls back once per element in order. Linking two rings joins them, linking within one ring removes the elements in between and returns them as a ring, and unlinking n removes the n elements after the receiver.',
 ['inputs','histories'],'every ring size, every pair of elements in the same or different rings, every signed offset, and the zero-value element',
 'Tests check rings up to length 10; the cycle structure is an invariant over all sizes and all link points.',
 ['ring/ring.go'],[('Link splices four pointers','ring/ring.go'),('lazy initialisation of a zero element','ring/ring.go')])
p('C05','Heap: heap order, content and the minimum survive every operation',
 'For any container that implements the interface with a strict weak order, building, pushing, popping, removing at an index and fixing an index keep the heap order and keep the contents exactly (nothing lost, nothing duplicated, only the pushed or removed element differs). Popping returns a least element; removing returns the element at that index; the shipped min and max containers order by < and >.',
 ['inputs','histories'],'every heap size, every index, every content including duplicates, every implementation of the interface',
 'Tests drain a few heaps of ints; heap order is a property of every parent-child pair for every size and index.',
 ['heap/heap.go','heap/minheap.go','heap/maxheap.go'],[('sift up / sift down','heap/heap.go'),('swap-to-end before Pop','heap/heap.go')])
p('C06','Priority queue: pop returns an entry of extreme priority, nothing is lost',
 'A min (max) priority queue pops an entry whose priority is no larger (smaller) than that of any queued entry, together with the value that was pushed with it; the length is the number of pushes minus pops and every pushed pair is popped exactly once.',
 ['histories','inputs'],'every interleaving of pushes and pops on both kinds of queue, all priorities including equal and extreme ones',
 'Tests push a dozen distinct priorities; pairing of priority and value and the extreme-priority guarantee quantify over all histories.',
 ['pqueue/pqueue.go','pqueue/minqueue.go','pqueue/maxqueue.go','heap/heap.go'],[('ordering by priority','pqueue/minqueue.go'),('heap operations','heap/heap.go')])
p('C07','Set: every operation is the mathematical set operation and leaves operands alone',
 'Membership, insertion, removal, union, difference, symmetric difference, intersection, clone, copy, equality, subset and superset agree with the mathematical operations on finite sets for all operands, including empty, nil and identical ones. Operations that return a new set do not change their operands, and the result shares no storage with them; iteration visits each member at most once and all of them unless told to stop.',
 ['inputs'],'all pairs (and lists) of sets, including empty, nil and aliased operands',
 'Tests use a few small overlapping sets; a relation that is wrong only for disjoint, empty, or equal-size operands is not sampled.',
 ['set/set.go'],[('map keyed by the element','set/set.go'),('early exits on length in the subset test','set/set.go')])
p('C08','Generic map: each method has the plain map semantics it documents',
 'Load, store, delete, load-or-store, load-and-delete, load-and-store, copying in both directions, cloning, clearing, conditional deletion, equality and iteration act on the map exactly as the corresponding operations on a plain map, return the value and presence flag that were there, and touch no other key. A clone is independent of its original.',
 ['inputs','histories'],'every map content, key, value (including zero values stored explicitly) and callback',
 'Tests call each method once or twice; the zero-value and absent-key combinations and the untouched-other-keys part range over all contents.',
 ['genmap/genmap.go'],[('direct map operations','genmap/genmap.go')])
p('C09','Linked hash map: one entry per key, most recently used first',
 'The linked hash map holds exactly one entry per stored key with the last value stored; lookups find exactly the stored keys, the length counts them, and iteration lists every entry exactly once in order of most recent store or successful load. Removal and clear drop exactly the keys named, and the index and the order never disagree after any history.',
 ['histories','inputs'],'every history of store, load, remove, clear and range over any keys',
 'The single test stores a few keys; agreement of index and list is an invariant of all histories.',
 ['lhashmap/lhashmap.go','dllist/dllist.go'],[('map from key to list element','lhashmap/lhashmap.go'),('move to front on use','lhashmap/lhashmap.go')],
 [('m','key to element index','lhashmap/lhashmap.go'),('l','recency list','lhashmap/lhashmap.go')])
p('C10','Vector: editing operations change exactly the elements they name',
 'Push, pop, get, set, insert, remove, cut, delete, replace, split, swap, reverse, clone, clear, grow and clip give the contents the same edit gives on an ordinary sequence; out-of-range arguments are reported (false, nil or a panic, as documented) without changing the vector. Clones, cut-out parts and split-off vectors do not share storage with the original, so later edits of one never show in the other.',
 ['inputs','histories'],'every content, length, capacity and index, including boundary indices and spare capacity',
 'Tests edit one short vector; aliasing through spare capacity appears only for particular length/capacity combinations.',
 ['vec/vec.go'],[('slice surgery','vec/vec.go'),('slices.Clone before the shift in Cut','vec/vec.go')])
p('C11','Vector: searching, comparing and sorting respect the configured order',
 'With a strict weak order and a consistent equality, sorting yields a non-decreasing permutation (stably when asked), the sortedness test is exact, binary search on a sorted vector returns the first position not less than the target and whether an equal element is there, and linear search, contains, equality, lexicographic comparison, compaction, minimum and maximum are those of the sequence. None of the queries changes the vector.',
 ['inputs'],'all contents and lengths, all strict weak orders and equalities, all targets',
 'Tests sort and search a few small integer vectors; order properties quantify over all contents and comparators.',
 ['vec/vec.go'],[('adapter from less/equal to three-way comparison','vec/vec.go'),('slices package algorithms','vec/vec.go')])
p('C12','Hash ring: lookups are a function of membership and always name a member',
 'A lookup on a non-empty ring always returns a current member, the member owning the first ring point at or after the point of the key (points are ordered by hash, equal hashes by name, and the ring wraps around), and the answer depends only on the set of members, never on the order of additions and removals. Adding a member moves keys only to it and removing one moves only the keys it owned; duplicates and unknown removals change nothing; an empty ring returns the zero value.',
 ['histories','inputs'],'every history of add, remove and reset with any names and replica count, every key, including hash collisions',
 'Tests look up a few keys on one ring; minimal disruption and order independence quantify over pairs of histories and over colliding hashes.',
 ['hashring/hashring.go','vec/vec.go','set/set.go'],[('points sorted by hash then name','hashring/hashring.go'),('binary search with wrap-around','hashring/hashring.go')])
p('C13','Tree: links stay mutual and relation queries match the real relations',
 'Setting a child that has no parent yet (or is the one already there, or nil) makes parent and child links mutual, detaches the child that was there and returns it. Leaf, root, left, right, sibling, uncle, grandparent, child, ancestor and descendant queries, and the layer of a node, agree with the actual shape of the tree for every node and pair of nodes, including absent relatives and nodes of different trees.',
 ['inputs','histories'],'all tree shapes, all nodes and pairs of nodes, absent relatives',
 'Tests query one seven-node tree; relation queries quantify over all shapes and unrelated pairs.',
 ['tree/tree.go'],[('SetLeft / SetRight update both ends','tree/tree.go'),('parent walk','tree/tree.go')])
p('C14','Tree: building, depth and traversals visit the whole tree in order',
 'Building from a slice gives the complete tree whose breadth-first order is the slice, with mutual links. The depth is the length of a longest downward path, depth-first traversal is the pre-order, and both traversals list every node of the subtree exactly once, breadth-first by level from left to right.',
 ['inputs'],'all slices and all tree shapes, including degenerate chains and single nodes',
 'Tests traverse one or two balanced trees; exactly-once and order statements range over all shapes.',
 ['tree/tree.go'],[('queue while building','tree/tree.go'),('explicit stack / per-level lists','tree/tree.go')])
p('C15','Concurrent map, used by one goroutine: plain map semantics and exact length',
 'Used sequentially, every method of the concurrent map (load, store, swap, load-or-store, compare-and-swap, load-and-delete, compare-and-delete, delete, range, clear) returns and leaves what the same operation on a plain map would, whatever internal promotions, expunged entries and copies the history caused. The length always equals the number of keys present.',
 ['histories','inputs'],'every history of calls by one goroutine, so every reachable internal state: any split of entries between the read-only and the dirty part, deleted and expunged entries',
 'Tests run short histories; the internal states with expunged entries and half-promoted maps are reached only by particular histories.',
 ['rwmap/rwmap.go'],[('read-only and dirty maps with promotion','rwmap/rwmap.go'),('expunged marker','rwmap/rwmap.go'),('length counter','rwmap/rwmap.go')])
p('C16','Concurrent map: no update is lost and the length is exact under concurrency',
 'Whatever goroutines run, each operation takes effect on a key atomically: a compare-and-swap or compare-and-delete succeeds only on an equal current value, a load never returns a value that was not stored, a stored value is not lost, and exactly one of several concurrent load-and-delete calls gets a value. Once all operations have returned, the length equals the number of keys present.',
 ['schedules','histories'],'every interleaving of any number of goroutines at the granularity of atomic operations and lock acquisitions',
 'Tests hammer the map for a moment; the harmful windows are a few instructions wide.',
 ['rwmap/rwmap.go'],[('compare-and-swap loops on the entry','rwmap/rwmap.go'),('lock around promotion and expunging','rwmap/rwmap.go'),('length adjusted by whoever changes presence','rwmap/rwmap.go')])
p('C17','Refresh cache: a get is served only from a fresh result of the refresh function',
 'Get returns cached data only if the last refresh succeeded, was not cleared since and is younger than the maximum age (or the maximum age is negative); returns a cached error only if the last refresh failed and is younger than the error age; and otherwise calls the refresh function exactly once with the previous data in its context and returns and records its result. A failed or panicking refresh never turns into data, a refresh always calls through, clear invalidates the data and calls the clear function with it, in all three variants.',
 ['histories','inputs'],'every history of get, refresh, clear with any ages (zero, negative, huge), any clock readings, any refresh outcome (value, error, panic)',
 'Tests use two ages and real sleeps; the conditions range over all clock readings, ages and outcomes including panics.',
 ['refreshcache/refreshcache.go','refreshcache0/refreshcache0.go','refreshcache1/refreshcache1.go'],[('age tests on last success and last error','refreshcache/refreshcache.go'),('result recorded under the lock','refreshcache/refreshcache.go')])
p('C18','Refresh cache: refreshes never overlap and concurrent gets share one result',
 'Under any schedule the refresh function never runs twice at the same time for one cache, the lock is free again after every outcome including a panic, and a get that waited for a running refresh that succeeded does not refresh again while that result is fresh. No get returns data the refresh function did not produce before, or mixes the result of one refresh with the status of another.',
 ['schedules','fault_sequences'],'every interleaving of get, refresh, clear and raw reads, and every panic of the refresh function',
 'Tests start a few goroutines once; the window between the unlocked test and the lock needs a particular schedule.',
 ['refreshcache/refreshcache.go','refreshcache0/refreshcache0.go','refreshcache1/refreshcache1.go'],[('re-check after acquiring the lock','refreshcache/refreshcache.go'),('value published before its timestamp','refreshcache/refreshcache.go')])
p('C19','Sync cache: an expired entry is never returned and a live one is never dropped',
 'A load, load-or-store, load-and-delete or range never hands out an entry that is past its expiration, and none of them, nor the background trim, removes an entry that has not expired; storing over an expired entry succeeds. Extending or setting an expiration takes effect for the entry it is called on, and values come back as stored.',
 ['histories','schedules','inputs'],'every history of calls and clock readings, with trim running at any point between them',
 'The one test stores and loads once; the race between expiry test and deletion needs a particular history and clock.',
 ['synccache/synccache.go','synccache/item.go','rwmap/rwmap.go'],[('expiry test at each access','synccache/synccache.go'),('compare-and-delete of the very entry judged expired','synccache/synccache.go')])
p('C20','Sync cache: the deletion callback runs exactly once per removed entry',
 'With a deletion callback configured, every entry removed from the cache by delete, load-and-delete, compare-and-delete, clear, expiry on access or trim is reported exactly once, with its own value, by whichever call removed it; a call that removed nothing reports nothing. Without a callback the same calls remove the same entries.',
 ['histories','schedules'],'every history and every interleaving of removing calls on the same key',
 'No test configures a callback; exactly-once quantifies over all racing removers.',
 ['synccache/synccache.go','rwmap/rwmap.go'],[('callback only after a successful atomic removal','synccache/synccache.go')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
