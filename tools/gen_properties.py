#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
D='include/bpptree/detail/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
            mechanism=[dict(name=n,where=w) for n,w in mech],
            observe_at=list(observe),hook_needed=hook)))

prop('C01','A tree without mixins behaves exactly like a double-ended sequence',
 "After any history of pushes and pops at both ends, insertions, erasures, assignments and updates through iterators, and clear, on a mutable or an immutable tree, the elements seen by forward and backward traversal, front, back, size and emptiness are exactly those of a plain sequence on which the same edits were made. Popped values are the values removed, and the result never depends on how the tree grew, shrank or was shared.",
 ['histories','inputs','configurations'],
 "every history of edits, every position, every node capacity, mutable and immutable form",
 "The deque tests run one random push phase followed by one drain from both ends at 512-byte nodes; they never mix growth, shrinkage and mid-sequence edits, so shapes such as single-child chains, half-empty leaves next to full ones, or a collapse of the root followed by a new split are not reached systematically.",
 ['include/bpptree/bpptree.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp',D+'modify.hpp',D+'operations.hpp'],
 [('leaf insert/split/erase',D+'leafnodebase.hpp insert_no_split, insert_split, erase'),('internal split/erase',D+'internalnodebase.hpp insert_split_replace, insert_split_split, erase'),('root replace, split, collapse',D+'modify.hpp')],
 [('tree shape','occupancy of every node on every level',D+'nodetypes.hpp'),('tree size','cached element count','include/bpptree/bpptree.hpp')],
 ['size','empty','front','back','forward and reverse iteration','values returned by pops'])

prop('C02','An indexed tree behaves exactly like a vector',
 "After any history of insertions, assignments, updates and erasures by index or by iterator and pushes and pops at the ends, the element read at index i, the iterator found for index i and the index computed from an iterator all agree with a plain vector on which the same edits were made, for every i. This holds for the mutable and the immutable form and for every index type the tree is instantiated with.",
 ['histories','inputs','configurations'],
 "every edit history, every index including both ends, every node capacity and index type",
 "The index tests insert random positions into large trees and compare at the end; child counts that are wrong only in a rarely visited shape (after erasing the last child of a node, or after a right-most split) can be masked by later splits and are never compared position by position in between.",
 ['include/bpptree/indexed.hpp',D+'indexed_detail.hpp'],
 [('child counts maintained as deltas',D+'indexed_detail.hpp compute_delta_*'),('descent by count',D+'indexed_detail.hpp find_index, insertion_index, seek_index, order')],
 [('child counts','number of elements below each child',D+'indexed_detail.hpp')],
 ['at_index','operator[]','find_index','order','iteration'])

prop('C03','An ordered tree behaves exactly like a sorted map or set',
 "After any history of insert-if-absent, insert-or-assign, assign, update and erase by key, the tree holds exactly the entries of a sorted associative container given the same calls, in comparator order and without duplicate keys. Lookup, containment, find, lower bound and upper bound of any present or absent key answer as that container does (find of an absent key and bounds past the last key give the end position), whether nodes are searched linearly or by bisection and whatever the comparator.",
 ['histories','inputs','configurations'],
 "every history of keyed edits, every key present, in a gap, below the minimum or above the maximum; linear and binary search; ascending and descending comparators; map, set and tuple forms",
 "The ordered tests insert a permutation and compare totals; upper_bound is untested ('TODO add tests'), bounds of absent keys at node boundaries after erasures are not sampled, and the separator keys of internal nodes are never checked in the states erasure produces.",
 ['include/bpptree/ordered.hpp',D+'ordered_detail.hpp'],
 [('separator keys equal to the last key of each child',D+'ordered_detail.hpp compute_delta_*'),('descent by key',D+'ordered_detail.hpp find_key_index, seek_key')],
 [('separator keys','last key below each child',D+'ordered_detail.hpp')],
 ['at_key','contains','find','lower_bound','upper_bound','iteration'])

prop('C04','A refused keyed operation changes nothing',
 "With safety checks enabled, reading, assigning, updating or erasing an absent key, and updating a key to a value whose key differs, is reported by an exception, and so is an exception thrown by the caller's own update function. In every such case the tree afterwards has exactly the contents, size and aggregates it had before, stays fully usable, and iterators and immutable trees derived from it are unaffected.",
 ['histories','inputs','fault_sequences'],
 "every reachable tree, every absent key (all gaps), every refused operation and every later operation",
 "No existing test calls a keyed operation with an absent key or a throwing updater at all.",
 ['include/bpptree/ordered.hpp',D+'ordered_detail.hpp',D+'leafnodebase.hpp',D+'modify.hpp'],
 [('key checked in the leaf before any state is changed',D+'ordered_detail.hpp find_key_index_checked'),('updater evaluated before metadata is propagated',D+'leafnodebase.hpp update, update2')],
 (),['exception','size','iteration','lookups after the refusal'])

prop('C05','Total and prefix sums always equal the sums of the elements',
 "After any history of edits on a summed tree, the total, the sum up to and including any element, and the sum before any position (including the end) equal the sums computed directly from the elements, in the arithmetic of the sum type (wrapping for unsigned types). This holds for signed, unsigned and narrow or widened sum types and for zero, negative, repeated and extreme summands.",
 ['histories','inputs','configurations'],
 "every edit history by position, iterator or key, every prefix, every small alphabet of summands including extremes of the type",
 "Tests compare the total or all prefixes after one bulk build; a subtree sum that is stale only for the last child of an inner node is invisible until a later split or erase moves it, so samples at the end of a run do not expose it.",
 ['include/bpptree/summed.hpp',D+'summed_detail.hpp'],
 [('subtree sums maintained as deltas',D+'summed_detail.hpp compute_delta_*')],
 [('child sums','sum below each child',D+'summed_detail.hpp')],
 ['sum','sum_inclusive','sum_exclusive'])

prop('C06','Searching by prefix sum finds the first element that reaches the target',
 "In a summed tree whose summands are not negative, searching for a target yields the first element whose inclusive prefix sum is at least the target, the first element if the target is not positive, and the end position if the total is below the target. This holds for every target, in particular for targets equal to a prefix sum, one above or below it, and runs of zero summands.",
 ['histories','inputs','configurations'],
 "every reachable shape, every assignment of small non-negative summands, every target from below the minimum to above the total",
 "The one existing test searches a single tree built by 1024 appends with strictly positive values and only for targets that are exact prefix sums.",
 ['include/bpptree/summed.hpp',D+'summed_detail.hpp'],
 [('descent by remaining sum',D+'summed_detail.hpp find_index_forward, seek_index_forward')],
 (),['sum_lower_bound','sum_lower_bound_const'])

prop('C07','Minimum and maximum of the tree and of every range are exact',
 "After any history of edits on a tree with minimum or maximum tracking, the reported minimum (maximum) of the whole tree and of every non-empty iterator range equals the one computed from the elements, and the returned element iterator points into the range at an element with that value. This holds with repeated values, when the extreme element is erased or overwritten, for forward and reverse ranges, const and mutable iterators, custom comparators and extracted fields.",
 ['histories','inputs','configurations'],
 "every reachable shape and every order type of small value assignments, all O(n^2) ranges in each state",
 "The tests check all ranges of two trees of random distinct values; overwriting or erasing the extreme element, ties, reverse ranges and immutable updates are not covered.",
 ['include/bpptree/min.hpp','include/bpptree/max.hpp',D+'minmax.hpp',D+'minmax2.ipp'],
 [('subtree extremes recomputed excluding the changed child',D+'minmax.hpp compute_delta_*'),('range descent',D+'minmax.hpp _after/_before/_internal')],
 [('child extremes','minimum/maximum below each child',D+'minmax.hpp')],
 ['min','max','min_element','max_element, whole tree and ranges'])

prop('C08','An immutable tree never changes',
 "Once an immutable tree exists, no later operation on any other tree related to it (the mutable tree it was taken from, mutable trees made from it, versions derived from it or from its relatives, destruction of any of them) changes anything observable about it: size, elements, lookups, aggregates or the elements its iterators refer to. This holds for any number of versions alive at once and any interleaving of edits among them.",
 ['histories'],
 "every bounded history over a family of trees sharing nodes: edit any, snapshot, resume from a snapshot, copy, drop, in any order",
 "Existing tests follow a single line of versions and throw the previous one away; they never look at an old version again after a relative has been edited.",
 ['include/bpptree/bpptree.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp',D+'nodeptr.hpp'],
 [('copy-on-write flag set over the whole tree when a snapshot is taken',D+'internalnodebase.hpp make_persistent'),('every mutator copies a flagged node instead of editing it',D+'leafnodebase.hpp, '+D+'internalnodebase.hpp')],
 [('copy-on-write flags','which nodes may not be edited in place',D+'nodetypes.hpp')],
 ['all queries on every live version after every step'])

prop('C09','Conversion and copying preserve contents and give independent trees',
 "Converting between the mutable and immutable forms (by copy or by move), copying or moving a tree of either form, and assigning one tree to another yields a tree with exactly the same contents, aggregates and answers as its source at that moment. Afterwards the source (unless moved from) and the result are independent: no edit of one is ever visible in the other.",
 ['histories'],
 "every reachable tree of both forms, every conversion, copy, move and assignment, every later edit of either side",
 "The tests convert a tree once and do not look at the source again; no test copies a mutable tree.",
 ['include/bpptree/bpptree.hpp',D+'nodeptr.hpp'],
 [('shared nodes are marked copy-on-write','include/bpptree/bpptree.hpp persistent(), transient(), copy')],
 (),['all queries on source and result after the conversion and after each later edit'])

prop('C10','Iterators survive and follow edits exactly as documented',
 "Assigning to or updating an existing element of a mutable tree invalidates no iterator: each keeps referring to its position and sees the new value, even when the edit had to copy shared nodes. After inserting through an iterator, that iterator refers to the new element; after erasing through it, to the element that followed (or the end), and it can go on being dereferenced, moved and used for further edits; this holds for forward and reverse iterators. Iterators into an immutable tree stay valid and unchanged as long as that tree lives, and inserting or erasing through any iterator position gives the same result on the immutable form as on the mutable form.",
 ['histories','inputs'],
 "every reachable shape (with any part shared), every iterator position, every edit, and chains of further edits and moves through the surviving iterator",
 "The insert/erase tests use one iterator at the front, the back or the middle of unshared trees; iterators held across an edit of a shared tree, and erasures that empty a leaf or collapse the root in the middle, are not checked.",
 [D+'iterator.hpp','include/bpptree/bpptree.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp'],
 [('stale leaf pointer refreshed on use',D+'iterator.hpp fix_leaf'),('position recomputed during insert and erase',D+'internalnodebase.hpp insert_replace, insert_split, erase')],
 [('iterator path','encoded child indexes plus cached leaf',D+'iterator.hpp')],
 ['dereference and movement of surviving iterators'])

prop('C11','Iterator arithmetic and comparison agree with positions',
 "For every tree, iterators obtained in any way and moved by any combination of single steps and jumps refer to the element at the resulting position, where moving past the last element stops at the end and moving before the first stops before the beginning, from where one step leads back. Equality, the four orderings and (on indexed trees) differences agree with those positions for forward and reverse, const and mutable iterators; in particular no iterator orders before itself, and iterators of two different trees are never equal.",
 ['inputs','histories','configurations'],
 "every reachable shape, every pair of positions including end and before-begin, every jump distance up to the limits of the type, with and without index support, fresh and stale iterators",
 "The iterator tests walk one tree linearly in both directions and compare iterators known to differ.",
 [D+'iterator.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp',D+'indexed_detail.hpp'],
 [('relative movement',D+'iterator.hpp advance; '+D+'indexed_detail.hpp advance'),('ordering on encoded paths',D+'iterator.hpp operator<')],
 (),['++ -- += -= + - [] - == != < > <= >= valid'])

prop('C12','Every element and node is created once and destroyed once',
 "Over any history of edits, conversions, copies and destructions, each element (and each key or aggregate copy the tree makes) is destroyed exactly once and never read or destroyed before it was created or after it was destroyed, and when the last tree and iterator are gone no memory remains allocated. While trees are alive, elements no longer reachable from any of them are already destroyed.",
 ['histories'],
 "every bounded history over one mutable tree and several immutable ones, with elements and keys that own resources",
 "The reference-counting tests count deletions in one long run without sharing among several live versions and without any checking of individual element lifetimes.",
 [D+'uninitialized_array.hpp',D+'nodeptr.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp',D+'ordered_detail.hpp',D+'minmax.hpp'],
 [('externally tracked element lifetimes',D+'uninitialized_array.hpp'),('reference counting',D+'nodeptr.hpp')],
 [('reference counts','number of owners of a node',D+'nodetypes.hpp')],
 ['construction/destruction ledger of the element type','allocation ledger','address sanitizer'])

prop('C13','Immutable trees can be shared between threads',
 "Threads that each own a handle to immutable trees sharing structure may concurrently read them, copy and drop their handles, derive new versions and convert through their own mutable trees without any synchronisation of their own. In every interleaving there is no data race, no use of freed memory, no double free and no leak, and each thread sees exactly the results it would see alone.",
 ['schedules'],
 "every interleaving of small two- and three-thread programs over shared trees, under the C++ memory model's happens-before",
 "All existing tests are single-threaded; on x86 hardware a weakened memory order or an unsynchronised flag write would not even fail in a stress test.",
 [D+'nodeptr.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp','include/bpptree/bpptree.hpp'],
 [('atomic reference count with release decrement and acquire before deletion',D+'nodeptr.hpp'),('nodes shared between trees are never written',D+'leafnodebase.hpp make_persistent')],
 [('reference counts','shared between threads',D+'nodetypes.hpp')],
 ['race detector over compiler-instrumented accesses','allocation ledger','per-thread results'])

prop('C14','A failed operation never damages other trees',
 "If an operation fails because memory cannot be obtained, or because a caller-supplied comparator or update function throws, at any point of the operation, every immutable tree that existed before keeps exactly its contents and answers and remains fully usable. A failed operation on an immutable tree leaves that tree itself unchanged and leaks no memory.",
 ['fault_sequences','histories'],
 "every reachable family of versions, every operation, a failure injected at every allocation and at every callback invocation of that operation",
 "No existing test injects an allocation failure or a throwing callback.",
 ['include/bpptree/bpptree.hpp',D+'nodeptr.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp'],
 [('operations on immutable trees work on a private mutable copy','include/bpptree/bpptree.hpp, ordered.hpp, indexed.hpp'),('node handles release on unwinding',D+'nodeptr.hpp')],
 (),['all queries on every surviving version after the failure','allocation ledger'])

prop('C15','Proxy references act as the element they stand for',
 "Reading, assigning, compound assignment with every operator, pre- and post-increment and -decrement, comparison, arithmetic and swapping through the references returned by subscripting and by dereferencing mutable iterators give the results the same expressions give on the plain elements. After each such write all aggregates, keys and counts of the tree agree with the new contents, and standard algorithms that permute elements through iterators (such as sort, reverse and rotate) leave exactly the permuted elements.",
 ['inputs','histories'],
 "every operator, every element (pair) position in every reachable shape, shared or not, every operand from a small alphabet",
 "Tests use ++, --, += and -= on one tree of int and std::sort once; the other operators, swap of arbitrary pairs and writes through proxies on shared trees are never evaluated.",
 [D+'proxy_operators.hpp',D+'iterator.hpp','include/bpptree/ordered.hpp','include/bpptree/indexed.hpp'],
 [('operators routed through assign and update',D+'proxy_operators.hpp')],
 (),['operator results','contents and aggregates after each write'])

prop('C16','Arguments may refer to elements of the tree being edited',
 "Passing a reference to an element, or to the key or value inside an element, of the same tree as the argument of an insertion, assignment, update, erasure or subscript gives the same result as passing an independent copy made beforehand. This holds at every position of both the edit and the referenced element, for element types that own resources, and for the mutable and the immutable form.",
 ['inputs','histories'],
 "every reachable shape, every pair (edit position, referenced element), every editing operation taking a value or key",
 "No existing test passes a reference into the tree to one of its own editing operations.",
 [D+'leafnodebase.hpp',D+'uninitialized_array.hpp','include/bpptree/bpptree.hpp','include/bpptree/ordered.hpp'],
 [('new element built from the arguments',D+'leafnodebase.hpp insert_no_split, insert_split, assign2')],
 (),['contents after the edit'])

prop('C17','Mixins combine without interfering',
 "A tree that combines ordering, indexing, summing, minimum and maximum answers every query of each mixin exactly as the elements dictate after any history that mixes edits by key, by index, by iterator and at the ends. No combination of mixins or order in which they are listed changes the answer of any of them.",
 ['histories','configurations'],
 "every history mixing all editing interfaces, several mixin combinations and listing orders",
 "Tests combine two mixins at a time and check one of them after bulk edits; key-based edits on a tree that also tracks sums, counts and extremes are never checked against all queries.",
 [D+'sandwich.hpp',D+'nodetypes.hpp','include/bpptree/bpptree.hpp',D+'ordered_detail.hpp',D+'indexed_detail.hpp',D+'summed_detail.hpp',D+'minmax.hpp'],
 [('each mixin forwards every metadata hook to the next',D+'*_detail.hpp compute_delta_*, *_element2')],
 (),['all queries of all mixins after every edit'])

prop('C18','Editing copies only what it must',
 "A single-element edit on an immutable tree allocates a number of nodes bounded by the depth of the tree (one per level, plus at most one per level and a new root when nodes split), and shares everything else with the original. Editing an element of a mutable tree whose nodes are not shared allocates nothing unless a node splits, and repeating an edit on nodes that were already copied for the same mutable tree copies nothing again.",
 ['histories'],
 "every reachable shape, every edit at every position, unshared, fully shared and partly shared",
 "The tests print allocation counters but assert nothing about them.",
 [D+'leafnodebase.hpp',D+'internalnodebase.hpp','include/bpptree/bpptree.hpp',D+'modify.hpp'],
 [('only the path to the edited leaf is copied',D+'internalnodebase.hpp insert_replace, insert_split, erase')],
 (),['allocations counted during each edit','addresses of unaffected elements'])

prop('C19','Answers do not depend on node sizes, search mode or depth limit',
 "The same history of operations gives the same observable results for every choice of leaf size, internal node size, depth limit large enough for the data, element size and search mode, including the default configuration and nodes holding hundreds of elements. No node occupies more memory than configured.",
 ['configurations','histories'],
 "a family of configurations from the smallest legal capacities to several hundred elements per node; tree sizes at every boundary of node and level capacities; every position-dependent operation at every boundary position",
 "Tests fix 512-byte (sometimes 128-byte) nodes; boundaries of other capacities, very small and very large nodes are never exercised.",
 [D+'nodetypes.hpp',D+'helpers.hpp','include/bpptree/bpptree.hpp'],
 [('capacities and iterator bit fields derived at compile time',D+'nodetypes.hpp, '+D+'helpers.hpp')],
 (),['all queries in every configuration','allocated node sizes'])

prop('C20','The inverted index maps each term to its sorted set of documents',
 "After inserting any sequence of (term, document) pairs in any order and with repetitions, the inverted index lists exactly the distinct terms in order, each with exactly its distinct documents in ascending order and the right document count. Earlier immutable versions of the index are unaffected by later insertions.",
 ['histories','inputs'],
 "every sequence of (term, document) insertions over small domains including 0 and the largest value, every term order, conversion to and from the immutable form at any point",
 "The single test inserts seven fixed pairs; it never inserts the value 0 as a term, never re-inserts a pair, and never grows the lists beyond one node.",
 ['examples/inverted_index.hpp','include/bpptree/ordered.hpp','include/bpptree/summed.hpp','include/bpptree/indexed.hpp'],
 [('term list with counts summed to locate the slice of the document list','examples/inverted_index.hpp')],
 (),['term_list iteration','term_doc_iterator slices'])

prop('C21','Exceeding the depth limit is refused without losing data',
 "With safety checks enabled, an insertion that cannot be accommodated within the configured depth limit is reported by an exception, and the tree then still holds exactly the elements, size and aggregates it held before and stays usable; no immutable tree is affected. Insertions that can be accommodated are never refused, and appending at the back reaches the advertised maximum size.",
 ['histories','configurations'],
 "every history of insertions (front, back, middle) and erasures up to and beyond capacity for tiny capacities and depth limits",
 "No existing test reaches the depth limit.",
 [D+'modify.hpp',D+'nodetypes.hpp',D+'leafnodebase.hpp',D+'internalnodebase.hpp'],
 [('depth check when the root would have to split',D+'modify.hpp DoSplit')],
 (),['exception','contents after the refusal','max_size','max_depth'])

prop('C22','Builder options configure the tree in any order',
 "A tree configured by chaining options on BppTreeMap, BppTreeSet or BppTreeVector (comparator, search mode, size type, leaf and internal node sizes, depth limit, disable_exceptions), or a mixin configured by chaining options on OrderedBuilder, MinBuilder or MaxBuilder (comparator, search mode, extractor), has exactly the configuration given, whatever the order of the options; an option given twice takes its last value, and options not given keep their defaults.",
 ['configurations'],
 "every sequence of up to two (thorough: three) options with repetition, and every rotation of all the options in both directions, with exceptions enabled and disabled by default",
 "The tests use one or two options, in one order.",
 ['include/bpptree/ordered.hpp','include/bpptree/indexed.hpp','include/bpptree/min.hpp','include/bpptree/max.hpp','include/bpptree/bpptree.hpp'],
 [('options as alias templates that pass all parameters on','include/bpptree/ordered.hpp BppTreeMap, BppTreeSet; include/bpptree/indexed.hpp BppTreeVector')],
 (),['size at which a level is added','max_depth','max_size','order of keys','comparisons per search','index type','surviving a failing copy','min','max'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
