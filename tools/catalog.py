#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, sys
AV='src/avl.rs'; AS='src/avl/avl_set.rs'; BT='src/btree.rs'; BS='src/btree/btree_set.rs'; CO='src/btree/core.rs'; FX='src/btree/fixed.rs'; ST='src/stack.rs'; LB='src/lib.rs'
def P(id, title, statement, over, text, why, files, mech, **k):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k))
QC='Quickcheck and proptest cross-checks sample short random histories with small keys (up to about a hundred entries); they never reach most tree shapes, sharing patterns or deep rebalancing paths.'
PROPS=[]
def add(*a, **k): PROPS.append(P(*a, **k))
add('C01','AVL map point operations behave like a sorted map',
 'For every AVL map and every key, insert, remove, remove_entry, get, get_mut, get_key_value, contains_key, first/last lookup, pop_first, pop_last, clear and new leave exactly the entries a mathematical sorted map would hold and return exactly the entry, value or absence it would return. No entry is lost, duplicated, reordered, or paired with another key\'s value. AVL sets do the same for their elements.',
 ['inputs','histories'],'every well-formed tree of any size and shape, every key present or absent, shared or unshared nodes',QC,[AV,AS],
 [('recursive insert/remove with rotations',AV+': ins, rm, rm_leftmost, rm_rightmost, rot_*, rebal_*'),('iterative lookups',AV+': get, get_mut, get_key_value, first/last_key_value')])
add('C02','AVL bulk operations produce the exact merged or split contents',
 'Splitting an AVL map at a key keeps exactly the smaller entries and returns the rest; appending takes every entry of both maps, preferring the appended map\'s entry for a common key, and empties the source. Building a union, intersection, difference, symmetric difference or ordered join of two maps yields exactly the entries of that operation, in order.',
 ['inputs','histories'],'every pair of well-formed trees of any sizes and shapes and every split key',QC,[AV,AS],
 [('merge by recursive split and join',AV+': Merger::merge, split, join, join2, join_rt, join_lf')])
add('C24','AVL retain and for_each visit every entry once, in order',
 'retain, for_each and for_each_mut on an AVL map, and retain on an AVL set, call the user closure exactly once per entry in ascending key order. retain keeps exactly the accepted entries, with any changes the closure made to their values; for_each_mut leaves every key in place with the value the closure left behind.',
 ['inputs','histories'],'every well-formed tree and every predicate on entries',QC,[AV,AS],
 [('filtering',AV+': retain; '+AS+': retain'),('in-order traversals',AV+': for_each, for_each_mut')])
add('C04','AVL stored length always equals the number of entries',
 'After every insert, remove, remove_entry, pop, take, replace, clear or construction of an AVL map or set, the length it reports equals the number of entries it holds. Read access and in-place value updates leave the length unchanged.',
 ['inputs','histories'],'every well-formed tree of any size and shape and every key, present or absent',QC,[AV,AS],
 [('count kept beside the root',AV+': AvlMap::insert, remove, remove_entry, pop_first, pop_last, clear')])
add('C07','B-tree map and set point operations behave like a sorted map',
 'For every B-tree map or set and every key, insert, remove, replace, take, the lookups, first/last access, pop_first, pop_last, clear and new leave exactly the entries a mathematical sorted map would hold and return exactly the entry, value or presence flag it would return. Operations that only read change nothing.',
 ['inputs','histories'],'every well-formed tree of any height, every occupancy of the nodes on the path, every key present or absent',QC,[BT,BS],
 [('insertion with node splitting',BT+': Node::insert, split'),('removal with rotation and merging',BT+': Node::remove, pop_first, pop_last, rot_*, merge'),('lookups',BT+': get*, *_key_value')])
add('C09','B-tree nodes stay within their occupancy bounds at one depth',
 'After every modifying operation on a B-tree map or set with any minimum occupancy of at least one, every node other than the root holds between the minimum and the maximum number of entries, every inner node has exactly one more child than entries, and all leaves lie at the same depth. A map without entries keeps no nodes behind that would break this.',
 ['inputs','histories'],'every well-formed tree, every occupancy of the nodes an operation touches',QC,[BT,BS],
 [('splitting on overflow',BT+': Node::insert, split'),('rebalancing on underflow',BT+': rebal_*, rot_*, merge')])
add('C10','B-tree stored length always equals the number of entries',
 'After every insert, remove, pop, take, replace, clear or construction of a B-tree map or set, the length it reports equals the number of entries it holds. Read access and in-place value updates leave the length unchanged.',
 ['inputs','histories'],'every well-formed tree and every key, present or absent',QC,[BT,BS],
 [('count kept beside the root',BT+': BTreeMap::insert, remove, pop_first, pop_last, clear')])
add('C05','AVL iterators deliver every entry exactly once, in key order',
 'Every iterator over an AVL map or set (borrowing, mutable, consuming, keys only or values only) delivers exactly the entries of the collection, each once, ascending from the front and descending from the back, however calls on the two ends are interleaved. Once all entries are delivered it keeps returning nothing, and borrowing iteration leaves the collection as it was.',
 ['inputs','histories'],'every well-formed tree and every interleaving of front and back steps','The tests walk small maps front to back, a few back to front, and hardly ever both ends of one iterator; consuming iteration over trees that share nodes with another map is not tested.',[AV,AS],
 [('queue of pending subtrees and entries, expanded at the end asked for',AV+': InnerIter::next, next_back, pump_*, IterAction'),('iterator construction',AV+': iter, iter_mut, keys, values, into_keys, into_values, IntoIterator impls; '+AS+': iter')])
add('C14','Exact-size iterators report exactly how many items remain',
 'The size hint and the length of every exact-size iterator over an AVL map or set equal the number of entries it will still deliver: the collection\'s length when made, one less after each delivered entry from either end, and unchanged by a step that delivers nothing.',
 ['inputs','histories'],'every iterator position reachable by any interleaving of front and back steps','Only a few tests look at a size hint, mostly before the first step.',[AV,AS],
 [('count kept beside the queue',AV+': InnerIter::next, next_back, size_hint'),('wrappers that forward it',AV+': Iter, IterMut, IntoIter; '+AS+': Iter, IntoIter')])
add('C03','AVL trees stay height-balanced with correct height records',
 'After every operation of an AVL map or set, from any balanced tree, the heights of the two subtrees of every node differ by at most one and the heights recorded with a node are the true ones. This covers single insertions and removals as well as splitting, joining, filtering and combining whole trees of any two heights. Lookups and updates therefore stay logarithmic in the number of entries.',
 ['inputs','histories'],'every balanced tree, of any height, and every operation on it','Tests check balance on trees of a few dozen entries; the rebalancing cases of joins of very different heights, and deletions that cascade, are hardly visited.',[AV,AS],
 [('single and double rotations',AV+': rot_lf, rot_rt, rot_lf_rt, rot_rt_lf, rebal_*'),('insertion, removal',AV+': ins, rm, rm_leftmost, rm_rightmost'),('joins and splits',AV+': join, join_rt, join_lf, join2, split, merge')])
add('C12','Clones are independent: changing one never shows in another',
 'After cloning a map, set or stack, the two hold the same contents, and no later operation on either, of any kind, changes what the other one holds. Storage they share is only ever written by an operation that has first established that it is the sole owner.',
 ['histories'],'every collection, every history of clones and operations on the clones','Tests compare a few clones after a few operations; a write to shared storage shows only when the written node happens to be shared at that moment.',[AV,BT,CO,ST],
 [('reference-counted nodes written through make_mut and get_mut only',AV+', '+BT+', '+ST),('Clone impls',AV+': AvlMap; '+BT+': BTreeMap; '+ST+': Stack')])
add('C13','Copies are made lazily: only of storage that is actually shared',
 'Cloning a map, set or stack copies no entry, and lookups and borrowed iteration never copy anything. A modifying operation copies an existing entry or node only where another collection shares it, after testing for that; the retain operation of AVL maps, which works on copies by design, and keys handled by the entry interface are outside this property.',
 ['histories'],'every operation on every collection, whichever parts of it are shared','Behaviour is the same with and without the extra copies, so tests of contents cannot see them; the few clone-counting tests cover only the stack.',[AV,BT,ST],
 [('uniqueness tests before every copy',AV+', '+BT+', '+ST+': Rc::get_mut, Rc::try_unwrap, Rc::make_mut'),('Clone impls',AV+': AvlMap; '+BT+': BTreeMap; '+ST+': Stack')])
add('C16','The types enforce exclusive access, read-only keys and thread safety',
 'While a reference or iterator obtained from a collection is alive, safe code cannot modify, move or drop the collection, nor hold two mutable accesses to it; keys and set elements are only ever lent for reading, and modification needs a mutable reference. AVL and B-tree collections and their iterators may be sent to or shared with another thread when their contents are both Send and Sync, and not when either is missing; a stack never crosses threads. Lookups, iteration, ranges, comparison and cloning of AVL and B-tree maps and sets, and reading of stacks, demand no Clone of the contents.',
 ['inputs'],'every safe client program, through representative uses of each operation and its results','A test is a program that compiles; that a wrong program is rejected can only be shown by the compiler.',[AV,AS,BT,BS,FX,ST,LB],
 [('signatures and lifetimes of the public operations',AV+', '+AS+', '+BT+', '+BS+', '+FX+', '+ST),('shared pointers chosen: Arc in trees, Rc in stacks',AV+': OptNode; '+BT+': NodePtr; '+ST+': OptList')])
add('C19','Stack operations and iterators follow last-in first-out contents',
 'For every stack, push, pop, top, top_mut, clear, clone, len, is_empty, remove and split_off leave exactly the elements, in order, that the documented last-in first-out sequence would hold, return the documented elements and report the exact length; an index outside of the stack panics. Its iterators deliver every element once, from the top down, and mutable iteration and top access lend the element stored in the stack itself.',
 ['inputs','histories'],'every stack of any length, shared or not; remove and split_off with every index on stacks of bounded length','The tests build a handful of short stacks; sharing patterns between clones, and positions relative to a shared tail, are not enumerated.',[ST],
 [('linked list behind a stored length',ST+': push, pop, remove, split_off, clear'),('iterators following the links',ST+': Iter::next, IterMut::next, IntoIter::next')])
add('C20','Destroying a stack of any length never recurses along it',
 'Clearing, dropping, overwriting, popping or splitting a stack uses call depth independent of its length: a chain of elements owned by one handle is never destroyed by recursive destructors, so a long stack cannot overflow the call stack. No stack operation recurses once per element.',
 ['inputs','histories'],'every stack of any length, however its storage is shared with clones','Overflow needs a stack of hundreds of thousands of elements in the right sharing state; tests drop short ones, on which recursion is harmless.',[ST],
 [('loop that unlinks node by node',ST+': clear'),('destructor',ST+': Drop for Stack')])
add('C06','Range iterators of the balanced tree deliver exactly the entries in range',
 'A range iterator over an AVL map or set, shared or mutable, delivers each entry whose key lies within the bounds exactly once, in ascending order from the front and descending order from the back, in any interleaving of the two ends, and nothing else, for every combination of included, excluded and missing bounds. Its size hint never promises more entries than it delivers. Creating it changes nothing in the collection.',
 ['inputs','histories'],'every combination of bound kinds and every placement of the bounds among the keys, present or absent, of every tree shape of bounded height','The tests use one tree and a handful of bounds; which subtrees are skipped or queued depends on where each bound falls relative to every node.',[AV,AS],
 [('queue of subtrees built from the bounds',AV+': Range::new, range, range_mut'),('draining the queue from both ends',AV+': InnerIter, Range::next')])
add('C23','Set algebra and set predicates match mathematical sets',
 'For any two sets of the same kind, the difference, intersection, union and symmetric-difference iterators, the operators and (for B-tree sets) the constructors yield exactly the elements of that operation, each once, in ascending order, and the iterators then stay exhausted. The subset, superset and disjointness tests answer exactly, also when the sets share storage, are equal, or differ greatly in size. The operands of the borrowing forms are unchanged.',
 ['inputs'],'every interleaving of the elements of two small sets, chosen ones of up to about 100 elements, every shape of the smaller AVL trees and every sharing between them','The algorithms switch strategy on relative sizes and take shortcuts on shared storage; tests use a few random pairs, which are rarely equal, nested or shared.',[LB,AS,BS],
 [('merging two sorted streams',LB+': SortedMergeIter, SetOpIter'),('subset test walking both trees',AS+': is_subset, has_all'),('strategies by relative size',BS+': new_diff, new_intersection, new_union, new_sym_diff')])
add('C15','Comparison and hashing depend only on the contents',
 'Two maps, sets or stacks are equal exactly when they hold equal elements in the same order, and they compare, totally or partially, as the sequences of their elements do, including sequences where one is a prefix of the other and incomparable elements. What an AVL map or set feeds to a hasher is the same for every internal shape that holds the same entries.',
 ['inputs'],'every pattern of equal, smaller, greater or incomparable elements in two collections of bounded size; every balanced tree shape of bounded size','Tests compare collections built the same way; equal contents in different shapes and prefixes or incomparable elements are rare in samples.',[AV,AS,BT,BS,ST],
 [('comparison through iterators',AV+', '+BT+', '+ST+': PartialEq, PartialOrd, Ord'),('hashing entries in order',AV+', '+AS+': Hash')])
add('C21','Entries insert at most once and always lend the stored value',
 'Taking an entry of a map and giving it a default (as a value, by closure, by closure of the key, or the type default) leaves a present key and its value alone without calling the closure, and otherwise inserts exactly one entry for the key, calling the closure exactly once; the reference returned is to the value stored in the map. Modifying through an entry applies the closure exactly once to the stored value if the key is present and does nothing otherwise. The first and last entry are those of the least and greatest key, and none for an empty map.',
 ['inputs','histories'],'every position of the key, present or absent, in maps of bounded size','The tests exercise a few fixed keys; whether a closure runs, and which value a reference denotes, is checked for single cases only.',[LB,AV,BT],
 [('entry operations in terms of the map interface',LB+': Entry'),('map interface',AV+', '+BT+': impl Map')])
add('C08','B-tree bulk operations keep exactly the right entries',
 'Appending one B-tree map or set to another takes every entry of both, with the appended value for a common key, and empties the source. Splitting at a key keeps exactly the smaller entries and returns the rest. retain tests every entry once in ascending order with its own value and keeps exactly the accepted ones, with the changes the closure made; every result reports its exact length.',
 ['inputs','histories'],'every order pattern of the keys of small maps, every split key and every answer of the predicate; chosen patterns of up to about 100 entries','Random tests rarely hit the boundary keys, equal keys in both operands, or predicates that change the values they reject.',[BT,BS],
 [('bulk operations through iterators',BT+': append, retain, split_off; '+BS+': append, retain, split_off')])
add('C25','Building, extending and converting collections keeps every element',
 'Collecting, extending by values or by references, and converting from arrays or vectors give a map or set the last value for every distinct key, or push every element onto a stack in order, on top of what it held; a default collection is empty. Converting a B-tree map into a vector gives all its entries in ascending order, and indexing a map by a key yields that key\'s value or panics if it is absent. The reported length is exact.',
 ['inputs'],'every pattern of new, repeated and already present keys in sequences and collections of bounded size','Tests build collections from sorted or random data without systematically repeating keys inside the input and in the collection.',[AV,AS,BT,BS,FX,ST],
 [('insertion of a sequence',AV+', '+AS+', '+BT+', '+BS+', '+FX+', '+ST+': Extend, FromIterator, From'),('indexing',AV+': Index')])
add('C26','Key, value and reference views deliver exactly the stored entries',
 'Iterating over the keys, values, mutable values, owned keys and owned values of a map, over a map by reference or mutable reference, and over a set by reference or by value delivers, for every entry in ascending key order, exactly that entry\'s key, value or both, once, and then stays exhausted.',
 ['inputs'],'every map and set of bounded size, given iterators that deliver its entries','Each view is a projection of an iterator that a test checks for one or two maps at most.',[AV,AS,BT,BS],
 [('projections of the entry iterators',AV+': keys, values, values_mut; '+BT+': keys, values, values_mut, into_keys, into_values'),('set iterators',AS+', '+BS+': Iter, IntoIter')])
add('C11','B-tree iterators and ranges deliver exactly the entries, from both ends',
 'Iterating a B-tree map or set by reference, by mutable reference, by value or over its keys or values, or over a range of keys with any included, excluded or missing bounds, delivers every entry (in the range) exactly once, ascending from the front and descending from the back in any interleaving of the two, and then stays exhausted; references lead to the stored values. Sizes announced are exact for whole-collection iterators and bound the remaining number of entries for ranges; none of this disturbs the other entries or clones of the collection.',
 ['inputs','histories'],'every interleaving of steps from both ends, every placement and kind of bounds, every sharing of nodes, on trees of bounded size','The iterators keep a work list of partly visited nodes at both ends; which nodes are split, pruned or met in the middle depends on the shape, the bounds and the exact interleaving.',[BT,BS],
 [('work list of partly visited nodes',BT+': InnerIter, BorrowedNodeIter, IntoNodeIter'),('pruning by the bounds',BT+': find_range_edges, make_worklist, make_mut_worklist')])
add('C17','Inline-storage B-tree is memory safe and destroys each entry exactly once',
 'Every operation, iteration and destruction of the inline-storage B-tree map reads only initialised storage within bounds, and leaves every key and value owned by exactly one place or destroyed exactly once: nothing is leaked, dropped twice, or taken out of storage that another map shares. This includes iterators abandoned part way, from either end, and maps that share any part of their storage with clones.',
 ['inputs','histories'],'every position of the key in node trees of bounded size up to three levels, every way to split, merge and rotate nodes, several sharing patterns, every interleaving of iterator steps','The storage is managed by raw copies of uninitialised memory; a slot read or dropped once too often goes unnoticed by tests that check only values, and needs full or minimal nodes at particular places.',[CO,FX],
 [('inline storage and raw copies of its slots',CO+': InlineVec, Node'),('splitting, merging, rotating nodes',CO+': insert, remove, rebal, merge_kids, rot_lf, rot_rt, Mover')])
add('C18','Inline-storage B-tree behaves as a sorted map and stays well formed',
 'Inserting, removing, looking up, modifying, clearing, counting and cloning an inline-storage B-tree map give the results and leave the contents of a sorted map, and its length is exact; iteration delivers every entry once in order from both ends, and mutable access reaches the stored values. Every node except the root stays at least half full, none overfull, and all leaves at equal depth.',
 ['inputs','histories'],'every position of the key in node trees of bounded size up to three levels, several sharing patterns, every interleaving of iterator steps','Splits and merges of interior nodes need hundreds of entries inserted in a particular order; tests check a few sizes and not the shape.',[CO,FX],
 [('operations on nodes',CO+': insert, remove, get, rebal'),('map interface',FX+': insert, remove, get, iter')])
add('C27','Operations on whole AVL maps report exact lengths',
 'After appending one AVL map or set to another, splitting one at a key, filtering it, or building a union, intersection, difference, symmetric difference or join of two, every map involved reports exactly the number of entries it holds, holds exactly the entries of that operation, and is balanced with correct height records. This holds whichever nodes the maps share with other collections.',
 ['inputs','histories'],'every pair of balanced tree shapes of a few entries under every order pattern of their keys and every sharing of nodes, and larger trees (up to about 60 entries) of many pairs of shapes, orders and sharing patterns','Tests combine small random maps; lengths after combining maps of very different heights, or partly shared ones, are hardly visited.',[AV,AS],
 [('counting the entries of a combined tree',AV+': len, append, split_off, retain, new_union, new_intersect, new_diff, new_sym_diff, new_join'),('set operations',AS+': append, split_off, retain, new_*')])
add('C22','Maps survive serialization, whatever length the data announces',
 'Serializing an AVL or B-tree map announces its exact length and emits every entry once in ascending key order. Deserializing entries in any order, with repeated keys and with a length announced exactly, too small, too large or not at all, yields a well-formed map with the last value given for each key and an exact length. An error of the data format is passed on in both directions.',
 ['inputs'],'every order pattern of up to four or five keys and sorted sequences of up to 40 entries, with announced lengths below, at and above the real one; a failure at every position','The tests use complete sequences of sorted keys with hints near the length; which subtrees are stitched, rebuilt or fixed up depends on the hint, the order and the number of entries together.',[LB,AV,BT],
 [('bottom-up construction from the announced length',LB+': MapVisitor::visit_map, build_map_by_halves'),('joining partial maps',AV+', '+BT+': make_half, stitch, make_whole'),('writing the entries',AV+', '+BT+': Serialize')])
CHECKS={}
def claim(id, technique, level, note): CHECKS[id]=dict(technique=technique, level=level, note=note)
AI='abstract interpretation of MIR: shape analysis over a sequence (word) domain with tabulated procedure summaries'
TR='Trusts rustc MIR, the fact extractor, the models of std leaf operations and the interpreter; assumes Ord is a total order and Clone is faithful. Reports only mismatches confirmed on a concrete instance of the abstract state; constructs outside the models are recorded as undecided in the evidence. '
claim('C01',AI,'proof',TR+'All obligations are discharged on the current tree.')
claim('C02',AI,'proof',TR+'All obligations are discharged on the current tree.')
claim('C24',AI,'proof',TR+'The predicate is assumed to be a function of the entry.')
claim('C04',AI,'proof',TR+'Point operations; operations on whole maps are C27.')
claim('C07',AI,'proof',TR+'Run for minimum occupancies 1, 2 and 5 (the default); thorough adds 3 and 4. Loops over a node are unrolled over its concrete occupancy; height is unbounded.')
claim('C09',AI,'proof',TR+'Run for minimum occupancies 1, 2 and 5 (the default); thorough adds 3 and 4.')
claim('C10',AI,'proof',TR+'Run for minimum occupancies 1, 2 and 5 (the default); thorough adds 3 and 4.')
claim('C05',AI,'proof',TR+'One step from an arbitrary position (the queue is an unknown run, unfolded at the end the step looks at) and the construction from an arbitrary tree; by induction every interleaving is covered.')
claim('C14',AI,'proof',TR+'That the collection itself reports its true length is C04.')
claim('C03','abstract interpretation of MIR: linear constraints over tree heights and balances with tabulated procedure summaries','proof',TR+'Heights are mathematical integers; a result of a helper with very many height cases is only known to be balanced with right heights, which is what its callers may rely on.')
LT='dataflow lint over MIR: backward slices, dominating tests and the call graph'
claim('C12',LT+'; abstract interpretation of the Clone impls','proof','Trusts rustc MIR and the fact extractor. Rests on the type system for safe code: the check excludes every construct by which a write could reach shared storage (interior mutability, writes through raw pointers derived from shared borrows, unchecked mutable access, statics).')
claim('C13',LT,'proof','Trusts rustc MIR and the fact extractor. Every clone of an entry or node in the crate must be dominated by a failed uniqueness test on its owner, or take its subject from a borrowed argument.')
claim('C16','compile-fail and compile-pass witness programs decided by the rustc type and borrow checker','proof','Trusts rustc. Witnesses are generated for every public accessor and modifier listed in engine/witness.py; operations the generator does not know are outside it.')
claim('C19',AI,'proof',TR+'remove and split_off are examined with loops unrolled on lists of bounded length (every index, every sharing outcome); the other operations on lists of any length. All obligations are discharged on the current tree.')
claim('C20','abstract interpretation of MIR with a sharing flag per node: classification of every executed drop; type ownership and call-graph recursion lints','proof',TR+'Cleanup paths of a panicking element destructor are not analysed; remove and split_off on lists of bounded length.')
BX=AI.replace('with tabulated procedure summaries','with loops and recursion unrolled on every input of bounded size')
claim('C06',BX+'; single steps of the iterators from an arbitrary queue','other',TR+'Construction is examined on all trees of at most 3 levels (thorough: 4), whatever the keys and bounds; bounds are assumed ordered.')
CL='abstract interpretation of MIR: contracts for the point operations and iterators, lists of bounded length under every order pattern of their keys'
CN='Trusts rustc MIR, the fact extractor, the models of std leaf operations, the interpreter, and the contracts of the point operations and iterators that other checks decide. Bounded: collections of up to about 9 elements under every order of their keys, and of up to about 90 (thorough: 110) under chosen orders; user closures are arbitrary functions of their arguments. '
for p, x in (('C23','Subset tests of AVL sets run on explicit balanced trees of up to 7 nodes.'),('C15','Hashing runs on all balanced trees of up to 7 nodes.'),('C21',''),('C08',''),('C25',''),('C26','')): claim(p,CL,'other',CN+x)
claim('C11',BX,'other',TR+'Trees with 1 to 3 entries per node and at most 3 levels; the minimum occupancy is 1.')
for p in ('C17','C18'): claim(p,BX+'; a memory model of slots, raw pointers and instances','other',TR+'Node trees of at most three levels with the real capacity of 11 entries per node; panicking comparisons, clones and destructors are outside it.')
claim('C27',BX,'other',TR+'The general argument for the contents and the balance of these operations, for trees of any size, is in C02, C03 and C24; here explicit trees of bounded size are interpreted node by node.')
claim('C22',BX,'other',TR+'Sets derive both traits from the map they wrap and are not examined. A data format is modelled as a list of entries, an announced length and a position of failure.')
NA={}
def main():
    with open('/verif/properties.jsonl','w') as f:
        for p in PROPS: f.write(json.dumps(p)+'\n')
    checks=[]
    for p in PROPS:
        c=CHECKS.get(p['id'])
        if c: checks.append(dict(property=p['id'],quick_cmd='python3 engine/run.py '+p['id'],thorough_cmd='python3 engine/run.py '+p['id']+' thorough',technique=c['technique'],level=c['level'],level_note=c['note']))
        else: assert p['id'] in NA, p['id']
    m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()])
    json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
    try:
        import jsonschema
        s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in PROPS: jsonschema.validate(p,s)
        jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError: pass
    for p in PROPS: assert len(p['title'])<=80,(p['id'],len(p['title']))
    print(len(PROPS),'properties',len(checks),'checks')
if __name__=='__main__': main()
