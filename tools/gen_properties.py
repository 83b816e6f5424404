#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or ["public API return values"], hook_needed=hook)))

V="src/vector/mod.rs"; VI="src/vector/into_iter.rs"; D="src/deque/mod.rs"; DI="src/deque/iter.rs"
Q="src/queue.rs"; H="src/internal/hash_table/mod.rs"; HI="src/internal/hash_table/iter.rs"
HE="src/internal/hash_table/entry.rs"; HR="src/internal/hash_table/rehash_policy.rs"
HM="src/hash_map/mod.rs"; HS="src/hash_set/mod.rs"; VM="src/vector_map/mod.rs"; VE="src/vector_map/entry.rs"
S="src/string/mod.rs"; SN="src/string/null_terminator_allocator.rs"
L="src/list/mod.rs"; LI="src/list/iter.rs"; LN="src/list/node.rs"
FL="src/fixed_list/mod.rs"; FLC="src/fixed_list/conformant.rs"; FP="src/fixed_pool/mod.rs"; FPO="src/fixed_pool/with_overflow.rs"
FV="src/fixed_vector/mod.rs"; FVA="src/fixed_vector/allocator.rs"; FM="src/fixed_map/mod.rs"
T="src/internal/rb_tree/mod.rs"; TN="src/internal/rb_tree/node.rs"; TI="src/internal/rb_tree/iter.rs"
M="src/map/mod.rs"; SE="src/set/mod.rs"; A="src/allocator.rs"; HA="src/hash.rs"; C="src/compare.rs"; U="src/util.rs"

p("C01","Vector is a faithful sequence for every operation history",
  "After any sequence of Vector operations (push, pop, insert, remove, append, assign, reserve, clear, slice writes, construction and consumption), its contents, order, length and every returned value equal those of an ideal growable array given the same operations. No element is lost, duplicated, reordered or altered, including across buffer growth.",
  ["histories","inputs"],"every operation history, every element size and alignment (non-zero-sized), every index",
  "Unit tests run about a dozen fixed 3-4 element sequences on u32; growth in the middle of an insert, index edges after removal and wide element types are not sampled.",
  [V,VI],[("shift-and-write insert/remove","Vector::insert, Vector::remove"),("grow/reserve copy","Vector::reserve, Vector::grow")],
  [("begin/end/capacity pointers","live range and buffer end",V)])
p("C02","Vector capacity grows by the documented rules and only when it must",
  "Length never exceeds capacity, a full vector doubles its capacity (0 to 1) on push or insert, reserve(n) raises capacity by exactly n (n = 0 changes nothing), append and assign reserve exactly what is missing, and clear releases the storage. While spare capacity remains, no operation other than reserve and clear reallocates, so element addresses stay put, and capacity always describes memory that was really allocated.",
  ["histories","inputs"],"every operation history, element type and requested amount",
  "Tests look at capacity after three fixed pushes; they never compare capacity with the block that was actually allocated nor check address stability.",
  [V],[("growth policy","Vector::calculate_grow_capacity, Vector::grow"),("reserve","Vector::reserve")],
  [("capacity_ptr","end of allocated buffer",V)],["allocator calls made by the container","capacity(), as_slice().as_ptr()"])
p("C03","Deque is a faithful double-ended sequence",
  "After any interleaving of pushes and pops at both ends, element access, removal at an index and iteration, a Deque holds exactly the elements, in exactly the order, that an ideal double-ended queue would hold, and len, is_empty, front, back and every returned value agree with it. This holds across every internal block boundary and every regrowth of its block index, for every element size.",
  ["histories","inputs"],"every history of operations, every element size class, every removal index and length",
  "Tests push 64-512 u32 values one way and remove from six-element deques; regrowth with a partly consumed front, element sizes other than 4 bytes and removal across blocks are unsampled.",
  [D,DI,U],[("block stepping","Deque::push_back/push_front/pop_back/pop_front"),("block index regrowth","Deque::realloc_ptr_array"),("swap-rotate removal","Deque::remove, util::rotate")],
  [("begin_it/end_it","positions in the block index",D)])
p("C04","Deque storage stays proportional to what it holds",
  "At every moment a Deque holds only the blocks its current elements span plus at most one spare, and its block index stays within a constant factor of the largest number of blocks it ever needed at once. In particular a queue-like or stack-like workload of unbounded length at bounded occupancy uses bounded memory, and emptied blocks are returned at once.",
  ["histories"],"every history of pushes, pops and removals, in particular arbitrarily long sliding-window histories",
  "Tests never look at memory use, and never run a sliding window long enough for the block index to be recentred.",
  [D],[("freeing emptied blocks","Deque::pop_back, Deque::pop_front"),("recentring instead of growing","Deque::realloc_ptr_array")],
  [("ptr_array / ptr_array_size","block index",D)],["allocator calls made by the container"])
p("C05","Queue delivers every element once, in order",
  "Every element pushed into a Queue is returned by pop exactly once and in push order, with nothing invented, and len, is_empty, top, iteration, draining by into_iter and conversion into the inner deque always reflect exactly the pushed-but-not-popped elements in order.",
  ["histories"],"every interleaving of pushes, pops, peeks and drains of any length",
  "The tests push 256 values, then pop 256 values: no interleaving and no drain after partial consumption.",
  [Q,D,DI],[("delegation to the deque ends","Queue::push, Queue::pop, Queue::top"),("IntoIter","src/deque/iter.rs IntoIterator for Queue")])
p("C06","HashMap is a faithful map",
  "After any history of insert, remove, remove_entry, get, get_mut, entry (and_modify, or_insert, or_insert_with), clear and bulk construction, a HashMap answers every query as an ideal map would: one value per key, the most recent one, with insert and remove returning the displaced value and the originally stored key kept on overwrite. This holds for every hash function consistent with equality, however badly it collides, and across every rehash.",
  ["histories","inputs","configurations"],"every operation history, key set, user-supplied Hash/Equals pair and table size",
  "Tests use at most 11 keys; rehashing beyond the second prime, removal inside long chains and entry() at the moment a rehash is due are not sampled.",
  [HM,"src/hash_map/entry.rs",H,HE],[("bucket lookup and chaining","HashTable::insert/get/remove_entry"),("rehash","HashTable::rehash, insert_impl"),("entry API","HashTable::entry, entry::Entry")],
  [("element_count","number of pairs",H)])
p("C07","HashSet is a faithful set",
  "After any history of insert, remove, get, contains_key, clear and bulk construction, a HashSet contains exactly the keys an ideal set would; insert reports true exactly when the key was not already present and remove returns the stored key exactly when it was. This holds for every hash function consistent with equality and across every rehash.",
  ["histories","inputs","configurations"],"every operation history, key set and user-supplied Hash/Equals pair",
  "The single unit test builds a 10-key set and iterates it; return values of insert and remove are never looked at.",
  [HS,H],[("delegation to the table","HashSet::insert, HashSet::remove")])
p("C08","Hash containers keep EASTL's bucket geometry",
  "At every quiescent point the table of a HashMap or HashSet is one C++ EASTL could walk: every element sits in the bucket its hash selects modulo the bucket count, the element count equals the number of linked nodes, the bucket array is followed by the all-ones sentinel, and elements never outnumber buckets once any was inserted. Bucket counts are 1 (never used) or follow EASTL's prime growth policy (at least doubling, smallest listed prime that fits) and never change except by an insertion that needs room.",
  ["histories","inputs"],"every history of insertions, removals, clears and any hash function, over all table sizes reached",
  "Tests check the sentinel after three insertions; prime selection is never checked and neither is bucket placement after a rehash.",
  [H,HR,"src/internal/hash_table/node.rs"],[("prime table and policy","PrimeRehashPolicy::get_rehash_required"),("node transfer","HashTable::rehash"),("sentinel","HashTable::rehash, EMPTY_BUCKET_ARR")],
  [("bucket_array/bucket_count","C++-visible table",H)],["the container's memory image, decoded as C++ would"])
p("C09","Iterators visit every remaining element exactly once",
  "For every container, a shared, mutable or consuming iterator yields each element exactly once in the container's order (each pair exactly once for hash containers) and then only None, whatever the interleaving of next, next_back and the other iterator methods (nth, nth_back, last, count, fold, find, skip, ...), which agree with stepping, with a size hint that matches what remains where one is given; cloned iterators continue independently from the same point. Writes through a mutable iterator change exactly the yielded element, and a consuming iterator dropped part-way loses or repeats nothing.",
  ["histories","inputs"],"every container state reachable by operations, every interleaving of front and back steps and of jumps, every partial consumption",
  "Tests iterate freshly built containers mostly in one direction, and take fixed alternations on one deque.",
  [DI,VI,HI,"src/hash_set/iter.rs",LI,TI],[("block-crossing steps","deque::iter::RawIter"),("cursor pair","vector::into_iter::IntoIter"),("bucket scan","hash_table::iter::RawIter"),("link walking","list::iter::Iter/IterMut")])
p("C10","VectorMap is a faithful ordered map",
  "After any history of insert, remove, remove_entry, get, get_mut, entry and bulk construction (from any order, with duplicates), a VectorMap holds one value per key, the most recent one, answers every query as an ideal ordered map would, and exposes its pairs strictly sorted by its comparator. This holds for any comparator that is a strict total order consistent with key equality, ascending, descending or custom.",
  ["histories","inputs","configurations"],"every operation history, key order, duplicate pattern and comparator",
  "Tests use 1-2 keys or one fixed 100-key pattern with the ascending comparator, and never remove anything.",
  [VM,VE,V,C],[("lower bound search","VectorMap::lower_bound"),("insertion at the bound","VectorMap::insert, VacantEntry::insert")])
p("C11","String holds exactly the text it was given, always valid UTF-8",
  "After any history of construction, assign, push, pop, insert, remove, reserve, clone and in-place edits with any characters, a String equals the text an ideal UTF-8 string would hold, every returned character is the character that was there, and its bytes are always valid UTF-8. assign replaces the previous text; comparison, display, length and emptiness agree with the text.",
  ["histories","inputs"],"every operation history and every Unicode text, including multi-byte characters and embedded NULs",
  "Tests use ASCII strings of at most three characters, and none re-assigns a non-empty string and looks at its content.",
  [S],[("byte-level edits over the vector","String::insert/remove/pop/assign"),("unchecked UTF-8 view","Deref for String")])
p("C12","String buffers are NUL-terminated at all times",
  "Whenever a String owns a buffer, the byte just past its last character lies inside the allocated block and is NUL, after every operation (construction, with_capacity, reserve, assign, push, pop, insert, remove, clone), so C++ code may read it as a C string at any point. The terminator never overwrites text and is never counted in the length.",
  ["histories","inputs"],"every operation history at every length/capacity relation",
  "Tests check the terminator after four operations on one- to three-character strings.",
  [S,SN],[("terminator slack in the allocator","NullTerminatorAllocator"),("re-termination","String::null_terminate")],
  [("end_ptr","where the terminator must be",V)],["the container's memory image and the allocator's blocks"])
p("C13","List is a faithful sequence with consistent links",
  "After any history of pushes and pops at both ends, clear, extend and writes through references, a List holds exactly the elements in the order an ideal list would, and size, len, emptiness, front and back agree with it. At every quiescent point the links form one ring through the header: following next visits the elements in order, following prev visits them in reverse, and the stored size equals their number; elements never move in memory while they stay in the list.",
  ["histories"],"every operation history on every element type",
  "Tests push and pop at most two elements, and never follow the backward links.",
  [L,LN,LI],[("sentinel ring","ListNodeBase::insert/remove"),("node creation/removal","List::create_node, List::remove_node")],
  [("node.next/node.prev/size","C++-visible ring",L)],["public API","the container's memory image, decoded as C++ would"])
p("C14","FixedList uses its inline nodes first and gives each slot to one element",
  "A FixedList of N nodes behaves as a List for every history, and an element is stored outside the object only if N elements were already stored inside when it was inserted; a freed inline slot is reused before the overflow allocator is asked. No two live elements ever share or overlap storage, every slot is properly aligned and inside the object, the overflow allocator sees only its own blocks back, and inline nodes never reach it.",
  ["histories","configurations"],"every operation history, N >= 1, element size and alignment, both the default and the layout-conformant list",
  "Tests use N = 1 with two pushes; slot reuse and mixed inline/overflow frees are unsampled.",
  [FL,FLC,FP,FPO,L],[("free list and bump pointer","FixedPool::allocate_raw_aligned/deallocate_raw_aligned"),("ownership test by address","FixedPoolWithOverflow::deallocate_raw_aligned"),("pool set-up","FixedPool::init")],
  [("head/next/capacity","pool state",FP)],["addresses of elements","calls reaching the overflow allocator"])
p("C15","FixedVector stays inline until it overflows and survives being moved",
  "A FixedVector of capacity N behaves as a Vector for every history, keeps its elements inside the object until more room than N is needed (by growth or an explicit reserve), and has_overflowed is true exactly when its elements live in an overflow block. Moving it with move_new transfers the elements, the overflow state and the overflow allocator exactly once: the target then behaves as the source would have, and nothing is lost, duplicated, shared or destroyed twice. Clearing it returns it to inline storage.",
  ["histories","configurations"],"every history including moves at any point before and after overflow, N >= 1, any element type and overflow allocator",
  "Tests move a two-element and a twelve-element vector once and look at the length.",
  [FV,FVA,V],[("inline buffer set-up","FixedVector::init_base_vec"),("move constructor","MoveNew for FixedVector"),("pool pointer test","FixedVectorAllocator::deallocate_raw_aligned")],
  [("begin_ptr vs buffer","overflow state",FV)],["addresses of elements","calls reaching the overflow allocator"])
p("C16","Map, Set and FixedMap read any EASTL red-black tree correctly",
  "Given any well-formed EASTL tree in memory, of any shape, Map and Set find exactly the keys that are in it, get_mut writes reach exactly that node, len and is_empty are right, and iteration visits every pair exactly once in comparator order and then ends. Clearing or dropping such a container destroys and frees every node exactly once and leaves it empty and usable; containers created empty (including fixed ones) behave as empty.",
  ["inputs","configurations"],"every tree shape and size, every key set, comparator and element type",
  "Trees cannot be built through the API, so no test exercises lookup, traversal, clear or drop on a non-empty tree.",
  [T,TN,TI,M,SE,FM],[("descent","RBTree::find_in_tree"),("successor","Node::next"),("recursive free","RBTree::free_tree, RBTree::clear")],
  [("begin/end/parent/size","C++-visible anchor",T)])
p("C17","Every element is destroyed exactly once",
  "For every container and every history, each value moved in is either handed back to the caller or destroyed exactly once: on overwrite, removal, clear, consuming iteration, assignment or drop of the container. No value is destroyed twice, none is destroyed while still reachable, none is forgotten, and storage that holds no value is never treated as one.",
  ["histories"],"every operation history of every container, with element, key and value types that own resources",
  "Drop tests use two elements in a fresh container; overwrite, append of owning types, removal then drop, and partly consumed iterators are not covered.",
  [V,VI,D,H,L,VM,T,FV,FL],[("drop in place","Vector::clear, Deque::drop, HashTable::free_buckets, List::clear, RBTree::free_tree"),("moves out by ptr::read","pop/remove paths")],
  None,["destructor and clone events of instrumented element types"])
p("C18","Containers honour the allocator contract",
  "Every container obtains all its memory from the allocator it was given and returns every block exactly once, to the same allocator, with the size and alignment it was requested with; once the container is gone nothing is outstanding. It never requests zero bytes, never writes outside a block or into one it has returned, and never asks for less than what it goes on to use.",
  ["histories","configurations"],"every history of every container, any element size and alignment, default and user-supplied stateful allocators",
  "No test observes allocator traffic at all.",
  [A,V,D,H,L,T,FV,FP,FPO,SN],[("paired allocate/deallocate","all containers"),("null-terminator slack","NullTerminatorAllocator")],
  None,["allocate/deallocate events seen by an instrumented allocator"])
p("C19","No safe operation sequence causes undefined behaviour",
  "No history of documented-valid calls makes a container access memory out of bounds, after it was freed or before it was initialised, use a misaligned or dangling pointer, leak memory, or otherwise execute undefined behaviour as detected by address sanitizing and by interpretation of the abstract machine. That holds for element types of every behaviour: equality, order, hash and size hints that contradict themselves may make answers meaningless, not memory accesses wrong.",
  ["histories","inputs"],"every history of valid calls over every container and element type",
  "The test suite runs uninstrumented, so such errors are silent.",
  [V,D,DI,H,HI,L,LN,FP,FV,S,T,TN],[("unsafe pointer code","all containers")],
  None,["AddressSanitizer/LeakSanitizer and Miri reports"])
p("C20","Panics in user code never corrupt a container",
  "If user-supplied code called by a container (an element's drop or clone, a key's hash, equality or comparison, a closure, a source iterator, an allocator that refuses by panicking) panics at any point, the unwinding and the later use or drop of the container never destroy a value twice, never touch freed or uninitialised memory and never return a block twice, and a string stays valid UTF-8 and terminated. At worst values or memory are leaked.",
  ["crash_points","histories"],"every history and every callback invocation as the panic point",
  "No test panics inside a callback.",
  [V,D,H,HE,L,VM,FV,T],[("state updated before or after callbacks","clear/append/assign/rehash/free paths")],
  None,["destructor events, allocator events and sanitizers after an injected panic"])
p("C21","Concurrent readers are race-free and reads change nothing",
  "Any number of threads may call the read operations of one shared container at once (lookups, length, front/back, iteration, comparison, formatting, cloning) without a data race, each getting the answer it would get alone, and no read operation modifies the container or its memory. A container handed to another thread continues there unaffected.",
  ["schedules","histories"],"every interleaving of readers and every container state reached",
  "Every test is single-threaded.",
  [V,D,Q,H,VM,S,M],[("Send/Sync impls","every container module"),("reads through &self","get/iter/len paths")],
  None,["ThreadSanitizer reports","memory snapshots around reads"])
p("C22","Default hashes equal EASTL's for every value",
  "For every value, the default hash of an integer or bool is the value converted to the machine word (sign-extended when signed), of a float its truncation (saturating), and of a string, in any of its forms (str, &str, String, C string), the 32-bit FNV-1 hash of its bytes zero-extended to the word, so equal keys hash equally in every string form and C++ computes the same bucket.",
  ["inputs"],"every value of every supported key type, strings of every length and byte content",
  "Tests hash three fixed ASCII strings and no number.",
  [HA,S],[("per-type impls and fnv1","DefaultHash")])
p("C23","The default allocator returns usable, disjoint, aligned blocks",
  "For every size, count and power-of-two alignment the default allocator returns a block at least as large as requested, aligned as requested, disjoint from every live block and retaining what is written to it until it is returned; the typed, raw and raw-aligned entry points agree on the size and alignment involved. A zero-sized request, a request whose size overflows and exhaustion stop the program rather than yield a null, short or misaligned block.",
  ["inputs","histories"],"every (size, alignment, count) and every allocation history",
  "One test asks for 20 bytes at three alignments.",
  [A],[("layout computation","DefaultAllocator::allocate_raw_aligned, Allocator::allocate")],
  None,["returned pointers","layouts reaching the global allocator"])
p("C24","In-memory images match EASTL's layout in both directions",
  "At every quiescent point the raw memory of a Vector, String, Deque, List, HashMap, HashSet, VectorMap, FixedVector, FixedList or Map decodes, by EASTL's documented field order and node layouts alone, to exactly the container's contents, for every element type. Conversely an image built by hand in that layout with matching allocations is read, modified and freed correctly through the Rust API.",
  ["inputs","histories"],"every reachable state, element type sizes and alignments; every hand-built image",
  "Layout tests pin field offsets for u32 only and never decode a populated container.",
  [V,D,DI,L,LN,H,"src/internal/hash_table/node.rs",T,TN,FP,FPO,FL,FV,S],[("repr(C) structs","all container structs and nodes")],
  None,["raw bytes of the container objects and their blocks"])
p("C25","Operations keep their step bounds",
  "Hash lookups, insertions and removals compare a key only with elements of its own bucket, at most once each, and hash it a constant number of times, rehashing happening only on growth so that n insertions trigger O(log n) rehashes; VectorMap operations make O(log n) comparisons and tree lookups at most two per level. n pushes onto a Vector make O(log n) allocations, and each Deque push or pop makes at most one block allocation or release, with O(log n) index allocations over n pushes; removing position i of a Deque moves only the elements between it and the nearer end; list operations make at most one allocator call each. Asking for length, emptiness or an end, and adding or removing there with room to spare, costs the same however many elements there are.",
  ["histories","inputs"],"every operation history and size",
  "Tests do not count steps.",
  [H,HR,VM,T,V,D,L],[("hashing and chaining","HashTable"),("binary search","VectorMap::lower_bound"),("growth policies","Vector::grow, Deque::realloc_ptr_array, PrimeRehashPolicy")],
  None,["calls of instrumented Hash/Equals/Compare and allocator","thread CPU time of single-step operations on very large containers"])
p("C26","Copies and conversions are exact and independent",
  "Cloning a Vector or String, constructing any container from an iterator, slice, array or string, assigning or appending from a slice, and consuming a container each yield exactly the source's elements in order (last value wins for maps), cloning each borrowed element exactly once and moving owned ones; later changes to either side never show in the other. Debug and Display output and equality depend only on the contents.",
  ["inputs","histories"],"every source content and length, every later history on either side",
  "Conversions are tested on three-element u32 sources.",
  [V,S,VM,H,HM,HS,D,Q,L],[("clone via assign","Clone for Vector"),("From/FromIterator impls","each container"),("Debug/Display impls","each container")])
p("C27","Rejected operations have no effect",
  "An operation that cannot be performed (popping or peeking an empty container, an index out of range, a key that is absent, an insertion position past the end, a size that overflows) reports it as documented (None, or a panic) and leaves contents, order, length, capacity and storage exactly as they were, and the container fully usable.",
  ["inputs","histories"],"every container state, every invalid index, absent key and oversized request",
  "Three tests reject one index each and do not use the container afterwards.",
  [V,S,D,Q,L,H,VM,T,A],[("bounds checks","Vector::insert/remove, Deque::remove, String::insert/remove"),("checked arithmetic","Vector::reserve, Allocator::allocate")])
p("C28","Relocatable containers survive being moved anywhere",
  "A Vector, Deque, Queue, String, HashMap, HashSet or VectorMap, or a consuming iterator over one, may be moved in memory at any point of its history (returned, boxed, swapped, replaced, stored in another container, sent to another thread) and then behaves exactly as if it had not moved, without its elements moving.",
  ["histories"],"every history with moves between any two operations, including of empty containers",
  "Tests never move a populated container and go on using it.",
  [V,D,Q,S,H,VM],[("no self-references","headers hold only heap or static pointers")])
p("C29","Compatibility iterator pairs follow the EASTL iterator protocol",
  "The begin/end pairs produced from deque and hash-container iterators, at any point of iteration, denote exactly the remaining elements when advanced by EASTL's own stepping rule (current/first/last/block pointer for deques; node then next non-empty bucket up to the sentinel for hash containers), and pairs built by that rule convert back to iterators yielding exactly those elements. Converting there and back changes nothing, including for exhausted iterators and empty containers.",
  ["histories","inputs"],"every container state and every partially advanced iterator from either end",
  "Tests round-trip one ten-element table at two positions and never step the pairs as C++ would; deque pairs are not tested.",
  [DI,HI,"src/hash_set/iter.rs"],[("into_compat/from_compat","deque::iter::RawIter, hash_table::iter::RawIter")],
  [("CompatIter fields","C++-visible iterator",HI)],["raw words of the compatibility iterators"])
p("C30","Borrow rules keep references and iterators from outliving or aliasing",
  "No program accepted by the compiler without unsafe code can hold an iterator or reference into a container across a conflicting modification, move or drop of that container, obtain two live mutable references to one element, or take an address-bound container's contents out of their place.",
  ["programs"],"every safe Rust program using the crate",
  "A statement about which programs compile; tests are programs that do compile.",
  [DI,D,LI,L,HI,TI],[("lifetime parameters and receiver types","iterator constructors")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
