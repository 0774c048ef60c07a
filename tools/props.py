import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":["include/boost/poly_collection/"+f for f in files],"mechanism":[{"name":n,"where":"include/boost/poly_collection/"+w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":"include/boost/poly_collection/"+w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
PC="detail/poly_collection.hpp"
p("C01","Modifiers keep each segment equal to a per-type sequence",
 "After any history of insert, emplace, emplace_hint, emplace_pos, erase and clear calls (every overload and iterator kind), a base_collection, function_collection or any_collection holds for each registered type exactly the sequence of elements that the same calls produce on one std::vector per type, and nothing else. A hinted or positioned insertion puts the element just before the given position when that position is in the element's segment and at the end of that segment otherwise. Every iterator returned designates the inserted element, or the element following the erased ones, and can be walked on to end().",
 ["histories","inputs"],"every finite history of single-element insertions, emplacements, erasures (single, range within a segment, range across segments) and clears, over any mix of element types and positions",
 "the suite runs a few fixed sequences of about a dozen elements with two or three types; positions at segment boundaries, empty segments in the middle and full/non-full segments are sampled once or not at all",
 [PC,"detail/segment.hpp","detail/packed_segment.hpp","detail/split_segment.hpp"],
 [("insert/emplace/erase/clear overloads",PC),("segment modifiers and sentinel",  "detail/segment.hpp"),("store insertion and erasure","detail/packed_segment.hpp"),("store and index kept in step","detail/split_segment.hpp")],
 ["returned iterators","size/begin/end/segment views"])
p("C02","Range insertion and construction add exactly the range's elements, in order",
 "insert(first,last), insert(hint,first,last), insert(local_position,first,last) and the range constructor add, for every element of the range and in range order, one equal element to the segment of its type, whether the range comes from global, local_base or local<T> iterators of another collection or from external iterators of any category (input, forward, random access, move iterators, ranges of interface references). With a hint, elements of the segment of the hinted position go just before it and keep their order; with a local position they all go there and the returned iterator designates the first of them (or the position itself if the range is empty); other elements go to the end of their segments. Types missing from the destination are registered when the range comes from another collection's iterators.",
 ["inputs","histories"],"every source range (kind, category, length, mix of types) against every destination state and hint",
 "tests use a handful of hand-picked ranges; the product of source kind, hint segment, destination fill state and element types is far larger, and input-iterator-only ranges at non-end hints with reallocation are not reached",
 [PC,"detail/segment.hpp","detail/packed_segment.hpp","detail/split_segment.hpp"],
 [("insert range overloads",PC),("nv_insert range for forward and input iterators","detail/split_segment.hpp"),("nv_insert range","detail/packed_segment.hpp")],
 ["segment contents after the call","returned local iterator"])
p("C03","All traversal views describe the same elements in the same order",
 "At any point, begin()/end(), per-type begin(info)/end(info), begin<T>()/end<T>(), segment(info), segment<T>() and segment_traversal(), in their const, non-const and c- forms, visit exactly the same objects: global traversal is the concatenation of the segments in segment_traversal order, empty segments contribute nothing, each element is visited exactly once and size()/empty() in all their forms agree with it. Segment order does not change unless a type is registered or the whole contents are replaced, and no const operation changes what is visited.",
 ["histories"],"every reachable collection state (including empty and emptied segments first, last, adjacent, and many types)",
 "tests compare sizes and a few traversals on small fixed collections; they do not cover combinations of emptied segments with the different views",
 [PC,"detail/iterator_impl.hpp","detail/segment.hpp","detail/stride_iterator.hpp","detail/callable_wrapper_iterator.hpp","detail/any_iterator.hpp"],
 [("segment skipping in iterator increment","detail/iterator_impl.hpp"),("segment_info views",PC),("cached sentinel","detail/segment.hpp")],
 ["all begin/end pairs","segment_traversal"])
p("C04","References and iterators stay valid as documented",
 "Inserting into or erasing from a segment never moves, copies or destroys an element of another segment, and every iterator and reference into other segments (and any end() iterator) keeps designating the same element; registering further types has the same guarantee. Within the affected segment, elements before the insertion or erasure point keep their address and their iterators stay valid, as long as the operation does not exceed the segment's capacity; reserve() within capacity, clear of other segments, swap and move construction keep elements in place too.",
 ["histories"],"every history: each live iterator or reference outstanding at each operation",
 "tests never hold references across later operations, so address stability under growth of other segments, registrations (rehashing) or in-capacity insertions is not observed",
 [PC,"detail/type_info_map.hpp","detail/split_segment.hpp","detail/packed_segment.hpp","detail/segment.hpp"],
 [("node based type map with iterator cache","detail/type_info_map.hpp"),("index capacity reserved ahead of the store","detail/split_segment.hpp"),("in-place vector insertion","detail/packed_segment.hpp")],
 ["addresses of held elements","dereference and advance of held iterators"])
p("C05","Type registration and unregistered_type are exact",
 "is_registered is true exactly for the types named in register_types, reserve<T>, emplace/insert of a statically known type or brought in from another collection, however many types there are and however typeid is obtained. Every per-type operation naming an unregistered type, and insertion of an object whose dynamic type is unregistered and differs from its static type, throws unregistered_type carrying that type in pinfo and leaves the collection unchanged. Registering a registered type changes nothing.",
 ["histories","inputs"],"every sequence of registrations over arbitrarily many types interleaved with lookups through every per-type operation",
 "tests register up to five types; hash table growth, repeated registration and the full list of throwing operations with an unchanged collection are sampled only",
 [PC,"detail/type_info_map.hpp","exception.hpp"],
 [("get_map_iterator_for overloads",PC),("type_info_map find/insert/rebuild_cache","detail/type_info_map.hpp"),("unregistered_type","exception.hpp")],
 ["is_registered","thrown exception and pinfo","contents before and after"])
p("C06","Capacity operations keep their numeric contract and the contents",
 "After reserve(n) the capacity of each concerned segment is at least n and at least its size, insertions up to that capacity do not reallocate, and reserve<T> registers T while reserve(info,n) requires it; no reserve ever shrinks a capacity. shrink_to_fit never increases a capacity nor changes the elements, gives unused capacity back (as std::vector does) and, without arguments, does so for every segment; capacity() never drops below size(), and size() never exceeds max_size(). Asking for more than max_size() throws std::length_error and leaves the collection as it was.",
 ["histories","inputs"],"every collection state and every requested size, including 0, sizes around the current capacity and beyond max_size, for allocators with any max_size",
 "tests reserve two fixed sizes on one collection and never exceed max_size",
 [PC,"detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp"],
 [("reserve/shrink_to_fit/capacity/max_size",PC),("nv_reserve, nv_shrink_to_fit, expand","detail/split_segment.hpp"),("nv_reserve","detail/packed_segment.hpp")],
 ["capacity<T>(), capacity(info), max_size","element addresses","exceptions"])
p("C07","Copy, move, assignment and swap have value semantics",
 "A copy (construction, allocator-extended construction or assignment) holds equal elements of the same types in the same per-type order, independent of the original; a move transfers the elements to the destination and leaves the source a valid, usable collection; swap exchanges the contents. What the destination held before is gone, self-assignment changes nothing, and after any of these operations both collections respond correctly to any further operation, including types that only one of them had.",
 ["histories","configurations"],"every pair of collection states, every operation, every combination of allocator equality and propagation traits, followed by every further history",
 "tests copy and move one populated collection once and compare; operations that follow on source and destination, stale type lookups and propagation combinations are only sampled",
 [PC,"detail/type_info_map.hpp","detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp"],
 [("type_info_map copy/move/assign/swap and cache rebuild","detail/type_info_map.hpp"),("segment copy/move","detail/segment.hpp"),("copy/move/empty_copy","detail/split_segment.hpp")],
 ["contents of both collections after the operation and after further operations"])
p("C08","Allocator and object lifetime discipline",
 "All memory of a collection is obtained from its allocator (or copies of it) and returned to an equal one with the same size, every element is constructed exactly once and destroyed exactly once, through the allocator's construct and destroy, and nothing is left when the collection is destroyed. get_allocator() and the allocator used by later operations follow select_on_container_copy_construction and the propagate_on_container_copy_assignment, _move_assignment and _swap traits, also with unequal allocators.",
 ["histories","configurations"],"every history over several collections with distinguishable allocators, for every combination of propagation traits",
 "the suite has one propagation test per trait checking get_allocator only; it does not track individual blocks and objects over histories",
 ["detail/allocator_adaptor.hpp","detail/value_holder.hpp","detail/segment.hpp","detail/type_info_map.hpp","detail/packed_segment.hpp","detail/split_segment.hpp"],
 [("allocator_adaptor construct/destroy","detail/allocator_adaptor.hpp"),("value_holder constructors","detail/value_holder.hpp"),("new_/delete_ of segments","detail/packed_segment.hpp"),("propagation on assignment","detail/type_info_map.hpp")],
 ["allocate/deallocate/construct/destroy calls of a recording allocator","tracked object population"])
p("C09","Equality is exact",
 "a==b holds exactly when, for every type, the elements of that type in a and in b are the same number and pairwise equal in order; types with no elements do not matter, nor does the order in which types were registered or capacities; a!=b is the negation, both are symmetric and free of side effects, and this is also so for a collection compared with itself, where the elements' own == decides.",
 ["inputs","histories"],"every pair of collection states",
 "tests compare a collection with its copy and a few modified ones",
 [PC,"detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp","detail/value_holder.hpp"],
 [("operator==",PC),("segment equality","detail/segment.hpp"),("value_holder equality","detail/value_holder.hpp")],
 ["result of == and != both ways"])
p("C10","Operations that throw leave collections intact and nothing leaked",
 "Whenever an allocation, element construction, copy, move, assignment or comparison throws during any operation, the exception propagates, no element or memory is leaked or destroyed twice, and every collection involved stays valid: all views agree, every element is alive and the collection can go on being used. If a single-element insertion at the end of a segment fails, the elements are exactly those before it, unless it was a potentially throwing move of a non-copyable type that failed.",
 ["fault_sequences","histories"],"every operation from every reachable state with a fault injected at every throwing step it performs",
 "the suite injects no faults at all",
 ["detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp","detail/type_info_map.hpp",PC],
 [("sentinel_guard","detail/segment.hpp"),("index_guard and reserve-before-insert","detail/split_segment.hpp"),("try/catch in assignments","detail/type_info_map.hpp"),("new_ rollback","detail/packed_segment.hpp")],
 ["state after the exception compared with before","tracked objects and memory blocks"])
p("C11","poly_collection algorithms are equivalent to the std ones",
 "Every algorithm of boost::poly_collection gives, for global iterator ranges of any collection, the same result, the same effects on outputs, and the same returned function object or iterators as its std counterpart on the same range, and applies its predicate or function to the same elements in the same order (where std prescribes one).",
 ["inputs","configurations"],"every range [first,last) of every collection state (spanning several segments, starting or ending inside one, empty segments between), every predicate outcome and every algorithm",
 "each algorithm is tested on full ranges of one fixed collection with a couple of predicates",
 ["algorithm.hpp","detail/segment_split.hpp","detail/auto_iterator.hpp","detail/iterator_traits.hpp","detail/functional.hpp"],
 [("segment by segment implementations","algorithm.hpp"),("segment_splitter","detail/segment_split.hpp")],
 ["return values, outputs, predicate call sequence"])
p("C12","Type restitution changes only the static type passed",
 "Passing a list of types to a poly_collection algorithm makes the function object receive elements of those types as references to that concrete type, elements of other types as references to the interface, always referring to the very element, in the same sequence as without the list and with the same result. This holds for any list (subset, order, repetitions, types not registered) and for every position of the element in the range, including the first and last of a segment.",
 ["inputs","configurations"],"every algorithm, every list of restituted types, every range",
 "tests restitute one fixed list covering all types of the collection",
 ["algorithm.hpp","detail/type_restitution.hpp"],
 [("restitute_range/restitute_iterator/type_restitution dispatch","detail/type_restitution.hpp"),("algorithms taking prev/next elements across segments","algorithm.hpp")],
 ["static type, address and order of the arguments received","results"])
p("C13","Missing copy or equality operations are reported exactly when needed",
 "Collections accept element types that are not copyable, not equality comparable or not assignable: any operation that does not need the missing operation works for them. An operation that has to copy an element of a non-copyable type throws not_copy_constructible, and one that has to compare elements of a type without operator== throws not_equality_comparable, each carrying that type in pinfo and leaving the elements of the source (and of both operands of a comparison) unchanged; operations on segments without elements of such types do not throw.",
 ["histories","inputs"],"every operation on every mix of copyable/non-copyable, comparable/non-comparable, assignable/non-assignable types and fill states",
 "tests check one throwing copy and one throwing comparison",
 ["detail/value_holder.hpp","exception.hpp","detail/is_acceptable.hpp",PC],
 [("value_holder copy/equal/move_assign dispatch","detail/value_holder.hpp"),("exception classes","exception.hpp")],
 ["exceptions and pinfo","contents after"])
p("C14","Interface and concrete views denote the same live object",
 "For every element, the interface reference obtained by traversal and the concrete reference obtained through typed iterators denote one object at one suitably aligned address: calling through the interface, modifying through either, function_collection's target/target_type/data, operator bool and conversion to std::function, and any_collection's any_cast and typeid_of all act on and report that object and its exact type. This holds whatever the class layout (multiple inheritance, non-primary base, over-alignment, any size) and kind of type (function pointer, lambda, std::function, type-erased any), after any operation.",
 ["inputs","histories","configurations"],"every element of every acceptable type in every state",
 "tests use simple single-inheritance classes and check values, not identity of the views",
 ["detail/base_model.hpp","detail/function_model.hpp","detail/any_model.hpp","detail/callable_wrapper.hpp","detail/stride_iterator.hpp","detail/value_holder.hpp","detail/split_segment.hpp"],
 [("value_ptr/subaddress/subtypeid","detail/base_model.hpp"),("callable_wrapper target/data/invoke","detail/callable_wrapper.hpp"),("make_value_type","detail/any_model.hpp"),("index entries","detail/split_segment.hpp")],
 ["addresses, values and type_info through each view"])
p("C15","Local iterators satisfy the random access laws and conversions",
 "For any segment, local_base_iterator, const_local_base_iterator, local_iterator<T> and const_local_iterator<T> satisfy every random access iterator law (+, -, +=, -=, ++, --, [], difference, all six comparisons) over the whole segment including its end, and converting among them, const or not, base or concrete and back, preserves the position. Global iterators satisfy the multipass forward iterator laws, and const and non-const versions compare equal at equal positions.",
 ["inputs","histories"],"every pair of positions in every segment of every state, every conversion chain",
 "tests check begin/end conversions and a full forward traversal",
 ["detail/iterator_impl.hpp","detail/stride_iterator.hpp","detail/callable_wrapper_iterator.hpp","detail/any_iterator.hpp"],
 [("stride arithmetic","detail/stride_iterator.hpp"),("conversion constructors and base_iterator_from","detail/iterator_impl.hpp")],
 ["iterator arithmetic results and dereferenced addresses"])
p("C16","Concurrent const access is free of data races",
 "Any number of threads may call const operations of the same collection at the same time (lookups by type, traversals, comparisons, copies, algorithms), and operate on different collections, without data races and each obtaining the result it would obtain alone.",
 ["schedules","histories"],"every interleaving of any number of const operations",
 "the suite is single threaded",
 ["detail/type_info_map.hpp",PC,"detail/segment.hpp"],
 [("const find does not touch the cache","detail/type_info_map.hpp"),("const segment access",PC)],
 ["ThreadSanitizer reports","results obtained by each thread"])
p("C17","Operation costs are within the documented complexity",
 "Insertion at the end of a segment takes amortized constant number of element operations and reallocations; insertion or erasure at a position costs at most proportional to the distance to the end of that segment; operations on one segment perform no operations on elements of others; appending ranges again and again costs amortized linear in their total length; range erasure is linear in the elements erased plus the distance from the last one to the end of its segment; reserving, copying, comparing and clearing are linear; observers and traversals perform no element operations; moving and swapping with equal allocators does not touch elements one by one. The same holds of everything else these operations do (index maintenance, lookups, walks): what is documented as constant, or as proportional to a distance or a range, does not grow with the number of other elements of the segment or of the collection, and an algorithm on a short range of a long collection costs in proportion to the range.",
 ["inputs","histories"],"every size and position; counts of element constructions, moves, copies, assignments, destructions and allocations per operation, and of executed control-flow edges",
 "tests check results only, on a dozen elements",
 ["detail/split_segment.hpp","detail/packed_segment.hpp",PC,"algorithm.hpp"],
 [("expand growth policy","detail/split_segment.hpp"),("vector growth","detail/packed_segment.hpp"),("range insertion with one reservation","detail/split_segment.hpp")],
 ["counters of element special member calls and allocator calls","executed control-flow edges (compiler instrumentation of the harness build)"])
p("C18","Inserting a collection's own elements inserts their prior value",
 "insert(x), hinted and positioned insert and emplace work when x (or an argument of emplace) is a reference to an element of the same collection, obtained as a concrete or as an interface reference: the new element equals the value the argument had before the call and the other elements are unchanged, whether or not the segment has to grow.",
 ["inputs","histories"],"every source position, insertion position and fill state (spare capacity or full), every overload taking a reference",
 "no test inserts an element of the collection into itself",
 ["detail/split_segment.hpp","detail/packed_segment.hpp","detail/segment.hpp"],
 [("expand_emplace","detail/split_segment.hpp"),("nv_insert/nv_push_back","detail/packed_segment.hpp")],
 ["contents after the call"])
p("C19","Type identity does not depend on the type_info object's address",
 "Per-type operations called with different std::type_info objects that compare equal (as happens across dynamically loaded modules) refer to one and the same segment, in any order and however many such objects are used, also after copying, moving, swapping and registering more types.",
 ["inputs","histories"],"every history of lookups and modifications through equal but distinct type_info objects",
 "tests use one type_info object per type, those of the single test executable",
 ["detail/type_info_map.hpp",PC],
 [("lookup cache keyed by address over a map keyed by type","detail/type_info_map.hpp")],
 ["results of per-type operations through alias type_info objects"])
p("C20","Insertions and emplacements forward value categories; nothing else copies",
 "Inserting an rvalue (concrete or interface, at any position, with or without a hint) moves from it and never copies; inserting an lvalue or const object copies it exactly once and leaves it unchanged. emplace, emplace_hint and emplace_pos forward each argument with its value category and constness to the element's constructor. Range insertion copies each lvalue element once and leaves the source unchanged; with move iterators in insert(first,last) and insert(hint,first,last) it moves. No other operation (growth, erasure, reserve, shrink_to_fit, moving or swapping collections with equal allocators, algorithms) copies an element whose moves do not throw, and no operation reads a moved-from element. Calling a function_collection element passes arguments and results as a direct call through its signature would.",
 ["inputs","histories"],"every overload, value category and constness of the argument, argument list, insertion position and fill state",
 "tests look at the contents only, so a copy instead of a move, a second copy or an argument passed as an lvalue goes unnoticed; move-only types are tried at a few call sites",
 [PC,"detail/segment.hpp","detail/segment_backend.hpp","detail/packed_segment.hpp","detail/split_segment.hpp","detail/base_model.hpp","detail/callable_wrapper.hpp","detail/value_holder.hpp"],
 [("insert and emplace overloads",PC),("push_back_move/insert_move against push_back/insert","detail/segment_backend.hpp"),("value_holder forwarding constructors","detail/value_holder.hpp"),("callable_wrapper call","detail/callable_wrapper.hpp")],
 ["counts kept by the elements (copies since the original, moved-from flag, categories of the constructor's arguments)"])
p("C21","Collections work inside elements and while another collection is at work",
 "Elements may themselves hold collections of the same kind, to any depth, and their special members, comparisons and calls may use other collections: copying is deep and independent, moves and swaps carry whole subtrees, equality is recursive, destruction releases everything, and algorithms may be run on a nested or other collection from within the function passed to an algorithm. No operation on one collection is affected by an operation on a different collection that happens during it.",
 ["histories"],"every tree of collections, every history of insertions, subtree copies and moves, assignments, swaps and erasures at any place of it, with operations on other collections nested in element operations",
 "no test nests collections or uses one collection from within an operation on another",
 [PC,"detail/type_info_map.hpp","detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp","algorithm.hpp","detail/algorithm_impl.hpp"],
 [("copy, move, comparison and destruction of segments","detail/segment.hpp"),("per-segment traversal of algorithms","algorithm.hpp"),("type map","detail/type_info_map.hpp")],
 ["the whole tree against a reference tree after each step","results of recursive algorithms"])
p("C22","Exactly the acceptable types can be stored, and all of them work",
 "A type that implements the interface (derives from the base class, or can be called as an lvalue through the signature; any_collection does not check its concept), is move constructible and is move assignable or nothrow move constructible can be registered, emplaced, inserted, reserved for and accessed; per-type members do not take part in overload resolution for any other type, and insert does not for a type that does not implement the interface. Whatever copy, move and assignment operations an acceptable type has or lacks, and whether they may throw, every operation works on its segment as on one std::vector per type, except that copying an element that cannot be copied throws not_copy_constructible.",
 ["inputs","configurations"],"every combination of available, deleted, throwing and nothrow special members and of ways to implement the interface, every history on the acceptable ones",
 "tests use five types per collection, most of them with ordinary special members",
 ["detail/is_acceptable.hpp","detail/is_invocable.hpp","detail/is_final.hpp","detail/base_model.hpp","detail/function_model.hpp","detail/value_holder.hpp",PC],
 [("acceptability","detail/is_acceptable.hpp"),("is_implementation","detail/function_model.hpp"),("constraints of members",PC),("move_assign emulation","detail/value_holder.hpp")],
 ["which expressions are well formed (detection idiom)","contents after each step"])
p("C23","Allocator-aware elements always use their collection's allocator",
 "With an allocator that passes itself to elements (std::pmr::polymorphic_allocator, std::scoped_allocator_adaptor), every element of an allocator-aware type uses, at all times, the allocator of the collection that holds it: however it was emplaced or inserted (lvalue, rvalue, own element, range), through growth, erasure and shift, after copying, moving, swapping and assigning collections with equal or unequal allocators and any propagation traits, and for a type taking its allocator first or last, copyable or not, assignable or not. Types that take no allocator are constructed without it. All memory goes back to the allocator it came from.",
 ["histories","configurations"],"every history over several collections with distinguishable allocators, propagation traits and forms of allocator-aware types",
 "tests use allocators without construct, and elements that take no allocator",
 ["detail/allocator_adaptor.hpp","detail/value_holder.hpp","detail/segment.hpp","detail/split_segment.hpp","detail/packed_segment.hpp","detail/type_info_map.hpp",PC],
 [("construct and destroy","detail/allocator_adaptor.hpp"),("allocator-extended constructors","detail/value_holder.hpp"),("copy, move, empty_copy with an allocator","detail/segment.hpp")],
 ["allocator reported by each element","blocks known to each memory resource"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
