import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook))
    if state: d["anchors"]["state"]=state
    P.append(d)

p("C01","Declared size and alignment of every stable type match the compiled type",
 "For every type that claims a stable layout (primitives, references, function pointers, arrays, tuples, user structs, unions, native and stabby-represented enums, standard options, stabby options and results, containers, trait-object pointers, and any nesting of these), the size and alignment that the type publishes equal the size and alignment that the compiler actually gives it. Defining or instantiating such a type never fails to compile because the published layout disagrees with the real one.",
 ["programs"],"All type definitions accepted by the attribute macro and all compositions of stable types.",
 "The layout test checks about 50 hand-picked types; the space of compositions (alignment mixes, nested sum types, representation attributes) is unbounded.",
 ["stabby-abi/src/istable.rs","stabby-abi/src/result.rs","stabby-abi/src/option.rs","stabby-abi/src/enums/","stabby-abi/src/stable_impls/mod.rs","stabby-abi/src/num.rs","stabby-macros/src/structs.rs","stabby-macros/src/enums.rs","stabby-macros/src/unions.rs"],
 [("type-level size/align computation","stabby-abi/src/istable.rs FieldPair/Union/Struct/AlignedStruct"),("sum-type size","stabby-abi/src/result.rs IStable for Result"),("macro-generated implementations","stabby-macros/src/{structs,enums,unions}.rs")],
 ["size()/align() associated functions vs core::mem::size_of/align_of"])
p("C02","Published niches and spare bits are sound",
 "Every byte pattern a stable type publishes as forbidden is never the representation of any of its values, and every bit it publishes as unused can be overwritten with anything without changing the value or any later read of it. A standard optional around a type is published as stable only if the compiler really uses that type's single niche (same size, absent value represented in that niche).",
 ["programs","inputs"],"All compositions of stable types, and all values of each.",
 "Tests compare the niche type-lists of a few types with constants written by the authors; none checks that real values avoid forbidden patterns or survive scribbling on the spare bits.",
 ["stabby-abi/src/istable.rs","stabby-abi/src/stable_impls/mod.rs","stabby-abi/src/num.rs","stabby-abi/src/option.rs","stabby-abi/src/result.rs","stabby-abi/src/enums/","stabby-macros/src/enums.rs","stabby-macros/src/structs.rs"],
 [("ForbiddenValues / UnusedBits / HasExactlyOneNiche associated types","stabby-abi/src/lib.rs trait IStable"),("padding computation","stabby-abi/src/istable.rs")],
 ["byte representation of live values"])
p("C03","Layouts of composed types follow one fixed, documented rule set",
 "Size, alignment, field positions, niche lists and the placement of sum-type discriminants are a pure function of the composed types given by the documented layout rules (C field order, first niche of either variant, then spare bits, then an explicit tag, searching a bounded number of positions with the tag placed first), so that independently compiled binaries agree. In particular the documented compactness guarantees hold: an optional of a reference, non-zero integer, boolean, non-null container or of a type with spare padding takes no extra space.",
 ["programs"],"All compositions of structs, tuples, unions and sum types over stable leaf types.",
 "Tests pin the sizes of a dozen sum types; a different but self-consistent layout (the ABI break that stabby exists to prevent) is invisible to them for all other types.",
 ["stabby-abi/src/enums/err_non_empty.rs","stabby-abi/src/enums/err_size_0.rs","stabby-abi/src/enums/mod.rs","stabby-abi/src/istable.rs","stabby-abi/src/result.rs","stabby-macros/src/enums.rs"],
 [("determinant selection","stabby-abi/src/enums/err_non_empty.rs"),("binary-tree folding of n-ary enums","stabby-macros/src/enums.rs repr_stabby")],
 ["raw bytes of constructed values","published niche lists"])
p("C04","Stabby options and results behave exactly like the standard ones",
 "For every pair of payload types, every payload value and every sequence of operations (construction, conversion to and from the standard types, queries, borrowing and mutating either payload through guards, replacing, taking, mapping, cloning, comparing, hashing, consuming), a stabby result or option observably behaves like the standard one: same variant, same payload value. Each payload is dropped exactly once, and mutating a payload never flips the variant.",
 ["programs","histories","inputs"],"All payload type pairs with all niche placements, all values, all operation sequences.",
 "Tests build one Ok and one Err for ten type pairs and unwrap them once; no mutation, no boundary payloads, no drop accounting.",
 ["stabby-abi/src/result.rs","stabby-abi/src/option.rs","stabby-abi/src/enums/mod.rs","stabby-abi/src/enums/err_non_empty.rs","stabby-abi/src/enums/err_size_0.rs"],
 [("determinant read/write","stabby-abi/src/enums/mod.rs IDeterminant"),("guards re-establish the determinant on drop","stabby-abi/src/result.rs OkGuard/ErrGuard")],
 ["is_ok/match_*/as_ref/unwrap results","drop counts"])
p("C05","N-ary stabby enums always match the variant they were built with",
 "For every enum definition using the stabby representation, a value built with a variant's constructor is matched (by reference, by mutable reference, by value) by that variant's handler and no other, with exactly the payload it was given, also after payload mutation through the mutable match. Each payload is dropped exactly once whichever way the value is consumed; natively represented enums keep their discriminants and layout.",
 ["programs","inputs","histories"],"All enum definitions (variant counts, payload kinds, nesting, generics), all variants and payloads.",
 "One 5-variant enum with one value is matched in the tests.",
 ["stabby-macros/src/enums.rs","stabby-abi/src/result.rs"],
 [("binary tree of results generated by the macro","stabby-macros/src/enums.rs repr_stabby")],
 ["match_ref/match_mut/match_owned/is_*"])
p("C06","Reflection reports and identifiers coincide exactly when definitions do",
 "The reflection report of a type describes its name, module, version, kind and all of its fields, in declaration order or its reverse, with their names and own reports; two reports are compatible exactly when these structures are equal all the way down, and equal structures yield equal identifiers while differing structures yield different ones. Compatibility is reflexive, symmetric and transitive, and evaluating it never depends on where the reports live in memory.",
 ["programs","inputs"],"All report structures (any nesting, field count, names) and all generated type definitions.",
 "No test calls the compatibility or identifier functions except through a single matching pair in the examples.",
 ["stabby-abi/src/report.rs","stabby-macros/src/structs.rs","stabby-macros/src/enums.rs","stabby-macros/src/unions.rs","stabby-macros/src/traits.rs"],
 [("structural comparison","stabby-abi/src/report.rs TypeReport::is_compatible/PartialEq"),("identifier hash","stabby-abi/src/report.rs gen_id")],
 ["TypeReport::is_compatible, ==, Hash, Display, IStable::ID"])
p("C07","Restricted-range integers round-trip exactly the permitted values",
 "Each restricted-range integer (non-max, non-given-value, and fixed-bit-width signed and unsigned) accepts exactly its permitted values and rejects the others, and reading back an accepted value returns it unchanged. Equality, ordering, hashing, formatting, conversion and arithmetic agree with the underlying integer, and its published forbidden pattern is exactly the excluded value.",
 ["inputs"],"All values of each underlying integer width (exhaustive for 8 and 16 bits) and all restricted values.",
 "Tests try a few random values of each type for a few operations.",
 ["stabby-abi/src/num.rs"],
 [("encoding by offset/xor with the excluded value","stabby-abi/src/num.rs")],
 ["new/get/TryFrom/Ord/Hash/Debug/serde"])
p("C08","Type-level arithmetic and bit masks agree with integer arithmetic",
 "All type-level unsigned operations (sum, difference, bitwise operations, comparison, min/max, division by powers of two, rounding up to a multiple, successor, logarithm) produce the same result as the corresponding machine-integer operation for every pair of operands. Type-level bit masks (over distinct bytes) and forbidden-value lists behave as sets of bit or byte positions under shift, union, intersection and removal.",
 ["inputs","programs"],"All operand pairs up to 2^127 for arithmetic, all masks and lists for the set operations.",
 "The single test loops over a fixed list of a few constants.",
 ["stabby-abi/src/typenum2/unsigned.rs","stabby-abi/src/istable.rs"],
 [("trait-level arithmetic","stabby-abi/src/typenum2/unsigned.rs")],
 ["Unsigned::USIZE/U128 of result types"])
p("C09","Allocators and raw allocation handles honour layout, content and balance",
 "Every allocation handed out, for any element type, alignment and count and by any of the provided allocators, is aligned for and large enough for its elements, does not overlap any other live allocation, and keeps the common prefix of its content (and its bookkeeping) when resized. Every allocation is returned exactly once to the allocator with the address it was obtained at, and allocation failure is reported as such without touching the old block.",
 ["histories","inputs","fault_sequences"],"All layouts, counts and sequences of allocate/resize/free on every allocator, with failures at any point.",
 "Tests allocate vectors of a couple of element types, none over-aligned, with allocators that never fail.",
 ["stabby-abi/src/alloc/mod.rs","stabby-abi/src/alloc/allocators/rust_alloc.rs","stabby-abi/src/alloc/allocators/libc_alloc.rs"],
 [("prefix-based raw allocation handle","stabby-abi/src/alloc/mod.rs AllocPtr/AllocPrefix/AllocSlice")],
 ["pointer addresses, block contents, allocator call log"])
p("C10","Growable vectors behave like the standard vector",
 "For every element type (zero-sized, over-aligned, owning), allocator and sequence of operations (push, pop, insert, remove, swap, truncate, extend, drain from both ends, reserve, clone, iterate, compare, convert), a stabby vector has the same contents, length, returned values and panics as the standard vector, and a capacity that is at least its length and at least what was reserved. Every element is dropped exactly once and no operation reads or writes outside the allocation.",
 ["histories","inputs"],"All operation sequences with all indices and ranges, all element types and allocators.",
 "One test pushes/collects integers in one order; drains, fallible operations, zero-sized and over-aligned elements are never exercised.",
 ["stabby-abi/src/alloc/vec.rs","stabby-abi/src/alloc/mod.rs"],
 [("raw vec with start/end/capacity pointers","stabby-abi/src/alloc/vec.rs")],
 ["contents, len, capacity, return values, drop counts"])
p("C11","Strings and string slices behave like the standard ones",
 "For every text and sequence of string operations (append, concatenate, format, truncate-like conversions, conversion to and from standard, boxed, shared and vector forms, comparison, ordering, hashing, display), stabby strings, owned, boxed, shared or borrowed, hold exactly the same text as the standard string put through the same operations, and stay valid UTF-8. Conversion from bytes succeeds exactly when the bytes are valid UTF-8, and otherwise reports the same error as the standard conversion.",
 ["histories","inputs"],"All Unicode texts and byte strings, all operation sequences.",
 "Only one literal string is built in the tests.",
 ["stabby-abi/src/alloc/string.rs","stabby-abi/src/str.rs"],
 [("UTF-8 wrapper over byte containers","stabby-abi/src/alloc/string.rs")],
 ["as_str of every form"])
p("C12","Boxes, boxed slices and shared slices convert and mutate without loss",
 "For every element type, content, spare capacity and allocator, and every chain of conversions among vector, boxed slice, shared slice, single boxed or shared value and their standard counterparts, and of in-place operations on them, the elements, their order and their count are preserved. Each element is dropped exactly once, each allocation is released exactly once, and an empty container with or without spare capacity is as safe to use as a full one.",
 ["histories","inputs"],"All chains of conversions and operations, including empty, spare-capacity and zero-sized cases.",
 "No test converts between containers.",
 ["stabby-abi/src/alloc/boxed.rs","stabby-abi/src/alloc/sync.rs","stabby-abi/src/alloc/vec.rs"],
 [("capacity and counts kept in the allocation's hidden prefix","stabby-abi/src/alloc/mod.rs AllocPrefix")],
 ["contents, drop counts, allocator log"])
p("C13","Shared pointers count references exactly",
 "In every single-threaded sequence of creating, cloning, downgrading, upgrading, exposing to and rebuilding from raw form, mutating-if-unique, copying-on-write and dropping shared and weak pointers (to values, slices, strings and trait objects), the reported strong and weak counts equal the numbers of live handles. The value is dropped exactly when the last strong handle goes, the memory is released exactly when the last handle of any kind goes, upgrading succeeds exactly while a strong handle lives, and mutable access is granted exactly when the handle is the only one.",
 ["histories"],"All sequences over many handles to many values.",
 "Tests create one shared pointer and drop it.",
 ["stabby-abi/src/alloc/sync.rs","stabby-abi/src/fatptr.rs"],
 [("strong/weak counters in the allocation prefix","stabby-abi/src/alloc/sync.rs")],
 ["strong_count/weak_count, get_mut, upgrade, drops"])
p("C14","Shared pointers are safe under every thread schedule",
 "Under every interleaving of threads that clone, drop, downgrade, upgrade, test for uniqueness and mutate-if-unique handles to the same value, the value is dropped once and only after every access to it has happened-before, its memory is released once and only after that, and no upgrade yields a handle to a dropped value. Exclusive access is never granted while another thread can reach the value.",
 ["schedules"],"All interleavings of a few threads performing a few operations each, under the declared memory orderings.",
 "All tests of shared pointers are single-threaded.",
 ["stabby-abi/src/alloc/sync.rs"],
 [("atomic counters and their orderings","stabby-abi/src/alloc/sync.rs Arc/Weak/ArcSlice/WeakSlice")],
 ["payload drops/accesses, allocator log"])
p("C15","Single-or-many containers behave like a vector",
 "For every element type, allocator and sequence of operations, a container that stores one element inline and several on the heap has the same contents, length, iteration order and returned values as a vector put through the same operations, across every transition between its empty, inline and heap states. Each element is dropped exactly once, also when growing fails.",
 ["histories","inputs","fault_sequences"],"All operation sequences around the 0/1/2-element transitions, with allocation failures.",
 "One test pushes and iterates integers.",
 ["stabby-abi/src/alloc/single_or_vec.rs"],
 [("result-typed inline/heap state","stabby-abi/src/alloc/single_or_vec.rs")],
 ["contents, len, drops"])
p("C16","Persistent ordered maps and sets match an ordered-map model",
 "For every sequence of insertions and lookups with any key order and any branching parameters, the persistent map and set return what an ordered-map model returns (previous values, membership, lookup, length, ascending iteration). Clones are independent snapshots: changing one is never visible through another, and every key and value is dropped exactly once after the last snapshot sharing it is gone.",
 ["histories","inputs"],"All insertion orders, key sets and clone/insert histories, for all parameterisations.",
 "The tests insert random integers into one map and check membership; no clones, no replaced values, no drop accounting.",
 ["stabby-abi/src/alloc/collections/arc_btree.rs"],
 [("copy-on-write shared B-tree nodes","stabby-abi/src/alloc/collections/arc_btree.rs")],
 ["insert/get/iter results, drops"])
p("C17","Lock-free shared cells and sets are linearizable and leak-free",
 "Under every interleaving, concurrent loads, stores, swaps, compare-exchanges and edits on the atomic shared-pointer cell and the atomic persistent set behave as if executed one at a time: no update is lost, every read returns a value that was current, and repeated registration of equal items converges on one canonical item. Every value ever stored is dropped exactly once, when no handle to it remains.",
 ["schedules","histories"],"All sequential histories, and all interleavings of a few threads with a few operations each.",
 "No test uses either structure directly, nor from several threads.",
 ["stabby-abi/src/alloc/sync.rs","stabby-abi/src/alloc/collections/arc_btree.rs","stabby-abi/src/vtable/mod.rs"],
 [("compare-exchange loop over a shared root","stabby-abi/src/alloc/collections/arc_btree.rs AtomicArcBTreeSet"),("AtomicArc","stabby-abi/src/alloc/sync.rs")],
 ["returned values and drops"])
p("C18","Allocation failures leave every container usable and unchanged",
 "Whatever allocation or reallocation fails, every fallible operation of every container and handle reports the failure, hands back the values it was given, and leaves the container with its previous contents. Nothing is leaked, dropped twice or freed twice, and the same operation succeeds once memory is available.",
 ["fault_sequences","histories"],"All operation sequences with failures injected at any subset of allocator calls.",
 "No test ever makes an allocation fail.",
 ["stabby-abi/src/alloc/vec.rs","stabby-abi/src/alloc/boxed.rs","stabby-abi/src/alloc/sync.rs","stabby-abi/src/alloc/single_or_vec.rs","stabby-abi/src/alloc/string.rs","stabby-abi/src/alloc/mod.rs"],
 [("try_* constructors and operations","stabby-abi/src/alloc/")],
 ["returned errors, contents, allocator log"])
p("C19","Trait objects dispatch to the right implementation and own their value",
 "For every set of stable traits combined into a trait object, every order of combination, every supported pointer (box, shared, references) and every concrete type, calling any method through the object gives the same result and effects as calling it on the concrete value, whatever the traits' method counts, names, generics, associated types and default methods. The value is dropped exactly once through the object, cloning a shared object shares the value, and borrowing an object reaches the same value.",
 ["programs","histories","inputs"],"All trait definitions and combinations, all pointer types, all call sequences.",
 "Tests build three objects and call one method of each.",
 ["stabby-abi/src/fatptr.rs","stabby-abi/src/vtable/mod.rs","stabby-macros/src/traits.rs","stabby-macros/src/lib.rs"],
 [("vtable generation","stabby-macros/src/traits.rs"),("linked-list vtables and trait lookup by position","stabby-abi/src/vtable/mod.rs")],
 ["method results, drop counts"])
p("C20","Downcasts and upcasts of trait objects succeed exactly when they should",
 "Recovering the concrete type from a trait object succeeds exactly when the requested type is the one it was built from, and then yields that very value; otherwise the object is unaffected. Discarding traits from an object keeps the remaining ones, and the value, intact; two vtables compare equal when they hold the same functions, wherever they were created or stored, and differ otherwise, also when created concurrently by many threads.",
 ["programs","histories","schedules"],"All concrete and requested type pairs, all trait lists and prefixes, all threads racing on first use.",
 "Tests check one matching and one mismatching pair.",
 ["stabby-abi/src/fatptr.rs","stabby-abi/src/vtable/mod.rs","stabby-abi/src/report.rs"],
 [("report/ID comparison","stabby-abi/src/fatptr.rs stable_downcast"),("global vtable registry","stabby-abi/src/vtable/mod.rs")],
 ["downcast results, pointer identity of vtables"])
p("C21","Thread-safety markers of stable types are never too permissive",
 "A stable type (trait object of any trait and marker combination, over any pointer; container; shared pointer; option, result; slice; reference) can be sent to or shared with another thread only if the equivalent standard Rust type could. A trait object that requires a marker can only be built from values having it.",
 ["programs"],"All combinations of pointer, trait list, marker list, lifetimes and payload type.",
 "The tests only assert the positive case for one object; wrong acceptance cannot be seen by a test that compiles.",
 ["stabby-abi/src/fatptr.rs","stabby-abi/src/vtable/mod.rs","stabby-abi/src/alloc/sync.rs","stabby-abi/src/alloc/boxed.rs","stabby-abi/src/alloc/vec.rs","stabby-abi/src/slice.rs","stabby-macros/src/tyops.rs"],
 [("HasSendVt/HasSyncVt markers","stabby-abi/src/vtable/mod.rs"),("unsafe impl Send/Sync","stabby-abi/src/fatptr.rs, alloc/sync.rs")],
 ["rustc accepts/rejects generated programs"])
p("C22","Stable futures and wakers behave like native ones",
 "For every future and every schedule of polls, wake-ups, waker clones, drops and will-wake tests, a future driven through a stable trait object is pending and ready at the same polls with the same output as the native one, and each wake-up of any waker derived from the one it was given reaches the executor's original waker exactly once. Waker reference counts stay balanced, futures (including never-completed ones) and outputs are dropped exactly once.",
 ["histories","schedules"],"All poll/wake/clone/drop sequences, by value and by reference.",
 "One async test runs one task to completion.",
 ["stabby-abi/src/future.rs","stabby-abi/src/vtable/mod.rs"],
 [("StableWaker round trip","stabby-abi/src/future.rs stable_waker"),("MaybeResolved","stabby-abi/src/future.rs")],
 ["poll results, wake counts, waker drop counts"])
p("C23","Stable closures and iterators behave like native ones",
 "For every closure arity, argument values and call sequence, calling through a stable trait object gives the same results, effects and drops as calling the closure natively, for all three kinds of callable. A native iterator driven through a stable trait object, and a stable one driven natively, yield the same items in the same order with the same end.",
 ["histories","inputs"],"All arities, argument types, captured states and call sequences.",
 "Only documentation snippets exercise them.",
 ["stabby-abi/src/closure.rs","stabby-abi/src/iter.rs","stabby-macros/src/gen_closures.rs"],
 [("generated CallN traits","stabby-macros/src/gen_closures.rs")],
 ["results and call counts"])
p("C24","Borrowed views compare, hash, index and convert like standard slices",
 "For every content and every pair of views, stable shared and mutable slices and string slices compare, order (where defined), hash, index, iterate and display exactly like the standard slices they were made from. They convert back to the same pointer and length, and writes through a mutable view land at the same places.",
 ["inputs","histories"],"All contents, lengths, element types and mutation sequences.",
 "No test compares or hashes them.",
 ["stabby-abi/src/slice.rs","stabby-abi/src/str.rs"],
 [("pointer/length pairs","stabby-abi/src/slice.rs")],
 ["Eq/Ord/Hash/Debug/Deref"])
p("C25","Temporary views in another representation always write back",
 "Accessing a standard container as its stable counterpart, or the reverse, exposes the same content; whatever is done through the mutable view is in the original once the view ends, also when the user's code panics while holding it. Shared views leave the original and its storage alone. Nothing is dropped twice or leaked.",
 ["histories","fault_sequences"],"All contents and mutation sequences under every nesting of views, with panics at any point.",
 "No test uses mutable access.",
 ["stabby-abi/src/as_mut.rs"],
 [("guard types restoring the original on drop","stabby-abi/src/as_mut.rs")],
 ["original value after the guard is dropped"])
p("C26","Stable time types convert and compute like the standard ones",
 "Stable durations, instants and system times (the latter two from their epoch on) convert from the standard types and back without changing the value, and their constructors, accessors, arithmetic and comparisons agree with the standard ones on every value for which the standard ones are defined. The atomic duration and instant return what was stored, to their documented precision and range, through every load, store, swap and update, racing ones included.",
 ["inputs","histories"],"All representable durations and time points.",
 "No test covers the time module.",
 ["stabby/src/time.rs"],
 [("second/nanosecond pairs","stabby/src/time.rs")],
 ["converted values"])
p("C27","Serialised stable types are interchangeable with the standard ones",
 "With serialisation enabled, every stable value serialises to the same data as its standard counterpart, and deserialising data produced from either gives back an equal stable value. Data that the standard counterpart rejects is rejected, without a crash.",
 ["inputs"],"All values of all serialisable stable types, and arbitrary input data.",
 "No test enables the feature's behaviour.",
 ["stabby-abi/src/alloc/vec.rs","stabby-abi/src/alloc/string.rs","stabby-abi/src/alloc/boxed.rs","stabby-abi/src/alloc/sync.rs","stabby-abi/src/slice.rs","stabby-abi/src/str.rs","stabby-abi/src/option.rs","stabby-abi/src/result.rs","stabby-abi/src/num.rs"],
 [("serde_impl modules","stabby-abi/src/**")],
 ["token streams and deserialised values"])
p("C28","Checked imports hand out a function only when signatures agree",
 "A function exported with reflection and imported or loaded elsewhere is callable exactly when both sides declare the same signature, and then calling it reaches the exported function; otherwise every access is refused, every time and from every thread, and the mismatch is described. Canary-checked symbols are found exactly when every canary of the importing side exists on the exporting side.",
 ["programs","histories","schedules"],"All pairs of exported and imported signatures, all access sequences and racing first accesses.",
 "The examples import one function with the right signature; no mismatch is ever tried.",
 ["stabby-abi/src/checked_import.rs","stabby/src/libloading.rs","stabby-macros/src/functions.rs"],
 [("signature report comparison in the exporting library","stabby-macros/src/functions.rs export_with_report"),("CheckedImport state machine","stabby-abi/src/checked_import.rs")],
 ["get_stabbied/get_canaried/CheckedImport deref and as_ref"])
p("C29","Types published as free of indirections really are",
 "A type is accepted as plain-old-data (shareable across address spaces) only if none of its values can contain a pointer, reference, function pointer or owning handle, through any nesting of structs, unions, enums, options, results and arrays. Compositions made only of plain data are accepted.",
 ["programs"],"All compositions of stable types.",
 "No test uses the marker.",
 ["stabby-abi/src/lib.rs","stabby-abi/src/istable.rs","stabby-abi/src/stable_impls/mod.rs","stabby-abi/src/result.rs","stabby-macros/src/enums.rs"],
 [("ContainsIndirections propagation","stabby-abi/src/istable.rs")],
 ["IPod bounds"])
p("C30","Panics of user code never cause double drops or broken containers",
 "When user code (a clone, a drop, a closure, an iterator, a comparison) panics inside a container or sum-type operation and the panic is caught, every element has been dropped at most once, the container can still be used and dropped safely, other values sharing its contents are unchanged, and no released memory is accessed.",
 ["fault_sequences","histories"],"All operations taking user code, with the panic at every possible call.",
 "No test panics inside a container operation.",
 ["stabby-abi/src/alloc/vec.rs","stabby-abi/src/alloc/boxed.rs","stabby-abi/src/alloc/sync.rs","stabby-abi/src/alloc/collections/arc_btree.rs","stabby-abi/src/alloc/single_or_vec.rs","stabby-abi/src/result.rs","stabby-abi/src/as_mut.rs"],
 [("ordering of length updates and user calls","stabby-abi/src/alloc/vec.rs")],
 ["drop registry after catch_unwind"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), [len(d["title"]) for d in P if len(d["title"])>80])
