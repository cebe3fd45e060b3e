SEARCH = "property-based testing: "
TRUST = " Trusts rustc, the standard library used as reference model, and the harness's own generators and accounting."
CLAIMS = {
 "C10": (SEARCH + "model-based random operation sequences against std Vec, with checking allocators and tracked elements",
         "Random search: every explored sequence agrees with std::vec::Vec step by step; drops, blocks and red zones fully accounted for." + TRUST),
}
NA = {}
HOOKS = {"source_commits": []}
NOTES = "All checks share the engine in h/src/engine.rs: fixed case counts per tier, every random choice derived from VERIF_SEED, failing cases shrunk to a replay file in replays/."
CLAIMS["C12"] = (SEARCH + "random conversion chains and in-place edits on boxes, boxed slices and shared slices against a std Vec model, with checking allocators",
    "Random search: contents, order, counts, drops and blocks agree after every explored chain." + TRUST)
CLAIMS["C13"] = (SEARCH + "model-based random histories of strong/weak/raw/trait-object handles with a count model and tracked values",
    "Random search over single-threaded histories: reported counts equal live handles, value and block released exactly on time." + TRUST)
TYPES = "random generation of type programs (stabby structs, unions, enums, tuples, arrays, results, options over ~100 leaf types), compiled against the tree; "
CLAIMS["C01"] = (SEARCH + TYPES + "published size and alignment compared with rustc's, over random values",
    "Random search over generated types: published size and alignment equal rustc's, values intact." + TRUST)
CLAIMS["C02"] = (SEARCH + TYPES + "random values checked against every published forbidden value while the published spare bits are overwritten",
    "Random search over generated types and values." + TRUST)
CLAIMS["C03"] = (SEARCH + TYPES + "differential check of sizes, offsets, spare bits, forbidden values and discriminant placement against an independent layout model",
    "Random search over generated types: every published fact equals that of an independent model of the documented rules." + TRUST)
CLAIMS["C04"] = (SEARCH + TYPES + "random operation sequences on stabby Result/Option against core's, with tracked payloads",
    "Random search over payload types and operation sequences: agrees with core::result::Result and core::option::Option." + TRUST)
CLAIMS["C05"] = (SEARCH + TYPES + "random enums built, matched, edited and consumed through every accessor against a variant/payload model",
    "Random search over generated enums and histories of accesses." + TRUST)
CLAIMS["C29"] = (SEARCH + TYPES + "ContainsIndirections and IPod membership compared with a structural model",
    "Random search over generated types." + TRUST)
CLAIMS["C06"] = (SEARCH + TYPES + "random report trees and single edits of them, and families of near-identical generated definitions, compared pairwise with structural equality",
    "Random search over report structures and generated definitions: compatibility, equality, hashes and identifiers coincide with structural equality; published contents match the definitions." + TRUST)
CLAIMS["C07"] = (SEARCH + "values of every restricted integer type (whole blocks for 8 and 16 bits, edge-biased beyond) compared with the underlying integer in every operation",
    "Random search over values; all values of 8 and 16-bit types are covered many times over." + TRUST)
CLAIMS["C08"] = (SEARCH + "random generation of programs computing in the type system (operand pairs up to 2^127, nested tyeval! expressions, bit masks, forbidden-value sets), compiled against the tree and compared with integer and set arithmetic",
    "Random search over operands and expressions." + TRUST)
CLAIMS["C09"] = (SEARCH + "random histories of allocate/resize/free with injected refusals on the provided allocators (over instrumented global and libc allocators), on the default reallocation, and on raw prefix handles; layouts compared with std's",
    "Random search: alignment, disjointness, contents, prefix fields and allocator balance hold after every explored call." + TRUST)
CLAIMS["C11"] = (SEARCH + "random texts and operation sequences over owned, boxed, shared, borrowed and byte forms against std String, random near-valid byte strings",
    "Random search: every form holds the model's text after every explored operation, stays valid UTF-8, and accepts exactly valid bytes." + TRUST)
CLAIMS["C15"] = (SEARCH + "model-based random operation sequences around the empty/inline/heap transitions against std Vec, with checking allocators, tracked elements and injected allocation failures",
    "Random search: every explored sequence agrees with std::vec::Vec step by step; drops and blocks accounted for." + TRUST)
CLAIMS["C16"] = (SEARCH + "model-based random histories over several versions of persistent sets and maps against std BTreeMap, with checking allocators, tracked elements and clone accounting",
    "Random search: every version agrees with its own ordered-map model after every explored history; nodes, elements and clones accounted for." + TRUST)
CLAIMS["C21"] = (SEARCH + "random generation of programs pairing stable types (trait objects over random trait and marker lists, containers, pointers, unions, results, imports) with their standard equivalents over payloads and allocators of every Send/Sync combination; the compiler's acceptance is compared pairwise",
    "Random search over generated types: a stable type is accepted as Send or Sync only where the standard equivalent is; construction of marked objects accepted only for values having the markers." + TRUST)
CLAIMS["C22"] = (SEARCH + "model-based random schedules of polls, wakes, waker clones/drops/moves across threads over scripted futures, run natively and through 15 kinds of stable trait object by a counting executor, and MaybeResolved against a state model",
    "Random search over schedules: polls, outputs, wake-ups per original waker, waker counts and drops agree with the native run after every step." + TRUST)
CLAIMS["C19"] = (SEARCH + "random generation of programs defining stable traits (generics, associated types, lifetimes, default methods, calling conventions) and implementations, compiled against the tree; random histories of calls, clones, reductions to fewer traits and drops through objects behind four pointer kinds, against a native twin value",
    "Random search over generated traits, types, trait lists and histories: results, side effects, drops and blocks equal those of calling the concrete type." + TRUST)
CLAIMS["C20"] = (SEARCH + "random generation of programs with look-alike types behind generated trait lists; random histories of downcasts by report and by vtable, reductions to fewer traits, vtable comparisons, and racing first uses of vtables",
    "Random search: a downcast succeeds exactly for the concrete type and yields the original address; vtable equality coincides with identity of type and list." + TRUST)
CLAIMS["C14"] = (SEARCH + "random multi-threaded histories of strong and weak handles over the real code, each executed by Miri under a random schedule with a random preemption rate and weak-memory behaviours; oracle: Miri's data-race and dangling-access detection, drop and block accounting, and count invariants",
    "Random search over histories and schedules (one schedule per history): no data race, no use of a released value, released exactly once, uniqueness claims hold." + TRUST + " Also trusts Miri's model of threads and memory.")
CLAIMS["C17"] = (SEARCH + "random multi-threaded histories of cells, sets and table registries over the real code, each executed by Miri under a random schedule; oracle: a search for a sequential order of a reference model that explains every result, Miri's race and dangling-access detection, and drop accounting",
    "Random search over histories and schedules (one schedule per history): linearizable, leak-free." + TRUST + " Also trusts Miri's model of threads and memory.")
CLAIMS["C18"] = (SEARCH + "random operation sequences on every container and handle with a random subset of allocator calls refused (checking allocators, tracked elements, tracked allocator handles), compared with models and retried",
    "Random search over histories and refusals: failures are reported, inputs handed back, contents unchanged, nothing leaked or released twice, retries succeed." + TRUST)
CLAIMS["C25"] = (SEARCH + "random histories of shared and mutable views (AccessAs) between 41 pairs of types, nested in alternating representations, with edits and injected panics, compared with a model value after every step; drops, allocator handles and blocks accounted for",
    "Random search: views expose the model's content and write back; four listed findings concern shared views whose conversion moves to other storage, and forgotten views." + TRUST)
CLAIMS["C26"] = (SEARCH + "pairs of edge-biased durations and points in time compared operation by operation with the standard types, clocks bracketed by the standard ones, store/load/swap histories on the atomics against a model, and racing swaps",
    "Random search: agreement with std on all generated values; as_secs_f64 within 2 units in the last place." + TRUST)
CLAIMS["C24"] = (SEARCH + "two generated contents viewed over random sub-ranges by a stable borrow and the standard one, every read, comparison, hash (call by call), format and conversion compared; random writes through the mutable views compared with the same writes made natively",
    "Random search: views agree with the standard borrows." + TRUST)
CLAIMS["C23"] = (SEARCH + "random call sequences on closures of 49 signatures (arities 0-9, random argument, result and state types), and random drives of scripted iterators, differential between native and every stable form of call",
    "Random search: same results, effects, drops and blocks through stable trait objects as natively." + TRUST)
CLAIMS["C27"] = (SEARCH + "random values serialised as JSON, CBOR and through a recording serializer next to their standard counterparts, and random, mistyped and corrupted data deserialised as both",
    "Random search over values and data: same bytes and same calls as the standard types' serialisation, same acceptance and values in deserialisation." + TRUST)
CLAIMS["C28"] = (SEARCH + "generated pairs of libraries and programs over two versions of shared types, loading and importing functions through equal and edited signatures; canary symbols present in any subset; histories of import cells; racing accesses run by Miri under random schedules",
    "Random search over generated signatures, edits, access histories and schedules: functions are handed out exactly when the signatures are the same, and reach the exported function." + TRUST)
CLAIMS["C30"] = (SEARCH + "histories of operations on containers, shared pointers, persistent sets, sum types and views in which a random user call (clone, drop, comparison, closure, iterator, initialiser, conversion) panics, over counted elements and a checking allocator",
    "Random search over histories and panic points: no element dropped twice or used after its drop, nothing written after its release, containers usable afterwards. Panics crossing the extern \"C\" functions of v-tables abort by definition and are out of scope; leaks are allowed." + TRUST)
