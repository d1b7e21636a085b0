#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements, anchors and quantifiers stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

REG = "src/registry/registry.rs"; ER = "src/entity_registry/mod.rs"; ENT = "src/entity_registry/entity.rs"
ENTRY = "src/entity_registry/entry.rs"; IDX = "src/entity_registry/index_in_archetype.rs"; EIT = "src/entity_registry/iterator.rs"
ARM = "src/archetype/mod.rs"; ARD = "src/archetype/data_access.rs"; AREG = "src/archetype_registry/mod.rs"
ITS = "src/archetype_registry/iterators/"
AD = "src/descriptors/archetype_descriptor.rs"; CG = "src/descriptors/component_group.rs"; CGD = "src/descriptors/component_group_descriptor.rs"
CD = "src/descriptors/component_descriptor.rs"; COMP = "src/descriptors/component.rs"; FNV = "src/fnv1a.rs"; CONST = "src/constants.rs"
S_ENT = ("EntityRegistry.entities / next_free_slot", "slot table with per-slot version and the intrusive free list", ER)
S_ARCH = ("Archetype.pointers / entity_associations / entity_count / capacity", "one column per component type plus the column of owning entities", ARM)
S_MAP = ("ArchetypeRegistry.sorted_mappings / archetypes", "per-arity sorted table from component-set id to archetype index", AREG)

p("P01", "The set of live entities is exactly what the history created and did not destroy",
  "After any history of operations, iterating the registry's entities yields every entity that was successfully created and not since destroyed or removed, each exactly once, and nothing else. A newly created entity's handle differs from every handle that is live at that moment and is never the reserved invalid handle. Destroying or removing a live entity succeeds and ends that entity only.",
  ["histories"], "every history of create/destroy/remove/add/remove-component operations",
  "the unit tests drive one fixed history plus one random one and never compare the enumerated entities with an independent account of what should be alive",
  [ER, EIT, REG, ENTRY],
  [("slot allocation from the free list or by growing the table", ER + ":EntityRegistry::create_entity"), ("slot release", ER + ":EntityRegistry::destroy_entity"), ("enumeration", EIT + ":EntityIter::next")],
  [S_ENT], ["Registry::iter_entities", "Registry::create_entity", "Registry::destroy_entity", "Registry::remove_entity"])
p("P02", "A handle whose entity is gone never reaches another entity",
  "Once an entity has been destroyed or removed, every operation given its old handle reports failure and changes nothing, until that handle's slot has been reused 256 times. The same holds for the invalid handle and for any handle value that the registry has not issued.",
  ["histories", "inputs"], "every history, every retired / never issued / invalid handle, every operation, through a full 256-step version cycle of a slot",
  "tests probe a handful of stale handles right after one destroy; wrap-around of versions, reuse of several interleaved slots and operations other than lookup are never tried",
  [ER, ENTRY, ENT, REG],
  [("version comparison on every access", ER + ":EntityRegistry::entity_entry / entity_entry_mut / destroy_entity"), ("version increment on destroy", ER + ":EntityRegistry::destroy_entity")],
  [S_ENT], ["every Registry operation taking an Entity"])
p("P03", "Component values stay with their entity until overwritten",
  "Reading a component of a live entity, by any lookup or iteration, yields exactly the value most recently given to that entity for that component: at creation, when the component was added, or by writing through a mutable reference. No operation on other entities, no growth of storage and no change to the entity's other components alters it.",
  ["histories", "inputs"], "every history of structural operations and writes, over component types of every size, alignment and tuple position",
  "tests use identical default values and one-word components for almost every entity, so misplaced, mixed-up or partially moved rows are invisible",
  [REG, ARD, CG, IDX],
  [("row swap on removal and the fix-up of the moved entity's row index", REG + ":destroy_entity / remove_entity / add_component / remove_component"), ("column-wise copy between archetypes", ARD + ":copy_common_components_between_archetypes_unchecked"), ("growth", ARD + ":resize_capacity")],
  [S_ENT, S_ARCH], ["Registry::get_component(s)(_mut)", "all iterators"])
p("P04", "An entity has exactly the components it was given, minus those removed",
  "For every live entity and component type, the presence queries and lookups succeed exactly if the component was in its creation group or added since, and has not been removed since. Adding an absent component (while fewer than 14 are present) and removing a present one (while more than one is present) succeed, and removal returns the value that was stored; adding a present component, or removing an absent or the only component, fails and returns the input to the caller.",
  ["histories", "inputs"], "every history, every subset of component types, every query (single and tuple)",
  "tests walk two or three add/remove transitions over three component types; most subsets, arities and orders of transition are never visited",
  [REG, AREG, AD],
  [("archetype transition by adding/removing one descriptor", AREG + ":find_or_create_archetype_adding_component / _removing_component"), ("set operations on descriptors", AD)],
  [S_MAP], ["Registry::has_component(s)", "Registry::get_component(s)(_mut)", "Registry::add_component", "Registry::remove_component"])
p("P05", "remove_entity succeeds only for an exact match of the component set",
  "Removing an entity as a component group returns its components, in the order the group asks for, and ends the entity if and only if the entity is live and its component set equals the group's as a set. In every other case the result is None and the entity, its components and the whole registry stay as they were.",
  ["histories", "inputs"], "every pair (component set of the entity, requested group), matching, subset, superset, overlapping or disjoint, after any history",
  "the only test calls it once, with a matching group",
  [REG, ARD, CG],
  [("swap-remove and typed read-out of a row", ARD + ":swap_remove_unchecked / read_components_exact_unchecked"), ("call site", REG + ":Registry::remove_entity")],
  [S_ARCH], ["Registry::remove_entity"])
p("P06", "Every component value is dropped or handed back exactly once",
  "Each component value given to a registry is, over the registry's lifetime, either returned to the caller exactly once or dropped exactly once: when its entity is destroyed, or when the registry itself is dropped. It is never dropped while its entity still owns it, never dropped twice and never leaked, including values moved between archetypes and values handed back by failed operations.",
  ["histories"], "every history followed by dropping the registry, including the empty registry",
  "drop-logging test components print to stdout but nothing counts or checks the drops, and they are not used by the registry tests",
  [ARD, ARM, CD, REG],
  [("type-erased drop handlers", CD + ":drop_handler_wrapper"), ("forgetting moved-in tuples", ARD + ":write_entity_unchecked"), ("length decrement instead of drop when a row moves", REG + ":add_component / remove_component"), ("Drop for Archetype", ARM)],
  [S_ARCH], ["component Drop implementations", "return values"])
p("P07", "Matching iteration visits every matching row exactly once, correctly aligned",
  "For any component group, each matching iteration (shared or mutable, with or without entities) yields slices that together contain exactly one row per live entity having all of the group's components, and no other row. Within one item all slices have the same length, position i of every slice belongs to the same entity (the i-th of the entity slice), and mutable slices of one iteration never overlap.",
  ["histories", "inputs"], "every history, every group type (each subset and tuple order), all four iterator kinds",
  "tests iterate two archetypes at most and check values of a single archetype; ordering of levels, emptied archetypes and subset positions are not covered",
  [ITS + "archetype_iter.rs", ITS + "archetype_iter_mut.rs", ITS + "matching_iter.rs", ITS + "matching_iter_mut.rs", ARD, AREG],
  [("walk over the per-arity tables with subset test", ITS + "archetype_iter.rs:ArchetypeIter::next"), ("subset column selection", ARD + ":get_fuzzy_pointers_unchecked")],
  [S_MAP, S_ARCH], ["Registry::iter_components_matching(_mut)", "Registry::iter_entity_components_matching(_mut)"])
p("P08", "Exact queries depend only on the component set, not on how it was reached",
  "The exact iterations for a group yield precisely one aligned row per live entity whose component set equals the group's, and empty slices if there is none. It makes no difference whether an entity was created with that set or reached it by adding and removing components, in any order.",
  ["histories", "inputs"], "every history reaching a component set along any path, every group, all four exact iterations",
  "no unit test calls the exact iterations at all",
  [REG, AREG, AD, CGD],
  [("component-set id computed for groups and for add/remove transitions", AD + ":compute_archetype_id"), ("exact lookup", AREG + ":find_archetype / find_archetype_mut")],
  [S_MAP], ["Registry::iter_components_exact(_mut)", "Registry::iter_entity_components_exact(_mut)"])
p("P09", "Filtered iteration is matching iteration restricted by the predicate",
  "For any group and any predicate over component sets, the filtered iterations yield exactly the rows of the corresponding matching iteration whose entity's component set satisfies the predicate. The predicate is only consulted with a descriptor that truthfully describes the component set of the rows it decides about.",
  ["histories", "inputs"], "every history, every group and every predicate on component sets (all boolean functions over the sets present), all four filtered iterators",
  "no unit test calls the filtered iterations",
  [ITS + "filter_archetype_iter.rs", ITS + "filter_archetype_iter_mut.rs", ITS + "filter_matching_iter.rs", ITS + "filter_matching_iter_mut.rs"],
  [("subset test combined with the closure", ITS + "filter_archetype_iter.rs:FilterArchetypeIter::next")],
  [S_MAP], ["Registry::iter_filtered_components_matching(_mut)", "Registry::iter_filtered_entity_components_matching(_mut)"])
p("P10", "The order of components in a group type never matters",
  "Any two group types that are permutations of each other denote the same component set: entities created, looked up, written, iterated, queried or removed through one ordering are indistinguishable through any other. Each value is always delivered at the tuple position of its own type.",
  ["inputs", "programs"], "all permutations of group types at every arity from 1 to 14 (all of them up to arity 4 at type level, all up to arity 8 at descriptor level, all rotations and transpositions at 14)",
  "tests use two or three hand-picked orders of three components with near-identical values",
  [CGD, CG, ARD],
  [("sorting and the unsorted/sorted index maps", CGD + ":compute_sorted_descriptors / compute_sort_mappings"), ("tuple accessors going through the map", CG + ":impl_component_tuple!")],
  None, ["all Registry operations generic over ComponentGroup", "ComponentGroupDescriptor"])
p("P11", "A failing operation changes nothing and gives the caller's values back",
  "Whenever a create, add, remove, destroy, lookup or query operation reports failure, all component values passed in are returned unmodified, and every later observation of the registry (entities, components, values, iteration contents) is the same as if the operation had not been called.",
  ["histories", "inputs"], "every failing call in every reachable state: dead handles, wrong sets, malformed groups, exhausted limits",
  "tests check that some failing calls return None or false but never that the registry is unaffected or that values come back",
  [REG, AREG, ER],
  [("validation before mutation in each operation", REG)],
  [S_ENT, S_MAP], ["all Registry operations returning Result/Option/bool"])
p("P12", "Different component sets never share storage, equal sets always do",
  "In an archetype store, looking up or creating the storage for a component set always yields storage for exactly that set, and the same storage (same index) every time, however many other sets exist, in whatever order they were created, and even when identifiers derived from the sets collide. Every non-empty set of at most 14 distinct component types is accepted; looking up a set that was never created yields nothing.",
  ["inputs", "histories"], "every family of component sets (including sets whose 32-bit ids collide or equal the reserved id), every creation order",
  "tests create one or two archetypes; the id is a 32-bit hash and collisions never occur among them",
  [AREG, AD, FNV],
  [("binary search by hashed id", AREG + ":find_archetype / find_or_create_archetype"), ("id computation", AD + ":compute_archetype_id")],
  [S_MAP], ["ArchetypeRegistry::find_archetype(_mut)", "ArchetypeRegistry::find_or_create_archetype", "Registry::create_entity", "Registry::add_component"])
p("P13", "Up to 16,777,215 entities can coexist, and the limit is handled gracefully",
  "A registry can hold any number of simultaneously live entities up to 16,777,215, in any distribution over component sets including all in one, with all other guarantees intact. At the limit creating an entity returns the components to the caller instead of panicking or corrupting anything, and as soon as an entity has been destroyed a new one can be created again.",
  ["histories", "configurations"], "entity counts across every storage growth boundary up to the maximum, and every short operation sequence around the limit",
  "the largest test has about a thousand entities; the limit and the growth steps near it are never reached",
  [ARD, ER, REG, CONST, IDX],
  [("doubling growth", ARD + ":resize_if_necessary / resize_capacity"), ("entity limit", ER + ":create_entity"), ("24-bit row index", IDX)],
  [S_ENT, S_ARCH], ["Registry::create_entity", "Registry::add_component", "Registry::destroy_entity"])
p("P14", "Up to 65,534 component sets can coexist, and the limit is handled gracefully",
  "A registry supports 65,534 different component sets, all of which remain correctly addressable. An operation that would need one more set fails and returns its inputs without changing anything, while operations that need only existing sets keep working.",
  ["histories", "configurations"], "the number of component sets from 1 to the limit, and every short operation sequence at the limit",
  "tests create at most four component sets",
  [AREG, CONST, ENTRY],
  [("limit check before creating an archetype", AREG + ":find_or_create_archetype"), ("16-bit archetype index in the entity slot", ENTRY)],
  [S_MAP], ["Registry::create_entity", "Registry::add_component", "Registry::remove_component"])
p("P15", "Every component count from 1 to 14 works, by any route",
  "Entities can be created with, grown to and shrunk from every component count between 1 and 14, by tuples of any arity and by adding or removing single components at any position of the set. At 14 components a further add fails and returns the component; nothing panics.",
  ["inputs", "histories"], "all arities 1..14, all insertion and removal positions",
  "tests never go beyond three components",
  [AD, CG, CGD, ARM, CONST],
  [("sorted insertion/removal in the descriptor", AD + ":add_component / remove_component"), ("tuple implementations", CG + ":impl_component_tuple!")],
  None, ["Registry::create_entity", "Registry::add_component", "Registry::remove_component", "ArchetypeDescriptor::add_component / remove_component"])
p("P16", "Handles and slot records store their fields losslessly and independently",
  "An entity handle built from any 24-bit index and 8-bit version reports exactly these, round-trips through its raw value, and setting one part leaves the other unchanged; distinct pairs give distinct handles and only the all-ones pair is invalid. A slot record likewise stores any version, 24-bit row index and 16-bit archetype index independently of each other, and a row index round-trips through its byte form.",
  ["inputs"], "all 2^32 handles and all values of each slot-record field",
  "tests check ten values per field and one handle",
  [ENT, ENTRY, IDX, "src/entity_registry/archetype_index.rs", CONST],
  [("bit packing", ENT + ":new_unchecked / index / version / set_index / set_version"), ("byte packing", ENTRY + " and " + IDX + ":to_bytes / from_bytes")],
  None, ["Entity", "EntityEntry", "IndexInArchetype", "ArchetypeIndex"])
p("P17", "Type identifiers are the FNV-1a hash of the component name",
  "The hash functions compute FNV-1a (64 bit, 32 bit, and 32 bit xor-folded to 16) of exactly the bytes selected: all of the slice, or the first `limit` bytes if the limit is between 1 and the slice length. A component type's default identifier is the folded hash of its name, so it depends on nothing but the name.",
  ["inputs"], "all byte strings up to a bounded length with every limit, and all names over an alphabet up to a bounded length",
  "there is no test of the hash functions",
  [FNV, COMP, "src/descriptors/component_type_id.rs"],
  [("hash loops", FNV), ("default associated constant", COMP + ":Component::ID")],
  None, ["fnv1a::*", "Component::ID", "ComponentGroup::DESCRIPTOR"])
p("P18", "All raw memory use respects the allocator contract and the bounds of its blocks",
  "For component types of any size (including zero) up to 65,535 bytes and any alignment up to 32,768, no history makes the library request a zero-sized block, release or resize a block with a layout other than the one it was obtained with, touch memory outside its blocks, or hand out a misaligned or null reference. When the registry is dropped all memory it obtained has been released.",
  ["histories", "inputs"], "every history over component types spanning zero-sized, odd-sized, large and over-aligned layouts; storage created empty, with default capacity and across growth",
  "tests use word-sized components only, count no allocations, and the system allocator tolerates contract violations silently",
  [ARM, ARD],
  [("allocation", ARM + ":Archetype::with_capacity"), ("growth and release", ARD + ":resize_capacity / dealloc"), ("offset arithmetic", ARD)],
  [S_ARCH], ["global allocator calls", "addresses of references and slices"])
p("P19", "A panicking destructor or predicate leaves the registry consistent",
  "If a component's destructor panics while its entity is destroyed, or while the registry is dropped, no component value is dropped twice and no memory is corrupted; after a panicking destroy the entity is gone, all other entities are intact and the registry stays fully usable. A panic in a filter predicate likewise leaves the registry unchanged.",
  ["fault_sequences", "histories"], "a panic injected at every destructor call and every predicate call of every bounded history",
  "no test panics inside user code called by the registry",
  [ARD, REG, ARM, CD],
  [("order of bookkeeping and destructor calls", ARD + ":swap_drop_unchecked and " + REG + ":destroy_entity")],
  [S_ENT, S_ARCH], ["Registry::destroy_entity", "Drop for Registry", "Registry::iter_filtered_*"])
p("P20", "A failed allocation panics without corrupting the registry",
  "If memory for component storage cannot be obtained during create_entity, add_component or remove_component, the call panics and unwinds; afterwards every previously existing entity still has its components and values, memory use stays sound, and no component value is dropped twice. When memory is available again the registry continues to work.",
  ["fault_sequences", "histories"], "a failure injected at every component-storage allocation of every bounded history, singly and repeated",
  "no test makes an allocation fail",
  [ARM, ARD, REG],
  [("null checks after alloc/realloc", ARM + ":with_capacity and " + ARD + ":resize_capacity"), ("order of registration and storage reservation", REG + ":create_entity")],
  [S_ARCH, S_ENT], ["Registry::create_entity", "Registry::add_component", "Registry::remove_component"])
p("P21", "Component-set descriptors obey set algebra",
  "For all component sets, adding, removing, membership, inclusion and exclusion on descriptors agree with the mathematical set operations; the components of a descriptor are listed once each in ascending identifier order with their own size, alignment and destructor. Equal sets have equal identifiers however they were built, and adding to a full set, adding a present or removing an absent or the only component yields nothing.",
  ["inputs"], "all sets over a universe of component ids up to size 14, all pairs of sets, all single-element transitions",
  "tests check six facts over three components",
  [AD, CGD, CD],
  [("sorted array with binary search", AD)],
  None, ["ArchetypeDescriptor", "ComponentGroupDescriptor"])
p("P22", "An archetype behaves as a list of rows with swap-removal",
  "An archetype used directly behaves as a list of (entity, components) rows: pushing appends and returns the new row's index, swapping exchanges two whole rows, swap-removal and swap-drop take out the given row, move the last row into its place and report whether a row moved, and reads and writes at an index affect that row and column only. The capacity always suffices for the rows, and growth preserves all rows, from any initial capacity including zero.",
  ["histories", "inputs"], "every bounded sequence of storage operations from every initial capacity in a range, over component types of various layouts",
  "one test swaps two rows of two word-sized components",
  [ARM, ARD],
  [("row operations", ARD), ("growth", ARD + ":resize_if_necessary")],
  [S_ARCH], ["Archetype's public methods"])
p("P23", "The entity table is a faithful slot allocator",
  "Used directly, the entity table returns for a live entity exactly the location last stored for it, accepts a destroy exactly once per creation, never returns a handle that is live, reuses released slots before growing, and enumerates exactly its live entities. A slot's version advances by one (modulo 256) with each release and by nothing else.",
  ["histories"], "every bounded sequence of create/destroy/relocate operations, and every interleaving of releases and reuses of several slots",
  "tests destroy all entities in one fixed order and never mix releases with reuses",
  [ER, ENTRY, EIT],
  [("intrusive free list", ER + ":create_entity / destroy_entity")],
  [S_ENT], ["EntityRegistry's public methods"])
p("P24", "Read access is safe to share between threads",
  "Operations that take a shared reference to a registry (lookups, presence queries, shared iteration) do not modify any memory of the registry in a way another thread could observe or race with, so any number of threads can run them concurrently on one registry and each gets the sequential result. Repeating a read without an intervening mutation gives the same answer.",
  ["schedules", "histories"], "all interleavings of shared-reference operations in every reachable state of the bounded exploration",
  "all tests are single-threaded although the storage is declared Send and Sync by hand",
  [ARM, REG, AREG, ER],
  [("absence of interior mutability behind unsafe impl Send/Sync", ARM)],
  [S_ARCH, S_MAP], ["all &self methods of Registry"])
p("P25", "The derive macro is equivalent to implementing the trait by hand",
  "For every kind of type definition the trait can be implemented for, deriving the component trait compiles whenever the hand-written implementation that only names the type would, and yields the same name, identifier and descriptor as that implementation.",
  ["programs"], "all combinations of item kind, field shape and generics within a bound",
  "the derive crate has no tests; one example only type-checks it",
  ["shard_ecs_derive/src/lib.rs", COMP],
  [("token generation with split generics", "shard_ecs_derive/src/lib.rs:derive_component")],
  None, ["#[derive(Component)]"])
p("P26", "Malformed groups are rejected everywhere, well-formed ones nowhere",
  "A group naming the same component type more than once is refused by every operation that takes a group: creation returns the components, removal and lookups return nothing, presence queries answer false, and iterations yield no rows, without panicking or touching memory. A group of 1 to 14 distinct component types is always accepted.",
  ["inputs", "programs"], "all tuples with repetitions up to arity 4 and selected positions at arity 14, every operation, in every reachable state",
  "one test checks that one duplicate pair has an invalid descriptor; no operation is called with it",
  [CGD, REG, ITS + "archetype_iter.rs", AREG],
  [("duplicate detection", CGD + ":validate_component_descriptors"), ("validity checks at the entry points", REG)],
  None, ["all Registry operations generic over ComponentGroup"])
p("P27", "Registries are independent of each other and behave deterministically",
  "Two registries never influence each other: interleaving operations on them gives each the results it would give alone. Running the same history on two fresh registries gives the same handles, results and iteration contents.",
  ["histories", "schedules"], "all interleavings of bounded histories on two registries",
  "no test uses two registries at once",
  [REG, AREG, ER, AD],
  [("all state owned by the Registry value", REG)],
  [S_ENT, S_MAP], ["all Registry operations"])

p("P28", "References into a registry cannot dangle or alias in safe programs",
  "No safe program can still use a reference, slice or iterator obtained from a registry after an operation that may move, change or destroy what it refers to, use it beyond the registry's life or a longer borrow, obtain two overlapping exclusive references or an exclusive and a shared one from separate operations, change a component or an entity list through a shared reference, or make a component of a type that other threads must not share or that is borrowed. Programs that only share, or that finish using a result before the next operation, are accepted.",
  ["programs"], "all programs of two and three operations on a registry (and its parts) with the results kept or not, plus programs with threads, predicates, closures, loops and component types",
  "a test cannot contain a program that does not compile, and the storage behind every signature is a raw pointer, so only the signatures stand between a client and memory errors",
  [REG, ARD, AREG, ER, COMP, "src/descriptors/component_group.rs"],
  [("lifetimes of the accessors and of the tuple types", REG + " and src/descriptors/component_group.rs"), ("bounds of the component trait", COMP)],
  None, ["signatures of all public operations of Registry, Archetype, ArchetypeRegistry, EntityRegistry"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
