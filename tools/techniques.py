_h = lambda what: (HIST, "model_checking", "Every history within the stated bounds is executed on the real crate (two build profiles) and compared with a reference model: " + what + ". Trusts the harness, rustc and the bounds; longer histories and other component layouts are not covered.")
TECH["P01"] = _h("live-entity enumeration, handle distinctness, success of destroy/remove")
TECH["P02"] = _h("every stale, forged and invalid handle tried with every operation in every reached state")
TECH["P03"] = _h("every lookup and matching iteration compared with the last value given, including a column of more than 4 GiB")
TECH["P04"] = _h("presence queries, lookups, add/remove outcomes over all component subsets reached")
TECH["P05"] = _h("every (entity set, requested group) pair in every reached state")
TECH["P06"] = _h("ledger of every value's destructor/hand-back through to the drop of the registry")
TECH["P07"] = _h("rows of the four matching iterations for every group and state")
TECH["P08"] = _h("rows of the four exact iterations for every group and state")
TECH["P09"] = _h("rows of the four filtered iterations for families of predicates; descriptors shown to predicates checked")
TECH["P10"] = _h("all operations through every pair of registered orderings of every component set, and histories mixing all orderings")
TECH["P11"] = _h("in every reached state every operation that must fail is performed; ordered snapshots before/after and a fixed follow-up against a twin registry that never saw them are compared")
TECH["P26"] = _h("malformed groups of 2 to 14 elements in every operation in every reached state; every well-formed group accepted")
TECH["P27"] = _h("all interleavings of two short histories on two registries against each alone; an operation of another registry run at every machine instruction of an operation, and inside predicates and destructors; every reached state rebuilt on a second registry and compared in order")

ENUM = "model checking: exhaustive enumeration of a finite domain on the real code, each element compared with an independently computed reference value"
def _e(what):
    return (ENUM, "model_checking", what)
TECH["P16"] = _e("Every 24-bit index with every 8-bit version (2^32 handles) and every slot-record field value is built, read back and modified on the real types, in two build profiles. Slot records: each field over its whole range with patterns in the others.")
TECH["P17"] = _e("Every byte string up to length 2 (3 thorough), every byte value at every position of strings up to 33 bytes, patterns of every length up to 4200, every limit, compared with an independent FNV-1a. Longer strings with arbitrary content are not enumerated.")
TECH["P21"] = _e("Every set of 1..14 of 16 identifiers and every component added to/removed from it, every pair of subsets of 10 (12 thorough), every pair of sets with equal identifiers found by search, every building and dismantling order of up to 6 components, every permutation of up to 7 (8 thorough) compared with bit-set algebra.")
BFS = "model checking: explicit-state exploration of the real code of one component, every operation from every reached state compared with a reference model"
def _b(what):
    return (BFS, "model_checking", what)
TECH["P12"] = _b("Breadth-first exploration of the archetype store over universes of descriptors (including colliding and reserved identifiers), all sequences to depth 3-4 without merging of states, every creation order of chosen sets, and up to 16,383 sets in one store, against a set-indexed model; histories of whole registries over colliding sets are compared with the same histories without collisions. Universes are finite selections of the 2^16 component identifiers.")
TECH["P22"] = _b("Breadth-first exploration of archetypes of many layouts and initial capacities, through every growth boundary, and with columns around 2 and 4 GiB, against a list-of-rows model, with the checking allocator on.")
TECH["P23"] = _b("Breadth-first exploration of the entity table from 12 initial states, and tables filled to 16,777,215 entities, against a slot-list model; all sequences to a smaller depth without merging of states.")
TECH["P18"] = _b("Every explored history of archetypes and registries over component layouts of size 0..65,535 and alignment 1..32,768 runs on a checking allocator (layout contract, guard bytes, poison, leak count), and every reference handed out is checked for alignment, bounds of live blocks and null. Out-of-bounds reads that leave no trace are seen by the thorough run only (Miri).")
TECH["P15"] = (HIST, "model_checking", "Every set of up to 14 of 15 component kinds is built by single additions in several orders and every kind toggled in it; all counts up and down in 28 x 28 orders; every registered tuple type of 1..14 components as a start; histories around 12, 13 and 14 components; all compared with a reference model.")
TECH["P13"] = (HIST, "model_checking", "Registries are filled to chosen counts up to the entity limit through several paths; from each such state every short operation sequence is executed in a forked copy and compared with the model; growth boundaries of one archetype up to 2^24 rows. The fill paths and the depth are bounds.")
TECH["P14"] = (HIST, "model_checking", "A registry is walked through 65,534 component sets in several orders; from the states at and just below the limit every operation sequence up to the stated depth is executed in a forked copy and compared with the model; the store alone is filled in four ways. Other fill orders are not covered.")
FAULT = "model checking: exhaustive fault injection on the real code - every fault point of every explored history is raised and the continuation compared with a reference model"
TECH["P19"] = (FAULT, "fault_enumeration", "In every state reached within the history bounds, the destructor of every component of every entity panics in turn (singly and in pairs), every destructor call of the registry's drop, and every predicate call of the filtered iterations; every operation is tried afterwards. Longer histories and more than two faults are not covered.")
TECH["P20"] = (FAULT, "fault_enumeration", "In every state reached within the history bounds, every allocation request for component storage of every create/add/remove fails in turn, singly and again on retry; every operation is tried afterwards. Storage requests are recognised by the address at which the components later lie.")
TECH["P24"] = ("model checking: controlled scheduler on the real code - a read is preempted at every machine instruction by every other read run to completion; write-free reads (memory write-protected) make all remaining interleavings equivalent", "model_checking", "In every state of bounded histories all reads on a shared reference run with the registry's memory and the program's static data write-protected: no write, no race, so every interleaving of any number of threads equals a sequential one. Interleavings are explored explicitly (one preemption at every instruction, every pair of reads) so that shared state outside the registry is decided too; every read also runs inside the predicates of reads. Histories and number of kinds are bounded; more than two threads only through the no-write argument.")
TECH["P25"] = ("model checking: exhaustive enumeration of type definitions within a grammar; each is given to the real derive macro and to the compiler, and the result is executed and compared with the hand-written implementation", "model_checking", "All combinations of item kind, field shapes, generics and where clauses; contexts, attributes, visibilities, names and editions are combined with subsets (thorough: with all). The oracle is the compiler's verdict on the hand-written implementation. One known finding (bounds on associated types, a limit of syn 1).")
TECH["P28"] = ("model checking: exhaustive enumeration of client programs up to a length over all public operations; the real compiler decides each against an independent borrow table", "model_checking", "All pairs of operations (thorough: triples, three editions) with the first or both results kept, in straight-line code, plus listed programs with threads, predicates, loops and component types. The oracle is a table of which operations share, exclusively borrow or consume and which results keep the borrow. Longer programs are not enumerated.")
