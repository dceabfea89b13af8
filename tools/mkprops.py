#!/usr/bin/env python3
# writes /verif/properties.jsonl from this table (kept here so that the file is easy to edit)
import json
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Range geometry is exact set algebra on index points",
 "For all index ranges of a 1-, 2- or 3-dimensional space: the intersection of two non-empty ranges is reported as empty exactly when they share no index point and otherwise denotes exactly the shared points; expanding a range by another yields the smallest box containing both; the size is the number of index points. Emptiness, equality, and containment of a (non-empty) range in another range or in the space agree with the sets of index points.",
 ["inputs"], "every pair of ranges with arbitrary 64-bit-representable coordinates, every dimensionality 1..3",
 "The tests run a handful of stencil programs whose ranges have a few fixed shapes; wrong comparisons in a single dimension, empty or touching ranges are not reached.",
 ["src/space.c"], [("pure range operations", "src/space.c laik_range_intersect, laik_range_expand, laik_range_within_range, laik_range_within_space, laik_range_size, laik_range_isEmpty, laik_range_isEqual")])

prop("C02", "A finished partitioning lists exactly the indexes reported per task",
 "Whatever sequence of ranges or single indexes a partitioner reports, the finished partitioning contains for every task exactly the index points reported for it: sorted by task, tag and start, nothing lost, nothing invented, nothing moved to another task or tag, and (if merging was requested on a 1d space, or single indexes were reported) overlapping or adjacent pieces of the same task and tag joined and no others. The per-task range counts, the n-th range of a task, the number of mappings of a task and the n-th range of a mapping are all consistent with that list: ranges with tag 0 get a mapping each, ranges of a task with the same non-zero tag share one mapping, and single indexes of a task all go into one mapping.",
 ["inputs"], "every finite sequence of reported ranges / single indexes, every number of tasks, all tags",
 "Tests use a few partitioners with short lists; ordering, adjacency, duplicate and empty-task cases combine without bound.",
 ["src/rangelist.c", "src/partitioner.c"],
 [("append and freeze", "src/rangelist.c laik_rangelist_append, laik_rangelist_append_single1d, laik_rangelist_freeze"),
  ("sort, merge, offsets", "src/rangelist.c sortRanges, mergeSortedRanges, updateOffsets, updateOffsetsSI, laik_updateMapOffsets"),
  ("accessors", "src/rangelist.c laik_rangelist_tidrange, laik_rangelist_tidmaprange, laik_rangelist_tidmapcount, laik_rangelist_taskrange")],
 [("trange/count/off", "ranges, their number, per-task start offsets", "include/laik-internal.h struct _Laik_RangeList")])

prop("C03", "Coverage and shape predicates of partitionings are exact",
 "The full-coverage check of a partitioning answers yes exactly when every index point of the space is owned by at least one task. The checks 'every task owns the whole space', 'exactly one task owns the whole space (and which)' and 'both partitionings are equal' answer yes exactly when this is the case.",
 ["inputs"], "every list of ranges within a 1d/2d/3d space, every number of tasks",
 "The check only ever sees the complete partitionings of the shipped examples; a hole in the middle of a 2d/3d space is never produced by a test.",
 ["src/rangelist.c", "src/partitioning.c"],
 [("coverage check by subtraction", "src/rangelist.c laik_rangelist_coversSpace"), ("shape predicates", "src/rangelist.c laik_rangelist_isAll, laik_rangelist_isSingle, laik_rangelist_isEqual")])

prop("C04", "All, master, copy and halo partitioners produce their documented ranges",
 "The all-partitioner gives every task the whole space and the master-partitioner gives only the first task the whole space. The copy-partitioner gives each task, for each of its source ranges, the full space with the extent in the target dimension replaced by the source range's extent in the source dimension; the corner-halo partitioner gives each task its source ranges extended by the halo depth in all dimensions and clipped to the space; the halo partitioner gives each task its source ranges plus, per dimension and side, the adjoining slab of halo depth clipped to the space (no corners), all under the source range's tag.",
 ["inputs", "configurations"], "every space, group size, source partitioning and halo depth",
 "Tests use a few regular decompositions with depth 1 that stay away from the border cases (ranges closer to the border than the halo depth, several ranges per task).",
 ["src/partitioner.c"], [("partitioner callbacks", "src/partitioner.c runAllPartitioner, runMasterPartitioner, runCopyPartitioner, runCornerHaloPartitioner, runHaloPartitioner")])

prop("C05", "Block, bisection, grid and reassign partitioners never lose or share indexes",
 "For every space, number of tasks, cycle count and weight functions, the block, bisection and grid partitioners assign every index point of the space to exactly one task, each with ranges inside the space and task numbers inside the group. With unit weights and one cycle, block partitioning of at least as many indexes as tasks gives tasks consecutive ranges whose sizes differ by at most one. The reassign partitioner leaves every index of a surviving task with that task and gives every index of a removed task to exactly one surviving task.",
 ["inputs", "configurations"], "every space extent, group size, block/cycle count and every weight function with finite non-negative values",
 "Tests use a few sizes that divide well; rounding, more tasks than indexes, zero weights and several cycles are not reached.",
 ["src/partitioner.c"], [("partitioner callbacks", "src/partitioner.c runBlockPartitioner, doBisection, runBisectionPartitioner, runGridPartitioner, runReassignPartitioner")])

prop("C06", "Partial computation of a partitioning keeps all ranges a process needs",
 "When a process computes only its own ranges of a partitioning, it gets exactly the ranges which the full computation assigns to it. When ranges are restricted to those intersecting with the process's own ranges in given partitionings, every range overlapping one of the own ranges is kept and every range overlapping none is dropped.",
 ["inputs"], "every partitioning, every process, every list of own ranges",
 "Filtering only changes performance in the tests' output; a wrongly dropped range only shows for particular overlaps of unsorted/overlapping own ranges.",
 ["src/partitioning.c", "src/partitioner.c"], [("range filters", "src/partitioning.c tidfilter, idxfilter, laik_rangefilter_set_myfilter, laik_rangefilter_add_idxfilter"), ("filtered append", "src/partitioner.c laik_append_range, laik_append_index_1d")])

prop("C07", "Transitions contain exactly the needed operations and match across processes",
 "For any two partitionings of a space over the same group, data flow and reduction, the transition computed by a process covers, for each index the process owns in the target partitioning, the operations required: a local copy if it owned the index before, otherwise a receive from a process that did, or an initialisation if requested. In one dimension these are exactly one operation per index, unless a reduction is needed (several or no owners in the source, see C08); in two and three dimensions values may arrive from every previous owner. It never writes an index the process does not own in the target or reads one it did not own in the source. The send operations of every process and the receive operations of every other process match one to one, in the same order per pair of processes and with identical ranges.",
 ["inputs", "configurations"], "every pair of partitionings (any ranges, tags and group size), every process of the group, every data flow",
 "Tests check results of programs with at most four processes and regular partitionings; matching must hold for all pairs of processes and irregular, overlapping partitionings.",
 ["src/space.c"], [("transition calculation", "src/space.c do_calc_transition, laik_calc_transition, appendLocalTOp, appendInitTOp, appendSendTOp, appendRecvTOp, calcAddReductions")],
 [("local/init/send/recv/red lists", "operations of one process", "include/laik-internal.h struct _Laik_Transition")])

prop("C08", "Reductions combine all contributions and reach all owners",
 "For each index owned in the target partitioning of a reducing transition which has not exactly one previous owner (then the value is copied), there is exactly one reduction whose inputs are all processes owning the index in the source partitioning and whose outputs are all processes owning it in the target; reductions of processes agree in ranges, groups and order. Process groups used by reductions contain exactly the processes they were built from, without duplicates, in ascending order, and membership queries answer accordingly.",
 ["inputs", "configurations"], "every pair of partitionings and every group size",
 "Tests use reductions from or to all/master only; mixed groups only arise in irregular partitionings.",
 ["src/space.c"], [("task groups", "src/space.c getTaskGroupSingle, addTask, laik_trans_isInGroup, laik_trans_groupCount, laik_trans_taskInGroup"), ("reduction detection", "src/space.c calcAddReductions")])

prop("C09", "A layout maps each index of its mapping to its own place in memory",
 "For every lexicographical layout built for any list of non-empty ranges, each index of a map section has an offset inside the allocated elements, different indexes of a section have different offsets, different sections do not overlap in memory, and coordinates and offset convert into each other consistently. A layout is only declared reusable for another one if every range of a section of the other keeps its place inside the old section, and copying or migrating to it does not change the offsets of existing indexes.",
 ["inputs"], "every list of ranges in 1..3 dimensions, all map numbers, all chains of reuse",
 "Tests use a few dense layouts; offsets must be injective for all shapes.",
 ["src/layout_lex.c", "src/layout.c"], [("offset/section", "src/layout_lex.c offset_lex, section_lex, mapno_lex, reuse_lex, laik_new_layout_lex")])

prop("C10", "Packing, unpacking and copying transport each element to its place",
 "For all layouts and ranges inside the mappings involved, packing a range into a buffer in any number of steps and unpacking it elsewhere, or copying it directly, sets each element of the target mapping inside the range to the source element with the same index, and changes no other byte. Every index of the range is transferred exactly once and the reported counts add up to the size of the range.",
 ["inputs"], "every range, element size, pair of layouts and every split of the buffer",
 "Tests pack a few regular ranges with large buffers; resumption after each possible buffer size and index order per dimension needs all combinations.",
 ["src/layout_lex.c", "src/layout.c"], [("specialised for lexicographical layouts", "src/layout_lex.c pack_lex, unpack_lex, copy_lex"), ("generic", "src/layout.c laik_layout_pack_gen, laik_layout_unpack_gen, laik_layout_copy_gen")])

prop("C11", "Mappings cover the process's own indexes and convert indexes faithfully",
 "For each partitioning of a data container, the mappings of a process together cover exactly the index ranges it owns; local index, global index and memory address of an element convert into each other consistently; allocation spans at least the required range and addresses stay inside it. Reusing memory of a previous or reserved mapping keeps the values of all elements present in both.",
 ["inputs", "histories"], "every partitioning, data type, layout, and every sequence of switches and reservations",
 "Tests use simple mappings starting at the range border, where base and start addresses coincide.",
 ["src/data.c"], [("mapping preparation", "src/data.c prepareMaps, initMaps, laik_map_set_allocation, checkMapReuse"), ("index conversion", "src/data.c laik_local2global_1d, laik_global2local_1d, laik_global2maplocal_1d, laik_maplocal2global_1d, laik_get_map_addr")])

prop("C12", "Predefined types reduce and initialise elementwise as documented",
 "For every predefined numeric type, each reduction applied to arrays computes for every element exactly the sum, product, minimum, maximum, logical/bitwise combination selected (in the type's arithmetic) of the given inputs, where a missing input is left out and two missing inputs give the neutral element; initialisation sets every element to the neutral element of the reduction. Only the given number of elements of the output is written.",
 ["inputs"], "all element values, all counts, both/one/no input, all types and reductions",
 "Tests only use sum on double; other types, operations, neutral elements and missing inputs are never executed.",
 ["src/type.c"], [("per-type functions", "src/type.c laik_<type>_reduce, laik_<type>_init")])

prop("C13", "Optimising an action sequence never changes what it does",
 "Each transformation applied to a recorded communication sequence (flattening of packing, combining, splitting and replacing reductions, sorting by rounds or for deadlock avoidance, splitting transition executions) preserves the effect: the same data is sent to and received from the same processes, in an order per pair of processes that matches the peer's, and copies, packs, reductions and initialisations happen with the same operands and after everything they depend on.",
 ["inputs", "programs"], "every action sequence that can be recorded for transitions, any number of actions and rounds",
 "The sequences in tests come from a few transitions; the transformations must preserve meaning for all sequences.",
 ["src/action.c"], [("transformations", "src/action.c laik_aseq_flattenPacking, laik_aseq_combineActions, laik_aseq_splitReduce, laik_aseq_replaceWithAllReduce, laik_aseq_sort_rounds, laik_aseq_sort_2phases, laik_aseq_sort_rankdigits, laik_aseq_splitTransitionExecs")])

prop("C14", "Buffers of an action sequence are large enough and never shared",
 "After buffer allocation every buffer use of an action sequence refers to memory inside the allocated buffer, at an offset within the reservation it belongs to, and two reservations never overlap. Buffers are sized to hold all reservations of their allocation round.",
 ["inputs", "programs"], "every sequence of reservations and uses, any number and sizes",
 "Overlapping buffers only corrupt data for particular mixes of reservation sizes that the tests do not create.",
 ["src/action.c"], [("buffer allocation", "src/action.c laik_aseq_allocBuffer, laik_aseq_addBufReserve, laik_aseq_addReserve")])

prop("C15", "The key-value store returns the last value set for each key",
 "In the process that set it, a value read from a key-value store is byte for byte the value last set for exactly this key, with its length; unknown and removed keys yield nothing, other keys are not affected; sorting orders the entries by key, and the enumeration contains each live key exactly once (a removed key stays as an entry without value until the next synchronisation). This holds for every sequence of set, remove, read and cleanup operations, with any keys and values.",
 ["histories", "inputs"], "every finite sequence of operations with arbitrary keys and values",
 "One test program stores a few keys; table growth, removal with pending entries and keys with common prefixes are not combined.",
 ["src/kvs.c"], [("store operations", "src/kvs.c laik_kvs_set, laik_kvs_sets, laik_kvs_get, laik_kvs_remove, laik_kvs_sort, laik_kvs_clean, laik_kvs_entry, laik_kvs_count")])

prop("C16", "Key-value synchronisation gives all processes the same store",
 "The journal of changes of a process contains exactly its unsynchronised updates, key and value intact; sorting it keeps per key exactly the last update; merging two sorted journals keeps every key exactly once with its value, and stops with an error report if both hold different values for a key; applying a journal leaves the store with exactly these values, keys without value removed, and reports creation, change and removal callbacks accordingly. After a synchronisation in which no two processes set a key to different values, all participating processes hold the same key-value pairs.",
 ["histories", "inputs"], "every set of updates on every process before a synchronisation",
 "The only test synchronises three keys without conflicts.",
 ["src/kvs.c"], [("journals", "src/kvs.c laik_kvs_changes_add, laik_kvs_changes_merge, laik_kvs_changes_apply, laik_kvs_changes_set_size, laik_kvs_changes_ensure_size")])

prop("C17", "Groups translate process numbers consistently",
 "A cloned group has the same members as its parent with identical numbering. A group shrunken by a list of processes contains exactly the remaining members of its parent in the same order, its size is the number of remaining members, the translations from and to the parent are inverse to each other, removed members translate to 'none', and the own id is the translated one.",
 ["inputs"], "every group size, every removal list (any order, duplicates), every own id",
 "Tests shrink by the first or last process only.",
 ["src/core.c"], [("group creation", "src/core.c laik_create_group, laik_clone_group, laik_new_shrinked_group")])

prop("C18", "TCP byte streams are decoded independently of how they are segmented",
 "Whatever the sequence of segments in which the byte stream of a peer arrives, the TCP backend executes the same commands and delivers the same bytes to the same receive operations. Commands split over segments, several commands per segment and binary payloads mixed with commands are handled without loss, duplication or access outside the receive buffer.",
 ["schedules", "inputs"], "every segmentation of every valid command/data stream",
 "On loopback, messages practically always arrive in one piece.",
 ["src/backend-tcp2.c"], [("receive state machine", "src/backend-tcp2.c got_bytes, process_rbuf, got_binary_data, got_data, got_cmd")])

prop("C19", "A space description survives serialisation",
 "For every space, writing its description and reading it back yields the same number of dimensions and the same range, and the description never exceeds its buffer.",
 ["inputs"], "every dimensionality and all coordinate values",
 "Tests transfer one small 1d space.",
 ["src/space.c"], [("serialise/parse", "src/space.c laik_space_serialize, laik_space_set")])

prop("C20", "Switching partitionings moves every value to where it belongs",
 "After all processes of a group switched a container from one partitioning to another, each process holds for every index it owns the value previously held by an owner of the index (preserving flow), the combination of the values of all previous owners (reducing flow), or the neutral element (initialising flow). This holds whether or not the transition, its action sequence or reserved memory is precomputed, and independent of the communication backend and its optimisations.",
 ["programs", "schedules", "configurations"], "every pair of partitionings, group size, data type, layout and backend",
 "The tests compare the output of a few programs with up to four processes.",
 ["src/data.c", "src/action.c", "src/backend-single.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
 [("switch", "src/data.c laik_switchto_partitioning, doTransition, laik_exec_transition, laik_calc_actions"), ("action execution", "src/backend-single.c laik_single_exec, src/backend-mpi.c laik_mpi_exec, src/backend-tcp2.c tcp2_exec, src/action.c laik_exec_pack, laik_exec_unpack")])

prop("C21", "Communication of a switch always terminates",
 "If all processes of a group perform the same sequence of switches, no process waits forever for a message, for every interleaving of processes and every amount of buffering in the transport.",
 ["schedules"], "every interleaving, every buffering behaviour of the transport",
 "Tests see a handful of interleavings on one machine with eager message buffering.",
 ["src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c"], [("two-phase ordering", "src/action.c laik_aseq_sort_2phases"), ("asynchronous send/receive", "src/backend-mpi.c laik_mpi_asyncSendRecv")])

prop("C22", "Resizing the set of processes keeps groups and data consistent",
 "When processes join or leave an application at a resize point, all remaining processes agree on the members and numbering of the new world, and containers migrate without losing indexes owned by remaining processes.",
 ["histories", "fault_sequences"], "every history of join and leave requests at resize points",
 "One example script adds and removes a process once.",
 ["src/core.c", "src/backend-tcp2.c", "src/data.c"], [("resize", "src/core.c laik_allow_world_resize, src/backend-tcp2.c tcp2_resize"), ("migration", "src/data.c laik_data_migrate, src/partitioning.c laik_partitioning_migrate, src/rangelist.c laik_rangelist_migrate")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
