"""Per property: the contracts, the functions under contract, the sources they are
extracted from, the native harness (replay / bounded stand-in), and the text for the evidence."""
B = "contracts/"
PROPS = {}


def prop(pid, contracts, src, functions, native=None, lemmas=(), bounded=(), assumptions=(), trusted=(), level="proof"):
    PROPS[pid] = dict(id=pid, contracts=[B + c for c in ["base.lcv"] + contracts], src=src, functions=functions,
                      native=native or pid.lower(), lemmas=list(lemmas), bounded=list(bounded), assumptions=list(assumptions), trusted=list(trusted), level=level)


prop("C01", ["space.lcv"], ["src/space.c"],
     ["laik_range_isEmpty", "laik_range_intersect", "laik_range_expand", "laik_range_within_range", "laik_range_size", "laik_range_within_space", "laik_range_isEqual", "laik_index_isEqual"])
prop("C02", ["space.lcv", "rangelist.lcv", "freeze.lcv"], ["src/rangelist.c", "src/space.c"],
     ["trgen_cmp", "sortRanges", "mergeSortedRanges", "updateOffsets", "laik_rangelist_rangecount", "laik_rangelist_tidrangecount",
      "laik_rangelist_tidmapcount", "laik_rangelist_taskrange", "laik_rangelist_tidrange", "laik_rangelist_append", "laik_rangelist_freeze", "laik_rangelist_migrate",
      "laik_updateMapOffsets", "laik_rangelist_tidmaprangecount", "laik_rangelist_tidmaprange", "tss1d_cmp", "laik_rangelist_append_single1d", "updateOffsetsSI", "laik_rangelist_freeze@single"])
prop("C03", ["space.lcv", "rangelist.lcv", "cover.lcv"], ["src/rangelist.c", "src/space.c"],
     ["laik_range_intersect", "laik_range_within_range", "laik_range_isEqual", "appendToNotcovered", "trgen_cmpfrom", "laik_rangelist_isAll", "laik_rangelist_isSingle", "laik_rangelist_isEqual"],
     bounded=["laik_rangelist_coversSpace"], level="other")

prop("C04", ["space.lcv", "rangelist.lcv", "partitioner.lcv"], ["src/partitioner.c", "src/partitioning.c", "src/rangelist.c", "src/space.c"],
     ["laik_append_range", "runAllPartitioner", "runMasterPartitioner", "runCopyPartitioner", "runCornerHaloPartitioner",
      "laik_partitioning_allranges", "laik_partitioning_rangecount", "laik_partitioning_get_taskrange", "laik_taskrange_get_range",
      "laik_taskrange_get_task", "laik_taskrange_get_tag"],
     bounded=["runHaloPartitioner"])
prop("C05", ["space.lcv", "rangelist.lcv", "partitioner.lcv"], ["src/partitioner.c", "src/partitioning.c", "src/rangelist.c", "src/space.c"],
     ["laik_append_range"],
     bounded=["runBlockPartitioner", "runBisectionPartitioner", "doBisection", "runGridPartitioner", "runReassignPartitioner"], level="other")
prop("C06", ["space.lcv", "rangelist.lcv", "partitioner.lcv", "filter.lcv"], ["src/partitioning.c", "src/partitioner.c", "src/rangelist.c", "src/space.c"],
     ["idxfilter_check", "idxfilter", "tidfilter", "laik_rangefilter_new", "laik_rangefilter_set_myfilter", "laik_rangefilter_add_idxfilter", "laik_append_range"],
     bounded=["laik_append_index_1d", "laik_partitioning_store_myranges", "laik_partitioning_store_intersectranges", "laik_partitioning_run", "laik_run_partitioner"])
prop("C09", ["space.lcv", "layout.lcv"], ["src/layout_lex.c", "src/layout.c", "src/space.c"],
     ["section_lex", "mapno_lex", "offset_lex", "reuse_lex", "laik_layout_lex_stride", "laik_init_layout", "laik_new_layout_lex", "laik_range_size", "laik_range_within_range"],
     lemmas=["offsets_injective"], bounded=["total element count of a layout with several sections"],
     assumptions=["at most 2^60 elements per section", "separate sections are separate allocations (each mapping allocates its own memory)"], trusted=["describe_lex"])
prop("C10", ["space.lcv", "layout.lcv"], ["src/layout_lex.c", "src/layout.c", "src/space.c"],
     ["next_lex", "offset_lex"], lemmas=["step_is_next", "offsets_injective"],
     bounded=["pack_lex", "unpack_lex", "copy_lex", "laik_layout_pack_gen", "laik_layout_unpack_gen", "laik_layout_copy_gen", "laik_data_copy"], level="other")
prop("C11", ["space.lcv", "rangelist.lcv", "layout.lcv", "data.lcv"], ["src/data.c", "src/layout_lex.c", "src/layout.c", "src/space.c"],
     ["coveringRanges", "initMapping", "laik_mappinglist_new", "laik_map_set_allocation", "laik_allocateMap", "freeMap", "initEmbeddedMapping", "laik_offset",
      "laik_get_map", "laik_get_map_addr", "laik_get_map_1d", "laik_get_map_2d", "laik_get_map_3d", "laik_global2local_1d", "laik_global2maplocal_1d",
      "laik_local2global_1d", "laik_maplocal2global_1d", "laik_map_get_mapNo", "mygroup_cmp", "laik_switchstat_malloc", "laik_switchstat_free", "offset_lex", "reuse_lex"],
     bounded=["prepareMaps", "checkMapReuse", "copyMaps", "initMaps", "doTransition", "laik_reservation_alloc", "laik_reservation_free"], level="other",
     assumptions=["at most 65536 mappings per process, 2^40 elements per mapping and 4096 bytes per element", "allocators return fresh memory of the requested size (or fail the process)",
                  "mapping lists use lexicographical layouts", "memory provided by the application is large enough and not reused by it while old mappings use it"])
TYPES = ["char", "uchar", "int32", "uint32", "int64", "uint64", "double", "float"]
prop("C12", ["type.lcv"], ["src/type.c"], ["laik_%s_%s" % (t, f) for t in TYPES for f in ("init", "reduce")],
     assumptions=["no signed overflow in int32/int64 sums and products (precondition)", "floating point addition and multiplication are uninterpreted functions; NaN and infinities excluded",
                  "inputs are the output itself or do not overlap it", "bit operations are uninterpreted functions, range-preserving per width"])
prop("C17", ["group.lcv"], ["src/core.c"], ["laik_create_group", "laik_clone_group", "laik_new_shrinked_group", "lididx_cmp"],
     bounded=["laik_new_union_group"], assumptions=["memory behind the struct of a group (one malloc) does not overlap the struct itself", "at most 50 groups per instance and 2^24 processes per group"])

prop("C15", ["kvs.lcv"], ["src/kvs.c"],
     ["laik_kvs_entry", "laik_kvs_data", "laik_kvs_get", "laik_kvs_count", "laik_kvs_getn", "laik_kvs_key", "laik_kvs_size", "laik_kvs_copy", "laik_kvs_changes_ensure_size",
      "laik_kvs_changes_add", "remove_entry", "laik_kvs_remove", "entrycmp", "laik_kvs_sort", "laik_kvs_set", "laik_kvs_sets", "laik_kvs_clean", "laik_kvs_new"],
     assumptions=["keys shorter than 65536 bytes, at most 2^28 entries and journal bytes", "keys and values handed in are not modified by the caller while the call runs",
                  "callbacks of a store do not change the store itself", "not during a synchronisation (in_sync)"])
prop("C16", ["kvs.lcv"], ["src/kvs.c"],
     ["laik_kvs_changes_init", "laik_kvs_changes_new", "laik_kvs_changes_ensure_size", "laik_kvs_changes_set_size", "laik_kvs_changes_add", "changecmp"],
     bounded=["laik_kvs_changes_sort", "laik_kvs_changes_merge", "laik_kvs_changes_apply", "laik_kvs_sync", "laik_mpi_sync"], level="other")
prop("C19", ["space.lcv", "serial.lcv"], ["src/space.c"], ["laik_space_serialize", "laik_space_set"], bounded=["laik_spacestore_set", "spacestore callbacks"],
     assumptions=["printf/scanf of integers are inverse to each other for the same conversion and surrounding literal characters"])

TR = ["space.lcv", "rangelist.lcv", "trans.lcv"]
prop("C07", TR, ["src/space.c", "src/rangelist.c"],
     ["laik_range_intersect", "laik_range_isEqual", "hasEqualRange", "appendLocalTOp", "appendInitTOp", "appendSendTOp", "appendRecvTOp", "appendBorder", "cleanBorderList", "rb_cmp", "oneInputIsCopy"],
     bounded=["do_calc_transition", "laik_calc_transition", "calcAddReductions", "laik_partitioning_interranges"], level="other",
     assumptions=["at most 2^24 operations per transition", "one dimension: ranges of the same process do not overlap (stated limitation in src/space.c)"])
prop("C08", TR, ["src/space.c", "src/rangelist.c"],
     ["rb_cmp", "oneInputIsCopy", "isInTaskGroup", "addTask", "removeTask", "newTaskGroup", "getTaskGroup", "getTaskGroupSingle", "laik_trans_groupCount", "laik_trans_taskInGroup", "laik_trans_isInGroup",
      "appendRedTOp", "appendBorder", "cleanBorderList"],
     bounded=["calcAddReductions", "do_calc_transition"], level="other", assumptions=["at most 65536 processes per group (limit of the code), 2^20 groups and 2^24 operations per transition"])
prop("C20", ["space.lcv", "layout.lcv", "mpi.lcv"], ["src/backend-mpi.c", "src/layout_lex.c", "src/layout.c", "src/space.c"],
     ["getMPIOp", "laik_range_intersect", "offset_lex", "next_lex"],
     bounded=["laik_switchto_partitioning", "laik_exec_transition", "laik_calc_actions", "laik_exec_actions", "laik_single_exec", "laik_mpi_prepare", "laik_mpi_exec", "laik_mpi_asyncSendRecv"], level="other",
     assumptions=["MPI is replaced by a simulation of it (messages of a pair of processes stay in order, buffered or rendezvous sends)",
                  "reductions with the MPI backend are checked in one dimension only (not implemented otherwise)", "the TCP backend is not part of this check"])

ADDERS = """laik_aseq_addBAction laik_aseq_addHalt laik_aseq_addTExec laik_aseq_addRBufSend laik_aseq_addRBufRecv laik_aseq_addRBufLocalReduce
laik_aseq_addBufInit laik_aseq_addRBufCopy laik_aseq_addBufCopy laik_aseq_addMapSend laik_aseq_addBufSend laik_aseq_addMapRecv
laik_aseq_addBufRecv laik_aseq_addPackAndSend laik_aseq_addPackToRBuf laik_aseq_addPackToBuf laik_aseq_addMapPackAndSend laik_aseq_addMapPackToRBuf
laik_aseq_addMapPackToBuf laik_aseq_addRecvAndUnpack laik_aseq_addUnpackFromRBuf laik_aseq_addUnpackFromBuf laik_aseq_addMapRecvAndUnpack laik_aseq_addMapUnpackFromRBuf
laik_aseq_addMapUnpackFromBuf laik_aseq_addReduce laik_aseq_addRBufReduce laik_aseq_addMapGroupReduce laik_aseq_addGroupReduce laik_aseq_addRBufGroupReduce
laik_aseq_addCopyToBuf laik_aseq_addCopyFromBuf laik_aseq_addCopyToRBuf laik_aseq_addCopyFromRBuf""".split()
AC = ["space.lcv", "action.lcv"]
AA = ["records of an action sequence are accessed with the struct of their type (an action of type T is a Laik_A_T record)", "at most 2^24 actions per sequence, element sizes up to 4096 bytes",
      "allocators return fresh memory of the requested size (or fail the process)"]
prop("C13", AC, ["src/action.c", "src/space.c", "src/data.c"],
     ["laik_aseq_addAction"] + ADDERS + ["laik_aseq_add", "laik_aseq_activateNewActions", "laik_aseq_discardNewActions", "laik_action_isSend", "laik_action_isRecv", "getActionPeer",
      "isSameBufSend", "isSameBufRecv", "isSameGroupReduce", "isSameReduce", "cmp_rounds", "cmp2phase"],
     bounded=["laik_aseq_splitTransitionExecs", "laik_aseq_flattenPacking", "laik_aseq_replaceWithAllReduce", "laik_aseq_combineActions", "laik_aseq_splitReduce",
              "laik_aseq_sort_rounds", "laik_aseq_sort_2phases", "laik_aseq_sort_rankdigits", "laik_aseq_copySeq", "cmp_rankdigits"], level="other", assumptions=AA)
prop("C14", AC, ["src/action.c", "src/space.c", "src/data.c"],
     ["laik_aseq_addAction", "laik_aseq_addBAction", "laik_aseq_addBufReserve", "getBufSize", "laik_aseq_add", "laik_aseq_activateNewActions", "laik_aseq_discardNewActions", "laik_switchstat_malloc", "laik_aseq_allocBuffer"],
     bounded=["uses inside their reservation (precondition of laik_aseq_allocBuffer): reservations made by laik_aseq_combineActions, laik_aseq_flattenPacking and laik_aseq_splitReduce"], level="other", assumptions=AA)
prop("C18", ["space.lcv", "tcp2.lcv"], ["src/backend-tcp2.c", "src/space.c"],
     ["add_rfd", "process_rbuf", "got_bytes", "next_lex", "istr"], lemmas=["step_is_next"],
     bounded=["got_binary_data", "got_data", "got_cmd and the handlers of commands", "rm_rfd", "send_data_bin, send_range, recv_range, tcp2_sync against simulated peers (random segmentation of reads, partial writes)"],
     trusted=["got_cmd", "rm_rfd", "got_binary_data"], level="other",
     assumptions=["binary elements of at most 8189 bytes (send and receive buffer)", "a peer sends binary packets of whole elements, text commands shorter than the receive buffer",
                  "key-value entries are strings without end of line or leading blank, values are not empty", "commands leave the receive buffers of other connections alone"])

NA = {
 "C21": "Termination and deadlock freedom of the communicating processes is a liveness property of several processes and the network: contracts over sequential functions cannot express that a blocking receive is eventually matched. Loop variants are proved for the functions under contract instead.",
 "C22": "Depends on external process launchers and several processes joining at run time; contract verification covers only the list migration (see C02).",
}
