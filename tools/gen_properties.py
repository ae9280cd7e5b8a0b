#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit).
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Provided partitioners assign every index as documented",
  "For any index space, process group and parameters a provided partitioner accepts, it assigns each index of the space to exactly the processes its kind prescribes: block, bisection, grid and reassign give every index exactly one owner, all gives every index to everybody, master everything to the first process, copy reproduces the base borders, and the halo kinds give each process its base ranges plus the neighbour indexes within the given depth clamped to the space. "
  "Block sizes follow the index and process weights and the number of cycles (unweighted blocks differ in size by at most one index per cycle), and no process is given anything outside the space. "
  "Reassigning after processes are removed leaves indexes of remaining processes where they were.",
  ["inputs", "configurations"],
  "All 1d/2d/3d spaces, group sizes, weights, cycle counts, halo depths, grid shapes and base partitionings.",
  "Tests run a few fixed sizes on 1, 2 or 4 processes and only look at the final numeric result; rounding, clamping and remainder cases at other sizes, weights and shapes are never reached.",
  ["src/partitioner.c", "include/laik/space.h"],
  [("per-kind partitioner run functions", "src/partitioner.c:runAllPartitioner..runReassignPartitioner"),
   ("full coverage check after each run", "src/partitioning.c:laik_run_partitioner")],
  [("range list", "which process owns which ranges", "src/rangelist.c")],
  ["laik_partitioning_rangecount/get_taskrange", "laik_my_range*"])

p("P02", "Partitionings: stored ranges, mappings and index conversion are consistent",
  "For any set of ranges handed to a partitioning, the frozen partitioning lists exactly those ranges (up to documented merging) ordered by process, with ranges of one process grouped into mappings exactly as their tags demand, and every counting, lookup, own-range, coverage, all/single/equality and global/local index conversion query agrees with that list. "
  "Running the same partitioner keeping all ranges, only own ranges, or only ranges intersecting own ranges of two partitionings yields the same answers for whatever is kept, on every process. "
  "Migrating a partitioning to another group renames processes and changes nothing else.",
  ["inputs", "configurations"],
  "All range sets (1d/2d/3d, tagged, untagged, overlapping, single-index, out of order), all filters, all group renamings.",
  "The example programs use regular block-like partitionings with at most a handful of ranges; orderings, tags, merging, sparse single indexes and filtered runs are hardly exercised and never compared against a definition.",
  ["src/partitioning.c", "src/rangelist.c", "src/data.c"],
  [("sorting, tag grouping, merging and map offsets on freeze", "src/rangelist.c:laik_rangelist_freeze"),
   ("filters during partitioner runs", "src/partitioning.c:laik_rangefilter_*"),
   ("index conversion", "src/space.c:laik_index_global2local, src/data.c:laik_global2local_*")],
  [("range list", "sorted task ranges with offsets per process and mapping", "include/laik/space-internal.h")],
  ["laik_my_maprange", "laik_global2maplocal_1d", "laik_maplocal2global_1d"])

p("P03", "Range and space operations agree with index-set semantics",
  "Treating a range as the set of index points it contains, the operations on ranges and spaces (emptiness, size, intersection, containment, equality, expansion, being within a space) and the statements about lists of ranges (covers the whole space, is everything on everyone, is everything on exactly one process, equals another list) give the answer of the corresponding set operation. "
  "This holds for 1, 2 and 3 dimensions, negative and very large index values, empty ranges and spaces whose borders were changed after creation.",
  ["inputs"],
  "All ranges, range lists and spaces with 1 to 3 dimensions and any 64 bit borders.",
  "No test calls these operations directly; the examples only reach them with non-empty, non-negative, small ranges of regular partitionings.",
  ["src/space.c", "src/rangelist.c"],
  [("range algebra", "src/space.c:laik_range_*"),
   ("coverage bookkeeping", "src/rangelist.c:laik_rangelist_coversSpace/isAll/isSingle/isEqual")],
  None, ["return values of the range API"])

p("P04", "Transitions plan exactly the needed data movement",
  "For any two partitionings over the same group and any flow and reduction, the plans computed independently by the processes fit together: every planned send has exactly one planned receive of the same range at the other side and vice versa, and every process named in a planned reduction plans the same reduction with the same inputs and outputs. "
  "When values are preserved, every index a process holds afterwards is filled exactly once (in 2d/3d, where an index had several holders, at least once) - by keeping its own copy, by one receive from a process that held the index before, or by one reduction whose inputs are exactly the processes that held the index - and no index a process does not hold afterwards is touched. "
  "When initialising, exactly the own indexes are initialised, and with no flow nothing moves.",
  ["inputs", "configurations"],
  "All pairs of partitionings (1d, including irregular, tagged and overlapping ones; 2d/3d as far as supported), all flows and reductions, all group sizes.",
  "Tests run a few fixed transitions and only see the numeric end result on correct inputs; consistency of plans across processes for arbitrary pairs is never checked.",
  ["src/space.c"],
  [("border sweep for 1d", "src/space.c:calcAddReductions"),
   ("pairwise intersections for 2d/3d", "src/space.c:do_calc_transition")],
  [("transition", "lists of local, init, send, receive and reduce operations per process", "include/laik/space-internal.h")],
  ["laik_calc_transition on every process of the group"])

p("P05", "Switching partitionings preserves or initialises the right values",
  "After any sequence of writes and switches of a data container between partitionings, every process reads, for every index it then owns, the value last written to that index by its previous owner when the switch preserved values, and the neutral value of the reduction when it initialised (1d). "
  "This holds through changes of process group, direct use of precomputed transitions, layouts, memory reservations, memory reuse, and any number of containers switched in any order, and a switch never alters values of other containers.",
  ["histories", "inputs", "configurations", "schedules"],
  "All programs of container creation, writes, switches (any flow), group changes and reservations, for any number of processes and any element type.",
  "Tests run nine example programs with fixed switch orders; histories mixing irregular partitionings, reservations, several mappings and group changes are not sampled.",
  ["src/data.c", "src/space.c", "src/action.c", "src/layout_lex.c", "src/backend-mpi.c", "src/backend-single.c", "src/backend-tcp2.c", "src/backends/tcp/backend-tcp.c"],
  [("switch: allocate, reuse, communicate, copy, initialise, free", "src/data.c:doTransition"),
   ("execution of communication", "src/backend-*.c exec")],
  [("container", "active partitioning and mappings with values", "include/laik/data-internal.h")],
  ["memory returned by laik_get_map* after each switch"])

p("P06", "Reductions combine exactly the inputs of the previous owners",
  "When a switch reduces, every process owning an index afterwards reads the same combination (sum, product, minimum, maximum, bitwise and, bitwise or) of the values of all processes owning that index before, each used exactly once, and just a copy if there was one. "
  "Initialising for a reduction stores the neutral value of that reduction for every predefined data type, so a process that contributes only the initial value does not change the result. "
  "Results do not depend on how the backend implements the reduction (collective operation, point-to-point, one or more phases) and user-provided reductions are called on exactly the inputs.",
  ["inputs", "configurations", "schedules"],
  "All predefined and custom types, all reductions, all input/output process groups, all backend settings.",
  "Tests only sum doubles on regular all-to-one or all-to-all layouts; other types, operations and partial input groups never run.",
  ["src/type.c", "src/action.c", "src/backend-mpi.c", "src/backend-single.c", "src/backend-tcp2.c", "src/backends/tcp/minimpi.c", "src/backends/tcp/backend-tcp.c", "src/space.c"],
  [("per-type init and reduce functions", "src/type.c"),
   ("reduction splitting into rounds", "src/action.c:laik_aseq_splitReduce"),
   ("collective or manual group reduction", "src/backend-mpi.c:laik_mpi_exec_*reduce")],
  None, ["container values after the switch", "laik_fill/init values"])

p("P07", "Communication never deadlocks, mismatches or races",
  "For any collective program in which all processes make the same calls, communication between processes completes under every scheduling of the processes and every amount of message buffering the transport may or may not provide. "
  "Each message is received by the operation it was sent for with exactly the expected size, and memory handed to an unfinished send or receive is not modified, read or freed before that operation has completed.",
  ["schedules", "programs", "configurations"],
  "All interleavings of the processes, all buffering behaviours from fully synchronous to fully buffered, all switch programs and backend settings.",
  "The installed transport buffers small messages and schedules processes benignly, so a wrong order of sends and receives or a buffer reused too early passes all tests.",
  ["src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp/minimpi.c"],
  [("ordering of send/receive phases", "src/action.c:laik_aseq_sort_2phases"),
   ("message combining", "src/action.c:laik_aseq_combineActions"),
   ("asynchronous transfer setup", "src/backend-mpi.c:laik_mpi_asyncSendRecv"),
   ("send permission protocol", "src/backend-tcp2.c")],
  None, ["calls made into the transport library", "sockets"])

p("P08", "Prepared action sequences behave like direct execution",
  "Recording a transition as an action sequence and executing it has the same effect on container contents as executing the transition directly, every time it is executed, no matter how often, with which reservations, and what other sequences were prepared or executed in between. "
  "The optimisation passes applied while preparing do not change this effect, for any combination of enabled and disabled backend options.",
  ["histories", "inputs", "configurations"],
  "All transitions, reservation combinations, numbers of repetitions and interleavings with other sequences, all backend options.",
  "One example prepares sequences for one fixed halo pattern; reductions, several mappings, reuse and repeated execution are not compared with direct execution.",
  ["src/action.c", "src/data.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp/backend-tcp.c", "src/backend-single.c"],
  [("recording", "src/data.c:laik_calc_actions"),
   ("passes", "src/action.c:laik_aseq_*"),
   ("execution", "src/backend-mpi.c:laik_mpi_exec")],
  [("action sequence", "list of actions with rounds and buffers", "include/laik/action-internal.h")],
  ["laik_calc_actions/laik_exec_actions"])

p("P09", "Memory layouts address, pack, unpack and copy every element correctly",
  "A layout maps each index of its ranges to its own place within the memory of the mapping, in lexicographic order and with the strides and sizes it reports. "
  "Packing a sub-range in chunks of any size and unpacking it, possibly in other chunk sizes and into another layout, or copying it directly between mappings, transfers exactly the elements of the sub-range in the same order and changes nothing else, in optimised and generic variants alike.",
  ["inputs"],
  "All ranges and sub-ranges in 1 to 3 dimensions, element sizes, chunk sizes, mappings with several sections, generic and optimised code.",
  "Examples use full block ranges with a fixed buffer size, so partial chunks, 3d slices and layouts with several sections are not sampled.",
  ["src/layout.c", "src/layout_lex.c", "src/data.c"],
  [("offset, pack, unpack, copy", "src/layout_lex.c"), ("generic variants", "src/layout.c")],
  [("layout", "sections with strides", "src/layout_lex.c")],
  ["laik_layout_* functions", "laik_get_map_1d/2d/3d", "laik_data_copy"])

p("P10", "Synchronising a key-value store makes all processes agree",
  "After all processes synchronised a key-value store, every process has the same entries: for each key the value set last by the process that changed it since the previous synchronisation, otherwise the value it had, and none for a removed key (changes of one key by several processes have to agree). "
  "Callbacks report exactly the entries created, changed and removed by others, values of any content and length arrive unchanged, and different stores do not influence each other.",
  ["histories", "inputs", "schedules", "configurations"],
  "All sequences of set, overwrite, remove, lookup and synchronise calls on any number of stores and processes, all key and value contents, all backends.",
  "Tests set a few short distinct keys once and synchronise once or twice.",
  ["src/kvs.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp/backend-tcp.c"],
  [("journal of local changes and merge", "src/kvs.c:laik_kvs_changes_*"),
   ("exchange via first process", "src/backend-*.c sync")],
  [("store", "sorted entries plus change journal", "src/kvs.c")],
  ["laik_kvs_get/getn/count and callbacks on every process"])

p("P11", "Process groups have consistent membership and translation",
  "For any sequence of cloning, shrinking and uniting groups, every process sees the same members in the same order, its own position in that order (or that it is no member), and translations between a group and its parent that map each member to the same process. "
  "Communication within a group derived by cloning or shrinking, and migration through a united group, reaches exactly the processes meant, and location identifiers and names of members refer to the same process everywhere.",
  ["histories", "configurations"],
  "All sequences of group operations over all sizes and all lists of removed processes.",
  "One example shrinks a group once or twice in one fixed way.",
  ["src/core.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c", "src/backend-tcp2.c"],
  [("group construction", "src/core.c:laik_clone_group, laik_new_shrinked_group, laik_new_union_group"),
   ("communicators of derived groups", "src/backend-*.c updateGroup")],
  [("group", "members with parent translation", "include/laik/core-internal.h")],
  ["laik_size/laik_myid/laik_group_locationid on every process"])

p("P12", "World resizing reaches the same world everywhere and keeps data",
  "When processes join or are asked to leave, then at the next point where all active processes allow a resize, all of them obtain the same new world, numbered consistently, with one increment of the epoch; joining processes start with that same world and the phase passed, leaving processes learn that they left, and nothing changes if there were no requests. "
  "Data and partitionings migrated through the group containing old and new processes keep all values, and any later communication, store synchronisation or further resize among the new world works. "
  "Requests arriving at any time, in any order and number, never crash or hang the active processes.",
  ["histories", "schedules", "fault_sequences"],
  "All timings and numbers of joins and removals, across any number of resizes, interleaved with switches and synchronisations.",
  "The resize tests join or remove fixed processes at fixed points once; interleavings of several joiners, removals and repeated resizes are not sampled.",
  ["src/backend-tcp2.c", "src/core.c"],
  [("registration, resize and removal protocol", "src/backend-tcp2.c:tcp2_resize, process_pb"),
   ("resized groups", "src/core.c:laik_allow_world_resize")],
  [("peer table", "known processes with state per location id", "src/backend-tcp2.c")],
  ["laik_allow_world_resize, laik_epoch, laik_phase, laik_size, laik_myid"])

p("P13", "All backends compute the same results",
  "A program using only portable features leaves the same container contents, store contents and group answers on every process whichever backend runs it and whichever backend options are set. "
  "With a single process the result equals that of the single-process backend.",
  ["programs", "configurations"],
  "All portable programs, numbers of processes, backends and backend options (collective reductions on/off, asynchronous transfers on/off, binary and text transfer, generic and optimised layouts).",
  "Each test runs one example at a time with default options and compares printed sums only.",
  ["src/backend.c", "src/backend-mpi.c", "src/backend-single.c", "src/backend-tcp2.c", ],
  [("backend interface", "include/laik/backend.h"), ("backend implementations", "src/backend-*.c")],
  None, ["container and store contents after each collective call"])

p("P14", "Container memory is sufficient, exclusive, reused and released correctly",
  "At any time the memory mapped for a container holds every index the process owns, within an allocation obtained from the container's allocator, its reservation or the memory provided by the application, and memory of different containers or mappings does not overlap. "
  "Partitionings registered in one reservation use the same memory for the same tag each time, memory obtained from an allocator is handed back to it exactly once and never used afterwards, and memory the application provided is never handed back.",
  ["histories", "inputs"],
  "All sequences of container creation, reservation, switching, freeing, with any partitionings, tags and allocators.",
  "Two examples use reservations in one fixed pattern and nothing observes allocator calls.",
  ["src/data.c", "src/layout_lex.c"],
  [("allocation, reuse and reservations", "src/data.c:laik_allocateMap, checkMapReuse, laik_reservation_alloc"),
   ("layout reuse", "src/layout_lex.c:laik_layout_reuse_lex")],
  [("mapping", "allocated and required range, start, base, capacity", "include/laik/data-internal.h")],
  ["calls to a user-supplied allocator", "addresses from laik_get_map*"])

p("P15", "Shared location and space stores give every process the same view",
  "After synchronising, every process gets for every process of the world the location name that process reported, and these stay correct when the world changes. "
  "A space published by name is retrievable by every process with identical dimensions and borders, usable like the original, and a later change of its borders reaches every process at the next synchronisation.",
  ["histories", "inputs"],
  "All numbers of processes, spaces, dimensions and borders, and all sequences of publishing, changing and synchronising.",
  "One test publishes one 1d space and one prints locations; nothing checks the contents against a definition.",
  ["src/core.c", "src/space.c", "src/kvs.c"],
  [("location store", "src/core.c:laik_sync_location"), ("space store", "src/space.c:laik_spacestore_*, laik_sync_spaces")],
  None, ["laik_group_location", "laik_spacestore_get"])

p("P16", "Reported switch statistics equal the traffic and allocations that happened",
  "The per-container counters of switches, messages, elements and bytes sent, received and reduced, and of memory allocated, freed, initialised and copied, equal what the process really transferred and did. "
  "Current allocation is what is really held, its maximum is the largest value it had, and adding statistics adds every counter.",
  ["histories", "inputs"],
  "All switch histories on all containers.",
  "Statistics are only printed in logs; no test compares them with anything.",
  ["src/data.c", "src/action.c"],
  [("statistics", "src/data.c:laik_switchstat_*, laik_addSwitchStat"), ("per-sequence counters", "src/action.c:laik_aseq_calc_stats")],
  [("statistics", "counters per container", "include/laik/data-internal.h")],
  ["container statistics versus transport and allocator calls"])

p("P17", "External agents' failure reports arrive completely, their libraries are closed",
  "A query with enough room delivers all failures which any of the loaded fault-tolerance agents reported since the last query, with the names the agents gave, and says how many there are; none is lost, invented or delivered twice. With less room, never more than the room is written, and failures not delivered are delivered by a later query. Agents of other kinds are never asked. "
  "Loading more agents than supported is refused without affecting the loaded ones. At shutdown or cleanup, the library of every agent loaded from a file is closed exactly once, and agents can be loaded again after a cleanup.",
  ["histories", "configurations"],
  "All numbers and kinds of agents and sequences of reports and queries.",
  "One example loads a single simulating agent and stops it normally.",
  ["src/external.c", "include/laik/agent.h", "include/laik/ext.h"],
  [("agent loading, querying, closing", "src/external.c")],
  None, ["laik_ext_* calls with an instrumented agent"])

p("P18", "Observing a program reports faithfully and never changes what it does",
  "Messages logged at a level which is shown for the process (LAIK_LOG, process filter, or set at run time) appear exactly once with their full text, in order and with their indentation, long ones broken between words into lines; messages not to be shown do not appear. Each line is marked as first or continuation line and, as configured, names the process, the number of iteration/phase borders passed, and increasing message and line numbers; warnings and errors are marked as such. A log file gets the same lines. "
  "While profiling is enabled, the reported LAIK time is the time spent in switches and other measured calls since profiling started or was reset, the backend time the part of it spent communicating, and the user time the length of the last user span; a profile file consists of complete records of these with process, phase and iteration between its start and end lines, and is not changed after it was closed. Iteration and phase are reported as set. "
  "Whatever is logged, measured or set this way, all other results of the program are the same.",
  ["inputs", "configurations", "histories"],
  "All messages (length, words, line structure, composed in pieces), levels, filters and prefixes, and all histories of measuring.",
  "No test looks at log output or measured times.",
  ["src/logging.c", "src/profiling.c", "src/program.c", "src/core.c"],
  [("log output", "src/logging.c:laik_log_begin, laik_log_append, log_flush, laik_log_init_loc"), ("profiling", "src/profiling.c"), ("iterations and phases", "src/program.c")],
  None, ["log lines and profile files against a virtual clock"])

p("P19", "TCP backend's message passing delivers exactly what was sent in every situation",
  "Whatever the limits of its buffers, connections and threads, and whatever the network does (data in arbitrary pieces, connections refused or closed when idle, delays, signals): messages between two processes of the same communicator with the same tag are received completely, unchanged, exactly once and in the order sent, with their number of elements; one which is longer than the space given is reported as error and writes nothing outside. "
  "Messages of different communicators, senders, receivers or tags never get mixed up, however the communicators were made (split by colour and ordered by hint then old number, or copied). "
  "Broadcast gives everybody the values of the root; a reduction the combination (sum, product, minimum, maximum, logical and bitwise and/or; all numeric types) of the values of all, in all forms; nobody leaves a barrier before all have entered it; input buffers stay unchanged. "
  "Every call of a correct program returns, including initialisation and finalisation.",
  ["programs", "schedules", "configurations", "fault_sequences"],
  "All programs of these calls which are deadlock-free with the configured buffering, all limits, all schedules of threads and behaviour of the network short of losing an established connection.",
  "Tests run a few programs over a perfect local network with default limits, using sums only.",
  ["src/backends/tcp"],
  [("calls", "src/backends/tcp/minimpi.c"), ("boxes and protocol", "src/backends/tcp/messenger.c, map.c"), ("connections", "src/backends/tcp/client.c, server.c, socket.c, socketqueue.c")],
  None, ["results of all calls in real processes, with disturbed system calls"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
