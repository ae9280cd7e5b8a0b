TV = "TLA+ specification; TLC validates recorded executions of the real library against it"
COMMON = " Real library code runs in every process; the MPI library below it is replaced by a simulated one with chosen schedules and buffering. Sampled inputs, so a pass is evidence for what was explored. Trusts TLC, the interpreter (harness/) and the simulated transport."
NOTE = {
 "P01": (TV, "Every range list delivered by each provided partitioner for random spaces (1-3 dimensions, any origin), group sizes, weights, cycles, depths and bases is checked by TLC against a definition of the partitioner kind in LaikPartitioners.tla." + COMMON),
 "P04": (TV, "All processes' transition plans are recorded for random pairs of partitionings and TLC decides whether together they are a correct plan (LaikTransition.tla)." + COMMON),
 "P05": (TV, "Random programs with several containers run on all processes; TLC replays them on LaikSystem.tla, which carries the possible values of every element at every process, and compares every value read." + COMMON),
 "P06": (TV, "Reductions over all types and operations with random input and output owners; TLC computes the result of every element from the recorded inputs." + COMMON),
 "P02": (TV, "Random range sets, filters, mergings, migrations and conversions: everything the API tells about a partitioning on every process is compared by TLC with the partitioning as a set of tagged ranges (LaikPartition.tla, LaikExtra.tla)." + COMMON),
 "P03": (TV, "Range algebra and statements about range lists are evaluated by the real library on random and boundary inputs (also huge coordinates through scaling); TLC compares with sets of index points (LaikExtra.tla)." + COMMON),
 "P11": (TV, "Random histories of clone, shrink and union; members, order, translations and parents on every process are compared by TLC with LaikSystem.tla, and derived groups are used for switches." + COMMON),
 "P09": (TV, "For random containers (1-3 dimensions, several mappings, memory taken over from larger ones, reservations, an application-defined layout) every process records the address of every index and packs, unpacks and copies random parts in random chunks, in optimised and generic variants; TLC checks against LaikLayout.tla." + COMMON),
 "P10": ("TLA+ specification; TLC validates recorded executions and replays all histories of the TLC-checked journal model (MCKvs.tla)", "A model of the change journal and its merge is checked exhaustively against the definition of synchronisation in LaikKvs.tla for two processes; all its histories and random ones (also with more than 1000 changes, binary and long values) run on the real library and TLC compares contents and callbacks." + COMMON),
 "P08": (TV, "Transitions prepared once (with and without reservations, after other switches, executed repeatedly, on several containers) are executed; TLC treats each execution like the plain switch of LaikSystem.tla and compares all values read afterwards, across backend options." + COMMON),
 "P14": (TV, "All pieces of memory in use, the place of every mapping and of every index are recorded after each step of random histories (own allocator, reservations, provided memory, own layouts, freed containers); TLC checks them against LaikMemory.tla: ownership, exclusiveness, same place for the same tag, nothing kept or returned early. The allocator reports wrong or double returns and writes into returned or neighbouring memory." + COMMON),
 "P16": (TV, "Statistics of a container are recorded around every switch together with what the simulated MPI, the allocator and the functions of the element type really saw; TLC compares the differences and computes elements to be initialised or copied from LaikSystem.tla." + COMMON),
 "P07": ("TLA+ specification; TLC checks the transport and ordering models and validates recorded transport programs", "The programs of transport calls recorded from the real processes are checked by TLC (LaikMsg.tla): every send has its receive, no reachable stuck state without buffering; MCMsg shows that one strict run suffices, MCExec that the order of phases never gets stuck. Programs are also repeated under other schedules and bufferings and must give the same calls and results." + COMMON),
 "P15": (TV, "Random histories of publishing, retrieving and synchronising spaces and locations through the stores; answers on each process are compared by TLC with LaikStores.tla, and retrieved spaces are used in switches." + COMMON),
 "P13": (TV, "The same random programs (switches, reductions, groups, reservations, prepared sequences, key-value and space stores, transfers larger than a message) run with the MPI backend under its options, with the TCP2 backend over simulated sockets (text and binary transfer, messages cut into pieces at random, late and prompt delivery) and with the single-process backend; each run is validated by TLC against the one specification, so that all agree with it and with each other." + COMMON.replace("the MPI library below it is replaced by a simulated one", "MPI library or sockets below it are replaced by simulated ones")),
 "P12": ("TLA+ specification; TLC checks a model of the resize protocol (MCResize.tla), writes request histories, and validates recorded executions", "MCResize.tla models how a resize runs by messages (all interleavings with requests under way, small worlds); request histories written by TLC (ResizeScripts.tla) and random walks (joins, removals, early, late and repeated requests, clients disconnecting, switches, reductions, stores and groups in between) run with the TCP2 backend over simulated sockets, and TLC validates the recorded executions against LaikResize.tla: one world and epoch everywhere, requests known before honoured, none lost, data migrated." + COMMON.replace("the MPI library below it is replaced by a simulated one", "the sockets below it are replaced by simulated ones")),
 "P17": ("TLA+ specification; TLC checks all short histories, writes them out, and validates recorded executions", "AgentScripts.tla explores all short histories of loading agents, reporting, asking with different room, and cleaning up, on LaikAgents.tla (every report is delivered exactly once or still waits); these histories and longer random ones (up to the supported number of agents and beyond, agents from functions, from files and the simulating one coming with LAIK) run with the real library and instrumented agents, and TLC validates what queries delivered, what agents still hold and which libraries were closed. Agents tell the truth about how much they report; detaching agents (disabled in the code) is not claimed."),
 "P18": ("TLA+ specification; TLC checks all short histories of measuring, writes them out, and validates recorded executions", "ObserveScripts.tla explores all short histories of measuring (profiling on, off, to files, reset, user spans, work, records) on LaikObserve.tla: what is reported is what was spent, files are complete and stay as closed; these histories, and random programs with observing steps between all their other steps, run with the real library under a virtual clock advanced by communication and allocation, log output going to stderr or a file; TLC validates lines, times, files, and all ordinary results with the same specification as for other properties. Time inside a measured call is compared exactly on the virtual clock; wall-clock formatting (dates) is not checked."),
 "P19": ("TLA+ specification; TLC checks models of the protocol and of the calls, writes out programs, and validates recorded executions", "MCMessenger.tla models how messages get through (TRY/GET/ADD, in- and outbox with limits, refused and closed connections, the barrier at the end): never lost, twice or left behind, everything finishes; all programs of one message and the final barrier, all limits and schedules. MiniScripts.tla enumerates all programs of 3-4 calls of 3 processes (split, copy, send, receive, broadcast, reduce): all orders of steps give the same results, communicators which share processes get different numbers. Its programs and random ones (2-5 processes, all types and operations, receives out of order, all limits from 0 up, Unix sockets and TCP) are run by real processes on the real code with transfers in pieces, spurious EAGAIN, refused connections, delays, interrupted polls and signals; TraceMini.tla validates the results of all calls. Real threads and sockets: schedules are sampled. Established connections do not break while an answer is under way; no process dies."),
}
NA = {}
