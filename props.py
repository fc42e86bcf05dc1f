"""The properties and the checks that decide them."""
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, qtext, tests, files, mech, observe=None, tech=None, note=None, level="exploration", na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": tests,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}})
    if na:
        NA.append({"property": id, "reason": na})
        return
    CHECKS.append({"property": id, "quick_cmd": "python3 check.py %s" % id, "thorough_cmd": "python3 check.py %s --tier thorough" % id,
                   "technique": tech, "level": level, "level_note": note, "evidence_file": "evidence/%s.json" % id})


prop("P01", "AXI-Stream transactions cross the NoC exactly once, intact, in order",
     "Every AXI-Stream transaction a module hands to a NoC-attached port is delivered exactly once, with the data, user and last values it was sent with, at the port it was addressed to. "
     "Transactions between one source port and one destination port arrive in the order sent. Nothing is delivered that nobody sent, and traffic keeps flowing as long as receivers keep accepting.",
     ["inputs", "schedules", "configurations"],
     "all packet contents, injection and stall patterns, placements, clock ratios, and NoC/adapter configurations in which a packet fits the buffers and each packet type has its own VC",
     "The tests run the shipped example designs on one configuration each and compare one final result; loss, duplication or reordering that needs a particular clock ratio, buffer depth, stall pattern or contention never occurs in them.",
     ["rad-sim/sim/noc/axis_slave_adapter.cpp", "rad-sim/sim/noc/axis_master_adapter.cpp", "rad-sim/sim/noc/radsim_noc.cpp", "rad-sim/sim/noc/booksim/iq_router.cpp"],
     [("packetization and injection", "rad-sim/sim/noc/axis_slave_adapter.cpp"), ("ejection and depacketization", "rad-sim/sim/noc/axis_master_adapter.cpp"), ("NoC cycle loop", "rad-sim/sim/noc/radsim_noc.cpp")],
     ["tvalid/tready/tdata/tuser/tlast at module ports"],
     "randomised workloads on the real simulator, port-level event log, offline exactly-once/order/integrity checker",
     "Held on the explored scenarios only. Trusts SystemC and the harness modules; assumes one VC per packet type and buffers that hold a packet.")

prop("P02", "An offered transfer stays offered and unchanged until accepted",
     "When the NoC offers a user module an AXI-Stream or AXI memory-mapped transfer and the module is not ready, the transfer stays valid and all of its payload fields keep their values in every following cycle until the module accepts it.",
     ["inputs", "schedules", "configurations"],
     "all receiver stall patterns, clock ratios and NoC/adapter configurations",
     "The example designs are ready nearly always, so the tests never hold a transfer back for more than a few cycles and never look at the payload while it waits.",
     ["rad-sim/sim/noc/axis_master_adapter.cpp", "rad-sim/sim/noc/aximm_master_adapter.cpp", "rad-sim/sim/noc/aximm_slave_adapter.cpp"],
     [("output interface of the adapters", "rad-sim/sim/noc/aximm_slave_adapter.cpp OutputInterface")],
     ["valid/ready/payload at module ports"],
     "cycle-by-cycle handshake monitors inside stalling receiver modules",
     "Held on the explored scenarios only; monitors sample every rising edge of the module clock.")

prop("P03", "AXI-MM transfers cross the NoC exactly once, intact, in order",
     "Every read address, write address, write data, read data and write response transfer handed to a NoC-attached AXI memory-mapped port is delivered exactly once at the addressed port with its address, id, length, size, burst, data, response, last and user fields unchanged. "
     "Transfers of one channel between one source and one destination arrive in the order sent, and responses return to the requester named in the request.",
     ["inputs", "schedules", "configurations"],
     "all mixes of reads and writes, field values, burst lengths, stall patterns, placements, clock ratios and NoC/adapter configurations in which a packet fits the buffers",
     "The tests exercise AXI-MM only through the DLRM example with single-beat reads from one placement; other field values, bursts, stalls and write traffic are never driven.",
     ["rad-sim/sim/noc/aximm_slave_adapter.cpp", "rad-sim/sim/noc/aximm_master_adapter.cpp", "rad-sim/sim/noc/aximm_interface.hpp"],
     [("packet formats", "rad-sim/sim/noc/noc_utils.hpp"), ("adapters", "rad-sim/sim/noc/aximm_*_adapter.cpp")],
     ["AR/AW/W/R/B channels at module ports"],
     "randomised workloads on the real simulator, port-level event log, offline per-channel sequence checker",
     "Held on the explored scenarios only. Assumes full-width ports and one VC per packet type.")

BSF = "rad-sim/sim/noc/booksim/"
prop("P04", "The NoC moves every flit exactly once and gives every buffer slot back",
     "For every supported topology, routing function, allocator, virtual-channel and delay setting, each flit entering the NoC leaves it exactly once, unchanged, at its packet's destination, on a virtual channel of its packet type, "
     "the flits of a packet in order and not mixed with another packet's on one virtual channel. No sink or router buffer is sent more flits than it has slots, each used slot is credited back exactly once, "
     "and while sinks keep returning credits every packet is delivered. When traffic has drained, no router counts a slot as used.",
     ["inputs", "schedules", "configurations"],
     "all traffic patterns and sink stalls; topologies mesh, torus, cmesh, fly, quad tree, tree4, fat tree, flattened butterfly with their routing functions; all allocators and arbiters; buffer sizes, delays and credit modes",
     "The tests run two or three mesh configurations at light load; loss, misdelivery, credit leaks and deadlocks need contention, other topologies or particular buffer and delay settings.",
     [BSF + "routers/iq_router.cpp", BSF + "buffer_state.cpp", BSF + "networks/network.cpp", BSF + "routefunc.cpp", BSF + "networks/flatfly_onchip.cpp"],
     [("router pipeline and credits", BSF + "routers/iq_router.cpp"), ("downstream buffer bookkeeping", BSF + "buffer_state.cpp"), ("channels and wiring", BSF + "networks/")],
     ["Network::ReadFlit/WriteFlit/ReadCredit/WriteCredit", "Router::UsedCredits"],
     "flit- and credit-level monitors around the real network under random load, with sanitizer runs",
     "Held on the explored networks and loads only; pairs of topology and routing known to be unsupported upstream are left out.")

prop("P05", "NoC latency and throughput follow the configured delays, in NoC cycles",
     "A packet that meets no other traffic crosses the NoC in exactly the number of NoC cycles that the configured routing, VC-allocation, switch-allocation and crossbar delays and the link latencies along its route add up to, whatever the allocators and the NoC clock period. "
     "A buffer slot is reusable exactly one configured credit loop after it was taken, so a stream moves one flit per cycle with deep enough buffers and one per slot and loop with shallower ones.",
     ["inputs", "configurations"],
     "all source/destination pairs, routing/VC/switch-allocation/credit delays, buffer depths, clock periods and start times",
     "The tests compare end results of example designs, which come out the same if the NoC is a few cycles faster or slower; no test looks at a latency.",
     [BSF + "routers/iq_router.cpp", BSF + "channel.hpp", BSF + "pipefifo.hpp", BSF + "buffer_state.cpp", "rad-sim/sim/noc/radsim_noc.cpp"],
     [("pipeline stage timers", BSF + "routers/iq_router.cpp"), ("channel delay lines", BSF + "channel.hpp")],
     ["cycle in which a flit enters and leaves the network"],
     "cycle-accurate timing monitor compared with a closed-form latency model",
     "Held on the explored settings (speculation with one-cycle allocation only); the latency model was derived from BookSim's documented pipeline.")

prop("P06", "Routing reaches every destination, minimally, without cyclic waits",
     "From every source to every destination, on every virtual channel and along every alternative a routing function offers, packets reach their destination, only ever over connected links and on virtual channels of their own type, and never return to a state they were in. "
     "Routing functions other than Valiant and UGAL take shortest routes (any-net: shortest by link latency). The channel dependencies that the routes create contain no cycle, so packets cannot wait for each other for ever.",
     ["inputs", "configurations", "schedules"],
     "all source/destination pairs, packet types, injection VCs, random choices and queue lengths, on every supported topology and on random any-net graphs",
     "A test can only see routes that its traffic takes, and a dependency cycle deadlocks only under a rare combination of full buffers.",
     [BSF + "routefunc.cpp", BSF + "networks/kncube.cpp", BSF + "networks/cmesh.cpp", BSF + "networks/flatfly_onchip.cpp", BSF + "networks/anynet.cpp", BSF + "networks/fattree.cpp", BSF + "networks/qtree.cpp", BSF + "networks/tree4.cpp", BSF + "networks/fly.cpp"],
     [("routing functions", BSF + "routefunc.cpp"), ("topology wiring", BSF + "networks/")],
     ["routing function calls", "FlitChannel source/sink"],
     "the real routing functions called along every route of built networks, with monitors for destination, progress, VC range and an online channel-dependency graph",
     "Exhaustive over sources, destinations and VCs of the networks explored; random choices and queue lengths are sampled. Any-net graphs with cycles are not judged for cyclic waits.")

prop("P07", "Allocators and arbiters grant what was asked, once, by priority and in turn",
     "In every round an allocator's grants pair each input with at most one output and each output with at most one input, only where that input asked for that output, and someone is served whenever anyone asks. "
     "Wavefront (and islip, pim, select given enough iterations) refuse no request whose input and output both stay free; max_size serves as many as possible. Arbiters let a highest-priority requester win, equals by turn (round robin) or least recently served (matrix), and a persistent requester is served within a bounded number of rounds. When all keep asking for everything, islip, select, wavefront and separable allocators with round-robin arbiters come to waste no grant, and serve every pair in turn.",
     ["inputs", "histories"],
     "all request sets, priorities, sizes and histories of earlier rounds",
     "A wrong grant shows in a whole-system test only as slightly different timing, and starvation only after a long adversarial history.",
     [BSF + "allocators/", BSF + "arbiters/"],
     [("allocators", BSF + "allocators/*.cpp"), ("arbiters", BSF + "arbiters/*.cpp")],
     ["Allocator::AddRequest/Allocate/OutputAssigned", "Arbiter::AddRequest/Arbitrate"],
     "random request histories judged round by round against a reference model, with sanitizer runs",
     "Held on the explored sizes (up to 9x9, arbiters up to 20) and histories. No starvation bound is claimed for max_size.")

prop("P08", "The memory controller behaves as one memory per channel",
     "A read burst of a memory controller's AXI port returns, for each beat, the data of the write to that word that last completed before it (or of one performed concurrently; initially the memory image or zero), as many beats as its length says, "
     "with its user field, last on the last beat only. Every write burst is performed exactly once at its address and the words after it and answered once with its own user field; an offered response stays until taken; requests are never dropped.",
     ["inputs", "schedules", "configurations"],
     "all interleavings of read and write bursts, burst lengths, addresses, stalls on each channel, memory images, queue sizes, channel counts and DRAM configurations",
     "The tests only read initialised tables through one configuration; no test writes through the controller, overlaps reads and writes or stalls a response.",
     ["rad-sim/sim/dram/mem_controller.cpp", "rad-sim/sim/dram/mem_controller.hpp"],
     [("request queues and responses", "rad-sim/sim/dram/mem_controller.cpp Assign"), ("completion callbacks and memory contents", "rad-sim/sim/dram/mem_controller.cpp MemReadCallback/MemWriteCallback")],
     ["AR/AW/W/R/B at the controller's ports"],
     "random concurrent bursts on the real controller, port-level event log, offline register-history (linearizability) checker, with sanitizer runs",
     "Held on the explored runs. One requester per channel, word-sized beats, addresses within the channel; bid, rid and resp are not driven and not claimed.")

D3 = "rad-sim/sim/dram/DRAMsim3/src/"
prop("P09", "DRAM commands obey bank states and every configured timing parameter",
     "Every command DRAMsim3 issues is legal in the state its bank and rank are in (reads and writes only to the open row, activates only of closed banks, refresh and self-refresh only with all banks closed, nothing but an exit in self-refresh) "
     "and comes no sooner after earlier commands than the configured parameters allow (tRCD, tRP, tRAS, tRC, tRRD, tFAW, t32AW, tCCD, tRTP, tWR, tWTR, read/write turnaround, tRTRS, tPPD, tRFC, tRFCb, tXS, tCKESR). "
     "A channel issues one command per cycle (HBM: one row and one column command), and ranks, banks and rows stay within the configured geometry and page policy.",
     ["inputs", "histories", "configurations"],
     "all request streams and all combinations of protocol, timing, page policy, queue structure, refresh policy, address mapping, ranks and channels",
     "No test drives DRAMsim3 beyond the example designs' light read traffic on one configuration, and none looks at a command's cycle.",
     [D3 + "timing.cc", D3 + "channel_state.cc", D3 + "bankstate.cc", D3 + "command_queue.cc", D3 + "controller.cc", D3 + "configuration.cc"],
     [("timing tables", D3 + "timing.cc"), ("bank state machines", D3 + "bankstate.cc"), ("command scheduling", D3 + "command_queue.cc")],
     ["command trace of each channel"],
     "offline monitor of the real command trace against an independent model of bank states and timing constraints, with sanitizer runs",
     "Held on the explored request streams and configuration variants.")
prop("P10", "DRAM refresh keeps its configured rate and idle ranks sleep and wake",
     "Outside self-refresh every rank is refreshed once per tREFI (every bank once per tREFIb times banks under per-bank refresh), whatever the load, under each refresh policy. "
     "With self-refresh enabled, a rank that stays idle beyond the threshold enters self-refresh, again and again, and a request for it wakes it; no refresh is lost on the way.",
     ["inputs", "histories", "configurations"],
     "all loads and idle phases, refresh policies, refresh intervals, rank counts and self-refresh thresholds",
     "Refresh and self-refresh show in the example designs' results only as slightly different timing; the tests use one refresh policy and never idle long enough to sleep.",
     [D3 + "refresh.cc", D3 + "controller.cc", D3 + "channel_state.cc", D3 + "command_queue.cc", D3 + "timing.cc"],
     [("refresh generation", D3 + "refresh.cc"), ("self-refresh", D3 + "controller.cc ClockTick"), ("pending refreshes", D3 + "channel_state.cc")],
     ["command trace of each channel"],
     "offline rate, gap and sleep monitors over the real command trace",
     "Held on the explored runs; rates allow bounded lateness.")
prop("P11", "DRAM requests complete exactly once, when their command implies, in order",
     "Every read and write DRAMsim3 accepts completes with exactly one callback, with its address, and nothing else completes: a read RL plus burst cycles after the READ that serves it (one cycle after acceptance if a write of the address is still pending), a write one cycle after acceptance. "
     "Every command on the bus serves a request someone made, at the bank, row and column its address maps to; a write is not performed before an earlier read of its address. Requests are not held up for ever once new ones stop.",
     ["inputs", "histories", "configurations"],
     "all interleavings of reads and writes, address patterns, queue structures and sizes, address mappings and numbers of instances in one process",
     "The tests issue few requests to few addresses; merging, forwarding, full queues, write draining and dual issue interact only under load.",
     [D3 + "controller.cc", D3 + "command_queue.cc", D3 + "dram_system.cc", D3 + "configuration.cc"],
     [("transaction queues and completion", D3 + "controller.cc"), ("address mapping", D3 + "configuration.cc AddressMapping")],
     ["MemorySystem::AddTransaction and callbacks", "command trace"],
     "exactly-once, latency and order monitors over requests, callbacks and the command trace, with sanitizer runs",
     "Held on the explored request streams. Reads can wait as long as a flood of writes lasts; that is not claimed otherwise.")
prop("P12", "DRAM statistics equal what the memory did",
     "The final and per-epoch statistics DRAMsim3 writes are the truth about the run: command, request, row-hit, write-buffer-hit and dual-issue counts, cycles each rank spent idle, active and asleep, "
     "energies and power from these counts and the power section, latency and inter-arrival histograms and averages, and bandwidth; epochs partition the run.",
     ["inputs", "histories", "configurations"],
     "all request streams, configurations, epoch lengths and numbers of channels and ranks",
     "No test reads a DRAM statistics file.",
     [D3 + "simple_stats.cc", D3 + "controller.cc", D3 + "configuration.cc", D3 + "dram_system.cc"],
     [("counters and derived values", D3 + "simple_stats.cc"), ("power parameters", D3 + "configuration.cc InitPowerParams")],
     ["dramsim3_<id>.json, dramsim3_<id>epoch.json"],
     "conservation checker: every statistic recomputed from the command trace and the request log",
     "Held on the explored runs. Energies are in V*mA*cycles.")
prop("P13", "The HMC model completes each request exactly once; its vaults obey DRAM rules",
     "Every read and write accepted by the hybrid-memory-cube model completes with exactly one callback of its kind and address whatever the number of links, block size and queue depths; nothing else completes and nothing is stuck. "
     "Its vaults obey bank states, timing and refresh rates, and its statistics are true.",
     ["inputs", "histories", "configurations"],
     "all request streams, link counts, widths and speeds, block sizes, crossbar queue depths and vault configurations",
     "No test uses an HMC configuration.",
     [D3 + "hmc.cc", D3 + "controller.cc", D3 + "configuration.cc"],
     [("links and crossbar", D3 + "hmc.cc DrainRequests/DrainResponses"), ("vault callbacks", D3 + "hmc.cc VaultCallback")],
     ["MemorySystem::AddTransaction and callbacks", "command trace of each vault", "statistics file"],
     "exactly-once monitor over callbacks, trace monitor per vault, statistics recomputation",
     "Held on the explored runs; completion times through the links are not modelled.")

prop("P14", "Transactions between RADs arrive exactly once, intact, in order and undisturbed",
     "In a cluster of RADs, every AXI-Stream transaction addressed to a port on another RAD is delivered exactly once at that port with the data, user and last values it was sent with, and transactions between one source and one destination port arrive in the order sent. "
     "Traffic inside each RAD, AXI-Stream and memory-mapped, is delivered as if the RAD were alone: exactly once, intact, in order, at the port addressed on the same RAD, whatever the other RADs, their configurations and their clocks do.",
     ["inputs", "schedules", "configurations"],
     "all cluster sizes and assignments of configurations to RADs, placements, clocks, flows inside and between RADs, latencies and bandwidths for which the inter-RAD slots suffice",
     "One test runs two RADs with one design, one direction of traffic and one packet at a time; other cluster sizes, contention between RADs, both directions at once and differing configurations never occur.",
     ["rad-sim/sim/portal.cpp", "rad-sim/sim/radsim_inter_rad.cpp", "rad-sim/sim/noc/axis_slave_adapter.cpp", "rad-sim/sim/design_context.cpp", "rad-sim/sim/noc/radsim_noc.cpp"],
     [("portal buffering", "rad-sim/sim/portal.cpp"), ("rewriting of destinations between RADs", "rad-sim/sim/radsim_inter_rad.cpp"), ("routing to the portal", "rad-sim/sim/noc/axis_slave_adapter.cpp")],
     ["tvalid/tready/tdata/tuser/tlast and AXI-MM channels at module ports of every RAD"],
     "randomised multi-RAD workloads on the real simulator, port-level event log, offline exactly-once/order/integrity checkers",
     "Held on the explored clusters only. Transactions between RADs address interface 0 of their node (the inter-RAD network carries no interface number).")

prop("P15", "The inter-RAD network has the configured latency, bandwidth and slots",
     "A transfer a portal hands to the inter-RAD network is presented to the destination RAD's portal after the configured latency (in driver cycles, rounded up), or later only behind earlier transfers to the same RAD, which leave in order of arrival, one per cycle. "
     "A RAD that keeps offering transfers has exactly the share of cycles accepted that the configured bandwidth allows, never more. A transfer is dropped only when the configured number of slots for its destination is taken, and every drop is reported.",
     ["inputs", "schedules", "configurations"],
     "all offered traffic patterns of all RADs; all latencies, bandwidths, slot counts and driver periods",
     "The one two-RAD test checks final data only and runs one latency, full bandwidth and more slots than it has transfers; cycle counts, throttling, queueing and overflow are never looked at.",
     ["rad-sim/sim/radsim_inter_rad.cpp", "rad-sim/sim/portal.cpp", "rad-sim/config.py"],
     [("latency counters, bandwidth window, slots", "rad-sim/sim/radsim_inter_rad.cpp"), ("conversion of latency and bandwidth to cycles", "rad-sim/config.py")],
     ["tvalid/tready/payload between the portals and the inter-RAD network, every driver cycle", "drop messages"],
     "cycle-by-cycle monitors at the portal boundary and an offline queue model that predicts each delivery's cycle",
     "Held on the explored clusters only. The portal must run at the driver's clock period.")

prop("P16", "A configuration file means what it says, for every RAD of the cluster",
     "For every valid config.yml, each RAD sees exactly the values of the configuration cluster_configs names for it and the shared NoC, adapter, interface and cluster values: knobs, BookSim configuration of each of its NoCs (topology, size, routing, VC range per packet type, buffers, allocators, delays), node counts, its design. "
     "The generated constants hold the configured widths, their id fields are wide enough and packet fields do not overlap; inter-RAD latency and bandwidth become the equivalent cycles. Files with unknown parameters, missing configurations or unsupported NoC settings are refused.",
     ["inputs", "configurations"],
     "all combinations of sections in any order, numbers of RADs, configurations, designs and NoCs, values and omitted (defaulted) parameters",
     "The tests configure the shipped examples only: one NoC, one or two RADs in order, mostly equal values.",
     ["rad-sim/config.py", "rad-sim/sim/radsim_config.cpp", "rad-sim/sim/radsim_config.hpp", "rad-sim/sim/noc/booksim/config_utils.cpp", "rad-sim/sim/noc/booksim/booksim_config.cpp"],
     [("generation of knobs, NoC files, header and main.cpp", "rad-sim/config.py"), ("knob parser", "rad-sim/sim/radsim_config.cpp ParseRADSimKnobs")],
     ["RADSimConfig and BookSimConfig values, radsim_defines.hpp, systems constructed by main.cpp"],
     "random configuration files through the real generator and parsers; monitors in a probe design report every value seen, compared with the YAML",
     "Held on the explored configurations. Trace names without blanks; config.py's own default values are taken as specified.")

prop("P17", "The NoCs of a RAD work independently of each other",
     "In a RAD with several NoCs, whatever their sizes, clocks, widths, buffers, delays and adapters, traffic on each NoC keeps its guarantees whatever happens on the others: every transaction offered at a port reaches exactly the addressed port on the same NoC once, "
     "intact and in order per source and destination, memory-mapped requests get their responses, and nothing hangs or appears on another NoC. A module may have ports on several NoCs.",
     ["inputs", "schedules", "configurations"],
     "all combinations of NoC parameters, placements, traffic and back-pressure of 2 and 3 NoCs",
     "Every example and test has one NoC; the second was never built.",
     ["rad-sim/sim/noc/radsim_noc.cpp", "rad-sim/sim/design_context.cpp", "rad-sim/sim/noc/booksim/networks/network.cpp", "rad-sim/config.py", "rad-sim/sim/noc/noc_utils.cpp"],
     [("connection of ports to NoCs", "rad-sim/sim/design_context.cpp BuildDesignContext, CreateSystemNoCs, ConnectModulesToNoC"), ("routing state of a network", "rad-sim/sim/noc/booksim/networks/network.cpp SelectForRouting")],
     ["every handshake of every module port"],
     "randomised workloads on RADs with 2-3 NoCs, port-level event log, offline exactly-once/order/integrity/response checkers",
     "Held on the explored RADs only; preconditions as for P01 and P02.")

prop("P18", "Statistics, traffic flows, traces and logs report what happened",
     "The transaction statistics have one line for every transfer a NoC port accepted, with its NoC, nodes, width, the hops of its route, and its true times: initiation and receipt are those of the ports' handshakes, the others lie between them in order and on edges of the clock they belong to. "
     "Traffic flows and aggregate bandwidths of a RAD are those of its own transactions. Trace files list the cycle of each recorded event, the simulation cycle is exact for every driver period, and the log shows exactly the messages the verbosity asks for.",
     ["inputs", "schedules", "configurations"],
     "all traffic, NoC parameters, clock and driver periods, numbers of RADs, traces and verbosities",
     "Tests never read the statistics; only a design's own console output is compared, at one driver period.",
     ["rad-sim/sim/radsim_telemetry.cpp", "rad-sim/sim/radsim_utils.cpp", "rad-sim/sim/noc/axis_slave_adapter.cpp", "rad-sim/sim/noc/axis_master_adapter.cpp", "rad-sim/sim/noc/aximm_slave_adapter.cpp", "rad-sim/sim/noc/aximm_master_adapter.cpp"],
     [("recording and dumping", "rad-sim/sim/radsim_telemetry.cpp"), ("where the adapters record", "rad-sim/sim/noc/*_adapter.cpp"), ("simulation cycle", "rad-sim/sim/radsim_utils.cpp GetSimulationCycle")],
     ["port handshakes with times", "stats.csv, traffic flow files, sim.trace, sim.log, console"],
     "port monitors record every handshake; an offline checker compares every line of the simulator's own reports with them",
     "Held on the explored runs. Times are compared at the six significant digits the file has. AXI-MM packetization times are only ordered after initiation, because those adapters inject while the modelled packetization is still running.")

prop("P19", "The example designs compute what their models mean, and their verdicts are true",
     "For every model shape an example design's compiler accepts, every weight and input, and any placement, NoC, adapter and clock settings, the design's outputs are those of the model its data files describe, in order, and the golden file says the same. "
     "The driver reports success with exit status 0 exactly when every element of every output equals the golden file, and failure with a nonzero status otherwise; every run ends.",
     ["inputs", "configurations"],
     "all layer counts, layer sizes and units per layer (mlp, mlp_int8 with any mix of SystemC and RTL units), all embedding tables (dlrm, dlrm_two_rad), weights, inputs, placements, NoC/adapter/clock settings",
     "Each design is tested with one shape, one seed range and one configuration, and the tests trust the verdict of the design's own driver.",
     ["rad-sim/example-designs/mlp", "rad-sim/example-designs/mlp_int8", "rad-sim/example-designs/dlrm", "rad-sim/example-designs/dlrm_two_rad", "rad-sim/example-designs/add", "rad-sim/example-designs/mult"],
     [("matrix-vector units", "rad-sim/example-designs/mlp/modules/mvm.cpp, mlp_int8/modules/rtl_mvm.cpp"), ("embedding lookup and feature interaction", "rad-sim/example-designs/dlrm/modules"),
      ("compilers", "rad-sim/example-designs/*/compiler"), ("comparison with the golden file", "rad-sim/example-designs/*/*_driver.cpp sink")],
     ["compiler data files and golden file", "the driver's verdict and the exit status"],
     "random models compiled by the tree's compilers and simulated on the real designs; golden files recomputed independently from the data files; verdicts monitored on true and on falsified golden files",
     "Held on the explored models only. Shapes are those that fit the design's NoC; dlrm's total vector width is a multiple of 32 as its compiler requires.")

prop("P20", "Modules sit and are clocked where the placement and clock files say",
     "Every port is attached to the NoC and node its line in the placement file names, whether the line names the port or its whole module, in whatever order the lines come and however many modules share a node; the ports of a node have distinct, dense interface numbers that GetPortInterfaceID reports and that traffic follows. "
     "Every module and its adapters run on the clocks its line in the clock file names. A placement that leaves out a port, names a module that does not exist, or puts an AXI-MM port on a used node ends the simulation with an error before it starts.",
     ["inputs", "configurations"],
     "all placement and clock files of designs with AXI-S modules sharing nodes or spread over nodes and NoCs, and AXI-MM modules",
     "Each example has one placement file in one style and one order; no test moves a module or breaks a file.",
     ["rad-sim/sim/design_context.cpp", "rad-sim/sim/radsim_module.cpp", "rad-sim/sim/noc/radsim_noc.cpp"],
     [("placement file", "rad-sim/sim/design_context.cpp ParseNoCPlacement"), ("clock file", "rad-sim/sim/design_context.cpp ParseClockSettings"), ("adapters of a node", "rad-sim/sim/design_context.cpp BuildDesignContext"), ("connection", "rad-sim/sim/design_context.cpp ConnectModulesToNoC")],
     ["port handshakes with times", "stats.csv nodes and times", "GetPortPlacement, GetPortDestinationID, GetPortInterfaceID", "exit status and message"],
     "random placement and clock files on the real simulator; port monitors and the simulator's transaction records compared with the files; impossible files must be refused",
     "Held on the explored systems only; modules that share a node have the same clocks (documented restriction).")

prop("P21", "A simulation depends on its inputs only",
     "Two runs of one system with the same configuration, placement, clocks and traffic give the same result: every handshake of every port at the same picosecond, the same end and exit status, and statistics, traffic flow, trace and log files and console output equal byte by byte, "
     "whatever the process's environment, directory, heap layout and the former contents of the memory it allocates.",
     ["inputs", "configurations"],
     "all systems and traffic; all contents of fresh memory and address space layouts",
     "A test runs a design once and looks at its verdict; results that depend on uninitialised memory or on addresses mostly look plausible.",
     ["rad-sim/sim", "rad-sim/sim/noc/booksim", "rad-sim/sim/radsim_telemetry.cpp", "rad-sim/sim/radsim_inter_rad.cpp"],
     [("NoC simulation", "rad-sim/sim/noc/booksim"), ("adapters", "rad-sim/sim/noc/*_adapter.cpp"), ("system", "rad-sim/sim/design_context.cpp, radsim_inter_rad.cpp")],
     ["port handshakes with times", "all files written, console, exit status"],
     "every random system is run again with perturbed heap contents and layout, another directory and environment; event logs and all outputs compared byte by byte",
     "Held on the explored systems and perturbations only. Designs whose drivers seed themselves from the time of day (add, mult) are excluded.")

prop("P22", "No valid simulation does anything undefined",
     "From the construction of a system to its destruction, a simulation of a valid configuration never reads or writes outside its objects or after their life, never overflows signed integers or executes other undefined behaviour, and ends without assertion failure, signal or exception and with status 0: "
     "with any number of NoCs and RADs, all statistics, traces and logs, AXI-S and AXI-MM traffic, and the shipped example designs with any model.",
     ["inputs", "schedules", "configurations"],
     "all configurations, traffic and models; all orders in which modules, adapters, NoCs and RADs are destroyed",
     "The tests are not instrumented, and most bad accesses change nothing that they look at.",
     ["rad-sim/sim", "rad-sim/example-designs"],
     [("simulator core", "rad-sim/sim"), ("BookSim", "rad-sim/sim/noc/booksim"), ("examples", "rad-sim/example-designs/mlp, mlp_int8, add, mult, dlrm, dlrm_two_rad")],
     ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "assertions, signals, exit status"],
     "everything rebuilt with ASan and UBSan (SystemC excepted) and run on random systems and models; any report, signal, assertion or abnormal exit is a violation",
     "Held on the explored runs only. SystemC itself is not instrumented and leaks are not judged. Memcheck and MemorySanitizer cannot follow SystemC's coroutine stacks; reads of uninitialised heap memory are P21's.")

prop("P23", "The RTL scripts connect every Verilog pin to the signal its name asks for",
     "generate_port_mappings.py lists every port of every module of the given Verilog files exactly once, with its direction and its width, or with '?' and a warning when the width cannot be read off the declaration, never with a wrong one; ports named axis_<name>_<signal> and aximm_<name>_<signal> "
     "become one interface each, whose role (master or slave) follows from the pins' directions; an existing map is only overwritten with consent. generate_wrapper.py refuses maps with unknown widths, contradictory roles or malformed lines, and from any other map makes a RAD-Sim module that compiles against the Verilated model, "
     "connects each pin to the mapped signal or interface field, and registers each interface under its own name, kind and role with the data width the user entered.",
     ["inputs"],
     "all modules in the supported style: ANSI and non-ANSI headers, shared declarations, net types, ranges, parameters, comments anywhere, names that contain keywords, any set of AXI-S and AXI-MM interfaces with any subset of signals in any order",
     "No test runs the scripts, and the RTL examples are not part of the tested builds.",
     ["rad-sim/scripts/generate_port_mappings.py", "rad-sim/scripts/generate_wrapper.py", "rad-sim/scripts/verilog_parser.py", "rad-sim/scripts/minilexer.py", "rad-sim/sim/radsim_module.cpp"],
     [("port maps", "rad-sim/scripts/generate_port_mappings.py"), ("wrappers", "rad-sim/scripts/generate_wrapper.py"), ("registration", "rad-sim/sim/radsim_module.cpp")],
     ["port.map", "signals of the built wrapper", "module's registered ports"],
     "random Verilog modules through the real scripts, maps compared with the declarations (and these with Verilator's own parser); wrappers built around Verilated modules, every pin driven with random values and every output compared with the module's function each cycle",
     "Held on the explored modules only. Excluded: functions and tasks, keywords in strings, multidimensional ports (documented limits of the parser), wrappers of modules without NoC interface.")

prop("P24", "A simulation ends when every RAD is done; its exit status tells of failures",
     "A simulation goes on, for all its RADs, until the driver of every RAD has declared its RAD done, in whatever order they do and however early some of them are; the traffic of and through RADs that are done is still delivered. It ends at most one nanosecond of simulated time after the last one and reports the cycles of the driver clock that passed. "
     "Its exit status is nonzero exactly if the design of at least one RAD reported a failure, however often, whichever RAD, and however long before the end.",
     ["schedules", "inputs", "configurations"],
     "all numbers of RADs, orders and times of their ends, and failures; single RADs too",
     "The tests run one design that ends once and passes.",
     ["rad-sim/config.py", "rad-sim/sim/radsim_cluster.cpp", "rad-sim/sim/design_context.cpp"],
     [("main loop and exit status", "rad-sim/config.py generate_radsim_main"), ("all done", "rad-sim/sim/radsim_cluster.cpp AllRADsNotDone"), ("failures", "rad-sim/sim/design_context.cpp ReportDesignFailure")],
     ["drivers' ends and failures", "module ports", "exit status and reported cycles"],
     "random clusters whose drivers finish and fail at random times; event log, console and exit status compared with the drivers' own record",
     "Held on the explored scenarios only. The simulation advances in steps of one nanosecond.")

prop("P25", "Ports, adapters and clocks cost exactly the time they are configured to cost",
     "A transfer that meets no other passes every stage between the sending and the receiving module at the first edges of that stage's clock that allow it: its flits are packed one per adapter cycle, injected at the NoC's next edge, cross the NoC in the configured delays per hop plus one switch-allocation delay per further flit, are unpacked one per adapter cycle and offered and taken at the receiver's next two edges. "
     "A stream on buffers deeper than the credit loop moves one transfer in exactly the time its slowest stage takes: the module clock (two cycles for memory-mapped data), the adapter clock per flit, or the NoC's routing, VC-allocation and per-flit switch-allocation delays. Multiplying every clock period (and inter-RAD latency) by a constant multiplies the time of every event by it and changes nothing else.",
     ["inputs", "configurations"],
     "all clock ratios, delays, widths, distances and traffic",
     "The tests look at results and total cycles of two fixed designs at most, not at the cycles of a stage.",
     ["rad-sim/sim/noc/axis_slave_adapter.cpp", "rad-sim/sim/noc/axis_master_adapter.cpp", "rad-sim/sim/noc/aximm_slave_adapter.cpp", "rad-sim/sim/noc/aximm_master_adapter.cpp", "rad-sim/sim/radsim_utils.cpp"],
     [("packetization and injection", "rad-sim/sim/noc/axis_slave_adapter.cpp InputPacketization, InputInjection"), ("ejection, unpacking and output", "rad-sim/sim/noc/axis_master_adapter.cpp OutputEjection, OutputDepacketization, OutputInterface"), ("cycles of a clock", "rad-sim/sim/radsim_utils.cpp GetSimulationCycle")],
     ["stage times in the statistics", "module ports"],
     "isolated transfers timed stage by stage against the clocks' edges, rates of streams, and pairs of runs whose clock periods differ by a factor, compared event by event",
     "Held on the explored scenarios only. Where two clocks have an edge at the same instant, either stage may come first. Memory-mapped stages are timed for reads; DRAM time is not scaled.")


prop("P26", "A DRAM channel loses no cycle in which a wanted command is legal",
     "Outside refreshes, a channel issues a command in every cycle in which the next command of any request in its command queues is legal: the column access if the row is open, the activate if the bank is closed, the precharge if another row is open and no earlier request of the bank nor a row hit (within the limit of four) stands before it, the exit if the rank sleeps. Requests enter the command queues one per cycle, in order, as long as these have room. "
     "Reads (and writes) of one row are served in the order they came, and a request is only refused when its transaction queue holds as many as the configuration allows.",
     ["inputs", "histories", "configurations"],
     "all request patterns, loads, mappings, page policies, queue structures and timing parameters",
     "A lost cycle changes no result, only the simulated performance, which no test checks.",
     [D3 + "command_queue.cc", D3 + "controller.cc", D3 + "channel_state.cc", D3 + "timing.cc", D3 + "bankstate.cc"],
     [("choice of the command", D3 + "command_queue.cc GetCommandToIssue, ArbitratePrecharge"), ("scheduling and acceptance", D3 + "controller.cc ScheduleTransaction, WillAcceptTransaction"), ("earliest cycles", D3 + "timing.cc")],
     ["command trace of each channel", "accepted and refused requests"],
     "offline monitor over the command trace: in each idle cycle the earliest legal cycle of every waiting request's next command is recomputed from the configuration file",
     "Held on the explored runs. Cycles in which a refresh may be waiting are left out; writes are judged where reads and writes share one queue (a write buffer may hold them back).")

prop("P27", "Packets share a contended link by turns without waste; others do not delay them",
     "When several sources keep sending equally long packets of one or more types over one link of the NoC, the link moves one flit per cycle but for the cycle(s) a virtual channel needs to pass to the next packet, and (with one virtual channel per type and islip, separable or select allocators) "
     "each source, and each packet type of a source, gets an equal share. Packets of a flow that shares no link with others enter, cross and leave the NoC in exactly the cycles in which they would without the others.",
     ["inputs", "schedules", "configurations"],
     "all sets of contending sources, packet lengths, numbers of types, allocators, arbiters, topologies and pipeline delays, and all traffic elsewhere",
     "An unfair or idle link changes only the performance that a simulation reports, and only under contention; the tests look at results of nearly idle designs.",
     [BSF + "routers/iq_router.cpp", BSF + "allocators/", BSF + "arbiters/", BSF + "buffer_state.cpp"],
     [("switch and VC allocation", BSF + "routers/iq_router.cpp _VCAllocEvaluate, _SWAllocEvaluate, _sw_rr_offset"), ("turn taking", BSF + "arbiters/*.cpp")],
     ["cycle in which each packet enters and leaves the network, its source and type"],
     "rates and shares counted at the saturated link; packet times compared with those of a run with the flow alone",
     "Held on the explored settings: one-cycle VC and switch allocation, buffers deeper than the credit loop. Undisturbed flows are compared on dimension-order meshes with one virtual channel per type.")
