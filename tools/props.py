"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/gen.py` after editing."""
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None, technique='bounded symbolic execution of the real code (LLVM IR) with Z3', level='model_checking', note=''):
    P.append(dict(j=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook, **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))), technique=technique, level=level, note=note))
SIMD = 'rad-sim/sim/'
NOC = 'rad-sim/sim/noc/'
prop('P01', 'Streams cross the NoC exactly once, in order and unchanged',
 'A beat a module offers on an AXI-S port is delivered to the slave port its destination and interface name, exactly once and with data, user, last and destination unchanged; nothing else appears on any port. Beats from one port to another over a NoC with one virtual channel per packet type arrive in the order sent. Every offered beat is eventually accepted and delivered once the receivers become ready, whatever congestion built up. An offered beat stays unchanged until taken. This holds for ports sharing a node or an adapter, for module, adapter and NoC clocks in any ratio, and for mesh and torus networks, as long as a packet fits in the NoC and adapter buffers.',
 ['schedules', 'inputs', 'configurations'], 'every traffic pattern up to the stated number of cycles with symbolic data, valid, ready and destination, over several NoC configurations and placements', 'The design tests run one placement at one clock ratio with receivers that are almost always ready, so a lost credit, a reordered flit or a wrong interface never shows.',
 [NOC + 'axis_slave_adapter.cpp', NOC + 'axis_master_adapter.cpp', NOC + 'radsim_noc.cpp', SIMD + 'design_context.cpp', NOC + 'noc_utils.cpp'], [('packetization and injection', NOC + 'axis_slave_adapter.cpp'), ('ejection, depacketization and output', NOC + 'axis_master_adapter.cpp'), ('credit return', NOC + 'radsim_noc.cpp')], ['AXI-S ports of the modules'])
prop('P02', 'AXI-MM transactions cross the NoC once, complete and to the right port',
 'Every read request, write request, write data beat, read response and write response a module hands to its AXI-MM port is delivered exactly once, with every field (id, address, burst length, size and type, data, response, last, user) unchanged, to the port its address or user field names; nothing else appears on any port. Write data goes to the slave its own write request named. Between one pair of ports each channel keeps its order (one virtual channel per packet type). Every accepted beat is eventually delivered once the receivers become ready. This holds for receivers that take a beat already under way when they lower ready, an adapter clock faster than the module clock, and packets that fit in the NoC and adapter buffers.',
 ['schedules', 'inputs', 'configurations'], 'every traffic pattern of up to two masters and two slaves within the stated number of transactions, with symbolic fields and destinations, over several NoC configurations', 'The only design tests with AXI-MM ports use one payload width, one clock ratio and zero burst fields, and memory that is always ready.',
 [NOC + 'aximm_master_adapter.cpp', NOC + 'aximm_slave_adapter.cpp', NOC + 'radsim_noc.cpp', NOC + 'noc_utils.cpp', SIMD + 'design_context.cpp'], [('request packetization', NOC + 'aximm_slave_adapter.cpp'), ('response packetization', NOC + 'aximm_master_adapter.cpp'), ('destination decode', SIMD + 'design_context.cpp')], ['AXI-MM ports of the modules'])
prop('P03', 'The RAD portal passes every beat unchanged and in order',
 'A portal takes every beat its RAD\'s NoC or the inter-RAD network hands it (it is always ready) and offers each of them on the other side exactly once, in the order taken, with data, destination, user and last fields unchanged. It keeps offering a beat until it is accepted, never offers one it was not given, and offers a buffered beat without delay. The two directions do not disturb each other.',
 ['schedules', 'inputs'], 'every pattern of valid and ready on both sides, with symbolic data, up to the stated number of cycles', 'The two-RAD test streams one pattern into a receiver that rarely stalls.',
 [SIMD + 'portal.cpp', SIMD + 'portal.hpp'], [('portal tick and fifos', SIMD + 'portal.cpp')], ['AXI-S ports of the portal'])
prop('P04', 'Beats between RADs arrive once, in order, at the configured latency and rate',
 'Every beat a RAD sends while the inter-RAD network is ready reaches the RAD its destination names exactly once, with data, user and last fields unchanged and its remote-node field moved to the local node. Beats between one pair of RADs keep their order, whatever the other RADs send. No beat arrives before the configured latency or is held back beyond that latency and the beats ahead of it. A sender is accepted in exactly the configured number of cycles of every bandwidth window.',
 ['schedules', 'inputs', 'configurations'], 'every pattern of sends from up to three RADs with symbolic data and destination, for several latencies and bandwidths', 'The only multi-RAD test uses one sender, one latency and one bandwidth.',
 [SIMD + 'radsim_inter_rad.cpp', SIMD + 'radsim_inter_rad.hpp'], [('latency counters and delivery', SIMD + 'radsim_inter_rad.cpp'), ('bandwidth throttle', SIMD + 'radsim_inter_rad.cpp')], ['AXI-S ports of the network'])
BK = 'rad-sim/sim/noc/booksim/'
prop('P10', 'Every routing function delivers every packet, and none can deadlock',
 'In every NoC topology the simulator offers, with every routing function registered for it, a packet injected at any node for any node leaves the network only at that node, within a bounded number of hops, and with the minimal routing functions over a shortest path, whatever the random numbers, router loads and choices among the offered outputs and virtual channels are. An output is always offered, it exists, and the offered virtual channels belong to the packet\'s type (the chaos and dragonfly functions do not tell types apart). Packets can never wait for each other in a circle of channels (for the minimal adaptive functions: in a circle of escape channels, one of which is always offered and which are left only for escape channels; not claimed for the chaos functions and irregular networks). A network has the configured number of nodes, and every link connects one output to one input with its credit link running back between the same two ports.',
 ['inputs', 'configurations'], 'every source, destination, packet type, random choice, router load, output and virtual channel choice, for small instances of each topology and routing function', 'The design tests use one mesh with one routing function; a route that is wrong, or a circle of waits, needs a particular pair of nodes, random choice or set of packets.',
 [BK + 'routefunc.cpp', BK + 'networks/kncube.cpp', BK + 'networks/cmesh.cpp', BK + 'networks/flatfly_onchip.cpp', BK + 'networks/dragonfly.cpp', BK + 'networks/tree4.cpp', BK + 'networks/qtree.cpp', BK + 'networks/fattree.cpp', BK + 'networks/fly.cpp', BK + 'networks/anynet.cpp', BK + 'network.cpp'], [('routing functions', BK + 'routefunc.cpp'), ('topology construction', BK + 'networks/kncube.cpp')], ['outputs and virtual channels a routing function offers', 'links of the constructed network'])
prop('P09', 'Every allocator grants a valid matching and every arbiter is fair',
 'Whatever is requested, and whatever was requested before, a NoC allocator grants each input at most one output and each output at most one input, grants only what was requested and grants something when something is requested; requests and their labels stay as made. Wavefront allocators and iSLIP, select and PIM given enough iterations leave no request between a free input and a free output, and the maximum-size allocator grants as many as possible. Except for PIM, max_size and loa, a request kept up beside an unchanging set of others is granted within a bounded number of rounds. Separable, select and wavefront allocators respect priorities: a request above all others of its input and of its output is granted. An arbiter picks exactly one of its requesters and returns its label, never passes over a higher priority, and does not pass over a waiting requester more often than it has inputs.',
 ['inputs', 'histories'], 'every request matrix with symbolic labels and priorities over the stated number of rounds and sizes, for every registered allocator and arbiter', 'The design tests run one allocator (islip, or separable) under one traffic pattern and only look at the end result; an illegal or unfair match shows as a lost flit or a hang under a rare request history.',
 [BK + 'allocators/' + x for x in ('allocator.cpp', 'islip.cpp', 'pim.cpp', 'loa.cpp', 'maxsize.cpp', 'selalloc.cpp', 'wavefront.cpp', 'separable.cpp', 'separable_input_first.cpp', 'separable_output_first.cpp')] + [BK + 'arbiters/' + x for x in ('arbiter.cpp', 'roundrobin_arb.cpp', 'matrix_arb.cpp', 'tree_arb.cpp', 'prio_arb.cpp')], [('allocation', BK + 'allocators/islip.cpp'), ('wavefront', BK + 'allocators/wavefront.cpp'), ('arbitration and priority pointer', BK + 'arbiters/roundrobin_arb.cpp'), ('maximum matching', BK + 'allocators/maxsize.cpp')], ['matching read from the allocator', 'winner returned by the arbiter'])
prop('P12', 'A router passes every flit on once, in order and only with credit',
 'Every flit that enters an input-queued router leaves it exactly once and unchanged, at the output its routing function chose and on a virtual channel it offered. The flits of a packet stay together, in order, on one output virtual channel, where packets never interleave; packets from one input virtual channel leave in the order they came. The router never sends into a full downstream buffer, whichever buffer sharing policy is set, returns exactly one credit per flit and no earlier than there is room, and with tail credits on does not reuse a virtual channel before its buffer is empty. A packet is not held up by other virtual channels that lack credits. An unhindered packet takes exactly the configured number of cycles, and nothing is faster. All of this holds for every allocator, pipeline depth, speculation with single-cycle allocators, lookahead, speedup, output buffer, priority and buffer policy setting.',
 ['schedules', 'inputs', 'configurations'], 'every pair of packets (three for one virtual channel) with symbolic input, virtual channel, output, length, gap and downstream stall, for each router setting', 'The design tests run one router setting at a light load, and a lost credit or interleaved packet needs a particular contention pattern; NoC tests cannot see router latency.',
 [BK + 'routers/iq_router.cpp', BK + 'routers/router.cpp', BK + 'buffer_state.cpp', BK + 'buffer.cpp', BK + 'vc.cpp', BK + 'flitchannel.cpp', BK + 'channel.hpp', BK + 'credit.cpp', BK + 'outputset.cpp'], [('pipeline stages and credits', BK + 'routers/iq_router.cpp'), ('downstream buffer accounting and sharing policies', BK + 'buffer_state.cpp'), ('channel latency', BK + 'channel.hpp')], ['output channels of the router', 'credit channels'])
prop('P14', 'Telemetry records describe every NoC transaction truthfully',
 'For every beat a module hands to the NoC there is exactly one transaction record, and it names the source and destination nodes, the NoC, the transaction type and the width of the sending port. Its initiation time is the clock edge at which the beat was accepted, its receipt time the edge at which the receiver took it (for AXI-MM, at most one receiver cycle earlier), its latency the difference, and the times in between (packetization, injection, ejection, depacketization) are all recorded and follow the way of the beat; its hop count is the number of routers on the shortest route. The dumped statistics list exactly these records and the dumped traffic flows and aggregate bandwidth (bits times links per second) follow from them. The trace recorder dumps, for each trace, the simulation cycles of exactly its own events.',
 ['schedules', 'inputs', 'configurations'], 'every traffic pattern up to the stated number of cycles with symbolic data, valid, ready and destination, over several NoC configurations and placements', 'The tests only look at the end result of a design; nothing compares a record with the beat it describes.',
 [SIMD + 'radsim_telemetry.cpp', SIMD + 'radsim_utils.cpp', NOC + 'axis_slave_adapter.cpp', NOC + 'axis_master_adapter.cpp', NOC + 'aximm_slave_adapter.cpp', NOC + 'aximm_master_adapter.cpp'], [('transaction bookkeeping', SIMD + 'radsim_telemetry.cpp'), ('recording points', NOC + 'axis_master_adapter.cpp')], ['transaction records after the run', 'dumped statistics, flow and trace files'])
DR = 'rad-sim/sim/dram/DRAMsim3/src/'
prop('P15', 'Memory addresses decode to distinct, in-range locations as configured',
 'For every memory configuration shipped with the simulator, every physical address is decoded to a channel, rank, bank group, bank, row and column that lie inside the configured device and occupy exactly the address bits, in the order the configured mapping string lists (least significant field last, above the burst offset). Two addresses decode to the same location only if they differ in nothing but the burst offset or bits above the capacity. Splitting an address into a memory channel and using it through the memory controller never changes which location it names.',
 ['inputs', 'configurations'], 'every 64-bit address, for each shipped memory configuration file and mapping string', 'The tests drive a handful of addresses through two configurations; aliasing needs specific address pairs.',
 [DR + 'configuration.cc', DR + 'configuration.h'], [('address mapping setup', DR + 'configuration.cc'), ('decode', DR + 'configuration.cc')], ['decoded address of a request'])
prop('P16', 'DRAM commands respect every configured minimum timing distance',
 'For every sequence of requests and controller commands, the memory model issues a command to a bank only when every configured minimum distance (column-to-column, activate, precharge, refresh, read/write turnaround, four-activate window, self-refresh entry and exit) to all earlier commands on the same bank, bank group, rank and channel has passed. Commands are only sent to banks whose state permits them: columns to the open row, activates to closed banks, refresh and self refresh to idle banks. A command that all distances permit is not held back by the timing model itself.',
 ['histories', 'configurations'], 'every command sequence up to the stated length from an idle device, over several device types and timing profiles', 'No existing test looks at DRAM command timing at all; the HMC test only counts completions.',
 [DR + 'timing.cc', DR + 'channel_state.cc', DR + 'bankstate.cc', DR + 'configuration.cc'], [('timing table', DR + 'timing.cc'), ('per-bank state machine', DR + 'bankstate.cc'), ('activation windows', DR + 'channel_state.cc')], ['commands issued by the channel, with their cycle'])
prop('P17', 'Each memory transaction completes exactly once and in hazard order',
 'Every read or write accepted by the memory system is reported complete exactly once, for its own address and kind, within a bounded time, whatever the arrival pattern, queue structure, row-buffer policy, refresh policy or self-refresh setting. Every column access at the device belongs to an accepted transaction and goes to the location its address decodes to, and a read completes only after its column access has finished or from a still-buffered write of its address. Accesses to the same address reach the device in the order they were accepted.',
 ['histories', 'schedules', 'configurations'], 'every short request sequence with symbolic kind, address and arrival gap, under each queue structure and policy', 'The end-to-end tests issue a fixed access pattern; reordering, write drain, refresh and self-refresh interactions need particular arrival histories.',
 [DR + 'controller.cc', DR + 'command_queue.cc', DR + 'dram_system.cc', DR + 'memory_system.cc', DR + 'refresh.cc'], [('transaction scheduling', DR + 'controller.cc'), ('command scheduling', DR + 'command_queue.cc')], ['read and write completion callbacks', 'commands at the device'])
prop('P19', 'Every rank or bank is refreshed at the configured rate',
 'While a rank is not in self refresh, every rank (or, under the per-bank policy, every bank) receives refresh commands at the configured average interval, deferred only by a bounded amount, whatever the request traffic. Refreshes are neither dropped nor duplicated under the simultaneous, staggered and per-bank policies.',
 ['histories', 'configurations'], 'every short request history over several refresh intervals, under each refresh policy', 'No existing test observes refresh.',
 [DR + 'refresh.cc', DR + 'controller.cc', DR + 'command_queue.cc'], [('refresh generator', DR + 'refresh.cc'), ('refresh priority', DR + 'command_queue.cc')], ['refresh commands at the device'])
prop('P20', 'The memory controller answers every request once with the right data',
 'Each read request a memory controller channel accepts is answered by exactly its beats, in request order, the last one marked, all with the request\'s user field. Every write burst is answered once, in order, with the user field of its last data beat. A read beat carries a value its word had at some point from the acceptance of the request to the response: the initial value only while no write to the word had been answered before the request, and never a value overwritten by a later write that had been answered before it. Every request is eventually accepted and answered, whatever stalls the response ports saw; channels do not disturb each other. This holds for queues of more than 16 entries, word-aligned bursts, beats wider than the memory word, write data before or after its request, and requesters that, as the NoC adapters do, offer a beat for one cycle after a cycle with ready.',
 ['histories', 'schedules', 'configurations'], 'every traffic pattern of a few reads and writes with symbolic data, address, length and arrival, over several memory configurations', 'The design test writes once, then reads, through one configuration, with a requester that is never slow.',
 [SIMD + 'dram/mem_controller.cpp', SIMD + 'dram/mem_controller.hpp', SIMD + 'dram/DRAMsim3/src/controller.cc'], [('request queues', SIMD + 'dram/mem_controller.cpp'), ('completion callbacks', SIMD + 'dram/mem_controller.cpp')], ['AXI-MM ports of the controller'])
EXD = 'rad-sim/example-designs/'
prop('P21', 'Hardware FIFOs deliver every word once, in order, with truthful flags',
 "Each example design's FIFO outputs exactly the words pushed, in order, with no loss, duplication or corruption as long as it is not pushed when full or popped when empty. Its empty, almost-empty, full and almost-full flags always describe its occupancy, and reset empties it completely; width-converting FIFOs join or split words in order without dropping parts.",
 ['histories', 'inputs'], 'every sequence of push, pop and reset with symbolic data up to the stated number of cycles', 'The design tests stream a single pattern that never fills, underflows or resets a FIFO mid-run.',
 [EXD + 'add/modules/fifo.cpp', EXD + 'mult/modules/fifo.cpp', EXD + 'mlp/modules/fifo.cpp', EXD + 'mlp_int8/modules/fifo.cpp', EXD + 'dlrm/modules/fifo.cpp', EXD + 'dlrm/modules/afifo.cpp'], [('FIFO tick', EXD + 'mlp/modules/fifo.cpp')], ['FIFO output ports each cycle'])
prop('P22', 'Register files return the last value written to each address',
 "Each example design's register file returns, for an enabled read, the value most recently written to that address (or its initial value), one read never disturbs another address, and out-of-order combinations of read, write and reset never return data of a different address.",
 ['histories', 'inputs'], 'every sequence of reads and writes with symbolic address and data up to the stated number of cycles', 'Design tests load each register file once before use and only read.',
 [EXD + 'mlp/modules/register_file.cpp', EXD + 'dlrm/modules/register_file.cpp', EXD + 'mlp_int8/modules/register_file.cpp', EXD + 'npu/modules/register_file.cpp'], [('register file tick', EXD + 'mlp/modules/register_file.cpp')], ['read data port'])
prop('P23', 'Matrix-vector units compute what their program says and lose nothing',
 "A matrix-vector unit of the mlp, dlrm, dlrm_two_rad or mlp_int8 design takes instructions, matrix rows, input and reduction vectors and sends, in program order, exactly the released results: the product of the named matrix with the next input vector plus, where the instruction says so, the next reduction vector and the named accumulator, in the arithmetic of the design's element width. Each result goes to the destination its instruction names, marked as a reduction vector exactly if it stays in its layer. Input, reduction and matrix words are used once each as the program says. Whatever the receiver's ready signal does and however many inputs wait, no vector is lost or repeated and none is held back for good. This holds when vectors are equal or zero. Accumulators are read only after a program has written them and the program precedes the inputs.",
 ['histories', 'inputs', 'schedules'], 'every program of the stated length (reduction, accumulation, release, last, address and destination fields symbolic), symbolic vector and matrix elements, ready patterns and gaps; long runs that fill every FIFO', 'The design tests run one generated network each; stalls, equal or zero vectors, other programs and full FIFOs do not occur in them.',
 [EXD + 'mlp/modules/mvm.cpp', EXD + 'dlrm/modules/mvm.cpp', EXD + 'dlrm_two_rad/modules/mvm.cpp', EXD + 'mlp_int8/modules/sysc_mvm.cpp', EXD + 'mlp_int8/modules/datapath.cpp'], [('mvm::Tick and Assign', EXD + 'mlp/modules/mvm.cpp'), ('sysc_mvm', EXD + 'mlp_int8/modules/sysc_mvm.cpp')], ['tx_interface data, user and destination'])
prop('P24', 'Example designs move lookups, features and vectors without loss or mix-up',
 "The data movers of the dlrm, dlrm_two_rad, mlp and mlp_int8 designs keep every item. An embedding lookup unit requests each lookup it took exactly once, per channel in order and numbered in order, at the base address of the channel's memory plus the table base plus the index, with the channel's feature port as the return address, and keeps a request unchanged until it is taken. A feature interaction unit (both kinds) executes its program over the words that arrive on its channels: each vector holds exactly the elements or slices the instructions select, words are used up only where the program says so, vectors go to the first layer's units in turn and wait unchanged until taken, and the responses received are counted. A collector or dispatcher passes vectors on unchanged and in order, a dispatcher to its own unit. This holds for any timing of the neighbours, for full queues and for equal or zero vectors. Read beats arrive as the NoC adapters send them, or are held until ready.",
 ['histories', 'inputs', 'schedules'], 'symbolic indices, tables, channels, words, instructions, ready patterns and gaps of a few items per channel; long runs that fill every queue', 'The design tests run one generated network with one timing; back-to-back acceptance, stalls and full queues do not occur in them.',
 [EXD + 'dlrm/modules/embedding_lookup.cpp', EXD + 'dlrm/modules/feature_interaction.cpp', EXD + 'dlrm/modules/custom_feature_interaction.cpp', EXD + 'dlrm/modules/collector.cpp', EXD + 'mlp/modules/dispatcher.cpp', EXD + 'dlrm_two_rad/modules/embedding_lookup.cpp'], [('Tick and Assign', EXD + 'dlrm/modules/embedding_lookup.cpp'), ('Tick and Assign', EXD + 'dlrm/modules/custom_feature_interaction.cpp')], ['aximm_req_interface and axis_interface signals, received_responses'])
prop('P25', 'The add and mult designs fold every operand exactly once',
 "In the add and mult designs an item given to the client (valid while ready) comes out of its stream port exactly once, in order, with its data and last mark unchanged, addressed to the unit of its own device, and waits unchanged until taken, whatever the receiver does and however full the client's queue is. The adder (multiplier) gives, after the operand marked last, the sum (product) of exactly the operands it took since reset, modulo 2^64, and reports no result before that operand, also when it is reset and used again.",
 ['histories', 'inputs', 'schedules'], 'symbolic items, marks, gaps and ready patterns; queues filled to the end; symbolic 64-bit operands in two runs separated by a reset', 'The design tests send one random list of small numbers once.',
 [EXD + 'add/modules/client.cpp', EXD + 'add/modules/adder.cpp', EXD + 'mult/modules/mult.cpp', EXD + 'add/modules/fifo.cpp'], [('Assign and Tick', EXD + 'add/modules/adder.cpp'), ('Assign', EXD + 'add/modules/client.cpp')], ['axis_client_interface, response, response_valid'])
prop('P26', 'A design is placed, connected and clocked as its files say',
 "Whatever the order of the lines in the placement and clock files and whether an AXI-S module is placed as a whole or port by port: every port is reported at the NoC and node its line names; ports of one direction that share a node get the interface numbers 0, 1, ...; a NoC has one adapter per direction for every node with ports of that direction, with one interface per port; a module is listed at exactly the nodes of its ports and runs on the clock its line names. A beat sent with a port's destination and interface numbers arrives, once and unchanged, at exactly that port, and an AXI-MM request to a port's base address plus any offset inside its range arrives with its address at exactly that port, on every NoC of the device.",
 ['inputs'], 'symbolic placements of up to four modules on one or two NoCs, line orders, clock choices, destinations, contents and address offsets', 'Every design has one fixed placement on one NoC.',
 [SIMD + 'design_context.cpp', SIMD + 'radsim_module.cpp', NOC + 'radsim_noc.cpp', NOC + 'aximm_slave_adapter.cpp'], [('ParseNoCPlacement, BuildDesignContext, ConnectModulesToNoC', SIMD + 'design_context.cpp'), ('DetermineBaseAddress', SIMD + 'design_context.cpp')], ['GetPortPlacement, GetPortInterfaceID, GetPortBaseAddress', 'module ports'])
prop('P27', 'config.py turns every documented configuration into what it says',
 "For every configuration file config.py accepts (one or several NoCs, configurations in any order, before or after the shared sections, used by one, several or no RADs): every RAD gets in the generated knobs exactly the values of the configuration cluster_configs names for it, with defaults for what that configuration omits; every NoC of every RAD gets, under the name that RAD reads, a BookSim file with its own topology, dimensions, routing, buffers and delays, whose packet types share the virtual channels evenly; the header's fields hold every node, virtual channel and payload of every NoC; the inter-RAD latency is rounded up to whole cycles and the bandwidth becomes the exact fraction of cycles that take a beat, at most one per cycle; main.cpp builds for every RAD the design of its configuration. Unknown parameters and virtual channels that cannot be divided are refused.",
 ['inputs', 'configurations'], 'symbolic values for every number of the file; 18 shapes of it (topologies, numbers of NoCs, configurations and RADs, order of the sections, omitted and unknown parameters)', 'Every example has one fixed configuration file with one NoC and one configuration per RAD in order.',
 ['rad-sim/config.py'], [('parse_config_file, generate_*', 'rad-sim/config.py'), ('get_fraction', 'rad-sim/config.py')], ['sim/radsim_knobs', 'sim/radsim_defines.hpp', 'sim/noc/noc*_rad*_config', 'sim/main.cpp'],
 technique='symbolic execution of the Python source (config.py) with Z3')

prop('P28', 'Every device reads its own knobs, and a run ends when all devices are done',
 "Whatever the order of the lines of a knob file, every device reads for each of its knobs exactly the integer, number, name or list that the file gives for that device, of full length, and the shared knobs keep their values; a knob that does not exist is refused. A knob set from code has the value last given to it for that device (or the cluster) and no other knob changes; asking for a knob that was never set ends the run. A device's clocks have the periods of its own knobs. A simulation goes on exactly until every device has reported done, and a device's exit code is non-zero exactly when it reported a failure.",
 ['inputs', 'histories'], 'knob files of up to three devices with symbolic values and line orders, symbolic write sequences with 32-bit values, every sequence of done and failure reports', 'Every design test has one knob file in one order and ends the same way.',
 [SIMD + 'radsim_config.cpp', SIMD + 'radsim_cluster.cpp', SIMD + 'design_context.cpp'], [('ParseRADSimKnobs', SIMD + 'radsim_config.cpp'), ('AllRADsNotDone', SIMD + 'radsim_cluster.cpp')], ['Get*Knob*', 'AllRADsNotDone', 'GetSimExitCode'])

NPU = EXD + 'npu/modules/'
prop('P29', 'NPU vector units execute every micro-operation once, in order, on its data',
 "The NPU's external register file, multi-function unit and loader execute the micro-operations they take once each and in order, and send exactly the results these ask for. The register file outputs the next input vector, the vector of the named address or nothing (flush); the multi-function unit gives the next input vector through add, subtract (either way), maximum and multiply with the named register vectors in wrapping 32-bit arithmetic; the loader outputs and writes back the input vectors with the target, address, last mark and data its micro-operation says. A register read by an operation holds every write-back word its tag waits for and all taken before, and an operation whose tag has not come waits. Only write-back words addressed to a unit change its registers and tag. Nothing is lost or repeated when FIFOs are full or receivers slow, and a reset leaves no result, word or tag behind.",
 ['histories', 'inputs', 'schedules'], 'short programs with symbolic operations, addresses, tags, input and write-back data and targets, stalls, gaps and late inputs; long programs that fill every FIFO; resets at every cycle of a first program', 'The NPU is covered by no stable test, and its own test runs one fixed program without stalls or resets.',
 [NPU + 'evrf.cpp', NPU + 'mfu.cpp', NPU + 'loader.cpp', NPU + 'fifo.cpp', NPU + 'instruction_fifo.cpp', NPU + 'register_file.cpp', NPU + 'instructions.cpp'], [('evrf::Tick and Assign', NPU + 'evrf.cpp'), ('mfu::Tick and Assign', NPU + 'mfu.cpp'), ('loader::Tick and Assign', NPU + 'loader.cpp')], ['output FIFO ports', 'write-back FIFO ports'])
prop('P30', 'NPU programs reach the units as exactly the operations they name',
 "Running a program range on the NPU's dispatcher gives every unit the operations the program has for it, all of them, once, in order and unchanged, however slowly the units take them, and again when it is run again. Each decoder turns every macro-operation it takes (skipping no-ops) into exactly the micro-operations it stands for, in order, with the first and last marked: the addresses of every batch and word, tag, operation and targets; flushes for the unused batches of the register file; row by row, in two-bank passes, the matrix words, vector words and accumulations of a matrix-vector product; and one tag update for each other block, with the interrupt, at the end of a loader operation. Decoders stop when the receiver is full and lose nothing; a reset leaves no operation behind. A macro-operation written as bits and read back, copied or assigned is the same macro-operation.",
 ['inputs', 'histories', 'schedules'], 'programs of one to three macro-operations with symbolic fields (addresses, tags, operations, targets, sizes, batches, no-ops), longer programs against small FIFOs, stalls, gaps, resets at every cycle; every field value for the bit format', 'The NPU is covered by no stable test, and its own test runs one generated program without stalls or resets.',
 [NPU + 'decoders.cpp', NPU + 'instructions.cpp', NPU + 'instruction_fifo.cpp'], [('vliw_inst_dispatch::dispatch_logic and Tick', NPU + 'decoders.cpp'), ('sector_and_accum_decoder, evrf_decoder, mfu_decoder, ld_decoder Tick', NPU + 'decoders.cpp'), ('convert_to_bv, load_from_bv', NPU + 'instructions.cpp')], ['macro-operation ports of the dispatcher', 'uop_wen and uop_wdata of the decoders', 'convert_to_bv, load_from_bv'])
prop('P31', 'A matrix-vector sector produces exactly the products its operations ask for',
 "A sector of the NPU's matrix-vector unit, fed with macro-operations through its decoder, with matrix words through its write port and with vectors as write-back words, outputs for every operation, row by row and bank by bank, the sum over tiles and column words of matrix row times vector for each of its engines, exactly once and in order, for every operand value, number of rows and columns, core and thread. An operation waits for its tag: it uses the vectors written back before it, however late they arrive. Nothing is lost, added or changed when the consumers stall or start late, also with small FIFOs; every write-back word is passed to the next sector once, in order and unchanged (by the last sector to none). A reset in the middle of work leaves nothing behind: the products after it are those of a fresh sector.",
 ['inputs', 'histories', 'schedules'], 'one to six macro-operations with symbolic operand values, numbers of rows and columns, arrival of the vectors, consumer stalls and gaps between threads; resets at every cycle of an operation at work; both sectors of two, one and two tiles, cores, threads and engines', 'The NPU is covered by no stable test, and its own test runs one generated program without stalls or resets.',
 [NPU + 'mvu_sector.cpp', NPU + 'dpe.cpp', NPU + 'accum.cpp', NPU + 'piso_register_file.cpp', NPU + 'register_file.cpp', NPU + 'asymmetric_fifo.cpp'], [('mvu_sector::Tick and Assign', NPU + 'mvu_sector.cpp'), ('dpe::AdvanceControlPipelines', NPU + 'dpe.cpp'), ('accum::Tick and Assign', NPU + 'accum.cpp')], ['sector_ofifo and sector_chain_ofifo ports', 'write-back ports'])
